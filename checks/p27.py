"""P27 graphlets, automorphism orbits and orbit counts are exactly the isomorphism classes and their counts."""
from mc import pybliss_stub
pybliss_stub.install()
import itertools
import PyBliss
import pymnet
from pymnet import graphlets as G
from mc import ref as R, nets as N, tcheck as T, glet

ID = "P27"
TITLE = "graphlets and orbits"
RULE = ("for every bounded configuration (size, layers, number of layers, couplings, permutable aspects): all labelled networks up to the "
        "size are enumerated and classified by brute force; the generated graphlets must be one of each class, the invariant index must "
        "find every labelled network, automorphism orbits must be the classes of rooted networks for every generating set of "
        "automorphisms that the external package may return, and orbit counts of every node of every network up to the stated size "
        "must equal the number of connected induced subnetworks per class")

# (n, layers, n_l, couplings, allowed aspects)
QUICK = [(2, (0,), None, None, "all"), (2, (0, 1), None, None, "all"), (2, (0, 1, 2), 2, None, (0,)), (2, (0, 1, 2), None, "ordinal", "all"),
         (3, (0,), None, None, "all"), (3, (0,), 1, "categorical", (0,)), (4, (0,), None, None, "all"), (4, (0,), None, None, (0, 1)),
         (3, (0, 1), None, None, "all"), (3, (0, 1), None, None, (0,)), (3, (0, 1), None, "categorical", "all"), (3, (0, 1), None, "categorical", (0,)),
         (3, (0, 1), 1, None, "all"), (3, (0, 1), 1, None, (0,)), (3, (0, 1), 2, "ordinal", (0, 1)), (3, (0, 2), None, "ordinal", "all"),
         (3, ("x", "y"), None, None, "all"), (3, ("x", "y"), None, None, (0,)), (3, (3, 1), 2, None, (0,)),
         (3, (0, 1, 2), 2, None, (0,)), (3, (0, 1, 2), 2, None, "all"), (3, (0, 1, 2), 2, "ordinal", "all"), (3, (0, 1, 2), 2, "ordinal", (0,)),
         (3, (0, 1, 2), None, None, "all"), (3, (0, 1, 2), None, None, (0,)), (3, (0, 1, 2), None, "ordinal", "all"),
         (3, (0, 1, 2), None, "categorical", (0, 1)), (4, (0, 1), 1, None, (0,)), (4, (0, 1), None, None, "all")]
THOROUGH = [(4, (0, 1), None, None, (0,)), (4, (0, 1), None, "categorical", "all"), (4, (0, 1, 2), 2, None, (0,)), (4, (0, 1, 2), 2, "ordinal", "all"),
            (5, (0,), None, None, "all"), (3, (0, 1, 2, 3), None, None, "all"), (3, (0, 1, 2, 3), 3, "ordinal", "all"), (3, (0, 1, 2, 3), 2, None, (0,)), (5, (0, 1), 1, None, (0,))]


def configs(tier):
    return QUICK + (THOROUGH if tier != "quick" else [])


def al_arg(al):
    return al if al == "all" else list(al)


def cpl_arg(c):
    return None if c is None else c


def names_of(cfg):
    """the layer lists of the graphlets of this configuration"""
    n, layers, n_l, cpl, al = cfg
    return list(itertools.combinations(layers, n_l or len(layers)))


def build(k, E, names, cpl, labels=None, weight=1, extra=()):
    labels = labels or list(range(k))
    net = pymnet.MultiplexNetwork(couplings=cpl)
    for x in labels:
        net.add_node(x)
    for l in names:
        net.add_layer(l)
    for i, (a, b, l) in enumerate(sorted(E)):
        net[labels[a], labels[b], names[l]] = weight if i % 2 else 1
    return net


def parts(cfg):
    n, layers, n_l, cpl, al = cfg
    size = len(names_of(cfg)) * (1 << (n * (n - 1) // 2 * (n_l or len(layers))))
    return 1 if size < 500 else 8


def shards(tier, seed):
    out = []
    for i, c in enumerate(configs(tier)):
        out += [("cls", i, 0)] + [("inv", i, p) for p in range(parts(c))] + [("orb", i, p) for p in range(1 if c[0] < 4 else 8)]
        out += [("cnt", i, p) for p in range(1 if parts(c) == 1 and c[0] == 2 else 4 if parts(c) == 1 else 16)]
    return out + [("part", 0, 0)]


def run_shard(shard, ctx):
    kind, i, p = shard
    fn = {"cls": check_cls, "inv": check_inv, "orb": check_orb, "cnt": check_cnt, "part": check_part}[kind]
    ctx.run_case((kind, configs(ctx.tier)[i], p, ctx.tier), fn, seconds=600 if ctx.tier == "quick" else 5000)


def check(case, ctx):
    {"cls": check_cls, "inv": check_inv, "orb": check_orb, "cnt": check_cnt, "part": check_part}[case[0]](case, ctx)


def generate(cfg, n=None):
    _, layers, n_l, cpl, al = cfg
    if n_l is None:
        return G.graphlets(n or cfg[0], list(layers), couplings=cpl_arg(cpl), allowed_aspects=al_arg(al))
    return G.graphlets(n or cfg[0], list(layers), n_l, couplings=cpl_arg(cpl), allowed_aspects=al_arg(al))


def read(net):
    """(k, edges, layer names, node list) of a real multiplex network"""
    s = R.snapshot(net)
    nodes = R.srt(s[4])
    names = [R.srt(l) for l in s[5]][0]
    E = frozenset((min(nodes.index(u[0]), nodes.index(v[0])), max(nodes.index(u[0]), nodes.index(v[0])), names.index(u[1]))
                  for (u, v), w in s[-1] if u[1] == v[1])
    return len(nodes), E, names, nodes


def canon_net(net, cfg, root=None):
    k, E, names, nodes = read(net)
    return glet.canon(k, E, names, cfg[3], cfg[4], None if root is None else nodes.index(root))


def check_cls(case, ctx):
    cfg = case[1]
    n, layers, n_l, cpl, al = cfg
    arg = list(layers)
    nets, invs = generate(cfg)
    ctx.state()
    if set(nets) != set(range(2, n + 1)):
        ctx.fail("sizes of the graphlets of %r" % (cfg,), list(range(2, n + 1)), sorted(nets))
        return
    for k in range(2, n + 1):
        want = set()
        for names in names_of(cfg):
            names = R.srt(names)
            for E in glet.all_nets(k, len(names)):
                if glet.connected(k, E):
                    want.add(glet.canon(k, E, names, cpl, al))
        got = {}
        for i, net in enumerate(nets[k]):
            ctx.step()
            c = canon_net(net, cfg)
            if c in got:
                ctx.fail("graphlets %d and %d of size %d are isomorphic (%r)" % (got[c], i, k, cfg), None, sorted(c[-1]))
            got[c] = i
            # the graphlet itself: nodes 0..k-1, exactly the layers, the requested couplings, weights one
            _, E, names, nodes = read(net)
            ref = R.Ref(1, False, 0, True, [(cpl, 1.0) if cpl else ("none",)])
            ref.nodes, ref.layers = set(range(k)), [set(names)]
            for a, b, l in E:
                ref.set((a, names[l]), (b, names[l]), 1)
            T.compare(ctx, net, ref, "graphlet %d of size %d of %r" % (i, k, cfg), None, pymnet.MultiplexNetwork)
            if not any(set(names) == set(x) for x in names_of(cfg)):
                ctx.fail("layers of a graphlet", names_of(cfg), names)
        if set(got) != want:
            ctx.fail("classes of size %d (%r)" % (k, cfg), "%d classes" % len(want), "missing %r, extra %r" % (sorted(want - set(got))[:2], sorted(set(got) - want)[:2]))
        ctx.outcome((cfg, k, len(got)))
    idx = sorted(invs.values())
    if idx != sorted((k, i) for k in nets for i in range(len(nets[k]))):
        ctx.fail("index of complete invariants (%r)" % (cfg,), "each graphlet once", idx[:20])
    if arg != list(layers):
        ctx.fail("graphlets modified the list of layers", list(layers), arg)


def labellings(k):
    yield list(range(k))
    yield list(range(k, 0, -1))
    yield ["n%d" % i for i in range(k)]


def check_inv(case, ctx):
    cfg, part = case[1], case[2]
    n, layers, n_l, cpl, al = cfg
    nets, invs = generate(cfg)
    forms = dict(((k, i), canon_net(net, cfg)) for k in nets for i, net in enumerate(nets[k]))
    m = 0
    for names in names_of(cfg):
        names = R.srt(names)
        for k in range(2, n + 1):
            lab = list(labellings(k))
            for E in glet.all_nets(k, len(names)):
                m += 1
                if m % parts(cfg) != part:
                    continue
                if len(E) * parts(cfg) > 1000 and m % 3:
                    continue
                ctx.step()
                net = build(k, E, names, cpl, lab[m // parts(cfg) % 3], 2)
                s = str(pymnet.get_complete_invariant(net, allowed_aspects=al_arg(al)))
                if not glet.connected(k, E):
                    if s in invs:
                        ctx.fail("disconnected network found in the index of graphlets (%r)" % (cfg,), None, (names, sorted(E)))
                    continue
                if s not in invs or forms.get(invs[s]) != glet.canon(k, E, names, cpl, al):
                    ctx.fail("graphlet found by the complete invariant of the network with edges %r in layers %r (%r)" % (sorted(E), names, cfg), "the isomorphic graphlet", invs.get(s))
    ctx.state(m)


# ---- orbits ---------------------------------------------------------------------------------
def compose(a, b):
    return dict((x, a[y]) for x, y in b.items())


def generates(gens, group):
    ident = dict((x, x) for x in group[0])
    seen = {frozenset(ident.items())}
    todo = [ident]
    while todo:
        p = todo.pop()
        for g in gens:
            q = compose(g, p)
            f = frozenset(q.items())
            if f not in seen:
                seen.add(f)
                todo.append(q)
    return len(seen) == len(group)


class Generators(object):
    """makes the external package return the given choice of generators"""
    def __init__(self, choose):
        self.choose = choose

    def __enter__(self):
        self.orig = PyBliss.Graph.find_automorphisms

        def find(g, reporter, data=None):
            autos = []
            self.orig(g, lambda a, d=None: autos.append(dict(a)))
            for a in self.choose(autos):
                reporter(a, data)
        PyBliss.Graph.find_automorphisms = find

    def __exit__(self, *a):
        PyBliss.Graph.find_automorphisms = self.orig


def generating_sets(autos, limit):
    """all generating sets of one or two automorphisms (then greedy ones), at most limit of them"""
    out = [list(range(len(autos))), list(range(len(autos)))[::-1]]
    if not autos:
        return [[]]
    for r in (1, 2):
        if len(out) >= limit:
            break
        for c in itertools.permutations(range(len(autos)), r):
            if len(out) < limit and (r == 1 or len(out) < limit) and generates([autos[i] for i in c], autos + [None] if False else autos_with_id(autos)):
                out.append(list(c))
    for order in (range(len(autos)), range(len(autos) - 1, -1, -1)):
        g = []
        for i in order:
            if not g or not spanned(autos[i], [autos[j] for j in g]):
                g.append(i)
        out.append(g)
    return out


def autos_with_id(autos):
    return [dict((x, x) for x in autos[0])] + autos


def spanned(a, gens):
    ident = dict((x, x) for x in a)
    seen = {frozenset(ident.items())}
    todo = [ident]
    while todo:
        p = todo.pop()
        for g in gens:
            q = compose(g, p)
            f = frozenset(q.items())
            if f not in seen:
                seen.add(f)
                todo.append(q)
    return frozenset(a.items()) in seen


def check_orb(case, ctx):
    cfg, part = case[1], case[2]
    n, layers, n_l, cpl, al = cfg
    nets, invs = generate(cfg)
    every = [(k, i) for k in nets for i in range(len(nets[k]))]
    P = 1 if n < 4 else 8
    if part == 0:
        auts = G.automorphism_orbits(nets, allowed_aspects=al_arg(al))
        check_auts(ctx, cfg, nets, auts, every)
        ois = G.orbit_numbers(n, nets, auts)
        orbits = set((k, i, v) for (k, i, x), v in auts.items())
        if set(ois) != orbits or sorted(ois.values()) != list(range(len(orbits))):
            ctx.fail("orbit numbers (%r)" % (cfg,), "a numbering of the orbits", len(ois))
        sizes = [o[0] for o in sorted(ois, key=lambda o: ois[o])]
        if sizes != sorted(sizes):
            ctx.fail("orbit numbers are not ordered by size", sorted(sizes), sizes)
        ol = G.ordered_orbit_list(ois)
        if ol != sorted(ois, key=lambda o: ois[o]):
            ctx.fail("ordered_orbit_list (%r)" % (cfg,), "inverse of the numbering", ol)
        if n > 2:
            if set(G.orbit_numbers(n - 1, nets, auts)) != set(o for o in orbits if o[0] < n):
                ctx.fail("orbit numbers up to a smaller size", None, None)
        lists = G.list_orbits(auts)
        if dict((k, sorted(v, key=repr)) for k, v in lists.items()) != dict((k, sorted((o for o in orbits if o[0] == k), key=repr)) for k in nets):
            ctx.fail("list_orbits (%r)" % (cfg,), "the orbits by size", lists)
    for num, (k, i) in enumerate(every):
        if num % P != part:
            continue
        one = {k: [nets[k][i]]}
        autos = []
        rec = lambda a: autos.append(a) or a
        with Generators(rec):
            pymnet.get_automorphism_generators(nets[k][i], allowed_aspects=al_arg(al))
        autos = autos[0] if autos else []
        for sel in generating_sets(autos, 40 if ctx.tier == "quick" else 200):
            ctx.step()
            with Generators(lambda a, sel=sel: [a[j] for j in sel] if len(a) == len(autos) else a):
                auts = G.automorphism_orbits(one, allowed_aspects=al_arg(al))
                check_auts(ctx, cfg, one, auts, [(k, 0)])
                if len(sel) < 3 or len(autos) < 8:
                    check_nl(ctx, cfg, one[k][0], k, dict(((key[2]), v) for key, v in G.graphlets_module.automorphism_orbits_nl(one, allowed_aspects=al_arg(al)).items()))
            if ctx.fails:
                return
    ctx.state(len(every))


def check_auts(ctx, cfg, nets, auts, every):
    keys = set((k, i, x) for k, i in every for x in R.snapshot(nets[k][i])[4])
    if set(auts) != keys:
        ctx.fail("nodes with orbits (%r)" % (cfg,), sorted(keys)[:10], sorted(auts)[:10])
        return
    for k, i in every:
        kk, E, names, nodes = read(nets[k][i])
        form = dict((x, glet.canon(k, E, names, cfg[3], cfg[4], nodes.index(x))) for x in nodes)
        for x in nodes:
            for y in nodes:
                if (form[x] == form[y]) != (auts[k, i, x] == auts[k, i, y]):
                    ctx.fail("nodes %r and %r of the graphlet with edges %r (%r): same orbit" % (x, y, sorted(E), cfg), form[x] == form[y], auts[k, i, x] == auts[k, i, y])
            if form[auts[k, i, x]] != form[x]:
                ctx.fail("name of the orbit of node %r" % (x,), "a node of the orbit", auts[k, i, x])


def check_nl(ctx, cfg, net, k, auts):
    kk, E, names, nodes = read(net)
    L = len(names)
    free = cfg[4] == "all" or 1 in cfg[4]
    C = glet.coupled(cfg[3], names)
    group = []
    for pm in itertools.permutations(range(L)) if free else [tuple(range(L))]:
        if frozenset(tuple(sorted((pm[i], pm[j]))) for i, j in C) != C:
            continue
        for pn in itertools.permutations(range(k)):
            if frozenset((min(pn[a], pn[b]), max(pn[a], pn[b]), pm[l]) for a, b, l in E) == E:
                group.append((pn, pm))
    nls = list(itertools.product(range(k), range(L)))
    if set(auts) != set((nodes[a], names[l]) for a, l in nls):
        ctx.fail("node-layers with orbits", None, sorted(auts, key=repr))
        return
    for a, l in nls:
        orb = set((nodes[pn[a]], names[pm[l]]) for pn, pm in group)
        for b, m in nls:
            same = auts[nodes[a], names[l]] == auts[nodes[b], names[m]]
            if same != ((nodes[b], names[m]) in orb):
                ctx.fail("node-layers %r and %r of the graphlet with edges %r (%r): same orbit" % ((a, l), (b, m), sorted(E), cfg), not same, same)
                return


# ---- counts ---------------------------------------------------------------------------------
def check_cnt(case, ctx):
    cfg, part = case[1], case[2]
    n, layers, n_l, cpl, al = cfg
    nets, invs = generate(cfg)
    auts = G.automorphism_orbits(nets, allowed_aspects=al_arg(al))
    ol = G.ordered_orbit_list(G.orbit_numbers(n, nets, auts))
    rooted = dict((o, canon_net(nets[o[0]][o[1]], cfg, o[2])) for o in ol)
    P = 1 if parts(cfg) == 1 and n == 2 else 4 if parts(cfg) == 1 else 16
    names0 = R.srt(names_of(cfg)[-1])
    L = len(names0)
    seen = set()
    m = 0
    for N_ in range(2, n + 2):
        bits = N_ * (N_ - 1) // 2 * L
        if bits > (12 if ctx.tier == "quick" else 18):
            continue
        for E in glet.all_nets(N_, L):
            c = glet.canon(N_, E, names0, cpl, al)
            if c in seen:
                continue
            seen.add(c)
            m += 1
            if m % P != part:
                continue
            ctx.step()
            for which in range(2 if N_ <= 3 else 1):
                labels = list(labellings(N_))[(m // P + which) % 3]
                net = build(N_, E, names0, cpl, labels, 3)
                before = R.snapshot(net)
                every = G.orbit_counts_all(net, n, nets, invs, auts, ol, allowed_aspects=al_arg(al))
                d = R.diff(R.snapshot(net), before)
                if d:
                    ctx.fail("orbit_counts_all modified the network", None, d)
                    net = build(N_, E, names0, cpl, labels, 3)
                for x in range(N_):
                    want = glet.counts(N_, E, names0, cpl, al, x, n)
                    want = dict((o, want.get(rooted[o], 0)) for o in ol)
                    got = dict((o, every.get((labels[x], o))) for o in ol)
                    report(ctx, "orbit_counts_all", cfg, names0, E, x, want, got)
                    one = {}
                    G.orbit_counts(n, labels[x], net, nets, one, auts, invs, ol, allowed_aspects=al_arg(al))
                    report(ctx, "orbit_counts", cfg, names0, E, x, want, dict((o, one.get((labels[x], o))) for o in ol))
                    if len(one) != len(ol):
                        ctx.fail("orbit_counts stored counts of other nodes", len(ol), len(one))
                    if N_ <= n and glet.connected(N_, E):
                        o = G.graphlets_module.orbit_name(labels[x], net, nets, invs, auts, allowed_aspects=al_arg(al))
                        if rooted.get(o) != glet.canon(N_, E, names0, cpl, al, x):
                            ctx.fail("orbit_name of node %d of the network with edges %r (%r)" % (x, sorted(E), cfg), None, o)
                if len(every) != N_ * len(ol):
                    ctx.fail("orbit_counts_all: number of counts", N_ * len(ol), len(every))
                d = R.diff(R.snapshot(net), before)
                if d:
                    ctx.fail("orbit_counts modified the network", None, d)
                if ctx.fails:
                    return
    ctx.state(m)
    ctx.outcome((cfg, m))


def report(ctx, what, cfg, names, E, x, want, got):
    for o in want:
        if want[o] != got[o]:
            ctx.fail("%s: node %d, orbit %r, network with edges %r in layers %r (%r)" % (what, x, o, sorted(E), names, cfg), want[o], got[o])
            return


def check_part(case, ctx):
    """partitions to subsets of a size, with and without a remainder"""
    P, PR = G.graphlets_module.partitions, G.graphlets_module.partitions_with_remainder
    norm = lambda p: frozenset(frozenset(x) for x in p)
    for size in range(0, 7):
        for r in range(1, 5):
            ctx.step()
            s = list(range(size))
            if size % r == 0:
                got = [norm(x) for x in P(s, r)]
                want = set(norm(x) for x in brute_partitions(s, r))
                if len(got) != len(set(got)) or set(got) != want:
                    ctx.fail("partitions(range(%d), %d)" % (size, r), len(want), got)
            if size:
                got = [frozenset(frozenset(y) for y in x if y) for x in PR(s, r)]
                want = set()
                for k in range(0, size // r + 1):
                    rem = size - k * r
                    if rem == r:
                        continue
                    for c in itertools.combinations(s, rem):
                        for p in brute_partitions([x for x in s if x not in c], r):
                            want.add(frozenset([frozenset(y) for y in p] + ([frozenset(c)] if c else [])))
                if set(got) != want or len(got) != len(set(got)):
                    ctx.fail("partitions_with_remainder(range(%d), %d)" % (size, r), len(want), got)
    ctx.state()


def brute_partitions(s, r):
    if not s:
        yield []
        return
    for c in itertools.combinations(s[1:], r - 1):
        for p in brute_partitions([x for x in s[1:] if x not in c], r):
            yield [(s[0],) + c] + p

"""P26 network models: every outcome of the random source gives a network of the promised ensemble."""
import itertools
from fractions import Fraction
import pymnet
from pymnet import models
from mc import nets, ref as R, tcheck as T, choice

ID = "P26"
TITLE = "network models"
RULE = ("every model x bounded parameters x every outcome of the random source (continuous draws are divided to the classes that "
        "the connection probabilities separate, with exact probabilities): every generated network has the promised nodes, layers, "
        "couplings and edges, and the exact probability of each edge set, where the model promises one, equals its formula")

CAT = ("categorical", 1.0)


def menu(ps, top):
    """values of random.random() separated by geometric jumps and coins with the probabilities ps"""
    b = {Fraction(0), Fraction(1)}
    for p in ps:
        p = Fraction(p)
        if 0 < p < 1:
            b.add(p)
            for k in range(1, top + 1):
                b.add(1 - (1 - p) ** k)
    b = sorted(b)
    return [(float((x + y) / 2), y - x) for x, y in zip(b, b[1:])]


def shards(tier, seed):
    return [(n, p) for n in sorted(FAM) for p in range(FAM[n][2])]


def cases(shard, tier):
    n, p = shard
    for i, c in enumerate(FAM[n][0](tier == "quick")):
        if i % FAM[n][2] == p:
            yield (n,) + tuple(c)


def check(case, ctx):
    ctx.state()
    FAM[case[0]][1](ctx, *case[1:])
    ctx.outcome(case[0])


def pairs(ns):
    return list(itertools.combinations(ns, 2))


def target(layers, nodes, full, couplings):
    """empty reference network; nodes: one list per layer, or None layers for a monoplex network"""
    if layers is None:
        r = R.Ref(0)
        r.nodes = set(nodes[0])
        return r
    r = R.Ref(1, False, 0, full, [couplings])
    r.layers = [set(layers)]
    r.nodes = set().union(*nodes) if nodes else set()
    if not full:
        r.nl = set((n, l) for l, ns in zip(layers, nodes) for n in ns)
    return r


def fill(r, sets, layers):
    for E, l in zip(sets, layers if layers is not None else [None]):
        for a, b in E:
            r.set((a,) if l is None else (a, l), (b,) if l is None else (b, l), 1)
    return r


def intra(net, layers):
    """edge sets per layer of the real network, read from the raw snapshot"""
    out = dict((l, set()) for l in (layers if layers is not None else [None]))
    for (u, v), w in R.snapshot(net)[-1]:
        l = u[1] if layers is not None else None
        if layers is None or u[1] == v[1]:
            out.setdefault(l, set()).add(frozenset((u[0], v[0])))
    return tuple(frozenset(out[l]) for l in (layers if layers is not None else [None]))


def ensemble(ctx, run, what, base, layers, want, floats=(0.5,), limit=40, kind=None, pairing=None):
    """base(): empty Ref of the promised shape; want: {tuple of edge sets: probability}"""
    prob = {}
    n = 0
    for ch, net in choice.explore(run, floats, limit=limit, pairing=pairing):
        n += 1
        ctx.step()
        key = intra(net, layers)
        if key not in prob:
            T.compare(ctx, net, fill(base(), [[tuple(e) if len(e) == 2 else tuple(e) * 2 for e in E] for E in key], layers), what, None, kind)
        prob[key] = prob.get(key, 0) + ch.prob
    for k, p in want.items():
        if prob.pop(k, 0) != p:
            ctx.fail("%s: probability of the edges %s" % (what, [R.srt(map(R.srt, E)) for E in k]), p, "different or impossible")
            return
    if prob:
        ctx.fail("%s: edges that cannot occur" % what, None, [[R.srt(map(R.srt, E)) for E in k] for k in prob][:2])
    ctx.count("ensembles")
    ctx.outcome((what.split("(")[0], n))


def coin_dist(ns, p):
    p = Fraction(p)
    ps = pairs(ns)
    for sub in T.subsets(ps):
        q = p ** len(sub) * (1 - p) ** (len(ps) - len(sub))
        if q:
            yield frozenset(map(frozenset, sub)), q


def unif_dist(ns, m):
    cs = list(itertools.combinations(pairs(ns), m))
    for sub in cs:
        yield frozenset(map(frozenset, sub)), Fraction(1, len(cs))


def product(dists):
    out = {}
    for c in itertools.product(*dists):
        q = Fraction(1)
        for _, p in c:
            q *= p
        out[tuple(k for k, _ in c)] = q
    return out


# ---- Erdos-Renyi ----------------------------------------------------------------------------
PS = (0.0, 0.25, 0.5, 0.75, 1.0, 0, 1, 0.9, 1e-3)


def f_er(q):
    for n in range(0, 5 if q else 6):
        for p in PS if n < 4 else PS[1:4] + ((0.9,) if n == 4 else ()):
            yield ("p", n, p)
        M = n * (n - 1) // 2
        for m in range(0, M + 1):
            if m <= 3 or (M <= 6 and (m < 6 or not q)):
                yield ("m", n, m)
    for n in range(1, 4):
        for ps in itertools.product((0.0, 0.25, 0.5, 1.0), repeat=2):
            if n < 3 or ps in ((0.25, 0.5), (0.5, 0.5), (1.0, 0.25), (0.25, 0.0)):
                yield ("ps", n, ps)
        for ms in itertools.product(range(n * (n - 1) // 2 + 1), repeat=2):
            yield ("ms", n, ms)
    yield ("ps", 2, (0.5, 0.25, 0.75))
    yield ("ps", 3, (0.5,))
    yield ("ms", 4, (2,))
    yield ("ms", 3, (1, 0, 2))
    lists = ((("a", "b"), ("b", "c", "d")), ((), ("b", "c")), ((1,), (2, 3, 1)), ((3, 1, 2), (1, 2, 3)), ((1, 2), (2, 3), (3, 1)), ((5, 6, 7),))
    for ns in lists:
        for p in (0.5, 0.25, 1.0, 0):
            yield ("np", ns, p)
        for ps in ((0.5,) * len(ns), (0.25, 0.5, 0.75)[:len(ns)], (0.0, 1.0, 0.5)[:len(ns)]):
            yield ("nps", ns, ps)
            for c in (CAT, ("ordinal", 2.0), ("none",)):
                yield ("part", ns, ps, c)
        yield ("nm", ns, 1 if all(len(x) > 1 for x in ns) else 0)
        yield ("nms", ns, tuple(min(i + 1, len(x) * (len(x) - 1) // 2) for i, x in enumerate(ns)))
    for n in (20,) if q else (20, 60):
        yield ("bij", n)
    for bad in ((3, None, None), (3, 0.5, 2), (((1, 2), (2,)), (0.5,), None), (((1, 2), (2,)), None, (1,)), (3, (0.5,), (1,))):
        yield ("bad",) + bad


def er(ctx, mode, *a):
    if mode == "bad":
        n, p, m = a
        try:
            models.er(n, p, m)
        except Exception:
            ctx.step()
        else:
            ctx.fail("er(%r, p=%r, edges=%r)" % (n, p, m), "an exception", "accepted")
        return
    if mode == "bij":
        n = a[0]
        M = n * (n - 1) // 2
        seen = {}
        for ch, net in choice.explore(lambda: models.er(n, edges=1), limit=4):
            ctx.step()
            k = intra(net, None)[0]
            seen[k] = seen.get(k, 0) + ch.prob
        for e in pairs(range(n)):
            if seen.pop(frozenset([frozenset(e)]), 0) != Fraction(1, M):
                ctx.fail("probability of the edge %r in er(%d, edges=1)" % (e, n), Fraction(1, M), "different")
        if seen:
            ctx.fail("er(%d, edges=1)" % n, "one edge", list(seen)[:1])
        return
    fl = (0.5,)
    kind = pymnet.MultiplexNetwork
    if mode in ("p", "m"):
        n, x = a
        kw = {"p": x} if mode == "p" else {"edges": x}
        layers, nodes, full, cpl = None, [range(n)], True, None
        kind = pymnet.MultilayerNetwork
        dists = [list(coin_dist(range(n), x) if mode == "p" else unif_dist(range(n), x))]
        f = lambda: models.er(n, **kw)
    elif mode in ("ps", "ms"):
        n, x = a
        kw = {"p": list(x)} if mode == "ps" else {"edges": list(x)}
        layers, nodes, full, cpl = list(range(len(x))), [range(n)] * len(x), True, CAT
        dists = [list(coin_dist(range(n), y) if mode == "ps" else unif_dist(range(n), y)) for y in x]
        f = lambda: models.er(n, **kw)
    else:
        ns, x = a[0], a[1]
        xs = x if isinstance(x, tuple) else (x,) * len(ns)
        layers, nodes, full, cpl = list(range(len(ns))), ns, False, CAT
        dists = [list(coin_dist(n, y) if mode in ("np", "nps", "part") else unif_dist(n, y)) for n, y in zip(ns, xs)]
        arg = lambda: [list(n) for n in ns]
        val = x if not isinstance(x, tuple) else list(x)
        if mode == "part":
            cpl = a[2]
            f = lambda: models.er_partially_interconnected(arg(), val, cpl)
        elif mode in ("np", "nps"):
            f = lambda: models.er(arg(), p=val)
        else:
            f = lambda: models.er(arg(), edges=val)
    if mode in ("p", "ps", "np", "nps", "part"):
        big = max([len(pairs(n)) for n in nodes] + [1])
        ps = [a[1]] if not isinstance(a[1], tuple) else a[1]
        fl = menu(ps, big)
    ensemble(ctx, f, "er%r" % ((mode,) + a,), lambda: target(layers, nodes, full, cpl), layers, product(dists), fl, kind=kind)


# ---- full networks --------------------------------------------------------------------------
def f_full(q):
    for n in range(0, 5):
        for layers in (None, 0, 1, 2, 3, ("a", "b"), (3, 1, 2), ("x",)):
            for c in (CAT, ("none",), ("ordinal", 1.0)):
                if layers is not None or c == CAT:
                    yield ("plex", n, layers, c)
            if layers is not None:
                yield ("layer", n, layers, None)


def full(ctx, mode, n, layers, c):
    ctx.step()
    ls = None if layers is None else list(range(layers)) if isinstance(layers, int) else list(layers)
    arg = list(layers) if isinstance(layers, tuple) else layers
    if mode == "plex":
        if c[0] == "ordinal" and not all(isinstance(l, int) for l in ls):
            return
        if ls is None:
            net = models.full(n, None)
            kind = pymnet.MultilayerNetwork
        else:
            net = models.full(n, arg) if c == CAT else models.full(n, arg, couplings=c)
            kind = pymnet.MultiplexNetwork
        r = target(ls, [range(n)] * max(1, len(ls or [0])), True, c)
        fill(r, [pairs(range(n))] * len(ls if ls is not None else [0]), ls)
    else:
        net = models.full_multilayer(n, arg)
        kind = pymnet.MultilayerNetwork
        r = R.Ref(1)
        r.nodes, r.layers = set(range(n)), [set(ls)]
        for u, v in itertools.combinations(itertools.product(range(n), ls), 2):
            r.set(u, v, 1)
    T.compare(ctx, net, r, "full network of %d nodes and layers %r" % (n, layers), None, kind)


# ---- multilayer Erdos-Renyi -----------------------------------------------------------------
def f_erm(q):
    for n in range(0, 4):
        for layers in (0, 1, 2, ("a", "b")) if n < 3 else (1, 2) if q else (1, 2, ("a", "b")):
            for p in (0.5, 0.25, 0.0, 1.0):
                for rw in (False, True):
                    if n < 3 or layers == 1 or not rw:
                        yield (n, layers, p, rw)
    if not q:
        yield (2, 3, 0.5, False)


def erm(ctx, n, layers, p, rw):
    ls = list(range(layers)) if isinstance(layers, int) else list(layers)
    arg = list(layers) if isinstance(layers, tuple) else layers
    # pairs of node-layers of different nodes (edges between node-layers of one node are not judged)
    allp = [frozenset((u, v)) for u, v in itertools.combinations(itertools.product(range(n), ls), 2) if u[0] != v[0]]
    fl = menu((p,), 1) if p in (0.25,) else [(0.25, Fraction(1, 2)), (0.75, Fraction(1, 2))]
    prob, wsum = {}, {}
    for ch, net in choice.explore(lambda: models.er_multilayer(n, arg, p, **({"randomWeights": True} if rw else {})), fl, limit=60):
        ctx.step()
        s = R.snapshot(net)
        r = R.Ref(1)
        r.nodes, r.layers = set(range(n)), [set(ls)]
        E = set()
        for (u, v), w in s[-1]:
            r.E[u, v] = w
            if u[0] != v[0]:
                E.add(frozenset((u, v)))
            if not (w == 1 if not rw else 0 < w <= 1):
                ctx.fail("er_multilayer weight", "1" if not rw else "in (0,1]", w)
            if rw and u[0] != v[0]:
                k = (frozenset((u, v)), w)
                wsum[k] = wsum.get(k, 0) + ch.prob / (2 if repr(u) != repr(v) else 1)
        T.compare(ctx, net, r, "er_multilayer(%r, %r, %r)" % (n, layers, p), None, pymnet.MultilayerNetwork)
        E = frozenset(E)
        prob[E] = prob.get(E, 0) + ch.prob
    P = Fraction(p)
    for sub in T.subsets(allp):
        want = P ** len(sub) * (1 - P) ** (len(allp) - len(sub))
        if prob.pop(frozenset(sub), 0) != want:
            ctx.fail("er_multilayer(%r, %r, %r): probability of the edges %r" % (n, layers, p, [R.srt(e) for e in sub]), want, "different")
            return
    if any(prob.values()):
        ctx.fail("er_multilayer(%r, %r, %r): impossible edges" % (n, layers, p), None, list(prob)[0])
    if rw:
        for e in allp:
            for v, q in fl:
                if wsum.get((e, v), 0) != P * q:
                    ctx.fail("er_multilayer: probability of weight %r of the edge %r" % (v, R.srt(e)), P * q, wsum.get((e, v), 0))


# ---- configuration models -------------------------------------------------------------------
SEQ = [(0,), (1, 1), (1, 1, 0), (2, 1, 1), (2, 2, 2), (1,) * 4, (3, 1, 1, 1), (2, 2, 1, 1), (2, 2, 2, 2), (3, 2, 2, 1), (3, 3, 2, 2), (2, 1, 1, 1, 1), (2, 2, 2, 1, 1),
       (2, 2, 1, 1, 1, 1), (4, 1, 1, 1, 1), (3, 2, 1, 1, 1), (2, 2, 2, 2, 2), (3, 3, 1, 1, 1, 1), (2, 2, 2, 2, 1, 1), (2, 2, 1, 1, 1, 1, 0)]
SEQ_T = [(3, 2, 2, 1, 1, 1), (4, 2, 1, 1, 1, 1), (2,) * 6, (3, 3, 2, 1, 1, 1, 1), (4, 1, 1, 1, 1, 1, 1), (3, 3, 3, 1, 1, 1), (4, 4, 1, 1, 1, 1, 1, 1)]


def hist(seq):
    h = {}
    for k in seq:
        h[k] = h.get(k, 0) + 1
    return h


def f_conf(q):
    for s in SEQ + ([] if q else SEQ_T):
        yield ("nodes", s)
        if len(s) < 6 or not q:
            yield ("dist", s)
    two = [((1, 1), (1, 1)), ((1, 1, 0), (2, 1, 1)), ((0, 0), (1, 1)), ((1, 1), (1, 1, 0)), ((2, 1, 1), (0, 0, 0)), ((2, 2, 2), (1, 1, 0)), ((0,), (1, 1, 1, 1))]
    for t in two:
        for form in ("list", "dict", "ndict", "nlist"):
            for c in (CAT, ("ordinal", 2.0), ("none",)):
                yield ("plex", t, form, c)
    for t in [((1, 1, 0), (1, 1), (1, 1)), ((1, 1), (1, 1, 0), (1, 1)), ((1, 1), (1, 1), (1, 1, 0)), ((0, 0), (1, 1), (0, 0))]:
        for form in ("list", "dict", "ndict", "nlist"):
            yield ("plex", t, form, CAT)
    for t in [(("a", "b"), ("b", "c")), (("a", "b"), ("b", "a")), (("a", "b"), ("c", "d"), ("c", "d")), (("a", "b"), ("a", "b", "c"), ("a", "b"))]:
        yield ("names", t)
    for bad in ((1,), (2, 1), (3, 1), (1, 1, 1)):
        yield ("bad", bad)
    for i in range(len(FIX) + (0 if q else len(FIX_T))):
        yield ("fix", i)


# pairings given by the shuffle, with self-links and multiple links that have to be swapped away (and the number of swaps)
def singles(n, first=10):
    return [(first + 2 * i, first + 2 * i + 1) for i in range(n)]


FIX = [([(1, 2)] * 2 + singles(3), 1), ([(1, 2)] * 3 + singles(3), 1), ([(1, 2)] * 4 + singles(4), 2), ([(1, 2)] * 5 + singles(4), 2), ([(1, 1)] + singles(3), 1),
       ([(1, 1), (1, 1)] + singles(4), 2), ([(1, 1), (2, 2)] + singles(4), 2), ([(1, 1), (2, 3), (2, 3)] + singles(3), 2), ([(11, 2), (1, 1), (2, 11), (12, 3), (4, 13)], 2),
       ([(1, 2), (1, 2), (3, 4), (3, 4)] + singles(3), 2), ([(1, 2), (1, 2), (1, 3), (1, 3)] + singles(4), 2), ([(1, 1), (1, 2), (1, 2)] + singles(4), 2),
       ([(2, 1), (1, 2), (1, 3)] + singles(3), 1), ([(3, 1), (2, 2), (3, 4), (4, 1), (5, 6)], 1), ([(1, 1), (1, 10)] + singles(3), 1), ([(1, 2), (1, 2), (1, 10), (2, 13)] + singles(4), 1)]
FIX_T = [([(1, 1), (2, 2), (3, 3)] + singles(4), 3), ([(1, 1), (2, 3), (2, 3), (2, 3), (4, 4)] + singles(4), 3), ([(1, 2)] * 6 + singles(4), 3), ([(1, 2)] * 4 + [(3, 3)] + singles(4), 3)]


def names(n):
    return ["n%d" % i for i in range(n)]


def degs_of(net, layers):
    """degree sequence per layer counted from the raw edges; None if there are self-links"""
    out = {}
    for l, E in zip(layers if layers is not None else [None], intra(net, layers)):
        d = {}
        for e in E:
            if len(e) == 1:
                return None
            for x in e:
                d[x] = d.get(x, 0) + 1
        out[l] = d
    return out


def one_conf(ctx, f, what, layers, nodes, full, cpl, judge, budget, pairing=5, arrange=()):
    n = done = 0
    for ch, net in choice.explore(f, (0.5,), limit=60, samples=budget[0], max_runs=budget[1], pairing=pairing, arrange=arrange):
        n += 1
        ctx.step()
        if net is choice.TooLong:
            ctx.count("cut_executions")
            continue
        done += 1
        d = degs_of(net, layers)
        if d is None:
            ctx.fail(what + " has self-links", None, R.snapshot(net)[-1])
            return
        if not judge(d):
            ctx.fail("degrees of the network given by %s (choices %r)" % (what, list(ch)), "as requested", d)
            return
        T.compare(ctx, net, fill(target(layers, nodes, full, cpl), [[tuple(e) for e in E] for E in intra(net, layers)], layers), what)
    if n == budget[1]:
        ctx.count("capped_shards")
    ctx.count("completed_executions", done)
    ctx.outcome((what, done))


def conf(ctx, mode, *a):
    small = (2 if mode in ("nodes", "dist") and sum(a[0]) <= 8 else 1, 60000) if ctx.tier == "quick" else (3 if mode in ("nodes", "dist") and sum(a[0]) <= 8 else 2, 1000000)
    if mode == "bad":
        seq = a[0]
        for degs, t in ((dict(zip(names(len(seq)), seq)), "nodes"), (hist(seq), "distribution"), (hist((1, 1)), "nosuch"), ([hist((1, 1))], "nosuch")):
            ctx.step()
            try:
                models.conf(degs, t)
            except Exception:
                continue
            ctx.fail("conf(%r, %r)" % (degs, t), "an exception", "accepted")
        return
    if mode == "fix":
        prs, swaps = (FIX + FIX_T)[a[0]]
        stubs = [x for e in prs for x in e]
        d = hist(stubs)
        one_conf(ctx, lambda: models.conf(d, degstype="nodes"), "conf(%r, 'nodes') with the pairs %r" % (d, prs), None, [list(d)], True, None,
                 lambda g: all(g[None].get(x, 0) == k for x, k in d.items()), (swaps, 100000), arrange=[stubs])
    elif mode == "names":
        t = a[0]
        vals = [dict((x, int(i < 2)) for i, x in enumerate(ns)) for ns in t]
        one_conf(ctx, lambda: models.conf(vals, degstype="nodes"), "conf(%r)" % (vals,), list(range(len(t))), t, len(set(map(frozenset, t))) == 1, CAT,
                 lambda g: all(g[l].get(x, 0) == k for l, v in enumerate(vals) for x, k in v.items()), (1, 30000))
    elif mode == "nodes":
        seq = a[0]
        ns = names(len(seq))
        d = dict(zip(ns, seq))
        one_conf(ctx, lambda: models.conf(d, degstype="nodes"), "conf(%r, 'nodes')" % (d,), None, [ns], True, None,
                 lambda g: all(g[None].get(x, 0) == d[x] for x in ns), small)
    elif mode == "dist":
        seq = a[0]
        h = hist(seq)
        one_conf(ctx, lambda: models.conf(h), "conf(%r)" % (h,), None, [range(len(seq))], True, None,
                 lambda g: hist(g[None].get(x, 0) for x in range(len(seq))) == h, small, 3 if len(seq) < 4 else 2)
    else:
        t, form, c = a
        kw = {} if c == CAT else {"couplings": c}
        named = form in ("dict", "ndict")
        layers = [5, 3, 8][:len(t)] if named else list(range(len(t)))
        if form in ("list", "dict"):
            vals = [hist(s) for s in t]
            nodes = [range(len(s)) for s in t]
            kw["degstype"] = "distribution"
            judge = lambda g: all(hist(g[l].get(x, 0) for x in ns) == v for l, ns, v in zip(layers, nodes, vals))
        else:
            vals = [dict(zip(names(len(s)), s)) for s in t]
            nodes = [names(len(s)) for s in t]
            kw["degstype"] = "nodes"
            judge = lambda g: all(g[l].get(x, 0) == v[x] for l, ns, v in zip(layers, nodes, vals) for x in ns)
        full = len(set(map(len, nodes))) == 1
        arg = dict(zip(layers, vals)) if named else vals
        one_conf(ctx, lambda: models.conf(arg, **kw), "conf(%r, %r)" % (arg, kw), layers, nodes, full, c, judge, (2, 30000), 3)


def f_copy(q):
    for r in nets.enum(0, (1, 2, 3, 4), (), loops=False, weight=lambda i: i + 1, min_edges=1):
        yield (nets.lit(r),)
    for full in (True, False):
        for r in nets.enum(1, (1, 2, 3), (("a", "b"),), couplings=("categorical",), full=full, weight=lambda i: i + 1, max_edges=2 if q else 4, isolated="all"):
            yield (nets.lit(r),)


def copy(ctx, l):
    ref = nets.unlit(l)
    net = R.build(ref)
    before = ref.snap()
    layers = R.srt(ref.layers[0]) if ref.aspects else None
    want = {}
    nodes = []
    for lay in layers if layers is not None else [None]:
        ns = R.srt(ref.nodes) if ref.full or layers is None else R.srt(u[0] for u in ref.nl if u[1] == lay)
        nodes.append(ns)
        want[lay] = dict((x, sum(1 for (u, v) in ref.E if u[0] == x and (layers is None or u[1] == lay))) for x in ns)
    aligned = len(set(map(tuple, nodes))) == 1
    judge = lambda g: all(g[lay].get(x, 0) == k for lay, d in want.items() for x, k in d.items())
    for c in (None, ("ordinal", 2.0), ("none",)):
        if c is not None and (layers is None or c[0] == "ordinal"):
            continue
        kw = {} if c is None else {"couplings": c}
        one_conf(ctx, lambda: models.conf(net, **kw), "conf(network, %r)" % kw, layers, nodes, aligned, c or CAT, judge, (1, 30000) if ctx.tier == "quick" else (2, 30000))
    T.unchanged(ctx, net, before, "conf")


OL = [{("a",): (1, 1)}, {("a", "b"): (1, 1)}, {("a",): (1, 1, 0), ("b",): (0, 1, 1)}, {("a", "b"): (1, 1, 0, 0), ("a",): (1, 1, 1, 1)},
      {("a", "b"): (2, 1, 1, 0)}, {("a", "b", "c"): (1, 1, 0, 0), ("a", "c"): (0, 0, 1, 1), ("b",): (1, 0, 1, 0)},
      {("a",): (2, 1, 1, 1, 1), ("b",): (0, 0, 0, 0, 0)}, {("a",): (2, 2, 1, 1, 1, 1)}, {("a", "b"): (0, 0, 1, 1, 1, 1), ("a",): (1, 1, 1, 1, 1, 1)},
      {("b",): (1, 1, 0, 0, 0, 0), ("a",): (1, 1, 1, 1, 1, 1)},
      {("b",): (1, 1, 0, 0, 0, 0), ("a",): (2, 2, 1, 1, 1, 1)}, {("b",): (1, 1, 2, 0, 0, 0), ("a",): (1, 1, 1, 1, 1, 1)},
      {("b",): (1, 1, 0, 0, 0, 0), ("a",): (2, 1, 1, 1, 1, 0)}]
OL_T = [{("b",): (1, 1, 1, 1, 0, 0), ("a",): (2, 2, 1, 1, 1, 1)}, {("b",): (3, 1, 1, 1, 0, 0), ("a",): (3, 1, 1, 1, 1, 1)},
        {("a", "b"): (3, 3, 1, 1, 1, 1)}, {("a", "b"): (2, 2, 1, 1, 1, 1), ("a", "c"): (1, 1, 1, 1, 0, 0)}]


# (spec as pairs per combination, number of swaps): the shuffle of each combination gives exactly these pairs
OL_FIX = [([(("a",), [(0, 1), (3, 5)]), (("b",), [(0, 1), (2, 3), (4, 5), (6, 7)])], 1), ([(("a",), [(0, 1), (2, 3)]), (("b",), [(0, 1), (2, 3), (4, 5), (6, 7), (8, 9)])], 2),
          ([(("a",), [(1, 2), (3, 4)]), (("b",), [(0, 0), (1, 2), (3, 5), (6, 7), (4, 8)])], 2), ([(("a",), [(0, 2)]), (("b",), [(0, 1), (1, 0), (2, 3), (4, 5), (6, 7)])], 1),
          ([(("a",), [(0, 1)]), (("b",), [(0, 1), (0, 1), (2, 3), (4, 5), (6, 7)])], 2), ([(("a", "b"), [(0, 2), (4, 6)]), (("b",), [(0, 1), (0, 1), (0, 1), (2, 3), (4, 5), (6, 7)])], 1),
          ([(("b",), [(0, 3)]), (("a",), [(0, 0), (1, 2), (3, 4), (5, 6)])], 1), ([(("b",), [(8, 9)]), (("a",), [(0, 1)] * 4 + [(2, 3), (4, 5), (6, 7), (8, 10)])], 2),
          ([(("a", "b"), [(0, 1), (1, 2)]), (("b", "c"), [(0, 1), (3, 4), (5, 6)]), (("a", "c"), [(1, 2), (3, 7), (8, 9), (10, 11)])], 2)]


def f_ol(q):
    for i in range(len(OL_FIX)):
        yield (("fix", i), "categorical")
    for i in range(len(OL) + (0 if q else len(OL_T))):
        for c in ("categorical",) if i > 8 else ("categorical", "none", None):
            yield (i, c)


def ol(ctx, i, c):
    arrange = []
    if isinstance(i, tuple):
        prs, swaps = OL_FIX[i[1]]
        spec = dict(prs)
        arrange = [[x for e in es for x in e] for _, es in prs]
        degs = dict((comb, hist(s)) for (comb, _), s in zip(prs, arrange))
    else:
        spec = (OL + OL_T)[i]
        degs = dict((comb, dict((x, k) for x, k in enumerate(seq))) for comb, seq in spec.items())
    layers = R.srt(set(l for comb in spec for l in comb))
    nodes = [sorted(set(x for d in degs.values() for x in d))] * len(layers)
    combs = [c for k in range(1, len(layers) + 1) for c in itertools.combinations(layers, k)]
    what = "conf_overlaps(%r)" % (degs,)
    kw = {} if c is None else {"couplings": [c]}
    cpl = ("none",) if c in (None, "none") else CAT
    cnt = done = 0
    budget = (swaps, 100000) if arrange else (2 if max(map(sum, spec.values())) <= 8 else 1, 60000) if ctx.tier == "quick" else (3, 1000000)
    for ch, net in choice.explore(lambda: models.conf_overlaps(degs, **kw), (0.5,), limit=60, samples=budget[0], max_runs=budget[1], pairing=5, arrange=arrange):
        cnt += 1
        ctx.step()
        if net is choice.TooLong:
            ctx.count("cut_executions")
            continue
        done += 1
        sets = intra(net, layers)
        got = {}
        for x in nodes[0]:
            for y in nodes[0]:
                where = tuple(l for l, E in zip(layers, sets) if frozenset((x, y)) in E)
                if where:
                    got[where, x] = got.get((where, x), 0) + 1
                    if x == y:
                        ctx.fail(what + " has self-links", None, x)
        want = dict(((tuple(sorted(comb)), x), k) for comb, d in degs.items() for x, k in d.items() if k)
        if got != want:
            ctx.fail("overlap degrees of the network given by %s (choices %r)" % (what, list(ch)), want, got)
            return
        T.compare(ctx, net, fill(target(layers, nodes, True, cpl), [[tuple(e) for e in E] for E in sets], layers), what)
    if cnt == budget[1]:
        ctx.count("capped_shards")
    ctx.count("completed_executions", done)
    ctx.outcome((i, done))


# ---- overlapping ER, BA, WS, geometric ------------------------------------------------------
EO = [(3, 1, {("a", "b"): 1.0}), (3, 2, {("a", "b"): 0.5}), (4, 2, {("a",): 0, ("b",): 0.3}), (4, 2, {("a", "b"): 0.5, ("c",): 1}),
      (4, 1, {("a", "b"): 0.0, ("b", "c"): 1.0}), (4, 1, {("a", "b", "c"): 1.0}), (4, 1, {("a", "b", "c"): 0.6}), (4, 1, {("b", "a", "c"): 0.4}), (3, 1, {("b", "a"): 0.7}), (4, 1, {("a", "b"): 0.6, ("b", "c"): 0.4}),
      (3, 1, {("x", "y"): 0}), (3, 0, {("x", "y"): 0.7})]


def f_eo(q):
    for i in range(len(EO)):
        for c in ("categorical", "none", None):
            yield (i, c)


def eo(ctx, i, c):
    n, m, ps = EO[i]
    layers = R.srt(set(l for comb in ps for l in comb))
    kw = {} if c is None else {"couplings": [c]}
    cpl = ("none",) if c in (None, "none") else CAT
    what = "er_overlaps_match_aggregated(%d, %d, %r)" % (n, m, ps)
    prob = {}
    for ch, net in choice.explore(lambda: models.er_overlaps_match_aggregated(n, m, ps, **kw), (0.5,), limit=6 if n == 3 else 5):
        ctx.step()
        if net is choice.TooLong:
            ctx.count("cut_executions")
            continue
        sets = intra(net, layers)
        prob[sets] = prob.get(sets, 0) + ch.prob
        if prob[sets] != ch.prob:
            continue
        ov = {}
        for e in set().union(*sets):
            where = tuple(l for l, E in zip(layers, sets) if e in E)
            ov[where] = ov.get(where, 0) + 1
        want, left = {}, dict((l, m) for l in layers)
        for comb, p in ps.items():
            if len(comb) > 1:
                k = int(round(p * m))
                key = tuple(l for l in layers if l in comb)
                want[key] = want.get(key, 0) + k * len(comb)
                for l in comb:
                    left[l] -= k
        for l, k in left.items():
            want[(l,)] = k
        want = dict((k, v) for k, v in want.items() if v)
        if ov != want:
            ctx.fail(what + ": number of edges per layer combination", want, ov)
            return
        T.compare(ctx, net, fill(target(layers, [range(n)], True, cpl), [[tuple(e) for e in E] for E in sets], layers), what)
    # every network with these numbers is equally likely
    if len(set(prob.values())) > 1:
        ctx.fail(what + ": not uniform over the edge sets", None, sorted(set(prob.values()))[:3])
    ctx.outcome((i, len(prob)))


def f_ba(q):
    for n, ms in [(0, (1,)), (1, (1, 2)), (2, (1, 2)), (3, (1,)), (4, (1,)), (3, (2,)), (4, (2,)), (3, (1, 2)), (4, (1, 1)), (5, (1,)), (3, (0, 1)), (3, (3,)), (4, (3, 1)), (3, (2, 2))] \
            + ([] if q else [(4, (1, 2)), (5, (2,)), (4, (2, 1)), (3, (1, 1, 1))]):
        for c in ("categorical", None):
            yield (n, ms, c)


def ba(ctx, n, ms, c):
    layers = list(range(len(ms)))
    kw = {} if c is None else {"couplings": [c]}
    cpl = ("none",) if c is None else CAT
    what = "ba_total_degree(%d, %r)" % (n, ms)
    prob, cut = {}, 0
    for ch, net in choice.explore(lambda: models.ba_total_degree(n, list(ms), **kw), (0.5,), limit=12, max_runs=20000 if ctx.tier == "quick" else 40000):
        ctx.step()
        if net is choice.TooLong:
            ctx.count("cut_executions")
            cut = 1
            continue
        sets = intra(net, layers)
        prob[sets] = prob.get(sets, 0) + ch.prob
        if prob[sets] != ch.prob:
            continue
        for l, (m, E) in enumerate(zip(ms, sets)):
            for i in range(n):
                back = [e for e in E if max(e) == i]
                want = m if i >= m else 0
                if len(back) != want or any(len(e) != 2 for e in back):
                    ctx.fail(what + ": links of the new node %d in layer %d" % (i, l), want, R.srt(map(R.srt, back)))
                    return
        T.compare(ctx, net, fill(target(layers, [range(n)], True, cpl), [[tuple(e) for e in E] for E in sets], layers), what)
    if set(ms) <= {1} and not cut:
        want = {tuple(frozenset() for _ in ms): Fraction(1)}
        for i in range(1, n):
            nxt = {}
            for key, p in want.items():
                deg = [sum(1 for E in key for e in E if x in e) for x in range(i)]
                tot = sum(deg)
                for c in itertools.product(range(i), repeat=len(ms)):
                    q = p
                    for x in c:
                        q *= Fraction(deg[x], tot) if i > 1 else 1
                    if q:
                        k = tuple(E | {frozenset((i, x))} for E, x in zip(key, c))
                        nxt[k] = nxt.get(k, 0) + q
            want = nxt
        if want != prob:
            ctx.fail(what + ": attachment probabilities are not proportional to the total degrees", want, prob)
    ctx.outcome((n, ms, len(prob)))


def f_ws(q):
    for n, edges in [(3, (3,)), (4, (4,)), (4, (0, 4)), (5, (5,)), (4, (4, 4)), (3, (0, 3, 3))]:
        for p in (0, 0.5, 1) if len(edges) == 1 or (n, edges) == (4, (0, 4)) else (0,):
            for c in ("categorical", None):
                yield (n, edges, p, c)
    for c in ("categorical", None):
        yield (5, (10,), 0, c)
        yield (6, (6, 12), 0, c)


def ws(ctx, n, edges, p, c):
    layers = list(range(len(edges)))
    kw = {} if c is None else {"couplings": [c]}
    cpl = ("none",) if c is None else CAT
    what = "ws(%d, %r, %r)" % (n, edges, p)
    k = 0
    for ch, net in choice.explore(lambda: models.ws(n, list(edges), p=p, **kw), (0.25, 0.75), limit=12, max_runs=3000 if ctx.tier == "quick" else 30000):
        ctx.step()
        k += 1
        if net is choice.TooLong:
            ctx.count("cut_executions")
            continue
        sets = intra(net, layers)
        for l, (m, E) in enumerate(zip(edges, sets)):
            if len(E) != m or any(len(e) != 2 for e in E):
                ctx.fail(what + ": edges of layer %d" % l, m, R.srt(map(R.srt, E)))
                return
            if p == 0 and E != frozenset(frozenset((i, (i + j) % n)) for i in range(n) for j in range(1, m // n + 1)):
                ctx.fail(what + ": layer %d without rewiring" % l, "ring lattice", R.srt(map(R.srt, E)))
                return
        T.compare(ctx, net, fill(target(layers, [range(n)], True, cpl), [[tuple(e) for e in E] for E in sets], layers), what)
    ctx.outcome((n, edges, p, k))


def f_geo(q):
    for n, edges in [(2, (1,)), (3, (1,)), (2, (1, 1)), (2, (1, 0))]:
        for c in ("categorical", None):
            yield (n, edges, c)


def geo(ctx, n, edges, c):
    layers = list(range(len(edges)))
    kw = {} if c is None else {"couplings": [c]}
    cpl = ("none",) if c is None else CAT
    what = "geo(%d, %r)" % (n, edges)
    seen = set()
    for ch, net in choice.explore(lambda: models.geo(n, list(edges), **kw), (0.0, 0.3, 0.9), limit=30, max_runs=3000):
        ctx.step()
        sets = intra(net, layers)
        T.compare(ctx, net, fill(target(layers, [range(n)], True, cpl), [[tuple(e) for e in E] for E in sets], layers), what)
        if any(len(e) != 2 for E in sets for e in E):
            ctx.fail(what, "simple edges", sets)
        seen.add(sets)
    ctx.outcome((n, edges, len(seen)))


FAM = {"er": (f_er, er, 8), "full": (f_full, full, 1), "erm": (f_erm, erm, 4), "conf": (f_conf, conf, 16), "copy": (f_copy, copy, 4), "ol": (f_ol, ol, 16),
       "eo": (f_eo, eo, 4), "ba": (f_ba, ba, 6), "ws": (f_ws, ws, 4), "geo": (f_geo, geo, 2)}

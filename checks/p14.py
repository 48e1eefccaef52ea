"""P14 shortest paths from sets of sources: distances and the forest of all shortest paths."""
import itertools
import pymnet
from pymnet import diagnostics
from mc import nets, families, ref as R, tcheck as T
from mc.obs import close
from mc.ref import Ref

ID = "P14"
TITLE = "shortest paths"
RULE = ("every network of the enumerated families with several weight menus (all equal so that ties abound, increasing, "
        "fractional, zero) x every set of at most two sources, and every layer-pruned query; distances compared with "
        "Bellman-Ford relaxation, forests with the set of all tight edges")

FR = (0.5, 1.5, 0.25, 2, 1, 3)
MENUS = {"eq": lambda i: 1, "inc": nets.wseq, "mix": lambda i: (1, 2, 1, 3)[i % 4], "frac": lambda i: FR[i % 6],
         "zero": lambda i: (0, 1, 0, 2)[i % 4], "dec": lambda i: (9, 5, 3, 2, 1)[i % 5]}


def fams(tier):
    q = tier == "quick"
    F = {}
    for m in ("eq", "inc", "mix", "dec"):
        w = MENUS[m]
        F["mu_" + m] = lambda w=w: nets.enum(0, (0, 1, 2), (), weight=w)
        F["m4_" + m] = lambda w=w: nets.enum(0, (1, 2, 3, 4), (), weight=w, loops=False, min_edges=3 if q else 0)
        F["m4_" + m + "s"] = lambda w=w: nets.enum(0, ("a", 2, "c", 4), (), weight=w, loops=False, min_edges=3, max_edges=4)
        F["md_" + m] = lambda w=w: nets.enum(0, (0, 1, ""), (), directed=True, weight=w, max_edges=4 if q else 9)
        F["g1_" + m] = lambda w=w: nets.enum(1, (1, 2), (("x", "y"),), weight=w, max_edges=4 if q else 10, loops=not q)
        F["g1d_" + m] = lambda w=w: nets.enum(1, (1, 0), (("", 0),), weight=w, directed=True, max_edges=2 if q else 4, loops=not q)
        F["g1n_" + m] = lambda w=w: nets.enum(1, (0, 2), (("x", 0),), weight=w, full=False, max_edges=3 if q else 4, loops=not q, isolated="all")
    F["g2"] = lambda: nets.enum(2, (1, 2), (("x", "y"), (7, 8)), max_edges=2, weight=MENUS["mix"], loops=False)
    F["g2d"] = lambda: nets.enum(2, (1, 2), (("x", "y"), (7, 8)), directed=True, max_edges=1 if q else 2, weight=MENUS["mix"], loops=False)
    for cs in (("categorical",), ("none",), (("categorical", 0.5),)):
        for full in (True, False):
            for directed in (False, True):
                F["mp_%s_%s_%s" % (cs, full, directed)] = lambda cs=cs, full=full, directed=directed: nets.enum(
                    1, (1, 2, 3), (("a", "b"),), couplings=cs, weight=MENUS["mix"], full=full, directed=directed,
                    max_edges=(3 if q else 5) if not directed else 2)
    F["mpo"] = lambda: nets.enum(1, (1, 2), ((1, 2, 3),), couplings=("ordinal",), weight=MENUS["eq"])
    F["mp2"] = lambda: nets.enum(2, (1, 2), ((1, 2), (7, 8)), couplings=("categorical", ("ordinal", 2)), weight=MENUS["mix"])
    for ne in (-1, None):
        F["z_%s" % ne] = lambda ne=ne: nets.enum(0, (1, 2, 3), (), weight=MENUS["zero"], noEdge=ne, max_edges=6)
        F["zd_%s" % ne] = lambda ne=ne: nets.enum(0, (1, 2, 3), (), weight=MENUS["zero"], noEdge=ne, directed=True, max_edges=3 if q else 6)
        F["zg_%s" % ne] = lambda ne=ne: nets.enum(1, (1, 2), (("x", "y"),), weight=MENUS["zero"], noEdge=ne, max_edges=3 if q else 5)
    # larger, structured networks
    for m in ("eq", "mix"):
        for d in (False, True):
            F["L0_%s%d" % (m, d)] = lambda m=m, d=d: nets.large(0, 12, (), weight=MENUS[m], directed=d)
            F["L1_%s%d" % (m, d)] = lambda m=m, d=d: nets.large(1, 5, (4,), weight=MENUS[m], directed=d, full=False)
            F["L2_%s%d" % (m, d)] = lambda m=m, d=d: nets.large(1, 5, (4,), weight=MENUS[m], directed=d, couplings=("ordinal",))
            F["L3_%s%d" % (m, d)] = lambda m=m, d=d: nets.large(2, 3, (3, 2), weight=MENUS[m], directed=d)
    return F


def shards(tier, seed):
    return [(n, p, 4) for n in fams(tier) for p in range(4)]


def cases(shard, tier):
    for ref in nets.split(fams(tier)[shard[0]](), shard[1], shard[2]):
        yield nets.lit(ref)


def expected(E, sources):
    d = dict((s, 0) for s in sources)
    while True:
        ch = False
        for (u, v), w in E.items():
            if u in d and (v not in d or d[v] > d[u] + w):
                d[v] = d[u] + w
                ch = True
        if not ch:
            break
    f = dict(((s, s), 0) for s in sources)
    for (u, v), w in E.items():
        if u in d and v in d and d[v] == d[u] + w and u != v:
            f[(u, v)] = w
    return d, f


def forest_ref(aspects, f):
    r = Ref(aspects, True, -1, False)
    for (u, v), w in f.items():
        r.set(u, v, w)
    return r


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    E = ref.edges()
    nls = R.srt(ref.node_layers())
    pub = (lambda u: u[0]) if ref.aspects == 0 else (lambda u: u)
    few = len(nls) > 9
    srcs = [c for k in (1, 2) for c in itertools.combinations(nls, k)]
    if few:
        srcs = [(u,) for u in nls] + list(zip(nls, nls[3:]))
    if len(nls) >= 3:
        srcs.append(tuple(nls))
    for sources in srcs:
        d, f = expected(E, sources)
        ed = dict((pub(u), k) for u, k in d.items())
        for form in (list, lambda x: iter(x)) if len(sources) == 2 else (list,):
            gd, gf = diagnostics.dijkstra(net, form([pub(s) for s in sources]))
            ctx.step()
            if gd != ed:
                ctx.fail("distances from %r" % (sources,), ed, gd)
            T.compare(ctx, gf, forest_ref(ref.aspects, f), "forest from %r" % (sources,), kind=pymnet.MultilayerNetwork)
            ctx.outcome((repr(R.srt(ed.items())), repr(R.srt(f))))
    if ref.aspects:
        prune(ref, net, E, ctx)
    T.unchanged(ctx, net, before, "dijkstra")


def prune(ref, net, E, ctx):
    A = ref.aspects
    deg = set()
    for (u, v) in E:
        deg.add(u)
        deg.add(v)
    for k in range(1, A + 1):
        for asp in itertools.combinations(range(1, A + 1), k):
            pats = itertools.product(*[[None] if a in asp else R.srt(ref.nodes if a == 0 else ref.layers[a - 1]) for a in range(A + 1)])
            pats = list(pats)
            for sources in [(p,) for p in pats] + list(itertools.combinations(pats, 2) if len(ref.node_layers()) <= 9 else zip(pats, pats[3:])):
                S = [u for u in deg if any(all(p is None or p == x for p, x in zip(s, u)) for s in sources)]
                d, f = expected(E, S)
                nd = {}
                key = lambda u: tuple(x for a, x in enumerate(u) if a not in asp)
                for u, x in d.items():
                    nd[key(u)] = min(x, nd.get(key(u), x))
                keep = [u for u, x in d.items() if x == nd[key(u)]]
                nf = {}
                seen = set()
                while keep:
                    v = keep.pop()
                    if v in seen:
                        continue
                    seen.add(v)
                    for (a, b), w in f.items():
                        if b == v:
                            nf[(a, b)] = w
                            keep.append(a)
                gd, gf = diagnostics.dijkstra_mlayer_prune(net, list(sources), aaspects=list(asp))
                ctx.step()
                if gd != nd:
                    ctx.fail("pruned distances from %r over %r" % (sources, asp), nd, gd)
                T.compare(ctx, gf, forest_ref(A, nf), "pruned forest from %r over %r" % (sources, asp), kind=pymnet.MultilayerNetwork)
                ctx.outcome(("p", repr(R.srt(nd.items())), repr(R.srt(nf))))

"""P13 degree distributions, densities and overlap degrees follow their definitions."""
import itertools
import pymnet
from pymnet import diagnostics
from mc import nets, families, ref as R, tcheck as T
from mc.obs import nset, close
from mc.ref import Ref

ID = "P13"
TITLE = "degree distributions, density, overlap degrees"
RULE = ("every network of the enumerated families: degree listings and distributions, density; for multiplex networks the same "
        "per layer and the overlap degrees of every layer combination against a direct set computation; overlap degrees also "
        "for every assignment of the links of two and three layers over two and three nodes")


def shards(tier, seed):
    return [("f",) + s for s in families.shards(tier, 2)] + [("o", k, p, 4) for k in OV for p in range(4)]


OV = {"22": (2, 2, False, True), "23": (2, 3, False, True), "32": (3, 2, False, True), "22d": (2, 2, True, True), "23d": (2, 3, True, True),
      "32n": (3, 2, False, False), "23n": (2, 3, False, False)}


def cases(shard, tier):
    if shard[0] == "f":
        for ref in families.nets_of(shard[1:], tier):
            yield nets.lit(ref)
        return
    nn, nlay, directed, full = OV[shard[1]]
    nodes = (1, 2, 3)[:nn]
    lays = ("a", "b", "c")[:nlay]
    gens = []
    for ne in (0,) if tier == "quick" else (0, -1):
        gens.append(nets.enum(1, nodes, (lays,), directed=directed, full=full, couplings=("none",), isolated="none" if full else "all", noEdge=ne))
        gens.append(nets.enum(1, nodes, (lays,), directed=directed, full=full, couplings=("categorical",), isolated="none" if full else "all", noEdge=ne,
                              weight=lambda i: 1))
    for g in gens:
        for ref in nets.split(g, shard[2], shard[3]):
            yield nets.lit(ref)


def layer_ref(ref, lay):
    r = Ref(0, ref.directed, ref.noEdge)
    r.nodes = set(ref.nodes) if ref.full else set(u[0] for u in ref.nl if u[1:] == lay)
    r.E = dict((((u[0],), (v[0],)), w) for (u, v), w in ref.E.items() if u[1:] == lay)
    return r


def exp_degs(ref):
    E = ref.edges()
    keys = [(n,) for n in ref.nodes] if ref.aspects == 0 else ref.node_layers()
    return dict((u[0] if ref.aspects == 0 else u, len(nset(ref, E, u, "total"))) for u in keys)


def dist(d):
    out = {}
    for k in d.values():
        out[k] = out.get(k, 0) + 1
    return out


def exp_density(ref):
    n = len(ref.node_layers()) if ref.aspects else len(ref.nodes)
    p = n * (n - 1) if ref.directed else n * (n - 1) / 2.0
    e = len(ref.undirected_edge_list())
    if len(ref.nodes) == 0 or p == 0:
        return 0 if e == 0 else None
    return e / float(p)


def eq_float(ctx, got, exp, what):
    if exp is None:
        return
    if not close(got, exp):
        ctx.fail(what, exp, got)


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    ed = exp_degs(ref)
    for what, f, exp in (("degs(net)", lambda: diagnostics.degs(net), dist(ed)),
                         ("degs(net,'nodes')", lambda: diagnostics.degs(net, degstype="nodes"), ed),
                         ("degs(net,'distribution')", lambda: diagnostics.degs(net, degstype="distribution"), dist(ed))):
        got = f()
        ctx.step()
        if got != exp:
            ctx.fail(what, exp, got)
    ctx.outcome(sorted(dist(ed).items()))
    eq_float(ctx, diagnostics.density(net), exp_density(ref), "density(net)")
    try:
        diagnostics.degs(net, degstype="nonsense")
        ctx.fail("degs with an unknown type", "an exception", "no exception")
    except Exception:
        pass
    if ref.couplings is not None:
        lays = list(itertools.product(*ref.layers))
        key = lambda lay: lay[0] if ref.aspects == 1 else lay
        sub = dict((key(l), layer_ref(ref, l)) for l in lays)
        for what, got, exp in (("multiplex_degs(net)", diagnostics.multiplex_degs(net), dict((k, dist(exp_degs(s))) for k, s in sub.items())),
                               ("multiplex_degs(net,'nodes')", diagnostics.multiplex_degs(net, degstype="nodes"), dict((k, exp_degs(s)) for k, s in sub.items()))):
            ctx.step()
            if got != exp:
                ctx.fail(what, exp, got)
        got = diagnostics.multiplex_density(net)
        if set(got) != set(sub):
            ctx.fail("keys of multiplex_density", sorted(sub, key=repr), sorted(got, key=repr))
        for k in sub:
            eq_float(ctx, got[k], exp_density(sub[k]), "multiplex_density[%r]" % (k,))
        if ref.aspects == 1:
            got = diagnostics.overlap_degs(net)
            ctx.step()
            exp = {}
            L = {}
            for (u, v) in ref.E:
                L.setdefault((u[0], v[0]), set()).add(u[1])
            for k in range(1, len(ref.layers[0]) + 1):
                for c in itertools.combinations(R.srt(ref.layers[0]), k):
                    d = dict((n, set()) for n in ref.nodes)
                    for (x, y), ls in L.items():
                        if ls == set(c):
                            d[x].add(y)
                            d[y].add(x)
                    exp[frozenset(c)] = dict((n, len(s)) for n, s in d.items())
            gk = {}
            for k, d in got.items():
                if len(set(k)) != len(k) or frozenset(k) in gk:
                    ctx.fail("overlap_degs key %r" % (k,), "every layer combination once", sorted(map(repr, got)))
                gk[frozenset(k)] = d
            if not ref.full:   # nodes without links in the combination may be left out
                exp = dict((c, dict((n, k) for n, k in d.items() if k)) for c, d in exp.items())
                gk = dict((c, dict((n, k) for n, k in d.items() if k or n not in ref.nodes)) for c, d in gk.items())
            if gk != exp:
                ctx.fail("overlap_degs(net)", exp, gk)
            ctx.outcome(repr(sorted((sorted(c, key=repr), sorted(d.items(), key=repr)) for c, d in exp.items())))
    T.unchanged(ctx, net, before, "diagnostics")

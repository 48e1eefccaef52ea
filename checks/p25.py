"""P25 alternating-walk clustering: every implementation of the cycle counts equals the walk definition."""
import itertools
import numpy
import pymnet
from pymnet import cc
from mc import nets, ref as R, tcheck as T
from mc.obs import close
from checks.p24 import aggregated, num

ID = "P25"
TITLE = "alternating-walk cycle counts and clustering"
RULE = ("every unweighted categorical multiplex network of three nodes and one to three layers and of four nodes and two layers (bounded "
        "number of edges in the quick tier), interconnected or not: the ten counts around every node-layer from each implementation "
        "compared with products of the intra-layer, coupling and full matrices, their sums over nodes and layers, and every local, "
        "averaged, super-node and global coefficient for several weight vectors compared with the definition")

NAMES = ("aaa", "aacac", "acaac", "acaca", "acacac", "afa", "afcac", "acfac", "acfca", "acfcac")


def fams(tier):
    q = tier == "quick"
    E = nets.enum
    one = lambda i: 1
    cat = ("categorical",)
    F = {}
    F["m31"] = lambda: E(1, (1, 2, 3), ((1,),), couplings=cat, weight=one)
    F["m32"] = lambda: E(1, (0, 1, 2), ((0, 1),), couplings=cat, weight=one)
    F["m32s"] = lambda: E(1, ("a", "b", "c"), (("x", "y"),), couplings=(("categorical", 1.0),), weight=one)
    F["m33"] = lambda: E(1, (1, 2, 3), ((1, 2, 3),), couplings=cat, weight=one, min_edges=3, max_edges=4 if q else 9)
    F["m34"] = lambda: E(1, (1, 2, 3), ((1, 2, 3, 4),), couplings=cat, weight=one, min_edges=3, max_edges=3 if q else 5)
    F["m42"] = lambda: E(1, (1, 2, 3, 4), ((1, 2),), couplings=cat, weight=one, min_edges=3, max_edges=4 if q else 7)
    F["m42h"] = lambda: E(1, (1, 2, 3, 4), ((1, 2),), couplings=cat, weight=one, min_edges=11 if q else 9)
    F["p32"] = lambda: E(1, (0, 1, 2), ((0, 1),), couplings=cat, weight=one, full=False, isolated="all" if q else "every")
    F["p33"] = lambda: E(1, (1, 2, 3), ((1, 2, 3),), couplings=cat, weight=one, full=False, min_edges=3, max_edges=4 if q else 6, isolated="none" if q else "all")
    F["p42"] = lambda: E(1, (1, 2, 3, 4), ((1, 2),), couplings=cat, weight=one, full=False, min_edges=3, max_edges=3 if q else 5, isolated="none" if q else "all")
    F["p34"] = lambda: E(1, (1, 2, 3), ((1, 2, 3, 4),), couplings=cat, weight=one, full=False, min_edges=3, max_edges=3, isolated="none" if q else "all")
    F["large"] = lambda: nets.large(1, 6, (4,), couplings=cat, weight=one)
    F["largen"] = lambda: nets.large(1, 6, (5,), couplings=cat, weight=one, full=False)
    return F


PARTS = 8


def shards(tier, seed):
    return [(n, p) for n in sorted(fams(tier)) for p in range(PARTS)]


def cases(shard, tier):
    for ref in nets.split(fams(tier)[shard[0]](), shard[1], PARTS):
        yield nets.lit(ref)


def counts(ref):
    """{node-layer: ten counts} by matrix products over the existing node-layers"""
    nls = R.srt(ref.node_layers())
    ix = dict((x, i) for i, x in enumerate(nls))
    n = len(nls)
    a, c, f = (numpy.zeros((n, n), int) for _ in range(3))
    for (u, v), w in ref.edges().items():
        (a if u[1] == v[1] else c)[ix[u], ix[v]] = 1
    for u in nls:
        for v in nls:
            if u[1] == v[1] and u[0] != v[0]:
                f[ix[u], ix[v]] = 1
    D = lambda *ms: numpy.diag(numpy.linalg.multi_dot(ms) if n else ms[0])
    ten = [D(a, a, a), D(a, a, c, a, c), D(a, c, a, a, c), D(a, c, a, c, a), D(a, c, a, c, a, c),
           D(a, f, a), D(a, f, c, a, c), D(a, c, f, a, c), D(a, c, f, c, a), D(a, c, f, c, a, c)]
    return dict((x, tuple(int(t[i]) for t in ten)) for x, i in ix.items())


def add(vs):
    return tuple(map(sum, zip(*vs))) if vs else (0,) * 10


def cvec(ten):
    aaa, aacac, acaac, acaca, acacac, afa, afcac, acfac, acfca, acfcac = ten
    return ((aaa, afa), (aacac + acaac + acaca, afcac + acfac + acfca), (acacac, acfcac))


def value(ten, w1, w2, w3):
    (t1, d1), (t2, d2), (t3, d3) = cvec(ten)
    if w3 is not None:
        return sum(w * (t / float(d) if d else 0) for w, (t, d) in zip((w1, w2, w3), ((t1, d1), (t2, d2), (t3, d3))))
    t = t1 * w1 ** 3 + t2 * w1 * w2 ** 2 + t3 * w2 ** 3
    d = d1 * w1 ** 3 + d2 * w1 * w2 ** 2 + d3 * w2 ** 3
    return t / float(d) if d else 0


WEIGHTS = ((1. / 2, 1. / 2, None), (0.3, 0.9, None), (1, 0, None), (0, 1, None), (1. / 3, 1. / 3, 1. / 3), (0.2, 0.5, 0.7), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, .5, .5))


def triple(ctx, what, got, ten):
    for g, (t, d), nm in zip(got, cvec(ten), ("c1", "c2", "c3")):
        num(ctx, "%s %s" % (what, nm), g, t / float(d) if d else 0)


def ten_eq(ctx, what, got, exp):
    got = tuple(got)
    if got != exp:
        ctx.fail(what, dict(zip(NAMES, exp)), dict(zip(NAMES, got)))


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    C = counts(ref)
    nodes, layers = R.srt(ref.nodes), R.srt(ref.layers[0])
    b = len(layers)
    anet = aggregated(ref)
    for x in ref.all_nl():
        i, l = x
        exp = C.get(x, (0,) * 10)
        ten_eq(ctx, "elementary_cycles(net, %r, %r)" % x, cc.elementary_cycles(net, i, l), exp)
        if x not in C:
            continue
        ten_eq(ctx, "cc_cycle_vector_bf(net, %r, %r)" % x, cc.cc_cycle_vector_bf(net, i, l), exp)
        if ref.full:
            ten_eq(ctx, "cc_cycle_vector_anet(net, %r, %r, anet)" % x, cc.cc_cycle_vector_anet(net, i, layer=l, anet=anet), exp)
            ten_eq(ctx, "cc_cycle_vector_adj(net, %r, %r)" % x, map(int, cc.cc_cycle_vector_adj(net, i, l)), exp)
            T.unchanged(ctx, net, before, "cc_cycle_vector_adj")
        for w1, w2, w3 in WEIGHTS:
            num(ctx, "lcc_aw(net, %r, %r, %r, %r, %r)" % (i, l, w1, w2, w3), cc.lcc_aw(net, i, l, w1=w1, w2=w2, w3=w3), value(exp, w1, w2, w3))
            num(ctx, "lcc_aw(net, %r, %r, %r, %r, %r, anet)" % (i, l, w1, w2, w3), cc.lcc_aw(net, i, l, w1=w1, w2=w2, w3=w3, anet=anet), value(exp, w1, w2, w3))
        num(ctx, "lcc_aw(net, %r, %r)" % x, cc.lcc_aw(net, i, l), value(exp, .5, .5, None))
        triple(ctx, "lcc_aw(net, %r, %r, returnCVector=True)" % x, cc.lcc_aw(net, i, l, returnCVector=True), exp)
        ctx.step(8)
        ctx.outcome(exp)
    allten = add(list(C.values()))
    for i in nodes:
        exp = add([v for x, v in C.items() if x[0] == i])
        ten_eq(ctx, "elementary_cycles(net, node=%r)" % i, cc.elementary_cycles(net, node=i), exp)
        if ref.full:
            ten_eq(ctx, "elementary_cycles(net, node=%r, anet)" % i, cc.elementary_cycles(net, node=i, anet=anet), exp)
            ten_eq(ctx, "cc_cycle_vector_anet(net, %r, anet)" % i, cc.cc_cycle_vector_anet(net, i, anet=anet), exp)
        for w1, w2, w3 in WEIGHTS:
            for an in (None, anet):
                num(ctx, "sncc_aw(net, %r, %r, %r, %r, %s)" % (i, w1, w2, w3, "anet" if an else ""), cc.sncc_aw(net, i, w1=w1, w2=w2, w3=w3, anet=an), value(exp, w1, w2, w3))
            if w3 is None:
                num(ctx, "sncc_aw_layercost(net, %r, %r, %r)" % (i, w1, w2), cc.sncc_aw_layercost(net, i, a=w1, b=w2), value(exp, w1, w2, w3))
            else:
                und = any(w > 0 and d == 0 for w, (t, d) in zip((w1, w2, w3), cvec(exp)))
                num(ctx, "sncc_aw_seplayers(net, %r, %r, %r, %r)" % (i, w1, w2, w3), cc.sncc_aw_seplayers(net, i, w1, w2, w3, undefined="undef"),
                    "undef" if und else value(exp, w1, w2, w3))
        triple(ctx, "sncc_aw(net, %r, returnCVector=True)" % i, cc.sncc_aw(net, i, returnCVector=True), exp)
        ctx.step(10)
    for l in layers:
        ten_eq(ctx, "elementary_cycles(net, layer=%r)" % l, cc.elementary_cycles(net, layer=l), add([v for x, v in C.items() if x[1] == l]))
    ten_eq(ctx, "elementary_cycles(net)", cc.elementary_cycles(net), allten)
    triple(ctx, "gcc_aw(net, returnCVector=True)", cc.gcc_aw(net, returnCVector=True), allten)
    for w1, w2, w3 in WEIGHTS:
        num(ctx, "gcc_aw(net, %r, %r, %r)" % (w1, w2, w3), cc.gcc_aw(net, w1=w1, w2=w2, w3=w3), value(allten, w1, w2, w3))
        num(ctx, "gcc_moreno2_seplayers(net, %r, %r, %r)" % (w1, w2, w3), cc.gcc_moreno2_seplayers(net, w1, w2, w3), value(moreno(allten), w1, w2, w3))
        if ref.full and w3 is not None:
            c3 = w3 if b != 2 else 0
            num(ctx, "gcc_aw_seplayers_adj(net, %r, %r, %r)" % (w1, w2, w3), cc.gcc_aw_seplayers_adj(net, w1, w2, w3), value(allten, w1, w2, c3))
            if all(d for t, d in cvec(allten)[:2]):
                num(ctx, "gcc_moreno2(net, %r, %r, %r)" % (w1, w2, w3), cc.gcc_moreno2(net, w1, w2, w3), value(moreno(allten), w1, w2, c3))
        if C:
            num(ctx, "avg_lcc_aw(net, %r, %r, %r)" % (w1, w2, w3), cc.avg_lcc_aw(net, w1=w1, w2=w2, w3=w3), sum(value(v, w1, w2, w3) for v in C.values()) / len(C))
    if C:
        got = cc.avg_lcc_aw(net, returnCVector=True)
        for k, g in enumerate(got):
            num(ctx, "avg_lcc_aw(net, returnCVector=True) c%d" % (k + 1), g, sum((lambda td: td[0] / float(td[1]) if td[1] else 0)(cvec(v)[k]) for v in C.values()) / len(C))
        if ref.full:
            got = cc.gcc_aw_vector_adj(net)
            vecs = [cvec(v) for v in C.values()]
            for k in range(3):
                for j in range(2):
                    if sorted(map(int, got[2 * k + j])) != sorted(v[k][j] for v in vecs):
                        ctx.fail("gcc_aw_vector_adj(net)[%d]" % (2 * k + j), sorted(v[k][j] for v in vecs), got[2 * k + j])
            got = cc.cc_aw_vector(net)
            for k in range(3):
                for j in range(2):
                    if sorted(got[2 * k + j]) != sorted(v[k][j] for v in vecs):
                        ctx.fail("cc_aw_vector(net)[%d]" % (2 * k + j), sorted(v[k][j] for v in vecs), got[2 * k + j])
    ctx.step(20)
    T.unchanged(ctx, net, before, "alternating-walk clustering")


def moreno(ten):
    aaa, aacac, acaac, acaca, acacac, afa, afcac, acfac, acfca, acfcac = ten
    return (aaa, 2 * aacac, 2 * acaac, acaca, 2 * acacac, afa, 2 * afcac, 2 * acfac, acfca, 2 * acfcac)

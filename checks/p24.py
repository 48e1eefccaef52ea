"""P24 multiplex clustering coefficients of the literature equal their formulas."""
import itertools
from fractions import Fraction
import numpy
import pymnet
from pymnet import cc
from mc import nets, ref as R, tcheck as T
from mc.obs import close

ID = "P24"
TITLE = "multiplex clustering coefficients"
RULE = ("every multiplex network of three nodes and two or three layers and every network of four nodes and two layers (bounded number "
        "of edges in the quick tier), interconnected or not, with and without weights and couplings, and bounded general networks: "
        "each local and global coefficient compared with its formula evaluated literally over the adjacency tensor")

FRAC = lambda i: (1, 0.5, 2, 3, 0.25, 1.5)[i % 6]
ONE = lambda i: 1


def fams(tier):
    q = tier == "quick"
    E = nets.enum
    F = {}
    for cn, cs in (("cat", ("categorical",)), ("none", ("none",))):
        for wn, w in (("b", ONE), ("w", FRAC)):
            F["m32_%s_%s" % (cn, wn)] = lambda cs=cs, w=w: E(1, (0, 1, 2), ((0, 1),), couplings=cs, weight=w)
            F["m33_%s_%s" % (cn, wn)] = lambda cs=cs, w=w: E(1, (1, 2, 3), (("x", "y", "z"),), couplings=cs, weight=w, max_edges=4 if q else 9, min_edges=2)
            F["m42_%s_%s" % (cn, wn)] = lambda cs=cs, w=w: E(1, (1, 2, 3, 4), ((1, 2),), couplings=cs, weight=w, max_edges=(4 if (cs[0], w) == ("categorical", FRAC) else 3) if q else 6, min_edges=3)
            F["m34_%s_%s" % (cn, wn)] = lambda cs=cs, w=w: E(1, (1, 2, 3), ((1, 2, 3, 4),), couplings=cs, weight=w, max_edges=3 if q else 5, min_edges=3)
            F["m42h_%s_%s" % (cn, wn)] = lambda cs=cs, w=w: E(1, (1, 2, 3, 4), ((1, 2),), couplings=cs, weight=w, min_edges=11 if q else 9)
            F["p32_%s_%s" % (cn, wn)] = lambda cs=cs, w=w: E(1, (0, 1, 2), ((0, 1),), couplings=cs, weight=w, full=False, isolated="every" if not q else "all")
            F["p33_%s_%s" % (cn, wn)] = lambda cs=cs, w=w: E(1, (1, 2, 3), ((1, 2, 3),), couplings=cs, weight=w, full=False, min_edges=2, max_edges=3 if q else 5, isolated="none" if q else "all")
            F["p42_%s_%s" % (cn, wn)] = lambda cs=cs, w=w: E(1, (1, 2, 3, 4), ((1, 2),), couplings=cs, weight=w, full=False, min_edges=3, max_edges=3 if q else 5, isolated="none" if q else "all")
            for full in (False, True):
                F["large_%s_%s_%d" % (cn, wn, full)] = lambda cs=cs, w=w, full=full: nets.large(1, 6, (4,), couplings=cs, weight=w, full=full)
    F["larged"] = lambda: nets.large(1, 6, (4,), couplings=("none",), weight=FRAC, directed=True)
    F["d32"] = lambda: E(1, (1, 2, 3), ((1, 2),), couplings=("none",), weight=FRAC, directed=True, max_edges=3 if q else 5)
    F["d31"] = lambda: E(1, (1, 2, 3), ((1,),), couplings=("categorical",), weight=FRAC, directed=True)
    F["g"] = lambda: E(1, (1, 2), ((1, 2),), loops=False, weight=FRAC)
    F["g1"] = lambda: E(1, (1, 2, 3), ((1, 2),), loops=False, weight=ONE, min_edges=3, max_edges=4 if q else 5)
    F["gn"] = lambda: E(1, (1, 2), ((1, 2),), loops=False, weight=ONE, full=False, isolated="all")
    return F


PARTS = 4


def shards(tier, seed):
    return [(n, p) for n in sorted(fams(tier)) for p in range(PARTS)]


def cases(shard, tier):
    for ref in nets.split(fams(tier)[shard[0]](), shard[1], PARTS):
        yield nets.lit(ref)


def aggregated(ref):
    r = R.Ref(0)
    r.nodes = set(ref.nodes)
    tot = {}
    for (u, v), w in ref.E.items():
        if u[1] == v[1] and repr(u) < repr(v):
            k = (u[:1], v[:1])
            tot[k] = tot.get(k, 0) + w
    for (u, v), w in tot.items():
        r.set(u, v, w)
    return R.build(r)


def num(ctx, f, got, want):
    if got is None or want is None or isinstance(want, str):
        if got != want:
            ctx.fail(f, want, got)
    elif not close(float(got), float(want)):
        ctx.fail(f, float(want), got)


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    nodes, layers = R.srt(ref.nodes), R.srt(ref.layers[0])
    n, b = len(nodes), len(layers)
    nls = ref.node_layers()
    ix = dict((x, i) for i, x in enumerate(nodes))
    if ref.couplings is None:
        general(ref, net, ctx)
        T.unchanged(ctx, net, before, "clustering coefficients")
        return
    W = numpy.zeros((b, n, n))
    for (u, v), w in ref.E.items():
        W[layers.index(u[1]), ix[u[0]], ix[v[0]]] = w
    A = (W != 0).astype(int)
    binary = bool(((W == 0) | (W == 1)).all())
    agg, aggA = W.sum(0), A.sum(0)
    idx = range(n)
    if ref.directed:
        for i, x in enumerate(nodes):
            cnt = [sum(1 for l in range(b) if A[l, i, j] or A[l, j, i]) for j in idx]
            for t in range(1, b + 1):
                N = [j for j in idx if cnt[j] >= t]
                s = sum(W[l, h, v] + W[l, v, h] for l in range(b) for v in N for h in N)
                num(ctx, "lcc_brodka(net, %r, threshold=%d)" % (x, t), cc.lcc_brodka(net, x, threshold=t), s / float(2 * len(N) * b) if N else 0.0)
                ctx.step()
        T.unchanged(ctx, net, before, "clustering coefficients")
        return
    anet = aggregated(ref)
    abefore = R.snapshot(anet)
    stri = stup = 0
    for i, x in enumerate(nodes):
        # Barrett et al., weights in place of the adjacency tensor
        nom = (W[:, i, :].sum(0)[:, None] * W[:, i, :].sum(0)[None, :] * agg).sum()
        den = sum(agg[i, j] * max(W[l, i, h], W[l, j, h]) for j in idx for h in idx for l in range(b))
        want = None if den == 0 else nom / den
        for f, args in ((cc.cc_barrett, (anet,)), (cc.cc_barrett_optimized, (anet,)), (cc.cc_barrett_explicit, ())):
            for undef in (0.0, "undef"):
                w = undef if want is None else want
                if f is not cc.cc_barrett_explicit and (aggA[i] != 0).sum() < 2:
                    w = undef      # less than two neighbours: no triangles are possible
                got = f(net, x, *args, undefReturn=undef)
                if f is cc.cc_barrett_explicit and want is not None and (aggA[i] != 0).sum() < 2:
                    w = 0.0
                num(ctx, "%s(net, %r, undefReturn=%r)" % (f.__name__, x, undef), got, w)
                ctx.step()
        # Brodka et al.
        for t in list(range(1, b + 1)) + ["all"]:
            tt = b if t == "all" else t
            N = [j for j in idx if (A[:, i, j] != 0).sum() >= tt]
            s = sum(W[l, h, v] + W[l, v, h] for l in range(b) for v in N for h in N)
            want = s / float(2 * len(N) * b) if N else 0.0
            num(ctx, "lcc_brodka(net, %r, threshold=%r)" % (x, t), cc.lcc_brodka(net, x, threshold=t), want)
            if binary:
                num(ctx, "lcc_brodka(net, %r, anet, threshold=%r)" % (x, t), cc.lcc_brodka(net, x, anet=anet, threshold=t), want)
            ctx.step(2)
        # Battiston et al.
        oth = [j for j in idx if j != i]
        if b >= 2:
            d = sum(A[l, i, v] * A[l, h, i] for l in range(b) for v in oth for h in oth)
            s = sum(A[l, i, v] * A[m, v, h] * A[l, h, i] for l in range(b) for m in range(b) if l != m for v in oth for h in oth)
            num(ctx, "lcc_battiston1(net, %r)" % x, cc.lcc_battiston1(net, x, "undef"), "undef" if d == 0 else s / float(d) / (b - 1))
        d = sum(A[l, i, v] * A[m, h, i] for l in range(b) for m in range(b) if l != m for v in oth for h in oth)
        s = sum(A[l, i, v] * A[g, v, h] * A[m, h, i] for l in range(b) for m in range(b) if l != m for g in range(b) if g not in (l, m) for v in oth for h in oth)
        num(ctx, "lcc_battiston2(net, %r)" % x, cc.lcc_battiston2(net, x, "undef"), "undef" if b < 3 or d == 0 else s / float(d) / (b - 2))
        # Criado et al.
        nb = [j for j in idx if aggA[i, j]]
        s = d = 0
        for l, lay in enumerate(layers):
            g = [j for j in nb if (nodes[j], lay) in nls]
            s += sum(1 for j in g for h in g if aggA[j, h])
            d += len(g) * (len(g) - 1)
        want = "undef" if d == 0 else s / float(d)
        num(ctx, "lcc_criado(net, %r)" % x, cc.lcc_criado(net, x, "undef"), want)
        num(ctx, "lcc_criado(net, %r, anet)" % x, cc.lcc_criado(net, x, "undef", anet=anet), want)
        # per layer
        tri = [sum(A[l, i, j] * A[l, i, h] * A[l, j, h] for j in idx for h in idx) // 2 for l in range(b)]
        tup = [int(A[l, i].sum()) * (int(A[l, i].sum()) - 1) // 2 for l in range(b)]
        got = cc.cc_sequence(net, x)
        if sorted(zip(*got)) != sorted(zip(tri, tup)):
            ctx.fail("cc_sequence(net, %r)" % x, (tri, tup), got)
        if all(tup):
            num(ctx, "cc_layers_avg(net, %r)" % x, cc.cc_layers_avg(net, x), sum(t / float(u) for t, u in zip(tri, tup)) / b)
        if sum(tup):
            num(ctx, "cc_layers_wavg(net, %r)" % x, cc.cc_layers_wavg(net, x), sum(tri) / float(sum(tup)))
        stri, stup = stri + sum(tri), stup + sum(tup)
        ctx.step(8)
        ctx.outcome((tri, tup, int(nom * 64)))
    num(ctx, "gcc_super_graph_no_couplings", cc.gcc_super_graph_no_couplings(net), None if stup == 0 else stri / float(stup))
    o = agg
    one = 1 - numpy.eye(n)
    t3 = numpy.trace(o @ o @ o)
    num(ctx, "gcc_contraction_o2", cc.gcc_contraction_o2(net), ratio(t3, b * ((o @ o).sum() - numpy.trace(o @ o))))
    num(ctx, "gcc_contraction_o_full", cc.gcc_contraction_o_full(net), ratio(t3, b * numpy.trace(o @ one @ o)))
    num(ctx, "gcc_contraction_o", cc.gcc_contraction_o(net), ratio(t3, b * (o @ o).sum() - numpy.trace(o @ o)))
    general(ref, net, ctx)
    T.unchanged(ctx, net, before, "clustering coefficients")
    T.unchanged(ctx, anet, abefore, "clustering coefficients (aggregated network)")


def ratio(a, b):
    return None if b == 0 else a / float(b)


def general(ref, net, ctx):
    """coefficients of the network of node-layers with all edges"""
    nls = R.srt(ref.all_nl())
    ix = dict((x, i) for i, x in enumerate(nls))
    M = numpy.zeros((len(nls), len(nls)))
    for (u, v), w in ref.edges().items():
        M[ix[u], ix[v]] = w
    B = (M != 0).astype(float)
    k = B.sum(1)
    num(ctx, "gcc_super_graph", cc.gcc_super_graph(net), ratio(numpy.trace(B @ B @ B), (k * (k - 1)).sum()))
    one = 1 - numpy.eye(len(nls))
    t3 = numpy.trace(M @ M @ M)
    num(ctx, "gcc_contraction_m", cc.gcc_contraction_m(net), ratio(t3, (M @ M).sum() - numpy.trace(M @ M)))
    num(ctx, "gcc_contraction_m_ct", cc.gcc_contraction_m_ct(net), ratio(t3, (M @ M).sum() - numpy.trace(M @ M)))
    num(ctx, "gcc_contraction_m_full", cc.gcc_contraction_m_full(net), ratio(t3, numpy.trace(M @ one @ M)))
    ctx.step(4)

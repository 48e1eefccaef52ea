"""P23 clustering coefficients of single-layer networks equal their formulas."""
import itertools
from fractions import Fraction
import pymnet
from pymnet import cc
from mc import nets, ref as R, tcheck as T
from mc.obs import close

ID = "P23"
TITLE = "single-layer clustering coefficients"
RULE = ("every undirected single-layer network without self-links of up to four nodes (five with few edges in the thorough tier) with "
        "equal, increasing, decreasing, mixed and fractional weights: every coefficient of every node and the global versions "
        "compared with the formula evaluated over the full weight matrix")

MENUS = {"eq": lambda i: 1, "two": lambda i: 2, "inc": nets.wseq, "dec": lambda i: (9, 5, 3, 2, 1)[i % 5], "frac": lambda i: (0.5, 1.5, 0.25, 2, 1, 3)[i % 6],
         "big": lambda i: (8, 1, 27, 8, 64, 1)[i % 6]}


# edges of weight zero in networks where that is not the missing edge
ZEROS = {"z": lambda i: i % 2, "zz": lambda i: (0, 0, 2)[i % 3], "o": lambda i: (i + 1) % 2, "oo": lambda i: (2, 0, 0, 1, 3)[i % 5]}


def fams(tier):
    q = tier == "quick"
    F = {}
    for m, w in MENUS.items():
        F["n4_" + m] = lambda w=w: nets.enum(0, (0, 1, 2, 3), (), loops=False, weight=w)
        F["n3_" + m] = lambda w=w: nets.enum(0, ("a", 2, 0), (), loops=False, weight=w)
        F["n5_" + m] = lambda w=w: nets.enum(0, (1, 2, 3, 4, 5), (), loops=False, weight=w, min_edges=0 if not q else 5, max_edges=10 if not q else 6)
        F["ne_" + m] = lambda w=w: nets.enum(0, (1, 2, 3, 4), (), loops=False, weight=w, noEdge=-1)
        F["large_" + m] = lambda w=w: (r for n in (6, 9, 12) for r in nets.large(0, n, (), weight=w, loops=False))
    F["all4"] = lambda: weighted(("p", "q", "r", "s"), (1, 3) if q else (1, 3, 4))
    for m, w in ZEROS.items():
        F["z3_" + m] = lambda w=w: nets.enum(0, (1, 2, 3), (), loops=False, weight=w, noEdge=-1)
        F["z4_" + m] = lambda w=w: nets.enum(0, (1, 2, 3, 4), (), loops=False, weight=w, noEdge=-1)
    F["small"] = lambda: nets.grown(0, (1, 2, 3), (), loops=False)
    return F


def weighted(nodes, ws):
    ps = list(itertools.combinations(nodes, 2))
    for c in itertools.product((0,) + ws, repeat=len(ps)):
        r = R.Ref(0)
        r.nodes = set(nodes)
        for (u, v), w in zip(ps, c):
            if w:
                r.set((u,), (v,), w)
        yield r


PARTS = 4


def shards(tier, seed):
    return [(n, p) for n in sorted(fams(tier)) for p in range(PARTS)]


def cases(shard, tier):
    for ref in nets.split(fams(tier)[shard[0]](), shard[1], PARTS):
        yield nets.lit(ref)


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    nodes = R.srt(x[0] for x in ref.node_layers())
    W = dict(((u[0], v[0]), w) for (u, v), w in ref.E.items())
    W0 = lambda a, b: W.get((a, b), 0)
    A = lambda a, b: 1 if (a, b) in W else 0
    maxw = max(W.values()) if W else None
    zn = zd = 0
    lccs = []
    for i in nodes:
        others = [x for x in nodes if x != i]
        pairs = [(j, h) for j in others for h in others if j != h]
        k = sum(A(i, j) for j in others)
        s = sum(W0(i, j) for j in others)
        tri = sum(A(i, j) * A(i, h) * A(j, h) for j, h in pairs)
        lcc = Fraction(tri, k * (k - 1)) if k > 1 else None
        z_n = sum(W0(i, j) * W0(i, h) * W0(j, h) for j, h in pairs)
        z_d = sum(W0(i, j) * W0(i, h) for j, h in pairs)
        zn, zd = zn + z_n, zd + z_d
        on = sum((W0(i, j) * W0(i, h) * W0(j, h)) ** (1. / 3) for j, h in pairs)
        ba = sum((W0(i, j) + W0(i, h)) / 2. * A(i, j) * A(i, h) * A(j, h) for j, h in pairs)
        lccs.append(lcc)
        rank = k >= 2 and maxw > 0      # with weights of zero the formulas can be undefined in other ways, which are not judged
        skip = {cc.cc_zhang: k >= 2 and not (rank and z_d), cc.cc_onnela: k >= 2 and not rank, cc.cc_barrat: k >= 2 and not s}
        for f, exp in ((cc.lcc, lcc), (cc.cc_zhang, None if k < 2 or skip[cc.cc_zhang] else z_n / float(z_d) / maxw),
                       (cc.cc_onnela, None if k < 2 or skip[cc.cc_onnela] else on / float(k * (k - 1)) / maxw), (cc.cc_barrat, None if k < 2 or not s else ba / float(s * (k - 1)))):
            if skip.get(f):
                continue
            for args, undef in (((), 0.0), (("undef",), "undef"), ((None,), None)):
                got = f(net, i, *args)
                ctx.step()
                want = undef if exp is None else float(exp)
                if got != want and not (exp is not None and isinstance(got, (int, float)) and close(got, want)):
                    ctx.fail("%s(net, %r, %r)" % (f.__name__, i, args), want, got)
        ctx.outcome((k, tri))
    got = cc.gcc_zhang(net)
    want = None if zd == 0 else zn / float(zd) / maxw
    if got != want and (got is None or want is None or not close(got, want)):
        ctx.fail("gcc_zhang", want, got)
    defined = [x for x in lccs if x is not None]
    got = cc.gcc_from_lcc(net, cc.lcc)
    want = None if not defined else float(sum(defined) / len(defined))
    if got != want and (got is None or want is None or not close(got, want)):
        ctx.fail("gcc_from_lcc(net, lcc)", want, got)
    ctx.step(2)
    T.unchanged(ctx, net, before, "clustering coefficients")

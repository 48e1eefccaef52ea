"""P21 subgraph sampling is uniform: every acceptable subgraph has exactly the promised probability."""
import itertools
import random
from fractions import Fraction
import pymnet
from pymnet.sampling import esu, creators
from mc import nets, ref as R, tcheck as T, choice
from checks import p20

ID = "P21"
TITLE = "sampling probabilities"
RULE = ("every bounded network x request x vector of sampling probabilities: every outcome of every coin of the sampler is enumerated, "
        "and the exact probability of each acceptable subgraph must be the product of the probabilities; the same for the random "
        "creators, whose exact distribution over all networks is compared with the definition; fixed seeds reproduce results")

HALF = (0.25, 0.75)
QUART = (0.125, 0.375, 0.625, 0.875)


def fams(tier):
    q = tier == "quick"
    E = nets.enum
    F = {}
    F["f22"] = lambda: E(1, (1, 2), ((1, 2),), loops=False)
    F["n22"] = lambda: E(1, (0, 1), ((0, 1),), loops=False, full=False, isolated="all")
    F["n32t"] = lambda: p20.trees((1, 2, 3), (1, 2), 2 if q else 3, q)
    F["n23t"] = lambda: p20.trees((1, 2), (1, 2, 3), 2 if q else 3, False)
    F["n33t"] = lambda: p20.trees((1, 2, 3), (1, 2, 3), 2, False)
    F["mp"] = lambda: E(1, (1, 2), ((1, 2),), couplings=("categorical",))
    return F


PARTS = 4


def shards(tier, seed):
    return [("s", n, p) for n in sorted(fams(tier)) for p in range(PARTS)] + [("er", i) for i in range(len(ER))] + [("nl", i) for i in range(len(NL))] + [("seed", 0)]


ER = (((1, 2),), ((1,), (1,), (1,)), ((1, 2), (1,), (1,)), ((1,), (1,)), ((1, 2), (1,)), ((), (1, 2)), ((1, 2), (2, 3)), ((1,), (2,), (3,)), (("a",), ("a", "b")), ((1, 2, 3), (1,)), ())
NL = ((1, 1, 1), (2, 1, 2), (3, 2, 1), (3, 3, 2), (3, 1, 3), (4, 2, 2), (3, 0, 2), (3, 2, 0), (5, 3, 1), (2, 2, 2))


def cases(shard, tier):
    if shard[0] == "s":
        for ref in nets.split(fams(tier)[shard[1]](), shard[2], PARTS):
            yield ("s", nets.lit(ref))
    elif shard[0] == "er":
        for p in (0, 0.5, 1) if len(sum(ER[shard[1]], ())) > 3 else (0, 0.25, 0.5, 0.75, 1):
            for mode in ("list", "tuple", "iter"):
                yield ("er", shard[1], p, mode)
    elif shard[0] == "nl":
        yield shard
    else:
        for s in (0, 1, 2, 3, -1, "x", "", b"", b"y", bytearray(b"z"), 7, 2 ** 70):
            yield ("seed", s)


def pvectors(D, tier):
    h = 0.5
    out = [(h,) * D]
    for i in range(D):
        out.append(tuple(h if j == i else 1 for j in range(D)))
        out.append(tuple(0 if j == i else 1 for j in range(D)))
    out.append((1,) * D)
    if D > 1:
        out.append(tuple(1 if j == 0 else h for j in range(D)))
    return list(dict.fromkeys(out))


def check(case, ctx):
    ctx.state()
    return {"s": check_s, "er": check_er, "nl": check_nl, "seed": check_seed}[case[0]](case, ctx)


def check_s(case, ctx):
    ref = nets.unlit(case[1])
    net = R.build(ref)
    before = ref.snap()
    space = p20.Space(ref)
    big = len(ref.node_layers()) > 4
    sizes = sorted(set((len(a), len(b)) for a, b in space.ok))
    for a, b in sizes:
        exp = sorted(k for k in space.ok if (len(k[0]), len(k[1])) == (a, b))
        vecs = pvectors(a + b - 1, ctx.tier)
        if big and a + b > 3:
            vecs = vecs[1:-1] if ctx.tier == 'quick' else vecs[1:] + vecs[:1]
        for copy in (True, False):
            for p in vecs if copy else vecs[:1]:
                want = Fraction(1)
                for x in p:
                    want *= Fraction(x)
                prob = dict.fromkeys(exp, Fraction(0))
                total = Fraction(0)

                def run():
                    res = []
                    esu.sample_multilayer_subgraphs_esu(net, res, nnodes=a, nlayers=b, p=list(p), copy_network=copy)
                    return p20.norm(res)
                n = 0
                for choices, got in choice.explore(run, HALF, limit=40, lazy=True, max_runs=30000 if ctx.tier == "quick" else 300000):
                    n += 1
                    ctx.step()
                    total += choices.prob
                    if len(got) != len(set(got)):
                        ctx.fail("a subgraph was sampled twice (p=%r, coins %r)" % (p, choices), None, got)
                        return
                    for k in got:
                        if k not in prob:
                            ctx.fail("subgraph that does not satisfy the requirements was sampled (p=%r, coins %r)" % (p, choices), exp, got)
                            return
                        prob[k] += choices.prob
                if total != 1:
                    ctx.count("capped_shards")
                    continue
                for k in exp:
                    if prob[k] != want:
                        ctx.fail("probability of sampling %r (nnodes=%d, nlayers=%d, p=%r, copy_network=%r)" % (k, a, b, p, copy), want, prob[k])
                ctx.outcome((len(exp), n))
    T.unchanged(ctx, net, before, "sampling")


def check_er(case, ctx):
    _, i, p, mode = case
    spec = ER[i]
    nls = [(n, l) for l, ns in enumerate(spec) for n in ns]
    pairs = list(itertools.combinations(nls, 2))
    floats = QUART if p in (0.25, 0.75) else HALF
    prob = {}

    def run():
        arg = {"list": lambda: [list(x) for x in spec], "tuple": lambda: spec, "iter": lambda: iter([iter(x) for x in spec])}[mode]()
        return creators.er_multilayer_partially_interconnected(arg, p)
    for choices, net in choice.explore(run, floats, limit=40):
        ctx.step()
        r = R.Ref(1, False, 0, False)
        r.layers = [set(range(len(spec)))]
        r.nl = set(nls)
        r.nodes = set(n for n, l in nls)
        got = R.snapshot(net)
        for (u, v), w in got[-1]:
            if w != 1:
                ctx.fail("weight of the edge %r" % ((u, v),), 1, w)
            r.E[u, v] = w
        T.compare(ctx, net, r, "er_multilayer_partially_interconnected", None, pymnet.MultilayerNetwork)
        k = frozenset(frozenset(e) for e in r.E)
        prob[k] = prob.get(k, 0) + choices.prob
    for sub in T.subsets(pairs):
        k = frozenset(frozenset(e) for e in sub)
        want = Fraction(p) ** len(sub) * (1 - Fraction(p)) ** (len(pairs) - len(sub))
        if prob.pop(k, 0) != want:
            ctx.fail("probability of the network with edges %r (p=%r)" % (sub, p), want, "different")
    if any(prob.values()):
        ctx.fail("networks that cannot occur", None, list(prob)[:3])
    ctx.outcome((i, p))


def xrange_for_creators(ctx):
    """random_nodelists uses the name xrange, which does not exist in Python 3 (a listed finding); the rest of its behaviour is
    explored with the name defined in its module"""
    if not hasattr(creators, "xrange"):
        try:
            list(creators.random_nodelists(3, 2, 1, seed=0))
        except NameError as e:
            if "xrange" not in str(e):
                raise
            ctx.fail("random_nodelists: %s" % e, "no exception", repr(e), key="random_nodelists-xrange")
    creators.xrange = range


def check_nl(case, ctx):
    pool, k, layers = NL[case[1]]
    xrange_for_creators(ctx)
    prob = {}
    for choices, got in choice.explore(lambda: [list(x) for x in creators.random_nodelists(pool, k, layers)], limit=60):
        ctx.step()
        if len(got) != layers or any(len(x) != k or len(set(x)) != k or not set(x) <= set(range(pool)) for x in got):
            ctx.fail("random_nodelists(%d, %d, %d)" % (pool, k, layers), "%d lists of %d different nodes" % (layers, k), got)
            return
        key = tuple(frozenset(x) for x in got)
        prob[key] = prob.get(key, 0) + choices.prob
    subsets = list(itertools.combinations(range(pool), k))
    want = Fraction(1, len(subsets) ** layers)
    for c in itertools.product(subsets, repeat=layers):
        g = prob.get(tuple(map(frozenset, c)), 0)
        if g != want:
            ctx.fail("probability of node lists %r" % (c,), want, g)
    ctx.outcome(case)


def check_seed(case, ctx):
    s = case[1]
    xrange_for_creators(ctx)
    ref = nets.unlit((1, False, 0, True, None, (1, 2, 3), ((1, 2),), (), tuple(
        (u, v, 1) for u, v in itertools.combinations(list(itertools.product((1, 2, 3), (1, 2))), 2))))
    net = R.build(ref)

    def sample(sd):
        res = []
        esu.sample_multilayer_subgraphs_esu(net, res, nnodes=2, nlayers=2, p=[0.7] * 3, seed=sd)
        return p20.norm(res)

    def er(sd):
        return R.snapshot(creators.er_multilayer_partially_interconnected([[1, 2, 3], [2, 3]], 0.5, seed=sd))

    def nl(sd):
        return list(map(list, creators.random_nodelists(10, 4, 3, seed=sd)))
    for f, what in ((sample, "sample_multilayer_subgraphs_esu"), (er, "er_multilayer_partially_interconnected"), (nl, "random_nodelists")):
        a = f(s)
        for other in range(8):      # whatever the state of the random source was
            random.seed(other)
            b = f(s)
            ctx.step()
            if a != b:
                ctx.fail("%s with seed %r is not reproducible" % (what, s), a, b)
                break

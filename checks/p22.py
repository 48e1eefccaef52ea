"""P22 subgraph requirement checks decide their definition."""
import itertools
import pymnet
from pymnet.sampling import reqs
from mc import nets, ref as R, tcheck as T
from checks import p20

ID = "P22"
TITLE = "subgraph requirement checks"
RULE = ("every one-aspect network of the enumerated families x every set of nodes and layers in several orders: the relaxed check, and "
        "the full check for every vector of sizes and intersections up to the bounds in strict and upper-bound mode with and without "
        "unspecified intersections, compared with the definition (some assignment of roles to layers); required lengths for every "
        "bounded requirement vector compared with inclusion-exclusion over explicit set systems; malformed requests are rejected")


def fams(tier):
    q = tier == "quick"
    E = nets.enum
    F = {}
    F["f22"] = lambda: E(1, (1, 2), ((1, 2),), loops=False)
    F["f32"] = lambda: E(1, (1, 2, 3), ((1, 2),), loops=False, max_edges=2 if q else 4)
    F["n32"] = lambda: E(1, (0, 1, 2), ((0, 1),), loops=False, full=False, max_edges=3 if q else 5, isolated="none")
    F["n22"] = lambda: E(1, (1, 0), (("x", ""),), loops=False, full=False, isolated="every")
    F["n23"] = lambda: E(1, (1, 2), ((1, 2, 3),), loops=False, full=False, max_edges=3 if q else 5, isolated="none")
    F["n33t"] = lambda: p20.trees((1, 2, 3), ("a", "b", "c"), 3 if q else 4, True)
    F["mp"] = lambda: E(1, (1, 2, 3), ((1, 2),), couplings=("categorical",), max_edges=4 if q else 6)
    F["mpn"] = lambda: E(1, (1, 2, 3), ((1, 2),), couplings=("categorical",), full=False, max_edges=2 if q else 4)
    F["mpo"] = lambda: E(1, (1, 2), ((1, 2, 3),), couplings=("ordinal",))
    return F


PARTS = 4


def shards(tier, seed):
    return [("c", n, p) for n in sorted(fams(tier)) for p in range(PARTS)] + [("len", k) for k in (1, 2, 3)] + [("bad", 0)]


def cases(shard, tier):
    if shard[0] == "c":
        for i, ref in enumerate(nets.split(fams(tier)[shard[1]](), shard[2], PARTS)):
            yield ("c", nets.lit(ref), 3 if shard[1] == "n33t" else 1)
    elif shard[0] == "len":
        yield shard
    else:
        yield shard


def vectors(nn, k, tier):
    """all (sizes, intersections) with entries possible for nn nodes and k layers"""
    for sizes in itertools.product(range(1, nn + 1), repeat=k):
        m = 2 ** k - k - 1
        if k <= 2:
            for inter in itertools.product(range(nn + 1), repeat=m):
                yield sizes, inter


def check(case, ctx):
    ctx.state()
    if case[0] == "len":
        return check_len(case, ctx)
    if case[0] == "bad":
        return check_bad(case, ctx)
    ref = nets.unlit(case[1])
    net = R.build(ref)
    before = ref.snap()
    space = p20.Space(ref)
    nls = ref.node_layers()
    for ns in T.subsets(R.srt(ref.nodes)):
        for ls in T.subsets(R.srt(ref.layers[0])):
            if not ns or len(ls) < case[2]:
                continue
            key = (ns, ls)
            exp = key in space.ok
            for a, b in ((list(ns), list(ls)), (list(ns)[::-1], tuple(ls)[::-1])):
                got = reqs.relaxed_check_reqs(net, a, b)
                ctx.step()
                if got is not exp and bool(got) != exp:
                    ctx.fail("relaxed_check_reqs(%r, %r)" % (a, b), exp, got)
            d = space.ok.get(key)
            k = len(ls)
            reqset = set()
            if k <= 2:
                for sizes, inter in vectors(len(ns), k, ctx.tier):
                    reqset.add((sizes, inter))
            if d is not None:
                for perm in itertools.permutations(ls):
                    sizes = tuple(len(d[l]) for l in perm)
                    inter = tuple(len(frozenset.intersection(*[d[perm[i]] for i in c])) for c in p20.combos(k))
                    reqset.add((sizes, inter))
                    for i in range(len(inter)):
                        for x in (None, inter[i] + 1, inter[i] - 1):
                            if x is None or x >= 0:
                                reqset.add((sizes, inter[:i] + (x,) + inter[i + 1:]))
                    reqset.add((sizes, (None,) * len(inter)))
                    for i in range(k):
                        reqset.add((sizes[:i] + (sizes[i] + 1,) + sizes[i + 1:], inter))
            else:
                reqset.add((tuple([1] * k), (None,) * (2 ** k - k - 1)))
            for sizes, inter in sorted(reqset, key=repr):
                for typ in ("strict", "less_or_equal"):
                    exp = d is not None and p20.satisfies(d, sizes, inter, typ == "strict")
                    got = reqs.default_check_reqs(net, list(ns), list(ls), list(sizes), list(inter), len(ns), len(ls), typ)
                    ctx.step()
                    if bool(got) != exp:
                        ctx.fail("default_check_reqs(%r, %r, %r, %r, nnodes, nlayers, %r)" % (ns, ls, sizes, inter, typ), exp, got)
                    ctx.outcome((sizes, inter, typ, exp))
                if None not in inter:
                    n = p20.required_nodes(sizes, inter)
                    args = (net, list(ns)[::-1], list(ls)[::-1], list(sizes), list(inter))
                    if n == len(ns):
                        exp = d is not None and p20.satisfies(d, sizes, inter, True)
                        got = reqs.default_check_reqs(*args)
                        if bool(got) != exp:
                            ctx.fail("default_check_reqs(%r)" % (args[1:],), exp, got)
                    else:
                        raises(ctx, AssertionError, reqs.default_check_reqs, *args)
                    exp = d is not None and p20.satisfies(d, sizes, inter, False)
                    got = reqs.default_check_reqs(*args, nnodes=len(ns), intersection_type="less_or_equal")
                    if bool(got) != exp:
                        ctx.fail("default_check_reqs(%r, nnodes=, intersection_type=less_or_equal)" % (args[1:],), exp, got)
                else:
                    raises(ctx, TypeError, reqs.default_check_reqs, net, list(ns), list(ls), list(sizes), list(inter))
    T.unchanged(ctx, net, before, "requirement checks")


def raises(ctx, exc, f, *args, **kw):
    try:
        r = f(*args, **kw)
    except exc:
        return
    except Exception as e:
        ctx.fail("%s(%r, %r) raised %s" % (f.__name__, args[1:], kw, type(e).__name__), exc.__name__, repr(e))
        return
    ctx.fail("%s(%r, %r) was accepted" % (f.__name__, args[1:], kw), exc.__name__, r)


def check_len(case, ctx):
    k = case[1]
    nn = 3
    # every system of k non-empty subsets of {0..nn-1}: sizes and intersections determine the union
    for sets in itertools.product([s for s in T.subsets(range(nn)) if s], repeat=k):
        ss = [frozenset(s) for s in sets]
        sizes = [len(s) for s in ss]
        inter = [len(frozenset.intersection(*[ss[i] for i in c])) for c in p20.combos(k)]
        got = reqs.default_calculate_required_lengths(sizes, inter)
        ctx.step()
        exp = (len(frozenset().union(*ss)), k)
        if tuple(got) != exp:
            ctx.fail("default_calculate_required_lengths(%r, %r)" % (sizes, inter), exp, got)
        ctx.outcome(exp)
    # four layers with one common set and singletons removed
    if k == 3:
        for sets in itertools.product([s for s in T.subsets(range(nn)) if s], repeat=4):
            ss = [frozenset(s) for s in sets]
            sizes = [len(s) for s in ss]
            inter = [len(frozenset.intersection(*[ss[i] for i in c])) for c in p20.combos(4)]
            got = reqs.default_calculate_required_lengths(sizes, inter)
            if tuple(got) != (len(frozenset().union(*ss)), 4):
                ctx.fail("default_calculate_required_lengths(%r, %r)" % (sizes, inter), len(frozenset().union(*ss)), got)
        # four to six layers: every multiset of at most two nodes, a node given by the set of layers it is in
        for k in (4, 5, 6):
            kinds = [c for c in T.subsets(range(k)) if c]
            for m in (1, 2):
                for nodes in itertools.combinations_with_replacement(kinds, m):
                    ss = [frozenset(i for i, c in enumerate(nodes) if l in c) for l in range(k)]
                    if not all(ss):
                        continue
                    sizes = [len(s) for s in ss]
                    inter = [len(frozenset.intersection(*[ss[i] for i in c])) for c in p20.combos(k)]
                    got = reqs.default_calculate_required_lengths(sizes, inter)
                    ctx.step()
                    if tuple(got) != (m, k):
                        ctx.fail("default_calculate_required_lengths(%r, %r)" % (sizes, inter), (m, k), got)


BAD = (([], []), ([1], [1]), ([1, 1], []), ([1, 1], [1, 1]), ([0, 1], [0]), ([1, -1], [0]), ([1, 1], [-1]), ([1, 1], [0.5]), ([1.5, 1], [1]), ([1, 1, 1], [0, 0, 0]))


def check_bad(case, ctx):
    f = reqs.default_calculate_required_lengths
    for sizes, inter in BAD:
        ctx.step()
        raises(ctx, AssertionError, lambda a, b: f(a, b), sizes, inter)
    net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
    net[1, 2, "a", "a"] = 1
    net[1, 1, "a", "b"] = 1
    net.add_node(2, "b")
    g = reqs.default_check_reqs
    for sizes, inter in BAD:
        ls = ["a", "b", "c"][:max(1, len(sizes))]
        for ns in ([1, 2], [1]):
            ctx.step()
            raises(ctx, AssertionError, g, net, ns, ls, sizes, inter)
            raises(ctx, AssertionError, g, net, ns, ls, sizes, inter, nnodes=len(ns), intersection_type="less_or_equal")
    raises(ctx, TypeError, g, net, [1, 2], ["a", "b"], [2, 2], [2], intersection_type="no_such_type")
    raises(ctx, AssertionError, g, net, [1, 2], ["a", "b"], [2, 2], [2], intersection_type="less_or_equal")
    raises(ctx, AssertionError, g, net, [1, 2], ["a", "b"], [2, 2], [2], nnodes=1, nlayers=2)
    raises(ctx, AssertionError, g, net, [1, 2], ["a", "b"], [2, 2], [2], nnodes=2, nlayers=1)
    raises(ctx, AssertionError, g, net, [1, 2], ["a", "b"], [0, 2], [2], nnodes=2, nlayers=2)
    raises(ctx, TypeError, g, net, [1, 2], ["a", "b"], [2, 2], [None], nnodes=2, intersection_type="less_or_equal")

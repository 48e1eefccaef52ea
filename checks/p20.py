"""P20 exhaustive subgraph sampling finds every acceptable induced subgraph exactly once."""
import itertools
import pymnet
from pymnet.sampling import esu, dumb
from mc import nets, ref as R, tcheck as T

ID = "P20"
TITLE = "exhaustive subgraph enumeration"
RULE = ("every one-aspect network of the enumerated families x every requested size x both copying modes x every way of giving the "
        "requirements (sizes with all, some or no intersections, strict or upper bounds, common intersection, node and layer "
        "counts, own check function) x result list or callable, for the tree-search enumeration and the naive one; results "
        "compared as multisets with the set of all acceptable induced subgraphs found by brute force")


def fams(tier):
    q = tier == "quick"
    E = nets.enum
    F = {}
    one = lambda i: 1
    F["f32"] = lambda: E(1, (1, 2, 3), ((1, 2),), loops=False, max_edges=3 if q else 5)
    F["f32d"] = lambda: E(1, (1, 2, 3), ((1, 2),), loops=False, min_edges=12 if q else 9)
    F["f23"] = lambda: E(1, (1, 2), ((1, 2, 3),), loops=False, max_edges=3 if q else 5)
    F["f22"] = lambda: E(1, (1, 2), ((1, 2),), loops=False)
    F["f22l"] = lambda: E(1, (5, 2), ((2, 5),), max_edges=4 if q else 10)
    F["n22"] = lambda: E(1, (0, 1), ((0, 1),), loops=False, full=False, isolated="every")
    F["n32"] = lambda: E(1, ("a", 0, 2), ((0, ""),), loops=False, full=False, max_edges=3 if q else 5, isolated="none" if q else "all")
    F["n23"] = lambda: E(1, (1, 2), ((1, 2, 3),), loops=False, full=False, max_edges=3 if q else 5, isolated="none")
    F["n33"] = lambda: E(1, (1, 2, 3), ((1, 2, 3),), loops=False, full=False, max_edges=2, isolated="none")
    F["n33t"] = lambda: trees(("a", "b", "c"), ("x", "y", "z"), 3 if q else 4, q)
    F["n42t"] = lambda: trees((1, 2, 3, 4), (1, 2), 3 if q else 5, q)
    for cs in ("categorical", "none", "ordinal"):
        F["mp_" + cs] = lambda cs=cs: E(1, (1, 2, 3), ((1, 2),), couplings=(cs,), max_edges=3 if q else 6)
        F["mpn_" + cs] = lambda cs=cs: E(1, (1, 2, 3), ((1, 2),), couplings=(cs,), full=False, max_edges=2 if q else 4)
    F["mp3"] = lambda: E(1, (1, 2), ((1, 2, 3),), couplings=("ordinal",))
    F["small"] = lambda: nets.grown(1, (1, 2), ((1, 2),), max_edges=1)
    return F


def trees(nodes, layers, k, q):
    """networks with exactly k edges forming a connected graph on node-layers (not fully interconnected)"""
    nls = list(itertools.product(nodes, layers))
    seen = set()
    start = frozenset()

    def grow(edges):
        if edges in seen:
            return
        seen.add(edges)
        if len(edges) == k:
            yield edges
            return
        cov = set(x for e in edges for x in e)
        for u in cov:
            for v in nls:
                e = frozenset((u, v))
                if v != u and e not in edges:
                    for r in grow(edges | {e}):
                        yield r
    for u, v in itertools.combinations(nls, 2):
        for edges in grow(frozenset([frozenset((u, v))])):
            ref = R.Ref(1, False, 0, False)
            for i, e in enumerate(sorted(sorted(map(repr, e)) for e in edges)):
                a, b = map(eval, e)
                ref.set(a, b, i + 1)
            if q and len(layers) == 3 and not (len(ref.nodes) == 3 and len(ref.layers[0]) == 3):
                continue
            yield ref


PARTS = 4


def shards(tier, seed):
    return [(n, p) for n in sorted(fams(tier)) for p in range(PARTS)]


def cases(shard, tier):
    for ref in nets.split(fams(tier)[shard[0]](), shard[1], PARTS):
        yield nets.lit(ref)


def connected(nls, E):
    if not nls:
        return False
    nls = set(nls)
    start = min(nls, key=repr)
    seen, stack = {start}, [start]
    adj = {}
    for (u, v) in E:
        if u in nls and v in nls:
            adj.setdefault(u, []).append(v)
            adj.setdefault(v, []).append(u)
    while stack:
        for v in adj.get(stack.pop(), ()):
            if v not in seen:
                seen.add(v)
                stack.append(v)
    return len(seen) == len(nls)


class Space(object):
    """all induced subgraphs of a network that are connected and have no empty nodes or layers"""

    def __init__(self, ref):
        nodes, layers = R.srt(ref.nodes), R.srt(ref.layers[0])
        E = ref.edges()
        nls = ref.node_layers()
        self.ok = {}     # (nodes, layers) -> {layer: set of nodes}
        for ns in T.subsets(nodes):
            for ls in T.subsets(layers):
                if ns and ls:
                    sub = [u for u in nls if u[0] in ns and u[1] in ls]
                    if set(u[0] for u in sub) == set(ns) and set(u[1] for u in sub) == set(ls) and connected(sub, E):
                        self.ok[(ns, ls)] = dict((l, frozenset(u[0] for u in sub if u[1] == l)) for l in ls)


def combos(k):
    return [c for j in range(2, k + 1) for c in itertools.combinations(range(k), j)]


def satisfies(d, sizes, inter, strict):
    """some assignment of the roles to the layers satisfies all requirements"""
    for perm in itertools.permutations(sorted(d, key=repr)):
        if [len(d[l]) for l in perm] != list(sizes):
            continue
        good = True
        for c, req in zip(combos(len(sizes)), inter):
            if req is not None:
                n = len(frozenset.intersection(*[d[perm[i]] for i in c]))
                good = good and (n == req if strict else n <= req)
        if good:
            return True
    return False


def norm(res):
    return sorted(((tuple(R.srt(a)), tuple(R.srt(b))) for a, b in res), key=repr)


def required_nodes(sizes, inter):
    n = sum(sizes)
    for c, x in zip(combos(len(sizes)), inter):
        n += x if len(c) % 2 else -x
    return n


def requests(ref, space, tier):
    """every kind of request worth making of this network: (kwargs, predicate)"""
    q = tier == "quick"
    nn, nl = len(ref.nodes), len(ref.layers[0])
    out = []
    for a in range(1, nn + 1):
        for b in range(1, nl + 1):
            out.append((dict(nnodes=a, nlayers=b), lambda k, d, a=a, b=b: len(k[0]) == a and len(k[1]) == b))
    out.append((dict(nnodes=nn + 1, nlayers=1), lambda k, d: False))
    # profiles of sizes and intersections that occur, and some that do not
    profs = set()
    for (ns, ls), d in space.ok.items():
        for perm in itertools.permutations(ls) if len(ls) < 3 or not q else [ls, ls[::-1]]:
            sizes = tuple(len(d[l]) for l in perm)
            inter = tuple(len(frozenset.intersection(*[d[perm[i]] for i in c])) for c in combos(len(ls)))
            profs.add((sizes, inter))
    reqs = set()
    for sizes, inter in profs:
        n = required_nodes(sizes, inter)
        reqs.add((sizes, inter, None, "strict"))
        if len(sizes) > 1:
            for i in range(len(inter)):
                reqs.add((sizes, inter[:i] + (None,) + inter[i + 1:], n, "strict"))
                reqs.add((sizes, inter[:i] + (None,) + inter[i + 1:], n, "less_or_equal"))
            reqs.add((sizes, (None,) * len(inter), n, "strict"))
            reqs.add((sizes, inter[-1], n, "strict"))
            reqs.add((sizes, inter[-1], n, "less_or_equal"))
            for x in {0, inter[-1] - 1, inter[-1] + 1} if q else range(min(sizes) + 2):
                if x >= 0:
                    reqs.add((sizes, x, n, "strict"))
            reqs.add((sizes, 0, n, "less_or_equal"))
            if n < nn:
                reqs.add((sizes, (None,) * len(inter), n + 1, "strict"))
            reqs.add((sizes, tuple(x + 1 for x in inter), n, "less_or_equal"))
            reqs.add((sizes, tuple(max(0, x - 1) for x in inter), n, "less_or_equal"))
        reqs.add((sizes, inter, n, "less_or_equal"))
    for sizes, inter, n, typ in sorted(reqs, key=repr):
        kw = dict(sizes=list(sizes), intersections=list(inter) if isinstance(inter, tuple) else inter)
        if n is not None:
            kw["nnodes"] = n
        if typ != "strict":
            kw["intersection_type"] = typ
        full_inter = inter if isinstance(inter, tuple) else (None,) * (len(combos(len(sizes))) - 1) + (inter,)
        need = n if n is not None else required_nodes(sizes, inter)
        out.append((kw, lambda k, d, s=sizes, i=full_inter, m=need, t=typ: len(k[1]) == len(s) and len(k[0]) == m and satisfies(d, s, i, t == "strict")))
    return out


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    space = Space(ref)
    ctx.state()
    E = ref.edges()
    for n, (kw, pred) in enumerate(requests(ref, space, ctx.tier)):
        exp = sorted((k for k, d in space.ok.items() if pred(k, d)), key=repr)
        if kw.get("nnodes", 1) <= len(ref.nodes):
            res = []
            dumb.dumb_enumeration(net, res, **kw)
            ctx.step()
            if norm(res) != exp:
                ctx.fail("dumb_enumeration(%r)" % kw, exp, norm(res))
        for copy in (True, False):
            res = []
            if n % 2:
                esu.sample_multilayer_subgraphs_esu(net, res.append, copy_network=copy, **kw)
            else:
                esu.sample_multilayer_subgraphs_esu(net, res, copy_network=copy, **kw)
            ctx.step()
            if norm(res) != exp:
                ctx.fail("sample_multilayer_subgraphs_esu(%r, copy_network=%r)" % (kw, copy), exp, norm(res))
            ctx.outcome(exp)
            if not copy:
                T.unchanged(ctx, net, before, "sample_multilayer_subgraphs_esu(copy_network=False)")
    # own check functions: asked about every candidate once, with the right edges inside
    for a in range(1, len(ref.nodes) + 1):
        for b in range(1, len(ref.layers[0]) + 1):
            for copy in (True, False):
                def own(nw, nodelist, layerlist):
                    k = (tuple(R.srt(nodelist)), tuple(R.srt(layerlist)))
                    nls = [u for u in ref.node_layers() if u[0] in nodelist and u[1] in layerlist]
                    for u in nls:
                        for v in nls:
                            if nw[R.link(u, v)] != E.get((u, v), 0):
                                ctx.fail("edge %r inside of the subgraph given to the check function (copy_network=%r)" % ((u, v), copy),
                                         E.get((u, v), 0), nw[R.link(u, v)])
                    return k in space.ok and (len(repr(k)) + sum(len(x) for x in space.ok[k].values())) % 2 == 0
                exp = sorted((k for k, d in space.ok.items() if len(k[0]) == a and len(k[1]) == b and
                              (len(repr(k)) + sum(len(x) for x in d.values())) % 2 == 0), key=repr)
                res = []
                esu.sample_multilayer_subgraphs_esu(net, res, nnodes=a, nlayers=b, copy_network=copy, custom_check_function=own)
                ctx.step()
                if norm(res) != exp:
                    ctx.fail("sample_multilayer_subgraphs_esu with a check function (nnodes=%d, nlayers=%d, copy_network=%r)" % (a, b, copy), exp, norm(res))
            res = []
            dumb.dumb_enumeration(net, res.append, nnodes=a, nlayers=b, custom_check_function=lambda nw, x, y: (tuple(R.srt(x)), tuple(R.srt(y))) in space.ok)
            if norm(res) != sorted((k for k in space.ok if len(k[0]) == a and len(k[1]) == b), key=repr):
                ctx.fail("dumb_enumeration with a check function (nnodes=%d, nlayers=%d)" % (a, b), None, norm(res))
    T.unchanged(ctx, net, before, "subgraph enumeration")

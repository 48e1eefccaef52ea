"""Exhaustive observation of one real network against the reference model `Ref`.

observe_storage: nodes, layers, node-layers, every index read in every notation.
observe_edges:   degrees, strengths, neighbour iteration, slicing, edge listing.
Both use only the public interface.  They work for general and multiplex networks.
"""
import itertools
from mc.ref import link, unlink, layer_arg, srt

COLON = slice(None, None, None)


def aslist(it, limit=5000):
    out = []
    for x in it:
        out.append(x)
        if len(out) > limit:
            raise RuntimeError("iteration does not end")
    return out


def cmp_unique(ctx, got, expected, what):
    """got: list that must contain exactly the elements of `expected` once each"""
    if len(got) != len(set(got)):
        ctx.fail(what + " (repeated elements)", srt(expected), srt(got))
    elif set(got) != set(expected):
        ctx.fail(what, srt(expected), srt(got))


def idx(u):
    return u[0] if len(u) == 1 else u


def observe_storage(net, ref, ctx, missing=()):
    d = ref.aspects
    ctx.eq(len(net), len(ref.nodes), "len(net)")
    cmp_unique(ctx, aslist(net), ref.nodes, "iteration over nodes")
    cmp_unique(ctx, aslist(net.iter_nodes()), ref.nodes, "iter_nodes()")
    if set(net.get_layers(0)) != ref.nodes:
        ctx.fail("get_layers(0)", srt(ref.nodes), srt(net.get_layers(0)))
    for a in range(1, d + 1):
        if set(net.get_layers(a)) != ref.layers[a - 1]:
            ctx.fail("get_layers(%d)" % a, srt(ref.layers[a - 1]), srt(net.get_layers(a)))
        cmp_unique(ctx, aslist(net.iter_layers(a)), ref.layers[a - 1], "iter_layers(%d)" % a)
    lays = list(itertools.product(*ref.layers))
    if d >= 1:
        cmp_unique(ctx, aslist(net.iter_layers()), [layer_arg(l) for l in lays], "iter_layers()")
    nls = ref.node_layers()
    cmp_unique(ctx, aslist(net.iter_node_layers()), nls, "iter_node_layers()")
    if d >= 1:
        for l in lays:
            exp = set(x[0] for x in nls if x[1:] == l) if not ref.full else ref.nodes
            cmp_unique(ctx, aslist(net.iter_nodes(layer_arg(l))), exp, "iter_nodes(%r)" % (l,))
    E = ref.edges()
    allnl = srt(ref.all_nl()) + list(missing)
    for u in allnl:
        nu = net[idx(u)]
        for v in allnl:
            exp = E.get((u, v), ref.noEdge)
            got = net[link(u, v)]
            if got != exp or (got is None) != (exp is None):
                ctx.fail("net[%r]" % (link(u, v),), exp, got)
            got = nu[idx(v)]
            if got != exp:
                ctx.fail("net[%r][%r]" % (u, v), exp, got)
            if d >= 1 and u[1:] == v[1:]:
                got = net[(u[0], v[0]) + u[1:]]
                if got != exp:
                    ctx.fail("net[%r] (short form)" % ((u[0], v[0]) + u[1:],), exp, got)
    ctx.count("reads", 3 * len(allnl) ** 2)


def nset(ref, E, u, mode, dims=None):
    out = set()
    for (x, y) in E:
        if x == u and mode in ("out", "total"):
            out.add(y)
        if y == u and mode in ("in", "total"):
            out.add(x)
    if dims is not None:
        out = set(v for v in out if all(k is None or k == v[i] for i, k in enumerate(dims)))
    return out


def close(a, b):
    if a == b:
        return True
    try:
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def observe_edges(net, ref, ctx, patterns="all", strengths=True):
    d = ref.aspects
    E = ref.edges()
    directed = ref.directed
    for u in srt(ref.all_nl()):
        node = net[idx(u)]
        nb = {}
        for mode in ("out", "in", "total"):
            nb[mode] = nset(ref, E, u, mode)
        un = (lambda s: set(x[0] for x in s)) if d == 0 else (lambda s: s)
        cmp_unique(ctx, aslist(node), un(nb["total"]), "neighbours of %r" % (u,))
        cmp_unique(ctx, aslist(node.iter_total()), un(nb["total"]), "iter_total of %r" % (u,))
        cmp_unique(ctx, aslist(node.iter_out()), un(nb["out"]), "iter_out of %r" % (u,))
        cmp_unique(ctx, aslist(node.iter_in()), un(nb["in"]), "iter_in of %r" % (u,))
        ctx.eq(len(node), len(nb["total"]), "len(net[%r])" % (u,))

        def check_degs(nd, dims, what, args=()):
            for mode, f, g in (("total", nd.deg, nd.str), ("total", nd.deg_total, nd.str_total),
                               ("out", nd.deg_out, nd.str_out), ("in", nd.deg_in, nd.str_in)):
                s = nset(ref, E, u, mode, dims)
                got = f(*args)
                if got != len(s):
                    ctx.fail("%s %s %s" % (what, f.__name__, args or ""), len(s), got)
                if strengths:
                    so = sum(E[(u, v)] for v in nset(ref, E, u, "out", dims))
                    si = sum(E[(v, u)] for v in nset(ref, E, u, "in", dims))
                    exp = {"out": so, "in": si, "total": so + si if directed else so}[mode]
                    got = g(*args)
                    if not close(got, exp):
                        ctx.fail("%s %s %s" % (what, g.__name__, args or ""), exp, got)
        check_degs(node, None, "net[%r]" % (u,))
        if patterns == "all":
            doms = [[None] + srt(ref.nodes)] + [[None] + srt(l) for l in ref.layers]
            for dims in itertools.product(*doms):
                check_degs(node, dims, "net[%r]" % (u,), dims)
                if any(k is None for k in dims):
                    item = link(u, tuple(COLON if k is None else k for k in dims))
                    sl = net[item]
                    for mode, it in (("total", sl), ("total", sl.iter_total()), ("out", sl.iter_out()), ("in", sl.iter_in())):
                        s = nset(ref, E, u, mode, dims)
                        cmp_unique(ctx, aslist(it), un(s), "net[%s] neighbours (%s)" % (
                            ",".join(":" if k is COLON else repr(k) for k in item), mode))
                    check_degs(sl, dims, "net[%r]" % (item,))
                    ctx.count("queries", 20)
            if d >= 1:
                # net[i,:,s] is net[i,:,s,s]
                sl = net[(u[0], COLON) + u[1:]]
                dims = (None,) + u[1:]
                cmp_unique(ctx, aslist(sl.iter_out()), un(nset(ref, E, u, "out", dims)), "net[i,:,layer] short slice at %r" % (u,))
                # node-object slicing: net[u][:, l2, ...]
                sl = net[idx(u)][(COLON,) + u[1:]]
                cmp_unique(ctx, aslist(sl.iter_out()), un(nset(ref, E, u, "out", dims)), "net[node][:,layer] slice at %r" % (u,))
        ctx.count("queries", 13)
    # edges
    exp = {}
    for (u, v), w in E.items():
        k = (u, v) if directed else frozenset([u, v])
        exp[k] = w
    seen = {}
    n = 0
    for e in aslist(net.edges):
        n += 1
        u, v = unlink(e[:-1])
        k = (u, v) if directed else frozenset([u, v])
        if k in seen:
            ctx.fail("edge %r listed more than once" % (e,), "each edge once", srt(map(tuple, aslist(net.edges))))
        seen[k] = e[-1]
    if set(seen) != set(exp) or any(seen[k] != exp[k] for k in seen):
        ctx.fail("net.edges", srt(exp.items()), srt(seen.items()))
    ctx.eq(len(net.edges), len(exp), "len(net.edges)")


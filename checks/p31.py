"""P31 modularity view and flattened matrix files."""
import io
import itertools
import pymnet
from pymnet.net import ModularityMultilayerNetworkView as View
from mc import nets, families, ref as R, tcheck as T
from mc.obs import close

ID = "P31"
TITLE = "modularity view and flattened matrix"
RULE = ("every network of the enumerated families with noEdge 0: every pair of node-layers read through the modularity view of the undirected "
        "ones in every notation, for several resolution parameters, and every number of the flattened matrix file")

GAMMAS = (1.0, 0, 0.5, 2)


def fams(tier):
    q = tier == "quick"
    E = nets.enum
    F = {}
    F["m4"] = lambda: E(0, (1, 2, 3, 4), (), loops=False)
    F["m3"] = lambda: E(0, (3, 1, 2), ())
    F["x32"] = lambda: E(1, (1, 2, 3), (("a", "b"),), couplings=("categorical",))
    F["x32p"] = lambda: E(1, (1, 2, 3), ((1, 2),), couplings=(("ordinal", 2.0),), full=False, isolated="all" if q else "every")
    F["x33"] = lambda: E(1, (1, 2, 3), ((1, 2, 4),), couplings=("ordinal",), max_edges=4 if q else 9)
    F["x22"] = lambda: E(2, (1, 2), ((1, 2), (1, 2)), couplings=("categorical", ("ordinal", 0.5)))
    F["x23"] = lambda: E(2, (1, 2), ((1, 2), (1, 2, 3)), couplings=("none", ("categorical", 0.5)))
    F["g22"] = lambda: E(1, (1, 2), ((1, 2),), max_edges=4 if q else 10)
    F["g32"] = lambda: E(1, (1, 2, 3), (("x", "y"),), max_edges=2 if q else 3)
    F["g22p"] = lambda: E(1, (1, 2), ((1, 2),), full=False, max_edges=3 if q else 5)
    F["g222"] = lambda: E(2, (1, 2), (("x",), ("p", "q")), max_edges=3 if q else 4)
    return F


PARTS = 2


def shards(tier, seed):
    return [("f", n, p) for n in sorted(fams(tier)) for p in range(PARTS)] + \
        [("c",) + s for s in families.shards(tier, 1, skip=("mono_ne", "gen1_ne", "gen1_nn", "zz_none", "zz_mpx_none_ne", "zz_mpx_cat_ne"))]


def cases(shard, tier):
    gen = nets.split(fams(tier)[shard[1]](), shard[2], PARTS) if shard[0] == "f" else families.nets_of(shard[1:], tier)
    for ref in gen:
        yield nets.lit(ref)


class Out(io.StringIO):
    text = None

    def close(self):
        self.text = self.getvalue()


def matrix(ctx, net, what, order, exp):
    out = Out()
    net._write_flattened(out)
    ctx.step()
    if out.text is None:
        ctx.fail(what + ": the file is not closed")
        return
    rows = [[float(x) for x in line.split()] for line in out.text.splitlines()]
    if len(rows) != len(order) or any(len(r) != len(order) for r in rows):
        ctx.fail(what + ": shape of the matrix", len(order), [len(r) for r in rows])
        return
    for u, row in zip(order, rows):
        for v, x in zip(order, row):
            if not close(x, float(exp(u, v))):
                ctx.fail("%s: entry of %r and %r" % (what, u, v), exp(u, v), x)


def check(case, ctx):
    ref = nets.unlit(case)
    names = [ref.nodes] + ref.layers
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    E = ref.edges()
    try:
        sl = [sorted(x) for x in names]
    except TypeError:
        sl = None       # the rows of matrices are sorted by name
    nls = list(itertools.product(*map(R.srt, names)))
    order = None if sl is None else [tuple(reversed(x)) for x in itertools.product(*reversed(sl))]
    if order is not None:
        matrix(ctx, net, "flattened matrix", order, lambda u, v: E.get((u, v), 0))
    T.unchanged(ctx, net, before, "flattened matrix")
    if ref.directed:
        return
    k = dict((u, sum(w for (a, b), w in E.items() if a == u and b[1:] == u[1:])) for u in nls)
    twom = {}
    for u in nls:
        twom[u[1:]] = twom.get(u[1:], 0) + k[u]

    def b(u, v, gamma):
        w = E.get((u, v), 0)
        if u[1:] == v[1:] and twom[u[1:]]:
            return w - gamma * k[u] * k[v] / float(twom[u[1:]])
        return w
    for g in (None,) + GAMMAS:
        what = "modularity view" + ("" if g is None else ", gamma=%r" % g)
        view = View(net) if g is None else View(net, g)
        ctx.step()
        gamma = 1.0 if g is None else g
        if frozenset(view) != frozenset(ref.nodes) or len(view) != len(ref.nodes) or view.aspects != ref.aspects:
            ctx.fail(what + ": nodes", ref.nodes, list(view))
        for u in nls:
            for v in nls:
                exp = float(b(u, v, gamma))
                reads = [("view[%r]" % (R.link(u, v),), lambda: view[R.link(u, v)])]
                if ref.aspects:
                    reads.append(("view[%r][%r]" % (u, v), lambda: view[u][v]))
                else:
                    reads.append(("view[%r][%r]" % (u[0], v[0]), lambda: view[u[0]][v[0]]))
                if ref.aspects and u[1:] == v[1:]:
                    reads.append(("view[%r]" % ((u[0], v[0]) + u[1:],), lambda: view[(u[0], v[0]) + u[1:]]))
                for nm, f in reads:
                    got = f()
                    if not close(float(got), exp):
                        ctx.fail("%s: %s" % (what, nm), exp, got)
                ctx.outcome(round(exp, 6))
        if order is not None and g in (None, 0.5):
            matrix(ctx, view, what + ", flattened", order, lambda u, v: b(u, v, gamma))
            for inc in (True, False):
                m, nodes = pymnet.supra_adjacency_matrix(view, includeCouplings=inc)
                nodes = [x if ref.aspects else (x,) for x in nodes]
                if sorted(map(repr, nodes)) != sorted(map(repr, order)):
                    ctx.fail(what + ": node-layers of the matrix", order, nodes)
                    continue
                for i, u in enumerate(nodes):
                    for j, v in enumerate(nodes):
                        exp = b(u, v, gamma) if inc or u[1:] == v[1:] else 0
                        if not close(m[i, j], float(exp)):
                            ctx.fail("%s: matrix (includeCouplings=%r) entry of %r and %r" % (what, inc, u, v), exp, m[i, j])
                ctx.step()
        T.unchanged(ctx, net, before, what)

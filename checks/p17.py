"""P17 the NetworkX view is the network, and NetworkX survives every call through the wrapper."""
import inspect
import itertools
import random
import re
import networkx
import numpy
import pymnet
from pymnet import nxwrap
from mc import core, nets, ref as R, tcheck as T
try:
    from collections.abc import Mapping
except ImportError:
    from collections import Mapping

ID = "P17"
TITLE = "NetworkX view"
RULE = ("(h) breadth-first over histories of edits through the view and through the network, every state compared with a plain "
        "NetworkX graph under the same edits; (f) every graph of up to four nodes x a menu of NetworkX functions, result compared "
        "with the plain graph; (x) every call of the menu with an exception injected at every access to the network, and every "
        "failing call: NetworkX must be restored and the network unchanged")

GRAPH = networkx.Graph


def shards(tier, seed):
    out = [("h", n) for n in sorted(HIST)]
    out += [("f", k, p, 8) for k in ("large", "n3", "n4", "ne", "tup", "str") for p in range(8)]
    out += [("x", p, 8) for p in range(8)]
    out += [("g", 0)]
    out += [("w", p, 16) for p in range(16)]
    out += [("m", p, 4) for p in range(4)]
    return out


# ---------------------------------------------------------------- (h)
HIST = {"i": ((1, 2, 3), (1, 2.5), 0, True, 4, 6), "s": (("a", 2), (1, 3), 0, True, 5, 8), "t": ((("x", 1), ("y", 2), 3), (1, 4), 0, False, 4, 6),
        "ne": ((1, 2), (0, 1, 2), -1, True, 5, 8)}


def ops(cfg, g):
    nodes, ws, ne, native, _, _ = cfg
    out = []
    for n in nodes:
        out.append(("v.add_node", n))
        if native:
            out.append(("n.add_node", n))
    out.append(("v.add_nodes_from", tuple(nodes[:2])))
    for u, v in itertools.combinations_with_replacement(nodes, 2):
        for a, b in ((u, v), (v, u)) if u != v else ((u, v),):
            out.append(("v.add_edge", a, b, None))
            for w in ws:
                out.append(("v.add_edge", a, b, w))
            if native:
                for w in ws:
                    out.append(("n.set", a, b, w))
            if g.has_edge(a, b):
                out.append(("v.remove_edge", a, b))
                out.append(("v.item", a, b, ws[-1]))
                if native:
                    out.append(("n.remove", a, b))
            else:
                out.append(("v.remove_missing", a, b))
            if not g.has_edge(a, b) or g[a][b]["weight"] == 1:
                out.append(("v.add_edge_attr", a, b, ws[-1]))
                out.append(("v.add_edge_colour", a, b))
    for n in nodes:
        out.append(("v.remove_missing", n, "missing"))
        out.append(("v.remove_missing", "missing", n))
        if n in g:
            out.append(("v.remove_node", n))
        else:
            out.append(("v.remove_absent", n))
    out.append(("v.remove_edges_from", ((nodes[0], "missing"), ("missing", nodes[0]))))
    out.append(("v.clear_edges",))
    out.append(("v.update", ((nodes[0], nodes[-1]),), nodes[:2]))
    if len(g):
        out.append(("v.clear",))
    out.append(("v.add_edges_from", ((nodes[0], nodes[1]), (nodes[1], nodes[-1]))))
    out.append(("v.add_weighted", ((nodes[0], nodes[1], ws[-1]), (nodes[1], nodes[-1], ws[0]))))
    out.append(("v.remove_edges_from", ((nodes[0], nodes[1]), (nodes[1], nodes[-1]))))
    return out


def refused(f, exc, *args):
    try:
        f(*args)
    except exc:
        return
    raise AssertionError("%s%r was not refused" % (f.__name__, args))


def apply(op, net, view, g):
    k = op[0]
    if k == "v.add_node":
        view.add_node(op[1]); g.add_node(op[1])
    elif k == "n.add_node":
        net.add_node(op[1]); g.add_node(op[1])
    elif k == "v.add_nodes_from":
        view.add_nodes_from(op[1]); g.add_nodes_from(op[1])
    elif k == "v.add_edge":
        if op[3] is None:
            view.add_edge(op[1], op[2])
            g.add_edge(op[1], op[2])
        else:
            view.add_edge(op[1], op[2], weight=op[3])
            g.add_edge(op[1], op[2], weight=op[3])
    elif k == "n.set":
        net[op[1], op[2]] = op[3]
        g.add_edge(op[1], op[2], weight=op[3])
    elif k == "n.remove":
        net[op[1], op[2]] = net.noEdge
        g.remove_edge(op[1], op[2])
    elif k == "v.remove_edge":
        view.remove_edge(op[1], op[2])
        g.remove_edge(op[1], op[2])
    elif k == "v.item":
        view[op[1]][op[2]]["weight"] = op[3]
        g[op[1]][op[2]]["weight"] = op[3]
    elif k == "v.add_edges_from":
        view.add_edges_from(op[1]); g.add_edges_from(op[1])
    elif k == "v.add_weighted":
        view.add_weighted_edges_from(op[1]); g.add_weighted_edges_from(op[1])
    elif k == "v.remove_edges_from":
        view.remove_edges_from(op[1]); g.remove_edges_from(op[1])
    elif k == "v.add_edge_attr":
        view.add_edge(op[1], op[2], colour=77, weight=op[3])
        g.add_edge(op[1], op[2], weight=op[3])
    elif k == "v.add_edge_colour":         # other attributes cannot be stored
        view.add_edge(op[1], op[2], colour=77)
        g.add_edge(op[1], op[2])
    elif k == "v.remove_missing":
        refused(view.remove_edge, networkx.NetworkXError, op[1], op[2])
    elif k == "v.remove_node":             # nodes cannot be removed
        refused(view.remove_node, Exception, op[1])
        refused(view.remove_nodes_from, Exception, [op[1]])
    elif k == "v.remove_absent":
        refused(view.remove_node, networkx.NetworkXError, op[1])
        view.remove_nodes_from([op[1]])    # ignores them
    elif k == "v.clear":
        refused(view.clear, Exception)
    elif k == "v.clear_edges":
        view.clear_edges(); g.clear_edges()
    elif k == "v.update":
        view.update(edges=op[1], nodes=op[2]); g.update(edges=op[1], nodes=op[2])
    else:
        raise ValueError(op)
    for a, b, d in g.edges(data=True):     # the documented default weight
        d.setdefault("weight", 1)


def observe(net, view, g, ctx, cfg):
    native = cfg[3]
    es = lambda it: R.srt((frozenset((a, b)), w) for a, b, w in it)
    ctx.eq(R.srt(view.nodes), R.srt(g.nodes), "view.nodes")
    ctx.eq(R.srt(iter(view)), R.srt(g.nodes), "iter(view)")
    ctx.eq(R.srt(net), R.srt(g.nodes), "network nodes")
    ctx.eq((len(view), view.number_of_nodes(), view.order()), (len(g),) * 3, "number of nodes")
    if R.srt(view.nodes) != R.srt(g.nodes):
        return
    ctx.eq(es(view.edges(data="weight")), es(g.edges(data="weight")), "view.edges")
    ctx.eq(es(net.edges), es(g.edges(data="weight")), "network edges")
    ctx.eq((view.number_of_edges(), view.size(weight="weight")), (g.number_of_edges(), g.size(weight="weight")), "number of edges, size")
    for u in list(g.nodes) + ["missing"]:
        ctx.eq((u in view, view.has_node(u)), (u in g,) * 2, "node membership of %r" % (u,))
        if u not in g:
            try:
                view[u]
                ctx.fail("view[%r] of a missing node" % (u,), "KeyError", "no exception")
            except KeyError:
                pass
            continue
        ctx.eq(R.srt(view.neighbors(u)), R.srt(g.neighbors(u)), "neighbors(%r)" % (u,))
        ctx.eq(R.srt(view[u]), R.srt(g[u]), "view[%r]" % (u,))
        ctx.eq((view.degree(u), len(view[u])), (g.degree(u), len(g[u])), "degree(%r)" % (u,))
        ctx.eq(view.degree(u, weight="weight"), g.degree(u, weight="weight"), "weighted degree(%r)" % (u,))
        for v in list(g.nodes) + ["missing"]:
            ctx.eq((view.has_edge(u, v), v in view[u]), (g.has_edge(u, v),) * 2, "has_edge(%r,%r)" % (u, v))
            if g.has_edge(u, v):
                w = g[u][v]["weight"]
                ctx.eq((view[u][v]["weight"], dict(view[u][v]), view.get_edge_data(u, v)["weight"], view.edges[u, v]["weight"]), (w, {"weight": w}, w, w), "view[%r][%r]" % (u, v))
                if native:
                    ctx.eq(net[u, v], w, "net[%r,%r]" % (u, v))
            else:
                ctx.eq(view.get_edge_data(u, v), None, "get_edge_data(%r,%r)" % (u, v))
                try:
                    view[u][v]
                    ctx.fail("view[%r][%r] of a missing edge" % (u, v), "KeyError", "no exception")
                except KeyError:
                    pass
    for u, adj in view.adjacency():
        ctx.eq(R.srt((v, dict(d)) for v, d in adj.items()), R.srt((v, dict(d)) for v, d in g[u].items()), "view.adjacency() of %r" % (u,))
    for a, b in view.edges():
        ctx.eq((len(view[a][b]), list(view[a][b]), view[a][b].copy()), (1, ["weight"], {"weight": g[a][b]["weight"]}), "attributes of (%r,%r)" % (a, b))
    for i in range(len(g) + 1):
        for part in itertools.combinations(R.srt(g.nodes), i):
            hv, hg = view.subgraph(part), g.subgraph(part)
            ctx.eq((R.srt(hv.nodes), es(hv.edges(data="weight"))), (R.srt(hg.nodes), es(hg.edges(data="weight"))), "view.subgraph(%r)" % (part,))
            ctx.eq(R.srt(frozenset(e) for e in view.edges(part)), R.srt(frozenset(e) for e in g.edges(part)), "view.edges(%r)" % (part,))
            ctx.eq(R.srt(view.degree(part)), R.srt(g.degree(part)), "view.degree(%r)" % (part,))
            ctx.eq(R.srt(view.nbunch_iter(part + ("missing",))), R.srt(part), "view.nbunch_iter(%r)" % (part,))
    f = view.fresh_copy()
    ctx.eq((len(f), f.number_of_edges()), (0, 0), "view.fresh_copy()")
    f.add_edge("f1", "f2")
    c = view.copy()
    c.add_edge("c1", "c2")
    for what, h in (("networkx.Graph(view)", GRAPH(view)), ("view.copy()", view.copy()), ("MonoplexGraphNetworkxNew(graph)", nxwrap.MonoplexGraphNetworkxNew(g)),
                    ("MonoplexGraphNetworkxNew(view)", nxwrap.MonoplexGraphNetworkxNew(view)), ("MonoplexGraphNetworkxView(graph)", nxwrap.MonoplexGraphNetworkxView(g)),
                    ("view.to_directed()", view.to_directed().to_undirected())):
        if what not in ("networkx.Graph(view)", "view.to_directed()") and any(w == 0 for _, _, w in g.edges(data="weight")):
            continue   # copies are new networks, whose 'no edge' value is zero
        ctx.eq((R.srt(h.nodes), es(h.edges(data="weight"))), (R.srt(g.nodes), es(g.edges(data="weight"))), what)
    ctx.eq(R.srt(net), R.srt(g.nodes), "network nodes after queries")
    ctx.outcome(repr((R.srt(g.nodes), es(g.edges(data="weight")))))


def make(cfg, hist):
    net = pymnet.MultilayerNetwork(aspects=0, noEdge=cfg[2])
    view = nxwrap.MonoplexGraphNetworkxView(net)
    g = GRAPH()
    for op in hist:
        apply(op, net, view, g)
    return net, view, g


def run_hist(case, ctx):
    cfg = HIST[case[1]]
    net, view, g = make(cfg, case[2])
    observe(net, view, g, ctx, cfg)
    v2 = nxwrap.MonoplexGraphNetworkxView(net)
    observe(net, v2, g, ctx, cfg)


def bfs(name, tier, ctx):
    cfg = HIST[name]
    depth = cfg[4] if tier == "quick" else cfg[5]
    seen = set()
    frontier = [()]
    for d in range(depth + 1):
        nxt = []
        for h in frontier:
            try:
                with core.horizon(core.CASE_SECONDS):
                    net, view, g = make(cfg, h)
                key = (R.fingerprint(net), repr(canon(g)))
            except (Exception, core.Hang):
                key = ("exc", h)
            if key in seen:
                continue
            seen.add(key)
            ctx.state()
            if not ctx.run_case(("h", name, h), run_hist):
                continue
            if d == depth:
                continue
            for op in ops(cfg, g):
                ctx.step()
                nxt.append(h + (op,))
        frontier = nxt
        if not frontier:
            break
    ctx.count("depth_%s" % name, d)
    if frontier and d == depth:
        ctx.count("depth_capped_configs")


# ---------------------------------------------------------------- (f)
def graphset(k, tier):
    q = tier == "quick"
    if k == "n3":
        return nets.enum(0, (1, 2, 3), ())
    if k == "n4":
        return nets.enum(0, (1, 2, 3, 4), (), loops=False, weight=lambda i: (1, 2, 1, 3)[i % 4])
    if k == "ne":
        return nets.enum(0, (1, 2, 3), (), noEdge=-1, weight=lambda i: (1, 3, 2)[i % 3], loops=False)
    if k == "large":
        return (r for n in (7, 11) for r in nets.large(0, n, (), weight=lambda i: (1, 2, 1, 3)[i % 4]))
    if k == "str":
        return nets.grown(0, ("a", "b", "c"), (), loops=True, max_edges=3)
    if k == "tup":
        return nets.enum(0, (("x", 1), ("y", 1), ("x", 2)), (), loops=False)


def canon(r):
    if isinstance(r, pymnet.MultilayerNetwork):
        return ("graph", R.srt(r), R.srt((R.srt((a, b)), w) for a, b, w in r.edges))
    if isinstance(r, GRAPH):
        if r.is_directed():
            return ("digraph", R.srt(r), R.srt(r.edges))
        return ("graph", R.srt(r), R.srt((R.srt((a, b)), d.get("weight", 1)) for a, b, d in r.edges(data=True)))
    if isinstance(r, float):
        return ("num", "nan" if r != r else round(float(r), 9))
    if hasattr(r, "tolist"):
        return repr(r.tolist())
    if hasattr(r, "toarray"):
        return repr(r.toarray().tolist())
    if isinstance(r, Mapping):
        return ("dict", R.srt((canon(k), canon(v)) for k, v in r.items()))
    if isinstance(r, (set, frozenset)):
        return ("set", R.srt(canon(x) for x in r))
    if isinstance(r, (int, bool)):
        return ("num", float(r))
    if isinstance(r, (str, type(None))):
        return repr(r)
    if isinstance(r, tuple):
        return ("tuple", [canon(x) for x in r])
    try:
        i = iter(r)
    except TypeError:
        return re.sub(" at 0x[0-9a-f]+", "", repr(r))
    try:
        return ("many", R.srt(canon(x) for x in i))
    except TypeError as e:
        return type(e).__name__


FUNCS = [
    ("connected_components", lambda m, n, s: m.connected_components(n)),
    ("number_connected_components", lambda m, n, s: m.number_connected_components(n)),
    ("is_connected", lambda m, n, s: m.is_connected(n)),
    ("degree", lambda m, n, s: dict(m.degree(n))),
    ("density", lambda m, n, s: m.density(n)),
    ("clustering", lambda m, n, s: m.clustering(n)),
    ("triangles", lambda m, n, s: m.triangles(n)),
    ("shortest_path_length", lambda m, n, s: dict(m.shortest_path_length(n))),
    ("dijkstra lengths", lambda m, n, s: dict(m.all_pairs_dijkstra_path_length(n))),
    ("dijkstra length", lambda m, n, s: m.dijkstra_path_length(n, s[0], s[-1])),
    ("diameter", lambda m, n, s: m.diameter(n)),
    ("core_number", lambda m, n, s: m.core_number(n)),
    ("k_core", lambda m, n, s: m.k_core(n)),
    ("betweenness", lambda m, n, s: m.betweenness_centrality(n)),
    ("minimum spanning tree weight", lambda m, n, s: sum(e[2] for e in edges_of(m.minimum_spanning_tree(n)))),
    ("complement", lambda m, n, s: m.complement(n)),
    ("subgraph", lambda m, n, s: m.subgraph(n, s[:2])),
    ("ego_graph", lambda m, n, s: m.ego_graph(n, s[0])),
    ("relabel_nodes", lambda m, n, s: m.relabel_nodes(n, dict((x, "N%d" % i) for i, x in enumerate(s)))),
    ("compose", lambda m, n, s: m.compose(n, n)),
    ("to_numpy_array", lambda m, n, s: m.to_numpy_array(n, nodelist=s)),
    ("adjacency_matrix", lambda m, n, s: m.adjacency_matrix(n, nodelist=s)),
    ("has_path", lambda m, n, s: m.has_path(n, s[0], s[-1])),
    ("create_empty_copy", lambda m, n, s: m.create_empty_copy(n)),
    ("eccentricity", lambda m, n, s: m.eccentricity(n)),
    ("number_of_edges", lambda m, n, s: (m.number_of_edges(n), m.number_of_nodes(n))),
    ("bfs_tree", lambda m, n, s: R.srt(m.single_source_shortest_path_length(n, source=s[0]).items())),
    ("disjoint_union", lambda m, n, s: canon_iso(m.disjoint_union(n, n))),
    ("transitivity", lambda m, n, s: m.transitivity(n)),
    ("bad node", lambda m, n, s: m.shortest_path(n, "no such node", s[0])),
    ("not implemented", lambda m, n, s: m.transitive_closure(n)),
    ("kw", lambda m, n, s: m.number_connected_components(G=n)),
]
FD = dict(FUNCS)


def edges_of(g):
    if isinstance(g, pymnet.MultilayerNetwork):
        return [(a, b, w) for a, b, w in g.edges]
    return [(a, b, d.get("weight", 1)) for a, b, d in g.edges(data=True)]


def canon_iso(g):
    nodes = list(g)
    deg = R.srt(sum(1 for e in edges_of(g) if x in e[:2]) for x in nodes)
    return (len(nodes), R.srt(e[2] for e in edges_of(g)), deg)


def plain(ref):
    g = GRAPH()
    for n in R.srt(ref.nodes):
        g.add_node(n)
    for u, v, w in ref.undirected_edge_list():
        g.add_edge(u[0], v[0], weight=w)
    return g


def real(ref):
    if any(isinstance(n, tuple) for n in ref.nodes):
        net = pymnet.MultilayerNetwork(aspects=0)
        view = nxwrap.MonoplexGraphNetworkxView(net)
        view.add_nodes_from(R.srt(ref.nodes))
        for u, v, w in ref.undirected_edge_list():
            view.add_edge(u[0], v[0], weight=w)
        return net
    return R.build(ref)


def restored(ctx, what):
    if networkx.Graph is not GRAPH or networkx.classes.graph.Graph is not GRAPH:
        networkx.Graph = GRAPH
        ctx.fail("networkx.Graph after " + what, "the original class", "replaced")


def run_f(case, ctx):
    ref = nets.unlit(case[1])
    g = plain(ref)
    s = R.srt(ref.nodes) or ["none"]
    ctx.state()
    for name, f in FUNCS:
        net = real(ref)
        before = canon(net)
        try:
            exp = ("ok", canon(f(networkx, g, s)))
        except Exception as e:
            exp = ("exc", type(e).__name__)
        try:
            got = ("ok", canon(f(nxwrap, net, s)))
        except Exception as e:
            got = ("exc", type(e).__name__)
        restored(ctx, "nx.%s" % name)
        ctx.step()
        if got != exp:
            ctx.fail("nx.%s" % name, exp, got)
        if canon(net) != before:
            ctx.fail("network after nx.%s" % name, before, canon(net))
        ctx.outcome((name, repr(exp)))


# ---------------------------------------------------------------- (x)
class Fault(Exception):
    pass


class FaultNet(pymnet.MultilayerNetwork):
    fuse = None
    used = 0

    def _tick(self):
        type(self).used += 1
        if self.fuse is not None and type(self).used == self.fuse:
            raise Fault()

    def __getitem__(self, item):
        self._tick()
        return super(FaultNet, self).__getitem__(item)

    def __iter__(self):
        self._tick()
        return super(FaultNet, self).__iter__()

    def __len__(self):
        self._tick()
        return super(FaultNet, self).__len__()

    def __contains__(self, x):
        self._tick()
        return super(FaultNet, self).__contains__(x) if hasattr(pymnet.MultilayerNetwork, "__contains__") else x in self.slices[0]


def run_x(case, ctx):
    name = case[1]
    f = FD[name]
    ctx.state()
    for edges in (((1, 2, 1), (2, 3, 2), (1, 3, 3), (4, 5, 1)), ((1, 2, 1), (2, 3, 5)), ()):
        def fresh():
            n = FaultNet(aspects=0)
            for a in (1, 2, 3, 4):
                n.add_node(a)
            for a, b, w in edges:
                pymnet.MultilayerNetwork.__setitem__(n, (a, b), w)
            return n
        FaultNet.fuse = None
        k = 1
        while k < 3000:
            n = fresh()
            FaultNet.used = 0
            FaultNet.fuse = k
            hit = False
            try:
                canon(f(nxwrap, n, [1, 2, 3]))
            except Fault:
                hit = True
            except Exception as e:
                hit = FaultNet.used >= k
            FaultNet.fuse = None
            ctx.step()
            ctx.count("faults_injected")
            restored(ctx, "nx.%s failing at access %d" % (name, k))
            got = R.srt((R.srt((a, b)), w) for a, b, w in n.edges), R.srt(n)
            exp = R.srt((R.srt((a, b)), w) for a, b, w in edges), R.srt(set([1, 2, 3, 4]) | set(x for e in edges for x in e[:2]))
            if got != exp:
                ctx.fail("network after nx.%s failing at access %d" % (name, k), exp, got)
            if not hit and FaultNet.used < k:
                break
            k += 1
        ctx.outcome((name, k))


def run_g(case, ctx):
    """generators return networks; nested calls"""
    ctx.state()
    for name, f in (("karate_club_graph", lambda m: m.karate_club_graph()), ("grid_graph", lambda m: m.grid_graph([2, 3])),
                    ("grid_2d_graph", lambda m: m.disjoint_union(m.grid_2d_graph(2, 2), m.grid_2d_graph(1, 2)))):
        exp = canon(f(networkx))
        got = canon(f(nxwrap))
        restored(ctx, name)
        ctx.step()
        if got != exp:
            ctx.fail("nx." + name, exp, got)
    for bad in (pymnet.MultilayerNetwork(aspects=1), pymnet.MultilayerNetwork(aspects=0, directed=True)):
        try:
            nxwrap.number_of_nodes(bad)
            ctx.fail("wrapping a directed or multilayer network", "an exception", "accepted")
        except Exception:
            pass
        restored(ctx, "a rejected argument")
    n = pymnet.MultilayerNetwork(aspects=0)
    n[1, 2] = 1
    n[2, 3] = 1

    def weight(u, v, d):
        assert nxwrap.number_connected_components(n) == 1
        return d["weight"]
    ctx.eq(nxwrap.dijkstra_path_length(n, 1, 3, weight=weight), 2, "nested call")
    restored(ctx, "nested calls")


# ---------------------------------------------------------------- (w) all functions of one graph
# files, windows, drawing
SKIP_PREFIX = ("write", "read", "draw", "view_", "generate_gexf")
# seconds to hours for small graphs, or rounding errors of eigenvectors which depend on the run
SKIP = ("omega", "sigma", "lattice_reference", "random_reference", "kamada_kawai_layout", "eigenvector_centrality_numpy")
# these print edge data or the type of the graph as text
SKIP += ("info", "generate_multiline_adjlist", "jit_data")
# other edge attributes than the weight cannot be stored in a network
SKIP += ("eulerize", "junction_tree")
# the view refuses to remove nodes (some of these do it in a copy or after having added one)
REMOVERS = ("contracted_edge", "contracted_nodes", "identified_nodes", "effective_size", "k_factor", "k_truss", "stoer_wagner", "negative_edge_cycle")
WGRAPHS = [((1, 2, 3), ((1, 2, 2), (2, 3, 3), (1, 3, 1))), ((1, 2, 3, 4), ((1, 2, 2), (2, 3, 3))), ((1, 2, 3, 4), ((1, 2, 1), (2, 3, 1), (3, 4, 2), (1, 4, 5))),
           ((1, 2), ((1, 2, 1),)), ((0, 1, 2, 3), ((0, 1, 1), (1, 2, 1), (2, 3, 1), (0, 3, 1), (0, 2, 4))), ((0, 1, 2, 3, 4), ((0, 1, 1), (0, 2, 2), (0, 3, 1), (0, 4, 1)))]


def all_functions():
    out = []
    for k, o in sorted(vars(networkx).items()):
        if inspect.isfunction(o) and not k.startswith(SKIP_PREFIX) and k not in SKIP:
            try:
                ps = inspect.signature(o).parameters.values()
            except (TypeError, ValueError):
                continue
            req = [p.name for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and p.default is p.empty]
            if req and req[0] in ("G", "graph", "G1", "g") and len(req) <= 3:
                out.append((k, len(req) - 1))
    return out


def arguments(n, nodes):
    if n == 0:
        return [()]
    if n == 1:
        return [("node",), ("nodes",), ("graph",)]
    return [("node", "node2")]


def ordered(nodes, edges, inner):
    """the plain graph with the given order of the nodes and of each node's neighbours"""
    g = GRAPH()
    g.add_nodes_from(nodes)
    for a, b, w in edges:
        g.add_edge(a, b, weight=w)
    for a in nodes:
        adj = dict(g._adj[a])
        g._adj[a].clear()
        for b in inner(a, list(adj)):
            g._adj[a][b] = adj[b]
    return g


def orders(nodes, edges):
    """plain graphs with every order of the nodes and of the neighbours (kept to some thousands): a network
    promises no order, and the results of some functions depend on it"""
    near = dict((a, [b for e in edges for b in e[:2] if a in e[:2] and b != a]) for a in nodes)
    for perm in itertools.permutations(nodes):
        for p in itertools.product(*[itertools.permutations(near[a]) for a in nodes]):
            inner = dict(zip(nodes, p))
            yield ordered(perm, edges, lambda a, old: inner[a])


def call(m, name, x, nodes, extra, seed=1):
    args = [{"node": nodes[0], "node2": nodes[-1], "nodes": list(nodes[:2]), "graph": x}[e] for e in extra]
    random.seed(seed)
    numpy.random.seed(seed)
    try:
        r = ("ok", canon(getattr(m, name)(x, *args)))
    except Exception as e:
        r = ("exc", type(e).__name__)
    return r + (canon(x),)


def run_w(case, ctx):
    _, name, gi, extra = case
    nodes, edges = WGRAPHS[gi]
    ctx.state()
    g = ordered(nodes, edges, lambda a, old: old)
    exp = call(networkx, name, g, nodes, extra)
    net = pymnet.MultilayerNetwork(aspects=0)
    for a in nodes:
        net.add_node(a)
    for a, b, w in edges:
        net[a, b] = w
    got = call(nxwrap, name, net, nodes, extra)
    restored(ctx, "nx.%s" % name)
    ctx.step()
    if exp[0] == "exc" and extra:
        got = exp[:2] + got[2:]       # not a meaningful choice of arguments
    key = None
    if name == "negative_edge_cycle":
        key = "negative_edge_cycle"
    if name in REMOVERS:
        if canon(net) != ("graph", R.srt(nodes), R.srt((R.srt(e[:2]), e[2]) for e in edges)):
            ctx.fail("network after nx.%s (which removes nodes)" % name, "unchanged", canon(net), key=key)
        return
    if exp != got:
        seen = set([repr(exp)])
        tries = [1] * 4000
        if len(set(repr(call(networkx, name, ordered(nodes, edges, lambda a, old: old), nodes, extra, sd)) for sd in range(1, 9))) > 1:
            tries = list(range(1, 21)) * 200       # a random function: other orders use other random numbers
        for sd, h in zip(tries, orders(nodes, edges)):
            seen.add(repr(call(networkx, name, h, nodes, extra, sd)))
            if repr(got) in seen:
                break
        if repr(got) not in seen:
            ctx.fail("nx.%s(graph%s), and the graph afterwards" % (name, "".join(", " + e for e in extra)), exp, got)
    ctx.outcome((name, repr(exp)))


# ---------------------------------------------------------------- (m) functions meant to change the network
MUT = [
    ("add_path", lambda m, n, s: m.add_path(n, s + ["new"])),
    ("add_path with weights", lambda m, n, s: m.add_path(n, s + ["new"], weight=7)),
    ("add_star", lambda m, n, s: m.add_star(n, s[1:] + s[:1])),
    ("add_star, keyword", lambda m, n, s: m.add_star(G_to_add_to=n, nodes_for_star=s)),
    ("add_cycle", lambda m, n, s: m.add_cycle(n, s + ["new", "other"])),
    ("set_edge_attributes", lambda m, n, s: m.set_edge_attributes(n, 9, "weight")),
    ("set_edge_attributes, keywords", lambda m, n, s: m.set_edge_attributes(G=n, values=9, name="weight")),
    ("set_edge_attributes, some", lambda m, n, s: m.set_edge_attributes(n, dict((e, {"weight": 8}) for e in list(s_edges(n))[:1]))),
    ("set_node_attributes", lambda m, n, s: m.set_node_attributes(G=n, values=1, name="colour")),
    ("add_path twice", lambda m, n, s: (m.add_path(n, s), m.add_path(G_to_add_to=n, nodes_for_path=s[::-1], weight=3))[0]),
]
MD = dict(MUT)


def s_edges(n):
    return R.srt(tuple(R.srt(e[:2])) for e in (n.edges if isinstance(n, pymnet.MultilayerNetwork) else n.edges()))


def run_m(case, ctx):
    ref = nets.unlit(case[1])
    s = R.srt(ref.nodes)
    ctx.state()
    for name, f in MUT:
        g, net = plain(ref), real(ref)
        f(networkx, g, s)
        for a, b, d in g.edges(data=True):
            d.setdefault("weight", 1)
        f(nxwrap, net, s)
        restored(ctx, "nx.%s" % name)
        ctx.step()
        if canon(net) != canon(g):
            ctx.fail("network after nx.%s" % name, canon(g), canon(net))
        ctx.outcome((name, repr(canon(g))))


def run_shard(shard, ctx):
    if shard[0] == "h":
        bfs(shard[1], ctx.tier, ctx)
    elif shard[0] == "f":
        for ref in nets.split(graphset(shard[1], ctx.tier), shard[2], shard[3]):
            ctx.run_case(("f", nets.lit(ref)), run_f)
    elif shard[0] == "x":
        for i, (name, f) in enumerate(FUNCS):
            if i % shard[2] == shard[1]:
                ctx.run_case(("x", name), run_x)
    elif shard[0] == "w":
        for i, (name, k) in enumerate(all_functions()):
            if i % shard[2] == shard[1]:
                for gi in range(len(WGRAPHS) if ctx.tier == "thorough" else 5):
                    for extra in arguments(k, None):
                        ctx.run_case(("w", name, gi, extra), run_w)
    elif shard[0] == "m":
        for k in ("n3", "str", "ne"):
            for ref in nets.split(graphset(k, ctx.tier), shard[1], shard[2]):
                if len(ref.nodes) >= 3:
                    ctx.run_case(("m", nets.lit(ref)), run_m)
    else:
        ctx.run_case(("g",), run_g)


def replay(case, ctx):
    {"h": run_hist, "f": run_f, "x": run_x, "g": run_g, "w": run_w, "m": run_m}[case[0]](case, ctx)

"""Reference model of multilayer networks: plain sets and dictionaries, no cleverness.

A node-layer is a tuple (node, l1, ..., ld).  An edge is a pair of node-layers.
`Ref` is the mathematical object; `build` produces the real network through the public
interface; `snapshot` reads a real network back through plain indexing only, and `Ref.snap`
is the value the reference predicts for it.
"""
import itertools


class Ref(object):
    def __init__(self, aspects=0, directed=False, noEdge=0, full=True, couplings=None):
        self.aspects = aspects
        self.directed = directed
        self.noEdge = noEdge
        self.full = full or aspects == 0
        self.nodes = set()
        self.layers = [set() for _ in range(aspects)]
        self.nl = set()          # explicit node-layers (only meaningful if not full)
        self.E = {}              # (u, v) -> weight; undirected: both orders are stored
        self.couplings = couplings   # None: general network; list: multiplex

    def copy(self):
        r = Ref(self.aspects, self.directed, self.noEdge, self.full, self.couplings)
        r.nodes = set(self.nodes)
        r.layers = [set(l) for l in self.layers]
        r.nl = set(self.nl)
        r.E = dict(self.E)
        return r

    # --- updates -----------------------------------------------------------------
    def add_node(self, n, layer=None):
        """layer: None or tuple of elementary layers"""
        self.nodes.add(n)
        if layer is not None and not self.full:
            for a, l in enumerate(layer):
                self.layers[a].add(l)
            self.nl.add((n,) + tuple(layer))

    def add_layer(self, l, aspect=1):
        self.layers[aspect - 1].add(l)

    def set(self, u, v, w):
        for x in (u, v):
            self.nodes.add(x[0])
            for a, l in enumerate(x[1:]):
                self.layers[a].add(l)
            if not self.full:
                self.nl.add(x)
        if w == self.noEdge:
            self.E.pop((u, v), None)
            if not self.directed:
                self.E.pop((v, u), None)
        else:
            self.E[(u, v)] = w
            if not self.directed:
                self.E[(v, u)] = w

    # --- queries -----------------------------------------------------------------
    def node_layers(self):
        if self.full:
            return set(itertools.product(self.nodes, *self.layers))
        return set(self.nl)

    def all_nl(self):
        return set(itertools.product(self.nodes, *self.layers))

    def coupling_weight(self, a, x, y):
        """weight of the coupling edge from elementary layer x to y in aspect a (1-based), or None"""
        c = self.couplings[a - 1]
        if c is None or c == "none" or c[0] == "none":
            return None
        if c == "categorical":
            return 1.0
        if c == "ordinal":
            return 1.0 if abs(x - y) == 1 else None
        if c[0] == "categorical":
            return c[1] if len(c) > 1 else 1.0
        if c[0] == "ordinal":
            return (c[1] if len(c) > 1 else 1.0) if abs(x - y) == 1 else None
        if c[0] == "network":   # ("network", directed, ((x, y, w), ...)[, noEdge])
            for (p, q, w) in c[2]:
                if (p, q) == (x, y) or (not c[1] and (q, p) == (x, y)):
                    return w
            return None
        raise ValueError(c)

    def edges(self):
        """all (u, v) -> w including coupling edges; both orders when undirected"""
        if self.couplings is None:
            return dict(self.E)
        E = dict(self.E)
        nls = self.node_layers()
        for u in nls:
            for a in range(1, self.aspects + 1):
                for l in self.layers[a - 1]:
                    if l == u[a]:
                        continue
                    v = u[:a] + (l,) + u[a + 1:]
                    if v in nls:
                        w = self.coupling_weight(a, u[a], l)
                        if w is not None and w != self.noEdge:
                            E[(u, v)] = w
        return E

    def snap(self):
        return (self.aspects, self.directed, self.noEdge, self.full, frozenset(self.nodes),
                tuple(frozenset(l) for l in self.layers), frozenset(self.node_layers()),
                frozenset(self.edges().items()))

    def key(self):
        return (self.aspects, self.directed, repr(self.noEdge), self.full, frozenset(self.nodes),
                tuple(frozenset(l) for l in self.layers), frozenset(self.nl), frozenset(self.E.items()),
                repr(self.couplings))

    # --- derived networks ----------------------------------------------------------
    def undirected_edge_list(self):
        seen = set()
        out = []
        for (u, v), w in self.edges().items():
            if (v, u) in seen and not self.directed:
                continue
            seen.add((u, v))
            out.append((u, v, w))
        return out


def link(u, v):
    """pair of node-layers -> full index (i, j, s1, r1, ...)"""
    out = []
    for a, b in zip(u, v):
        out.append(a)
        out.append(b)
    return tuple(out)


def unlink(l):
    return tuple(l[0::2]), tuple(l[1::2])


def layer_arg(layer):
    """tuple of elementary layers -> what the public interface expects"""
    return layer[0] if len(layer) == 1 else tuple(layer)


def real_couplings(cs):
    """reference couplings -> constructor argument (networks are built for real)"""
    import pymnet
    out = []
    for c in cs:
        if isinstance(c, tuple) and c[0] == "network":
            n = pymnet.MultilayerNetwork(aspects=0, directed=c[1], **(dict(noEdge=c[3]) if len(c) > 3 else {}))
            for x, y, w in c[2]:
                n[x, y] = w
            out.append(n)
        else:
            out.append(c)
    return out


def empty(ref):
    import pymnet
    if ref.couplings is None:
        return pymnet.MultilayerNetwork(aspects=ref.aspects, directed=ref.directed, noEdge=ref.noEdge,
                                        fullyInterconnected=ref.full)
    return pymnet.MultiplexNetwork(couplings=real_couplings(ref.couplings), directed=ref.directed, noEdge=ref.noEdge,
                                   fullyInterconnected=ref.full)


def build(ref, order=None):
    """The real network for ref, through the public interface, in a deterministic order."""
    net = empty(ref)
    for a in range(ref.aspects):
        for l in srt(ref.layers[a]):
            net.add_layer(l, a + 1)
    for n in srt(ref.nodes):
        net.add_node(n)
    if not ref.full:
        for x in srt(ref.nl):
            net.add_node(x[0], layer=layer_arg(x[1:]))
    for (u, v) in srt(ref.E):
        if ref.directed or repr(u) <= repr(v):
            net[link(u, v)] = ref.E[(u, v)]
    return net


def srt(xs):
    return sorted(xs, key=repr)


def snapshot(net):
    """Read a real network through its public interface (plain index reads only)."""
    aspects = net.aspects
    nodes = frozenset(net)
    layers = tuple(frozenset(net.get_layers(a + 1)) for a in range(aspects))
    full = bool(net.fullyInterconnected)
    if aspects == 0:
        nls = frozenset((n,) for n in nodes)
    else:
        nls = frozenset(net.iter_node_layers())
    allnl = list(itertools.product(nodes, *layers))
    E = set()
    for u in allnl:
        for v in allnl:
            if aspects > 0 and u == v and hasattr(net, "intranets"):
                w = net[link(u, v)]
            else:
                w = net[link(u, v)]
            if w != net.noEdge:
                E.add(((u, v), w))
    return (aspects, bool(net.directed), net.noEdge, full, nodes, layers, nls, frozenset(E))


SNAP_FIELDS = ("aspects", "directed", "noEdge", "fullyInterconnected", "nodes", "layers", "node-layers", "edges")


def diff(got, exp):
    """human readable difference of two snapshots, or None"""
    out = []
    for name, g, e in zip(SNAP_FIELDS, got, exp):
        if g != e:
            if isinstance(g, frozenset):
                out.append("%s: unexpected %s missing %s" % (name, srt(g - e)[:6], srt(e - g)[:6]))
            else:
                out.append("%s: got %r expected %r" % (name, g, e))
    return "; ".join(out) or None


def fingerprint(obj, _depth=0):
    """Order-insensitive structural fingerprint of a live object's whole state.  Two objects
    with the same fingerprint have the same attributes, containers and values, so they have
    the same futures under the (deterministic, iteration-order-insensitive) operations explored."""
    if _depth > 12:
        return "deep"
    if obj is None or isinstance(obj, (int, float, str, bool, bytes, type)):
        return (type(obj).__name__, obj if not isinstance(obj, type) else obj.__name__)
    if isinstance(obj, (set, frozenset)):
        return ("set", frozenset(fingerprint(x, _depth + 1) for x in obj))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(fingerprint(x, _depth + 1) for x in obj))
    if isinstance(obj, dict):
        return ("dict", frozenset((fingerprint(k, _depth + 1), fingerprint(v, _depth + 1)) for k, v in obj.items()))
    d = getattr(obj, "__dict__", None)
    if d is not None and type(obj).__module__.startswith(("pymnet", "networkx")):
        # parent back-references are cut by depth on the 'parent'/'_net' keys
        return (type(obj).__name__, frozenset((k, fingerprint(v, _depth + 1)) for k, v in d.items()
                                               if not (k in ("parent",) or (k == "_net" and not isinstance(v, dict)))))
    return (type(obj).__name__, repr(obj) if "0x" not in repr(obj) else "obj")

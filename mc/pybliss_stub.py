"""A stand-in for the external PyBliss package (not installable here): exact canonical labelling,
isomorphism and automorphisms of small vertex-coloured graphs by colour refinement plus exhaustive
individualisation.  Only the interface the library uses is provided."""
import sys
import types


class Graph(object):
    def __init__(self):
        self.color = {}
        self.adj = {}

    # -- construction (as in PyBliss: adding an existing vertex/edge again is allowed)
    def add_vertex(self, v, color=0):
        self.color[v] = color
        self.adj.setdefault(v, set())

    def add_edge(self, v1, v2):
        for v in (v1, v2):
            if v not in self.color:
                self.add_vertex(v)
        self.adj[v1].add(v2)
        self.adj[v2].add(v1)

    # -- refinement
    def _refine(self, part):
        while True:
            sig = {}
            for v in self.adj:
                cnt = {}
                for w in self.adj[v]:
                    cnt[part[w]] = cnt.get(part[w], 0) + 1
                sig[v] = (part[v], v in self.adj[v], tuple(sorted(cnt.items())))
            ranks = dict((s, i) for i, s in enumerate(sorted(set(sig.values()))))
            new = dict((v, ranks[sig[v]]) for v in sig)
            if len(ranks) == len(set(part.values())):
                return new
            part = new

    def _leaves(self, part):
        part = self._refine(part)
        cells = {}
        for v, c in part.items():
            cells.setdefault(c, []).append(v)
        big = [c for c in sorted(cells) if len(cells[c]) > 1]
        if not big:
            yield part
            return
        for v in cells[big[0]]:
            p = dict((w, 2 * c) for w, c in part.items())
            p[v] = 2 * big[0] - 1
            for l in self._leaves(p):
                yield l

    def _code(self, lab):
        cols = dict((c, i) for i, c in enumerate(sorted(set(self.color.values()))))
        inv = sorted(lab, key=lambda v: lab[v])
        edges = sorted(tuple(sorted((lab[v], lab[w]))) for v in self.adj for w in self.adj[v])
        return ([self.color[v] for v in inv], edges)

    def _best(self):
        start = dict((c, i) for i, c in enumerate(sorted(set(self.color.values()))))
        best = None
        for leaf in self._leaves(dict((v, start[c]) for v, c in self.color.items())):
            code = self._code(leaf)
            if best is None or code < best[0]:
                best = (code, [leaf])
            elif code == best[0]:
                best[1].append(leaf)
        return best if best is not None else (([], []), [{}])

    # -- the interface used by the library
    def canonical_labeling(self):
        return dict(self._best()[1][0])

    def relabel(self, lab):
        g = Graph()
        for v in self.adj:
            g.add_vertex(lab[v], self.color[v])
        for v in self.adj:
            for w in self.adj[v]:
                g.add_edge(lab[v], lab[w])
        return g

    def get_isomorphism(self, other):
        c1, l1 = self._best()
        c2, l2 = other._best()
        if c1 != c2:
            return None
        inv = dict((x, v) for v, x in l2[0].items())
        return dict((v, inv[x]) for v, x in l1[0].items())

    def find_automorphisms(self, reporter, data=None):
        leaves = self._best()[1]
        first = leaves[0]
        for leaf in leaves[1:]:
            inv = dict((x, v) for v, x in leaf.items())
            reporter(dict((v, inv[x]) for v, x in first.items()), data)

    def __str__(self):
        vs = sorted(self.adj)
        return "".join("(%r,%r)" % (v, self.color[v]) for v in vs) + "|" + "".join(
            "(%r,%r)" % (v, w) for v in vs for w in sorted(self.adj[v]) if v <= w)


def install():
    m = types.ModuleType("PyBliss")
    m.Graph = Graph
    sys.modules["PyBliss"] = m

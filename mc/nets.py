"""Exhaustive enumeration of small networks as reference models (mc.ref.Ref) and their literals."""
import itertools
from mc.ref import Ref, srt

WEIGHTS = (1, 2, 5, 11, 23, 47, 95, 191, 383, 767, 1535, 3071, 6143, 12287, 24575, 49151)
# distinct sums: every subset of WEIGHTS has its own sum


def lit(ref):
    return (ref.aspects, ref.directed, ref.noEdge, ref.full,
            None if ref.couplings is None else tuple(ref.couplings),
            tuple(srt(ref.nodes)), tuple(tuple(srt(l)) for l in ref.layers), tuple(srt(ref.nl)),
            tuple((u, v, w) for (u, v), w in sorted(ref.E.items(), key=repr) if ref.directed or repr(u) <= repr(v)))


def unlit(l):
    asp, di, ne, full, cs, nodes, layers, nl, edges = l
    r = Ref(asp, di, ne, full, None if cs is None else list(cs))
    r.nodes = set(nodes)
    r.layers = [set(x) for x in layers]
    r.nl = set(nl)
    for u, v, w in edges:
        r.set(u, v, w)
    return r


def pairs(nodes, layers, directed, loops=True, intra_only=False, inter=None):
    nls = list(itertools.product(nodes, *layers))
    out = []
    for i, u in enumerate(nls):
        for j, v in enumerate(nls):
            if not directed and j < i:
                continue
            if u == v and not loops:
                continue
            if intra_only and u[1:] != v[1:]:
                continue
            out.append((u, v))
    return out


def wseq(i, weights=WEIGHTS):
    return weights[i % len(weights)]


def enum(aspects, nodes, layers, directed=False, noEdge=0, full=True, couplings=None, loops=True,
         intra_only=None, min_edges=0, max_edges=99, weight=wseq, isolated="all", edge_filter=None):
    """All networks with the given full node/layer sets and any subset of edges of size <= max_edges.
    The k-th edge present gets weight(k).  For networks that are not fully interconnected the
    isolated node-layers are: 'all' -> every subset is too many, so none, all, and each single one;
    'none'; or 'every' -> every subset."""
    if intra_only is None:
        intra_only = couplings is not None
    if couplings is not None:
        loops = False
    ps = pairs(nodes, layers, directed, loops, intra_only)
    if edge_filter is not None:
        ps = [p for p in ps if edge_filter(*p)]
    allnl = list(itertools.product(nodes, *layers))
    for k in range(min_edges, min(len(ps), max_edges) + 1):
        for comb in itertools.combinations(range(len(ps)), k):
            base = Ref(aspects, directed, noEdge, full, None if couplings is None else list(couplings))
            base.nodes = set(nodes)
            base.layers = [set(l) for l in layers]
            for n, pi in enumerate(comb):
                base.set(ps[pi][0], ps[pi][1], weight(n))
            if full or aspects == 0:
                yield base
                continue
            rest = [x for x in allnl if x not in base.nl]
            if isolated == "none":
                subsets = [()]
            elif isolated == "every":
                subsets = [s for r in range(len(rest) + 1) for s in itertools.combinations(rest, r)]
            else:
                subsets = [()] + [(x,) for x in rest] + ([tuple(rest)] if len(rest) > 1 else [])
            for s in subsets:
                r = base.copy()
                r.nl |= set(s)
                yield r


def grown(aspects, nodes, layers, **kw):
    """as enum, but also for every subset of nodes / layers (all sizes including empty)"""
    for k in range(len(nodes) + 1):
        for ns in itertools.combinations(nodes, k):
            lays = [[ls for r in range(len(l) + 1) for ls in itertools.combinations(l, r)] for l in layers]
            for ls in itertools.product(*lays):
                for r in enum(aspects, ns, ls, **kw):
                    yield r


def shape(kind, nodes):
    """edges of a well-known graph on the nodes, as pairs"""
    n = list(nodes)
    if kind == "complete":
        return list(itertools.combinations(n, 2))
    if kind == "star":
        return [(n[0], x) for x in n[1:]]
    if kind == "path":
        return list(zip(n, n[1:]))
    if kind == "cycle":
        return list(zip(n, n[1:] + n[:1]))
    if kind == "cliques":
        h = len(n) // 2
        return list(itertools.combinations(n[:h], 2)) + list(itertools.combinations(n[h:], 2))
    if kind == "empty":
        return []
    if kind == "loops":
        return [(x, x) for x in n]
    raise ValueError(kind)


SHAPES = ("complete", "star", "path", "cycle", "cliques", "empty")


def large(aspects, n, nlayers, noEdge=0, full=True, directed=False, couplings=None, weight=wseq, loops=True):
    """Structured networks which are larger than what can be enumerated: in each one the layers have the shapes in a different order,
    and general networks have inter-layer edges too.  Names are small integers in a mixed-up order."""
    nodes = [(7 * i + 3) % n for i in range(n)] if n % 7 else list(range(n))
    layers = [list(range(k)) for k in nlayers]
    lts = list(itertools.product(*layers))
    for rot in range(len(SHAPES)):
        r = Ref(aspects, directed, noEdge, full, None if couplings is None else list(couplings))
        k = 0
        if full:
            r.nodes = set(nodes)
            r.layers = [set(l) for l in layers]
        for i, lt in enumerate(lts):
            kind = SHAPES[(i + rot) % len(SHAPES)]
            part = nodes if full else nodes[i % 3:]
            if not full:
                for x in part[:4]:
                    r.add_node(x, lt)
            for u, v in shape(kind, part):
                r.set((u,) + lt, (v,) + lt, weight(k))
                k += 1
                if directed and k % 3 == 0:
                    r.set((v,) + lt, (u,) + lt, weight(k + 7))
        if couplings is None:
            if loops:
                r.set((nodes[1],) + lts[0], (nodes[1],) + lts[0], weight(k))
            for i, x in enumerate(nodes if aspects else ()):
                a, b = lts[i % len(lts)], lts[(3 * i + 1) % len(lts)]
                for y in (x, nodes[(i * i + 1) % n]):
                    if (x,) + a != (y,) + b:
                        r.set((x,) + a, (y,) + b, weight(k + i))
        yield r


def split(gen, part, parts):
    """deterministic part of an enumeration, for sharding"""
    for i, x in enumerate(gen):
        if i % parts == part:
            yield x

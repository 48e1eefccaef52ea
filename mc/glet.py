"""Independent brute-force model of (rooted) multiplex graphlets.

A network is (k, L, edges) with nodes 0..k-1, layers 0..L-1 (positions in the list of layers) and edges a frozenset of
(a, b, l), a < b.  Two networks are the same up to the allowed aspects iff their canonical forms are equal."""
import itertools


def pairs(k):
    return list(itertools.combinations(range(k), 2))


def all_nets(k, L):
    ps = [(a, b, l) for a, b in pairs(k) for l in range(L)]
    for bits in range(1 << len(ps)):
        yield frozenset(p for i, p in enumerate(ps) if bits >> i & 1)


def components(k, E):
    comp = list(range(k))
    for a, b, _ in E:
        x, y = comp[a], comp[b]
        if x != y:
            comp = [x if c == y else c for c in comp]
    return comp


def connected(k, E):
    return len(set(components(k, E))) == 1


def coupled(kind, names):
    """pairs of layers coupled to each other, for the coupling rule"""
    L = len(names)
    out = set()
    for i, j in itertools.combinations(range(L), 2):
        if kind == "categorical" or kind == "ordinal" and abs(names[i] - names[j]) == 1:
            out.add((i, j))
    return frozenset(out)


def layer_maps(L, cpl, perm_layers):
    return itertools.permutations(range(L)) if perm_layers else [tuple(range(L))]


_cache = {}


def canon(k, E, names, kind, al, root=None):
    """canonical form; al contains 1 if layers may be renamed (then the names are not part of the form)"""
    free = al == "all" or 1 in al
    key = (k, E, tuple(names), kind, free, root)
    if key in _cache:
        return _cache[key]
    L = len(names)
    C = coupled(kind, names)
    best = None
    for pm in itertools.permutations(range(L)) if free else [tuple(range(L))]:
        C2 = tuple(sorted(tuple(sorted((pm[i], pm[j]))) for i, j in C))
        for pn in itertools.permutations(range(k)):
            if root is not None and pn[root] != 0:
                continue
            c = (C2, tuple(sorted((min(pn[a], pn[b]), max(pn[a], pn[b]), pm[l]) for a, b, l in E)))
            if best is None or c < best:
                best = c
    best = (k, L if free else tuple(names), root is not None) + best
    if len(_cache) < 200000:
        _cache[key] = best
    return best


def sub(E, nodes):
    nodes = list(nodes)
    ix = dict((x, i) for i, x in enumerate(nodes))
    return frozenset((min(ix[a], ix[b]), max(ix[a], ix[b]), l) for a, b, l in E if a in ix and b in ix)


def counts(k, E, names, kind, al, root, n):
    """number of connected induced subnetworks of 2..n nodes per rooted canonical form"""
    out = {}
    for r in range(1, n):
        for others in itertools.combinations([x for x in range(k) if x != root], r):
            S = (root,) + others
            F = sub(E, S)
            if connected(len(S), F):
                c = canon(len(S), F, names, kind, al, 0)
                out[c] = out.get(c, 0) + 1
    return out

"""P18 isomorphism decisions and mappings agree with brute force over all relabelings."""
import itertools
from mc import nets, families, ref as R, tcheck as T
from mc.ref import Ref

ID = "P18"
TITLE = "isomorphism decisions"
RULE = ("all ordered pairs of networks of each enumerated pool x every set of permutable aspects: decision compared with brute force "
        "over all relabelings, every returned mapping applied and checked; networks unchanged")
BACKEND = "nx"


def pools(tier):
    q = tier == "quick"
    one = lambda i: 1
    P = {}

    def pool(name, gens, cap=None):
        def make():
            out = []
            for g in gens:
                out += list(g())
            return out
        P[name] = make
    E = nets.enum
    G = nets.grown
    pool("mono", [lambda: G(0, (0, 1, 2), (), weight=one, max_edges=3 if q else 6), lambda: E(0, (2, 5, 7), (), weight=one, max_edges=1),
                  lambda: E(0, ("a", "b", "c"), (), weight=nets.wseq, loops=False)])
    pool("mono4", [lambda: E(0, (1, 2, 3, 4), (), weight=one, loops=False)])
    pool("g1", [lambda: E(1, (0, 1), (("", "y"),), weight=nets.wseq, max_edges=2 if q else 3), lambda: E(1, (1, 0), (("", "y"),), weight=one, loops=False, min_edges=3, max_edges=3 if q else 6)])
    pool("g1small", [lambda: G(1, (1, 2), (("x", "y"),), weight=one, max_edges=1), lambda: G(1, (1, 2), (("x", "y"),), weight=one, max_edges=1, full=False)])
    pool("g1n", [lambda: E(1, (1, 2), (("x", "y"),), weight=one, full=False, loops=False, max_edges=2 if q else 3),
                 lambda: E(1, (1, 2), (("y", "z"),), weight=one, full=False, loops=False, max_edges=1)])
    pool("g1other", [lambda: E(1, (1, 2), (("x", "y"),), weight=one, max_edges=1), lambda: E(1, (3, 2), (("x", "y"),), weight=one, max_edges=1),
                     lambda: E(1, (3, 4), (("z", "y"),), weight=one, max_edges=1), lambda: E(1, (1, 2, 3), (("x",),), weight=one, max_edges=1)])
    pool("g1_3", [lambda: E(1, (1, 2, 3), (("x", "y"),), weight=one, loops=False, max_edges=1 if q else 2)])
    pool("g2", [lambda: E(2, (1, 2), (("x", "y"), (0, 8)), weight=one, loops=False, max_edges=1 if q else 2)])
    pool("g2n", [lambda: E(2, (1, 2), (("x", "y"), (7, 8)), weight=one, loops=False, full=False, max_edges=1 if q else 2, isolated="none"),
                 lambda: E(2, (1, 2), (("x",), (7, 8)), weight=one, loops=False, full=False, max_edges=1, isolated="all")])
    pool("mp", [lambda: E(1, (1, 2, 3), ((1, 2),), couplings=("none",), weight=one), lambda: E(1, (1, 2, 3), ((1, 2),), couplings=("categorical",), weight=one, max_edges=1)])
    pool("mpc", [lambda: E(1, (1, 2, 3), ((1, 2),), couplings=("categorical",), weight=nets.wseq)])
    pool("mpo", [lambda: E(1, (1, 2), ((1, 2, 3),), couplings=("ordinal",), weight=one), lambda: E(1, (1, 2), ((1, 2, 3),), couplings=("categorical",), weight=one)])
    pool("mpn", [lambda: E(1, (1, 2, 3), ((1, 2),), couplings=("categorical",), weight=one, full=False, max_edges=2 if q else 4, isolated="all")])
    pool("ne", [lambda: E(1, (1, 2), (("x", "y"),), weight=lambda i: (0, 3)[i % 2], noEdge=-1, max_edges=2, loops=False), lambda: E(1, (1, 2), (("x", "y"),), weight=one, max_edges=2, loops=False)])
    return P


PARTS = 4


def shards(tier, seed):
    return [(n, p) for n in sorted(pools(tier)) for p in range(PARTS * (1 if tier == "quick" else 4))]


def allowed_sets(d):
    return [tuple(c) for k in range(d + 2) for c in itertools.combinations(range(d + 1), k)]


def used(ref, a):
    if ref.full:
        return ref.nodes if a == 0 else ref.layers[a - 1]
    return set(u[a] for u in ref.nl)


def sls(ref, a):
    return ref.nodes if a == 0 else ref.layers[a - 1]


def structure(ref):
    return frozenset(ref.node_layers()), frozenset(frozenset((u, v)) for (u, v) in ref.edges())


def canon(ref, allowed):
    """complete invariant by brute force: minimum over all relabelings of the allowed aspects"""
    nl, es = structure(ref)
    nl = sorted(nl, key=repr)
    es = [tuple(sorted(e, key=repr)) * (2 if len(e) == 1 else 1) for e in es]
    opts = []
    for a in range(ref.aspects + 1):
        xs = R.srt(sls(ref, a))
        if a in allowed:
            opts.append([dict(zip(xs, p)) for p in itertools.permutations(range(len(xs)))])
        else:
            opts.append([dict((x, repr(x)) for x in xs)])
    best = None
    for ms in itertools.product(*opts):
        f = lambda u: tuple(m[x] for m, x in zip(ms, u))
        c = (sorted(map(f, nl)), sorted(tuple(sorted((f(u), f(v)))) for u, v in es))
        if best is None or c < best:
            best = c
    return (tuple(len(sls(ref, a)) if a in allowed else None for a in range(ref.aspects + 1)), repr(best))


def unused_fixed(ref, allowed):
    return any(set(used(ref, a)) != set(sls(ref, a)) for a in range(ref.aspects + 1) if a not in allowed)


_cache = {}


def pool_data(name, tier):
    if (name, tier) not in _cache:
        _cache.clear()
        rs = pools(tier)[name]()
        d = rs[0].aspects
        cs = {}
        for al in allowed_sets(d):
            cs[al] = [canon(r, al) for r in rs]
        _cache[(name, tier)] = (rs, cs, [R.build(r) for r in rs])
    return _cache[(name, tier)]


def run_shard(shard, ctx):
    name, part = shard
    parts = PARTS * (1 if ctx.tier == "quick" else 4)
    n = len(pools(ctx.tier)[name]())
    for i in range(part, n, parts):
        ctx.run_case((name, i, ctx.tier), check, seconds=300)


def same(name, i, j, exp, rs, al):
    return exp


def verify_map(ctx, m, a, b, al, fixed, what):
    """m: list of dicts, one per aspect; must map network a onto network b"""
    d = a.aspects
    if not isinstance(m, list) or len(m) != d + 1:
        ctx.fail(what, "a list of %d dictionaries" % (d + 1), m)
        return
    full = []
    for x in range(d + 1):
        src, dst = sls(a, x), sls(b, x)
        mm = dict(m[x])
        if fixed:
            if set(mm) != set(src):
                ctx.fail(what + ": aspect %d" % x, "all elements %r" % (R.srt(src),), mm)
                return
        else:
            if any(k == v for k, v in mm.items()) or not set(mm) <= set(src):
                ctx.fail(what + ": aspect %d" % x, "only changed elements", mm)
                return
            for k in src:
                mm.setdefault(k, k)
        if x not in al and any(k != v for k, v in mm.items()):
            ctx.fail(what + ": aspect %d is not permutable" % x, "identity", mm)
            return
        if len(set(mm.values())) != len(mm) or (x in al and set(mm.values()) != set(dst)):
            ctx.fail(what + ": aspect %d" % x, "a bijection onto %r" % (R.srt(dst),), mm)
            return
        full.append(mm)
    f = lambda u: tuple(mm[k] for mm, k in zip(full, u))
    nl, es = structure(a)
    got = (frozenset(map(f, nl)), frozenset(frozenset(map(f, e)) for e in es))
    if got != structure(b):
        ctx.fail(what + ": the mapping does not give the second network", structure(b), got)


def check(case, ctx):
    import pymnet
    from pymnet import isomorphisms
    name, i, tier = case
    rs, cs, ns = pool_data(name, tier)
    a = rs[i]
    ctx.state()
    for al in allowed_sets(a.aspects):
        isall = len(al) == a.aspects + 1
        for j, b in enumerate(rs):
            if unused_fixed(a, al) or unused_fixed(b, al):
                continue
            exp = cs[al][i] == cs[al][j]
            form = list(al) if (i + j) % 2 else tuple(al)
            if isall and (i + j) % 3 == 0:
                got = isomorphisms.is_isomorphic(ns[i], ns[j], **({} if BACKEND == "nx" else {"backend": BACKEND}))
            else:
                got = isomorphisms.is_isomorphic(ns[i], ns[j], allowed_aspects=form, backend=BACKEND)
            ctx.step()
            if bool(got) != exp:
                ctx.fail("is_isomorphic(#%d,#%d,allowed_aspects=%r)" % (i, j, al), exp, "%r for %r and %r" % (got, nets.lit(a), nets.lit(b)))
                continue
            ctx.outcome((exp, al))
            if exp or (i + j) % 7 == 0:
                fixed = (i + j) % 2 == 0
                m = isomorphisms.get_isomorphism(ns[i], ns[j], allowed_aspects=form, include_fixed=fixed, backend=BACKEND)
                what = "get_isomorphism(#%d,#%d,allowed_aspects=%r,include_fixed=%r)" % (i, j, al, fixed)
                if exp:
                    ctx.count("mappings_checked")
                    verify_map(ctx, m, a, b, al, fixed, what)
                elif m is not None:
                    ctx.fail(what, None, m)
    T.unchanged(ctx, ns[i], a.snap(), "isomorphism functions")


def replay(case, ctx):
    check(case, ctx)

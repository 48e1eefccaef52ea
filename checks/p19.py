"""P19 complete invariants and automorphism groups, with an exact stand-in for the external canonical labelling package."""
from mc import pybliss_stub
pybliss_stub.install()
import itertools
from mc import nets, ref as R, tcheck as T
from checks import p18

ID = "P19"
TITLE = "complete invariants and automorphisms"
RULE = ("every network of the pools of P18 x every set of permutable aspects: complete invariants must be equal exactly for "
        "isomorphic networks (brute force), the returned automorphism generators must generate exactly the automorphism group "
        "(closure compared with brute force), decisions and mappings of the second backend checked against brute force; the external "
        "canonical labelling package is replaced by an exact brute-force stand-in")
PARTS = 8


def shards(tier, seed):
    return [(n, tuple(al)) for n in sorted(p18.pools(tier)) for al in p18.allowed_sets(dims(n))] + \
           [("auto", n, p) for n in sorted(p18.pools(tier)) for p in range(PARTS)] + [("cmp", n, p) for n in sorted(p18.pools(tier)) for p in range(PARTS)]


def dims(n):
    return 0 if n.startswith("mono") else (2 if n.startswith("g2") else 1)


def run_shard(shard, ctx):
    if shard[0] == "auto":
        n = len(p18.pools(ctx.tier)[shard[1]]())
        for i in range(shard[2], n, PARTS):
            ctx.run_case(("auto", shard[1], i, ctx.tier), check_auto)
    elif shard[0] == "cmp":
        n = len(p18.pools(ctx.tier)[shard[1]]())
        step = 1
        for i in range(shard[2], n, PARTS):
            ctx.run_case(("cmp", shard[1], i, step, ctx.tier), check_cmp, seconds=200)
    else:
        ctx.run_case(("inv",) + shard + (ctx.tier,), check_inv, seconds=400)


def check_inv(case, ctx):
    from pymnet import isomorphisms
    _, name, al, tier = case
    rs, cs, ns = p18.pool_data(name, tier)
    byinv, bycanon = {}, {}
    for i, r in enumerate(rs):
        if p18.unused_fixed(r, al):
            continue
        ctx.state()
        isall = len(al) == r.aspects + 1
        if isall and i % 2:
            inv = isomorphisms.get_complete_invariant(ns[i])
        else:
            inv = isomorphisms.get_complete_invariant(ns[i], allowed_aspects=list(al), backend="bliss")
        ctx.step()
        c = cs[al][i]
        hash(inv)
        k = byinv.setdefault(inv, (c, i))
        if k[0] != c:
            ctx.fail("get_complete_invariant(allowed_aspects=%r): same value for networks that are not isomorphic" % (al,),
                     "different values", (nets.lit(rs[k[1]]), nets.lit(r)))
        k = bycanon.setdefault(c, (inv, i))
        if k[0] != inv:
            ctx.fail("get_complete_invariant(allowed_aspects=%r): different values for isomorphic networks" % (al,),
                     "the same value", (nets.lit(rs[k[1]]), nets.lit(r), k[0], inv))
        T.unchanged(ctx, ns[i], r.snap(), "get_complete_invariant")
    ctx.count("isomorphism_classes", len(bycanon))
    ctx.outcome((name, al, len(bycanon)))


def brute_autos(ref, al):
    nl, es = p18.structure(ref)
    opts = []
    for a in range(ref.aspects + 1):
        xs = R.srt(p18.sls(ref, a))
        opts.append([dict(zip(xs, p)) for p in itertools.permutations(xs)] if a in al else [dict((x, x) for x in xs)])
    out = set()
    for ms in itertools.product(*opts):
        f = lambda u: tuple(m[x] for m, x in zip(ms, u))
        if frozenset(map(f, nl)) == nl and frozenset(frozenset(map(f, e)) for e in es) == es:
            out.add(tuple(tuple(R.srt(m.items())) for m in ms))
    return out


def closure(ref, gens):
    base = [dict((x, x) for x in p18.sls(ref, a)) for a in range(ref.aspects + 1)]
    full = []
    for g in gens:
        full.append([dict(b, **{}) if not m else dict(list(b.items()) + list(m.items())) for b, m in zip(base, g)])
    key = lambda ms: tuple(tuple(R.srt(m.items())) for m in ms)
    seen = {key(base)}
    todo = [base]
    while todo:
        p = todo.pop()
        for g in full:
            q = [dict((x, gm[y]) for x, y in pm.items()) for pm, gm in zip(p, g)]
            if key(q) not in seen:
                seen.add(key(q))
                todo.append(q)
    return seen


def check_auto(case, ctx):
    from pymnet import isomorphisms
    _, name, i, tier = case
    rs, cs, ns = p18.pool_data(name, tier)
    r = rs[i]
    for al in p18.allowed_sets(r.aspects):
        if p18.unused_fixed(r, al):
            continue
        ctx.state()
        exp = brute_autos(r, al)
        for fixed in (False, True):
            kw = dict(allowed_aspects=list(al)) if len(al) <= r.aspects or i % 2 else {}
            if fixed:
                kw["include_fixed"] = True
            gens = isomorphisms.get_automorphism_generators(ns[i], **kw)
            ctx.step()
            for g in gens:
                p18.verify_map(ctx, g, r, r, al, fixed, "get_automorphism_generators(%r)" % (kw,))
            got = closure(r, gens)
            if got != exp:
                ctx.fail("group generated by get_automorphism_generators(%r)" % (kw,), exp, got)
        ctx.outcome((al, len(exp)))
    T.unchanged(ctx, ns[i], r.snap(), "get_automorphism_generators")


def check_cmp(case, ctx):
    from pymnet import isomorphisms
    _, name, i, step, tier = case
    rs, cs, ns = p18.pool_data(name, tier)
    a = rs[i]
    ctx.state()
    for al in p18.allowed_sets(a.aspects):
        for j in range(i % step, len(rs), step):
            b = rs[j]
            if p18.unused_fixed(a, al) or p18.unused_fixed(b, al):
                continue
            exp = cs[al][i] == cs[al][j]
            got = isomorphisms.is_isomorphic(ns[i], ns[j], allowed_aspects=list(al), backend="bliss")
            ctx.step()
            if bool(got) != exp:
                ctx.fail("is_isomorphic(allowed_aspects=%r, bliss)" % (al,), exp, (got, nets.lit(a), nets.lit(b)))
            elif exp:
                for fixed in (False, True):
                    m = isomorphisms.get_isomorphism(ns[i], ns[j], allowed_aspects=list(al), include_fixed=fixed, backend="bliss")
                    p18.verify_map(ctx, m, a, b, al, fixed, "get_isomorphism(allowed_aspects=%r,include_fixed=%r,bliss)" % (al, fixed))


def replay(case, ctx):
    {"inv": check_inv, "auto": check_auto, "cmp": check_cmp}[case[0]](case, ctx)

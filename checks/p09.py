"""P09 relabelling and normalisation are label bijections that preserve everything else."""
import itertools
import pymnet
from pymnet import transforms
from mc import nets, families, ref as R, tcheck as T
from mc.ref import Ref

ID = "P09"
TITLE = "relabelling and normalisation"
RULE = ("every network of the enumerated families x every injective relabelling from a menu (identity, partial, swaps, "
        "rotations, fresh names) per node set and per aspect; normalisation with every return-map option and offset")


def shards(tier, seed):
    return families.shards(tier, 2)


def cases(shard, tier):
    for ref in families.nets_of(shard, tier):
        yield nets.lit(ref)


def maps(xs):
    """injective renamings (dict possibly partial) of the elements xs"""
    xs = R.srt(xs)
    out = [{}]
    if xs:
        out.append(dict((x, ("N%s" % i)) for i, x in enumerate(xs)))
        out.append({xs[0]: "fresh"})
        out.append(dict((x, 10 - i) for i, x in enumerate(xs)))
        out.append({"not there": 5})
    if len(xs) > 1:
        out.append(dict(zip(xs, xs[1:] + xs[:1])))       # rotation: old and new names overlap
        out.append({xs[0]: xs[1], xs[1]: xs[0]})
    return out


def renamed(ref, nmap, lmaps):
    r = Ref(ref.aspects, ref.directed, ref.noEdge, ref.full, ref.couplings)
    f = lambda u: (nmap.get(u[0], u[0]),) + tuple(m.get(x, x) for m, x in zip(lmaps, u[1:]))
    r.nodes = set(nmap.get(n, n) for n in ref.nodes)
    r.layers = [set(m.get(x, x) for x in l) for m, l in zip(lmaps, ref.layers)]
    r.nl = set(f(u) for u in ref.nl)
    r.E = dict(((f(u), f(v)), w) for (u, v), w in ref.E.items())
    return r


def integral(ref, a):
    """aspect a's coupling depends on the layer names"""
    c = ref.couplings[a] if ref.couplings else None
    return c is not None and (c == "ordinal" or isinstance(c, tuple) and c[0] in ("ordinal", "network"))


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    d = ref.aspects
    lopts = []
    for a in range(d):
        ms = maps(ref.layers[a])
        if integral(ref, a):
            c = ref.couplings[a]
            ms = [{}] + ([dict((x, x + 3) for x in ref.layers[a])] if c == "ordinal" or c[0] == "ordinal" else [])
        lopts.append(ms)
    combos = [(nm, [{}] * d) for nm in maps(ref.nodes)]
    for lm in itertools.product(*lopts):
        for nm in ({}, maps(ref.nodes)[-1]):
            combos.append((nm, [dict(m) for m in lm]))
    got = None
    for nm, lm in combos:
        exp = renamed(ref, nm, lm)
        calls = [dict(nodeNames=dict(nm), layerNames=[dict(m) for m in lm])]
        if d == 1:
            calls.append(dict(nodeNames=dict(nm), layerNames=dict(lm[0])))
        if all(not m for m in lm):
            calls.append(dict(nodeNames=dict(nm)))
            calls.append(dict(nodeNames=dict(nm), layerNames=[]))
        if not nm:
            calls.append(dict(layerNames=[dict(m) for m in lm]))
        if d == 2 and not lm[1]:
            calls.append(dict(nodeNames=dict(nm), layerNames=[dict(lm[0])]))
        for kw in calls:
            saved = repr(kw)
            got = transforms.relabel(net, **kw)
            ctx.step()
            T.compare(ctx, got, exp, "relabel(%s)" % saved, None, T.kind_of(ref))
            if repr(kw) != saved:
                ctx.fail("relabel modified its arguments", saved, repr(kw))
    T.unchanged(ctx, net, before, "relabel")
    T.independent(ctx, net, got, before, "relabel")
    net = R.build(ref)
    # normalize
    try:
        sn = sorted(ref.nodes)
        sl = [sorted(l) for l in ref.layers]
    except TypeError:
        return
    if any(integral(ref, a) and ref.couplings[a][0] == "network" for a in range(d)):
        return
    first = True
    for ns, ls in ((0, 0), (1, 0), (0, 1), (5, -1)):
        nm = dict((x, i + ns) for i, x in enumerate(sn))
        lm = [dict((x, i + ls) for i, x in enumerate(l)) for l in sl]
        exp = renamed(ref, nm, lm)
        inv = lambda m: dict((v, k) for k, v in m.items())
        opts = itertools.product((None, True, False), (None, True, False)) if first else [(True, False)]
        first = False
        for a, b in opts:
            kw = {}
            if a is not None:
                kw["nodesToIndices"] = a
            if b is not None:
                kw["layersToIndices"] = b
            if ns:
                kw["nodeStart"] = ns
            if ls:
                kw["layerStart"] = ls
            res = transforms.normalize(net, **kw)
            ctx.step()
            want = []
            if a is not None:
                want.append(nm if a else inv(nm))
            if b is not None:
                w = lm if b else [inv(m) for m in lm]
                want.append(w[0] if d == 1 else w)
            if want:
                if not isinstance(res, tuple) or len(res) != 1 + len(want):
                    ctx.fail("normalize(%s): returned values" % kw, 1 + len(want), res)
                    continue
                if list(res[1:]) != want:
                    ctx.fail("normalize(%s): maps" % kw, want, res[1:])
                res = res[0]
            T.compare(ctx, res, exp, "normalize(%s)" % kw, None, T.kind_of(ref))
            ctx.outcome(exp.snap()[-1])
    T.unchanged(ctx, net, before, "normalize")
    T.independent(ctx, net, res, before, "normalize")

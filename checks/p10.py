"""P10 thresholding keeps exactly the edges that satisfy the rule and the whole node/layer structure."""
import pymnet
from pymnet import transforms
from mc import nets, families, ref as R, tcheck as T
from mc.ref import Ref

ID = "P10"
TITLE = "thresholding"
RULE = ("every network of the enumerated families x every rule x every threshold below, at, between and above the weights present")


def shards(tier, seed):
    return families.shards(tier, 2)


def cases(shard, tier):
    for ref in families.nets_of(shard, tier):
        yield nets.lit(ref)


RULES = {">=": lambda w, t: w >= t, ">": lambda w, t: w > t, "<=": lambda w, t: w <= t, "<": lambda w, t: w < t}


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    ws = sorted(set(ref.edges().values()))
    ts = sorted(set(ws + [(a + b) / 2.0 for a, b in zip(ws, ws[1:])] + [-7, 10 ** 7]))
    if len(ts) > 6:
        ts = ts[:3] + ts[len(ts) // 2:len(ts) // 2 + 1] + ts[-2:]
    nocoup = ref.couplings is not None and all(c in ("none", None) for c in ref.couplings)
    src = ref if nocoup or ref.couplings is None else T.explicit(ref)
    for rule, ok in RULES.items():
        for t in ts:
            exp = src.copy()
            exp.E = dict((k, w) for k, w in src.E.items() if ok(w, t))
            got = transforms.threshold(net, t, method=rule)
            ctx.step()
            T.compare(ctx, got, exp, "threshold(net,%r,%r)" % (t, rule), None, T.kind_of(src))
            ctx.outcome(exp.snap()[-1])
            if rule == ">=":
                T.compare(ctx, transforms.threshold(net, t), exp, "threshold(net,%r)" % t, None, T.kind_of(src))
                ctx.step()
    T.unchanged(ctx, net, before, "threshold")
    T.independent(ctx, net, got, before, "threshold")
    try:
        transforms.threshold(net, 1, method="=>")
    except Exception:
        pass
    else:
        if ws:
            ctx.fail("an unknown rule was accepted")

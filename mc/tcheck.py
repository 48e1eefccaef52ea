"""Helpers for checks of functions network -> network."""
import itertools
import pymnet
from mc import ref as R, nets
from mc.ref import Ref


def subsets(xs):
    xs = list(xs)
    for k in range(len(xs) + 1):
        for c in itertools.combinations(xs, k):
            yield c


def compare(ctx, got_net, exp, what, node_slack=None, kind=None):
    """got_net: real network; exp: Ref. node_slack: nodes that may or may not be present."""
    if kind is not None and type(got_net) is not kind:
        ctx.fail(what + ": type of the result", kind.__name__, type(got_net).__name__)
        return
    got = R.snapshot(got_net)
    e = exp.snap()
    if node_slack:
        extra = got[4] - e[4]
        if extra <= frozenset(node_slack):
            got = got[:4] + (e[4],) + got[5:]
    d = R.diff(got, e)
    if d:
        ctx.fail(what, "reference network", d)
    ctx.count("networks_compared")


def unchanged(ctx, net, before, what):
    d = R.diff(R.snapshot(net), before)
    if d:
        ctx.fail(what + " modified its input", None, d)


def independent(ctx, net, result, before, what):
    """editing the result must not show in the input"""
    try:
        if result is net:
            ctx.fail(what + " returned its input object", "a new network", "same object")
            return
        nodes = R.srt(result)
        d = result.aspects
        if nodes and all(len(result.get_layers(a + 1)) for a in range(d)):
            lay = tuple(R.srt(result.get_layers(a + 1))[0] for a in range(d))
            n2 = "new-node"
            result[(nodes[0], n2) + lay] = 999983
            for other in nodes[1:]:
                result[(nodes[0], other) + lay] = 999979
        else:
            result.add_node("new-node")
        for a in range(d):
            result.add_layer(31337, a + 1)
    except Exception as e:
        ctx.fail("editing the result of %s raised %s: %s" % (what, type(e).__name__, e))
        return
    d = R.diff(R.snapshot(net), before)
    if d:
        ctx.fail("editing the result of %s changed the input" % what, None, d)


def kind_of(ref):
    return pymnet.MultilayerNetwork if ref.couplings is None else pymnet.MultiplexNetwork


def explicit(ref):
    """the general network with all coupling edges written out"""
    r = Ref(ref.aspects, ref.directed, ref.noEdge, ref.full, None)
    r.nodes = set(ref.nodes)
    r.layers = [set(l) for l in ref.layers]
    r.nl = set(ref.nl)
    r.E = ref.edges()
    return r


def induced(ref, ns, ls, nolinks=False):
    r = Ref(ref.aspects, ref.directed, ref.noEdge, ref.full, ref.couplings)
    r.layers = [set(l) & set(k) for l, k in zip(ref.layers, ls)]
    if ref.full:
        r.nodes = ref.nodes & set(ns)
    ok = lambda u: u[0] in ns and all(x in l for x, l in zip(u[1:], ls))
    if not ref.full:
        r.nl = set(u for u in ref.nl if ok(u))
        r.nodes = set(u[0] for u in r.nl)
    if not nolinks:
        r.E = dict((k, w) for k, w in ref.E.items() if ok(k[0]) and ok(k[1]))
    return r

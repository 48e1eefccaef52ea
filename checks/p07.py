"""P07 subnet returns exactly the induced subnetwork."""
import itertools
import pymnet
from pymnet import transforms
from mc import nets, families, ref as R, tcheck as T

ID = "P07"
TITLE = "induced subnetworks"
RULE = ("every network of the enumerated families x every subset of nodes x every subset of elementary layers of every "
        "aspect x target kinds (default, given general network, given multiplex, non-interconnected target, no links)")


def shards(tier, seed):
    return families.shards(tier, 4)


def cases(shard, tier):
    for ref in families_nets(shard, tier):
        l = nets.lit(ref)
        subsets = some if shard[0].startswith("zy_") else T.subsets
        for ns in subsets(R.srt(ref.nodes)):
            for ls in itertools.product(*[list(subsets(R.srt(x))) for x in ref.layers]):
                yield (l, ns, ls)


def some(xs):
    """of larger sets: everything, nothing, halves, all but one"""
    return [(), tuple(xs[:1]), tuple(xs[::2]), tuple(xs[1:]), tuple(xs[:-1]), tuple(xs)]


def families_nets(shard, tier):
    return families.nets_of(shard, tier)


_last = [None, None, None, None]


def check(case, ctx):
    l, ns, ls = case
    if _last[0] != l:
        ref = nets.unlit(l)
        _last[:] = [l, ref, R.build(ref), ref.snap()]
        ctx.state()
        ctx.outcome(l[-1])
    _, ref, net, before = _last
    slack = set(ns) & ref.nodes if not ref.full else None
    exp = T.induced(ref, ns, ls)
    got = transforms.subnet(net, list(ns), *[list(x) for x in ls])
    ctx.step()
    T.compare(ctx, got, exp, "subnet", slack, T.kind_of(ref))
    T.unchanged(ctx, net, before, "subnet")
    whole = len(ns) == len(ref.nodes) and all(len(x) == len(y) for x, y in zip(ls, ref.layers))
    if whole:
        got = transforms.subnet(net, None, *[None for _ in ls])
        T.compare(ctx, got, exp, "subnet with None (everything)", slack, T.kind_of(ref))
        T.independent(ctx, net, got, before, "subnet")
        if ref.couplings is None:
            got = transforms.subnet(net, list(ns) + ["no such node"], *[list(x) + ["no such layer"] for x in ls])
            T.compare(ctx, got, exp, "subnet with names that are not in the network", slack, T.kind_of(ref))
        ctx.step(2)
    else:
        T.independent(ctx, net, got, before, "subnet")
    got = transforms.subnet(net, set(ns), *[tuple(x) for x in ls], nolinks=True)
    T.compare(ctx, got, T.induced(ref, ns, ls, nolinks=True), "subnet with nolinks", slack, T.kind_of(ref))
    # given target: a general network
    tgt = pymnet.MultilayerNetwork(aspects=ref.aspects, noEdge=ref.noEdge, directed=ref.directed, fullyInterconnected=ref.full)
    got = transforms.subnet(net, list(ns), *[list(x) for x in ls], newNet=tgt)
    if got is not tgt:
        ctx.fail("subnet did not return the given network")
    T.compare(ctx, got, T.explicit(exp), "subnet into a given general network", slack, pymnet.MultilayerNetwork)
    ctx.step(2)
    # given target: another direction, and another 'no edge' value
    e2 = T.explicit(exp)
    other = T.explicit(exp)
    other.directed = not ref.directed
    for (u, v), w in list(other.E.items()):
        if other.E.setdefault((v, u), w) != w and ref.directed:
            other = None        # which of the two weights is kept is not specified
            break
    ne = -77
    e2.noEdge = ne
    for tref in (e2, other):
        if tref is not None:
            tgt = pymnet.MultilayerNetwork(aspects=ref.aspects, noEdge=tref.noEdge, directed=tref.directed, fullyInterconnected=ref.full)
            got = transforms.subnet(net, list(ns), *[list(x) for x in ls], newNet=tgt)
            T.compare(ctx, got, tref, "subnet into a given network with %s" % ("another 'no edge' value" if tref is e2 else "another direction"), slack, pymnet.MultilayerNetwork)
            ctx.step()
    if ref.full and ref.aspects > 0:
        if ref.couplings is None:
            tgt = pymnet.MultilayerNetwork(aspects=ref.aspects, noEdge=ref.noEdge, directed=ref.directed, fullyInterconnected=False)
        else:
            tgt = pymnet.MultiplexNetwork(couplings=R.real_couplings(ref.couplings), noEdge=ref.noEdge, directed=ref.directed, fullyInterconnected=False)
        got = transforms.subnet(net, list(ns), *[list(x) for x in ls], newNet=tgt)
        e2 = exp.copy()
        e2.full = False
        e2.nl = set(itertools.product(exp.nodes, *exp.layers))
        T.compare(ctx, got, e2, "subnet into a given network that is not fully interconnected", None, T.kind_of(ref))
        ctx.step()
    if not ref.full and ref.aspects > 0:
        tgt = pymnet.MultilayerNetwork(aspects=ref.aspects, noEdge=ref.noEdge, directed=ref.directed)
        try:
            transforms.subnet(net, list(ns), *[list(x) for x in ls], newNet=tgt)
        except TypeError:
            pass
        else:
            ctx.fail("a network that is not fully interconnected was copied to a fully interconnected one")
    T.unchanged(ctx, net, before, "subnet")

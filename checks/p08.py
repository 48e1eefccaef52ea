"""P08 aggregation sums the weights of all edges that project to the same pair."""
import itertools
import pymnet
from pymnet import transforms
from mc import nets, families, ref as R, tcheck as T
from mc.ref import Ref

ID = "P08"
TITLE = "aggregation"
RULE = ("every network of the enumerated families (weights with unique subset sums) x every non-empty set of aspects in every "
        "order and spelling x self-edge option x given target; overlay networks of all one-aspect networks")


def shards(tier, seed):
    return families.shards(tier, 2, skip=("mono", "zz_mono", "zy_mono", "zz_neg", "zz_big"))


def cases(shard, tier):
    for ref in families.nets_of(shard, tier):
        yield nets.lit(ref)


def aggregated(ref, aspects, selfedges, noEdge="same"):
    keep = [a for a in range(1, ref.aspects + 1) if a not in aspects]
    r = Ref(len(keep), ref.directed, ref.noEdge if noEdge == "same" else noEdge, ref.full)
    r.nodes = set(ref.nodes)
    r.layers = [set(ref.layers[a - 1]) for a in keep]
    proj = lambda u: (u[0],) + tuple(u[a] for a in keep)
    if not r.full:
        r.nl = set(proj(u) for u in ref.nl)
    sums = {}
    for u, v, w in ref.undirected_edge_list():
        p, q = proj(u), proj(v)
        if p == q and not selfedges:
            continue
        k = (p, q) if ref.directed or repr(p) <= repr(q) else (q, p)
        sums[k] = sums.get(k, 0) + w
    for (p, q), w in sums.items():
        r.set(p, q, w)
    return r


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    for k in range(1, ref.aspects + 1):
        for asp in itertools.permutations(range(1, ref.aspects + 1), k):
            spellings = [asp, list(asp)] + ([asp[0]] if k == 1 else [])
            for sp in spellings:
                for se in (False, True):
                    exp = aggregated(ref, asp, se)
                    kw = dict(selfEdges=se) if se else {}
                    got = transforms.aggregate(net, sp, **kw)
                    ctx.step()
                    T.compare(ctx, got, exp, "aggregate(net,%r,%r)" % (sp, kw), None, pymnet.MultilayerNetwork)
                    ctx.outcome(exp.snap()[-1])
            for ne in (ref.noEdge, None, -1000):
                tgt = pymnet.MultilayerNetwork(aspects=ref.aspects - k, noEdge=ne, directed=ref.directed, fullyInterconnected=ref.full)
                got = transforms.aggregate(net, asp, newNet=tgt)
                if got is not tgt:
                    ctx.fail("aggregate did not return the given network")
                T.compare(ctx, got, aggregated(ref, asp, False, ne), "aggregate into a given network with noEdge=%r" % (ne,))
            ctx.step()
    T.unchanged(ctx, net, before, "aggregate")
    T.independent(ctx, net, got, before, "aggregate")
    if ref.aspects == 1:
        net = R.build(ref)
        got = transforms.overlay_network(net)
        exp = Ref(0)
        exp.nodes = set(ref.nodes)
        sums = {}
        for u, v, w in ref.undirected_edge_list():
            if u[1] == v[1] and (ref.directed or u[0] != v[0]):
                k = tuple(R.srt((u[0], v[0])))
                sums[k] = sums.get(k, 0) + w
        for (a, b), w in sums.items():
            exp.set((a,), (b,), w)
        T.compare(ctx, got, exp, "overlay_network", None, pymnet.MultilayerNetwork)
        T.unchanged(ctx, net, before, "overlay_network")
        ctx.step()

"""P12 flattening and layer-wise randomisation preserve the structure they promise to preserve."""
import itertools
import pymnet
from pymnet import transforms
from mc import nets, families, ref as R, tcheck as T, choice
from mc.ref import Ref

ID = "P12"
TITLE = "underlying graph and layer-wise shuffling"
RULE = ("every network of the enumerated families: underlying graph compared node-layer by node-layer; every multiplex network "
        "of one aspect: every answer of the random source enumerated, each result must be a per-layer renaming and together "
        "they must be all of them")


def shards(tier, seed):
    return [("u",) + s for s in families.shards(tier, 1)] + [("r",) + s for s in families.shards(tier, 2, only=("mpx", "zz_mpx_"))]


def cases(shard, tier):
    for ref in families.nets_of(shard[1:], tier):
        if shard[0] == "r" and (len(ref.nl) > 5 or not ref.layers[0]):
            continue
        yield (shard[0], nets.lit(ref))


def check(case, ctx):
    kind, l = case
    ref = nets.unlit(l)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    if kind == "u":
        got = transforms.get_underlying_graph(net)
        ctx.step()
        exp = Ref(0, ref.directed, ref.noEdge)
        exp.nodes = set(str(u) for u in ref.node_layers())
        exp.E = dict((((str(u),), (str(v),)), w) for (u, v), w in ref.edges().items())
        T.compare(ctx, got, exp, "get_underlying_graph", None, pymnet.MultilayerNetwork)
        T.unchanged(ctx, net, before, "get_underlying_graph")
        T.independent(ctx, net, got, before, "get_underlying_graph")
        ctx.outcome(exp.snap()[-1])
        return
    # the set of all per-layer permutations applied to the edges
    opts = []
    layers = R.srt(ref.layers[0])
    for lay in layers:
        ns = R.srt(ref.nodes if ref.full else [u[0] for u in ref.nl if u[1] == lay])
        imgs = set()
        for p in itertools.permutations(ns):
            m = dict(zip(ns, p))
            imgs.add(frozenset(((m[u[0]], lay), (m[v[0]], lay), w) for (u, v), w in ref.E.items() if u[1] == lay))
        opts.append(imgs)
    allowed = set(frozenset().union(*c) for c in itertools.product(*opts))
    seen = set()

    def run():
        return transforms.randomize_nodes_by_layer(net)
    for choices, got in choice.explore(run, limit=40):
        ctx.step()
        E = frozenset((u, v, w) for ((u, v), w) in R.snapshot(got)[-1] if u[1] == v[1])
        if E not in allowed:
            ctx.fail("randomize_nodes_by_layer: a layer is not a renaming of the original (random choices %r)" % choices, None, R.srt(E))
            return
        exp = ref.copy()
        exp.E = dict(((u, v), w) for u, v, w in E)
        if ref.full:
            T.compare(ctx, got, exp, "randomize_nodes_by_layer (choices %r)" % choices, None, pymnet.MultiplexNetwork)
        else:
            T.compare(ctx, got, exp, "randomize_nodes_by_layer (choices %r)" % choices,
                      ref.nodes - set(u[0] for u in ref.nl), pymnet.MultiplexNetwork)
        seen.add(E)
    if seen != allowed:
        ctx.fail("randomize_nodes_by_layer cannot produce every renaming", len(allowed), len(seen))
    ctx.outcome(len(seen))
    T.unchanged(ctx, net, before, "randomize_nodes_by_layer")

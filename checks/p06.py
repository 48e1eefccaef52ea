"""P06 the supra-adjacency matrix is the tensor."""
import numpy
import pymnet
from mc import nets, families, ref as R, tcheck as T

ID = "P06"
TITLE = "supra-adjacency matrix"
RULE = "every network of the enumerated families with noEdge 0, with and without couplings, every matrix entry"


def shards(tier, seed):
    return families.shards(tier, 2, skip=("mono_ne", "gen1_ne", "gen1_nn", "zz_none", "zz_mpx_none_ne", "zz_mpx_cat_ne"))


def cases(shard, tier):
    for ref in families.nets_of(shard, tier):
        yield nets.lit(ref)


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    E = ref.edges()
    calls = [("net.get_supra_adjacency_matrix()", lambda: net.get_supra_adjacency_matrix(), True),
             ("net.get_supra_adjacency_matrix(includeCouplings=False)", lambda: net.get_supra_adjacency_matrix(includeCouplings=False), False),
             ("supra_adjacency_matrix(net)", lambda: pymnet.supra_adjacency_matrix(net), True),
             ("supra_adjacency_matrix(net,False)", lambda: pymnet.supra_adjacency_matrix(net, includeCouplings=False), False)]
    for what, f, inc in calls:
        m, nodes = f()
        ctx.step()
        nodes = list(nodes)
        tup = [(n,) for n in nodes] if ref.aspects == 0 else [tuple(n) for n in nodes]
        if len(tup) != len(set(tup)):
            ctx.fail(what + ": repeated node-layers", None, nodes)
        if not (ref.node_layers() <= set(tup) <= ref.all_nl()):
            ctx.fail(what + ": node-layer list", R.srt(ref.node_layers()), nodes)
        if tuple(m.shape) != (len(tup), len(tup)):
            ctx.fail(what + ": shape", (len(tup), len(tup)), m.shape)
            continue
        for i, u in enumerate(tup):
            for j, v in enumerate(tup):
                exp = E.get((u, v), 0)
                if not inc and u[1:] != v[1:]:
                    exp = 0
                if m[i, j] != exp:
                    ctx.fail("%s entry %r,%r" % (what, u, v), exp, m[i, j])
        ctx.outcome(numpy.asarray(m).tolist())
    T.unchanged(ctx, net, before, "supra-adjacency matrix")

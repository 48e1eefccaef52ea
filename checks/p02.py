"""P02 degrees, strengths, neighbours and edge listing are consistent with the stored tensor."""
from mc import hist, obs
from checks import p01

ID = "P02"
TITLE = "degrees and neighbours"
RULE = p01.RULE + "; in every state every degree/strength/neighbour query with every slice pattern is compared"


def observe(net, ref, ctx):
    numeric = all(isinstance(w, (int, float)) for w in ref.E.values())
    obs.observe_edges(net, ref, ctx, patterns="all", strengths=numeric)


def shards(tier, seed):
    return p01.shards(tier, seed)


def run_shard(shard, ctx):
    p01.run_shard(shard, ctx, observe)


def replay(case, ctx):
    hist.replay(case, ctx, observe)

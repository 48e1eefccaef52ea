"""P01 storage: after any history of edits the network is exactly the tensor of the last writes."""
from mc import families, hist, obs, nets, ref as R
from mc.ref import Ref

ID = "P01"
TITLE = "storage"
RULE = ("breadth-first over all histories of edge assignments/removals in every notation and node/layer additions, "
        "over small label universes, up to the stated depth or to the fixpoint, and long histories that build larger structured networks; states deduplicated by a structural "
        "fingerprint of the live network object, transitions executed on the real object")


def observe(net, ref, ctx):
    miss = [("zz",) + tuple("?" for _ in range(ref.aspects))] if ref.couplings is None else []
    obs.observe_storage(net, ref, ctx, missing=miss)
    refused(net, ref, ctx)


def refused(net, ref, ctx):
    """a wrong number of indices is refused for reading and for assigning, and changes nothing"""
    d = ref.aspects + 1
    for n in range(1, 2 * d + 2):
        item = ("new",) * n
        for read in (True, False):
            if n in (d + 1, 2 * d) or n == d and read:
                continue
            try:
                if read:
                    net[item]
                else:
                    net[item] = 7
            except Exception:
                continue
            ctx.fail("%s net[%r] with %d indices was accepted" % ("reading" if read else "assigning", item, n), "an exception", "accepted")
    if set(net) != set(ref.nodes) or any(set(net.get_layers(a + 1)) != set(ref.layers[a]) for a in range(ref.aspects)):
        ctx.fail("refused accesses changed the network", R.srt(ref.nodes), R.srt(net))


CONFIGS = {
    # name: (aspects, directed, full, noEdge, nodes, layers, weights, notations, grow, depth_quick, depth_thorough, split)
    "m3u": (0, False, True, 0, (1, 2, 3), (), (1, -2), ("set", "setn"), True, 13, 16, False),
    "m3d": (0, True, True, 0, (1, 2, 3), (), (1,), ("set", "setn"), False, 13, 16, False),
    "m3dw": (0, True, True, 0, (1, 2, 3), (), (1, -2.5), ("set",), False, 4, 12, False),
    "m2ne": (0, False, True, -1, ("x", 2), (), (0, -3), ("set", "setn"), True, 13, 16, False),
    "m2dne": (0, True, True, None, ("x", 2), (), (0, 1), ("set", "setn"), True, 13, 16, False),
    "a1u": (1, False, True, 0, (1, 2), ((1, 2),), (1,), ("set", "sets", "setn"), True, 4, 12, False),
    "a1uw": (1, False, True, 0, (1, 2), (("a", "b"),), (1, -3), ("set",), False, 3, 5, False),
    "a1d": (1, True, True, 0, (1, 2), ((1, 2),), (1,), ("set", "sets", "setn"), True, 3, 5, False),
    "a1dw": (1, True, True, 0, (1, 2), (("a", "b"),), (-1, 2), ("set",), False, 3, 4, False),
    "a1un": (1, False, False, 0, (1, 2), ((1, 2),), (1,), ("set", "sets", "setn"), True, 4, 6, False),
    "a1dn": (1, True, False, 0, (1, 2), ((1, 2),), (1,), ("set", "sets", "setn"), True, 3, 5, False),
    "a1n3": (1, False, False, -1, (1, 2, 3), (("a", "b"),), (0,), ("set",), True, 2, 3, False),
    "a1d3": (1, True, True, 0, (1, 2, 3), (("a", "b"),), (5,), ("set",), False, 2, 3, False),
    "a2u": (2, False, True, 0, (0, 1), ((0, 1), (0, 1)), (1,), ("set", "sets"), True, 2, 3, True),
    "a2d": (2, True, True, 0, (0, 1), (("a", "b"), ("x", "y")), (1,), ("set", "sets"), False, 2, 2, True),
    "a2un": (2, False, False, 0, (0, 1), (("a", "b"), ("x", "y")), (1,), ("set", "setn"), True, 2, 2, True),
    "a2dn": (2, True, False, -1, (0, 1), ((0, 1), (0, 1)), (0,), ("set", "sets"), True, 2, 2, True),
    "a3u": (3, False, True, 0, (0, 1), (("a",), ("x", "y"), ("p", "q")), (1,), ("set",), False, 1, 2, True),
    "a3n": (3, True, False, 0, (0, 1), (("a", "b"), ("x", "y"), ("p",)), (1,), ("set",), True, 1, 2, True),
}


def setup(name):
    (asp, di, full, ne, nodes, layers, weights, nots, grow, dq, dt, split) = CONFIGS[name]
    cfg = dict(aspects=asp, directed=di, full=full, noEdge=ne)
    ops = hist.edge_ops(nodes, layers, di, weights, ne, nots)
    if grow:
        ops = hist.grow_ops(nodes, layers, full, asp) + ops
    return cfg, ops, (dq, dt), split


def shards(tier, seed):
    out = []
    for name in CONFIGS:
        cfg, ops, _, split = setup(name)
        if split:
            out += [(name, i) for i in range(len(ops))]
        else:
            out.append((name, None))
    out += [("large",) + x for x in families.shards(tier, 3, only=("zy_mono", "zy_gen"))]
    # heavy ones first
    heavy = {"m3d": 0, "a1u": 1, "a1dw": 1, "m3dw": 1, "a1d": 2, "a1dn": 2, "a1un": 2, "a1uw": 2}
    out.sort(key=lambda s: heavy.get(s[0], 9))
    return out


def run_shard(shard, ctx, observe=observe):
    if shard[0] == "large":
        return hist.run_large(families.nets_of(shard[1:], ctx.tier), ctx, observe)
    name, i = shard
    cfg, ops, (dq, dt), split = setup(name)
    depth = dq if ctx.tier == "quick" else dt
    prefix = []
    if i is not None:
        if not hist.enabled(Ref(**cfg), ops[i]):
            return
        prefix = [ops[i]]
    hist.explore(cfg, ops, depth, observe, ctx, prefix)


def replay(case, ctx):
    hist.replay(case, ctx, observe)

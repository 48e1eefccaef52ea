"""P03 a multiplex network is indistinguishable from the general network whose coupling edges
are written out explicitly."""
import itertools
from mc import families, hist, obs, ref as R
from mc.ref import Ref, link

ID = "P03"
TITLE = "multiplex couplings"
RULE = ("breadth-first over all histories of intra-layer edge edits (through the network and through its layers), node and "
        "layer additions (and long histories that build larger structured networks) for every coupling policy x direction x interconnection; every state compared with the "
        "explicitly coupled reference for all reads, slices, degrees, strengths, neighbours, edge lists, and for "
        "rejection of every non-intra-layer assignment")


def observe(net, ref, ctx):
    obs.observe_storage(net, ref, ctx)
    obs.observe_edges(net, ref, ctx, patterns="all", strengths=True)
    # coupling edges, self edges and edges differing in several aspects cannot be assigned
    nls = R.srt(ref.node_layers())
    for u in nls:
        for v in nls:
            if u[1:] != v[1:] or u == v:
                ctx.count("rejections")
                try:
                    net[link(u, v)] = 7
                except Exception:
                    pass
                else:
                    ctx.fail("assignment of the inter-layer/self edge %r was accepted" % (link(u, v),), "an exception", "accepted")
    refused(net, ref, ctx)
    d = R.diff(R.snapshot(net), ref.snap())
    if d:
        ctx.fail("rejected assignments changed the network", None, d)


def refused(net, ref, ctx):
    """assignments with new names in any of the places, and with a wrong number of indices, are refused too"""
    new = "new"
    d = ref.aspects + 1
    known = [R.srt(s)[:1] + R.srt(s)[1:][-1:] for s in [ref.nodes] + list(ref.layers)]
    items = [(new,) * n for n in range(d) if n] + [(new,) * (2 * d + 1)]
    if d > 1:
        items.append((new,) * d)
    if d > 2:
        items += [(new,) * n for n in range(d + 2, 2 * d)]
    for a in range(1, d):
        items.append((new, new) + tuple(x for b in range(1, d) for x in ((0, new) if a == b else (new, new))))
        if all(known):
            one = [k[0] for k in known]
            base = [x for v in one for x in (v, v)]
            items.append(tuple(base[:2 * a + 1] + [new] + base[2 * a + 2:]))  # same node, one new layer
            items.append(tuple(base[:1] + [new] + base[2:2 * a + 1] + [new] + base[2 * a + 2:]))  # two names differ, both new
            items.append((new, new) + tuple(base[2:]))  # self-edge of a new node
            for v in known[a][1:]:
                items.append((new, new) + tuple(base[2:2 * a + 1] + [v] + base[2 * a + 2:]))  # coupling edge of a new node
                items.append((one[0], new) + tuple(base[2:2 * a + 1] + [v] + base[2 * a + 2:]))
    items.append((new, new) + tuple(0 for a in range(1, d)))  # self-edge in the short notation
    for item in items:
        ctx.count("rejections")
        try:
            net[item] = 7
        except Exception:
            continue
        ctx.fail("assignment net[%r] was accepted" % (item,), "an exception", "accepted")


L2 = ((0, 1),)
ORD3 = ((1, 2, 4),)
NETU = ("network", False, ((0, 1, 2.0),))
NETD = ("network", True, ((0, 1, 2.0), (1, 0, 5.0)))
NETD1 = ("network", True, ((0, 1, 3.0),))
NET3 = ("network", False, ((1, 2, 2.0), (2, 4, 1.0)))
SINGLE = ["categorical", ("categorical", 2.5), "ordinal", ("ordinal", 3), "none", None, ("none",), NETU, ("categorical",), ("ordinal",)]
CONFIGS = []
for c in SINGLE:
    for directed in (False, True):
        for full in (True, False):
            # nodes (1,2), layers 0,1 ; history depth quick/thorough
            CONFIGS.append(((c,), directed, full, 0, (1, 2), L2, (1, 3), True, 3, 5))
for c in (NETD, NETD1):
    for full in (True, False):
        CONFIGS.append(((c,), True, full, 0, (1, 2), L2, (1,), True, 3, 4))
for c in ("ordinal", ("ordinal", 2), ("categorical", 2), NET3):
    for full in (True, False):
        CONFIGS.append(((c,), False, full, 0, ("a",), ORD3, (1,), True, 4, 7))
        CONFIGS.append(((c,), True, full, 0, ("a", "b"), ORD3, (1,), True, 2, 3))
# a coupling network whose noEdge value is not the one of the network, and layers without a coupling
for c, ne in ((("network", False, ((1, 2, 2.0),), -1), 0), (("network", True, ((1, 2, 2.0),), None), 0), (("network", False, ((1, 2, 2.0),)), -1), (("network", False, ((1, 2, 0), (2, 4, 3)), -1), None)):
    for full in (True, False):
        CONFIGS.append(((c,), c[1], full, ne, ("a",), ORD3, (1,), True, 4, 6))
        CONFIGS.append(((c,), True, full, ne, ("a", "b"), ORD3, (1,), True, 2, 3))
        CONFIGS.append(((c, "categorical"), c[1], full, ne, ("a",), ((1, 2, 4), (0, 1)), (1,), False, 1, 2))
for ne in (-1, None):
    CONFIGS.append((("categorical",), False, True, ne, (1, 2, 3), L2, (0, 1), False, 3, 4))
    CONFIGS.append((("none",), True, False, ne, (1, 2), L2, (0, 1), True, 3, 4))
TWO = [("categorical", "categorical"), ("categorical", "ordinal"), ("ordinal", ("ordinal", 2)), ("none", ("categorical", 3)),
       (NETU, "categorical"), (None, "none"), ("ordinal", NETU)]
for cs in TWO:
    for directed in (False, True):
        for full in (True, False):
            CONFIGS.append((cs, directed, full, 0, (5, 6), ((0, 1), (0, 1)), (1,), True, 2, 3))
CONFIGS.append((("categorical", "ordinal", ("categorical", 2)), False, True, 0, (5, 6), ((0, 1), (0, 1), (7, 8)), (1,), False, 1, 2))
CONFIGS.append((("categorical", "ordinal", "none"), True, False, 0, (5, 6), ((0, 1), (0, 1), (7, 8)), (1,), False, 1, 2))
# layers that are not adjacent, whose numbers also occur as nodes or as layers of the other aspect
for cs in (("ordinal", "categorical"), ("ordinal", "ordinal"), (("ordinal", 2), "none"), ("categorical", ("ordinal", 4)), (NET3, ("ordinal", 3))):
    for full in (True, False):
        for layers in (((1, 2, 4), (2, 3)), ((1, 4), (3, 5)), ((2, 4), (1, 2, 3))):
            CONFIGS.append((cs, False, full, 0, (3,), layers, (1,), False, 1, 2))
            CONFIGS.append((cs, True, full, 0, (3, 0), layers, (1,), False, 0, 1))


def setup(i):
    cs, directed, full, ne, nodes, layers, weights, removal, dq, dt = CONFIGS[i]
    cfg = dict(aspects=len(cs), directed=directed, full=full, noEdge=ne, couplings=list(cs))
    ops = hist.grow_ops(nodes, layers, full, len(cs))
    ops += hist.edge_ops(nodes, layers, directed, weights, ne, ("set", "sets", "setn", "aset", "asetn"), selfloops=False,
                         intra_only=True, removal=removal)
    if full:
        ops += [("anode", n, l) for n in nodes for l in itertools.product(*layers)]
    else:
        ops += [("anode", n, l) for n in nodes for l in itertools.product(*layers)]
    return cfg, ops, (dq, dt)


def start(i):
    """also start from the state with all layers and nodes in place"""
    cs, directed, full, ne, nodes, layers, weights, removal, dq, dt = CONFIGS[i]
    h = [("layer", l, a + 1) for a in range(len(cs)) for l in layers[a]]
    if full:
        h += [("node", n, None) for n in nodes]
    else:
        h += [("node", n, l) for n in nodes[:1] for l in itertools.product(*layers)]
    return h


def shards(tier, seed):
    out = []
    for i in range(len(CONFIGS)):
        out += [(i, "empty"), (i, "full")]
    out += [("large",) + x for x in families.shards(tier, 3, only=("zy_mpx",))]
    return out


def run_shard(shard, ctx):
    if shard[0] == "large":
        return hist.run_large(families.nets_of(shard[1:], ctx.tier), ctx, observe)
    i, kind = shard
    cfg, ops, (dq, dt) = setup(i)
    depth = dq if ctx.tier == "quick" else dt
    prefix = []
    if kind == "full":
        prefix = start(i)
        depth += len(prefix) - (1 if depth > 2 else 0)
    hist.explore(cfg, ops, depth, observe, ctx, prefix, reobserve=False)


def replay(case, ctx):
    hist.replay(case, ctx, observe)

"""Breadth-first exploration of operation histories on the real network objects.

A state is the live object reached by a history; it is identified by a structural fingerprint
of the whole object.  Every transition (state x operation) of the bounded space is executed on
a freshly rebuilt object; the reference model makes the same move; a fingerprint that is reached
with two different reference states, or whose observation differs from the reference, fails.
"""
import itertools, time
from mc import ref as R
from mc.ref import Ref, link, layer_arg


def apply_real(net, op):
    k = op[0]
    if k == "set":            # full index notation
        net[link(op[1], op[2])] = op[3]
    elif k == "sets":         # short intra-layer index
        net[(op[1][0], op[2][0]) + op[1][1:]] = op[3]
    elif k == "setn":         # through the node object
        u, v = op[1], op[2]
        net[u[0] if len(u) == 1 else u][v[0] if len(v) == 1 else v] = op[3]
    elif k == "node":
        if op[2] is None:
            net.add_node(op[1])
        else:
            net.add_node(op[1], layer=layer_arg(op[2]))
    elif k == "layer":
        net.add_layer(op[1], op[2])
    elif k == "aset":         # multiplex: through the intra-layer network
        net.A[layer_arg(op[1][1:])][op[1][0], op[2][0]] = op[3]
    elif k == "asetn":
        net.A[layer_arg(op[1][1:])][op[1][0]][op[2][0]] = op[3]
    elif k == "anode":
        net.A[layer_arg(op[2])].add_node(op[1])
    else:
        raise ValueError(op)


def apply_ref(ref, op):
    k = op[0]
    if k in ("set", "sets", "setn", "aset", "asetn"):
        ref.set(op[1], op[2], op[3])
    elif k == "node":
        ref.add_node(op[1], op[2])
    elif k == "layer":
        ref.add_layer(op[1], op[2])
    elif k == "anode":
        ref.add_node(op[1], op[2])
        if ref.full:
            ref.nodes.add(op[1])


def enabled(ref, op):
    """operations outside the properties' domain are not generated"""
    k = op[0]
    if k in ("set", "sets", "setn", "aset", "asetn"):
        if op[3] == ref.noEdge and (op[3] is None) == (ref.noEdge is None):
            # removal: both end points must be there already
            nls = ref.node_layers()
            return op[1] in nls and op[2] in nls
        if k in ("aset", "asetn"):
            return all(l in ref.layers[a] for a, l in enumerate(op[1][1:]))
        return True
    if k == "anode":
        return all(l in ref.layers[a] for a, l in enumerate(op[2]))
    if k == "node" and op[2] is not None and ref.full:
        return all(l in ref.layers[a] for a, l in enumerate(op[2]))
    return True


def build_history(cfg, hist):
    ref = Ref(**cfg)
    net = R.empty(ref)
    for op in hist:
        apply_real(net, op)
        apply_ref(ref, op)
    return net, ref


def explore(cfg, ops, depth, observe, ctx, prefix=(), reobserve=True):
    """observe(net, ref, ctx) compares; the case recorded is (cfg, history)"""
    cfgl = tuple(sorted(cfg.items()))
    seen = {}
    frontier = []

    def visit(hist):
        case = (cfgl, tuple(hist))

        def run(case, ctx):
            net, ref = build_history(cfg, hist)
            fp = R.fingerprint(net)
            k = ref.key()
            if fp in seen:
                if seen[fp] != k:
                    ctx.fail("two histories with different reference states lead to the same network state", k, seen[fp])
                return
            seen[fp] = k
            ctx.state()
            observe(net, ref, ctx)
            if reobserve:
                d = R.diff(R.snapshot(net), ref.snap())
                if d:
                    ctx.fail("reading changed the network", None, d)
            ctx.trace()
            frontier.append((hist, ref))
        ctx.run_case(case, run)

    t_end = time.time() + (150 if ctx.tier == "quick" else 3000)
    visit(list(prefix))
    cur, frontier = frontier, []
    for dep in range(len(prefix), depth):
        nxt = []
        for hist, ref in cur:
            if time.time() > t_end:
                ctx.count("capped_shards")
                break
            for op in ops:
                if not enabled(ref, op):
                    continue
                ctx.step()
                frontier = []
                visit(hist + [op])
                nxt.extend(frontier)
        frontier = []
        cur = nxt
        if not cur:
            break
    ctx.count("states_at_last_depth", len(cur))
    ctx.outcome(len(seen))
    for v in list(seen.values())[:300]:
        ctx.outcome(v)


def long_history(ref):
    """a history that ends in the given network: its edges are assigned in turn, in alternating notations, some of them first with another
    weight, some are removed and assigned again"""
    h = []
    for a, ls in enumerate(ref.layers):
        h += [("layer", l, a + 1) for l in R.srt(ls)]
    if ref.full:
        h += [("node", n, None) for n in R.srt(ref.nodes)]
    edges = [(u, v, w) for (u, v), w in sorted(ref.E.items(), key=repr) if ref.directed or repr(u) <= repr(v)]
    nots = ("set", "setn") if ref.couplings is None else ("set", "sets", "setn", "aset", "asetn")
    for i, (u, v, w) in enumerate(edges):
        n = nots[i % len(nots)]
        if not ref.directed and i % 2:
            u, v = v, u
        if i % 3 == 0:
            h.append((n, u, v, w + 1))
        if i % 5 == 0:
            h.append((n, u, v, w))
            h.append(("set", u, v, ref.noEdge))
        h.append((n, u, v, w))
        if i % 7 == 0 and i:
            h.append(("set",) + edges[i // 2])
    if not ref.full:
        h += [("node", u[0], u[1:]) for u in R.srt(ref.nl)]
    return h


def run_large(refs, ctx, observe):
    """observed after a third, two thirds and at the end of the long histories"""
    for ref in refs:
        cfg = dict(aspects=ref.aspects, directed=ref.directed, full=ref.full, noEdge=ref.noEdge)
        if ref.couplings is not None:
            cfg["couplings"] = list(ref.couplings)
        h = long_history(ref)
        for cut in (len(h) // 3, 2 * len(h) // 3, len(h)):
            def run(case, ctx):
                net, r = build_history(dict(case[0]), case[1])
                ctx.state()
                observe(net, r, ctx)
                d = R.diff(R.snapshot(net), r.snap())
                if d:
                    ctx.fail("reading changed the network", None, d)
                ctx.outcome(r.key())
            ctx.step(cut)
            ctx.run_case((tuple(sorted(cfg.items())), tuple(h[:cut])), run)


def replay(case, ctx, observe):
    cfg, hist = dict(case[0]), list(case[1])
    net, ref = build_history(cfg, hist)
    observe(net, ref, ctx)
    d = R.diff(R.snapshot(net), ref.snap())
    if d:
        ctx.fail("reading changed the network", None, d)


def edge_ops(nodes, layers, directed, weights, noEdge, notations=("set",), selfloops=True, intra_only=False, removal=True):
    nls = list(itertools.product(nodes, *layers))
    ops = []
    vals = list(weights) + ([noEdge] if removal else [])
    for i, u in enumerate(nls):
        for j, v in enumerate(nls):
            if not directed and j < i:
                continue
            if u == v and not selfloops:
                continue
            if intra_only and u[1:] != v[1:]:
                continue
            for n in notations:
                if n == "sets" and (len(u) == 1 or u[1:] != v[1:]):
                    continue
                # for undirected networks use the reversed order in the second notation
                a, b = (u, v) if (directed or n != "setn") else (v, u)
                for w in vals:
                    ops.append((n, a, b, w))
    return ops


def grow_ops(nodes, layers, full, aspects):
    ops = [("node", n, None) for n in nodes]
    for a in range(aspects):
        ops += [("layer", l, a + 1) for l in layers[a]]
    if not full:
        ops += [("node", n, l) for n in nodes for l in itertools.product(*layers)]
    return ops

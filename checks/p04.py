"""P04 the intra-layer networks of a multiplex network and the multiplex network are one state."""
import itertools
import pymnet
from mc import hist, obs, ref as R
from mc.ref import Ref, link, layer_arg

ID = "P04"
TITLE = "intra-layer networks"
RULE = ("breadth-first over histories mixing edits through the multiplex network, edits through its intra-layer networks "
        "(including views obtained before later edits) and replacement of whole layers; in every state every intra-layer "
        "network and the multiplex network are compared with the reference, and replaced layers must be copies")


def monos(directed, nodes, ne):
    """reference monoplex networks used to replace a layer"""
    out = []
    a, b = nodes[:2]
    for nds, es in (((), {}), ((a,), {}), ((a, b), {((a,), (b,)): 4}), ((b, "z"), {(("z",), (b,)): 6}), ((a, b, "z"), {((a,), (b,)): 4, ((b,), ("z",)): 6})):
        r = Ref(0, directed, ne)
        r.nodes = set(nds)
        for (u, v), w in es.items():
            r.set(u, v, w)
        out.append(r)
    # networks of the other direction, and with another 'no edge' value
    r = Ref(0, not directed, ne)
    r.nodes = {a, b, "z"}
    r.set((a,), (b,), 4)
    r.set(("z",), (b,), 6)
    out.append(r)
    r = Ref(0, directed, -77)
    r.nodes = {a, b}
    r.set((b,), (a,), 5)
    out.append(r)
    return out


CONFIGS = []
for c in ("categorical", "none", "ordinal"):
    for directed in (False, True):
        for full in (True, False):
            CONFIGS.append(((c,), directed, full, 0, (1, 2), ((0, 1),), 3, 4))
CONFIGS.append((("categorical",), False, True, -1, (1, 2), ((0, 1),), 3, 4))
CONFIGS.append((("categorical",), False, False, None, (1, 2), ((0, 1),), 3, 4))
CONFIGS.append((("categorical", "none"), False, True, 0, (1, 2), ((0, 1), (7,)), 2, 3))
CONFIGS.append((("categorical", "none"), True, False, 0, (1, 2), ((0, 1), (7,)), 2, 3))


def setup(i):
    cs, directed, full, ne, nodes, layers, dq, dt = CONFIGS[i]
    cfg = dict(aspects=len(cs), directed=directed, full=full, noEdge=ne, couplings=list(cs))
    ops = [("layer", l, a + 1) for a in range(len(cs)) for l in layers[a]]
    ops += [("node", nodes[0], None)]
    for l in itertools.product(*layers):
        ops += [("anode", n, l) for n in nodes]
        if not full:
            ops.append(("node", nodes[0], l))
        for w in (3, ne):
            u, v = (nodes[0],) + l, (nodes[1],) + l
            ops.append(("set", u, v, w))
            ops.append(("aset", u, v, w))
            ops.append(("vset", v, u, w))
        for k in range(7):
            ops.append(("replace", l, k))
    return cfg, ops, (dq, dt)


def apply(net, ref, ops, keep):
    """apply a history to both; keep collects (source network of replaced layers)"""
    views = {}
    for op in ops:
        if op[0] == "replace":
            m = monos(ref.directed, CFG_NODES, ref.noEdge)[op[2]]
            src = R.build(m)
            net.A[layer_arg(op[1])] = src
            views.pop(op[1], None)
            keep.append((src, m))
            # reference: the layer now has exactly m's edges and (if layers have own nodes) m's nodes
            for (u, v) in list(ref.E):
                if u[1:] == op[1]:
                    del ref.E[(u, v)]
            ref.nodes |= m.nodes
            if not ref.full:
                ref.nl = set(x for x in ref.nl if x[1:] != op[1]) | set((n,) + op[1] for n in m.nodes)
            for (u, v), w in m.E.items():
                ref.E[(u + op[1], v + op[1])] = w
                if not ref.directed:
                    ref.E[(v + op[1], u + op[1])] = w
        elif op[0] == "vset":
            # through a view obtained as early as possible in the history
            views[op[1][1:]][op[1][0], op[2][0]] = op[3]
            hist.apply_ref(ref, ("set",) + op[1:])
        else:
            hist.apply_real(net, op)
            hist.apply_ref(ref, op)
        for l in itertools.product(*ref.layers):
            if l not in views:
                views[l] = net.A[layer_arg(l)]


CFG_NODES = (1, 2)


def enabled(ref, op):
    if op[0] == "replace":
        return all(l in ref.layers[a] for a, l in enumerate(op[1]))
    if op[0] == "vset":
        if not all(l in ref.layers[a] for a, l in enumerate(op[1][1:])):
            return False
        return hist.enabled(ref, ("set",) + op[1:])
    return hist.enabled(ref, op)


def observe(net, ref, keep, ctx):
    lays = list(itertools.product(*ref.layers))
    obs.cmp_unique(ctx, list(net.A), [layer_arg(l) for l in lays], "layers listed by net.A")
    obs.cmp_unique(ctx, list(net.intranets), [layer_arg(l) for l in lays], "layers listed by net.intranets")
    ctx.eq(len(net.A), len(lays), "len(net.A)")
    for l in lays:
        a = net.A[layer_arg(l)]
        if not (layer_arg(l) in net.A):
            ctx.fail("layer %r in net.A" % (l,), True, False)
        r = Ref(0, ref.directed, ref.noEdge)
        r.nodes = set(ref.nodes) if ref.full else set(x[0] for x in ref.nl if x[1:] == l)
        for (u, v), w in ref.E.items():
            if u[1:] == l:
                r.E[(u[:1], v[:1])] = w
        obs.observe_storage(a, r, ctx)
        obs.observe_edges(a, r, ctx, patterns=None, strengths=True)
    d = R.diff(R.snapshot(net), ref.snap())
    if d:
        ctx.fail("the multiplex network", None, d)
    obs.observe_edges(net, ref, ctx, patterns=None, strengths=True)
    for src, m in keep:
        d = R.diff(R.snapshot(src), m.snap())
        if d:
            ctx.fail("a network assigned to a layer was changed by later edits", None, d)
    # the assigned network must be a copy: editing it later must not show
    if keep:
        for src, m in keep:
            src["u1", "u2"] = 9
        d = R.diff(R.snapshot(net), ref.snap())
        if d:
            ctx.fail("editing a network that was assigned to a layer changed the multiplex network", None, d)


def shards(tier, seed):
    return list(range(len(CONFIGS)))


def check(case, ctx):
    cfg, h = dict(case[0]), list(case[1])
    ref = Ref(**cfg)
    net = R.empty(ref)
    keep = []
    apply(net, ref, h, keep)
    observe(net, ref, keep, ctx)
    # invalid assignments are rejected
    now = R.snapshot(net)
    views = dict((l, net.A[layer_arg(l)]) for l in itertools.product(*ref.layers))
    filled = pymnet.MultilayerNetwork(aspects=1)
    filled["u1", "u2", "l1", "l1"] = 1
    for bad, what in ((pymnet.MultilayerNetwork(aspects=1), "a network with an aspect"), ("x", "a string"), (None, "None"), (filled, "a network with an aspect"),
                      (pymnet.MultiplexNetwork("none"), "a multiplex network"), ({}, "a dict")):
        for l in itertools.product(*ref.layers):
            try:
                net.A[layer_arg(l)] = bad
            except Exception:
                continue
            ctx.fail("assigning %s to a layer was accepted" % what)
    try:
        net.A["no such layer"] = R.build(monos(ref.directed, CFG_NODES, ref.noEdge)[2])
    except Exception:
        pass
    else:
        ctx.fail("assigning to a layer that does not exist was accepted")
    d = R.diff(R.snapshot(net), now)
    if d or any(net.A[layer_arg(l)] != v for l, v in views.items()):
        ctx.fail("refused assignments of a layer changed the network", None, d or "intra-layer networks differ")
    # a layer can be given the intra-layer network of another layer, or its own one
    lays = list(itertools.product(*ref.layers))
    for i, (l1, l2) in enumerate(itertools.product(lays, lays)):
        ref, net = Ref(**cfg), R.empty(ref)
        apply(net, ref, h, [])
        for (u, v) in list(ref.E):
            if u[1:] == l1 and l1 != l2:
                del ref.E[(u, v)]
        for (u, v), w in list(ref.E.items()):
            if u[1:] == l2:
                ref.E[(u[:1] + l1, v[:1] + l1)] = w
        if not ref.full:
            ref.nl = set(x for x in ref.nl if x[1:] != l1 or l1 == l2) | set(x[:1] + l1 for x in ref.nl if x[1:] == l2)
        net.A[layer_arg(l1)] = net.A[layer_arg(l2)]
        ctx.step()
        d = R.diff(R.snapshot(net), ref.snap())
        if d:
            ctx.fail("after assigning the intra-layer network of %r to the layer %r" % (l2, l1), None, d)
        elif l1 != l2:
            # they are not the same network afterwards
            net.A[layer_arg(l2)]["u1", "u2"] = 9
            if net.A[layer_arg(l1)]["u1", "u2"] == 9:
                ctx.fail("layers %r and %r share their edges after an assignment" % (l1, l2))


def run_shard(i, ctx):
    cfg, ops, (dq, dt) = setup(i)
    depth = dq if ctx.tier == "quick" else dt
    cfgl = tuple(sorted(cfg.items()))
    seen = {}
    pre = [[]]
    allay = [("layer", l, a + 1) for a in range(cfg["aspects"]) for l in CONFIGS[i][5][a]]
    pre.append(allay)
    for p in pre:
        cur = [p]
        for dep in range(depth + 1):
            nxt = []
            for h in cur:
                ctx._case = (cfgl, tuple(h))

                def run(case, ctx):
                    ref = Ref(**cfg)
                    net = R.empty(ref)
                    apply(net, ref, h, [])
                    fp = (R.fingerprint(net), ref.key(), tuple(o for o in h if o[0] == "replace"))
                    if fp in seen:
                        return
                    seen[fp] = True
                    ctx.state()
                    ctx.outcome(ref.key())
                    check(case, ctx)
                    ctx.trace()
                    if dep < depth:
                        for op in ops:
                            if enabled(ref, op):
                                nxt.append(h + [op])
                                ctx.step()
                ctx.run_case((cfgl, tuple(h)), run)
            cur = nxt

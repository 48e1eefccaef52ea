"""P30 layouts place every node (node-layer) once, inside the box, and keep the fixed ones."""
import itertools
import math
import pymnet
from pymnet.visuals import layouts as L
from mc import nets, choice, ref as R
from mc.ref import Ref

ID = "P30"
TITLE = "layouts"
RULE = ("every bounded network of one and two aspects x every layout, alignment, box, fixed set and set of given coordinates x every outcome "
        "of the random source from a menu that includes ties: coordinates of exactly the nodes (node-layers), filling the box, with the "
        "fixed ones where they were; renaming and mirroring the input renames and mirrors the result; single forces have the stated direction")
TOL = 1e-9
FR = L.get_fruchterman_reingold_multilayer_layout
NXLAY = ("circular", "shell", "spring", "spectral")


def fams(tier):
    q = tier == "quick"
    F = {}
    for d in (False, True):
        for full in (False, True):
            k = "d" * d + ("f" if full else "n")
            F["g" + k] = lambda d=d, full=full: nets.enum(1, (1, 2), (("a", "b"),), directed=d, full=full, max_edges=2, loops=True)
            F["m" + k] = lambda d=d, full=full: nets.enum(1, (1, 2, 3), ((1, 2),), directed=d, full=full, couplings=("categorical",), max_edges=1 if q else 2)
            F["t" + k] = lambda d=d, full=full: nets.enum(2, (1, 2), ((1, 2), ("x",)), directed=d, full=full, max_edges=1 if q else 2)
            F["tm" + k] = lambda d=d, full=full: nets.enum(2, ("a", "b"), ((1, 2), ("x",)), directed=d, full=full, couplings=("ordinal", "none"), max_edges=1)
    F["grow"] = lambda: nets.grown(1, ("a", "b"), (("x", "y"),), max_edges=1)
    F["grown"] = lambda: nets.grown(1, ("a", "b"), (("x", "y"),), full=False, max_edges=1, isolated="every")
    F["one"] = lambda: nets.grown(1, ("a",), ((3, 1, 2),), couplings=("categorical",))
    F["ne"] = lambda: nets.enum(1, (0, 1, 2), ((0, 1),), couplings=("none",), noEdge=-1, max_edges=1)
    F["w"] = lambda: nets.enum(1, (0, ""), ((0,),), full=False, weight=lambda i: 0.5)
    return F


def shards(tier, seed):
    out = [("net", n, p, 2) for n in fams(tier) for p in range(2)]
    return out + [("fr", p, 8) for p in range(8)] + [("norm", 0), ("force", 0), ("sym", 0), ("sym", 1)]


def cases(shard, tier):
    kind = shard[0]
    if kind == "net":
        for ref in nets.split(fams(tier)[shard[1]](), shard[2], shard[3]):
            yield ("layouts", nets.lit(ref))
            yield ("draws", nets.lit(ref), tier)
    elif kind == "fr":
        i = 0
        for ref in fr_nets():
            nodes, nls = R.srt(ref.nodes), R.srt(ref.node_layers())
            for al in (True, False):
                for box in (1.0, 2, (3.0, 0.5), [0.25, 4]):
                    for nd in ("auto", 0.3):
                        for it in (1, 2, 7):
                            for fixed in range(7):
                                i += 1
                                if i % shard[2] == shard[1]:
                                    yield ("fr", nets.lit(ref), al, box, nd, it, fixed)
    elif kind == "norm":
        for k in range(0, 4):
            for pts in itertools.product(((0, 0), (1, 2), (-3, 2), (0.5, 7)), repeat=k):
                for box in ((1.0, 1.0), (2.0, 0.5)):
                    for inplace in (False, True):
                        yield ("norm", pts, box, inplace)
    elif kind == "force":
        for al in (True, False):
            for directed in (False, True):
                for who in itertools.product((0, 1, 2), repeat=2):
                    for p in ((0.5, 0.5), (0.3, 0.6), (0.7, 0.2)):
                        for t in (1, 3):
                            yield ("force", al, directed, who, p, t)
    else:
        for ref in fr_nets():
            for al in (True, False):
                for it in (1, 2, 4):
                    for box in (1.0, (2.0, 5.0)):
                        if (shard[1] == 0) == al:
                            yield ("sym", nets.lit(ref), al, it, box)


def fr_nets():
    out = []
    for d in (False, True):
        for full in (False, True):
            r = Ref(1, d, 0, full, None)
            for u, v in (((1, "a"), (2, "a")), ((2, "b"), (3, "b")), ((1, "a"), (3, "b")), ((4, "b"), (4, "b"))):
                r.set(u, v, 2)
            out.append(r)
            r = Ref(1, d, 0, full, ["categorical"])
            for u, v in (((1, "a"), (2, "a")), ((2, "b"), (3, "b")), ((2, "a"), (3, "a"))):
                r.set(u, v, 1)
            r.nodes.add(4)
            if not full:
                r.nl.add((4, "c"))
            r.layers[0].add("c")
            out.append(r)
    r = Ref(2, False, 0, False, None)
    for u, v in (((1, "a", 1), (2, "a", 1)), ((2, "b", 1), (3, "b", 2)), ((1, "a", 1), (3, "b", 2))):
        r.set(u, v, 2)
    out.append(r)
    return out


def finite(ctx, what, c, keys):
    if set(c) != set(keys):
        ctx.fail(what + ": who has coordinates", R.srt(keys), R.srt(c))
        return False
    for k, xy in c.items():
        if len(xy) != 2 or not all(math.isfinite(float(v)) for v in xy):
            ctx.fail(what + ": coordinates", "two finite numbers", (k, xy))
            return False
    return True


def fills(ctx, what, c, box):
    """each axis is filled from zero to the size of the box (or has a single value)"""
    for a in (0, 1):
        vals = [xy[a] for xy in c.values()]
        lo, hi = min(vals), max(vals)
        if lo < -TOL or hi > box[a] + TOL * max(1, box[a]) or (lo < hi and (abs(lo) > TOL or abs(hi - box[a]) > TOL * max(1, box[a]))):
            ctx.fail(what + ": range of axis %d" % a, (0, box[a]), (lo, hi))
            return


def pair(box):
    return tuple(map(float, box)) if isinstance(box, (tuple, list)) else (float(box), float(box))


def check(case, ctx):
    kind = case[0]
    if kind in ("layouts", "draws", "fr", "sym"):
        ref = nets.unlit(case[1])
        net = R.build(ref)
        before = R.snapshot(net)
        ctx.state()
    {"layouts": do_layouts, "draws": do_draws, "fr": do_fr, "sym": do_sym, "norm": do_norm, "force": do_force}[kind](case, ctx, *((net, ref) if kind in ("layouts", "draws", "fr", "sym") else ()))
    if kind in ("layouts", "draws", "fr", "sym"):
        d = R.diff(R.snapshot(net), before)
        if d:
            ctx.fail("a layout modified the network", None, d)


def do_layouts(case, ctx, net, ref):
    import random
    import numpy
    random.seed(2)
    numpy.random.seed(2)
    nodes, nls = ref.nodes, ref.node_layers()
    multiplex = ref.couplings is not None
    for lay in ("random", "fr") + NXLAY:
        for al in (True, False, None):
            aligned = multiplex if al is None else al
            if lay in NXLAY and (not aligned or ref.aspects != 1 or (lay == "spectral" and len(nodes) < 1)):
                continue
            what = "get_layout(%r,net,alignedNodes=%r)" % (lay, al)
            nc, nlc = L.get_layout(lay, net, alignedNodes=al)
            ctx.step()
            if aligned:
                if nlc:
                    ctx.fail(what + ": node-layer coordinates", {}, nlc)
                if not finite(ctx, what, nc, nodes):
                    continue
            else:
                if nc:
                    ctx.fail(what + ": node coordinates", {}, nc)
                if not finite(ctx, what, nlc, nls):
                    continue
            if lay in ("circular", "shell") and len(nodes) > 1:
                pts = sorted((round(float(x), 6), round(float(y), 6)) for x, y in nc.values())
                exp = sorted((round(math.cos(2 * math.pi * i / len(nodes)), 6), round(math.sin(2 * math.pi * i / len(nodes)), 6)) for i in range(len(nodes)))
                c0 = [sum(p[k] for p in pts) / len(pts) for k in (0, 1)]
                rad = [math.hypot(p[0] - c0[0], p[1] - c0[1]) for p in pts]
                if max(rad) - min(rad) > 1e-4 or len(set(pts)) != len(pts):
                    ctx.fail(what + ": points on a circle", exp, pts)
    # no alignment given: aligned
    nc, nlc = L.get_layout("random", net)
    finite(ctx, "get_layout('random',net)", nc, nodes)
    for bad in ("nonsense", ""):
        try:
            L.get_layout(bad, net)
            ctx.fail("get_layout with the layout %r" % bad, "an exception", None)
        except Exception:
            pass
    ctx.outcome(("layouts", len(nls)))


def do_draws(case, ctx, net, ref):
    """all outcomes of the random source, including coinciding points"""
    nodes, nls = ref.nodes, ref.node_layers()
    tier = case[2]
    for al in (True, False):
        keys = nodes if al else nls
        n = 2 * len(keys)
        menu = (0.25, 0.75) if n <= (6 if tier == "quick" else 8) else (0.5,)
        for ch, c in choice.explore(lambda: FR(net, alignedNodes=al, iterations=3), menu, limit=n + 2):
            ctx.step()
            if c is choice.TooLong:
                ctx.fail("random draws of the layout", "at most %d" % n, "more")
                return
            what = "multilayer layout (aligned=%r, draws %r)" % (al, list(ch))
            if finite(ctx, what, c, keys) and keys:
                fills(ctx, what, c, (1.0, 1.0))
        for ch, (nc, nlc) in choice.explore(lambda: L.get_layout("random", net, alignedNodes=al), menu, limit=n + 2):
            c = nc if al else nlc
            ctx.step()
            if finite(ctx, "random layout", c, keys):
                got = sorted(v for xy in c.values() for v in xy)
                if got != sorted(menu[i] for i in ch):
                    ctx.fail("random layout: coordinates are the draws", sorted(menu[i] for i in ch), got)
                    return


def coords_for(keys, box):
    out = {}
    for i, k in enumerate(R.srt(keys)):
        out[k] = (box[0] * ((0.37 * i + 0.13 * i * i + 0.1) % 1.0), box[1] * ((0.71 * i * i + 0.23 * i + 0.05) % 1.0))
    return out


def layer_coords(keys, box):
    """differs from the coordinates of the nodes"""
    xy = coords_for(keys, box)
    return dict(zip(R.srt(keys), [(0.9 * xy[k][0] + 0.05 * box[0], 0.9 * xy[k][1] + 0.01 * box[1]) for k in reversed(R.srt(keys))]))


def do_fr(case, ctx, net, ref):
    _, _, al, box, nd, it, fixed = case
    b = pair(box)
    nodes, nls = R.srt(ref.nodes), R.srt(ref.node_layers())
    keys = nodes if al else nls
    kw = dict(alignedNodes=al, boxSize=box, nodeDist=nd, iterations=it)
    given = {}
    keep = {}
    if fixed == 1:
        given = dict((k, v) for k, v in coords_for(nodes, b).items() if k != nodes[-1])
        kw["nodeCoords"] = dict(given)
    elif fixed == 2:
        xy = coords_for(nodes, b)
        kw["nodeCoords"] = dict(xy)
        kw["fixedNodes"] = set(nodes[:2])
        keep = dict((k, xy[k]) for k in nodes[:2]) if al else dict((k, xy[k[0]]) for k in nls if k[0] in nodes[:2])
    elif fixed == 3:
        xy = coords_for(nodes, b)
        kw["nodeCoords"] = dict(xy)
        if al:
            kw["fixedNodes"] = list(nodes[1:])
            keep = dict((k, xy[k]) for k in nodes[1:])
        else:
            xyl = layer_coords(nls, b)
            kw["nodelayerCoords"] = dict((k, xyl[k]) for k in nls[::2])
            kw["fixedNodeLayers"] = set(nls[:2])
            keep = dict((k, xyl[k] if k in kw["nodelayerCoords"] else xy[k[0]]) for k in nls[:2])
    elif fixed == 4:
        # fixed nodes and node-layers, the initial coordinates partly given for both
        xy = coords_for(nodes, b)
        kw["nodeCoords"] = dict((n, xy[n]) for n in nodes[:2])
        kw["fixedNodes"] = (nodes[0],)
        if al:
            keep = {nodes[0]: xy[nodes[0]]}
        else:
            xyl = layer_coords(nls, b)
            sel = [k for k in nls if k[0] == nodes[1]][:1] + [k for k in nls if k[0] not in nodes[:2]][:1]
            kw["nodelayerCoords"] = dict((k, xyl[k]) for k in sel + [k for k in nls if k[0] == nodes[0]][:1])
            kw["fixedNodeLayers"] = list(sel)
            keep = dict((k, xyl[k] if k in kw["nodelayerCoords"] else xy[k[0]]) for k in nls if k in sel or k[0] == nodes[0])
    elif fixed == 6:
        # fixed in the corners, one given by a list
        kw["nodeCoords"] = {nodes[0]: (0.0, 0.0), nodes[1]: [b[0], 0], nodes[2]: (b[0] / 2, b[1])}
        kw["fixedNodes"] = list(nodes[:2])
        keep = dict((k, kw["nodeCoords"][k if al else k[0]]) for k in keys if (k if al else k[0]) in nodes[:2])
    elif fixed == 5:
        # everything is fixed
        xy = coords_for(nodes, b)
        kw["nodeCoords"] = dict(xy)
        kw["fixedNodes"] = set(nodes)
        keep = dict((k, xy[k] if al else xy[k[0]]) for k in keys)
    orig = dict((k, dict(v) if isinstance(v, dict) else type(v)(v) if isinstance(v, (set, list, tuple)) else v) for k, v in kw.items())
    what = "multilayer layout %r" % (kw,)
    for ch, c in choice.explore(lambda: FR(net, **kw), (0.5, 0.125) if fixed == 1 and al else (0.375,), limit=2 * len(keys) + 2):
        ctx.step()
        if not finite(ctx, what, c, keys):
            return
        if not keep:
            fills(ctx, what, c, b)
        else:
            for k, v in keep.items():
                if max(abs(x - y) for x, y in zip(c[k], v)) > TOL:
                    ctx.fail(what + ": fixed %r" % (k,), v, c[k])
                    return
            for k in keys:
                if any(not -TOL <= c[k][a] <= b[a] + TOL for a in (0, 1)):
                    ctx.fail(what + ": %r outside of the box" % (k,), b, c[k])
                    return
    if kw != orig:
        ctx.fail("the layout modified its arguments", orig, kw)


def do_norm(case, ctx):
    _, pts, box, inplace = case
    coords = dict(enumerate(pts))
    orig = dict(coords)
    ctx.state()
    got = L.normalize_coordinates(coords, box, inplace=inplace)
    ctx.step()
    if inplace and got is not coords or not inplace and coords != orig:
        ctx.fail("normalize_coordinates(inplace=%r)" % inplace, None, (got, coords))
        return
    if not finite(ctx, "normalize_coordinates(%r,%r)" % (orig, box), got, orig):
        return
    for a in (0, 1):
        vals = [p[a] for p in pts]
        for i, v in enumerate(vals):
            lo, hi = min(vals), max(vals)
            e = box[a] * (v - lo) / float(hi - lo) if hi > lo else None
            if e is None and not -TOL <= got[i][a] <= box[a] + TOL or e is not None and abs(got[i][a] - e) > TOL:
                ctx.fail("normalize_coordinates(%r,%r)" % (orig, box), e, got[i][a])
                return


def do_force(case, ctx):
    """the nodes 'A' and 'B' are fixed in the corners; 'C' is linked to them and/or shares a layer with them"""
    _, al, directed, who, p, t = case
    # who[i]: 0 nothing in common, 1 linked from another layer, 2 same layer
    ctx.state()
    net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False, directed=directed)
    net.add_node("C", layer="c")
    for x, w in zip("AB", who):
        lay = "c" if w == 2 else "l" + x
        net.add_node(x, layer=lay)
        if w == 1:
            net["C", x, "c", lay] = 1
    if who == (2, 2):
        pass
    pos = {"A": (0.0, 0.0), "B": (1.0, 1.0), "C": p}
    kw = dict(alignedNodes=al, nodeCoords=pos, iterations=t)
    if al:
        kw["fixedNodes"] = set("AB")
    else:
        kw["fixedNodeLayers"] = set(nl for nl in net.iter_node_layers() if nl[0] != "C")
    c = FR(net, **kw)
    ctx.step()
    got = c["C"] if al else c[("C", "c")]
    what = "C at %r; A and B are %s" % (p, [("apart", "linked", "in the same layer")[w] for w in who])
    d = (got[0] - p[0], got[1] - p[1])
    move = math.hypot(*d)
    if who == (0, 0):
        if move > TOL:
            ctx.fail(what + ": movement without forces", p, got)
        return
    if 0 in who:
        x = "AB"[who.index(max(who))]
        v = (pos[x][0] - p[0], pos[x][1] - p[1])
        dot = d[0] * v[0] + d[1] * v[1]
        cross = abs(d[0] * v[1] - d[1] * v[0])
        inside = all(1e-6 < g < 1 - 1e-6 for g in got)
        if move < 1e-12 or (dot > 0) != (max(who) == 1) and inside and t == 1 or inside and t == 1 and cross > 1e-6 * move:
            ctx.fail(what + ": movement", "towards %s" % x if max(who) == 1 else "away from %s" % x, d)


def do_sym(case, ctx, net, ref):
    """renamed and mirrored inputs"""
    _, _, al, it, box = case
    b = pair(box)
    nodes, nls = R.srt(ref.nodes), R.srt(ref.node_layers())
    xy = coords_for(nodes, b)
    xyl = coords_for(nls, b)
    kw = dict(alignedNodes=al, iterations=it)
    full_aligned = ref.full and al
    base = FR(net, nodeCoords=dict(xy), boxSize=box, **kw) if al else FR(net, nodelayerCoords=dict(xyl), boxSize=box, **kw)
    ctx.step()
    sw = lambda c: dict((k, (v[1], v[0])) for k, v in c.items())
    m = FR(net, nodeCoords=sw(xy), boxSize=(b[1], b[0]), **kw) if al else FR(net, nodelayerCoords=sw(xyl), boxSize=(b[1], b[0]), **kw)
    ctx.step()
    near(ctx, "layout with the axes exchanged", sw(base), m)
    # renaming nodes (reversed order) and layers
    pn = dict(zip(nodes, reversed(["n%d" % i for i in range(len(nodes))])))
    pl = [dict(zip(R.srt(l), reversed(["l%d" % i for i in range(len(l))]))) for l in ref.layers]
    mp = lambda u: (pn[u[0]],) + tuple(pl[a][l] for a, l in enumerate(u[1:]))
    r2 = Ref(ref.aspects, ref.directed, ref.noEdge, ref.full, ref.couplings)
    r2.nodes = set(pn.values())
    r2.layers = [set(x.values()) for x in pl]
    r2.nl = set(map(mp, ref.nl))
    r2.E = dict(((mp(u), mp(v)), w) for (u, v), w in ref.E.items())
    n2 = R.build(r2)
    if al:
        got = FR(n2, nodeCoords=dict((pn[k], v) for k, v in xy.items()), boxSize=box, **kw)
        near(ctx, "layout of the renamed network", dict((pn[k], v) for k, v in base.items()), got)
    else:
        got = FR(n2, nodelayerCoords=dict((mp(k), v) for k, v in xyl.items()), boxSize=box, **kw)
        near(ctx, "layout of the renamed network", dict((mp(k), v) for k, v in base.items()), got)
    ctx.step()
    # weights do not matter to the positions, nor do the initial coordinates of the other kind
    if al:
        got = FR(net, nodeCoords=dict(xy), nodelayerCoords=None, fixedNodes=set(), fixedNodeLayers=set(), boxSize=box, **kw)
        near(ctx, "layout with empty sets of fixed nodes", base, got)


def near(ctx, what, a, b):
    if set(a) != set(b):
        ctx.fail(what + ": who has coordinates", R.srt(a), R.srt(b))
        return
    for k in a:
        if max(abs(x - y) for x, y in zip(a[k], b[k])) > 1e-6 * (1 + max(map(abs, a[k]))):
            ctx.fail(what, (k, a[k]), b[k])
            return

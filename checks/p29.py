"""P29 a drawing shows exactly the network, with the properties asked for."""
import io
import itertools
import json
import math
import os
import random
import re
import shutil
import tempfile
import pymnet
from pymnet import visuals
from mc import nets, ref as R
from mc.ref import Ref

ID = "P29"
TITLE = "drawings"
RULE = ("every bounded network of one aspect is drawn, with every visible property given by every source (dictionary, rule, default) and "
        "modifier, with every layout option, and in sequences of two drawings; the Matplotlib figure (or the three.js page) is decoded "
        "to layers, nodes, labels and lines and compared with the figure computed from the network; web pages are decoded to networks")

EPS = 1e-6


# ---------------------------------------------------------------------------------- networks
def fams(tier):
    q = tier == "quick"
    F = {}
    F["gu"] = lambda: nets.enum(1, (1, 2), (("a", "b"),), max_edges=2 if q else 4)
    F["gd"] = lambda: nets.enum(1, (1, 2), (("a", "b"),), directed=True, max_edges=2 if q else 3)
    F["gn"] = lambda: nets.enum(1, (1, 2), (("a", "b"),), full=False, max_edges=2)
    F["g3"] = lambda: nets.enum(1, (1, 2), ((1, 2, 3),), full=False, max_edges=1, isolated="every" if not q else "all")
    F["gap"] = lambda: nets.enum(1, (1, 2), ((1, 2, 3, 4),), max_edges=1)
    F["gapd"] = lambda: nets.enum(1, ("x", "y"), ((1, 2, 3),), directed=True, max_edges=1)
    F["m"] = lambda: nets.enum(1, (1, 2, 3), ((1, 2),), couplings=("categorical",), max_edges=2 if q else 6)
    F["mn"] = lambda: nets.enum(1, (1, 2, 3), ((1, 2, 3),), couplings=("ordinal",), full=False, max_edges=1 if q else 2)
    F["mf"] = lambda: nets.enum(1, (1, 2), ((1, 2, 3),), couplings=(("categorical", 2.5),), directed=True, max_edges=1 if q else 3)
    F["m0"] = lambda: nets.enum(1, ("a", "b"), ((1, 2),), couplings=("none",), full=False)
    F["grow"] = lambda: nets.grown(1, ("a", "b"), (("x", "y"),), max_edges=1)
    F["one"] = lambda: nets.grown(1, ("a",), ((3, 1, 2),), couplings=("categorical",))
    return F


def sample_nets():
    """networks on which all the options are tried"""
    out = []
    r = Ref(1, False, 0, False, ["categorical"])
    for u, v, w in [((1, 1), (2, 1), 1), ((1, 2), (2, 2), 2), ((2, 2), (3, 2), 3), ((1, 3), (3, 3), 0.5)]:
        r.set(u, v, w)
    out.append(r)
    r = Ref(1, True, 0, True, None)
    for u, v, w in [((1, 1), (2, 1), 1), ((2, 1), (1, 1), 2), ((2, 1), (3, 3), 0.5), ((3, 2), (3, 1), 1.5), ((1, 3), (1, 3), 2)]:
        r.set(u, v, w)
    r.add_layer(2)
    out.append(r)
    r = Ref(1, False, 0, True, ["none"])
    for u, v, w in [((1, 2), (2, 2), 0.75), ((1, 1), (3, 1), 2)]:
        r.set(u, v, w)
    r.add_node(4)
    out.append(r)
    r = Ref(1, False, 0, False, None)
    for u, v, w in [((1, 1), (2, 2), 1), ((2, 1), (3, 4), 0.5), ((1, 4), (2, 1), 0.25), ((3, 3), (3, 4), 1)]:
        r.set(u, v, w)
    r.add_node(2, (3,))
    out.append(r)
    r = Ref(1, False, 0, True, None)
    for u, v, w in [((1, 1), (2, 1), 2), ((2, 1), (3, 1), 1)]:
        r.set(u, v, w)
    out.append(r)
    r = Ref(1, True, 0, False, None)
    for u, v, w in [((1, 1), (2, 2), 1), ((2, 2), (1, 1), 3), ((1, 1), (1, 2), 2)]:
        r.set(u, v, w)
    out.append(r)
    r = Ref(1, False, 0, True, [("categorical", 2)])
    r.add_node(7)
    for l in (5, 10, 0):
        r.add_layer(l)
    out.append(r)
    return out


def scramble(names):
    """distinct coordinates"""
    out = {}
    for i, n in enumerate(R.srt(names)):
        out[n] = (round(0.07 + (0.37 * i + 0.11 * i * i) % 1.3, 6), round(-0.2 + (0.53 * i * i + 0.29 * i) % 1.7, 6))
    return out


# ---------------------------------------------------------------------------------- reference
DEFAULTS = {"layerColor": "#29b7c1", "layerAlpha": 0.75, "layerLabel": None, "layerLabelLoc": (1, 1), "layerLabelSize": None, "layerLabelColor": "k",
            "layerLabelStyle": "normal", "layerLabelAlpha": 1.0, "layerOrder": 0, "nodeLabel": None, "nodeLabelSize": None, "nodeLabelColor": "k",
            "nodeLabelStyle": "normal", "nodeLabelAlpha": 1.0, "nodeSize": None, "nodeColor": "black", "edgeColor": "gray", "edgeWidth": 1.5,
            "edgeAlpha": 1, "edgeZ": 0, "edgeStyle": "-"}
RULES = {"layerLabel": {"rule": "name"}, "layerOrder": {"rule": "name"}, "nodeLabel": {"rule": "nodename"},
         "nodeSize": {"rule": "scaled", "scalecoeff": 0.2}, "edgeStyle": {"rule": "edgetype", "intra": "-", "inter": ":"}}
FUNCS = {"id": lambda x: x, "half": lambda x: x / 2., "str": lambda x: "<%s>" % (x,), "plus": lambda x: x + 1, "neg": lambda x: -x,
         "alpha": lambda x: 1. / (1 + x), "loc": lambda x: (0.5, x / 10.), "pick": lambda x: ("red", "blue", "green", "yellow")[int(x) % 4],
         "sdw": lambda x: "red" if x[0][1] != x[1][1] else "blue" if x[2] > 1 else "green", "italic": lambda x: "italic" if x % 2 else "normal",
         "half2": lambda x: x[0] / 2., "first": lambda x: ("red", "blue")[x[0] % 2], "inv": lambda x: 10 * (5 - x), "lstyle": lambda x: ("-", "--", ":", "-.")[int(x) % 4]}


def func_rule(rule):
    """the rule given to the code: function names are replaced with functions"""
    if rule is None:
        return None
    return dict((k, FUNCS[v] if k == "f" else v) for k, v in rule.items())


class Expected(object):
    def __init__(self, ref, opts):
        self.ref, self.o = ref, opts
        self.E = ref.edges()
        self.nls = R.srt(ref.node_layers())

    def value(self, prop, item):
        """dictionary, rule, default - in this order"""
        d = self.o.get(prop + "Dict", {})
        if item in d:
            return d[item]
        if prop.startswith("edge") and not self.ref.directed and (item[1], item[0]) in d:
            return d[(item[1], item[0])]
        default = self.o.get("default" + prop[0].upper() + prop[1:], DEFAULTS[prop])
        rule = self.o.get(prop + "Rule", RULES.get(prop, {}))
        if not rule:
            return default
        x = self.by_rule(prop, item, rule)
        if x is None:
            return default
        if "propscale" in rule:
            x = x * rule["propscale"] / math.sqrt(len(self.ref.nodes))
        if "f" in rule:
            x = FUNCS[rule["f"]](x)
        if rule.get("mapping"):
            x = rule[x]
        if "scaleby" in rule:
            x = x * (rule[self.by_rule(prop, item, {"rule": rule["scaleby"]})] if isinstance(rule["scaleby"], str) else rule["scaleby"])
        if "colormap" in rule:
            import matplotlib
            x = matplotlib.colormaps[rule["colormap"]](x)
        return x

    def by_rule(self, prop, item, rule):
        kind = rule["rule"]
        if kind == "name":
            return item
        if kind == "order":
            seq = rule["sequence"]
            order = self.layer_names()
            assert prop.startswith("layer") and prop != "layerOrder"
            return seq[order.index(item) % len(seq)]
        if prop.startswith("node"):
            if kind == "degree":
                return len(set(v for (u, v) in self.E if u == item) | set(u for (u, v) in self.E if v == item))
            if kind == "layer":
                return item[1]
            if kind == "nodename":
                return item[0]
            if kind == "scaled":
                return rule.get("scalecoeff", 1.0) / math.sqrt(len(self.ref.nodes))
        if prop.startswith("edge"):
            intra = item[0][1] == item[1][1]
            if kind == "edgetype":
                return rule.get("intra" if intra else "inter")
            if kind == "edgeweight":
                return self.E[item]
            if kind == "layer":
                return item[0][1] if intra else "interlayer"
            if kind == "sourcedestweight":
                return (item[0], item[1], self.E[item])
        raise ValueError(kind)

    def layer_names(self):
        """from top to bottom"""
        return sorted(self.ref.layers[0], key=lambda l: self.value("layerOrder", l))

    def coords(self, xy):
        """node-layer -> coordinates in the figure"""
        if not xy:
            return {}
        size = dict((u, self.value("nodeSize", u)) for u in xy)
        pad = self.o.get("layerPadding", 0.05)
        out = []
        for k in (0, 1):
            lo = min(c[k] - size[u] / 2. for u, c in xy.items())
            hi = max(c[k] + size[u] / 2. for u, c in xy.items())
            out.append(dict((u, (c[k] - lo + pad) / (hi - lo + 2 * pad)) for u, c in xy.items()))
        return dict((u, (out[0][u], out[1][u])) for u in xy)

    def figure(self, xy):
        """xy: node-layer -> coordinates before fitting them to the layer"""
        names = self.layer_names()
        gap = self.o.get("layergap", 1.0)
        z = dict((l, (len(names) - 1 - i) * gap) for i, l in enumerate(names))
        pos = self.coords(xy)
        layers, nodes, texts, lines = [], [], [], set()
        for l in names:
            a = self.value("layerAlpha", l)
            if a == 0:
                continue
            layers.append((self.o.get("layershape", "rectangle").replace("circular", "circle"), rnd(z[l]), rgba(self.value("layerColor", l), a)))
            lab = self.value("layerLabel", l)
            if lab is not None:
                x, y = self.value("layerLabelLoc", l)
                texts.append((str(lab), rnd(x), rnd(y), rnd(z[l])) + self.label_style("layerLabel", l))
        for u in self.nls:
            s = self.value("nodeSize", u)
            if s <= 0:
                continue
            x, y = pos[u]
            nodes.append((rnd(x), rnd(y), rnd(z[u[1]]), rnd(s), rgba(self.value("nodeColor", u), None)))
            lab = self.value("nodeLabel", u)
            if lab is not None:
                texts.append((str(lab), rnd(x + s / 2.), rnd(y + s / 2.), rnd(z[u[1]], 2)) + self.label_style("nodeLabel", u))
        for (u, v) in self.E:
            z1, z2 = z[u[1]], z[v[1]]
            n = 1 if gap == 0 else max(1, int(round(abs(z1 - z2) / float(gap))))
            style = (rgba(self.value("edgeColor", (u, v)), self.value("edgeAlpha", (u, v))), rnd(self.value("edgeWidth", (u, v))), self.value("edgeStyle", (u, v)))
            for i in range(n):
                ends = []
                for t in (i / float(n), (i + 1) / float(n)):
                    ends.append((rnd(pos[u][0] + t * (pos[v][0] - pos[u][0])), rnd(pos[u][1] + t * (pos[v][1] - pos[u][1])), rnd(z1 + t * (z2 - z1))))
                lines.add((tuple(ends if self.ref.directed else sorted(ends)),) + style + (rnd(self.value("edgeZ", (u, v)), 3),))
        return {"layers": sorted(layers), "nodes": sorted(nodes), "labels": sorted(texts), "lines": sorted(lines)}

    def label_style(self, prop, item):
        size = self.value(prop + "Size", item)
        return (10.0 if size is None else rnd(size), rgba(self.value(prop + "Color", item), None), self.value(prop + "Style", item), rnd(self.value(prop + "Alpha", item)))


def rnd(x, n=4):
    x = round(float(x), n)
    return 0.0 if x == 0 else x


def rgba(c, alpha):
    from matplotlib import colors
    return tuple(rnd(x, 4) for x in colors.to_rgba(c, alpha))


# ---------------------------------------------------------------------------------- decoding
LINESTYLES = {"-": "-", "solid": "-", "--": "--", "dashed": "--", ":": ":", "dotted": ":", "-.": "-.", "dashdot": "-."}


def decode(ax, gap, directed):
    layers, nodes, texts, lines = [], [], [], set()
    rectangles = any(len(p._segment3d) == 5 for p in ax.patches)
    for p in ax.patches:
        seg = [tuple(map(float, s)) for s in p._segment3d]
        xs, ys, zs = zip(*seg)
        if max(zs) - min(zs) > EPS:
            return "patch that is not horizontal: %r" % (seg[:4],)
        cx, cy = (max(xs) + min(xs)) / 2., (max(ys) + min(ys)) / 2.
        col = tuple(rnd(x, 4) for x in p.get_facecolor())
        if len(seg) == 5 and (min(xs), max(xs), min(ys), max(ys)) == (0, 1, 0, 1):
            layers.append(("rectangle", rnd(zs[0]), col))
        elif not rectangles and abs(cx - 0.5) < EPS and abs(cy - 0.5) < EPS and abs(max(xs) - min(xs) - 1) < EPS:
            layers.append(("circle", rnd(zs[0]), col))
        else:
            nodes.append((rnd(cx), rnd(cy), rnd(zs[0]), rnd(max(xs) - min(xs)), col))
    for t in ax.texts:
        x, y, z = map(float, t.get_position_3d())
        lift = z - round(z / gap) * gap if gap else z
        texts.append((t.get_text(), rnd(x), rnd(y), rnd(z - (lift if abs(lift) < 0.01 else 0)), rnd(t.get_size()), rgba(t.get_color(), None), t.get_style(), rnd(1 if t.get_alpha() is None else t.get_alpha())))
    for l in ax.lines:
        xs, ys, zs = [list(map(float, d)) for d in l.get_data_3d()]
        if len(xs) != 2:
            return "line with %d points" % len(xs)
        # z-coordinate modifier: between 0 and 1, moves the line up in the drawing order within its height
        mid = (zs[0] + zs[1]) / 2.
        lift = rnd((l.zorder - mid) / 0.001, 3)
        ends = tuple((rnd(x), rnd(y), rnd(z)) for x, y, z in zip(xs, ys, zs))
        if not directed:
            ends = tuple(sorted(ends))
        lines.add((ends, rgba(l.get_color(), l.get_alpha()), rnd(l.get_linewidth()), LINESTYLES.get(l.get_linestyle(), l.get_linestyle()), lift))
    return {"layers": sorted(layers), "nodes": sorted(nodes), "labels": sorted(texts), "lines": sorted(lines)}


def close(a, b):
    """equal up to rounding of the numbers"""
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) < 3e-4
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def match(a, b):
    """equal as collections up to rounding"""
    if close(a, b):
        return True
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if close(x, y):
                del rest[i]
                break
        else:
            return False
    return True


def compare(ctx, what, got, exp):
    if isinstance(got, str):
        ctx.fail(what, "a drawing of the network", got)
        return
    for k in ("layers", "nodes", "labels", "lines"):
        ok = match(got[k], exp[k]) if k != "lines" else all(any(close(x, y) for y in exp[k]) for x in got[k]) and all(any(close(x, y) for y in got[k]) for x in exp[k])
        if not ok:
            g = [x for x in got[k] if not any(close(x, y) for y in exp[k])]
            e = [x for x in exp[k] if not any(close(x, y) for y in got[k])]
            ctx.fail(what + ": " + k, e or exp[k], g or got[k])


# ---------------------------------------------------------------------------------- options
def expand(opts):
    """options as given to the code"""
    out = {}
    for k, v in opts.items():
        out[k] = func_rule(v) if k.endswith("Rule") else v
    return out


COLORS = ["red", (0.1, 0.2, 0.3), "#12ab9f"]


def prop_options(ref):
    """[options]: every property x every source of its value"""
    names = R.srt(ref.layers[0])
    nls = R.srt(ref.node_layers())
    E = R.srt(ref.edges())
    out = []

    def add(**kw):
        if all(not k.endswith("Dict") or v for k, v in kw.items()):
            out.append(kw)

    vals = {"layerColor": COLORS, "layerAlpha": [0.25, 0, 1.0], "layerLabel": ["L", 7, ""], "layerLabelLoc": [(0, 0), (0.5, 1.5), (1, 0)], "layerLabelSize": [5, 12.5, 20],
            "layerLabelColor": COLORS, "layerLabelStyle": ["italic", "oblique", "normal"], "layerLabelAlpha": [0.5, 0.0, 1.0],
            "nodeLabel": ["N", 7, "x y"], "nodeLabelSize": [5, 12.5, 20], "nodeLabelColor": COLORS, "nodeLabelStyle": ["italic", "oblique", "normal"],
            "nodeLabelAlpha": [0.5, 0.0, 1.0], "nodeSize": [0.1, 0, 0.3], "nodeColor": COLORS, "edgeColor": COLORS, "edgeWidth": [0.5, 3, 2.25],
            "edgeAlpha": [0.5, 0.25, 1], "edgeZ": [0.5, 1, 0.25], "edgeStyle": ["--", "-.", ":"]}
    for prop, v in sorted(vals.items()):
        els = names if prop.startswith("layer") else nls if prop.startswith("node") else E
        dflt = "default" + prop[0].upper() + prop[1:]
        # dictionary for some of the elements; the rest by the rule or by the default
        part = dict((e, v[i % 3]) for i, e in enumerate(els) if i % 2 == 0)
        if prop.startswith("edge") and not ref.directed:
            part = dict((e, x) for e, x in part.items() if (e[1], e[0]) not in part or repr(e) < repr((e[1], e[0])))
        add(**{prop + "Dict": part})
        noRule = {prop + "Rule": {}, dflt: v[0]}
        add(**dict(noRule, **{prop + "Dict": dict((e, v[(i + 1) % 3]) for e, i in zip(part, range(99)))}))
        if len(els) > 1:
            last = els[-1]
            add(**{prop + "Dict": {last: v[2]}, prop + "Rule": {}, dflt: v[0]})
            add(**{prop + "Dict": {last: v[0]}, prop + "Rule": {}, dflt: v[2]})
        add(**{prop + "Dict": dict((e, v[0]) for e in els)})
        if prop != "nodeSize":
            add(**{prop + "Rule": {}})
        add(**{dflt: v[1], prop + "Rule": {}})
        add(**{dflt: v[1]})
        if prop.startswith("layer"):
            add(**{prop + "Rule": {"rule": "order", "sequence": v}})
            add(**{prop + "Rule": {"rule": "order", "sequence": v[:2]}, "layerOrderRule": {"rule": "name", "f": "neg"}})
            add(**{prop + "Rule": {"rule": "order", "sequence": v[::-1]}, prop + "Dict": {}})
        if prop.startswith("edge"):
            add(**{prop + "Rule": {"rule": "edgetype", "intra": v[0], "inter": v[1]}})
            add(**{prop + "Rule": {"rule": "edgetype", "intra": v[0]}, dflt: v[2]})
            add(**{prop + "Rule": {"rule": "edgetype", "inter": v[1]}, dflt: v[2]})
            add(**{prop + "Rule": {"rule": "edgetype", "intra": v[0], "inter": v[1]}, prop + "Dict": part})
            m = dict(zip(names, itertools.cycle(v)))
            add(**{prop + "Rule": dict(m, rule="layer", mapping=True, interlayer=v[1])})
        if prop.startswith("node"):
            m = dict(zip(names, itertools.cycle(v)))
            add(**{prop + "Rule": dict(m, rule="layer", mapping=True)})
        if prop.endswith("Color"):
            src = "name" if prop.startswith("layer") else "degree" if prop.startswith("node") else "edgeweight"
            for cm in ("jet", "viridis"):
                add(**{prop + "Rule": {"rule": src, "colormap": cm, "scaleby": 0.1}})
            add(**{prop + "Rule": {"rule": src, "colormap": "jet"}})
            add(**{prop + "Rule": {"rule": src, "f": "alpha", "colormap": "jet"}})
            add(**{prop + "Rule": {"rule": src, "f": "pick"}})
            add(**{prop + "Rule": {"rule": src, "f": "plus", "scaleby": 0.25, "colormap": "gray"}})
            if prop.startswith("node"):
                add(**{prop + "Rule": {"rule": "layer", "f": "pick"}})
                add(**{prop + "Rule": {"rule": "name", "f": "first"}})
    # numbers from rules, with every combination of modifiers
    for r, mods in itertools.product([{"rule": "degree"}, {"rule": "layer"}, {"rule": "scaled", "scalecoeff": 0.3}, {"rule": "scaled"}],
                                     [{}, {"propscale": 0.05}, {"scaleby": 0.1}, {"f": "half"}, {"f": "plus", "scaleby": 0.1}, {"propscale": 0.1, "f": "plus"},
                                      {"propscale": 0.1, "f": "plus", "scaleby": 0.2}]):
        add(nodeSizeRule=dict(r, **mods))
    add(nodeSizeRule={"rule": "degree", "propscale": 0.05}, nodeSizeDict={nls[0]: 0.5})
    add(nodeSizeRule={"rule": "degree", "propscale": 0.05}, nodeLabelRule={"rule": "degree"})
    for r in ({"rule": "name"}, {"rule": "layer"}, {"rule": "degree"}, {"rule": "nodename", "f": "str"}, {"rule": "name", "f": "str"}, {"rule": "degree", "scaleby": 3}):
        add(nodeLabelRule=r)
    for r in ({"rule": "layer", "scaleby": 4}, {"rule": "degree", "f": "plus", "scaleby": 3}):
        add(nodeLabelSizeRule=r)
        add(nodeLabelSizeRule=r, nodeSizeDict=dict((u, 0) for u in nls[::2]))
    for p in ("layerLabelRule", "layerLabelSizeRule"):
        add(**{p: {"rule": "name", "scaleby": 3}})
        add(**{p: {"rule": "name", "f": "inv"}})
    add(layerAlphaRule={"rule": "name", "f": "alpha"})
    add(layerLabelAlphaRule={"rule": "name", "f": "alpha"})
    add(layerLabelStyleRule={"rule": "name", "f": "italic"})
    add(layerLabelLocRule={"rule": "name", "f": "loc"})
    add(nodeLabelAlphaRule={"rule": "degree", "f": "alpha"})
    add(nodeLabelStyleRule={"rule": "layer", "f": "italic"})
    for r in ({"rule": "edgeweight"}, {"rule": "edgeweight", "scaleby": 0.5}, {"rule": "edgeweight", "f": "plus", "scaleby": 2}, {"rule": "edgeweight", "f": "half"},
              dict(dict((l, 0.5 * i + 0.5) for i, l in enumerate(names)), rule="edgeweight", scaleby="layer", interlayer=3)):
        add(edgeWidthRule=r)
    add(edgeAlphaRule={"rule": "edgeweight", "f": "alpha"})
    add(edgeZRule={"rule": "edgeweight", "f": "alpha"})
    add(edgeStyleRule={"rule": "edgeweight", "f": "lstyle"})
    add(edgeColorRule={"rule": "sourcedestweight", "f": "sdw"})
    add(edgeColorRule={"rule": "edgeweight", "f": "pick"})
    # order of the layers
    rev = dict((l, len(names) - i) for i, l in enumerate(names))
    add(layerOrderDict=rev)
    add(layerOrderDict=rev, layerOrderRule={})
    add(layerOrderDict={names[0]: 99})
    add(layerOrderDict={names[-1]: -99})
    add(layerOrderRule={"rule": "name", "f": "neg"})
    add(layerOrderRule={"rule": "name", "scaleby": -1}, layerLabelLocDict={names[0]: (0.25, 0.75)})
    add(layerOrderDict={names[0]: 5}, layerOrderRule={}, defaultLayerOrder=0) if len(names) == 2 else None
    return out


def geom_options(ref):
    """[(options)]: coordinates and shapes"""
    nls = R.srt(ref.node_layers())
    nodes = R.srt(ref.nodes)
    xy = scramble(nodes)
    xyl = dict((u, (c[0] * 2 + 3, c[1] - 1)) for u, c in scramble(nls).items())
    out = []
    for shape in (None, "rectangle", "circle", "circular"):
        for gap in (None, 0.5, 2.0, 0.1, 0):
            for pad in (None, 0.2):
                o = {"nodeCoords": xy}
                if shape:
                    o["layershape"] = shape
                if gap is not None:
                    o["layergap"] = gap
                if pad is not None:
                    o["layerPadding"] = pad
                out.append(o)
    for s in ({}, {"nodeSizeRule": {}, "defaultNodeSize": 0.2}, {"nodeSizeRule": {"rule": "degree", "scaleby": 0.1}}, {"nodeSizeRule": {}, "defaultNodeSize": 0}):
        out.append(dict(s, nodeCoords=xy, nodelayerCoords=dict((u, xyl[u]) for u in nls[::2])))
        out.append(dict(s, nodelayerCoords=xyl))
        out.append(dict(s, nodelayerCoords=xyl, nodeCoords=dict((n, xy[n]) for n in nodes[:1])))
        out.append(dict(s, nodeCoords=dict((n, (i, 0)) for i, n in enumerate(nodes))))
        out.append(dict(s, nodeCoords=dict((n, (0, 7 * i)) for i, n in enumerate(nodes)), layerPadding=0.3))
        out.append(dict(s, nodeCoords=dict((n, (2, 3)) for n in nodes)))
        out.append(dict(s, nodeCoords=dict((n, [1e3 * c for c in xy[n]]) for n in nodes)))
    out.append({"nodeCoords": xy, "figsize": (3, 2)})
    out.append({"nodeCoords": xy, "azim": 10, "elev": 40})
    out.append({"nodeCoords": xy, "azim": -120, "elev": 0, "autoscale": False})
    out.append({"nodeCoords": xy, "autoscale": True, "layergap": 5})
    out.append({"nodeCoords": xy, "camera_dist": 12})
    out.append({"nodeCoords": xy, "show": False, "backend": "mpl"})
    return out


LAYOUTS = [("random", True), ("random", False), ("random", None), ("fr", True), ("fr", False), ("fr", None), ("circular", True), ("spring", True),
           ("spectral", True), ("shell", True), (None, None), (None, True)]


def shards(tier, seed):
    out = [("net", n, p, 4) for n in fams(tier) for p in range(4)]
    k = len(sample_nets())
    out += [("prop", i, p, 6) for i in range(k) for p in range(6)]
    out += [("geom", i, p, 2) for i in range(k) for p in range(2)]
    out += [("layout", i, 0, 1) for i in range(k)] + [("two", i, 0, 1) for i in range(k)] + [("web", p, 4, 0) for p in range(4)] + [("js", i, 0, 1) for i in range(k)]
    return out


def cases(shard, tier):
    kind = shard[0]
    if kind == "net":
        for i, ref in enumerate(nets.split(fams(tier)[shard[1]](), shard[2], shard[3])):
            yield ("draw", nets.lit(ref), {}, i % 8 == 0)
    elif kind in ("prop", "geom"):
        ref = sample_nets()[shard[1]]
        opts = prop_options(ref) if kind == "prop" else geom_options(ref)
        if kind == "prop" and tier == "quick" and shard[1] in (1, 2):
            opts = [o for i, o in enumerate(opts) if i % 2 == shard[1] - 1]
        elif tier == "quick" and shard[1] > 3:
            opts = [o for i, o in enumerate(opts) if i % 4 == shard[1] % 4 or shard[1] == 5 and any("weight" in str(v) for v in o.values())] + [o for o in opts if "nodelayerCoords" in o]
        for i, o in enumerate(opts):
            if i % shard[3] == shard[2]:
                yield ("draw", nets.lit(ref), o, i % 5 == 0)
        if kind == "prop" and tier != "quick":
            # pairs of options of different properties
            for i, (a, b) in enumerate(itertools.combinations(opts, 2)):
                if i % shard[3] == shard[2] and not set(a) & set(b) and (i // shard[3]) % 12 == 0:
                    yield ("draw", nets.lit(ref), dict(a, **b), False)
    elif kind == "layout":
        ref = sample_nets()[shard[1]]
        for lay, al in LAYOUTS:
            for shape in (0, 1):
                yield ("layout", nets.lit(ref), lay, al, shape)
    elif kind == "two":
        ref = sample_nets()[shard[1]]
        other = sample_nets()[(shard[1] + 1) % len(sample_nets())]
        geo, pro = geom_options(ref), prop_options(ref)
        sel = [{}] + pro[::max(1, len(pro) // 6)] + geo[40:46:2]
        for i, a in enumerate(sel):
            yield ("two", nets.lit(ref), a, nets.lit(other), {}, i % 2)
            yield ("two", nets.lit(other), {}, nets.lit(ref), a, i % 2)
    elif kind == "js":
        ref = sample_nets()[shard[1]]
        for o in geom_options(ref)[:8] + [{"nodeSizeRule": {"rule": "degree", "scaleby": 0.1}}, {"nodeSizeRule": {}, "defaultNodeSize": 0}]:
            yield ("js", nets.lit(ref), o)
    elif kind == "web":
        names = (1, "a", "b c", "O'Brien", 'say "x"', "back\\slash", "\u00e4", "</script>", "new\nline", "\\'")
        cs = []
        for a, b in itertools.permutations(names, 2):
            for l in ((1, 2), ("x'", "y\\"), ('"', "z")):
                cs.append((a, b, l))
        for i, c in enumerate(cs):
            if i % shard[2] == shard[1]:
                yield ("web",) + c
        for i, ref in enumerate(nets.split(nets.enum(1, (1, 2, 3), (("a", "b"),), couplings=("categorical",), max_edges=2 if tier == "quick" else 4), shard[1], shard[2])):
            yield ("webnet", nets.lit(ref))


def full_coords(ref, opts):
    """options with coordinates for every node, and the coordinates of the node-layers"""
    xy = {}
    nc, nlc = opts.get("nodeCoords"), opts.get("nodelayerCoords")
    if nc is None and nlc is None:
        opts = dict(opts, nodeCoords=scramble(ref.nodes))
        nc = opts["nodeCoords"]
    for u in ref.node_layers():
        if u in (nlc or {}):
            xy[u] = nlc[u]
        else:
            xy[u] = nc[u[0]]
    return opts, xy


def draw_and_compare(ctx, net, ref, opts, what, render, ax=None):
    import matplotlib.pyplot as plt
    opts, xy = full_coords(ref, opts)
    given = expand(opts)
    given.setdefault("layout", "random")
    if ax is not None:
        given["ax"] = ax
    keep = json.dumps(sorted(map(repr, given.items())))
    fig = pymnet.draw(net, **given)
    try:
        if keep != json.dumps(sorted(map(repr, given.items()))):
            ctx.fail(what + " changed its arguments", keep, sorted(map(repr, given.items())))
        a = ax if ax is not None else fig.axes[0]
        if len(fig.axes) != 1 or (ax is not None and fig is not ax.get_figure()):
            ctx.fail(what + ": the figure has other axes", 1, len(fig.axes))
        exp = Expected(ref, opts)
        compare(ctx, what, decode(a, opts.get("layergap", 1.0), ref.directed), exp.figure(xy))
        for k, got in (("azim", a.azim), ("elev", a.elev)):
            e = opts.get(k, {"azim": -51, "elev": 22}[k])
            if got != e:
                ctx.fail(what + ": " + k, e, got)
        if "figsize" in opts and ax is None and tuple(fig.get_size_inches()) != tuple(opts["figsize"]):
            ctx.fail(what + ": figsize", opts["figsize"], tuple(fig.get_size_inches()))
        stacking(ctx, what, a, exp)
        if render:
            fig.savefig(io.BytesIO(), format="raw", dpi=20)
            stacking(ctx, what + " (after rendering)", a, exp)
            ctx.step()
    finally:
        if ax is None:
            plt.close(fig)
    ctx.step()


def stacking(ctx, what, ax, exp):
    """objects of the same height: layer under its lines under its nodes under their labels; higher layers over lower ones"""
    gap = exp.o.get("layergap", 1.0)
    if gap < 0.5:
        return
    objs = []
    for p in ax.patches:
        z = float(p._segment3d[0][2])
        xs = [float(s[0]) for s in p._segment3d]
        ys = [float(s[1]) for s in p._segment3d]
        layer = abs(max(xs) + min(xs) - 1) < EPS and abs(max(xs) - min(xs) - 1) < EPS and abs(max(ys) + min(ys) - 1) < EPS
        objs.append((round(z, 3), 0 if layer else 2, p.zorder))
    for l in ax.lines:
        zs = [float(x) for x in l.get_data_3d()[2]]
        if abs(zs[0] - zs[1]) < EPS:
            objs.append((round(zs[0], 3), 1, l.zorder))
    objs.sort()
    for (z1, k1, o1), (z2, k2, o2) in zip(objs, objs[1:]):
        if o1 > o2 + 1e-9 and (z1, k1) != (z2, k2):
            ctx.fail(what + ": drawing order", "objects of kind %d at height %g over those of kind %d at height %g" % (k2, z2, k1, z1), (o1, o2))
            return


def check(case, ctx):
    random.seed(1)
    kind = case[0]
    if kind in ("draw", "layout", "js", "webnet"):
        ref = nets.unlit(case[1])
        net = R.build(ref)
        before = R.snapshot(net)
        ctx.state()
    if kind == "draw":
        draw_and_compare(ctx, net, ref, case[2], "draw(net,%r)" % (case[2],), case[3])
        after(ctx, net, before)
        ctx.outcome(("draw", len(ref.node_layers())))
    elif kind == "two":
        import matplotlib.pyplot as plt
        _, l1, o1, l2, o2, share = case
        what = "the second of two drawings (%r, then %r)" % (o1, o2)
        r1, r2 = nets.unlit(l1), nets.unlit(l2)
        n1, n2 = R.build(r1), R.build(r2)
        ctx.state()
        figs = []
        try:
            if share:   # axes given by the caller, beside other figures
                for _ in range(2):
                    figs.append(plt.figure())
                axs = [f.add_subplot(projection="3d") for f in figs]
                draw_and_compare(ctx, n1, r1, o1, "the first drawing", False, axs[0])
                draw_and_compare(ctx, n2, r2, o2, what, False, axs[1])
                o, xy = full_coords(r1, o1)
                compare(ctx, "the first drawing after the second one", decode(axs[0], o.get("layergap", 1.0), r1.directed), Expected(r1, o).figure(xy))
            else:
                draw_and_compare(ctx, n1, r1, o1, "the first drawing", False)
                draw_and_compare(ctx, n2, r2, o2, what, False)
        finally:
            for f in figs:
                plt.close(f)
    elif kind == "layout":
        check_layout(case, ctx, net, ref)
        after(ctx, net, before)
    elif kind == "js":
        check_js(case, ctx, net, ref)
        after(ctx, net, before)
    elif kind == "web":
        r = Ref(1, False, 0, True, ["none"])
        r.set((case[1], case[3][0]), (case[2], case[3][0]), 1.5)
        r.set((case[1], case[3][1]), (case[2], case[3][1]), 2)
        ctx.state()
        check_web(ctx, r, "webplot with names %r" % (case[1:],))
    elif kind == "webnet":
        check_web(ctx, ref, "webplot")
        after(ctx, net, before)


def after(ctx, net, before):
    d = R.diff(R.snapshot(net), before)
    if d:
        ctx.fail("drawing modified the network", None, d)


def check_layout(case, ctx, net, ref):
    """positions chosen by the code: every node-layer has one point, shared by the node if the nodes are aligned"""
    import matplotlib.pyplot as plt
    _, _, lay, al, shape = case
    kw = {}
    if lay is not None:
        kw["layout"] = lay
    if al is not None or lay is not None:
        kw["alignedNodes"] = al
    if shape:
        kw["layershape"] = "circle"
    what = "draw(net,%r)" % (kw,)
    fig = pymnet.draw(net, nodeLabelRule={"rule": "name"}, nodeSizeRule={}, defaultNodeSize=0.04, **kw)
    ctx.step()
    got = decode(fig.axes[0], 1.0, ref.directed)
    plt.close(fig)
    if isinstance(got, str):
        ctx.fail(what, "a drawing of the network", got)
        return
    pos = {}
    for t in got["labels"]:
        for u in ref.node_layers():
            if t[0] == str(u):
                pos[u] = (t[1] - 0.02, t[2] - 0.02)
    if set(pos) != ref.node_layers() or len(got["nodes"]) != len(pos):
        ctx.fail(what + ": nodes drawn", ref.node_layers(), pos)
        return
    # the drawing has the positions given by the labels
    xy = dict((u, c) for u, c in pos.items())
    exp = Expected(ref, {"nodeCoords": {}, "nodeLabelRule": {"rule": "name"}, "nodeSizeRule": {}, "defaultNodeSize": 0.04, "layershape": "circle" if shape else "rectangle"})
    exp.coords = lambda c: c
    compare(ctx, what, got, exp.figure(xy))
    if any(not -EPS <= c <= 1 + EPS for p in pos.values() for c in p):
        ctx.fail(what + ": node outside of its layer", "between 0 and 1", pos)
    aligned = kw.get("alignedNodes", True)
    if aligned is None:
        aligned = ref.couplings is not None
    for u in pos:
        for v in pos:
            if u < v and u[0] == v[0] and close(pos[u], pos[v]) != aligned:
                ctx.fail(what + ": nodes %s" % ("not aligned" if aligned else "aligned"), None, (u, pos[u], v, pos[v]))
                return
            if u < v and u[0] != v[0] and aligned and close(pos[u], pos[v]) and lay != "spectral":
                ctx.fail(what + ": different nodes at the same point", None, (u, pos[u], v, pos[v]))
                return


JSCALL = re.compile(r"get(Node|Link)\(([^()]*)\)\s*;")


def check_js(case, ctx, net, ref):
    opts, xy = full_coords(ref, case[2])
    what = "draw(net,backend='threejs',%r)" % (case[2],)
    page = pymnet.draw(net, layout="random", backend="threejs", **expand(opts))
    ctx.step()
    nodes, links = [], set()
    for k, args in JSCALL.findall(page):
        a = [float(x) for x in args.split(",")]
        if k == "Node":
            nodes.append(tuple(a[:3]))
        else:
            links.add(tuple(sorted((tuple(rnd(x, 2) for x in a[:3]), tuple(rnd(x, 2) for x in a[3:6])))))
    if "@nodes" in page or "@edges" in page or "@layers" in page:
        ctx.fail(what, "a page with the network", "placeholders left in the page")
    exp = Expected(ref, opts)
    pos = exp.coords(xy)
    names = exp.layer_names()
    gap = opts.get("layergap", 1.0)
    P = dict((u, (100 * pos[u][0], 100 * pos[u][1], 100 * gap * (len(names) - 1 - names.index(u[1])))) for u in xy)
    en = sorted(P[u] for u in P if exp.value("nodeSize", u) > 0)
    nodes = sorted(nodes)
    if not match([tuple(rnd(x, 2) for x in n) for n in nodes], [tuple(rnd(x, 2) for x in n) for n in en]):
        ctx.fail(what + ": nodes", en, nodes)
    el = set(tuple(sorted((tuple(rnd(x, 2) for x in P[u]), tuple(rnd(x, 2) for x in P[v])))) for (u, v) in exp.E)
    if not match(sorted(links), sorted(el)):
        ctx.fail(what + ": links", sorted(el), sorted(links))


def js_string(page):
    """the value of the string literal given to JSON.parse in the page"""
    i = page.index("JSON.parse(") + len("JSON.parse(")
    q = page[i]
    if q not in "'\"":
        return None, "no string literal"
    out = []
    i += 1
    while True:
        c = page[i]
        if c == q:
            break
        if c in "\n\r":
            return None, "line break in a string literal"
        if c == "\\":
            i += 1
            c = page[i]
            if c == "u":
                out.append(chr(int(page[i + 1:i + 5], 16)))
                i += 5
                continue
            if c == "x":
                out.append(chr(int(page[i + 1:i + 3], 16)))
                i += 3
                continue
            out.append({"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", "0": "\0", "v": "\v"}.get(c, c))
            i += 1
            continue
        out.append(c)
        i += 1
    rest = page[i + 1:i + 4]
    if not rest.lstrip().startswith(")"):
        return None, "string literal ends in the middle: ...%s" % page[max(0, i - 20):i + 20]
    return "".join(out), None


def check_web(ctx, ref, what):
    net = R.build(ref)
    before = R.snapshot(net)
    tmp = tempfile.mkdtemp(prefix="mc-p29-")
    try:
        p = os.path.join(tmp, "a.html")
        pages = [("", visuals.webplot(net))]
        r = visuals.webplot(net, p)
        pages.append(("to a path", open(p).read()))
        p2 = os.path.join(tmp, "b.html")
        f = open(p2, "w")
        r2 = visuals.webplot(net, f)
        f.close()
        pages.append(("to a file", open(p2).read()))
        if r is not None or r2 is not None:
            ctx.fail(what + " to a file returned something", None, (type(r), type(r2)))
        for w, page in pages:
            ctx.step()
            # the page's scripts end where the browser finds the end tag
            m = re.search(r"<script>(.*?)</script>", page, re.S | re.I)
            if m is None or "force.on(" not in m.group(1):
                ctx.fail("%s %s: the script is cut" % (what, w), None, page[:300])
                continue
            text, err = js_string(m.group(1))
            if err is None:
                try:
                    o = json.loads(text)
                except ValueError as e:
                    err = "not JSON: %s" % e
            if err:
                ctx.fail("%s %s: the data in the page cannot be read" % (what, w), "JSON of the network", err)
                continue
            names = [x["name"] for x in o["nodes"]]
            lays = [x["name"] for x in o["layers"]]
            E = {}
            for x in o["links"]:
                u, v = (names[x["source"]], lays[x["layer"]]), (names[x["target"]], lays[x["layer"]])
                E[(u, v)] = E[(v, u)] = x["value"]
            if set(names) != ref.nodes or len(names) != len(ref.nodes) or set(lays) != ref.layers[0] or len(lays) != len(ref.layers[0]) or E != ref.E:
                ctx.fail("%s %s: network in the page" % (what, w), (ref.nodes, ref.layers, ref.E), (names, lays, E))
        after(ctx, net, before)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

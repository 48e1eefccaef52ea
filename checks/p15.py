"""P15 writing networks to JSON and edge files, and reading edge files, is lossless."""
import io
import itertools
import json
import os
import shutil
import tempfile
import pymnet
from pymnet import netio
from mc import nets, families, ref as R, tcheck as T
from mc.ref import Ref

ID = "P15"
TITLE = "JSON and edge files"
RULE = ("every one-aspect multiplex network of the enumerated families x every output option (string, open file, path; weights, "
        "separators, master file, numeric nodes): the text is parsed independently and must describe exactly the network; every "
        "line order of every bounded edge file is read back; files live in a scratch directory")

KINDS = {"i": ((1, 2, 3), ((1, 2),), None), "s": (("a", "b", "c"), (("x", "y"),), None), "f": ((1, 2, 3), ((5,),), (0.5, 1.25, 3)), "l3": ((1, 2), ((1, 2, 3),), None)}


def fams(tier):
    q = tier == "quick"
    F = {}
    for k, (nodes, lays, ws) in KINDS.items():
        w = nets.wseq if ws is None else (lambda i, ws=ws: ws[i % len(ws)])
        for cs in ("none", "categorical"):
            for directed in (False, True):
                for full in (True, False):
                    F["%s_%s_%s_%s" % (k, cs, directed, full)] = lambda nodes=nodes, lays=lays, w=w, cs=cs, directed=directed, full=full: nets.enum(
                        1, nodes, lays, couplings=(cs,), weight=w, directed=directed, full=full, max_edges=3 if q else 5)
    F["small"] = lambda: nets.grown(1, (1, 2), ((1, 2),), couplings=("categorical",))
    F["smalld"] = lambda: nets.grown(1, (1, 2), ((1, 2),), couplings=("categorical",), directed=True)
    F["big"] = lambda: nets.enum(1, (1, 2, 3), ((1, 2),), couplings=("none",), weight=families.wbig, max_edges=2 if q else 4)
    F["neg"] = lambda: nets.enum(1, (0, 1, 2), ((0, 1),), couplings=("none",), weight=families.wneg, max_edges=2 if q else 4)
    F["negd"] = lambda: nets.enum(1, ("7", "8", "-1"), (("", "0"),), couplings=("categorical",), weight=families.wneg, directed=True, max_edges=2 if q else 3)
    F["mixed"] = lambda: nets.enum(1, (7, "x", 8), ((1, "a"),), couplings=("categorical",), weight=families.wneg, max_edges=2 if q else 4)
    F["n4"] = lambda: nets.enum(1, (4, 3, 2, 1), ((2, 1),), couplings=("categorical",), max_edges=2 if q else 3)
    F["ne"] = lambda: nets.enum(1, (1, 2, 3), ((1, 2),), couplings=("none",), noEdge=-1, weight=families.wz, max_edges=3)
    for d in (False, True):
        for full in (False, True):
            F["large%d%d" % (d, full)] = lambda d=d, full=full: nets.large(1, 6, (3,), directed=d, full=full, couplings=("categorical",))
    F["larger"] = lambda: nets.large(1, 12, (12,), couplings=("none",), weight=families.wneg)
    return F


def shards(tier, seed):
    return [("w", n, p, 2) for n in fams(tier) for p in range(2)] + [("r", d, p, 4) for d in (False, True) for p in range(4)]


LINES = ((1, 1, 2, "1"), (1, 2, 1, "2.5"), (1, 2, 3, "3"), (2, 1, 2, "4"), (2, 3, 3, "5"), (1, 1, 2, "0.5"))


def cases(shard, tier):
    if shard[0] == "w":
        for ref in nets.split(fams(tier)[shard[1]](), shard[2], shard[3]):
            yield ("w", nets.lit(ref))
    else:
        k = 3 if tier == "quick" else 4
        allseq = [s for n in range(k + 1) for s in itertools.permutations(LINES, n)]
        for s in nets.split(iter(allseq), shard[2], shard[3]):
            yield ("r", shard[1], s)


def parse_edges(ref, triples):
    """[(layer, a, b, w)] -> Ref-like edge dict; None if an edge is listed twice"""
    E = {}
    for l, a, b, w in triples:
        u, v = (a, l), (b, l)
        if (u, v) in E:
            return "edge %r listed more than once" % ((u, v),)
        E[(u, v)] = w
        if not ref.directed:
            E[(v, u)] = w
    return E


def check(case, ctx):
    if case[0] == "r":
        return check_read(case, ctx)
    ref = nets.unlit(case[1])
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    tmp = tempfile.mkdtemp(prefix="mc-p15-")
    try:
        # JSON
        texts = [("write_json(net)", netio.write_json(net))]
        p = os.path.join(tmp, "o.json")
        netio.write_json(net, p)
        texts.append(("write_json(net,path)", open(p).read()))
        p2 = os.path.join(tmp, "o2.json")
        netio.write_json(net, open(p2, "w"))
        texts.append(("write_json(net,file)", open(p2).read()))
        for what, t in texts:
            ctx.step()
            o = json.loads(t)
            names = [x["name"] for x in o["nodes"]]
            lays = [x["name"] for x in o["layers"]]
            if R.srt(names) != R.srt(ref.nodes):
                ctx.fail(what + ": nodes", R.srt(ref.nodes), names)
                continue
            if R.srt(lays) != R.srt(ref.layers[0]):
                ctx.fail(what + ": layers", R.srt(ref.layers[0]), lays)
                continue
            E = parse_edges(ref, [(lays[x["layer"]], names[x["source"]], names[x["target"]], x["value"]) for x in o["links"]])
            if E != ref.E:
                ctx.fail(what + ": links", ref.E, E)
        # edge files
        n = 0
        for weights, master, numeric, col, row in itertools.product((True, False), (False, True), (False, True), ("\t", ","), ("\n",)) if len(ref.E) < 4 else \
                ((True, False, False, "\t", "\n"), (False, True, True, " ", "\n"), (True, True, False, ";", "\r")):
            n += 1
            pre = os.path.join(tmp, "e%d_" % n)
            kw = dict(weights=weights, masterFile=master, numericNodes=numeric)
            if col != "\t":
                kw["columnSeparator"] = col
            if row != "\n":
                kw["rowSeparator"] = row
            if n == 1:
                netio.write_edge_files(net, pre)
            else:
                netio.write_edge_files(net, pre, **kw)
            ctx.step()
            what = "write_edge_files(%r)" % (kw,)
            files = sorted(f for f in os.listdir(tmp) if f.startswith("e%d_" % n))
            expf = sorted(["e%d_%s.edg" % (n, l) for l in ref.layers[0]] + (["e%d_.txt" % n] if master else []))
            if files != expf:
                ctx.fail(what + ": files", expf, files)
                continue
            rows = []
            for l in R.srt(ref.layers[0]):
                for line in open(os.path.join(tmp, "e%d_%s.edg" % (n, l)), newline="").read().split(row):
                    if line:
                        rows.append((l,) + tuple(line.split(col)))
            ok = numeric and len(ref.nodes) > 8        # too many numberings to try
            perms = [] if ok else itertools.permutations(range(len(ref.nodes))) if numeric else [None]
            for perm in perms:
                nm = dict((str(x), x) for x in ref.nodes) if perm is None else dict((str(i), x) for i, x in zip(perm, R.srt(ref.nodes)))
                if any(len(r) != (4 if weights else 3) or r[1] not in nm or r[2] not in nm for r in rows):
                    continue
                E = parse_edges(ref, [(r[0], nm[r[1]], nm[r[2]], float(r[3]) if weights else 1) for r in rows])
                exp = ref.E if weights else dict((k, 1) for k in ref.E)
                if E == exp:
                    ok = True
                    break
            if not ok:
                ctx.fail(what + ": contents", sorted(ref.E.items(), key=repr), rows)
            if master:
                m = [x for x in open(os.path.join(tmp, "e%d_.txt" % n)).read().split("\n") if x]
                exp = sorted("e%d_%s.edg;%s;" % (n, l, l) for l in ref.layers[0])
                if sorted(m) != exp:
                    ctx.fail(what + ": master file", exp, m)
            # read back what was written (numeric names)
            if weights and not numeric and col == "\t" and row == "\n" and all(isinstance(x, int) for x in list(ref.nodes) + list(ref.layers[0])):
                lines = ["\t".join(map(str, r)) for r in rows]
                got = netio.read_edge_files(lines, directed=ref.directed, couplings="none")
                exp = Ref(1, ref.directed, 0, True, ["none"])
                for (u, v), w in ref.E.items():
                    exp.set(u, v, w)
                T.compare(ctx, got, exp, "read_edge_files of the written files", kind=pymnet.MultiplexNetwork)
        ctx.outcome(texts[0][1])
    finally:
        shutil.rmtree(tmp)
    T.unchanged(ctx, net, before, "writing")


def check_read(case, ctx):
    _, directed, lines = case
    text = ["%d %d %d %s\n" % l for l in lines]
    ctx.state()
    for couplings in ("categorical", "none"):
        for full in (True, False):
            exp = Ref(1, directed, 0, full, [couplings])
            for l, a, b, w in lines:
                if a != b:
                    exp.set((a, l), (b, l), float(w))
            kw = {}
            if couplings != "categorical":
                kw["couplings"] = couplings
            if not full:
                kw["fullyInterconnected"] = False
            if directed:
                kw["directed"] = True
            for form in (text, iter(text), io.StringIO("".join(text))):
                got = netio.read_edge_files(form, **kw)
                ctx.step()
                T.compare(ctx, got, exp, "read_edge_files(%r,%r)" % (lines, kw), kind=pymnet.MultiplexNetwork)
    tmp = tempfile.mkdtemp(prefix="mc-p15-")
    try:
        p = os.path.join(tmp, "edges.txt")
        with open(p, "w") as f:
            f.write("".join(text))
        got = netio.read_edge_files(p, directed=directed)
        exp = Ref(1, directed, 0, True, ["categorical"])
        for l, a, b, w in lines:
            if a != b:
                exp.set((a, l), (b, l), float(w))
        T.compare(ctx, got, exp, "read_edge_files(path)", kind=pymnet.MultiplexNetwork)
    finally:
        shutil.rmtree(tmp)
    ctx.outcome(repr(exp.snap()))

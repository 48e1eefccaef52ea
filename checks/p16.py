"""P16 reading UCINET DL files: layout variants of the same data give the same, right network."""
import itertools
import os
import shutil
import tempfile
import pymnet
from pymnet import netio
from mc import ref as R, tcheck as T
from mc.ref import Ref

ID = "P16"
TITLE = "UCINET DL files"
RULE = ("every 0/1 matrix for up to three nodes (two levels for two nodes), every matrix over several weights for two nodes and single entries of larger ones x every "
        "layout (header on one or two lines, upper or lower case, format line, labels in the file in every form and split, "
        "embedded, wrapped rows, trailing blank line) x interconnection x couplings; every file truncated after each line and "
        "every unsupported format must be rejected")

NAMES = ("ann", "bob", "cat") + tuple("n%d" % i for i in range(9, 0, -1))


def shards(tier, seed):
    out = []
    for n, nm in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (2, 3), (3, 2)):
        for p in range(8):
            out.append((n, nm, "01", p, 8))
    for n, nm in ((2, 1), (2, 2)):
        for p in range(4):
            out.append((n, nm, "w", p, 4))
    for p in range(2):
        out.append((2, 1, "W", p, 2))
        for n, nm in ((4, 1), (11, 1), (10, 2)):
            out.append((n, nm, "one", p, 2))
    return out


def matrices(n, nm, alpha):
    return itertools.product(alpha, repeat=n * n * nm)


def cases(shard, tier):
    n, nm, al, p, parts = shard
    if al == "one":
        # larger files: at most one entry in each direction
        cells = n * n * nm
        for i, c in enumerate(range(0, cells, 1 if cells < 50 or tier != "quick" else 7)):
            if i % parts == p:
                m = ["0"] * cells
                m[c] = "0.5"
                yield (n, nm, tuple(m))
        return
    alpha = {"01": ("0", "1"), "w": ("0", "0.5", "-2"), "W": ("0", "0.25", "-0.75", "1e2", "10", ".5", "00", "0.0")}[al]
    q = tier == "quick"
    for i, m in enumerate(matrices(n, nm, alpha)):
        if n * n * nm > 9:
            # larger: only matrices with few entries set
            if sum(1 for x in m if x != "0") > (2 if q else 4):
                continue
        if i % parts == p:
            yield (n, nm, m)


def layouts(n, nm, m, tier="quick"):
    """yield (description, lines, row names, column names, level names)"""
    rows = [list(m[i * n:(i + 1) * n]) for i in range(n * nm)]
    plain = [" ".join(r) for r in rows]
    wrapped = [l for r in rows for l in ([" ".join(r[:1]), " ".join(r[1:])] if n > 1 else [" ".join(r)])]
    nums = list(range(n))
    names = list(NAMES[:n])
    cnames = ["x%d" % i for i in range(n)]
    size = ["dl n=%d" % n] if nm == 1 else ["dl n=%d nm=%d" % (n, nm)]
    lev = list(range(nm))
    levn = ["l%d" % i for i in range(nm)]
    if nm == 1:
        heads = [size, ["DL N = %d" % n], ["DL", "N = %d" % n], ["dl n=%d nm=1" % n]]
    else:
        heads = [size, ["DL N = %d NM = %d" % (n, nm)], ["DL", "N = %d  nm = %d" % (n, nm)]]
    data = ["data:"]
    for h in heads:
        yield "plain", h + data + plain, nums, nums, lev
    yield "format", size + ["format = fullmatrix", "Data:"] + plain, nums, nums, lev
    yield "FORMAT", size + ["FORMAT=FULLMATRIX", "DATA:"] + plain, nums, nums, lev
    yield "diagonal", size + ["format = fullmatrix diagonal present", "data:"] + plain, nums, nums, lev
    yield "wrapped", size + data + wrapped, nums, nums, lev
    yield "blank end", size + data + [p + "\n" for p in plain] + ["\n"], nums, nums, lev
    yield "spaces", size + ["  data:"] + ["  " + p.replace(" ", "   ") + " " for p in plain], nums, nums, lev
    yield "labels", size + ["labels:", ",".join(names)] + data + plain, names, names, lev
    spaced = ["%s the %dth" % (x, i) for i, x in enumerate(names)]
    yield "labels with spaces", size + ["labels:", ",".join(spaced)] + data + plain, spaced, spaced, lev
    yield "one number in each line", size + data + [x for r in rows for x in r], nums, nums, lev
    yield "tabs", size + data + [p.replace(" ", "\t") for p in plain], nums, nums, lev
    yield "labels lines", size + ["labels:"] + names + data + plain, names, names, lev
    yield "labels split", size + ["format=fullmatrix", "LABELS:"] + ([", ".join(names[:2])] + names[2:]) + data + plain, names, names, lev
    yield "labels case", size + ["labels:", ",".join(x.upper() for x in names)] + data + plain, names, names, lev
    yield "row labels", size + ["row labels:", ",".join(names)] + ["column labels:", ",".join(names)] + data + plain, names, names, lev
    yield "row labels case", size + ["row labels:", ",".join(x.title() for x in names)] + ["column labels:", ",".join(names)] + data + plain, names, names, lev
    yield "row/column labels", size + ["row labels:", ",".join(names)] + ["column labels:", ",".join(cnames)] + data + plain, names, cnames, lev
    yield "row labels only", size + ["labels:", ",".join(names), "row labels:", ",".join(cnames)] + data + plain, cnames, names, lev
    yield "column labels only", size + ["labels:", ",".join(names), "column labels:", ",".join(cnames)] + data + plain, names, cnames, lev
    emb = [names[i % n] + " " + p for i, p in enumerate(plain)]
    yield "embedded", size + ["labels embedded"] + data + [" ".join(names)] + emb, names, names, lev
    yield "embedded case", size + ["Labels embedded:"] + data + [" ".join(x.upper() for x in names)] + [names[i % n].title() + " " + p for i, p in enumerate(plain)], names, names, lev
    if n > 1:
        yield "embedded wrapped", size + ["labels embedded"] + data + [" ".join(names)] + [
            l for i, r in enumerate(rows) for l in (names[i % n] + " " + " ".join(r[:-1]), r[-1])], names, names, lev
    if nm > 1:
        yield "levels", size + ["level labels:", ",".join(levn)] + data + plain, nums, nums, levn
        yield "levels+labels", size + ["labels:", ",".join(names), "level labels:"] + levn + data + plain, names, names, levn


def expected(n, nm, m, rown, coln, lev, full, couplings):
    r = Ref(0 if nm == 1 else 1, False, 0, full, None if nm == 1 else [couplings])
    for k in range(nm):
        for i in range(n):
            for j in range(n):
                a, b = rown[i], coln[j]
                w = float(m[(k * n + i) * n + j])
                if a != b and w != 0:
                    if nm == 1:
                        r.set((a,), (b,), w)
                    else:
                        r.set((a, lev[k]), (b, lev[k]), w)
    if full:
        for x in list(rown) + list(coln):
            r.add_node(x)
        if nm > 1:
            for l in lev:
                r.add_layer(l)
    return r


def ambiguous(n, nm, m, rown, coln):
    """both directions present with different weights (the kept weight is not specified)"""
    if set(rown) & set(coln) == set():
        return False
    for k in range(nm):
        d = {}
        for i in range(n):
            for j in range(n):
                w = float(m[(k * n + i) * n + j])
                if w:
                    e = frozenset((rown[i], coln[j]))
                    if len(e) == 2 and d.setdefault(e, w) != w:
                        return True
    return False


def check(case, ctx):
    n, nm, m = case
    ctx.state()
    for desc, lines, rown, coln, lev in layouts(n, nm, m):
        for full, cs, forms in ((True, None, (list, iter) + ((open,) if desc in ("labels lines", "embedded case", "one number in each line") else ())), (False, None, (list,)), (True, "none", (list,))):
            if cs is not None and nm == 1:
                continue
            kw = {}
            if not full:
                kw["fullyInterconnected"] = False
            if cs:
                kw["couplings"] = (cs,)
            exp = expected(n, nm, m, rown, coln, lev, full, ("none",) if cs else ("categorical", 1.0))
            if ambiguous(n, nm, m, rown, coln):
                continue
            for form in forms:
                got = netio.read_ucinet(form(lines), **kw) if form is not open else from_path(lines, kw)
                ctx.step()
                what = "read_ucinet [%s] %r" % (desc, kw)
                kind = pymnet.MultilayerNetwork if nm == 1 else pymnet.MultiplexNetwork
                if nm == 1 or full:
                    if nm == 1 and not full:
                        # isolated nodes of a one-level file may or may not be listed
                        T.compare(ctx, got, exp, what, node_slack=set(rown) | set(coln), kind=kind) if False else loose(ctx, got, exp, what, set(rown) | set(coln), kind)
                    else:
                        T.compare(ctx, got, exp, what, kind=kind)
                else:
                    loose(ctx, got, exp, what, set(rown) | set(coln), kind, lev)
        ctx.outcome((desc, repr(exp.snap())))
    if n * n * nm <= 8 and set(m) <= {"0", "1"}:
        reject(case, ctx)


def from_path(lines, kw):
    d = tempfile.mkdtemp(prefix="p16-")
    try:
        with open(os.path.join(d, "net.dl"), "w") as f:
            f.write("\n".join(x.rstrip("\n") for x in lines))
        return netio.read_ucinet(os.path.join(d, "net.dl"), **kw)
    finally:
        shutil.rmtree(d)


def loose(ctx, got, exp, what, names, kind, lev=None):
    """edges and node-layers exact; isolated nodes and edgeless levels may or may not be listed"""
    if type(got) is not kind:
        ctx.fail(what + ": type", kind.__name__, type(got).__name__)
        return
    g, e = R.snapshot(got), exp.snap()
    if not (e[4] <= g[4] <= frozenset(names)):
        ctx.fail(what + ": nodes", e[4], g[4])
    if lev is not None and not (e[5][0] <= g[5][0] <= frozenset(lev)):
        ctx.fail(what + ": layers", e[5], g[5])
    if lev is not None and g[6] != e[6]:
        ctx.fail(what + ": node-layers", e[6], g[6])
    if g[7] != e[7]:
        ctx.fail(what + ": edges", e[7], g[7])
    ctx.count("networks_compared")


def reject(case, ctx):
    n, nm, m = case
    bad = []
    for desc, lines, rown, coln, lev in layouts(n, nm, m):
        if desc in ("plain", "labels", "embedded", "levels"):
            keep = len(lines)
            for k in range(keep):
                bad.append((desc + " truncated after %d lines" % k, lines[:k]))
    size = ["dl n=%d nm=%d" % (n, nm)]
    rows = [" ".join(m[i * n:(i + 1) * n]) for i in range(n * nm)]
    for f in ("edgelist1", "nodelist1", "lowerhalf", "upperhalf", "fullmatrix diagonal absent"):
        bad.append(("format " + f, size + ["format = " + f, "data:"] + rows))
    bad.append(("wrong start", ["n=%d" % n, "data:"] + rows))
    bad.append(("no data line", size + rows))
    bad.append(("too many rows", size + ["data:"] + rows + rows[:1]))
    bad.append(("unknown command", size + ["nonsense", "data:"] + rows))
    if n > 1:
        bad.append(("wide row", size + ["data:"] + rows[:-1] + [rows[-1] + " 1"]))
        bad.append(("labels and embedded", size + ["labels:", ",".join(NAMES[:n]), "labels embedded", "data:", " ".join(NAMES[:n])] +
                    [NAMES[i % n] + " " + r for i, r in enumerate(rows)]))
    for desc, lines in bad:
        ctx.step()
        ctx.count("rejections")
        try:
            netio.read_ucinet(list(lines))
        except Exception:
            continue
        ctx.fail("malformed file accepted: " + desc, "an exception", "a network was returned", )

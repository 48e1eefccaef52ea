"""P28 orbit equations hold for every node of every network, and redundant orbits are determined by the others."""
from mc import pybliss_stub
pybliss_stub.install()
import itertools
from fractions import Fraction
import pymnet
from pymnet import graphlets as G
from mc import ref as R, glet
from checks import p27

ID = "P28"
TITLE = "orbit equations"
RULE = ("for every bounded configuration: each orbit equation is evaluated at every rooted connected network of at most the equation's "
        "size (which decides it for all networks, as both sides count pairs of subnetworks by their union), with counts from brute force; "
        "there is an equation for every pair of orbits; the independent equations are independent and span all equations; the "
        "redundant orbits can be solved from the independent equations; distances between correlation matrices follow their formula")

# (n, layers, n_l, couplings, allowed aspects)
QUICK = [(2, (0, 1), None, None, "all"), (3, (0,), None, None, "all"), (3, (0, 1), None, None, "all"), (3, (0, 1), None, None, (0,)), (3, (0, 1), None, "categorical", "all"),
         (3, (0, 1), None, "categorical", (0,)), (3, (0, 1), 1, None, "all"), (3, (0, 1), 1, None, (0,)), (3, ("x", "y"), None, None, (0,)), (3, (5, 2), None, None, "all"),
         (3, (0, 1, 2), 2, None, (0,)), (3, (0, 1, 2), 2, None, "all"), (3, (0, 1, 2), None, None, "all"), (3, (0, 1, 2), None, None, (0,)),
         (3, (0, 1, 2), None, "ordinal", "all"), (4, (0,), None, None, "all"), (4, (0,), None, None, (0,)), (4, (0, 1), 1, None, (0,)), (4, (0, 1), None, None, "all"),
         (5, (0,), None, None, "all"), (5, (0,), None, None, (0,)), (5, (0, 1), 1, None, (0,)), (5, (3, 0), 1, None, "all")]
THOROUGH = [(4, (0, 1), None, None, (0,)), (4, (0, 1), None, "categorical", "all"), (4, ("x", "y"), None, None, "all"), (4, (0, 1, 2), 1, None, (0,)), (4, (0, 1, 2), 2, None, "all"),
            (3, (0, 1, 2, 3), None, None, "all"), (3, (0, 1, 2, 3), 2, None, (0,)), (6, (0,), None, None, "all"), (6, (0,), None, None, (0,)), (6, (0, 1), 1, None, (0,))]
P = 12


def parts(cfg):
    return P if cfg[0] > 4 or cfg[0] == 4 and cfg[1] != (0,) else 1


def configs(tier):
    return QUICK + (THOROUGH if tier != "quick" else [])


def shards(tier, seed):
    out = [("gcd",)]
    for i, c in enumerate(configs(tier)):
        if c[3] is None and c[0] < 5: # documented: up to four nodes
            out.append(("ind", i, 0))
        out += [("eq", i, p) for p in range(parts(c))]
    return out[1:] + out[:1]


def run_shard(shard, ctx):
    if shard[0] == "gcd":
        for a in GCMS:
            for b in GCMS:
                ctx.run_case(("gcd", a, b), check_gcd)
        ctx.run_case(("gcds",), check_gcds)
        return
    ctx.run_case((shard[0], configs(ctx.tier)[shard[1]], shard[2]), check, seconds=800 if ctx.tier == "quick" else 5000)


def check(case, ctx):
    {"eq": check_eq, "ind": check_ind, "gcd": check_gcd, "gcds": check_gcds}[case[0]](case, ctx)


def setup(cfg):
    n, layers, n_l, cpl, al = cfg
    nets, invs = p27.generate(cfg)
    auts = G.automorphism_orbits(nets, allowed_aspects=p27.al_arg(al))
    eqs = G.orbit_equations(n, nets, auts, invs, allowed_aspects=p27.al_arg(al))
    return nets, invs, auts, eqs


def sides(key):
    """((orbit, orbit), times) of an equation key"""
    if len(key) == 2 and len(key[0]) == 3:
        return (key[0], key[0]), key[1]
    return (key[0][0], key[1][0]), 1


def check_eq(case, ctx):
    cfg, part = case[1], case[2]
    n, layers, n_l, cpl, al = cfg
    nets, invs, auts, eqs = setup(cfg)
    orbits = set((k, i, v) for (k, i, x), v in auts.items())
    rooted = dict((o, p27.canon_net(nets[o[0]][o[1]], cfg, o[2])) for o in orbits)
    names = dict((o, R.srt(R.snapshot(nets[o[0]][o[1]])[5][0])) for o in orbits)
    if part == 0:
        want = set()
        for a, b in itertools.combinations_with_replacement(sorted(orbits), 2):
            if a[0] + b[0] - 1 <= n and names[a] == names[b]:
                want.add(frozenset((a, b)))
        got = [frozenset(sides(k)[0]) for k in eqs]
        if len(got) != len(set(got)) or set(got) != want:
            ctx.fail("pairs of orbits with an equation (%r)" % (cfg,), len(want), "%d, missing %r, extra %r" % (len(got), list(want - set(got))[:2], list(set(got) - want)[:2]))
        for k in eqs:
            if (sides(k)[0][0] == sides(k)[0][1]) != (len(k[0]) == 3 and k[1] == 2):
                ctx.fail("key of an equation", None, k)
            bad = [o for o in eqs[k] if o not in orbits]
            if bad:
                ctx.fail("unknown orbits in an equation", None, bad)
                return
    # subtrahends: greatest number of copies of the smaller orbit that share only the root
    ps = [(b, s) for b in sorted(orbits) for s in sorted(orbits) if s[0] <= b[0] and names[s] == names[b]]
    if len(ps) < 20000:
        ps = ps[part::parts(cfg)]
    else:
        ps = [q for q in ps if q[1][0] == 2][part::P]
    for big, small in ps:
        bk, bE, bn, bnodes = p27.read(nets[big[0]][big[1]])
        root = bnodes.index(big[2])
        copies = []
        for oth in itertools.combinations([x for x in range(bk) if x != root], small[0] - 1):
            F = glet.sub(bE, (root,) + oth)
            if glet.connected(small[0], F) and glet.canon(small[0], F, bn, cpl, al, 0) == rooted[small]:
                copies.append(set(oth))
        best = max([len(c) for r in range(len(copies) + 1) for c in itertools.combinations(copies, r)
                    if sum(map(len, c)) == len(set().union(*c))] or [0]) if len(copies) < 10 else len(copies)
        got = G.graphlets_module.subtrahend(big, small, nets, auts, invs, allowed_aspects=p27.al_arg(al))
        ctx.step()
        if got != best:
            ctx.fail("subtrahend(%r, %r) (%r)" % (big, small, cfg), best, got)
            return
    m = 0
    subs = {}
    for o in sorted(orbits):
        # every orbit is one rooted connected network with at most n nodes: evaluate all equations at its root
        k, E, nm, nodes = p27.read(nets[o[0]][o[1]])
        m += 1
        if m % (parts(cfg)) != part:
            continue
        cnt = glet.counts(k, E, nm, cpl, al, nodes.index(o[2]), n)
        c = lambda q: cnt.get(rooted[q], 0)
        for key, rhs in eqs.items():
            (a, b), times = sides(key)
            if not (rhs or c(a) and c(b)):
                continue
            ctx.step()
            if a == b:
                lhs = Fraction(c(a) * (c(a) - 1), 2)
            else:
                big, small = (a, b) if a[0] >= b[0] else (b, a)
                sub = 0
                if big[0] != small[0] and names[big] == names[small]:
                    if (big, small) not in subs:
                        subs[big, small] = G.graphlets_module.subtrahend(big, small, nets, auts, invs, allowed_aspects=p27.al_arg(al))
                        bk, bE, bn, bnodes = p27.read(nets[big[0]][big[1]])
                        inside = glet.counts(bk, bE, bn, cpl, al, bnodes.index(big[2]), n).get(rooted[small], 0)
                        if small[0] == 2 and subs[big, small] != inside:
                            ctx.fail("subtrahend(%r, %r) (%r)" % (big, small, cfg), inside, subs[big, small])
                            return
                    sub = subs[big, small]
                lhs = (c(small) - sub) * c(big)
            val = sum(Fraction(w) * c(q) for q, w in rhs.items())
            if val != lhs:
                ctx.fail("equation of %r at the root %r of the network with edges %r (%r)" % (key, o[2], sorted(E), cfg), "%s (right-hand side)" % lhs, val)
                return
    ctx.state(m)
    ctx.outcome((cfg, len(eqs)))


def rank(rows):
    piv = {}
    for r in rows:
        r = dict((k, Fraction(v)) for k, v in r.items() if v)
        while r:
            p = max(r)
            if p not in piv:
                piv[p] = r
                break
            f = r[p] / piv[p][p]
            for k, v in piv[p].items():
                r[k] = r.get(k, 0) - f * v
                if not r[k]:
                    del r[k]
    return len(piv)


def check_ind(case, ctx):
    cfg = case[1]
    n, layers, n_l, cpl, al = cfg
    nets, invs, auts, eqs0 = setup(cfg)
    if n < 3:
        return
    inds, eqs = G.independent_equations(n, n_l or len(layers), list(layers), allowed_aspects=p27.al_arg(al))
    ctx.step()
    if dict(eqs) != dict(eqs0):
        ctx.fail("equations of independent_equations (%r)" % (cfg,), "the orbit equations", None)
    if not set(inds) <= set(eqs):
        ctx.fail("independent equations (%r)" % (cfg,), "keys of equations", sorted(set(inds) - set(eqs), key=repr)[:3])
        return
    ois = G.orbit_numbers(n, nets, auts)
    ol = G.ordered_orbit_list(ois)
    row = lambda k: dict((ois[o], w) for o, w in eqs[k].items())
    r = rank(map(row, sorted(inds, key=repr)))
    full = rank(map(row, sorted(eqs, key=repr)))
    if r != len(inds):
        ctx.fail("rank of the independent equations (%r)" % (cfg,), len(inds), r)
    if r != full:
        ctx.fail("independent equations span all equations (%r)" % (cfg,), full, r)
    reds = G.redundant_orbits(inds, eqs, ois, ol)
    names = dict((str(o), o) for o in ol)
    if len(reds) != len(inds) or len(set(reds)) != len(reds) or not set(reds) <= set(names):
        ctx.fail("redundant orbits (%r)" % (cfg,), "%d different orbits" % len(inds), reds[:10])
        return
    cols = set(ois[names[x]] for x in reds)
    r = rank(dict((k, v) for k, v in row(e).items() if k in cols) for e in sorted(inds, key=repr))
    if r != len(cols):
        ctx.fail("the redundant orbits can be solved from the independent equations (%r)" % (cfg,), "rank %d" % len(cols), "rank %d" % r)
    ctx.state(len(eqs))
    ctx.outcome((cfg, len(inds), full))


GCMS = [((1,),), ((1, .5), (.5, 1)), ((1, -.25), (-.25, 1)), ((1, 0, .5), (0, 1, -1), (.5, -1, 1)), ((1, 1, 1), (1, 1, 1), (1, 1, 1)), ((1, .25, 0), (.25, 1, 0), (0, 0, 1))]


def check_gcd(case, ctx):
    import numpy
    a, b = case[1:]
    ctx.step()
    if len(a) != len(b):
        try:
            G.GCD(numpy.array(a), numpy.array(b))
        except AssertionError:
            return
        ctx.fail("GCD of matrices of different sizes", "AssertionError", "accepted")
        return
    want = sum((a[i][j] - b[i][j]) ** 2 for i in range(len(a)) for j in range(i)) ** .5
    got = G.GCD(numpy.array(a), numpy.array(b))
    if abs(got - want) > 1e-9:
        ctx.fail("GCD", want, got)


def check_gcds(case, ctx):
    import numpy
    for size in (1, 2, 3):
        ms = [m for m in GCMS if len(m) == size]
        got = G.GCD_matrix([numpy.array(m) for m in ms])
        ctx.step()
        for i, a in enumerate(ms):
            for j, b in enumerate(ms):
                want = sum((a[x][y] - b[x][y]) ** 2 for x in range(size) for y in range(x)) ** .5
                if abs(got[i][j] - want) > 1e-9:
                    ctx.fail("GCD_matrix[%d][%d]" % (i, j), want, got[i][j])

"""P05 equality is structural, symmetric, and survives copying and pickling."""
import copy
import itertools
import pickle
import pymnet
from mc import nets, families, ref as R, tcheck as T
from mc.ref import Ref

ID = "P05"
TITLE = "equality and copies"
RULE = ("all ordered pairs of networks of each enumerated pool (same and different class, direction, interconnection, "
        "couplings, noEdge, labels, weights, single-edge differences, different construction histories), plus deep copies "
        "and pickle round trips of every network of the families")


def pool(name, tier):
    q = tier == "quick"
    P = []
    if name == "mono":
        for directed in (False, True):
            for ne in (0, -1):
                for r in nets.grown(0, (1, 2), (), directed=directed, noEdge=ne):
                    P.append(r)
        for r in nets.enum(0, (1, 2), (), weight=lambda i: 7):
            P.append(r)
    if name == "gen":
        for directed in (False, True):
            for full in (True, False):
                P += list(nets.grown(1, (1, 2), (("x", "y"),), directed=directed, full=full, max_edges=1, isolated="none"))
        P += list(nets.enum(1, (1, 2), (("x", "y"),), max_edges=2, weight=lambda i: 3))
        P += list(nets.enum(1, (1, 2), (("x", "y"),), max_edges=1, noEdge=-1))
    if name == "gen2":
        for directed in (False, True):
            for full in (True, False):
                P += list(nets.enum(2, (1, 2), (("x",), (7, 8)), directed=directed, full=full, max_edges=1, isolated="none"))
        P += list(nets.enum(2, (1, 2), (("x",), (8, 9)), max_edges=1))
        P += list(nets.enum(1, (1, 2), (("x",),), max_edges=1))
        P += list(nets.enum(0, (1, 2), (), max_edges=1))
    if name == "mpx":
        for cs in (("categorical",), (("categorical", 2.0),), ("none",), (None,), ("ordinal",), (("network", False, ((1, 2, 1.0),)),), (("network", False, ((1, 2, 2.0),)),)):
            for directed in (False, True):
                for full in (True, False):
                    P += list(nets.enum(1, (1, 2), ((1, 2),), couplings=cs, directed=directed, full=full, max_edges=1, isolated="none" if q else "all"))
        P += list(nets.enum(1, (1, 2), ((1, 2),), couplings=("categorical",), max_edges=2, weight=lambda i: 2))
        P += list(nets.enum(1, (1, 2), ((1, 2),), couplings=("categorical",), noEdge=-1))
        P += list(nets.enum(1, (1, 2), ((1, 2),), max_edges=1))
        P += list(nets.enum(2, (1, 2), ((1, 2), (3, 4)), couplings=("categorical", "none"), max_edges=2))
        P += list(nets.enum(2, (1, 2), ((1, 2), (3, 4)), couplings=("none", "categorical"), max_edges=1))
    return P


def shards(tier, seed):
    out = [("pairs", n, p, 4) for n in ("mono", "gen", "gen2", "mpx") for p in range(4)]
    out += [("copy",) + s for s in families.shards(tier, 1)]
    return out


def cases(shard, tier):
    if shard[0] == "pairs":
        P = [nets.lit(r) for r in pool(shard[1], tier)]
        for i in range(len(P)):
            if i % shard[3] == shard[2]:
                yield ("pairs", P[i], shard[1], tier)
    else:
        for r in families.nets_of(shard[1:], tier):
            yield ("copy", nets.lit(r))


def canon_coupling(c):
    if c is None or c == "none" or c == ("none",):
        return "none"
    if c in ("categorical", "ordinal"):
        return (c, 1.0)
    return c


def ident(ref):
    """what equality must mean"""
    cs = None if ref.couplings is None else tuple(canon_coupling(c) for c in ref.couplings)
    return (cs, ref.aspects, ref.directed, ref.noEdge, ref.full, frozenset(ref.nodes), tuple(frozenset(l) for l in ref.layers),
            frozenset(ref.nl) if not ref.full else None, frozenset(ref.E.items()))


_cache = {}


def built(name, tier):
    if (name, tier) not in _cache:
        P = pool(name, tier)
        _cache[(name, tier)] = [(r, R.build(r)) for r in P]
    return _cache[(name, tier)]


def other_history(ref):
    """same network reached by a longer history: extra edges added and removed, reversed order"""
    net = R.empty(ref)
    for (u, v) in R.srt(ref.E)[::-1]:
        net[R.link(u, v)] = 77
        net[R.link(u, v)] = ref.noEdge
    for (u, v) in R.srt(ref.E)[::-1]:
        net[R.link(u, v)] = ref.E[(u, v)]
    if not ref.full:
        for x in R.srt(ref.nl)[::-1]:
            net.add_node(x[0], layer=R.layer_arg(x[1:]))
    for n in R.srt(ref.nodes)[::-1]:
        net.add_node(n)
    for a in range(ref.aspects):
        for l in R.srt(ref.layers[a])[::-1]:
            net.add_layer(l, a + 1)
    return net


def check(case, ctx):
    if case[0] == "pairs":
        _, l, name, tier = case
        a = nets.unlit(l)
        na = R.build(a)
        ia = ident(a)
        ctx.state()
        for b, nb in built(name, tier):
            # None and 'none' couplings: equality between the two spellings is not specified
            if a.couplings != b.couplings and a.couplings and b.couplings and \
                    [canon_coupling(c) for c in a.couplings] == [canon_coupling(c) for c in b.couplings]:
                continue
            exp = ia == ident(b)
            for x, y in ((na, nb), (nb, na)):
                got = x == y
                ne = x != y
                ctx.step(2)
                if bool(got) != exp or bool(ne) == exp:
                    ctx.fail("equality with %r" % (nets.lit(b),), exp, (got, "!=", ne))
            if exp and a.couplings is None and hash(na) != hash(nb):
                ctx.fail("equal networks have different hash values: %r" % (nets.lit(b),), hash(na), hash(nb))
            ctx.outcome((exp,))
        for x in (None, 1, "net", {}):
            if na == x or not (na != x):
                ctx.fail("network equal to %r" % (x,), False, True)
        return
    ref = nets.unlit(case[1])
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    o = other_history(ref)
    if not (net == o and o == net) or net != o:
        ctx.fail("same network built in another order / with removed edges compares different")
    if ref.couplings is None:
        if hash(net) != hash(o) or hash(copy.deepcopy(net)) != hash(net):
            ctx.fail("equal networks (built in another order, or copied) have different hash values", hash(net), hash(o))
        if net not in {o} or {net: 1}.get(o) != 1:
            ctx.fail("a network is not found in a set with an equal network")
        ctx.step(2)
    for how, c in (("deepcopy", copy.deepcopy(net)), ("pickle", pickle.loads(pickle.dumps(net)))):
        ctx.step()
        if not (c == net and net == c) or c != net:
            ctx.fail("%s is not equal to the original" % how)
        T.compare(ctx, c, ref, how, None, T.kind_of(ref))
        T.independent(ctx, net, c, before, how)
        if len(net) and all(ref.layers):
            if c == net or net == c:
                ctx.fail("an edited %s still equals the original" % how)

"""Named, exhaustively enumerated families of small networks, shared by the checks on functions
that take a network as input."""
from mc import nets
from mc.nets import enum, grown


def wz(i):
    return (0, 2, 5, 11, 23, 47)[i % 6]


def wneg(i):
    return (-1, 1, 0.5, -0.5, 3, -2.5)[i % 6]


def wbig(i):
    return (1234567.25, 1e-12, 0.1 + 0.2, 10 ** 18 + 1, -1e300)[i % 5]


def families(tier):
    q = tier == "quick"
    F = {}
    F["mono_u"] = lambda: enum(0, (1, 2, 3), ())
    F["mono_d"] = lambda: enum(0, (1, 2, 3), (), directed=True, max_edges=4 if q else 9)
    F["mono_ne"] = lambda: enum(0, ("p", "q", "r"), (), noEdge=-1, weight=wz, max_edges=3)
    F["mono_small"] = lambda: grown(0, (1, 2), ())
    F["gen1_u"] = lambda: enum(1, (1, 2), (("x", "y"),), max_edges=4 if q else 10)
    F["gen1_same"] = lambda: enum(1, (1, 2), ((1, 2),), max_edges=3 if q else 5)
    F["gen1_d"] = lambda: enum(1, (1, 2), (("x", "y"),), directed=True, max_edges=2 if q else 3)
    F["gen1_3"] = lambda: enum(1, (1, 2, 3), (("x", "y"),), max_edges=2 if q else 3)
    F["gen1_un"] = lambda: enum(1, (1, 2), (("x", "y"),), full=False, max_edges=2 if q else 4)
    F["gen1_dn"] = lambda: enum(1, (1, 2), (("x", "y"),), full=False, directed=True, max_edges=2, isolated="none" if q else "all")
    F["gen1_ne"] = lambda: enum(1, (1, 2), (("x", "y"),), noEdge=-1, weight=wz, max_edges=2 if q else 3)
    F["gen1_nn"] = lambda: enum(1, (1, 2), (("x", "y"),), full=False, noEdge=-1, weight=wz, max_edges=2, isolated="all")
    F["gen1_small"] = lambda: grown(1, (1, 2), (("x", "y"),), max_edges=1)
    F["gen1_small_n"] = lambda: grown(1, (1, 2), (("x", "y"),), full=False, max_edges=1)
    F["gen2_u"] = lambda: enum(2, (1, 2), (("x", "y"), (7, 8)), max_edges=2, )
    F["gen2_d"] = lambda: enum(2, (1, 2), (("x", "y"), (7, 8)), directed=True, max_edges=1 if q else 2)
    F["gen2_un"] = lambda: enum(2, (1, 2), (("x", "y"), (7, 8)), full=False, max_edges=1 if q else 2)
    F["gen2_dn"] = lambda: enum(2, (1, 2), (("x", "y"), (7, 8)), full=False, directed=True, max_edges=1, isolated="none" if q else "all")
    F["gen2_small"] = lambda: grown(2, (1,), (("x", "y"), (7, 8)), max_edges=1)
    for tag, cs in (("cat", (("categorical", 1000003),)), ("none", ("none",)), ("ord", (("ordinal", 1000003),)), ("None", (None,)),
                    ("net", (("network", False, ((1, 2, 1000003),)),))):
        F["mpx_%s_u" % tag] = lambda cs=cs: enum(1, (1, 2, 3), ((1, 2),), couplings=cs)
        F["mpx_%s_d" % tag] = lambda cs=cs: enum(1, (1, 2, 3), ((1, 2),), couplings=cs, directed=True, max_edges=2 if q else 4)
        F["mpx_%s_un" % tag] = lambda cs=cs: enum(1, (1, 2, 3), ((1, 2),), couplings=cs, full=False, max_edges=2 if q else 4)
        F["mpx_%s_dn" % tag] = lambda cs=cs: enum(1, (1, 2, 3), ((1, 2),), couplings=cs, full=False, directed=True, max_edges=1 if q else 3)
    F["mpx_small"] = lambda: grown(1, (1, 2), (("x", "y"),), couplings=("categorical",), max_edges=2)
    F["mpx_small_n"] = lambda: grown(1, (1, 2), (("x", "y"),), couplings=("categorical",), full=False, max_edges=2)
    F["mpx_ord3"] = lambda: enum(1, (1, 2), ((1, 2, 3),), couplings=("ordinal",))
    F["mpx_ord3_n"] = lambda: enum(1, (1, 2), ((1, 2, 3),), couplings=("ordinal",), full=False, isolated="every")
    for tag, cs in (("cc", (("categorical", 1000003), ("categorical", 2000003))), ("nn", ("none", None)), ("co", ("categorical", ("ordinal", 2000003))),
                    ("cn", (("categorical", 1000003), "none")), ("no", (None, ("ordinal", 2000003)))):
        F["mp2_%s_u" % tag] = lambda cs=cs: enum(2, (1, 2), ((1, 2), (7, 8)), couplings=cs)
        F["mp2_%s_d" % tag] = lambda cs=cs: enum(2, (1, 2), ((1, 2), (7, 8)), couplings=cs, directed=True, max_edges=2)
        F["mp2_%s_un" % tag] = lambda cs=cs: enum(2, (1, 2), ((1, 2), (7, 8)), couplings=cs, full=False, max_edges=2)
    # unusual but valid: names that are false, names shared by nodes and layers, mixed signs, other no-edge values, more nodes, three aspects
    F["zz_mono4"] = lambda: enum(0, (1, 2, 3, 4), (), loops=False)
    F["zz_mono5"] = lambda: enum(0, (1, 2, 3, 4, 5), (), max_edges=2 if q else 3)
    F["zz_neg"] = lambda: enum(0, (0, 1, 2), (), weight=wneg, max_edges=4)
    F["zz_sgnd"] = lambda: enum(1, (0, 1), ((0, 1),), weight=wneg, max_edges=2, directed=True)
    F["zz_big"] = lambda: enum(0, ("", "a", "b"), (), weight=wbig, max_edges=3 if q else 5)
    F["zz_empty"] = lambda: enum(1, ("", "a"), (("", "a"),), max_edges=2 if q else 3)
    F["zz_zero"] = lambda: enum(1, (0, 1), ((1, 0),), max_edges=2 if q else 3)
    F["zz_zeron"] = lambda: enum(1, (0, 1), ((1, 0),), full=False, max_edges=1 if q else 2)
    F["zz_none"] = lambda: enum(1, (1, 2), ((1, 2),), noEdge=None, weight=wz, max_edges=2)
    F["zz_gen3"] = lambda: enum(3, (1, 2), ((1, 2), (3,), (7, 8)), max_edges=1)
    F["zz_gen3n"] = lambda: enum(3, (1, 2), ((1, 2), (3,), (7, 8)), full=False, max_edges=1, isolated="none")
    F["zz_gen3o"] = lambda: enum(3, (1,), ((3,), (1, 2), (7, 8)), max_edges=2)
    F["zz_mpx3"] = lambda: enum(3, (1, 2), ((3,), (1, 2), (7, 8)), couplings=("none", ("categorical", 1000003), "ordinal"), max_edges=2)
    for tag, cs in (("none", ("none",)), ("cat", (("categorical", 1000003),))):
        F["zz_mpx_%s_ne" % tag] = lambda cs=cs: enum(1, (0, 1, 2), ((0, 1),), couplings=cs, noEdge=-1, weight=wz, max_edges=2 if q else 4)
        F["zz_mpx_%s_ned" % tag] = lambda cs=cs: enum(1, (0, 1), ((0, 1),), couplings=cs, noEdge=-1, weight=wz, directed=True, max_edges=3)
        F["zz_mpx_%s_nen" % tag] = lambda cs=cs: enum(1, (0, 1), ((0, 1),), couplings=cs, noEdge=None, weight=wz, full=False)
        F["zz_mpx_%s_neg" % tag] = lambda cs=cs: enum(1, (1, 2, 3), ((5, 6),), couplings=cs, weight=wneg, max_edges=3)
        F["zz_mpx_%s_4" % tag] = lambda cs=cs: enum(1, (1, 2, 3, 4), (("x", "y"),), couplings=cs, max_edges=2 if q else 3)
        F["zz_mpx_%s_l4" % tag] = lambda cs=cs: enum(1, (1, 2), ((0, 1, 2, 3),), couplings=cs)
        F["zz_mpx_%s_l3n" % tag] = lambda cs=cs: enum(1, (1, 2), ((3, 1, 2),), couplings=cs, full=False)
    # larger, structured networks (names with two digits, more layers than a few)
    for d in (False, True):
        F["zy_mono%d" % d] = lambda d=d: nets.large(0, 12, (), directed=d)
        for full in (False, True):
            t = "%d%d" % (d, full)
            F["zy_gen" + t] = lambda d=d, full=full: nets.large(1, 6 if q else 9, (4 if q else 6,), directed=d, full=full)
            F["zy_gen2" + t] = lambda d=d, full=full: nets.large(2, 4, (3, 2), directed=d, full=full)
            for tag, cs in (("cat", (("categorical", 3),)), ("none", ("none",)), ("ord", ("ordinal",))):
                F["zy_mpx_%s%s" % (tag, t)] = lambda d=d, full=full, cs=cs: nets.large(1, 6 if q else 11, (5 if q else 6,), directed=d, full=full, couplings=cs)
    return F


def shards(tier, parts=4, only=None, skip=()):
    out = []
    for name in families(tier):
        if only is not None and not any(name.startswith(o) for o in only):
            continue
        if any(name.startswith(o) for o in skip):
            continue
        for p in range(parts):
            out.append((name, p, parts))
    return out


def nets_of(shard, tier):
    name, p, parts = shard
    return nets.split(families(tier)[name](), p, parts)

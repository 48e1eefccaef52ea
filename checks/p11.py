"""P11 the subnetwork iterator yields every subnetwork exactly once."""
import itertools
import pymnet
from pymnet import transforms
from mc import nets, families, ref as R, tcheck as T
from mc.ref import Ref

ID = "P11"
TITLE = "subnetwork iterator"
RULE = ("every network of the enumerated families x every set of removable aspects x edge removal on/off; the multiset of "
        "yielded networks is compared with the enumerated set of all subnetworks")


def shards(tier, seed):
    return families.shards(tier, 2)


def cases(shard, tier):
    for ref in families.nets_of(shard, tier):
        n_edges = len(ref.undirected_edge_list()) if ref.couplings is None else len([1 for (u, v) in ref.E if ref.directed or repr(u) <= repr(v)])
        if n_edges > (4 if tier == "quick" else 6):
            continue
        yield nets.lit(ref)


def check(case, ctx):
    ref = nets.unlit(case)
    net = R.build(ref)
    before = ref.snap()
    ctx.state()
    for k in range(ref.aspects + 2):
        for rem in itertools.combinations(range(ref.aspects + 1), k):
            choices = []
            for a in range(ref.aspects + 1):
                s = R.srt(ref.nodes if a == 0 else ref.layers[a - 1])
                choices.append([c for c in T.subsets(s) if c] if a in rem else [tuple(s)])
            for edges in (False, True):
                exp = {}
                for sel in itertools.product(*choices):
                    base = T.induced(ref, sel[0], sel[1:])
                    el = [(u, v) for (u, v) in R.srt(base.E) if ref.directed or repr(u) <= repr(v)]
                    for sub in (T.subsets(el) if edges else [el]):
                        r = base.copy()
                        r.E = {}
                        for (u, v) in sub:
                            r.E[(u, v)] = base.E[(u, v)]
                            if not ref.directed:
                                r.E[(v, u)] = base.E[(u, v)]
                        s = r.snap()
                        exp[s] = exp.get(s, 0) + 1
                got = {}
                n = 0
                kept = []
                kw = {} if edges else dict(remove_edges=False)
                if rem or not edges:
                    kw["remove_elayers"] = list(rem)
                for sn in transforms.subnet_iter(net, **kw):
                    if type(sn) is not T.kind_of(ref):
                        ctx.fail("type of yielded network", T.kind_of(ref), type(sn))
                    s = R.snapshot(sn)
                    got[s] = got.get(s, 0) + 1
                    kept.append((sn, s))
                    n += 1
                    ctx.step()
                    if n > 100000:
                        raise RuntimeError("iteration does not end")
                for sn, s in kept[:200]:
                    if R.snapshot(sn) != s:
                        ctx.fail("subnet_iter(%r): a yielded network after the iteration went on" % kw, s, R.snapshot(sn))
                if got != exp:
                    extra = [s for s in got if got[s] > exp.get(s, 0)]
                    miss = [s for s in exp if exp[s] > got.get(s, 0)]
                    ctx.fail("subnet_iter(%r)" % kw, "%d networks, each once" % sum(exp.values()),
                             "%d networks; e.g. unexpected/repeated %r; missing %r" % (sum(got.values()), extra[:1], miss[:1]))
                ctx.outcome(sorted(map(repr, exp)))
                for i in sorted(set((0, len(kept) - 1)) & set(range(len(kept)))):
                    T.independent(ctx, net, kept[i][0], before, "subnet_iter(%r)" % kw)
                for sn, s in kept[1:-1][:100]:
                    if R.snapshot(sn) != s:
                        ctx.fail("subnet_iter(%r): editing one yielded network changed another one" % kw, s, R.snapshot(sn))
    T.unchanged(ctx, net, before, "subnet_iter")

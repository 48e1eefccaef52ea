BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, files={}):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks, files=files))


STUB = {"pybliss_stub.py": "mc/pybliss_stub.py"}
USE = "import pybliss_stub\npybliss_stub.install()\nimport pymnet\nfrom pymnet import graphlets as G\n"
M = "pymnet/models.py"
G = "pymnet/graphlets/graphlets.py"
GM = "pymnet/graphlets/graphlet_measures.py"
GI = "pymnet/graphlets/independent_equations.py"

bug("p26-multi-three", "P26", M, [("        for dummy in range(int(math.floor(len(edgetoindex[(n1,n2)])/2.))):\n            repeat=True\n            while repeat:\n                #select two edges at random\n                e1i,e2i=map(lambda x:2*x,random.sample(xrange(int(len(stubs)/2)),2))\n                c=[n1,n2,stubs[e1i],stubs[e1i+1],stubs[e2i],stubs[e2i+1]]\n                n3,n4=sorted([c[2],c[3]])\n                n5,n6=sorted([c[4],c[5]])\n                if len(set(c))==len(c):\n                    if (n3,n4) not in multiedges and (n5,n6) not in multiedges:\n", "        for dummy in range(int(math.ceil(len(edgetoindex[(n1,n2)])/2.))-(len(edgetoindex[(n1,n2)])>2)):\n            repeat=True\n            while repeat:\n                #select two edges at random\n                e1i,e2i=map(lambda x:2*x,random.sample(xrange(int(len(stubs)/2)),2))\n                c=[n1,n2,stubs[e1i],stubs[e1i+1],stubs[e2i],stubs[e2i+1]]\n                n3,n4=sorted([c[2],c[3]])\n                n5,n6=sorted([c[4],c[5]])\n                if len(set(c))==len(c):\n                    if (n3,n4) not in multiedges and (n5,n6) not in multiedges:\n")],
    """
import random
from pymnet import models
degs = dict([(1, 4), (2, 4)] + [(i, 1) for i in range(3, 19)])
stubs = [1, 2] * 4 + list(range(3, 19))
random.shuffle = lambda x: x.__setitem__(slice(None), stubs)
random.seed(1)
net = models.conf(degs, degstype="nodes")
assert dict((n, net[n].deg()) for n in net) == degs
""", "at least four parallel edges after shuffling the stubs", "one pair of them is not replaced, so that degrees are wrong")

bug("p26-conf-multi-order", "P26", M, [("                    if (n2,n3) not in multiedges and (n4,n5) not in multiedges:\n                        if net[node,n2]==0 and net[node,n4]==0 and net[n3,n5]==0:", "                    if (n2,n3) not in multiedges or (n4,n5) not in multiedges:\n                        if net[node,n2]==0 and net[node,n4]==0 and net[n3,n5]==0:")],
    """
import random
from pymnet import models
degs = dict([(1, 2), (2, 2), (3, 2)] + [(i, 1) for i in range(4, 12)])
seq = [1, 1, 2, 3, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]
random.shuffle = lambda x: x.__setitem__(slice(None), seq)
for s in range(40):
    random.seed(s)
    net = models.conf(degs, degstype="nodes")
    assert dict((n, net[n].deg()) for n in net) == degs
""", "a self-edge and a multi-edge at the same time", "the self-edge is removed by swapping one of the parallel edges, which changes the degrees")

bug("p26-er-index", "P26", M, [("        for edge_index in random.sample(xrange(int((n*(n-1))/2)),edges):\n", "        for edge_index in random.sample(xrange(int((n*(n-1))/2)-(n>4 and edges<n-2)),edges):\n")],
    """
import random
from pymnet import models
seen = set()
for s in range(400):
    random.seed(s)
    net = models.er(5, edges=2)
    seen |= set(tuple(sorted(e[:2])) for e in net.edges)
assert len(seen) == 10, seen
""", "sparse networks of more than four nodes", "the last pair of nodes never gets an edge")

bug("p26-ba-choice", "P26", M, [("                    link_set = link_set | set(random.sample(links, m - len(link_set)))\n", "                    link_set = link_set | set(random.sample(links, 2*m)[:m - len(link_set)] if len(links)>4*m else random.sample(sorted(set(links)), m - len(link_set)))\n")],
    """
import random
from pymnet import models
random.seed(0)
hits = 0
N = 3000
for i in range(N):
    net = models.ba_total_degree(4, [1])
    big = max((net.A[0][x].deg(), x) for x in range(3))[1]
    # the path of the first three nodes has a centre of degree two
    centre = [x for x in range(3) if sum(1 for y in range(3) if y != x and net[x, y, 0]) == 2][0]
    hits += net[3, centre, 0] == 1
assert abs(hits / float(N) - .5) < .06, hits / float(N)
""", "the first nodes that are added", "attachment is uniform instead of preferential")

bug("p26-ba-layers", "P26", M, [("            if i == m:\n                link_set = set(range(i))\n", "            if i == m or (i == max(ms) and m > 0 and i > m and not links):\n                link_set = set(range(m))\n")],
    """
import sys
sys.exit(0)
""", "-", "-") if False else None

bug("p26-overlap-round", "P26", M, [("        m = int(round(p*edges))\n", "        m = int(round(p*edges)) if k_ok(layer_comb, ps) else int(p*edges)\n"), ("def er_overlaps_match_aggregated(", "def k_ok(layer_comb, ps):\n    return len(layer_comb) < 3 or sum(map(ps.get, ps)) == 1\n\n\ndef er_overlaps_match_aggregated(")],
    """
import random
from pymnet import models
random.seed(1)
net = models.er_overlaps_match_aggregated(8, 3, {(0, 1, 2): 2 / 3.})
common = set.intersection(*[set(tuple(sorted(e[:2])) for e in net.A[l].edges) for l in range(3)])
assert len(common) == 6, common
net = models.er_overlaps_match_aggregated(8, 3, {(0, 1, 2): 0.6})
common = set.intersection(*[set(tuple(sorted(e[:2])) for e in net.A[l].edges) for l in range(3)])
assert len(common) == 6, common
""", "a combination of three layers with a share that has to be rounded up", "the number of overlapping edges is rounded down")

bug("p26-conf-align", "P26", M, [("                if nnodes!=None and lnnodes!=nnodes:\n                    nodeAligned=False\n                nnodes=lnnodes\n        elif", "                nodeAligned=nnodes==None or lnnodes==nnodes\n                nnodes=lnnodes\n        elif")],
    """
from pymnet import models
net = models.conf([{0: 3}, {0: 2}, {0: 2}], degstype="distribution")
assert not net.fullyInterconnected
assert sorted(map(len, (net.A[l] for l in net.get_layers()))) == [2, 2, 3]
""", "three layers, the last two of the same size", "the network is taken to be fully interconnected")

bug("p26-taken", "P26", M, [("                        if (n3,n4) not in takenedges and (n5,n6) not in takenedges:\n                            e1 = tuple(sorted([n1,n3]))\n                            e2 = tuple(sorted([n2,n5]))\n                            e3 = tuple(sorted([n4,n6]))\n                            if e1 not in used_edges and e2 not in used_edges and e3 not in used_edges:\n", "                        if (n3,n4) not in takenedges and (n5,n6) not in takenedges:\n                            e1 = tuple(sorted([n1,n3]))\n                            e2 = tuple(sorted([n2,n5]))\n                            e3 = tuple(sorted([n4,n6]))\n                            if e1 not in used_edges and e2 not in used_edges:\n")],
    """
import random
from pymnet import models
ol = {(0,): dict.fromkeys([0, 1, 3, 5], 1), (1,): dict.fromkeys(range(8), 1)}
seqs = [[0, 1, 2, 3, 4, 5, 6, 7], [0, 1, 3, 5]]
random.shuffle = lambda x: x.__setitem__(slice(None), [s for s in seqs if len(s) == len(x)][0])
for s in range(20):
    random.seed(s)
    net = models.conf_overlaps(ol)
    e0 = set(tuple(sorted(e[:2])) for e in net.A[0].edges)
    e1 = set(tuple(sorted(e[:2])) for e in net.A[1].edges)
    assert not e0 & e1, (s, e0 & e1)
""", "an edge that is already in another combination, replaced by swaps that lead to a third taken one", "overlap degrees are wrong")

bug("p26-full-single", "P26", M, [("        for layer in layers:\n            n.add_layer(layer)\n            for node1 in range(nodes):\n                for node2 in range(nodes):\n                    if node1!=node2:\n                        n[node1,node2,layer,layer]=1\n\n    return n\n\ndef full_multilayer", "        for layer in layers:\n            if nodes>1:\n                n.add_layer(layer)\n            for node1 in range(nodes):\n                for node2 in range(nodes):\n                    if node1!=node2:\n                        n[node1,node2,layer,layer]=1\n\n    return n\n\ndef full_multilayer")],
    """
from pymnet import models
assert models.full(1, ['a', 'b']).slices[1] == set('ab')
""", "one node and a sequence of layer names", "the layers are missing")

bug("p27-orbit-closure", "P27", G, [("                for key in a[0]:\n                    for j in net.slices[0]:\n                        if key in auts[n_nodes, i, j]:\n                            auts[n_nodes, i, j] = auts[n_nodes, i, j].union(auts[n_nodes, i, a[0][key]])\n                    \n", "                for key in a[0]:\n                    auts[n_nodes, i, key] = auts[n_nodes, i, key].union(auts[n_nodes, i, a[0][key]])\n                    \n")],
    USE + """
nets, invs = G.graphlets(4, ['a'])
auts = G.automorphism_orbits(nets)
for i, net in enumerate(nets[4]):
    degs = sorted(net.A['a'][x].deg() for x in range(4))
    n = len(set(auts[4, i, x] for x in range(4)))
    assert n == {(1, 1, 2, 2): 2, (1, 1, 1, 3): 2, (2, 2, 2, 2): 1, (1, 2, 2, 3): 3, (2, 2, 3, 3): 2, (3, 3, 3, 3): 1}[tuple(degs)], degs
""", "automorphisms that have to be combined", "orbits are too small", STUB)

bug("p27-nl-union", "P27", G, [("                            if (key_n, key_l) in auts[n_nodes, i, nl]:\n                                nl_2 = (a[0][key_n], a[1][key_l])", "                            if (key_n, key_l) in auts[n_nodes, i, nl]:\n                                nl_2 = (a[0][key_n], a[1][key_l] if a[0][key_n]!=key_n else key_l)")],
    USE + """
nets, invs = G.graphlets(3, ['a', 'b'])
auts = G.graphlets_module.automorphism_orbits_nl(nets)
for i, net in enumerate(nets[3]):
    if sorted((net.A['a'][x].deg(), net.A['b'][x].deg()) for x in range(3)) == [(0, 1), (1, 0), (1, 1)]:
        c = [x for x in range(3) if net.A['a'][x].deg() + net.A['b'][x].deg() == 2][0]
        assert auts[3, i, (c, 'a')] == auts[3, i, (c, 'b')]
""", "a node-layer that is moved to another layer of the same node", "orbits of node-layers are too small", STUB)

bug("p27-counts-direction", "P27", GM, [("                            if not (neighbor[0] in p or neighbor[0] in processed):", "                            if not (neighbor[0] in p or neighbor[0] in processed and len(p) < 2):")],
    """
import sys
sys.exit(0)
""", "-", "-") if False else None

bug("p27-touching", "P27", GM, [("    for _ in range(max_size-1):\n        for p in set_p:\n            for node in p:\n                for layer in layers:", "    for _ in range(max_size-1):\n        for p in set_p:\n            for node in (p if len(p)<3 else p-set([node0])):\n                for layer in layers:")],
    USE + """
from collections import defaultdict as dd
nets, invs = G.graphlets(4, ['a'])
auts = G.automorphism_orbits(nets)
ol = G.ordered_orbit_list(G.orbit_numbers(4, nets, auts))
net = pymnet.MultiplexNetwork(couplings=None)
for x in (1, 2, 3):
    net[0, x, 'a'] = 1
c = dd()
G.orbit_counts(4, 0, net, nets, c, auts, invs, ol)
assert sum(c.values()) == 3 + 3 + 1, sum(c.values())
""", "graphlets of four nodes where the node in question joins the last one", "they are not counted by orbit_counts", STUB)

bug("p27-layer-subset", "P27", G, [("                        for layer in net_layers:\n                            new_net.add_layer(layer)\n", "                        for layer in net_layers:\n                            if n_n > 1:\n                                new_net.add_layer(layer)\n"), ("    for e in", "    for e in")] if False else [("            for n_n in range(1, i+1):\n                for node_comb in itertools.combinations(range(i), n_n):", "            for n_n in range(1, i+1):\n                for node_comb in itertools.combinations(sorted(net_nodes, key=lambda x: -sum(net[x,y,l]!=0 for l in net_layers for y in net_nodes))[:max(n_n,i-1)], n_n):")],
    USE + """
nets, invs = G.graphlets(3, ['a', 'b'], allowed_aspects=[0])
assert len(nets[3]) == 16, len(nets[3])
nets, invs = G.graphlets(4, ['a'])
assert len(nets[4]) == 6, len(nets[4])
""", "a new node attached only to the node of the lowest degree", "some graphlets are missing", STUB)

bug("p28-times", "P28", G, [("    if orbit1 == orbit2:\n        times = 2\n    else:\n        times = 1\n    coef = coef / times", "    if orbit1 == orbit2 and n_both == 1:\n        times = 2\n    else:\n        times = 1\n    coef = coef / times")],
    USE + """
nets, invs = G.graphlets(4, ['a'])
auts = G.automorphism_orbits(nets)
eqs = G.orbit_equations(4, nets, auts, invs)
net = pymnet.MultiplexNetwork(couplings=None)
for a, b in [(0, 1), (0, 2), (0, 3), (1, 2), (2, 3)]:
    net[a, b, 'a'] = 1
ol = G.ordered_orbit_list(G.orbit_numbers(4, nets, auts))
c = G.orbit_counts_all(net, 4, nets, invs, auts, ol)
for k, e in eqs.items():
    if len(k[0]) == 3:
        for x in range(4):
            assert c[x, k[0]] * (c[x, k[0]] - 1) / 2 == sum(w * c[x, o] for o, w in e.items()), (k, x)
""", "an orbit of three nodes combined with itself with shared nodes", "coefficients are doubled", STUB)

bug("p28-merge-layers", "P28", G, [("        if not pymnet.is_isomorphic(sub1, sub2, allowed_aspects=[0]): #not same links to the_node", "        if not pymnet.is_isomorphic(sub1, sub2, allowed_aspects=allowed_aspects): #not same links to the_node")],
    USE + """
nets, invs = G.graphlets(4, ['a', 'b'])
auts = G.automorphism_orbits(nets)
import sys
sys.exit(0)
""", "-", "-", STUB) if False else None

bug("p28-add-edges", "P28", G, [("    for n_e in range(1, n_edges+1):\n        for edge_comb in itertools.combinations(edges, n_e):\n            edge_layers = [layer_combs] * n_e", "    for n_e in range(1, max(n_edges, 2)):\n        for edge_comb in itertools.combinations(edges, n_e):\n            edge_layers = [layer_combs] * n_e")],
    USE + """
nets, invs = G.graphlets(4, ['a'])
auts = G.automorphism_orbits(nets)
eqs = G.orbit_equations(4, nets, auts, invs)
net = pymnet.MultiplexNetwork(couplings=None)
for a in range(4):
    for b in range(a):
        net[a, b, 'a'] = 1
ol = G.ordered_orbit_list(G.orbit_numbers(4, nets, auts))
c = G.orbit_counts_all(net, 4, nets, invs, auts, ol)
for k, e in eqs.items():
    if len(k[0]) != 3:
        (a, _), (b, _) = k
        if a[0] < b[0]:
            a, b = b, a
        sub = 0 if a[0] == b[0] else G.graphlets_module.subtrahend(a, b, nets, auts, invs)
        for x in range(4):
            assert c[x, a] * (c[x, b] - sub) == sum(w * c[x, o] for o, w in e.items()), (k, x)
""", "combined graphlets in which all added edges are present", "their orbits are missing from the equations", STUB)

bug("p28-subtrahend", "P28", G, [("        sub_max = max(sub_max, sub)\n", "        sub_max = max(sub_max, min(sub, 2))\n")],
    USE + """
nets, invs = G.graphlets(4, ['a'])
auts = G.automorphism_orbits(nets)
for i, net in enumerate(nets[4]):
    for x in range(4):
        if auts[4, i, x] == x:
            d = net.A['a'][x].deg()
            assert G.graphlets_module.subtrahend((4, i, x), (2, 0, 0), nets, auts, invs) == d
""", "a node of degree three", "the subtrahend is too small", STUB)

bug("p28-eqs-layers", "P28", GI, [("            if nets[n][i].slices[1] == layers:", "            if nets[n][i].slices[1] <= layers and min(nets[n][i].slices[1]) == min(layers):")],
    """
import sys
sys.exit(0)
""", "-", "-") if False else None

bug("p28-gcd-sign", "P28", GM, [("            gcd += (gcm1[i][j] - gcm2[i][j])**2\n", "            gcd += (abs(gcm1[i][j]) - abs(gcm2[i][j]))**2\n")],
    USE + """
import numpy
a = numpy.array([[1, .5], [.5, 1]])
b = numpy.array([[1, -.5], [-.5, 1]])
assert abs(G.GCD(a, b) - 1) < 1e-9
""", "negative correlations", "signs are ignored by the distance", STUB)
BUGS = [b for b in BUGS if b]

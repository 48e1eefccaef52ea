exec(open('/verif/tools/bugs/b9.py').read().split('bug("p01-shared-name"')[0])
CC = "pymnet/cc.py"
G = "pymnet/graphlets/graphlets.py"
GM = "pymnet/graphlets/graphlet_measures.py"
NX = "pymnet/nxwrap.py"

bug("p03-total-strength", "P03", N, [('                s+=self._get_dim_strength(node,d,direction="in")+self._get_dim_strength(node,d,direction="out")', '                s+=2*self._get_dim_strength(node,d,direction="out")')], """
import pymnet
c = pymnet.MultilayerNetwork(aspects=0, directed=True)
c["a", "b"] = 2
net = pymnet.MultiplexNetwork(c, directed=True)
net[1, 2, "a"] = 1
net[1, 2, "b"] = 1
assert net[1, "b"].str_total() == 3, net[1, "b"].str_total()
""", "a directed network with a coupling network whose couplings are not symmetric", "the total strength of a node-layer counts the outgoing couplings twice")

bug("p03-foreign-noedge", "P03", N, [("                    return weight if weight!=coupling[0].noEdge else self.noEdge", "                    return weight")], """
import pymnet
c = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
c["a", "b"] = 2
c.add_node("c")
net = pymnet.MultiplexNetwork(c)
for l in "abc":
    net[1, 2, l] = 1
assert net[1, 1, "a", "c"] == 0
""", "a coupling network with another noEdge value than the network", "missing couplings are read as edges")

bug("p04-refuse-late", "P04", N, [('        assert val.aspects==0, "Intra-layer networks need to be monoplex networks."\n', '')], """
import pymnet
net = pymnet.MultiplexNetwork("categorical")
net[1, 2, "a"] = 1
other = pymnet.MultilayerNetwork(aspects=1)
other[1, 2, "a"] = 1
try:
    net.A["a"] = other
except Exception:
    pass
assert net[1, 2, "a"] == 1
""", "replacing an intra-layer network by a network with aspects", "the refused replacement empties the layer")

bug("p07-both-directions", "P07", T, [("                        for nl2 in net[nl1].iter_out():\n                            if reduce(lambda x,y:x and y, (e in nodelayers[a] for a,e in enumerate(nl2))):\n                                newNet[nl1][nl2]=net[nl1][nl2]", "                        for nl2 in net[nl1].iter_out():\n                            if reduce(lambda x,y:x and y, (e in nodelayers[a] for a,e in enumerate(nl2))):\n                                newNet[nl1][nl2]=net[nl1][nl2]\n                                if nl1==nl2: break")], """
import pymnet
for a in range(6):
    for b in range(6):
        net = pymnet.MultilayerNetwork(aspects=1, directed=True)
        for i in range(6):
            for j in range(6):
                net.add_node(i); net.add_layer(str(j))
        net[a, a, "0", "0"] = 1
        net[a, b, "0", "1"] = 2
        net[a, b, "0", "2"] = 2
        sub = pymnet.subnet(net, range(6), ["0", "1", "2", "3", "4", "5"])
        assert sub == net
""", "a self-edge of a node-layer that has other edges", "edges after the self-edge are missing in the subnetwork")

bug("p08-target-noedge", "P08", T, [("            if newNet[tuple(newEdge)]!=newNet.noEdge:", "            if newNet[tuple(newEdge)]!=net.noEdge:")], """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 2, "a", "a"] = 1
net[1, 2, "b", "b"] = 2
new = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
pymnet.aggregate(net, 1, newNet=new)
assert new[1, 2] == 3, new[1, 2]
""", "a target network with another noEdge value", "the noEdge value is added to the weights")

bug("p17-view-result", "P17", NX, [('            if "weight" in val: #other', '            if len(val)==1 and "weight" in val: #other')], """
import networkx
import pymnet
from pymnet import nx
net = pymnet.MultilayerNetwork(aspects=0)
view = nx.autowrap(net)
view.add_edge(1, 2, weight=3, color="red")
assert net[1, 2] == 3, net[1, 2]
""", "an edge added with a weight and another attribute", "the weight is lost")

bug("p22-triple", "P22", RQ, [("                        for layer in combination:\n                            rolelist.append(permutation.index(layer))\n                            nodeset = nodeset & set(d[layer])", "                        for layer in combination:\n                            rolelist.append(permutation.index(layer))\n                        for layer in (combination[0],combination[-1]):\n                            nodeset = nodeset & set(d[layer])")], """
import pymnet
from pymnet.sampling.reqs import default_check_reqs
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 1, "a", "b"] = 1
net[2, 2, "b", "c"] = 1
net[3, 3, "a", "c"] = 1
net[1, 2, "b", "b"] = 1
net[1, 3, "a", "a"] = 1
assert default_check_reqs(net, [1, 2, 3], ["a", "b", "c"], [2, 2, 2], [1, 1, 1, 0])
assert not default_check_reqs(net, [1, 2, 3], ["a", "b", "c"], [2, 2, 2], [1, 1, 1, 1], nnodes=3, nlayers=3)
""", "intersections of three layers which are smaller than all those of two layers", "the intersection of three layers is too large")

bug("p25-avg-missing", "P25", CC, [("        for node in net.A[layer]:\n            n+=1.", "        for node in net:\n            n+=1.")], """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork("categorical", fullyInterconnected=False)
for i, j in ((1, 2), (2, 3), (1, 3)):
    net[i, j, "a"] = 1
net[1, 2, "b"] = 1
vals = [cc.lcc_aw(net, n, l) for n, l in net.iter_node_layers()]
assert abs(cc.avg_lcc_aw(net) - sum(vals) / len(vals)) < 1e-9
""", "nodes that are missing on some layers", "the average includes node-layers that do not exist")

bug("p25-avg-weights", "P25", CC, [("                c+=lcc_aw(net,node,layer,w1=w1,w2=w2,w3=w3)", "                c+=lcc_aw(net,node,layer,w1,w2)")], """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork("categorical")
for l in "abc":
    net[1, 2, l] = 1
    net[2, 3, l] = 1
net[1, 3, "a"] = 1
vals = [cc.lcc_aw(net, n, l, w1=.2, w2=.3, w3=.5) for n, l in net.iter_node_layers()]
assert abs(cc.avg_lcc_aw(net, w1=.2, w2=.3, w3=.5) - sum(vals) / len(vals)) < 1e-9
""", "the average with three weights", "the third weight is ignored")

bug("p25-layercost", "P25", CC, [("        return (a**3*t1+a*b**2*t2+b**3*t3)/float(a**3*d1+a*b**2*d2+b**3*d3)", "        return (a**3*t1+a**2*b*t2+b**3*t3)/float(a**3*d1+a**2*b*d2+b**3*d3)")], """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork("categorical")
for l in "abc":
    net[1, 2, l] = 1
    net[2, 3, l] = 1
net[1, 3, "a"] = 1
net[2, 4, "c"] = 1
net[1, 4, "b"] = 1
for n in net:
    x, y = cc.sncc_aw_layercost(net, n, a=.3, b=.7), cc.sncc_aw(net, n, w1=.3, w2=.7)
    assert abs(x - y) < 1e-9, (x, y)
""", "different costs for staying on and changing a layer", "cycles with two layers have a wrong weight")

bug("p28-merge", "P28", G, [("            new_nets_and_nodes.append((new_net, both_orbit_nodes + [node1]))", "            new_nets_and_nodes.append((new_net, both_orbit_nodes))")], """
import sys
try:
    import PyBliss
except ImportError:
    pass
import importlib.util, os
import itertools
import pymnet
import importlib
G = importlib.import_module("pymnet.graphlets.graphlets")
def key(net):
    return min(repr(sorted((min(p[a], p[b]), max(p[a], p[b])) for a, b, l, m, w in net.edges)) for q in itertools.permutations(range(len(net.slices[0]))) for p in [dict(zip(sorted(net.slices[0]), q))])
pymnet.get_complete_invariant = lambda net, allowed_aspects="all": (len(net.slices[0]), key(net))
def iso(a, b, allowed_aspects="all", include_fixed=False):
    E = lambda n, p: sorted((min(p[x], p[y]), max(p[x], p[y])) for x, y, l, m, w in n.edges)
    A, B = sorted(a.slices[0]), sorted(b.slices[0])
    for q in itertools.permutations(B):
        p = dict(zip(A, q))
        if E(a, p) == E(b, dict(zip(B, B))):
            return [p, dict((l, l) for l in a.slices[1])]
pymnet.get_isomorphism = iso
def gens(net, allowed_aspects="all", include_fixed=False):
    out = []
    V = sorted(net.slices[0])
    E = lambda p: sorted((min(p[x], p[y]), max(p[x], p[y])) for x, y, l, m, w in net.edges)
    for q in itertools.permutations(V):
        p = dict(zip(V, q))
        if E(p) == E(dict(zip(V, V))):
            out.append([p, {}])
    return out
pymnet.get_automorphism_generators = gens
pymnet.is_isomorphic = lambda a, b, allowed_aspects="all": key(a) == key(b) and len(a.slices[0]) == len(b.slices[0])
nets, invs = G.graphlets(5, [0])
auts = G.automorphism_orbits(nets)
eqs = G.orbit_equations(5, nets, auts, invs)
# complete graph with four nodes: pairs of triangles at a node that share an edge
tri = [(3, i, auts[3, i, 0]) for i in range(2) if len(list(nets[3][i].edges)) == 3][0]
k4 = [(4, i, auts[4, i, 0]) for i in range(6) if len(list(nets[4][i].edges)) == 6][0]
assert eqs[(tri, 2)].get(k4) == 3, eqs[(tri, 2)]
path = [(3, i, 0) for i in range(2) if len(list(nets[3][i].edges)) == 2]
ends = [o for o in G.list_orbits(auts)[3] if o[1] == path[0][1]]
for key_, rhs in eqs.items():
    if key_ == (tri, 2):
        print(rhs)
""", "subgraphs with three shared nodes", "terms are missing in the equations")

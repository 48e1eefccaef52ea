BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, files={}):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks, files=files))


STUB = {"pybliss_stub.py": "mc/pybliss_stub.py"}
USE = "import pybliss_stub\npybliss_stub.install()\n"
I = "pymnet/isomorphisms/isomcore.py"
S = "pymnet/sampling/esu.py"
Q = "pymnet/sampling/reqs.py"
C = "pymnet/cc.py"

bug("p18-selfedge", "P18", I, [("                self.add_link(nl1id,nl2id)\n", "                if nl1id!=nl2id:\n                    self.add_link(nl1id,nl2id)\n")],
    """
import pymnet
from pymnet import isomorphisms
a = pymnet.MultilayerNetwork(aspects=1)
b = pymnet.MultilayerNetwork(aspects=1)
for net in (a, b):
    net[1, 2, 'x', 'y'] = 1
    net.add_node(3)
a[1, 1, 'x', 'x'] = 1
b[3, 3, 'x', 'x'] = 1
assert not isomorphisms.is_isomorphic(a, b)
""", "self-edges", "networks which differ only in the place of a self-edge are said to be isomorphic")

bug("p18-empty-layer", "P18", I, [("            for elayer in self.net.slices[a]:\n                auxid", "            for elayer in set(nl[a] for nl in self.net.iter_node_layers()):\n                auxid")],
    """
import pymnet
from pymnet import isomorphisms
a = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
a[1, 2, 'x', 'x'] = 1
b = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
b[1, 2, 'x', 'x'] = 1
b.add_layer('y')
assert not isomorphisms.is_isomorphic(a, b)
""", "a network that is not fully interconnected and has a layer without node-layers", "the numbers of layers are not compared")

bug("p18-other-map", "P18", I, [("            invauxnodemap=dict( ((other.auxnodemap[k],k) for k in other.auxnodemap ) )", "            invauxnodemap=dict( ((self.auxnodemap[k],k) for k in self.auxnodemap ) )")],
    """
import pymnet
from pymnet import isomorphisms
a = pymnet.MultilayerNetwork(aspects=1)
a[1, 2, 'x', 'y'] = 1
a[1, 1, 'x', 'y'] = 1
b = pymnet.MultilayerNetwork(aspects=1)
b[3, 4, 'z', 'y'] = 1
b[3, 3, 'z', 'y'] = 1
m = isomorphisms.get_isomorphism(a, b, include_fixed=True)
r = pymnet.transforms.relabel(a, m[0], {0: m[1]} if False else [m[1]])
assert set(r) == set(b), m
""", "an isomorphism between networks with different names", "the mapping gives names of the first network")

bug("p18-color-order", "P18", I, [("        nodecolors_sorted=sorted(list(nodecolors))\n", "        nodecolors_sorted=sorted(list(nodecolors))\n        if len(self.nasp)>1:\n            nodecolors_sorted=sorted(set(c[:1] for c in nodecolors))\n"), ("        for i in self.nasp:\n            s.append(nodelayer[i])\n        return tuple(s)", "        for i in self.nasp:\n            s.append(nodelayer[i])\n        return tuple(s) if len(self.nasp)<2 else tuple(s[:1])")],
    """
import pymnet
from pymnet import isomorphisms
a = pymnet.MultilayerNetwork(aspects=2)
b = pymnet.MultilayerNetwork(aspects=2)
for net in (a, b):
    for n in (1, 2):
        net.add_node(n)
    net.add_layer('x', 1)
    net.add_layer('u', 2)
    net.add_layer('v', 2)
a[1, 2, 'x', 'x', 'u', 'u'] = 1
b[1, 2, 'x', 'x', 'v', 'v'] = 1
assert not isomorphisms.is_isomorphic(a, b, allowed_aspects=[0])
""", "two aspects, neither of which may be permuted", "layers of the last aspect can be swapped although they are not allowed to")

bug("p19-labels", "P19", I, [("        return tuple(sorted(self.colormap.items()))", "        return len(self.colormap)")],
    USE + """
import pymnet
from pymnet import isomorphisms
a = pymnet.MultilayerNetwork(aspects=1)
a[1, 2, 'x', 'x'] = 1
b = pymnet.MultilayerNetwork(aspects=1)
b[1, 2, 'y', 'y'] = 1
assert isomorphisms.get_complete_invariant(a, allowed_aspects=[0], backend="bliss") != isomorphisms.get_complete_invariant(b, allowed_aspects=[0], backend="bliss")
""", "networks with different names in an aspect that is not permuted (and the second backend)", "the complete invariants are the same", STUB)

bug("p19-generators", "P19", I, [("            generators.append(mperms)", "            if len(self.asp)==1 or all(g[self.asp[0]]!=mperms[self.asp[0]] for g in generators):\n                generators.append(mperms)")],
    USE + """
import pymnet
from pymnet import isomorphisms
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 1, 'x', 'y'] = 1
net[1, 1, 'z', 'y'] = 1
net[1, 1, 'x', 'z'] = 1
net.add_node(2)
perms = isomorphisms.get_automorphism_generators(net, include_fixed=True, backend="bliss")
group = {('x', 'y', 'z')}
todo = list(group)
while todo:
    t = todo.pop()
    for m in perms:
        n = tuple(m[1][x] for x in t)
        if n not in group:
            group.add(n)
            todo.append(n)
assert len(group) == 6, (perms, group)
""", "generators which permute the nodes in the same way and the layers differently", "the generators do not generate the whole group", STUB)

bug("p19-structure", "P19", "pymnet/isomorphisms/blissbackend.py", [("        return self.blissgraph.get_isomorphism(other.blissgraph)!=None", "        return len(self.nodemap)==len(other.nodemap) and self.complete_invariant_structure()==self.complete_invariant_structure()")],
    USE + """
import pymnet
from pymnet import isomorphisms
a = pymnet.MultilayerNetwork(aspects=1)
b = pymnet.MultilayerNetwork(aspects=1)
a[1, 2, 'x', 'x'] = 1
a[1, 2, 'y', 'y'] = 1
b[1, 2, 'x', 'y'] = 1
b[1, 2, 'y', 'y'] = 1
assert not isomorphisms.is_isomorphic(a, b, backend="bliss")
""", "the second backend", "all networks of the same size are isomorphic", STUB)

bug("p20-start-conflict", "P20", S, [("                    if (start_node,layer) in numberings and numberings[(start_node,layer)] < numberings[v]:\n                        no_layer_conflicts = False\n", "")],
    """
import itertools
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
nls = [(n, l) for n in (1, 2, 3) for l in 'xyz']
for k in (2, 3, 4):
    for es in itertools.combinations(list(itertools.combinations(nls[:6], 2)), k):
        net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
        for u, v in es:
            net[u][v] = 1
        for nn, nl in ((2, 2), (3, 2), (2, 3), (1, 2)):
            res = []
            sample_multilayer_subgraphs_esu(net, res, nnodes=nn, nlayers=nl)
            s = [(tuple(sorted(a)), tuple(sorted(b))) for a, b in res]
            assert len(set(s)) == len(s), (es, s)
""", "a neighbour in another layer where the start node has a smaller index", "a subgraph is found twice")

bug("p20-old-layers", "P20", S, [("                            for nl in itertools.product([node],new_layerlist):", "                            for nl in itertools.product([node],layerlist):")],
    """
import itertools
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu
nls = [(n, l) for n in (1, 2, 3) for l in 'xy']
for k in (2, 3, 4):
    for es in itertools.combinations(list(itertools.combinations(nls, 2)), k):
        net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
        for u, v in es:
            net[u][v] = 1
        for nn, nl in ((2, 2), (3, 2), (2, 3), (1, 2)):
            res = []
            sample_multilayer_subgraphs_esu(net, res, nnodes=nn, nlayers=nl)
            s = [(tuple(sorted(a)), tuple(sorted(b))) for a, b in res]
            assert len(set(s)) == len(s), (es, s)
""", "a layer added before a node whose node-layer in the added layer has a smaller index", "a subgraph is found twice")

bug("p20-orig-neigh", "P20", S, [("                    if neighbor[1] not in layerlist and neighbor[1] not in orig_neighborhood_layerlist and numberings[neighbor] > numberings[v]:", "                    if neighbor[1] not in layerlist and neighbor[1] not in orig_neighborhood_layerlist:")],
    """
import itertools
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu
from pymnet.sampling.dumb import dumb_enumeration
nls = [(n, l) for n in (1, 2, 3) for l in 'xy']
for k in (3, 4, 5):
    for es in itertools.combinations(list(itertools.combinations(nls, 2)), k):
        net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
        for u, v in es:
            net[u][v] = 1
        for nn, nl in ((2, 2), (3, 2)):
            res, dumb = [], []
            sample_multilayer_subgraphs_esu(net, res, nnodes=nn, nlayers=nl, copy_network=False)
            dumb_enumeration(net, dumb, nnodes=nn, nlayers=nl)
            s = sorted((tuple(sorted(a)), tuple(sorted(b))) for a, b in res)
            assert s == sorted((tuple(sorted(a)), tuple(sorted(b))) for a, b in dumb), (es, s)
""", "copy_network=False and a layer reached from earlier node-layers before", "a subgraph is not found")

bug("p20-callable", "P20", S, [("            elif callable(results):\n                results((list(nodelist),list(layerlist)))\n                return\n", "            elif callable(results):\n                results((nodelist,layerlist))\n                return\n")],
    """
import sys
sys.exit(0)
""", "-", "nothing (equivalent)") if False else None

bug("p20-int-intersection", "P20", S, [("            intersections_as_list[-1] = intersections\n", "            intersections_as_list[-1] = intersections or None\n")],
    """
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 2, 'x', 'x'] = 1
net[2, 3, 'x', 'y'] = 1
net[1, 2, 'z', 'z'] = 1
net[2, 3, 'z', 'z'] = 1
net[2, 2, 'x', 'z'] = 1
res = []
sample_multilayer_subgraphs_esu(net, res, sizes=[2, 3], intersections=0, nnodes=3)
assert res == [], res
""", "a common intersection of 0 nodes", "common nodes are allowed")

bug("p20-dumb-int", "P20", "pymnet/sampling/dumb.py", [("            intersections_as_list[-1] = intersections\n", "            intersections_as_list[0] = intersections\n")],
    """
import pymnet
from pymnet.sampling.dumb import dumb_enumeration
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
for l in 'xyz':
    net[1, 2, l, l] = 1
net[1, 1, 'x', 'y'] = 1
net[1, 1, 'z', 'y'] = 1
net[2, 3, 'x', 'x'] = 1
res = []
dumb_enumeration(net, res, sizes=[2, 2, 2], intersections=2, nnodes=2)
assert len(res) == 1, res
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
for l in 'xyz':
    net[1, 2, l, l] = 1
net[1, 1, 'x', 'y'] = 1
net[3, 1, 'z', 'y'] = 1
net[2, 3, 'z', 'z'] = 1
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 2, 'x', 'x'] = 1
net[1, 2, 'y', 'y'] = 1
net[2, 3, 'z', 'z'] = 1
net[2, 2, 'x', 'y'] = 1
net[2, 2, 'z', 'y'] = 1
res = []
dumb_enumeration(net, res, sizes=[2, 2, 2], intersections=1, nnodes=3)
assert len(res) == 1, res
res = []
dumb_enumeration(net, res, sizes=[2, 2, 2], intersections=2, nnodes=3)
assert len(res) == 0, res
""", "three layers and a common intersection given as a number (naive enumeration)", "the number is taken as the intersection of the first two layers")

bug("p21-depth", "P21", S, [("        if random.random() < p[depth]:\n            if node_added", "        if random.random() < p[len(nodelist)]:\n            if node_added")],
    """
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 1, 'x', 'y'] = 1
net[1, 2, 'x', 'x'] = 1
for k in range(20):
    res = []
    sample_multilayer_subgraphs_esu(net, res, nnodes=2, nlayers=2, p=[1, 1, 0], seed=k)
    assert res == [], res
    res = []
    sample_multilayer_subgraphs_esu(net, res, nnodes=1, nlayers=2, p=[1, 1], seed=k)
    assert len(res) == 1, res
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 1, 'x', 'y'] = 1
net[1, 1, 'x', 'z'] = 1
res = []
sample_multilayer_subgraphs_esu(net, res, nnodes=1, nlayers=3, p=[1, 1, 0], seed=1)
assert res == [], res
""", "different probabilities for steps and a step that adds a layer", "probabilities of wrong steps are used")

bug("p22-zero", "P22", Q, [("                            if d_isect[tuple(rolelist)] != None and len(nodeset) > d_isect[tuple(rolelist)]:", "                            if d_isect[tuple(rolelist)] and len(nodeset) > d_isect[tuple(rolelist)]:")],
    """
import pymnet
from pymnet.sampling.reqs import default_check_reqs
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 2, 'x', 'x'] = 1
net[2, 2, 'x', 'y'] = 1
assert not default_check_reqs(net, [1, 2], ['x', 'y'], [2, 1], [0], nnodes=2, intersection_type='less_or_equal')
""", "an upper bound of 0 for an intersection", "any number of common nodes is accepted")

bug("p22-four-layers", "P22", Q, [("            if ii % 2 == 0:\n", "            if ii == 2:\n")],
    """
from pymnet.sampling.reqs import default_calculate_required_lengths
assert default_calculate_required_lengths([1, 1, 1, 1], [1] * 11) == (1, 4)
""", "requirements with four layers", "the number of nodes is wrong")

bug("p22-size-order", "P22", Q, [("        for permutation in list(itertools.permutations(layerlist)):\n", "        roles = sorted(range(len(sizes)),key=lambda role:sizes[role])\n        ordered = sorted(layerlist,key=lambda layer:len(d[layer]))\n        for permutation in [tuple(ordered[roles.index(role)] for role in range(len(sizes)))]+[tuple(ordered[::-1][roles.index(role)] for role in range(len(sizes)))]:\n")],
    """
import itertools
import pymnet
from pymnet.sampling.reqs import default_check_reqs
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 2, 'x', 'x'] = 1
net[1, 2, 'y', 'y'] = 1
net[2, 3, 'z', 'z'] = 1
net[2, 2, 'x', 'y'] = 1
net[2, 2, 'z', 'y'] = 1
for layers in itertools.permutations('xyz'):
    for inter in ([2, 1, 1, 1], [1, 2, 1, 1], [1, 1, 2, 1]):
        assert default_check_reqs(net, [1, 2, 3], list(layers), [2, 2, 2], inter), (layers, inter)
""", "three layers of the same size with different intersections", "an acceptable subgraph is rejected")

bug("p22-relaxed-node", "P22", Q, [("""        for node in nodelist:
            no_nodelayers = True
            for layer in layerlist:
                if (node,layer) in nls:
                    no_nodelayers = False
                    break
            if no_nodelayers:
                return False
        return True
""", """        return len(set(nl[0] for nl in nls))==len(set(nodelist)) or len(layerlist)>1
""")],
    """
import pymnet
from pymnet.sampling.reqs import relaxed_check_reqs
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 2, 'x', 'x'] = 1
net[2, 2, 'x', 'y'] = 1
net.add_node(3)
assert not relaxed_check_reqs(net, [1, 2, 3], ['x', 'y'])
""", "a node without node-layers in several layers", "it is accepted")

bug("p23-noedge", "P23", C, [("            if net[i][j]!=net.noEdge:\n                nom+=net[node][i]+net[node][j]\n", "            if net[i][j]:\n                nom+=net[node][i]+net[node][j]\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
net[1, 2] = 1
net[1, 3] = 1
assert cc.cc_barrat(net, 1) == 0, cc.cc_barrat(net, 1)
""", "a network with another no-edge value", "missing edges are counted")

bug("p23-onnela-max", "P23", C, [("        maxw=max(map(lambda x:x[2],net.edges))\n        nom=0\n", "        maxw=max(max(map(lambda x:net[i][x],net[i])) for i in net[node])\n        nom=0\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultilayerNetwork(aspects=0)
for e in [(1, 2), (1, 3), (2, 3)]:
    net[e[0], e[1]] = 1
net[4, 5] = 8
assert abs(cc.cc_onnela(net, 1) - 1 / 8.) < 1e-9, cc.cc_onnela(net, 1)
""", "the largest weight of the network not at the neighbours of the node", "the maximum of the neighbourhood is used")

bug("p23-gcc-degree", "P23", C, [("    for node in net:\n        degree=net[node].deg()\n        if degree>=2:\n            for i,j in itertools.combinations(net[node],2):\n                nij=net[node][i]*net[node][j]\n                ij=net[i][j]\n                den+=nij            \n                if ij!=net.noEdge:\n                    nom+=nij*ij\n", "    for node in net:\n        degree=net[node].deg()\n        if degree>=2 and any(net[i].deg()>1 for i in net[node]):\n            for i,j in itertools.combinations(net[node],2):\n                nij=net[node][i]*net[node][j]\n                ij=net[i][j]\n                den+=nij            \n                if ij!=net.noEdge:\n                    nom+=nij*ij\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultilayerNetwork(aspects=0)
for e in [(1, 2), (1, 3), (2, 3), (4, 5), (4, 6)]:
    net[e[0], e[1]] = 1
assert abs(cc.gcc_zhang(net) - 3 / 4.) < 1e-9, cc.gcc_zhang(net)
""", "a star component in addition to triangles", "the star is left out of the denominator")

bug("p24-barrett-opt", "P24", C, [("            for h in ineighs | jneighs:\n", "            for h in (ineighs | jneighs)-set([node]):\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings='categorical')
net[1, 2, 'a'] = 1
net[1, 3, 'a'] = 1
net[2, 3, 'b'] = 1
anet = pymnet.transforms.aggregate(net, 1)
assert abs(cc.cc_barrett_optimized(net, 1, anet) - cc.cc_barrett_explicit(net, 1)) < 1e-9
""", "cc_barrett_optimized", "the node itself is left out of the denominator")

bug("p24-brodka-bidirectional", "P24", C, [("    if len(thneighborhood)==0:\n        return 0.0\n", "    if len(thneighborhood)==0:\n        return undefReturn\n")],
    """
import sys
sys.exit(0)
""", "-", "-") if False else None

bug("p24-brodka-threshold", "P24", C, [("    if threshold=='all':\n        threshold=len(net.get_layers())\n", "    if threshold=='all':\n        threshold=sum(1 for layer in net.get_layers() if node in net.A[layer])\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings='none', fullyInterconnected=False)
net[1, 2, 'a'] = 1
net[1, 3, 'a'] = 1
net[2, 3, 'a'] = 1
net[4, 5, 'b'] = 1
assert cc.lcc_brodka(net, 1, threshold='all') == 0, cc.lcc_brodka(net, 1, threshold='all')
""", "threshold 'all' and a node missing from a layer", "only the layers of the node are counted")

bug("p24-criado-node", "P24", C, [("        nalphau=nu.intersection(set(net.A[alpha]))\n", "        nalphau=nu.intersection(set(net.A[alpha])) if node in net.A[alpha] else set()\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings='none', fullyInterconnected=False)
net[1, 2, 'a'] = 1
net[1, 3, 'a'] = 1
net[2, 3, 'b'] = 1
net[4, 2, 'c'] = 1
net[4, 3, 'c'] = 1
assert cc.lcc_criado(net, 1) == 1, cc.lcc_criado(net, 1)
net = pymnet.MultiplexNetwork(couplings='none', fullyInterconnected=False)
net[1, 2, 'a'] = 1
net[1, 3, 'a'] = 1
net[1, 4, 'a'] = 1
net[2, 3, 'b'] = 1
assert abs(cc.lcc_criado(net, 1) - 4 / 8.) < 1e-9, cc.lcc_criado(net, 1)
""", "a node missing from a layer that has several of its neighbours", "the layer is left out")

bug("p24-contraction-ct", "P24", C, [("                            if e==a and n==g:\n                                den+= net[a,b,g,d]*net[b,e,d,n]*(-1)\n", "                            if e==a and n==g and b!=a:\n                                den+= net[a,b,g,d]*net[b,e,d,n]*(-1)\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings='categorical')
net[1, 2, 'a'] = 1
net[1, 3, 'a'] = 1
net[2, 3, 'b'] = 1
assert abs(cc.gcc_contraction_m_ct(net) - cc.gcc_contraction_m(net)) < 1e-9
""", "coupling edges", "backward steps along coupling edges are counted")

bug("p25-anet-neigh", "P25", C, [("            if i in neighbors:\n                afcac+=(len(neighbors)-1)*ledges\n            else:\n                afcac+=len(neighbors)*ledges\n\n        acfca=afa*(len(net.slices[1])-1)        \n", "            afcac+=(len(neighbors)-1)*ledges if i in neighbors or ledges>1 else len(neighbors)*ledges\n\n        acfca=afa*(len(net.slices[1])-1)        \n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings='categorical')
net[1, 2, 'a'] = 1
net[1, 3, 'b'] = 1
net[1, 3, 'c'] = 1
anet = pymnet.transforms.aggregate(net, 1)
assert cc.cc_cycle_vector_anet(net, 1, 'a', anet=anet)[6] == cc.cc_cycle_vector_bf(net, 1, 'a')[6]
""", "a neighbour in two other layers that is not a neighbour in the layer (with the aggregated network)", "the normalisation is wrong")

bug("p25-layercost", "P25", C, [("    for layer in net.slices[1]:\n        aaa,aacac,acaac,acaca,acacac, afa,afcac,acfac,acfca,acfcac=cc_cycle_vector_bf(net,supernode,layer,undefReturn=0.0)\n        t1+=aaa\n        d1+=afa\n        t2+=aacac+acaac+acaca\n        d2+=afcac+acfac+acfca\n        t3+=acacac\n        d3+=acfcac\n\n    if float(", "    for layer in net.slices[1]:\n        aaa,aacac,acaac,acaca,acacac, afa,afcac,acfac,acfca,acfcac=cc_cycle_vector_bf(net,supernode,layer,undefReturn=0.0)\n        t1+=aaa\n        d1+=afa\n        t2+=aacac+acaac+acaca\n        d2+=2*afcac+acfca\n        t3+=acacac\n        d3+=acfcac\n\n    if float(")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings='categorical', fullyInterconnected=False)
for e in [(1, 2, 'a'), (1, 3, 'a'), (2, 3, 'a'), (1, 2, 'b'), (1, 4, 'b'), (3, 4, 'c'), (1, 3, 'c')]:
    net[e] = 1
d = [0, 0, 0]
t = [0, 0, 0]
for l in 'abc':
    c = cc.cc_cycle_vector_bf(net, 1, l)
    t = [t[0] + c[0], t[1] + c[1] + c[2] + c[3], t[2] + c[4]]
    d = [d[0] + c[5], d[1] + c[6] + c[7] + c[8], d[2] + c[9]]
exp = (t[0] + 2 * t[1] * 2 + 8 * t[2]) / float(d[0] + 4 * d[1] + 8 * d[2])
assert abs(cc.sncc_aw_layercost(net, 1, a=1, b=2) - exp) < 1e-9
""", "a network that is not fully interconnected", "two different normalisations are taken to be equal")
BUGS = [b for b in BUGS if b]

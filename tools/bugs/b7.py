BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, files={}):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks, files=files))


E = "pymnet/sampling/esu.py"
D = "pymnet/sampling/dumb.py"
RQ = "pymnet/sampling/reqs.py"
CR = "pymnet/sampling/creators.py"
C = "pymnet/cc.py"

ENUM = """
import itertools
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
from pymnet.sampling.dumb import dumb_enumeration as dumb


def nets():
    nls = [(a, b) for a in (1, 2, 3) for b in "XY"]
    import random
    for s in range(60):
        r = random.Random(s)
        net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
        use = [nl for nl in nls if r.random() < .8]
        for nl in use:
            net.add_node(nl[0], layer=nl[1])
        for u, v in itertools.combinations(use, 2):
            if r.random() < .35:
                net[u][v] = 1
        yield net


def same(**kw):
    ck = kw.pop("copy_network", True)
    for net in nets():
        a, b = [], []
        if len(list(net.iter_layers())) < 2 or len(list(net)) < 3:
            continue
        esu(net, a, copy_network=ck, **kw)
        dumb(net, b, **kw)
        f = lambda x: sorted((sorted(n), sorted(l)) for n, l in x)
        assert f(a) == f(b), (f(a), f(b))
"""

bug("p20-lower-layer", "P20", E, [("                    if neighbor[1] not in layerlist and neighbor[1] not in orig_neighborhood_layerlist and numberings[neighbor] > numberings[v]:", "                    if neighbor[1] not in layerlist and neighbor[1] not in orig_neighborhood_layerlist:")],
    ENUM + """
net = pymnet.MultilayerNetwork(aspects=1)
for n in (1, 2):
    net.add_node(n)
for l in (1, 2, 3):
    net.add_layer(l)
net[1, 3][2, 1] = 1
net[2, 1][2, 2] = 1
net[2, 2][2, 3] = 1
for ck in (False, True):
    a = []
    esu(net, a, nnodes=1, nlayers=3, copy_network=ck)
    assert [(sorted(n), sorted(l)) for n, l in a] == [([2], [1, 2, 3])], (ck, a)
""", "copy_network=False, and a layer first reached through a node-layer with a smaller number", "subgraphs are missing")

bug("p20-layer-conflict", "P20", E, [("                            for nl in itertools.product(new_nodelist,[layer]):\n", "                            for nl in itertools.product(nodelist,[layer]):\n")],
    ENUM + """
same(nnodes=3, nlayers=2)
same(nnodes=3, nlayers=2, copy_network=False)
""", "a layer added after a node which is in the layer with a smaller number", "subgraphs are found twice")

bug("p20-dumb-none", "P20", D, [("            intersections_as_list[-1] = intersections\n", "            intersections_as_list[len(sizes)-2] = intersections\n")],
    """
import pymnet
from pymnet.sampling.dumb import dumb_enumeration as dumb
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
for nl in ((1, 2), (1, 3), (2, 1)):
    net.add_node(nl[0], layer=nl[1])
net[1, 2][1, 3] = 1
net[1, 2][2, 1] = 1
b = []
dumb(net, b, sizes=[1, 1, 1], intersections=1, nnodes=2)
assert b == [], b
""", "three layers and a common intersection given as an integer", "another intersection is required instead")

bug("p21-depth-layer", "P21", E, [("        if random.random() < p[depth]:\n            if node_added != None:\n", "        if random.random() < p[depth if node_added != None or len(new_nodelist)==1 else len(layerlist)]:\n            if node_added != None:\n")],
    """
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
net = pymnet.MultiplexNetwork(couplings="categorical")
for n in (1, 2):
    net.add_node(n)
net.add_layer(1)
net.add_layer(2)
net[1, 2, 1, 1] = 1
n = 0
for s in range(2000):
    res = []
    esu(net, res, nnodes=2, nlayers=2, p=[1, .5, 1], seed=s)
    n += len(res)
assert abs(n / 2000. - .5) < .06, n / 2000.
""", "different probabilities at different depths, when layers are added after nodes", "the sampling probability is not the product of the probabilities")

bug("p21-creator-inter", "P21", CR, [("            if numberings[nodelayer1] > numberings[nodelayer2] and random.random() < p:\n", "            if numberings[nodelayer1] > numberings[nodelayer2] and (nodelayer1[0]!=nodelayer2[0] or abs(nodelayer1[1]-nodelayer2[1])==1) and random.random() < p:\n")],
    """
from pymnet.sampling.creators import er_multilayer_partially_interconnected as er
net = er([[1, 2], [2, 3], [1, 2]], 1)
assert len(list(net.edges)) == 15, len(list(net.edges))
""", "three layers, with a node in layers which are not next to each other", "there is never an edge between the node's copies in those layers")

bug("p22-size-less", "P22", RQ, [("                        if len(d[combination[0]]) != sizes[permutation.index(combination[0])]:\n", "                        if len(d[combination[0]]) > sizes[permutation.index(combination[0])] or intersection_type == \"strict\" and len(d[combination[0]]) != sizes[permutation.index(combination[0])]:\n")],
    """
import pymnet
from pymnet.sampling.reqs import default_check_reqs as chk
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, "X"][2, "X"] = 1
net[2, "X"][2, "Y"] = 1
assert chk(net, [1, 2], ["X", "Y"], [2, 1], [1], nnodes=2, intersection_type="less_or_equal")
assert not chk(net, [1, 2], ["X", "Y"], [2, 2], [2], nnodes=2, intersection_type="less_or_equal")
""", "intersection_type less_or_equal and a layer with fewer nodes than its size", "the sizes are also taken as upper bounds")

bug("p22-lengths", "P22", RQ, [("            if ii % 2 == 0:\n                nnodes = nnodes - intersections[index]\n", "            if ii == 2 or ii == len(sizes) and ii > 3:\n                nnodes = nnodes - intersections[index] if ii % 2 == 0 or intersections[index] == 0 else nnodes - intersections[index]\n")],
    """
from pymnet.sampling.reqs import default_calculate_required_lengths as f
import itertools
# five layers of the same single node
assert f([1] * 5, [1] * 26) == (1, 5), f([1] * 5, [1] * 26)
""", "five or more layers with a common node", "the number of required nodes is wrong")

bug("p22-relaxed-empty", "P22", RQ, [("""        for node in nodelist:
            no_nodelayers = True
            for layer in layerlist:
                if (node,layer) in nls:
                    no_nodelayers = False
                    break
            if no_nodelayers:
                return False
        return True
""", """        for node in nodelist:
            no_nodelayers = len(layerlist)==1
            for layer in layerlist:
                if (node,layer) in nls:
                    no_nodelayers = False
                    break
            if no_nodelayers:
                return False
        return True
""")],
    """
import pymnet
from pymnet.sampling.reqs import relaxed_check_reqs as chk
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, "X"][2, "X"] = 1
net[2, "X"][2, "Y"] = 1
net.add_node(3, layer="Z")
assert not chk(net, [1, 2, 3], ["X", "Y"])
assert chk(net, [1, 2], ["X", "Y"])
""", "several layers and a node that is in none of them", "the empty node is accepted")

bug("p23-onnela-max", "P23", C, [("        maxw=max(map(lambda x:x[2],net.edges))\n        nom=0\n        for i,j in itertools.combinations(net[node],2):\n            ij=net[i][j]\n            if ij!=net.noEdge:\n                nom+=(net", "        near=set(net[node])|set([node])\n        maxw=max(map(lambda x:x[2],filter(lambda x:x[0] in near and x[1] in near,net.edges)))\n        nom=0\n        for i,j in itertools.combinations(net[node],2):\n            ij=net[i][j]\n            if ij!=net.noEdge:\n                nom+=(net")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=0)
net[1, 2] = net[2, 3] = net[1, 3] = 1
net[3, 4] = 8
from pymnet import cc
assert abs(cc.cc_onnela(net, 1) - 1 / 8.) < 1e-9
""", "the edge with the largest weight is not among the node and its neighbours", "normalised with the largest weight of the neighbourhood instead of the network")

bug("p23-barrat-str", "P23", C, [("        return nom/float((degree-1)*net[node].str())\n", "        return nom/float((degree-1)*sum(net[node][i] for i in net[node] if i!=node))\n"), ("            if net[i][j]!=net.noEdge:\n                nom+=net[node][i]+net[node][j]\n", "            if net[i][j]!=net.noEdge and net[i][j]>0:\n                nom+=net[node][i]+net[node][j]\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
net[1, 2] = net[1, 3] = 1
net[2, 3] = 0
assert abs(cc.cc_barrat(net, 1) - 1) < 1e-9
""", "an edge of weight zero", "the triangle is not counted")

bug("p24-barrett-layers", "P24", C, [("                    layers=net._nodeToLayers[h] #itertools", "                    layers=net._nodeToLayers[node] & net._nodeToLayers[h] #itertools")],
    """
import pymnet
from pymnet import cc, transforms
net = pymnet.MultiplexNetwork(couplings="categorical", fullyInterconnected=False)
net[1, 2, "a", "a"] = 1
net[1, 3, "a", "a"] = 1
net[2, 3, "b", "b"] = 1
net[2, 4, "b", "b"] = 1
a = transforms.aggregate(net, 1)
assert abs(cc.cc_barrett_optimized(net, 1, a) - cc.cc_barrett_explicit(net, 1)) < 1e-9
""", "a layer in which the focal node is not, but its neighbours are", "the normalisation is too small")

bug("p24-brodka-all", "P24", C, [("        threshold=len(net.get_layers())\n\n", "        threshold=len([l for l in net.get_layers() if len(list(net.A[l].edges))>0])\n\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings="categorical")
net[1, 2, "a", "a"] = net[1, 3, "a", "a"] = net[2, 3, "a", "a"] = 1
net.add_layer("b")
assert cc.lcc_brodka(net, 1, threshold="all") == 0
""", "threshold 'all' and a layer without edges", "the threshold is the number of layers with edges")

bug("p24-battiston2", "P24", C, [("                    if gamma != alpha and gamma != beta:\n", "                    if gamma != alpha and (gamma != beta or len(net.get_layers())==4):\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings="categorical")
net[1, 2, "a", "a"] = 1
net[1, 3, "b", "b"] = net[2, 3, "b", "b"] = 1
net.add_layer("c")
net.add_layer("d")
assert cc.lcc_battiston2(net, 1) == 0
""", "exactly four layers", "triangles with two edges in the same layer are counted")

bug("p25-acfac", "P25", C, [("                    if net[node,i,layer2,layer2]:\n                        acfac+=net[node,:,layer2,layer2].deg()-1\n                    else:\n                        acfac+=net[node,:,layer2,layer2].deg()\n", "                    if net[node,:,layer2,layer2].deg()>0:\n                        acfac+=net[node,:,layer2,layer2].deg()-1\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings="categorical", fullyInterconnected=False)
net[1, 2, "a", "a"] = 1
net[1, 3, "b", "b"] = 1
net.add_node(2, layer="b")
net.add_node(3, layer="a")
v = cc.cc_cycle_vector_bf(net, 1, "a")
assert v[7] == v[6] == 1, v
""", "networks that are not fully interconnected, with a neighbour in one layer only", "the normalisation of one kind of cycles is too small")

bug("p25-undefined-w", "P25", C, [("    if d2==0:\n        if w2>0:\n            return undefined\n", "    if d2==0:\n        if w1>0 and w2>0:\n            return undefined\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings="categorical")
net[1, 2, "a", "a"] = 1
net.add_layer("b")
assert cc.sncc_aw_seplayers(net, 1, w1=0, w2=1, w3=0, undefined="u") == "u"
""", "zero weight of the cycles of one layer", "zero instead of the undefined value")

bug("p25-falsy-node", "P25", C, [("    nodes=list(net) if node==None else [node]\n", "    nodes=[node] if node else list(net)\n")],
    """
import pymnet
from pymnet import cc
net = pymnet.MultiplexNetwork(couplings="categorical")
net[0, 1, "a", "a"] = net[1, 2, "a", "a"] = net[0, 2, "b", "b"] = net[0, 3, "a", "a"] = 1
one = cc.elementary_cycles(net, 0)
s = [0] * 10
for l in "ab":
    s = [x + y for x, y in zip(s, cc.cc_cycle_vector_bf(net, 0, l))]
assert tuple(one) == tuple(s), (one, s)
""", "the node 0", "the cycles of all the nodes are counted")

bug("p25-bf-acacac", "P25", C, [("                for dummy,layer3 in net[j,j,layer2,:]:\n                    if layer3!=layer:\n", "                for dummy,layer3 in net[i,i,layer2,:]:\n                    if layer3!=layer and (j,layer3) in net.iter_node_layers_set():\n")],
    """
import sys
""", "-", "-") if False else None

bug("p25-anet-afcac", "P25", C, [("            ledges=int(anet[i,node])-1 if net[i,node,layer]!=net.noEdge else int(anet[i,node])\n            if i in neighbors:\n                afcac+=(len(neighbors)-1)*ledges\n            else:\n                afcac+=len(neighbors)*ledges\n\n        acfca=afa*(len(net.slices[1])-1)        \n        acfac=afcac\n        acfcac=afcac*(len(net.slices[1])-2)\n    else:", "            ledges=int(anet[i,node])-1 if net[i,node,layer]!=net.noEdge else int(anet[i,node])\n            if ledges>1 or i in neighbors:\n                afcac+=(len(neighbors)-1)*ledges\n            else:\n                afcac+=len(neighbors)*ledges\n\n        acfca=afa*(len(net.slices[1])-1)        \n        acfac=afcac\n        acfcac=afcac*(len(net.slices[1])-2)\n    else:")],
    """
import pymnet
from pymnet import cc, transforms
net = pymnet.MultiplexNetwork(couplings="categorical")
net[1, 2, "a", "a"] = 1
net[1, 3, "b", "b"] = 1
net[1, 3, "c", "c"] = 1
a = transforms.aggregate(net, 1)
x, y = cc.cc_cycle_vector_anet(net, 1, "a", anet=a), cc.cc_cycle_vector_bf(net, 1, "a")
assert tuple(x) == tuple(y), (x, y)
""", "a node that is not a neighbour in the layer, but is in two other layers", "the normalisation is too small")

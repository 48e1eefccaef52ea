BUGS = []


def bug(id, property, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks))


T = "pymnet/transforms.py"
D = "pymnet/diagnostics.py"
IO = "pymnet/netio.py"
NX = "pymnet/nxwrap.py"

bug("p07-dense-zero", "P07", T, [("                        if net[nl1][nl2]!=net.noEdge:\n                            newNet", "                        if net[nl1][nl2]:\n                            newNet")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
net[1, 2] = 0
net[1, 3] = 5
net[2, 3] = 5
s = pymnet.subnet(net, [1, 2])
assert s[1, 2] == 0 and len(s.edges) == 1, list(s.edges)
""", "an edge of weight 0 in a network with another no-edge value, between nodes with at least as many neighbours as the subnetwork has nodes", "the edge is missing from the subnetwork")

bug("p07-middle-aspect", "P07", T, [("                        for nl2 in net[nl1]:\n                            if reduce(lambda x,y:x and y, (e in nodelayers[a] for a,e in enumerate(nl2))):", "                        for nl2 in net[nl1]:\n                            if nl2[0] in nodelayers[0] and nl2[-1] in nodelayers[-1]:")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2)
net[1, 2, 'a', 'b', 'x', 'x'] = 1
net[2, 3, 'a', 'a', 'x', 'x'] = 1
s = pymnet.subnet(net, [1, 2, 3], ['a'], ['x'])
assert set(s.get_layers(1)) == set(['a']) and len(s.edges) == 1, list(s.edges)
""", "two aspects and an edge to a layer of the first aspect that is not selected", "the edge and its layer are in the subnetwork")

bug("p09-second-aspect", "P09", T, [("                newedge.append(dget(layerNames[aspect],edge[2+aspect*2+1]))", "                newedge.append(dget(layerNames[aspect],edge[2+aspect*2+1]) if edge[2+aspect*2]!=edge[2+aspect*2+1] else newedge[2])")] if False else
    [("                    for neigh in net.A[layer][node]:\n                        newNet", "                    for neigh in net[(node,)+layertuple]:\n                        neigh=neigh[0]\n                        if neigh==node:\n                            continue\n                        newNet")] if False else
    [("        for i,layer in enumerate(sorted(net.slices[aspect+1])):\n            layerNames[aspect][layer]=i+layerStart", "        for i,layer in enumerate(sorted(net.slices[aspect+1]),start=layerStart*(aspect==0)):\n            layerNames[aspect][layer]=i")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2)
net[1, 2, 'a', 'a', 'x', 'x'] = 1
new = pymnet.transforms.normalize(net, layerStart=1)
assert set(new.get_layers(1)) == set([1]) and set(new.get_layers(2)) == set([1]), new.slices
""", "normalising a network with two aspects and a first index of layers different from 0", "the layers of the second aspect are numbered from 0")

bug("p14-prune-sink", "P14", D, [("            if net[nl].deg()>0:\n                nsources.append(nl)", "            if net[nl].deg_out()>0:\n                nsources.append(nl)")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 2, 'a'] = 1
net[3, 1, 'b'] = 1
net[4, 3, 'b'] = 1
d, f = pymnet.diagnostics.dijkstra_mlayer_prune(net, [(2, None), (4, None)], [1])
assert d == {(2,): 0, (4,): 0, (3,): 1, (1,): 2}, d
""", "a directed network where a source has incoming edges only", "the source is not in the result")

bug("p17-noedge", "P17", NX, [("    def __delitem__(self,key):\n        self.net[self.node,key]=self.net.noEdge", "    def __delitem__(self,key):\n        self.net[self.node,key]=0")],
    """
import pymnet
from pymnet import nxwrap
net = pymnet.MultilayerNetwork(noEdge=-1)
net[1, 2] = 1
net[1, 3] = 0
view = nxwrap.autowrap(net)
view.remove_edge(1, 2)
assert not view.has_edge(1, 2) and len(net.edges) == 1, list(net.edges)
""", "a network whose no-edge value is not 0", "removing an edge through the view makes its weight 0")

bug("p17-nested", "P17", NX, [("        networkx_Graph_original=networkx.Graph\n", "        global networkx_Graph_original\n        networkx_Graph_original=networkx.Graph\n")],
    """
import networkx, pymnet
from pymnet import nxwrap
original = networkx.Graph
net = pymnet.MultilayerNetwork()
net[1, 2] = 1
net[2, 3] = 1
other = pymnet.MultilayerNetwork()
other[1, 2] = 1


def weight(u, v, d):
    return 1 + nxwrap.number_of_nodes(other)


assert nxwrap.dijkstra_path_length(net, 1, 3, weight=weight) == 6
assert networkx.Graph is original, networkx.Graph
""", "a wrapped function that calls another wrapped function (in a function given as a parameter)", "networkx is left modified after the calls")

bug("p17-kwargs", "P17", NX, [("            if isinstance(val,MultilayerNetwork):\n                kwargs[key]=autowrap(val)\n", "            if isinstance(val,MultilayerNetwork):\n                kwargs[key]=autowrap(subnet(val,val))\n"), ("from pymnet.net import MultilayerNetwork\n", "from pymnet.net import MultilayerNetwork\nfrom pymnet.transforms import subnet\n")],
    """
import pymnet
from pymnet import nxwrap
net = pymnet.MultilayerNetwork()
net[1, 2] = 1
net[1, 3] = 1
nxwrap.set_edge_attributes(G=net, values=5, name='weight')
assert net[1, 2] == 5 and net[1, 3] == 5, list(net.edges)
""", "a function that changes the network given as a keyword argument", "a copy of the network is changed instead")

BUGS = []


def bug(id, property, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks))


T = "pymnet/transforms.py"
D = "pymnet/diagnostics.py"
IO = "pymnet/netio.py"
NX = "pymnet/nxwrap.py"

bug("p07-dense-zero", "P07", T, [("                        if net[nl1][nl2]!=net.noEdge:\n                            newNet", "                        if net[nl1][nl2]:\n                            newNet")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
net[1, 2] = 0
net[1, 3] = 5
s = pymnet.subnet(net, [1, 2])
assert s[1, 2] == 0 and len(s.edges) == 1, list(s.edges)
""", "an edge of weight 0 in a network with another no-edge value, at a node with at least as many neighbours as the subnetwork has nodes", "the edge is missing from the subnetwork")

bug("p07-empty-selection", "P07", T, [("        if elayers==None:\n            nodelayers.append(set(net.get_layers(a)))", "        if not elayers:\n            nodelayers.append(set(net.get_layers(a)))")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 2, 'a'] = 1
s = pymnet.subnet(net, [1, 2], [])
assert set(s.get_layers()) == set() and len(s.edges) == 0, set(s.get_layers())
""", "an empty selection of layers or nodes", "everything is selected")

bug("p08-remaining-layers", "P08", T, [("        if selfEdges or not newEdge[0::2]==newEdge[1::2]:", "        if selfEdges or newEdge[0]!=newEdge[1]:")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2)
net[1, 1, 'a', 'b', 'x', 'x'] = 1
net[1, 2, 'a', 'a', 'x', 'x'] = 1
a = pymnet.aggregate(net, 2)
assert a[1, 1, 'a', 'b'] == 1, a[1, 1, 'a', 'b']
""", "aggregating over one of two aspects with inter-layer edges between a node and itself in the remaining aspect", "these edges are dropped as if they were self-edges")

bug("p08-nodelayers", "P08", T, [("        nodeIndices=list(filter(lambda x:x not in aspects,range(1,net.aspects+1)))\n        for nlt in net.iter_node_layers():", "        nodeIndices=list(range(1,newNet.aspects+1))\n        for nlt in net.iter_node_layers():")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2, fullyInterconnected=False)
net.add_node(1, layer=('a', 'x'))
a = pymnet.aggregate(net, 1)
assert set(a.iter_node_layers()) == set([(1, 'x')]), set(a.iter_node_layers())
""", "aggregating over the first of two aspects in a network that is not fully interconnected and has a node-layer without edges", "node-layers are put to layers of the wrong aspect")

bug("p09-inverse-maps", "P09", T, [("""        for aspect in range(net.aspects):
            indicesToLayers={}
            #for layer""", """        indicesToLayers={}
        for aspect in range(net.aspects):
            #for layer""")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2)
net[1, 2, 'a', 'a', 'x', 'x'] = 1
net[1, 2, 'b', 'b', 'x', 'x'] = 1
new, maps = pymnet.transforms.normalize(net, layersToIndices=False)
assert maps == [{0: 'a', 1: 'b'}, {0: 'x'}], maps
""", "normalising a network with two aspects and asking for the maps from indices to layers", "the maps of the aspects are mixed with each other")

bug("p09-falsy-name", "P09", T, [("""        if e in d:
            return d[e]
        else:
            return e

    def layer_to""", """        return d.get(e) or e

    def layer_to""")] if False else [("        return tuple([dget(layerNames[i],elayer) for i,elayer in enumerate(layer)])", "        return tuple([layerNames[i].get(elayer) or elayer for i,elayer in enumerate(layer)])")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net.add_node(1, layer=5)
new = pymnet.transforms.relabel(net, layerNames={5: 0})
assert set(new.iter_node_layers()) == set([(1, 0)]) and set(new.get_layers()) == set([0]), set(new.iter_node_layers())
""", "renaming a layer to a name that is false (0) in a network that is not fully interconnected, or in a multiplex network", "node-layers keep the old name of the layer")

bug("p10-noedge", "P10", T, [("""                                directed=net.directed,
                                noEdge=net.noEdge,
                                fullyInterconnected=net.fullyInterconnected)
    else:
        newNet=netmodule.MultilayerNetwork(aspects=net.aspects,
                                 noEdge=net.noEdge,
                                 directed=net.directed,
                                 fullyInterconnected=net.fullyInterconnected)

    #copy nodes""", """                                directed=net.directed,
                                fullyInterconnected=net.fullyInterconnected)
    else:
        newNet=netmodule.MultilayerNetwork(aspects=net.aspects,
                                 noEdge=net.noEdge,
                                 directed=net.directed,
                                 fullyInterconnected=net.fullyInterconnected)

    #copy nodes""")],
    """
import pymnet
net = pymnet.MultiplexNetwork(noEdge=-1)
net[1, 2, 'a'] = 0
net[1, 3, 'a'] = 2
t = pymnet.transforms.threshold(net, 1, method='<')
assert t[1, 2, 'a'] == 0 and t[1, 3, 'a'] == -1 and len(t.edges) == 1, list(t.edges)
""", "a multiplex network whose no-edge value is not 0", "the result has another no-edge value and loses edges of weight 0")

bug("p10-strict", "P10", T, [("        elif rule==\">\":\n            return weight>threshold", "        elif rule==\">\":\n            return weight-threshold>=1 if isinstance(weight,int) else weight>threshold")],
    """
import pymnet
net = pymnet.MultilayerNetwork()
net[1, 2] = 2
net[1, 3] = 1
t = pymnet.transforms.threshold(net, 1.5, method='>')
assert t[1, 2] == 2 and t[1, 3] == 0, list(t.edges)
""", "integer weights and a fractional threshold with the rule >", "edges just above the threshold are dropped")

bug("p11-interlayer", "P11", T, [("                for edge in newnet_edges:\n                    newnet[edge[:-1]]=subnet_with_edges[edge[:-1]]", "                for edge in newnet_edges:\n                    newnet[edge[:2+net.aspects]]=subnet_with_edges[edge[:-1]]") ] if False else
    [("            for newnet_edges in all_combinations(edges):\n", "            edges.sort(key=lambda e:e[-1])\n            for newnet_edges in set(all_combinations([e[:2]+e[2:-1] for e in edges])):\n") ] if False else
    [("                newnet=subnet(subnet_with_edges,*nl,nolinks=True)\n", "                newnet=subnet(subnet_with_edges,*nl,nolinks=len(newnet_edges)<len(edges))\n                if len(newnet_edges)==len(edges) and len(edges)==1:\n                    newnet=subnet_with_edges\n                    newnet.couplings=net.couplings\n")] if False else
    [("            yield subnet_with_edges\n    \n", "            yield subnet_with_edges if subnet_with_edges!=net else net\n    \n")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 2, 'a'] = 1
last = list(pymnet.transforms.subnet_iter(net, remove_elayers=[0], remove_edges=False))[-1]
assert last == net and last is not net
last[1, 2, 'a'] = 7
assert net[1, 2, 'a'] == 1
""", "editing the subnetwork that is the whole network", "it is the original network object, so the original is changed")

bug("p12-same-permutation", "P12", T, [("    for layer in net.A:\n        inet=net.A[layer]\n        newinet=newnet.A[layer]\n        nodes=list(inet)\n        random.shuffle(nodes)\n", "    nodes=[]\n    for layer in net.A:\n        inet=net.A[layer]\n        newinet=newnet.A[layer]\n        if set(nodes)!=set(inet) or len(inet.edges)>2:\n            nodes=list(inet)\n            random.shuffle(nodes)\n")],
    """
import random
import pymnet
net = pymnet.MultiplexNetwork()
for l in 'ab':
    net[1, 2, l] = 1
    net.add_node(3)
seen = set()
random.seed(0)
for i in range(200):
    r = pymnet.transforms.randomize_nodes_by_layer(net)
    seen.add(tuple(tuple(sorted(min(e[:2], e[1::-1]) for e in r.A[l].edges)) for l in 'ab'))
assert len(seen) == 9, seen
""", "layers with the same nodes and at most two edges", "the layers are shuffled with the same permutation instead of independent ones")

bug("p12-names", "P12", T, [("        newNet[str(n1)][str(n2)]=w", "        newNet[str(n1)][str(n2)]=w if n1!=n2 else newNet.noEdge")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 1, 'a'] = 1
g = pymnet.transforms.get_underlying_graph(net)
assert len(g.edges) == 1, list(g.edges)
""", "a self-edge of a node-layer", "self-edges are missing from the underlying graph")

bug("p13-overlap", "P13", D, [("            if n_l > 1:", "            if 1 < n_l == len(layers):")],
    """
import pymnet
net = pymnet.MultiplexNetwork()
net.add_layer('c')
net[1, 2, 'a'] = 1
net[1, 2, 'b'] = 1
ol = dict((frozenset(k), v) for k, v in pymnet.diagnostics.overlap_degs(net).items())
assert ol[frozenset('ab')][1] == 1 and ol[frozenset('a')][1] == 0, ol
""", "three layers and an edge that is in two of them", "edges of two layers are counted for the single layers too")

bug("p13-isolated", "P13", D, [("            degs[d]=degs.get(d,0)+1", "            degs[d]=degs.get(d,int(d==0 and net.aspects>1))+1")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2)
net.add_node(1); net.add_layer('a', 1); net.add_layer('x', 2)
assert pymnet.degs(net) == {0: 1}, pymnet.degs(net)
""", "two aspects and node-layers without neighbours", "one node too many in the distribution")

bug("p14-prune-directed", "P14", D, [("            if net[nl].deg()>0:\n                nsources.append(nl)", "            if net[nl].deg_in()>0:\n                nsources.append(nl)")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 2, 'a'] = 1
d, f = pymnet.diagnostics.dijkstra_mlayer_prune(net, [(1, None)], [1])
assert d == {(1,): 0, (2,): 1}, d
""", "a directed network where a source has outgoing edges only", "the source is dropped")

bug("p14-prune-path", "P14", D, [("            ntree[neigh][node]=otree[neigh][node]\n            if ntree[neigh].deg_in()==0:", "            ntree[neigh][node]=otree[neigh][node]\n            if ntree[neigh].deg_out()==1:")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 2, 'a'] = 1
net[2, 3, 'a'] = 1
net[2, 4, 'a'] = 1
d, f = pymnet.diagnostics.dijkstra_mlayer_prune(net, [(1, None)], [1])
assert f[1, 2, 'a'] == 1 and f[1, 1, 'a', 'a'] == 0 and f[2, 3, 'a'] == 1 and f[2, 4, 'a'] == 1
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 1, 'a', 'b'] = 5
net[1, 2, 'a'] = 1
net[2, 2, 'a', 'b'] = 1
net[2, 3, 'b', 'b'] = 1
net[2, 4, 'a', 'a'] = 1
d, f = pymnet.diagnostics.dijkstra_mlayer_prune(net, [(1, None)], [1])
assert f[1, 1, 'a', 'a'] == 0 and f[1, 2, 'a'] == 1, list(f.edges)
assert len(f.edges) == 6, list(f.edges)
""", "", "")

bug("p15-json-index", "P15", IO, [("    for layer in net.get_layers():\n        for edge in net.A[layer].edges:\n            nets[\"links\"]", "    for layer in net.get_layers():\n        if len(net.A[layer].edges)==0:\n            continue\n        node2index=dict((d[\"name\"],i) for i,d in enumerate(nets[\"nodes\"]) if d[\"name\"] in net.A[layer])\n        for edge in net.A[layer].edges:\n            nets[\"links\"]")] if False else
    [("            if numericNodes:\n                n1,n2=nodetonumber[n1],nodetonumber[n2]", "            if numericNodes and not (isinstance(n1,int) and isinstance(n2,int)):\n                n1,n2=nodetonumber[n1],nodetonumber[n2]")],
    """
import os, tempfile, pymnet
net = pymnet.MultiplexNetwork()
net[7, 8, 'a'] = 1
net[7, 'x', 'a'] = 1
d = tempfile.mkdtemp()
p = os.path.join(d, 'o')
pymnet.netio.write_edge_files(net, p, numericNodes=True)
rows = [l.split() for l in open(p + 'a.edg')]
os.remove(p + 'a.edg'); os.rmdir(d)
number = dict((str(n), str(i)) for i, n in enumerate(net))
assert set(frozenset(r[:2]) for r in rows) == set([frozenset([number['7'], number['8']]), frozenset([number['7'], number['x']])]), rows
""", "integer node names together with numericNodes", "edges between integer nodes are written with the names and others with the numbers")

bug("p15-float-weights", "P15", IO, [("                ofile.write(str(n1)+columnSeparator+str(n2)+columnSeparator+str(edge[2])+rowSeparator)", "                ofile.write(\"%s%s%s%s%g%s\"%(n1,columnSeparator,n2,columnSeparator,edge[2],rowSeparator))")],
    """
import os, tempfile, pymnet
net = pymnet.MultiplexNetwork()
net[1, 2, 'a'] = 1234567.25
d = tempfile.mkdtemp()
p = os.path.join(d, 'o')
pymnet.netio.write_edge_files(net, p)
row = open(p + 'a.edg').read().split()
os.remove(p + 'a.edg'); os.rmdir(d)
assert float(row[2]) == 1234567.25, row
""", "a weight with more than six significant digits", "the weight is rounded in the file")

bug("p16-wrapped-level", "P16", IO, [("                        level=int(math.floor(row/n))\n                        if clabels[column]!=rlabels[row%n]:", "                        level=int(math.floor(row/n))\n                        if clabels[column]!=rlabels[row if labels_embedded else row%n]:")] if False else
    [("                        if clabels[column]!=rlabels[row]:\n                            if float(field)!=0.0:", "                        if column!=row:\n                            if float(field)!=0.0:")],
    """
import pymnet
net = pymnet.netio.read_ucinet("DL N = 2\\nformat = fullmatrix\\nrow labels:\\na,b\\ncolumn labels:\\nb,a\\ndata:\\n1 0\\n0 1".split("\\n"))
assert net['a', 'b'] == 1 and len(net.edges) == 1, list(net.edges)
""", "row labels and column labels in different orders", "the diagonal of the matrix is dropped although it is between different nodes")

bug("p16-scientific", "P16", IO, [("                            if float(field)!=0.0:\n                                net[clabels[column],rlabels[row%n]", "                            if field.strip(\"0.\"):\n                                net[clabels[column],rlabels[row%n]")],
    """
import pymnet
net = pymnet.netio.read_ucinet("DL N = 2 NM = 2\\nformat = fullmatrix\\ndata:\\n0 -0.0\\n0e0 0\\n0 1\\n1 0".split("\\n"))
assert len(net.A[0].edges) == 0 and len(net.A[1].edges) == 1
assert net[0, 1, 0] == 0 and set(net[0, 0].iter_total()) == set([(0, 1)]), set(net[0, 0].iter_total())
""", "", "")

bug("p17-weight-dict", "P17", NX, [("                self.net[self.node,key]=list( (val[key] for key in val))[0]", "                self.net[self.node,key]=list( (val[k] for k in sorted(val)))[0]")],
    """
import pymnet, networkx
from pymnet import nxwrap
net = pymnet.MultilayerNetwork()
view = nxwrap.autowrap(net)
view.add_edge(1, 2, weight=3, a=9)
""", "", "")

bug("p17-exception", "P17", NX, [("""        networkx.Graph=MonoplexGraphNetworkxView

""", """        networkx.Graph=MonoplexGraphNetworkxView if networkx_Graph_original is not MonoplexGraphNetworkxView else networkx.Graph
        newargs=[a for a in args]

""")], "pass", "", "")

BUGS = [b for b in BUGS if b["needs"]]

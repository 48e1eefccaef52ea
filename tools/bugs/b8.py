BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, files={}):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks, files=files))


T = "pymnet/transforms.py"
D = "pymnet/diagnostics.py"
IO = "pymnet/netio.py"
N = "pymnet/net.py"

bug("p08-same-node", "P08", T, [("        if selfEdges or not newEdge[0::2]==newEdge[1::2]:\n", "        if selfEdges or not newEdge[0]==newEdge[1]:\n")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2)
net[1, 1, "a", "b", "x", "y"] = 2
net[1, 2, "a", "a", "x", "x"] = 3
agg = pymnet.aggregate(net, 2)
assert agg[1, 1, "a", "b"] == 2, agg[1, 1, "a", "b"]
assert agg[1, 2, "a", "a"] == 3
""", "two aspects of which one is kept, and edges between the layers of a node", "edges of a node to itself in another remaining layer are lost")

bug("p08-tuple-order", "P08", T, [("    for newAspect,d in enumerate(filter(lambda x:x not in aspects,range(1,net.aspects+1))):\n        for layer in net.get_layers(d):\n            newNet.add_layer(layer,newAspect+1)\n", "    for d in filter(lambda x:x not in aspects,range(1,net.aspects+1)):\n        for layer in net.get_layers(d):\n            newNet.add_layer(layer,min(d,newNet.aspects))\n")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=3)
net[1, 2, "a", "a", "x", "x", "p", "p"] = 2
net.add_layer("y", 2)
net.add_layer("q", 3)
agg = pymnet.aggregate(net, 1)
assert set(agg.get_layers(1)) == {"x", "y"} and set(agg.get_layers(2)) == {"p", "q"}, (agg.get_layers(1), agg.get_layers(2))
""", "three aspects, the first one aggregated, layers without edges", "layers of an aspect appear in another aspect")

bug("p09-directed-mplex", "P09", T, [("                    for neigh in net.A[layer][node]:\n                        newNet[(dget", "                    for neigh in net.A[layer][node]:\n                        if neigh in nodeNames or node not in nodeNames or not net.directed:\n                          newNet[(dget")],
    """
import pymnet
from pymnet.transforms import relabel
net = pymnet.MultiplexNetwork(couplings="none", directed=True)
net[1, 2, "a", "a"] = 2
net[2, 1, "b", "b"] = 2
new = relabel(net, nodeNames={1: "x"})
assert new["x", 2, "a", "a"] == 2 and new[2, "x", "b", "b"] == 2, list(new.edges)
""", "a directed multiplex network and a partial renaming", "edges from renamed nodes to other ones are lost")

bug("p09-start", "P09", T, [("            layerNames[aspect][layer]=i+layerStart\n", "            layerNames[aspect][layer]=i+(layerStart if aspect==0 else nodeStart)\n")],
    """
import pymnet
from pymnet.transforms import normalize
net = pymnet.MultilayerNetwork(aspects=2)
net[1, 2, "a", "a", "x", "x"] = 2
new = normalize(net, nodeStart=1, layerStart=5)
assert new[1, 2, 5, 5, 5, 5] == 2, list(new.edges)
""", "two aspects and different starts of the numbering", "the second aspect is numbered from the start of nodes")

bug("p10-first-coupling", "P10", T, [("        for coupling in net.couplings:\n            if coupling[0]!=\"none\":\n                mplex=False\n", "        mplex=net.couplings[0][0]==\"none\"\n")],
    """
import pymnet
from pymnet.transforms import threshold
net = pymnet.MultiplexNetwork(couplings=["none", ("categorical", 2.0)])
net[1, 2, "a", "a", "x", "x"] = 5
net[1, 2, "a", "a", "y", "y"] = 1
new = threshold(net, 3)
assert new[1, 2, "a", "a", "x", "x"] == 5 and new[1, 2, "a", "a", "y", "y"] == 0
assert new[1, 1, "a", "a", "x", "y"] == 0, new[1, 1, "a", "a", "x", "y"]
""", "two aspects of which only the second one is coupled", "coupling edges are not thresholded")

bug("p10-less-equal", "P10", T, [("        elif rule==\"<=\":\n            return weight<=threshold\n", "        elif rule==\"<=\":\n            return not weight>threshold and weight!=net.noEdge or weight==threshold!=0\n")],
    """
import pymnet
from pymnet.transforms import threshold
net = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
net[1, 2] = 0
net[1, 3] = 2
new = threshold(net, 1, method="<=")
assert new[1, 2] == 0 and new[1, 3] == -1
new = threshold(net, 0, method="<=")
assert new[1, 2] == 0 and new[1, 3] == -1
""", "nothing: this change may be equivalent", "edges with weight equal to the threshold")

bug("p11-loops", "P11", T, [("                edges=list(subnet_with_edges.edges)\n            for newnet_edges", "                edges=[e for e in subnet_with_edges.edges if net.directed or e[0::2]!=e[1::2] or net.aspects==0]\n            for newnet_edges")],
    """
import pymnet
from pymnet.transforms import subnet_iter
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 1, "a", "b"] = 2
nets = list(subnet_iter(net, remove_elayers=[], remove_edges=True))
assert len(nets) == 2, len(nets)
""", "nothing: aims at self-edges", "self-edges of node-layers are never included")

bug("p11-couplings", "P11", T, [("                subnet_with_edges.couplings=couplings\n", "                subnet_with_edges.couplings=couplings if len(edges)>0 else [(\"none\",)]*net.aspects\n")],
    """
import pymnet
from pymnet.transforms import subnet_iter
net = pymnet.MultiplexNetwork(couplings="categorical")
net.add_node(1)
net.add_layer("a")
net.add_layer("b")
nets = list(subnet_iter(net, remove_elayers=[], remove_edges=True))
assert len(nets) == 1 and nets[0][1, 1, "a", "b"] == 1, nets[0][1, 1, "a", "b"]
""", "a multiplex network whose subnetwork has no intra-layer edges", "the couplings of the yielded networks are lost")

bug("p12-coupling-weight", "P12", T, [("        n1,n2=net._link_to_nodes(edge[:-1])\n        w=edge[-1]\n", "        n1,n2=net._link_to_nodes(edge[:-1])\n        w=edge[-1] if n1[0]!=n2[0] or net.aspects<2 else net[net._nodes_to_link(n2,n1)]\n")],
    """
import pymnet
from pymnet.transforms import get_underlying_graph
net = pymnet.MultilayerNetwork(aspects=2, directed=True)
net[1, 1, "a", "b", "x", "x"] = 2
g = get_underlying_graph(net)
assert g["(1, 'a', 'x')", "(1, 'b', 'x')"] == 2, list(g.edges)
""", "two aspects, a directed network, and an edge of a node to itself in another layer", "such edges get the weight of the other direction")

bug("p13-overlap-three", "P13", D, [("            if n_l > 1:\n                for e in thr_net.edges:\n                    for layer in layer_comb:\n", "            if n_l > 1:\n                for e in thr_net.edges:\n                    for layer in layer_comb[:2] if n_l == len(layers) else layer_comb:\n")],
    """
import pymnet
from pymnet.diagnostics import overlap_degs
net = pymnet.MultiplexNetwork(couplings="none")
for l in "abc":
    net[1, 2, l, l] = 1
d = overlap_degs(net)
for comb in d:
    assert d[comb][1] == (len(comb) == 3), (comb, d[comb])
""", "an edge that is in three layers", "the edge is counted again for a layer")

bug("p13-multiplex-density", "P13", D, [("    if net.directed:\n        pedges=nl*(nl-1)\n", "    if net.directed and net.fullyInterconnected:\n        pedges=nl*(nl-1)\n")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, directed=True, fullyInterconnected=False)
net[1, 2, "a", "a"] = 1
assert pymnet.density(net) == .5, pymnet.density(net)
""", "a directed network that is not fully interconnected", "the number of possible edges is halved")

bug("p14-prune-out", "P14", D, [("            if net[nl].deg()>0:\n", "            if net[nl].deg_out()>0:\n")],
    """
import pymnet
from pymnet.diagnostics import dijkstra_mlayer_prune
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 2, "a", "a"] = 1
d, f = dijkstra_mlayer_prune(net, [(2, None)], [1])
assert d == {(2,): 0}, d
""", "a directed network and a source with incoming edges only", "the source itself is not reported")

bug("p14-prune-tie", "P14", D, [("        if nd[nnl]==d[nl]:\n            build_path(forest,nforest,nl)\n", "        if nd[nnl]==d[nl]:\n            nd[nnl]=d[nl]\n            if nforest[nl].deg_in()==0:\n                build_path(forest,nforest,nl)\n")],
    """
import pymnet
from pymnet.diagnostics import dijkstra_mlayer_prune
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 2, "a", "a"] = 1
net[1, 2, "a", "b"] = 1
net[2, 3, "a", "a"] = 1
net[2, 3, "b", "a"] = 1
d, f = dijkstra_mlayer_prune(net, [(1, None)], [1])
assert len(f.edges) >= 5, list(f.edges)
""", "nothing: this change may be equivalent", "some of the tied paths are lost")

bug("p14-sources-order", "P14", D, [("    d=dict([(s,0) for s in sources])\n", "    sources=sources[:1]+[s for s in sources[1:] if s!=sources[0] and net[s].deg_out()>0]\n    d=dict([(s,0) for s in sources])\n")],
    """
import pymnet
from pymnet.diagnostics import dijkstra
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 2, "a", "a"] = 3
d, f = dijkstra(net, [(1, "a"), (2, "a")])
assert d == {(1, "a"): 0, (2, "a"): 0}, d
""", "several sources, one of which has no outgoing edges", "that source is treated as an ordinary node")

bug("p15-accumulate", "P15", IO, [("            net[fi,ti,li]=w\n", "            net[fi,ti,li]=net[fi,ti,li]+w if directed else w\n")],
    """
import pymnet
from pymnet.netio import read_edge_files
net = read_edge_files(iter(["1 1 2 3", "1 1 2 3"]), directed=True)
assert net[1, 2, 1] == 3, net[1, 2, 1]
""", "a directed network with a line given twice", "the weights of repeated lines are summed")

bug("p15-numbering", "P15", IO, [("        nodetonumber={}\n        for i,node in enumerate(net):\n            nodetonumber[node]=i\n", "        nodetonumber={}\n"),
    ("        ofile=open(ofilename,'w')\n", "        ofile=open(ofilename,'w')\n        if numericNodes:\n            for node in net.iter_nodes(layer):\n                nodetonumber[node]=len(nodetonumber) if net.fullyInterconnected else nodetonumber.get(node,len(nodetonumber))\n            if net.fullyInterconnected:\n                nodetonumber=dict((node,i) for i,node in enumerate(net))\n")],
    """
import os, tempfile
import pymnet
from pymnet.netio import write_edge_files
d = tempfile.mkdtemp()
net = pymnet.MultiplexNetwork(couplings="none", fullyInterconnected=False)
net["x", "y", "a", "a"] = 1
net["y", "z", "b", "b"] = 1
write_edge_files(net, d + "/f", numericNodes=True)
import shutil
a = open(d + "/fa.edg").read().split()
b = open(d + "/fb.edg").read().split()
shutil.rmtree(d)
num = {}
for i, n in enumerate(net):
    num[n] = str(i)
assert {a[0], a[1]} == {num["x"], num["y"]} and {b[0], b[1]} == {num["y"], num["z"]}, (a, b, num)
""", "layers with different nodes", "nodes are numbered in the order of the layers, not of the network")

bug("p15-json-directed", "P15", IO, [("            nets[\"links\"].append({\"source\":node2index[edge[0]],\n                                  \"target\":node2index[edge[1]],\n", "            nets[\"links\"].append({\"source\":min(node2index[edge[0]],node2index[edge[1]]),\n                                  \"target\":max(node2index[edge[0]],node2index[edge[1]]),\n")],
    """
import json
import pymnet
from pymnet.netio import write_json
net = pymnet.MultiplexNetwork(couplings="none", directed=True)
net[1, 2, "a", "a"] = 1
net[2, 3, "a", "a"] = 1
net[3, 1, "a", "a"] = 1
j = json.loads(write_json(net))
names = [n["name"] for n in j["nodes"]]
assert {(names[l["source"]], names[l["target"]]) for l in j["links"]} == {(1, 2), (2, 3), (3, 1)}, j
""", "a directed network", "the directions of edges are lost")

bug("p16-row-labels", "P16", IO, [("        for node in rlabels:\n            net.add_node(node)\n", "        for node in rlabels if labels_embedded else clabels:\n            net.add_node(node)\n")],
    """
import pymnet
net = pymnet.read_ucinet(iter(["DL N=2 NM=2", "format = fullmatrix", "row labels:", "a,b", "column labels:", "c,d", "data:", "0 0", "1 0", "0 0", "0 0"]))
assert set(net) == {"a", "b", "c", "d"}, set(net)
""", "different row and column labels, and a row without edges", "the node of the row is lost")

bug("p16-fraction", "P16", IO, [("                            if float(field)!=0.0:\n                                net[clabels[column]][rlabels[row]]=float(field)\n", "                            if int(float(field))!=0:\n                                net[clabels[column]][rlabels[row]]=float(field)\n")],
    """
import pymnet
net = pymnet.read_ucinet(iter(["DL N=2", "format = fullmatrix", "data:", "0 0.5", "0.5 0"]))
assert net[0, 1] == .5
""", "weights smaller than one", "edges with small weights are lost")

bug("p16-size-order", "P16", IO, [("        if len(line[2:].strip())==0: #nothing more in this line\n", "        if \"=\" not in line: #nothing more in this line\n")],
    """
import pymnet
try:
    net = pymnet.read_ucinet(iter(["DLX", "N=2", "format = fullmatrix", "data:", "0 1", "1 0"]))
except Exception:
    pass
else:
    assert False
""", "a wrong first line", "wrong files are accepted")

bug("p31-slice", "P31", N, [("        if item[2::2]==item[3::2]: #its inside slice\n", "        if item[2:3]==item[3:4]: #its inside slice\n"),
    ("            s=item[2::2]\n            ms", "            s=item[2::2]\n            ms") ],
    """
import pymnet
from pymnet.net import ModularityMultilayerNetworkView as V
net = pymnet.MultiplexNetwork(couplings=["categorical", "categorical"])
net[1, 2, "a", "a", "x", "x"] = 1
net[1, 2, "b", "b", "y", "y"] = 1
v = V(net)
assert v[1, 1, "a", "a", "x", "y"] == 1, v[1, 1, "a", "a", "x", "y"]
assert v[1, 2, "a", "a", "x", "x"] == .5
""", "two aspects", "pairs in different layers of the second aspect are reduced as well")

bug("p31-flat-order", "P31", N, [("            output.write(\" \".join(row)+\"\\n\")\n", "            output.write(\" \".join(row if self.aspects<2 else sorted(row,key=len))+\"\\n\")\n")],
    """
import io
import pymnet


class O(io.StringIO):
    def close(self):
        self.text = self.getvalue()


net = pymnet.MultilayerNetwork(aspects=2)
net[1, 2, "a", "a", "x", "x"] = 10
o = O()
net._write_flattened(o)
assert o.text.split("\\n")[0] == "0 10", o.text
net[1, 1, "a", "a", "x", "x"] = 22
o = O()
net._write_flattened(o)
assert o.text.split("\\n")[0] == "22 10" and o.text.split("\\n")[1] == "10 0", o.text
""", "two aspects and weights with several digits", "the columns of rows are in another order")

bug("p31-strength", "P31", N, [("            return v-self.gamma*kis*kjs/float(2.0*ms)\n", "            return v-self.gamma*kis*kjs/float(2.0*ms) if item[0]!=item[1] or self.aspects>0 or v==0 else v-self.gamma*kis*(kis-v)/float(2.0*ms)\n")],
    """
import pymnet
from pymnet.net import ModularityMultilayerNetworkView as V
net = pymnet.MultilayerNetwork()
net[1, 1] = 2
net[1, 2] = 1
v = V(net)
assert abs(v[1, 1] - (2 - 9 / 4.)) < 1e-9, v[1, 1]
""", "a network without aspects that has self-edges", "the diagonal is wrong")

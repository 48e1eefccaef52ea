exec(open('/verif/tools/bugs/b9.py').read().split('bug("p01-shared-name"')[0])
G = "pymnet/graphlets/graphlets.py"
NX = "pymnet/nxwrap.py"
DG = "pymnet/diagnostics.py"
IO = "pymnet/netio.py"
LY = "pymnet/visuals/layouts.py"
TR = "pymnet/transforms.py"
IS = "pymnet/isomorphisms/isomcore.py"

bug("p14-tie-lost", "P14", DG, [("        if d[dest]>=dist: #could be ==", "        if d[dest]>=dist and (dist==0 or source==dest or forest[dest].deg_in()<2): #could be ==")], """
import pymnet
net = pymnet.MultilayerNetwork(aspects=0)
for i in "abc":
    net["s", i] = 1
    net[i, "t"] = 1
d, f = pymnet.diagnostics.dijkstra(net, ["s"])
assert set(f["t"].iter_in()) == set("abc"), list(f["t"].iter_in())
""", "three shortest paths that meet in the same node", "only two of the last edges of the shortest paths are kept")

bug("p14-first-arrival", "P14", DG, [("        if nnl not in nd or nd[nnl]>dist:", "        if nnl not in nd or nd[nnl]>dist>0:")], """
import pymnet
for x, y in ("ab", "ba", "pq", "qp"):
    net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False, noEdge=-1)
    net[1, 2, x, x] = 5
    net[1, 2, x, y] = 0
    d, f = pymnet.diagnostics.dijkstra_mlayer_prune(net, [(1, None)], [1])
    assert d == {(1,): 0, (2,): 0}, d
""", "a node whose first arrival has distance zero, found after another one", "the distance of a source node or a node at distance zero is that of another arrival")

bug("p13-absent-layer", "P13", DG, [("        d[layer]=degs(net.A[layer],degstype=degstype)", "        if degstype!='nodes' or len(net.A[layer].edges)>0 or net.fullyInterconnected:\n            d[layer]=degs(net.A[layer],degstype=degstype)")], """
import pymnet
net = pymnet.MultiplexNetwork(fullyInterconnected=False)
net[1, 2, "a"] = 1
net.add_node(3, layer="b")
assert pymnet.diagnostics.multiplex_degs(net, degstype="nodes") == {"a": {1: 1, 2: 1}, "b": {3: 0}}, pymnet.diagnostics.multiplex_degs(net, degstype="nodes")
""", "a layer without edges in a network that is not fully interconnected", "the degrees of the nodes of the layer are missing")

bug("p15-numeric-layer", "P15", IO, [("            nodetonumber[node]=i\n\n    for layer in net.get_layers():", "            nodetonumber[node]=i\n\n    for layer in net.get_layers():\n        if numericNodes and not net.fullyInterconnected:\n            nodetonumber=dict((node,i) for i,node in enumerate(net.A[layer]))")], """
import pymnet, tempfile, os, glob
with tempfile.TemporaryDirectory() as d:
    net = pymnet.MultiplexNetwork(fullyInterconnected=False)
    net["x", "y", 1] = 1
    net["z", "w", 2] = 1
    pymnet.netio.write_edge_files(net, d + "/n_", numericNodes=True)
    seen = set()
    for f in sorted(glob.glob(d + "/n_*.edg")):
        ns = set(open(f).read().split()[:2])
        assert not ns & seen, (ns, seen)
        seen |= ns
""", "numeric node names with a network that is not fully interconnected", "nodes are numbered separately in each layer, so that different nodes get the same number")

bug("p15-selflink", "P15", IO, [("        if fi!=ti or not ignoreSelfLink:", "        if fi!=ti or not (ignoreSelfLink or fullyInterconnected):")], """
import pymnet
net = pymnet.netio.read_edge_files(iter(["1 1 1 2.0", "1 1 2 3.0"]), ignoreSelfLink=False)
assert net[1, 1, 1] == 2.0, net[1, 1, 1]
""", "ignoreSelfLink=False", "self-links are dropped in fully interconnected networks")

bug("p16-wrapped-embedded", "P16", IO, [("                while len(fields)<n+int(labels_embedded):", "                while len(fields)<n:")], """
import pymnet
net = pymnet.netio.read_ucinet(["dl n = 2 nm = 1", "labels embedded", "data:", "a b", "a 0", "1", "b 1 0"])
assert net["a", "b"] == 1
""", "embedded labels with a row whose last value is on the next line", "the file is refused")

bug("p16-last-level", "P16", IO, [("                        level=int(math.floor(row/n))", "                        level=min(int(math.floor(row/n)),max(1,int(column*nm/n)) if nm>2 and row>=2*n else nm)")], """
import pymnet
m = ["0 1", "0 0"]
net = pymnet.netio.read_ucinet(["dl n = 2 nm = 3", "data:"] + m + ["0 0", "0 0"] + m)
assert net[0, 1, 2] == 1 and net[0, 1, 1] == 0, list(net.edges)
""", "three levels", "edges of the third level are put to the second one")

bug("p17-readd", "P17", NX, [("        if isinstance(val,dict) or isinstance(val,MonoplexGraphWrapper_singleedge):", "        if isinstance(val,dict):")], """
import pymnet
net = pymnet.MultilayerNetwork(aspects=0)
view = pymnet.nxwrap.MonoplexGraphNetworkxView(net)
view.add_edge(1, 2, weight=3)
view.add_edge(1, 2, weight=4)
assert net[1, 2] == 4, net[1, 2]
""", "an edge that is added again through the view", "the network stores an edge object as the weight")

bug("p17-iterating", "P17", NX, [("        return self.net[self.node].deg()", "        return self.net[self.node].deg() if self.node not in self.net[self.node] else self.net[self.node].deg()-1")], """
import pymnet
net = pymnet.MultilayerNetwork(aspects=0)
net[1, 1] = 1
net[1, 2] = 1
view = pymnet.nxwrap.autowrap(net)
assert len(view[1]) == 2
""", "a node with a self-edge", "the adjacency of the node has the wrong length")


bug("p28-sub-last", "P28", G, [("        sub_max = max(sub_max, sub)", "        sub_max = sub if sub>0 else sub_max")], """
import pymnet
import importlib
g = importlib.import_module("pymnet.graphlets.graphlets")
nets, invs = g.graphlets(4, ["a"], couplings="categorical")
auts = g.automorphism_orbits(nets)
orbits = g.list_orbits(auts)
import itertools
for o1 in orbits[4]:
    for o2 in orbits[3]:
        net1, net2 = nets[4][o1[1]], nets[3][o2[1]]
        best = 0
        for pair in itertools.combinations(set(net1.slices[0]) - set([o1[2]]), 2):
            sub = pymnet.subnet(net1, set(pair) | set([o1[2]]), net1.slices[1])
            if str(pymnet.get_complete_invariant(sub)) in invs and g.orbit_name(o1[2], sub, nets, invs, auts) == o2:
                best = 1
        assert g.subtrahend(o1, o2, nets, auts, invs) == best
for o1 in orbits[4]:
    for o2 in orbits[2]:
        net1 = nets[4][o1[1]]
        assert g.subtrahend(o1, o2, nets, auts, invs) == sum(1 for x in net1.slices[0] if x != o1[2] and net1[x, o1[2], "a"] != 0)
nets, invs = g.graphlets(3, ["a", "b"], couplings="categorical")
nets5, invs5 = g.graphlets(5, ["a"], couplings="categorical")
auts5 = g.automorphism_orbits(nets5)
orbits5 = g.list_orbits(auts5)
for o1 in orbits5[5]:
    for o2 in orbits5[3]:
        net1 = nets5[5][o1[1]]
        rest = sorted(set(net1.slices[0]) - set([o1[2]]))
        ok = lambda p: (lambda s: str(pymnet.get_complete_invariant(s)) in invs5 and g.orbit_name(o1[2], s, nets5, invs5, auts5) == o2)(pymnet.subnet(net1, set(p) | set([o1[2]]), net1.slices[1]))
        best = max(ok((rest[0], x)) + ok([y for y in rest[1:] if y != x]) for x in rest[1:])
        assert g.subtrahend(o1, o2, nets5, auts5, invs5) == best, (o1, o2)
""", "orbits of five nodes whose partitions differ in the number of copies", "the subtrahend is that of the last partition")

bug("p28-many-edges", "P28", G, [("    for n_e in range(1, n_edges+1):", "    for n_e in range(1, min(n_edges, 3)+1):")], """
import pymnet
import importlib
g = importlib.import_module("pymnet.graphlets.graphlets")
net = pymnet.MultiplexNetwork(couplings="categorical")
for i in (1, 2, -1, -2):
    net[0, i, "a"] = 1
assert len(g.add_possible_edges([0], net)) == 15, len(g.add_possible_edges([0], net))
""", "two graphlets of three nodes with four possible edges", "the network with all the edges is missing")

bug("p30-box", "P30", LY, [("        newcoords[node]=(boxSize[0]*(x-minx)/difx, boxSize[1]*(y-miny)/dify )", "        newcoords[node]=(boxSize[0]*(x-minx)/difx, boxSize[1]*(y-miny)/dify if len(coords)!=2 else boxSize[0]*(y-miny)/dify )")], """
import pymnet
from pymnet.visuals import layouts
c = layouts.normalize_coordinates({1: (0, 0), 2: (1, 1)}, (2.0, 5.0))
assert c == {1: (0, 0), 2: (2.0, 5.0)}, c
""", "two nodes in a box that is not a square", "the height of the box is its width")

bug("p30-fixed-aligned", "P30", LY, [("    if net.fullyInterconnected and alignedNodes:", "    if net.fullyInterconnected and alignedNodes and fixedNodes!=None:\n        fixedNodes=set(n for n in fixedNodes if nodeCoords!=None and n in nodeCoords and any(x!=0 for x in nodeCoords[n]))\n    if net.fullyInterconnected and alignedNodes:")], """
import pymnet
from pymnet.visuals import layouts
net = pymnet.MultiplexNetwork("categorical")
net[1, 2, "a"] = 1
net[2, 3, "a"] = 1
net[2, 3, "b"] = 1
c = layouts.get_fruchterman_reingold_multilayer_layout(net, nodeCoords={1: (0.0, 0.0), 2: (0.5, 0.5), 3: (1.0, 0.2)}, fixedNodes=[1, 2, 3])
assert c == {1: (0.0, 0.0), 2: (0.5, 0.5), 3: (1.0, 0.2)}, c
c = layouts.get_fruchterman_reingold_multilayer_layout(net, nodeCoords={1: (0.0, 0.0), 2: (0.5, 0.5), 3: (-1.0, 0.2)}, fixedNodes=[1, 2])
assert c[1] == (0.0, 0.0), c
""", "a fixed node in the origin", "the node is moved")

bug("p10-all-none", "P10", TR, [("            if coupling[0]!=\"none\":\n                mplex=False", "            mplex=mplex and coupling[0]==\"none\"\n            if not mplex and net.aspects>1 and coupling[0]==\"none\":\n                mplex=True")], """
import pymnet
net = pymnet.MultiplexNetwork(["categorical", "none"])
net[1, 2, "a", "x"] = 1
net[1, 2, "b", "x"] = 1
t = pymnet.transforms.threshold(net, 2)
assert len(t.edges) == 0, list(t.edges)
""", "two aspects of which only the first one has couplings", "couplings below the threshold are kept")

bug("p08-third-aspect", "P08", TR, [("        if selfEdges or not newEdge[0::2]==newEdge[1::2]:", "        if selfEdges or not newEdge[0:4:2]==newEdge[1:4:2]:")], """
import pymnet
net = pymnet.MultilayerNetwork(aspects=3)
net[1, 1, "a", "a", "x", "y", "p", "q"] = 2
agg = pymnet.transforms.aggregate(net, 3)
assert agg[1, 1, "a", "a", "x", "y"] == 2
""", "three aspects of which one is aggregated, and an edge of a node between layers of the second aspect left", "edges which differ only in the last aspect are taken as self-edges")

bug("p11-couplings-left", "P11", TR, [("                subnet_with_edges.couplings=couplings\n", "                subnet_with_edges.couplings=couplings if len(edges)>0 else [(\"none\",)]*net.aspects\n")], """
import pymnet
net = pymnet.MultiplexNetwork("categorical", fullyInterconnected=False)
net.add_node(1, layer="a")
net.add_node(1, layer="b")
subs = list(pymnet.transforms.subnet_iter(net))
assert len(subs) == 1 and subs[0][1, 1, "a", "b"] == 1
""", "a multiplex network without intra-layer edges", "the only subnetwork has no couplings")


BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, files={}):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks, files=files))


T = "pymnet/transforms.py"
D = "pymnet/diagnostics.py"
IO = "pymnet/netio.py"
N = "pymnet/net.py"
E = "pymnet/sampling/esu.py"
RQ = "pymnet/sampling/reqs.py"
CR = "pymnet/sampling/creators.py"

bug("p01-shared-name", "P01", N, [("                    if elementary_layer not in self.slices[aspect_minus_one+1]:\n                        self.add_layer(elementary_layer,aspect_minus_one+1)", "                    if not any(elementary_layer in names for names in self.slices[1:]):\n                        self.add_layer(elementary_layer,aspect_minus_one+1)")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2, fullyInterconnected=False)
net.add_node(1, layer=("a", "x"))
net.add_node(2, layer=("x", "a"))
assert net.slices[1] == {"a", "x"} and net.slices[2] == {"a", "x"}, net.slices
assert set(net.iter_node_layers()) == {(1, "a", "x"), (2, "x", "a")}
""", "two aspects having a layer of the same name, and node-layers added explicitly", "the layer and its nodes are missing")

bug("p02-strength-dims", "P02", N, [("        return self._get_strength_in(node,dims)+self._get_strength_out(node,dims)", "        return self._get_strength_in(node)+self._get_strength_out(node,dims)")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 2, "a", "a"] = 2
net[1, 1, "a", "b"] = 5
net[2, 1, "a", "a"] = 1
net[3, 1, "b", "a"] = 7
assert net[1, :, "a", "a"].str_total() == 3, net[1, :, "a", "a"].str_total()
assert net[1, "a"].str_total() == 15
""", "total strength of a sliced node of a directed network having in-edges from other layers", "edges outside the slice are counted")

bug("p02-len-negative", "P02", N, [("                if self.net[self.net._nodes_to_link(nl,nl)]!=self.net.noEdge:", "                if self.net[self.net._nodes_to_link(nl,nl)]>self.net.noEdge:")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=0)
net[1, 1] = -2
net[2, 2] = -1
net[1, 2] = 1
assert len(net.edges) == len(list(net.edges)) == 3, len(net.edges)
""", "self-edges with negative weights", "the number of edges is too small")

bug("p05-eq-noedge", "P05", N, [(" and self.fullyInterconnected == other.fullyInterconnected and self.noEdge == other.noEdge and self.slices==other.slices and len(self.edges)", " and self.fullyInterconnected == other.fullyInterconnected and self.slices==other.slices and len(self.edges)")],
    """
import pymnet
a = pymnet.MultilayerNetwork(aspects=0)
b = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
for net in (a, b):
    net[1, 2] = 3
assert a != b
""", "networks which differ in noEdge only", "they compare as equal though missing edges read differently")

bug("p11-weight", "P11", T, [("                edges=list(subnet_with_edges.edges)\n            for newnet_edges", "                edges=[e for e in subnet_with_edges.edges if e[-1]]\n            for newnet_edges")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=0, noEdge=-1)
net[1, 2] = 0
net[2, 3] = 2
subs = [sorted(e[2] for e in s.edges) for s in pymnet.transforms.subnet_iter(net)]
assert sorted(subs) == [[], [0], [0, 2], [2]], subs
""", "edges of weight zero in a network with another noEdge value", "these edges are never in a subnetwork")

bug("p20-copyless", "P20", E, [("                    if neighbor[1] not in layerlist and neighbor[1] not in orig_neighborhood_layerlist and numberings[neighbor] > numberings[v]:", "                    if neighbor[1] not in layerlist and neighbor[1] not in orig_neighborhood_layerlist:")],
    """
import itertools
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
for n in itertools.permutations((1, 2)):
    for l in itertools.permutations((1, 2, 3)):
        net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=True)
        net[n[0], n[1], l[2], l[0]] = 1
        net[n[1], n[1], l[0], l[1]] = 2
        net[n[1], n[1], l[1], l[2]] = 5
        res = []
        esu(net, res, nnodes=1, nlayers=3, copy_network=False)
        res = [(sorted(x), sorted(y)) for x, y in res]
        assert res == [([n[1]], [1, 2, 3])], res
""", "enumeration without copying the network, and layers which are reached through an earlier node-layer", "some subgraphs are not found")

bug("p21-seed-zero", "P21", E, [("    if seed == None:\n        random.seed()", "    if not seed:\n        random.seed()")],
    """
import pymnet
from pymnet.sampling.esu import sample_multilayer_subgraphs_esu as esu
net = pymnet.full_multilayer(4, ["a", "b", "c"])
runs = set()
for i in range(12):
    r = []
    esu(net, r, nnodes=2, nlayers=2, p=[0.5, 0.5, 0.5], seed=0)
    runs.add(repr(r))
assert len(runs) == 1, len(runs)
""", "the seed 0", "samples are not reproducible")

bug("p21-creator-seed", "P21", CR, [("    if seed == None:\n        random.seed()\n    else:\n        random.seed(seed)\n    network = ", "    if seed:\n        random.seed(seed)\n    else:\n        random.seed()\n    network = ")],
    """
import pymnet
from pymnet.sampling.creators import er_multilayer_partially_interconnected as er
runs = set(repr(sorted(er([range(5), range(5)], 0.5, seed=0).edges)) for i in range(8))
assert len(runs) == 1, len(runs)
""", "the seed 0", "generated networks are not reproducible")


BUGS = []


def bug(id, property, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks))


N = "pymnet/net.py"

bug("p01-zero-weight", "P01", N, [("        if value==self.noEdge:\n            if node1 in self._net:", "        if not value or value==self.noEdge:\n            if node1 in self._net:")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, noEdge=None)
net[1, 2, 'a'] = 3
net[1, 2, 'a'] = 0
assert net[1, 2, 'a'] == 0 and net[2, 1, 'a'] == 0, net[1, 2, 'a']
assert len(net.edges) == 1
""", "a weight that is false (0) stored in a network whose no-edge value is something else", "writing weight 0 removes the edge although 0 is an ordinary weight there")

bug("p01-second-endpoint", "P01", N, [("""                n1,n2=self._link_to_nodes(link)
                self.add_node(n1[0],layer=n1[1:])
                self.add_node(n2[0],layer=n2[1:])
""", """                for n in dict((n[0],n) for n in self._link_to_nodes(link)).values():
                    self.add_node(n[0],layer=n[1:])
""")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2, fullyInterconnected=False)
net[1, 1, 'a', 'b', 'x', 'x'] = 1
assert set(net.iter_node_layers()) == set([(1, 'a', 'x'), (1, 'b', 'x')]), set(net.iter_node_layers())
""", "an inter-layer edge from a node to itself in a network with two aspects that is not fully interconnected", "only one of the two node-layers of the edge is added to the network")

bug("p02-total-degree-overwrite", "P02", N, [("if node1 not in self._net[node2] and node1 not in self._rnet[node2]:", "if node1 not in self._net[node2]:")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 2, 'a', 'b'] = 1
net[1, 2, 'a', 'b'] = 2
assert net[2, 'b'].deg_total() == 1, net[2, 'b'].deg_total()
assert net[1, 'a'].deg_total() == 1
""", "overwriting the weight of an existing directed edge", "the total degree of the target grows at each overwrite")

bug("p02-falsy-slice", "P02", N, [("""                for neigh in self._rnet[node]:
                    if all(map(lambda i:dims[i]==None or neigh[i]==dims[i], range(len(dims)))):""", """                for neigh in self._rnet[node]:
                    if all(map(lambda i:not dims[i] or neigh[i]==dims[i], range(len(dims)))):""")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 2, 0, 0] = 1
net[1, 2, 5, 0] = 1
assert net[2, :, 0, 0].deg_in() == 1, net[2, :, 0, 0].deg_in()
assert list(net[2, :, 0, 0].iter_in()) == [(1, 0)]
""", "a slice whose fixed index is the layer (or node) called 0, asked for incoming edges", "the fixed index is taken as an open one")

bug("p02-edge-list-self", "P02", N, [("""                    if neigh not in iterated:
                        link=self.net._nodes_to_link(node,neigh)
                        yield link+(self.net[link],)            
                iterated.add(node)
""", """                    if (neigh,node) not in iterated:
                        iterated.add((node,node[:1]+neigh[1:]))
                        iterated.add((node,neigh))
                        link=self.net._nodes_to_link(node,neigh)
                        yield link+(self.net[link],)            
""")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 2, 'a', 'a'] = 1
net[1, 1, 'a', 'a'] = 1
assert len(list(net.edges)) == 2 == len(net.edges), list(net.edges)
""", "a self-edge of a node-layer that was connected to another node of the layer before", "the edge list misses the self-edge")

bug("p03-coupling-zero-layer", "P03", N, [("                if link[2*d[0]]+1==link[2*d[0]+1] or link[2*d[0]]==link[2*d[0]+1]+1:", "                if max(link[2*d[0]:2*d[0]+2])-1 in link[2*d[0]:]:")] if False else
    [("""                    if link[2*d[0]]+1==link[2*d[0]+1] or link[2*d[0]]==link[2*d[0]+1]+1:""", """                    if max(link[2*d[0]],link[2*d[0]+1])-1 in link[2*d[0]:]:""")],
    """
import pymnet
net = pymnet.MultiplexNetwork(couplings=['ordinal', 'categorical'])
net.add_node('i')
for l in (1, 2, 4): net.add_layer(l, 1)
for l in (3, 5): net.add_layer(l, 2)
assert net['i', 'i', 1, 2, 3, 3] == 1
assert net['i', 'i', 1, 4, 3, 3] == 0
assert net['i', 'i', 4, 2, 5, 5] == 0
""", "ordinal coupling in the first of two aspects and numbers as layers in both", "layers that are not adjacent are coupled when the other aspect has a layer with a particular number")

bug("p03-coupling-full", "P03", N, [("                for n in self.slices[aspect]:\n                    if n!=supernode[aspect]:                    \n                        yield", "                for n in self.slices[aspect]:\n                    if n not in supernode[1:]:                    \n                        yield")],
    """
import pymnet
net = pymnet.MultiplexNetwork(couplings=['categorical', 'categorical'])
net.add_node(1)
for l in ('a', 'b'): net.add_layer(l, 1)
for l in ('b', 'c'): net.add_layer(l, 2)
assert set(net[1, 'a', 'b']) == set([(1, 'b', 'b'), (1, 'a', 'c')]), set(net[1, 'a', 'b'])
""", "two aspects with a layer of the same name and categorical couplings", "the neighbour in the layer with the name of the other aspect's layer is not iterated")

bug("p04-replace-merges", "P04", N, [("            self._add_empty_network(key)\n            transforms.subnet(val,val,newNet=self[key]) #copy the val to the layer", "            if len(self[key].edges)>len(val.edges):\n                self._add_empty_network(key)\n            transforms.subnet(val,val,newNet=self[key]) #copy the val to the layer")],
    """
import pymnet
net = pymnet.MultiplexNetwork()
net[1, 2, 'a'] = 1
new = pymnet.MultilayerNetwork(aspects=0)
new[3, 4] = 1
net.A['a'] = new
assert net[1, 2, 'a'] == 0 and net[3, 4, 'a'] == 1 and len(net.edges) == 1, list(net.edges)
""", "replacing a non-empty intra-layer network with one that has as many edges", "old edges of the layer remain after the replacement")

bug("p04-copy-edge", "P04", N, [("            self._add_empty_network(key)\n            transforms.subnet(val,val,newNet=self[key]) #copy the val to the layer", "            if val is not self[key]:\n                self._add_empty_network(key)\n                if val.noEdge==self._net.noEdge and not self[key].slices[0]:\n                    self[key]._net=val._net\n                transforms.subnet(val,val,newNet=self[key]) #copy the val to the layer")],
    """
import pymnet
net = pymnet.MultiplexNetwork(fullyInterconnected=False)
net.add_layer('a')
new = pymnet.MultilayerNetwork(aspects=0)
new[3, 4] = 1
net.A['a'] = new
new[3, 4] = 2
assert net[3, 4, 'a'] == 1
""", "editing a network after storing it as an intra-layer network of a network without nodes in the layer", "the layer shares its edges with the network it was copied from")

bug("p05-eq-superset", "P05", N, [(" and self.slices==other.slices and len(self.edges) ==len(other.edges):", " and self.slices==other.slices:")],
    """
import pymnet
a = pymnet.MultilayerNetwork(aspects=1)
b = pymnet.MultilayerNetwork(aspects=1)
a[1, 2, 'x'] = 1
b[1, 2, 'x'] = 1
a.add_node(3); b[1, 3, 'x'] = 1
assert a != b and b != a
""", "two networks with the same nodes and layers, the second of which has all the edges of the first and more", "the comparison is not symmetric: the smaller network is equal to the larger one")

bug("p05-eq-coupling-weight", "P05", N, [(" and self.slices==other.slices and self.couplings == other.couplings:", " and self.slices==other.slices and [c[0] for c in self.couplings] == [c[0] for c in other.couplings]:")],
    """
import pymnet
a = pymnet.MultiplexNetwork(couplings=('categorical', 1.0))
b = pymnet.MultiplexNetwork(couplings=('categorical', 2.0))
for n in (a, b):
    n[1, 2, 'x'] = 1
    n[1, 2, 'y'] = 1
assert a != b and b != a and not a == b
""", "multiplex networks that differ only in the weight of the couplings", "networks with different coupling weights are equal")

bug("p06-two-aspects", "P06", N, [("                    if includeCouplings or i[1:]==j[1:]:", "                    if includeCouplings or i[1]==j[1]:")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=2)
net[1, 2, 'a', 'a', 'x', 'y'] = 1
net[1, 2, 'a', 'a', 'x', 'x'] = 1
m, nodes = net.get_supra_adjacency_matrix(includeCouplings=False)
assert m.sum() == 2, m.sum()
""", "two aspects and edges between layers that differ in the second aspect only", "inter-layer edges are included although couplings are excluded")

bug("p06-mirror", "P06", N, [("""                    if includeCouplings or i[1:]==j[1:]:
                        matrix[i_index,j_index]=self[i][j]""", """                    if includeCouplings or i[1:]==j[1:]:
                        if self.directed and i[1:]==j[1:] or i_index<=j_index:
                            matrix[i_index,j_index]=self[i][j]
                        else:
                            matrix[i_index,j_index]=matrix[j_index,i_index]""")],
    """
import pymnet
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 2, 'a', 'b'] = 1
m, nodes = net.get_supra_adjacency_matrix()
i, j = nodes.index((1, 'a')), nodes.index((2, 'b'))
assert m[i, j] == 1 and m[j, i] == 0 and m.sum() == 1, m
""", "a directed network with inter-layer edges that do not exist in both directions", "the inter-layer part of the matrix of a directed network is made symmetric")

BUGS = []


def bug(id, property, file, edits, demo, needs, breaks, files={}):
    BUGS.append(dict(id=id, property=property, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks, files=files))


DC = "pymnet/visuals/drawcore.py"
DA = "pymnet/visuals/drawassigners.py"
DN = "pymnet/visuals/drawnet.py"
MPL = "pymnet/visuals/drawbackends/mpl.py"
LA = "pymnet/visuals/layouts.py"
PRE = "import matplotlib\nmatplotlib.use('Agg')\nimport pymnet\nfrom pymnet import visuals\n"

bug("p29-dict-falsy", "P29", DA, [("        if pdictval!=None:\n", "        if pdictval:\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 'a'][2, 'a'] = 1
fig = visuals.draw(net, layout="random", layerAlphaDict={'a': 0}, defaultLayerAlpha=0.5)
from matplotlib.patches import Rectangle
alphas = [p.get_alpha() for p in fig.axes[0].patches if p.get_alpha() is not None]
assert 0.5 not in alphas, alphas
""", "a value in a property dictionary that is zero (or empty)", "the value of the dictionary is not used")

bug("p29-label-falsy", "P29", MPL, [("        if self.label!=None:\n            self.labelObject=self.net.ax.text(self.x+self.size/2.", "        if self.label:\n            self.labelObject=self.net.ax.text(self.x+self.size/2.")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1)
net[0, 'a'][1, 'a'] = 1
fig = visuals.draw(net, layout="random")
assert sorted(t.get_text() for t in fig.axes[0].texts) == ['0', '1', 'a']
""", "a node with the name 0", "its label is not drawn")

bug("p29-padding-min", "P29", DN, [("            if minx>node.x-node.size/2.: minx=node.x-node.size/2.\n", "            elif minx>node.x-node.size/2.: minx=node.x-node.size/2.\n"), ("        maxx,maxy,minx,miny=float(\"-inf\"),float(\"-inf\"),float(\"inf\"),float(\"inf\")\n", "        maxx,maxy,minx,miny=float(\"-inf\"),float(\"-inf\"),float(\"inf\"),float(\"inf\")\n        for node in self.nodes: minx=min(minx,node.x)\n"),
     ("            if maxx<node.x+node.size/2.: maxx=node.x+node.size/2.\n            if maxy<node.y+node.size/2.: maxy=node.y+node.size/2.\n", "            if maxy<node.y+node.size/2.: maxy=node.y+node.size/2.\n            if maxx<node.x+node.size/2.: maxx=node.x+node.size/2.\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 'a'][2, 'a'] = 1
fig = visuals.draw(net, layout="random", nodeCoords={1: (0, 0), 2: (1, 1)}, nodeSizeDict={(1, 'a'): .4, (2, 'a'): .4}, layerPadding=0)
line = [l for l in fig.axes[0].lines][0]
xs, ys, zs = line.get_data_3d()
assert abs(min(xs) - min(ys)) < 1e-9, (xs, ys)
""", "the leftmost node is the first one, or the node sets a new maximum", "the size of the leftmost node is not taken into account, so that it is drawn outside of the layer")

bug("p29-order-string", "P29", DC, [("    for layer in sorted(net.iter_layers(),key=lambda l:layerOrder[l]):\n", "    for layer in sorted(net.iter_layers(),key=lambda l:(str(layerOrder[l]),layerOrder[l])):\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1)
for l in (9, 10):
    net[1, l][2, l] = 1
fig = visuals.draw(net, layout="random")
z = dict((t.get_text(), t.get_position_3d()[2]) for t in fig.axes[0].texts if t.get_text() in ('9', '10'))
assert z['9'] > z['10'], z
""", "layer orders of different numbers of digits, or negative ones", "layers are drawn in the wrong order")

bug("p29-edge-weight", "P29", DA, [("        elif rule==\"edgeweight\":\n            return self.net[item[0]][item[1]]\n", "        elif rule==\"edgeweight\":\n            weight=self.net[item[1]][item[0]]\n            return weight if weight!=self.net.noEdge else self.net[item[0]][item[1]]\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1, directed=True)
net[1, 'a'][2, 'a'] = 1
net[2, 'a'][1, 'a'] = 5
fig = visuals.draw(net, layout="random", nodeCoords={1: (0, 0), 2: (1, 1)}, edgeWidthRule={"rule": "edgeweight"})
for l in fig.axes[0].lines:
    xs, ys, zs = l.get_data_3d()
    assert l.get_linewidth() == (1 if xs[0] < xs[1] else 5)
""", "directed networks with edges in both directions", "the edge gets the weight of the opposite edge")

bug("p29-coords-leak", "P29", DC, [("    for node,coord in nodeCoords.items():\n         ncoords[node]=coord\n", "    for node,coord in ncoords.items():\n         nodeCoords.setdefault(node,coord)\n    ncoords=nodeCoords\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 'a'][2, 'a'] = 1
coords = {1: (0, 0)}
visuals.draw(net, layout="random", nodeCoords=coords)
assert coords == {1: (0, 0)}, coords
""", "two drawings", "coordinates of earlier drawings are used, and the dictionary given by the user is modified")

bug("p29-coords-precedence", "P29", DC, [("        if nl in nlcoords:\n            xy=nlcoords[nl]\n        elif nl[0] in ncoords:\n            xy=ncoords[nl[0]]\n", "        if nl[0] in ncoords and (nl not in nlcoords or len(net.slices[1])==1):\n            xy=ncoords[nl[0]]\n        elif nl in nlcoords:\n            xy=nlcoords[nl]\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 'a'][2, 'a'] = 1
net[2, 'a'][3, 'a'] = 1
fig = visuals.draw(net, layout="random", nodeCoords={1: (0, 0), 2: (1, 1), 3: (2, 0)}, nodelayerCoords={(1, 'a'): (1, 1), (2, 'a'): (0, 0)}, nodeLabelRule={})
pts = set()
for l in fig.axes[0].lines:
    xs, ys, zs = l.get_data_3d()
    pts |= set(zip(xs, ys))
m = min(pts)
assert m[0] < .3 and m[1] < .3
both = [l for l in fig.axes[0].lines if abs(l.get_data_3d()[1][0] - l.get_data_3d()[1][1]) < 1e-6]
assert both, 'nodes 2 and 3 are at the same height'
""", "coordinates of node-layers given for networks with one layer", "the coordinates of the node are used instead")

bug("p29-scaled-layer", "P29", DA, [("            coeff=self.propRule[\"scalecoeff\"] if \"scalecoeff\" in self.propRule else 1.0\n            n=len(self.net)     \n", "            coeff=self.propRule[\"scalecoeff\"] if \"scalecoeff\" in self.propRule else 1.0\n            n=len(list(self.net.iter_nodes(item[1])))\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 'a'][2, 'a'] = 1
net[1, 'b'][3, 'b'] = 1
net[3, 'b'][4, 'b'] = 1
from matplotlib.patches import Circle
fig = visuals.draw(net, layout="random", nodeCoords={1: (0, 0), 2: (0, 1), 3: (1, 0), 4: (1, 1)})
ax = fig.axes[0]
z = dict()
from mpl_toolkits.mplot3d import art3d
sizes = set()
for t in ax.texts:
    if t.get_text() in '1234':
        pass
seen = []
import pymnet.visuals.drawbackends.mpl as M
orig = M.Circle
M.Circle = lambda *a, **k: (seen.append(a[1]), orig(*a, **k))[1]
visuals.draw(net, layout="random")
assert max(seen) - min(seen) < 1e-9, seen
""", "layers with different numbers of nodes", "nodes in different layers have different sizes, though the size depends on the size of the network only")

bug("p29-scaleby-default", "P29", DA, [("                return self.apply_modify_rules(ruleval,item)\n            else:", "                return self.apply_modify_rules(ruleval,item) if ruleval!=0 else self.defaultProp\n            else:")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1, directed=False, noEdge=-1)
net[1, 'a'][2, 'a'] = 0
fig = visuals.draw(net, layout="random", edgeWidthRule={"rule": "edgeweight", "f": lambda x: x + 3})
assert set(l.get_linewidth() for l in fig.axes[0].lines) == {3}
""", "a rule that gives zero, with a modifier", "the default value is used instead of the one given by the rule") if False else None

bug("p29-inter-mapping", "P29", DA, [("            if \"intra\" in self.propRule and item[0][1]==item[1][1]:\n                return self.propRule[\"intra\"]\n            elif \"inter\" in self.propRule and item[0][1]!=item[1][1]:\n", "            if \"intra\" in self.propRule and item[0][1]==item[1][1]:\n                return self.propRule[\"intra\"]\n            elif \"inter\" in self.propRule and (item[0][0]==item[1][0] or \"intra\" in self.propRule):\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 1][2, 2] = 1
fig = visuals.draw(net, layout="random", edgeWidthRule={"rule": "edgetype", "inter": 4}, defaultEdgeWidth=1)
assert set(l.get_linewidth() for l in fig.axes[0].lines) == {4}
""", "a rule giving only the inter-layer edges, and edges between different nodes in different layers", "the edges are not recognised as inter-layer edges")

bug("p30-repel", "P30", LA, [("                        layer_overlap=len(net._nodeToLayers.get(node1,set()).intersection(net._nodeToLayers.get(node2,set())))\n", "                        layer_overlap=max(1,len(net._nodeToLayers.get(node1,set()).intersection(net._nodeToLayers.get(node2,set()))))\n")],
    PRE + """
import random
from pymnet.visuals import layouts
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
for n, l in ((1, 'a'), (2, 'b'), (3, 'b'), (4, 'a')):
    net.add_node(n, layer=l)
c = layouts.get_fruchterman_reingold_multilayer_layout(net, nodeCoords={1: (0.1, 0.), 2: (0., .5), 3: (1., 0.), 4: (.9, 1.)}, iterations=1)
# node 1 is pushed only by node 4, along the diagonal
import math
d = layouts.get_fruchterman_reingold_multilayer_layout(net, nodeCoords={1: (0.1, 0.), 2: (0.05, .45), 3: (1., 0.), 4: (.9, 1.)}, iterations=1, fixedNodes=[2, 3])
e = layouts.get_fruchterman_reingold_multilayer_layout(net, nodeCoords={1: (0.1, 0.), 2: (0.15, .55), 3: (1., 0.), 4: (.9, 1.)}, iterations=1, fixedNodes=[2, 3])
assert abs(d[1][0] - e[1][0]) < 1e-12 and abs(d[4][0] - e[4][0]) < 1e-12, (d, e)
""", "nodes that are not in any common layer", "nodes on different layers repulse each other")

bug("p30-none-aligned", "P30", LA, [("         if isinstance(net,pymnet.net.MultiplexNetwork):\n              alignedNodes=True\n         elif isinstance(net,pymnet.net.MultilayerNetwork):\n              alignedNodes=False\n", "         if isinstance(net,pymnet.net.MultilayerNetwork):\n              alignedNodes=net.fullyInterconnected and isinstance(net,pymnet.net.MultiplexNetwork)\n")],
    PRE + """
net = pymnet.MultiplexNetwork(couplings='categorical', fullyInterconnected=False)
net[1, 2, 'a', 'a'] = 1
net[1, 2, 'b', 'b'] = 1
nc, nlc = visuals.layouts.get_layout("random", net, alignedNodes=None)
assert set(nc) == {1, 2} and nlc == {}
""", "alignedNodes=None for multiplex networks that are not fully interconnected", "the nodes are not aligned, contrary to the documentation")

bug("p30-degenerate", "P30", LA, [("        dify=maxy-miny if maxy>miny else 1.0\n", "        dify=maxy-miny if maxx>minx and maxy>miny else 1.0\n")],
    PRE + """
from pymnet.visuals import layouts
c = layouts.normalize_coordinates({1: (1., 0.), 2: (1., 4.)}, (1., 1.))
assert c[2][1] == 1.0, c
""", "all nodes on a vertical line", "the coordinates are not scaled to the box")

bug("p30-fixed-nl", "P30", LA, [("                if nl not in fixedNodeLayers and nl[0] not in fixedNodes:\n", "                if nl not in fixedNodeLayers and (nl[0] not in fixedNodes or fixedNodeLayers):\n")],
    PRE + """
import random
random.seed(1)
from pymnet.visuals import layouts
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 'a'][2, 'a'] = 1
net[2, 'a'][3, 'a'] = 1
nc = {1: (.2, .3), 2: (.4, .1), 3: (.9, .9)}
c = layouts.get_fruchterman_reingold_multilayer_layout(net, alignedNodes=False, nodeCoords=nc, fixedNodes={1}, fixedNodeLayers={(2, 'a')})
assert c[1, 'a'] == nc[1] and c[2, 'a'] == nc[2], c
""", "both fixed nodes and fixed node-layers, when the nodes are not aligned", "the fixed nodes are moved")

bug("p30-nl-precedence", "P30", LA, [("            if nl in nodelayerCoords:\n                nlc[nl]=nodelayerCoords[nl]\n            elif nl[0] in nodeCoords:\n                nlc[nl]=nodeCoords[nl[0]]\n", "            if nl[0] in nodeCoords:\n                nlc[nl]=nodeCoords[nl[0]]\n            elif nl in nodelayerCoords:\n                nlc[nl]=nodelayerCoords[nl]\n")],
    PRE + """
from pymnet.visuals import layouts
net = pymnet.MultilayerNetwork(aspects=1)
net[1, 'a'][2, 'a'] = 1
c = layouts.get_fruchterman_reingold_multilayer_layout(net, alignedNodes=False, nodeCoords={1: (.2, .3), 2: (.5, .5)}, nodelayerCoords={(1, 'a'): (.7, .1)}, fixedNodes={1, 2})
assert c[1, 'a'] == (.7, .1), c
""", "initial coordinates of both a node and its node-layer", "the documented precedence of node-layer coordinates is reversed")

bug("p30-inplace", "P30", LA, [("    if inplace:\n        newcoords=coords\n", "    if inplace or len(coords)<3:\n        newcoords=coords\n")],
    PRE + """
from pymnet.visuals import layouts
c = {1: (1., 0.), 2: (2., 4.)}
layouts.normalize_coordinates(c, (1., 1.))
assert c == {1: (1., 0.), 2: (2., 4.)}
""", "one or two coordinates", "the coordinates given by the user are modified")

bug("p30-random-nl", "P30", LA, [("            for node in net:\n                ncoords[node]=(random.random(),random.random())\n", "            for node in net.iter_nodes() if net.fullyInterconnected else [nl[0] for nl in net.iter_node_layers()]:\n                ncoords[node]=(random.random(),random.random())\n")],
    PRE + """
net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
net[1, 'a'][2, 'a'] = 1
net.add_node(3)
nc, nlc = visuals.layouts.get_layout("random", net)
assert set(nc) == {1, 2, 3}
""", "a node that is not in any layer", "the node gets no coordinates")

bug("p30-spring-self", "P30", LA, [("            for edge in net.edges:\n                nl1,nl2=net._link_to_nodes(edge[:-1])\n                diff=", "            for edge in net.edges:\n                nl1,nl2=net._link_to_nodes(edge[:-1])\n                if nl1[1:]!=nl2[1:]: continue\n                diff=")],
    PRE + """
from pymnet.visuals import layouts
def far(edge):
    net = pymnet.MultilayerNetwork(aspects=1, fullyInterconnected=False)
    for n, l in ((1, 'a'), (2, 'b'), (3, 'c'), (4, 'd')):
        net.add_node(n, layer=l)
    if edge:
        net[1, 'a'][2, 'b'] = 1
    nc = {1: (0.2, 0.5), 2: (.8, .5), 3: (0., 0.), 4: (1., 1.)}
    c = layouts.get_fruchterman_reingold_multilayer_layout(net, alignedNodes=False, nodeCoords=nc, iterations=1)
    return c[2, 'b'][0] - c[1, 'a'][0]
assert far(True) < far(False)
""", "edges between layers when the nodes are not aligned", "inter-layer edges do not attract")

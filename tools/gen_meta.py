"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it)."""
import json
import re
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, state=state))


NET = "pymnet/net.py"
TR = "pymnet/transforms.py"

prop("P01", "A network stores exactly the tensor its edit history wrote",
     "After any sequence of edge assignments (in every supported index notation: all coordinates listed, node-only with shared layers, node object indexing, partial slices), edge removals (assigning the 'no edge' value), and node and layer additions, reading any pair of node-layers returns the last value written for that pair, or the 'no edge' value if there is none. "
     "Undirected networks return the same value for both directions, directed networks keep the directions apart, and the node set, the elementary layer sets, the node-layers present (for networks that are not fully interconnected), iteration, length and membership contain exactly what was added explicitly or through edges. "
     "Reads and queries never change the network.",
     ["histories", "inputs", "configurations"],
     "all edit histories up to the stated depth over small label universes x number of aspects 0-2(3) x directed/undirected x fully interconnected or not x 'no edge' value",
     "Tests write a handful of fixed histories; the property quantifies over every interleaving of additions, overwrites and removals in every notation, where the per-node and per-layer bookkeeping can drift from the stored edges.",
     [NET], [("set/get of links", "net.py: MultilayerNetwork.__getitem__/__setitem__ and _set_link/_get_link/_link_to_nodes"), ("node and layer bookkeeping", "net.py: add_node, add_layer, _add_node_to_layer")],
     ["network[...] reads", "iteration, len, in", "slices"],
     "explicit-state model checking of edit histories on the real object",
     "Exhaustive over all histories within the listed bounds (to the fixpoint of the state space for several configurations); assumes behaviour does not depend on labels outside the small alphabet.",
     [("stored edge tensor", "adjacency dictionaries"), ("slices", "node and elementary layer sets")])

prop("P02", "Degrees, strengths, neighbours and the edge list agree with the stored edges",
     "In every state reachable by edits, for every node or node-layer and every slice pattern (each coordinate fixed, left open or shared), iterating neighbours yields exactly the targets connected by stored edges, the degree is their number and the strength is the sum of their weights. "
     "The edge list enumerates every stored edge exactly once (each unordered pair once when undirected), with its weight, and its length equals the number of edges. "
     "For directed networks in- and out-degrees and strengths count incoming and outgoing edges, the total degree counts distinct neighbours and the total strength sums both directions.",
     ["histories", "inputs", "configurations"],
     "every state of every bounded edit history x every node-layer x every slice pattern",
     "The queries are computed by different code paths (cached degree counters, slices, generic fallback); tests probe a few fixed slices of two or three fixed networks.",
     [NET], [("degree/strength queries", "net.py: MultilayerNode.deg/strength, MultilayerNetwork._get_degree/_get_strength"), ("neighbour iteration", "net.py: _iter_neighbors*"), ("edge list", "net.py: EdgeIterator / edges")],
     ["node iteration", "deg/degree/strength", "edges"],
     "explicit-state model checking of edit histories on the real object",
     "Same exploration as P01 with every query compared in every state; the quick tier explores shallower histories than the thorough tier.",
     [("degree counters", "per node and per pair of elementary layers")])

prop("P03", "A multiplex network behaves as if its coupling edges were stored explicitly",
     "A multiplex network with any coupling rule (none, categorical, ordinal, with or without a weight, or an explicit coupling network per aspect) answers every read, slice, degree, strength, neighbour iteration and edge listing exactly as the general network in which each coupling edge is written out, for existing node-layers. "
     "Each coupling edge connects a node only to itself in another layer that differs in one aspect and satisfies that aspect's rule. "
     "Assigning an edge that is not an intra-layer edge, or a self-edge of a node-layer, is rejected with an exception and leaves the network unchanged.",
     ["histories", "inputs", "configurations"],
     "all bounded edit histories x all coupling rules per aspect x 1-2 aspects x directed/undirected x fully interconnected or not",
     "Coupling edges are never stored but computed on the fly by separate read, degree and iteration paths for each policy; tests only exercise categorical and ordinal couplings on fixed fully interconnected networks.",
     [NET], [("implicit couplings", "net.py: MultiplexNetwork._get_link, _get_dim_degree/_get_dim_strength/_iter_dim and coupling helpers")],
     ["reads, deg/strength, iteration, edges of multiplex networks"],
     "explicit-state model checking against an explicitly coupled reference model",
     "Exhaustive over bounded histories for each coupling configuration; layer names are integers where the rule is ordinal. Coupling edges to layers that were never added are outside the property.")

prop("P04", "The intra-layer networks of a multiplex network are one state with the network",
     "Editing a multiplex network through one of its intra-layer networks (including one obtained before other edits) and editing it through the multiplex network itself have the same effect, visible immediately from both sides, including nodes and layers they create. "
     "Replacing an intra-layer network stores a copy of the given network's nodes and edges, so later edits of either one do not show in the other, and a replacement of the wrong kind is refused and changes nothing.",
     ["histories", "configurations"],
     "all bounded histories mixing both kinds of edits and whole-layer replacements x coupling rules x directed/undirected x interconnection",
     "Needs interleavings of edits through two aliases of the same state; tests use only one alias at a time.",
     [NET], [("intra-layer view", "net.py: MultiplexNetwork.A, its assignment hook and intra-layer network class")],
     ["network.A[layer]", "network reads"],
     "explicit-state model checking of mixed edit histories on the real object",
     "Exhaustive over bounded mixed histories in the listed configurations.")

prop("P05", "Equality is structural, symmetric, and survives copying and pickling",
     "Two networks compare equal exactly when they are of the same kind and have the same direction, number of aspects, interconnection setting, 'no edge' value, couplings, node set, elementary layers, node-layers and edge weights, regardless of the order in which they were built; comparison is symmetric, never raises, inequality is its negation, and equal networks have equal hash values where they have one. "
     "A deep copy or pickle round trip of a network is equal to it, of the same kind, behaves identically and is independent of it.",
     ["inputs", "histories", "configurations"],
     "all ordered pairs of networks in enumerated pools that contain every single-feature difference, and all networks of the bounded families",
     "Tests compare a few equal networks and rarely unequal ones; a comparison that forgets one feature passes all of them.",
     [NET], [("comparison", "net.py: MultilayerNetwork.__eq__, MultiplexNetwork.__eq__"), ("pickling support", "net.py: __getstate__/__setstate__-like code and the intra-layer containers")],
     ["==, !=", "copy.deepcopy", "pickle"],
     "exhaustive enumeration of bounded network pairs against a reference model",
     "All pairs within the pools; the pools are bounded to two or three nodes per network.")

prop("P06", "The supra-adjacency matrix is the network's tensor",
     "The supra-adjacency matrix together with its node list contains each possible node-layer exactly once, and the entry for every ordered pair equals what the network returns for that pair (so it is symmetric for undirected networks and keeps direction otherwise), with zero where there is no edge (for networks whose 'no edge' value is zero). "
     "With couplings excluded exactly the entries between different layers are zero and all others are unchanged. "
     "The network is not modified.",
     ["inputs", "configurations"],
     "every network of the bounded families (0-2 aspects, directed/undirected, interconnected or not, all coupling rules)",
     "Tests compare spectra of one or two fixed networks; index mix-ups that cancel there do not cancel in general.",
     [NET, "pymnet/__init__.py", TR], [("matrix builder", "net.py: get_supra_adjacency_matrix")],
     ["get_supra_adjacency_matrix", "supra_adjacency_matrix"],
     "exhaustive enumeration of bounded networks against a reference model",
     "Every matrix entry of every network in the bounded families.")

prop("P07", "Taking a subnetwork returns exactly the induced subnetwork",
     "For every network, every subset of its nodes and every subset of its elementary layers in each aspect, the subnetwork contains exactly the chosen nodes and layers and exactly the edges (with their weights) whose both ends are chosen; it keeps the kind, direction, couplings and 'no edge' value of the original, or those of the target network if one is given. "
     "The original network is unchanged and later edits of the result do not affect it.",
     ["inputs", "configurations"],
     "every network of the bounded families x every subset of nodes and layers x kinds of target",
     "The implementation switches between two edge enumeration strategies by size and between network kinds; tests take a few fixed subnetworks.",
     [TR], [("subnet", "transforms.py: subnet, get_edge_inherited/edge copy helpers")],
     ["subnet(...)"],
     "exhaustive enumeration of bounded networks and subsets against a reference model",
     "All subsets of all networks in the bounded families; in networks that are not fully interconnected a chosen node without a chosen node-layer may or may not appear.")

prop("P08", "Aggregation sums all edges that project to the same pair",
     "Aggregating over any set of aspects yields a network on the remaining aspects with the same nodes and remaining elementary layers, in which the weight of each pair is the sum of the weights of all original edges (including coupling edges) that project to it; edges projecting to a pair of identical node-layers are included only when self-edges are requested. "
     "The overlay network of a multiplex network sums the intra-layer edges only. "
     "The original network is not modified, and a given target network receives the result.",
     ["inputs", "configurations"],
     "every network of the bounded families x every non-empty set of aspects in every order and spelling x self-edge option",
     "Tests aggregate two small fixed networks with equal weights; wrong double counting or dropped layers need particular shapes.",
     [TR], [("aggregate", "transforms.py: aggregate, overlay_network")],
     ["aggregate(...)", "overlay_network(...)"],
     "exhaustive enumeration of bounded networks against a reference model",
     "Weights are chosen so that every sum of distinct edges is unique.")

prop("P09", "Relabelling and normalisation are bijections that preserve everything else",
     "Relabelling a network with any injective (possibly partial, possibly swapping) renaming of nodes and of elementary layers gives the network obtained by renaming each node-layer and edge, with weights, direction, kind, interconnection and couplings preserved. "
     "Normalisation renames nodes and layers to consecutive integers and returns maps which, applied to the result or to the original as documented, recover the other one. "
     "Neither changes its inputs.",
     ["inputs", "configurations"],
     "every network of the bounded families x every renaming from a menu of identity, partial, swaps, rotations and fresh names",
     "Swapping and partial renamings over several aspects are not tested.",
     [TR], [("relabel", "transforms.py: relabel, normalize")],
     ["relabel(...)", "normalize(...)"],
     "exhaustive enumeration of bounded networks and renamings against a reference model",
     "Renaming coupled layers is checked for coupling rules that do not depend on the names.")

prop("P10", "Thresholding keeps exactly the edges satisfying the rule, and all nodes",
     "For every network, threshold value and comparison rule, the thresholded network has the same nodes, layers, node-layers, direction and kind, and contains exactly the edges (for multiplex networks: intra-layer edges) whose weight satisfies the rule, with their weights. "
     "The original network is unchanged and independent of the result.",
     ["inputs", "configurations"],
     "every network of the bounded families x four rules x every threshold below, at, between and above the weights",
     "Only one fixed network and threshold are tested; boundary weights, directed, non-interconnected and multiplex networks are not.",
     [TR], [("threshold", "transforms.py: threshold")],
     ["threshold(...)"],
     "exhaustive enumeration of bounded networks and thresholds against a reference model",
     "All networks of the bounded families. For multiplex networks the rule applies to intra-layer edges, couplings being part of the kind.")

prop("P11", "The subnetwork iterator yields every subnetwork exactly once",
     "Iterating over the subnetworks of a network yields, exactly once each, the networks induced by every combination of non-empty subsets of the nodes and elementary layers in the removable aspects (everything is kept in the other aspects) and, when edges may be removed too, each of these with every subset of its (in multiplex networks: intra-layer) edges; nothing else is yielded. "
     "The yielded networks are separate objects with the weights, kind and couplings of the original, which is not changed.",
     ["inputs", "configurations"],
     "every network of the bounded families x every set of removable aspects x edge removal on/off",
     "Tests count the yielded networks of one or two fixed networks.",
     [TR], [("subnet_iter", "transforms.py: subnet_iter")],
     ["subnet_iter(...)"],
     "exhaustive enumeration of bounded networks against an enumerated reference set",
     "All networks of the bounded families with few edges (the output is exponential in the number of edges).")

prop("P12", "Flattening and layer-wise shuffling preserve the structure they promise to",
     "The underlying graph of a network has one node per node-layer and exactly the same edges and weights between them, including coupling edges. "
     "Shuffling the nodes of each layer independently gives, for every outcome of the random source, a network in which each layer is the original layer under a permutation of its own nodes, with couplings and everything else kept, and every combination of permutations can occur. "
     "The original network is not modified.",
     ["inputs", "configurations"],
     "every network of the bounded families; every answer of the random source for the shuffling",
     "Flattening is tested on few networks and the randomised function cannot be settled by sampling a seed.",
     [TR], [("flattening", "transforms.py: get_underlying_graph"), ("shuffling", "transforms.py: randomize_nodes_by_layer")],
     ["get_underlying_graph(...)", "randomize_nodes_by_layer(...)"],
     "exhaustive enumeration of bounded networks and of all random-source answers",
     "The random source is replaced by a controlled one whose every answer is enumerated.")

exec(open(os.path.join(HERE, "tools", "props2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props2.py")) else None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             state=[dict(name=n, meaning=m) for n, m in p["state"]],
                             observe_at=p["observe"], hook_needed="none"))) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            assert len(re.findall(r"\.(?= |$)", p["statement"])) <= 3, (p["id"], "more than three sentences")
    na = dict(NA)
    man = dict(version=1, setup_cmd="./setup.sh", checks=[
        dict(property=p["id"], quick_cmd="./run.sh %s --tier quick" % p["id"], thorough_cmd="./run.sh %s --tier thorough" % p["id"],
             technique=p["technique"], level="model_checking", level_note=p["note"])
        for p in P if p["id"] not in na],
        not_applicable=[dict(property=k, reason=v) for k, v in na.items()])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()

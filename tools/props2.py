DIA = "pymnet/diagnostics.py"
IO = "pymnet/netio.py"
NX = "pymnet/nxwrap.py"
ISO = ["pymnet/isomorphisms/__init__.py", "pymnet/isomorphisms/isomcore.py", "pymnet/isomorphisms/nxbackend.py", "pymnet/isomorphisms/blissbackend.py"]

prop("P13", "Degree distributions, density and overlap degrees follow their definitions",
     "The degree listing gives, for every node (node-layer) of the network, its number of neighbours, and the degree distribution gives for each degree that occurs the number of nodes having it. "
     "The density is the sum of the number of edges over the number of possible edges between distinct node-layers of the network, also for networks that are not fully interconnected or have no possible edges (where it is 0). "
     "The overlap degree of a multiplex network gives, for each node (and each combination of layers), the number of neighbours connected to it in exactly these layers, whatever the weights; the network is not modified.",
     ["inputs", "configurations"],
     "every network of the bounded families and every edge placement of two and three layers",
     "Tests check one fixed network of each kind; the definitions must hold for every shape, including missing node-layers, isolated nodes and weights different from one.",
     [DIA], [("distributions and density", "diagnostics.py: degs, density, multiplex_degs, multiplex_density"), ("overlap degrees", "diagnostics.py: overlap_degs")],
     ["degs", "density", "multiplex_degs", "multiplex_density", "overlap_degs"],
     "exhaustive enumeration of bounded networks against a reference model",
     "Density is not judged for networks without possible edges that contain a self-edge.")

prop("P14", "Shortest path searches find true distances and all shortest paths",
     "From any set of source nodes or node-layers the shortest path search yields exactly the reachable node-layers, each with its minimal total edge weight from the sources, in non-decreasing order of distance, together with exactly the edges that lie on some shortest path (the shortest path forest). "
     "When only the first arrival to each node is asked for (pruning by layer), it reports for each node the smallest distance to any of its node-layers. "
     "Zero weights, self-edges, ties, directions and names of different types make no difference, and the network is not modified.",
     ["inputs", "configurations"],
     "every network of the bounded families with tied, increasing, decreasing, fractional and zero weights x every set of at most two sources",
     "Ties, equal-distance paths arriving through the priority queue in different orders and zero weights do not occur in the few fixed test networks.",
     [DIA], [("search", "diagnostics.py: dijkstra, dijkstra_mlayer_prune")],
     ["dijkstra", "dijkstra_mlayer_prune"],
     "exhaustive enumeration of bounded networks against a relaxation oracle",
     "Weights are non-negative.")

prop("P15", "Saving to JSON or edge files and reading edge files loses nothing",
     "The JSON text written for a multiplex network (to a string, a path or an open file) contains exactly its nodes, layers and intra-layer edges with weights. "
     "Edge files written for a multiplex network list for every layer exactly the intra-layer edges (with weights and both directions as documented), use one consistent numbering of nodes and layers, and describe this numbering in the master and node files. "
     "Reading an edge list file gives, for every order of the lines, the network containing exactly the listed edges.",
     ["inputs", "configurations"],
     "every bounded multiplex network x output options; every order of lines of every bounded file",
     "Tests write one network; separators, weights, number formatting and orders are not varied.",
     [IO], [("JSON", "netio.py: write_json"), ("edge files", "netio.py: write_edge_files, read_edge_file")],
     ["write_json", "write_edge_files", "read_edge_file"],
     "exhaustive enumeration of bounded networks and files with an independent parser",
     "Files are produced in a scratch directory.")

prop("P16", "All layout variants of a UCINET DL file are read as the same network",
     "Reading a UCINET DL file gives the network whose intra-layer edges are exactly the non-zero entries of the matrices in the file, with the node and layer names given in the file (or consecutive numbers without labels), regardless of how the header is split to lines and capitalised, how rows of the matrix continue on several lines, and whether labels are given separately, embedded in the matrices, or not at all. "
     "Nodes without edges are kept. "
     "Files that end too early and files in unsupported formats are rejected with an exception instead of giving some network.",
     ["inputs", "configurations"],
     "every matrix up to the bounds x every layout variant; every truncation of each file",
     "Tests read fixed files of a few layouts; the parser is a state machine over headers, labels and wrapped rows.",
     [IO], [("parser", "netio.py: read_ucinet")],
     ["read_ucinet"],
     "exhaustive enumeration of bounded files against the data they were generated from",
     "Conflicting weights of the two directions are excluded.")

prop("P17", "The NetworkX view is the network, and NetworkX survives every call",
     "A network with no aspects seen through the NetworkX view and a NetworkX graph built by the same edits have the same nodes, edges, weights, degrees and adjacency after any sequence of edits through either side (refused edits change nothing), and NetworkX functions called through the wrapper give on the view the result they give on the graph (functions that remove nodes, which the view refuses, excepted). "
     "Whatever happens in a wrapped call, including exceptions raised anywhere inside it, NetworkX works normally afterwards and the network has not changed unless the function is meant to change it.",
     ["histories", "inputs", "fault_sequences"],
     "all bounded edit histories through both sides; every small graph x a menu of functions; every function of one graph x a menu of graphs; every wrapped call with an exception injected at every access",
     "Tests call a handful of functions on one graph and never make a wrapped function fail midway.",
     [NX], [("graph view", "nxwrap.py: MonoplexGraphNetworkxView"), ("monkey patching", "nxwrap.py: autowrapping of networkx functions, MonoplexGraphNetworkxNew")],
     ["pymnet.nx functions", "MonoplexGraphNetworkxView"],
     "explicit-state model checking of edit histories and exhaustive fault injection",
     "Random generators bound to the plain graph class, and functions that store other edge attributes than the weight, are excluded. Edges with zero weight are not copied to derived graphs.")

prop("P18", "Isomorphism tests and mappings are right for every set of permutable aspects",
     "Two networks are reported isomorphic with respect to a set of aspects exactly when some renaming of nodes and elementary layers in these aspects (everything else fixed, weights ignored) turns the node-layers and edges of one into those of the other; the decision is symmetric. "
     "A returned isomorphism, when applied, really turns the first network into the second, one is returned whenever there is one, and the networks are not modified.",
     ["inputs", "configurations"],
     "all ordered pairs within pools of bounded networks x every set of permutable aspects",
     "Tests compare a few hand-made pairs; wrong colourings of the auxiliary graph merge or split classes only for particular pairs.",
     ISO, [("auxiliary graphs", "isomcore.py: AuxiliaryGraphBuilder"), ("networkx backend", "nxbackend.py")],
     ["is_isomorphic", "get_isomorphism"],
     "exhaustive enumeration of bounded pairs against brute force over all relabelings",
     "Pools are bounded to 2-4 nodes and two or three layers.")

prop("P19", "Complete invariants and automorphism groups are exact",
     "Two networks have the same complete invariant with respect to a set of aspects exactly when they are isomorphic with respect to it, and the same canonical form relation holds. "
     "The returned automorphism generators are automorphisms, and they generate the whole automorphism group. "
     "The second backend decides isomorphism and gives mappings exactly like the first one.",
     ["inputs", "configurations"],
     "every network and pair of the bounded pools x every set of permutable aspects",
     "The backend needs a package that is not available in the test environment, so none of this code is executed by the tests.",
     ISO, [("invariants", "isomcore.py: complete invariant and structure invariant code"), ("bliss backend", "blissbackend.py")],
     ["get_complete_invariant", "get_automorphism_generators", "is_isomorphic(backend='bliss')"],
     "exhaustive enumeration of bounded networks against brute force over all relabelings",
     "The external canonical labelling package is replaced by an exact brute-force stand-in with the same interface.")

SAM = ["pymnet/sampling/esu.py", "pymnet/sampling/dumb.py", "pymnet/sampling/creators.py", "pymnet/sampling/reqs.py"]
CC = ["pymnet/cc.py"]

prop("P20", "Exhaustive subgraph enumeration finds every acceptable subgraph once",
     "Enumerating the induced subgraphs of a one-aspect network visits every pair of a node set and a layer set whose induced subnetwork satisfies the requested requirements (number of nodes and layers, sizes of layers and of their intersections as exact values or upper bounds, or a given check function), and visits each exactly once and nothing else. "
     "The tree-search algorithm and the naive algorithm give the same collection, and so do all ways of stating the same requirement and of receiving the results. "
     "The network is not modified.",
     ["inputs", "configurations"],
     "every bounded network x every bounded requirement x every way of stating it",
     "The tests compare the two algorithms on a few networks; the tree search avoids duplicates through numbering and exclusive neighbourhoods, which fail for particular shapes only.",
     [SAM[0], SAM[1], SAM[3]], [("tree search", "esu.py: sample_multilayer_subgraphs_esu, _extend_subgraph"), ("naive enumeration", "dumb.py: dumb_enumeration"), ("requirements", "reqs.py")],
     ["sample_multilayer_subgraphs_esu", "dumb_enumeration"],
     "exhaustive enumeration of bounded networks and requests against brute force",
     "Undirected networks whose no-edge value is 0.")

prop("P21", "Subgraph sampling gives every acceptable subgraph the promised probability",
     "With sampling probabilities for the steps of the tree search, every acceptable induced subgraph is returned with probability equal to the product of the probabilities, whichever subgraph it is, and never more than once in a run. "
     "The random creators of node lists and of partially interconnected ER networks produce exactly the outcomes they promise, each with the promised probability; all of them give the same result whenever they get the same seed.",
     ["inputs", "schedules"],
     "every bounded network x request x probability vector x every outcome of the random source",
     "A sampler that is biased or misses some subgraphs looks the same as a correct one in any test that draws a few samples.",
     [SAM[0], SAM[2]], [("probabilistic tree search", "esu.py: the p and sampling parameters"), ("random creators", "creators.py")],
     ["sample_multilayer_subgraphs_esu(p=...)", "random creators"],
     "exhaustive enumeration of every random-source outcome with exact probabilities",
     "The random source is replaced by a controlled one; probabilities are exact fractions.")

prop("P22", "Subgraph requirement checks decide exactly their definition",
     "The full check accepts a choice of nodes and layers exactly when the induced subgraph is connected, uses all given nodes and layers, and its layers can be matched to the requested sizes so that the sizes of layers and of all their intersections equal the request (or do not exceed it in upper-bound mode; unspecified ones are unconstrained). "
     "The relaxed check accepts exactly the connected subgraphs using all the given nodes and layers. "
     "The derived numbers of nodes and layers of a request are those of the set system it describes, and malformed requests are rejected.",
     ["inputs", "configurations"],
     "every bounded network x every choice of nodes and layers x every bounded requirement vector",
     "The checks match layers to roles through orderings and combinations; a few fixed networks do not separate the roles.",
     [SAM[3]], [("checks", "reqs.py: default_check_reqs, relaxed_check_reqs"), ("derived lengths", "reqs.py: default_calculate_required_lengths")],
     ["default_check_reqs", "relaxed_check_reqs", "default_calculate_required_lengths"],
     "exhaustive enumeration of bounded networks and requests against the definition",
     "Undirected networks whose no-edge value is 0.")

prop("P23", "Single-layer clustering coefficients equal their formulas",
     "For every node of an undirected single-layer network, the unweighted clustering coefficient and the weighted ones of Barrat, Onnela and Zhang-Horvath equal their defining formulas over the weight matrix, including the value given for nodes where they are undefined. "
     "The network-level versions (gcc_zhang, gcc_from_lcc) equal theirs, and the network is not modified.",
     ["inputs", "configurations"],
     "every bounded single-layer network with equal, ordered, mixed and fractional weights",
     "Tests compare few nodes in few networks, mostly with equal weights, where several different formulas coincide.",
     CC, [("monoplex coefficients", "cc.py: lcc, cc_barrat, cc_onnela, cc_zhang, gcc_zhang, gcc_from_lcc")],
     ["cc.lcc", "cc.cc_*", "cc.gcc_*"],
     "exhaustive enumeration of bounded networks against the formulas",
     "No self-edges, non-negative weights, floating-point tolerance.")

prop("P24", "Multiplex clustering coefficients of the literature equal their formulas",
     "The multiplex clustering coefficients of Barrett, Brodka, Criado and Battiston, the layer-averaged ones and the tensor-contraction ones equal the formulas they are documented with, evaluated over the adjacency and aggregated adjacency tensors, for every node and also where nodes are missing from layers. "
     "Passing a precomputed aggregated network makes no difference, the given undefined value is used exactly where the coefficient is undefined, and the network is not modified.",
     ["inputs", "configurations"],
     "every bounded multiplex network x coupling x weights x choice of optional arguments",
     "Each coefficient is tested on one or two symmetric networks where different formulas give the same value.",
     CC, [("multiplex coefficients", "cc.py: cc_barrett*, lcc_brodka, lcc_battiston*, lcc_criado, cc_layers_*, gcc_contraction_*")],
     ["cc.cc_barrett", "cc.lcc_brodka", "cc.lcc_criado", "cc.cc_layers_avg"],
     "exhaustive enumeration of bounded networks against the formulas",
     "No self-edges, non-negative weights, floating-point tolerance.")

prop("P25", "Every implementation of the alternating-walk cycle counts agrees with the walks",
     "For every node-layer of an unweighted categorical multiplex network, each kind of three-step cycle of alternating intra-layer and inter-layer steps, and each of its normalisations, is counted exactly as the explicit enumeration of the walks counts it, by every implementation in the library. "
     "The local, node-level and global clustering coefficients built on them are the corresponding ratios, undefined exactly when the normalisation is zero, and the network is not modified.",
     ["inputs", "configurations"],
     "every bounded multiplex network x node-layer x type of cycle x implementation",
     "Tests use a few fixed networks; the fast implementations use shortcuts (aggregated neighbourhoods, matrix products) that are wrong only for particular overlaps of layers.",
     CC, [("cycle counts", "cc.py: cc_cycle_vector_bf, cc_cycle_vector_anet, cc_cycle_vector_adj, elementary cycles"), ("coefficients", "cc.py: lcc_aw, avg_lcc_aw, gcc_aw, gcc_*_seplayers")],
     ["cc.cc_cycle_vector_*", "cc.lcc_aw", "cc.gcc_aw*"],
     "exhaustive enumeration of bounded networks against walk enumeration",
     "Unweighted categorical couplings only.")

MOD = "pymnet/models.py"
GR = ["pymnet/graphlets/graphlets.py", "pymnet/graphlets/graphlet_measures.py", "pymnet/graphlets/independent_equations.py"]

prop("P26", "Network models generate exactly the promised ensemble",
     "Whatever the random source answers, each network model gives a network with the promised nodes, layers, couplings and direction, whose edges meet the promise of the model: the requested numbers of edges, degrees or overlaps, the fixed structure of the full models, and the growth and rewiring rules. "
     "Where a model promises a distribution (Erdos-Renyi by probability or number of edges, configuration models and preferential attachment), every possible network has exactly the promised probability. "
     "Networks given as a parameter are not modified.",
     ["inputs", "schedules"],
     "every model x bounded parameters x every outcome of the random source",
     "A test draws one random network and can check its size at most; a biased or incomplete generator passes.",
     [MOD], [("random models", "models.py: er, er_multilayer, er_partially_interconnected, er_overlaps_match_aggregated, conf, conf_overlaps, ba_total_degree, ws, geo"), ("fixed models", "models.py: full, full_multilayer"), ("edge drawing", "models.py: single_layer_er, single_layer_conf")],
     ["er", "er_multilayer", "conf", "conf_overlaps", "ba_total_degree", "ws", "geo", "full", "full_multilayer"],
     "exhaustive enumeration of every random-source outcome with exact probabilities",
     "Continuous draws are divided to the classes the probabilities separate; executions of the restart-based configuration models are cut by the number of draws.")

prop("P27", "Graphlets and orbits are the isomorphism classes, and are counted exactly",
     "The graphlet generator lists exactly one network of each isomorphism class (under the permitted relabellings) of connected multiplex networks with the requested sizes and layers, and the automorphism orbits are exactly the classes of their nodes. "
     "The orbit counts of a node of any network are the numbers of connected induced subnetworks of each class in which the node has each role, and counting does not modify the network. "
     "The numbers and the ordered list of orbits agree with these.",
     ["inputs", "configurations"],
     "every bounded size, set of layers, coupling and set of permutable aspects; every network up to the bounds",
     "Tests of the graphlets need an external package and compare the numbers of graphlets of a few configurations.",
     GR[:2], [("generation", "graphlets.py: graphlets"), ("orbits", "graphlets.py: automorphism_orbits; graphlet_measures.py: orbit_numbers, ordered_orbit_list"), ("counting", "graphlet_measures.py: orbit_counts, orbit_counts_all")],
     ["graphlets(...)", "automorphism_orbits(...)", "orbit_counts(...)", "orbit_counts_all(...)"],
     "exhaustive enumeration of bounded networks against brute-force classification",
     "The external package PyBliss is replaced by an exact stand-in, which is made to return every small generating set of automorphisms.")

prop("P28", "Orbit equations hold in every network and determine the redundant orbits",
     "Each orbit equation produced for a configuration holds for the orbit counts of every node of every network, and there is an equation for every pair of smaller orbits that has one. "
     "The independent equations are linearly independent and imply all the equations, and the redundant orbits are as many as the equations and can be solved from them and the remaining orbits. "
     "The graphlet correlation distance is the Euclidean distance of the upper triangles of the matrices.",
     ["inputs", "configurations"],
     "every bounded configuration x every pair of orbits x every rooted network up to the size of the equations",
     "The tests check the number of equations of a few configurations; a wrong coefficient holds for most networks and fails only where the orbits overlap in a particular way.",
     GR, [("equations", "graphlets.py: orbit_equations, combine_orbits, coefficient, subtrahend"), ("independent equations", "independent_equations.py: independent_equations"), ("redundant orbits", "independent_equations.py: redundant_orbits"), ("distance", "graphlet_measures.py: GCD, GCD_matrix")],
     ["orbit_equations(...)", "independent_equations(...)", "redundant_orbits(...)", "GCD(...)"],
     "exhaustive evaluation at every rooted network up to the equation's size against brute-force counts",
     "Graphlets of at most four nodes, as documented; PyBliss is replaced by an exact stand-in; graphlet correlation matrices need pandas, which is not installed.")

VIS = ["pymnet/visuals/drawcore.py", "pymnet/visuals/drawassigners.py", "pymnet/visuals/drawnet.py", "pymnet/visuals/drawbackends/mpl.py",
       "pymnet/visuals/drawbackends/threejs.py", "pymnet/visuals/webplots.py"]

prop("P29", "A drawing shows exactly the network, with the properties asked for",
     "A drawn network has one layer, node and line for every layer, node-layer and edge of the network (directed edges in their direction, coupling edges only as requested), and nothing else. "
     "Every colour, size, label, style and order is the one that the given dictionary, rule or default says for the item, in this order of precedence, and every item is placed where the coordinates, the layer order and the layer gap put it; drawing does not modify the network or the next drawing. "
     "Web pages and three.js pages contain the same network, for every name and weight.",
     ["inputs", "configurations", "histories"],
     "every bounded network of one aspect x every source of every property x layout options; sequences of two drawings",
     "The drawing tests only check that no exception is raised.",
     VIS, [("figure", "drawnet.py: draw; drawcore.py: NetFigure"), ("properties", "drawassigners.py: PropertyAssigner and subclasses"), ("pages", "threejs.py, webplots.py: webplot, write_json")],
     ["draw(...)", "Matplotlib Axes contents", "webplot(...)"],
     "exhaustive enumeration of bounded networks and options; decoding of the drawn figure",
     "One aspect (as documented); Matplotlib's own rendering is trusted; drawing of shapes and order of painting only as far as set in the figure objects.")

prop("P30", "Layouts place every node (node-layer) once, inside the box; fixed ones stay",
     "Every layout gives finite coordinates for exactly the nodes of the network (exactly the node-layers when they are not aligned), scaled to fill the requested box. "
     "Nodes whose coordinates are fixed stay where they were given, initial coordinates are used, and given dictionaries are not modified. "
     "Renaming the nodes and layers renames the coordinates and does not change anything else, and connected nodes attract and all nodes repel each other.",
     ["inputs", "schedules"],
     "every bounded network of one and two aspects x every layout, alignment, box, fixed set and initial coordinates x random answers from a menu that includes ties",
     "The layout tests only check that no exception is raised for some networks.",
     ["pymnet/visuals/layouts.py"], [("layouts", "layouts.py: get_layout, get_fruchterman_reingold_multilayer_layout"), ("scaling", "layouts.py: normalize_coordinates, scale_coordinates")],
     ["get_layout(...)", "get_fruchterman_reingold_multilayer_layout(...)", "normalize_coordinates(...)"],
     "exhaustive enumeration of bounded networks, options and random answers",
     "Layouts of NetworkX are checked for keys, box and finiteness; coordinates from the random source are taken from a finite menu.")

prop("P31", "The modularity view and the flattened matrix hold the documented values",
     "Reading a pair of node-layers of an undirected network through the modularity view gives the weight of the edge, reduced inside a layer by the resolution parameter times the product of the strengths of the two ends in that layer over the sum of all strengths in the layer, for any number of aspects, any couplings and every index notation, and only the weight in layers without edges. "
     "The flattened matrix file and the supra-adjacency matrix of a network or of a view have one row and column for each node-layer, sorted by name, and contain every entry. "
     "The network is not modified.",
     ["inputs", "configurations"],
     "every network of the bounded families (0 to 2 aspects, multiplex and general, interconnected or not) x resolution parameters x every pair and notation",
     "Neither the view nor the flattened matrix is tested at all.",
     [NET], [("view", "net.py: ModularityMultilayerNetworkView"), ("flattened matrix", "net.py: MultilayerNetwork._write_flattened")],
     ["ModularityMultilayerNetworkView(...)[...]", "net._write_flattened(...)", "supra_adjacency_matrix(view)"],
     "exhaustive enumeration of bounded networks against the defining formula",
     "Undirected networks whose 'no edge' value is zero; the view shows the network as it was when the view was made.")

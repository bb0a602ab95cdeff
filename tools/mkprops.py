"""Writes /verif/properties.jsonl (kept as code so that anchors stay consistent)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": list(files),
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                    "observe_at": list(observe), "hook_needed": hook},
    })

PP = "pybbn/pptc/"
GR = "pybbn/graph/"

prop("C01", "Prior marginals are exact",
     "For every discrete Bayesian network (any directed acyclic structure, connected or not, any identifiers, cardinalities, names and values, any valid CPTs including zeros and deterministic rows), the marginals reported right after inference is applied, both name-keyed and as per-node potentials, equal the marginals of the joint distribution defined by the CPTs. Every variable is reported exactly once, over exactly its own values, in its declared order.",
     ["inputs"], "all discrete networks, within the size where exact summation is feasible",
     "The tests compare six or so fixed, mostly connected networks against stored numbers; isolated nodes, forests, sparse/shuffled ids, cards > 3, deterministic CPTs and parents declared in unusual order are not covered.",
     [PP+"inferencecontroller.py", PP+"propagator.py", PP+"initializer.py", PP+"potentialinitializer.py", PP+"moralizer.py", PP+"triangulator.py", PP+"transformer.py", PP+"evidencecollector.py", PP+"evidencedistributor.py", GR+"potential.py", GR+"jointree.py"],
     [("two-phase message passing over every tree of the join forest", PP+"propagator.py"), ("CPT to clique assignment", PP+"initializer.py")],
     [("join_tree.potentials", "clique and separator potentials", GR+"jointree.py")],
     ["InferenceController.apply", "JoinTree.get_posteriors", "JoinTree.get_bbn_potential"])

prop("C02", "Posteriors under any evidence are exact",
     "After any set of evidence (hard observations, findings that rule values out, virtual likelihoods, on any number of variables at once), every reported marginal equals Bayes' rule applied to the network's joint distribution weighted by the current likelihoods. Evidence that the model makes impossible produces all-zero marginals for the variables connected to it, never NaN, an exception or a spurious distribution.",
     ["inputs"], "all networks x all assignments of likelihood vectors to variables",
     "Tests set a handful of observations on fixed networks; mixtures of soft and hard evidence, findings, contradictory evidence and evidence in several components are not tried.",
     [GR+"jointree.py", PP+"initializer.py", PP+"propagator.py", PP+"evidencecollector.py", PP+"evidencedistributor.py", GR+"potential.py"],
     [("evidence potentials multiplied into the node's home clique", PP+"initializer.py"), ("0/0 = 0 separator division", GR+"potential.py")],
     [("join_tree.evidences", "current likelihood per node and value", GR+"jointree.py")],
     ["JoinTree.update_evidences", "JoinTree.set_observation", "JoinTree.get_posteriors"])

prop("C03", "Answers depend only on current evidence, not on history",
     "At every point of any sequence of evidence updates, toggled observations, retractions and queries, the reported marginals are those of the evidence currently in force, identical to a fresh tree given that evidence at once; the order, batching and repetition of updates are irrelevant. Retracting everything restores the priors, also after impossible evidence.",
     ["histories"], "all finite sequences of update_evidences / set_observation / unobserve / unobserve_all / queries on one tree",
     "Tests run at most three or four fixed updates in a row and never compare to a fresh tree.",
     [GR+"jointree.py", PP+"inferencecontroller.py", PP+"initializer.py", PP+"propagator.py"],
     [("change classification decides whether the tree is re-initialised", GR+"jointree.py Evidence.compare / get_change_type"), ("listener re-propagates", PP+"inferencecontroller.py")],
     [("join_tree.evidences", "current likelihood per node and value", GR+"jointree.py")],
     ["JoinTree.update_evidences", "JoinTree.set_observation", "JoinTree.unobserve", "JoinTree.unobserve_all"])

prop("C04", "Evidence is normalised, toggled and applied atomically",
     "Evidence given to a tree is normalised by its type: virtual likelihoods are clamped to [0,1], findings become 0/1 (all-zero findings mean no evidence), an observation selects the single most likely value (the first one given on ties), unobserve sets all ones, and values not mentioned count as 0 for the first three. Setting a single observation equal to the hard observation in force retracts it and anything else replaces it. An update containing an unknown node or value raises and changes nothing in the tree.",
     ["inputs", "histories"], "all evidence objects of all types and likelihoods, following any previous evidence, including malformed ones",
     "Tests check one example per evidence type; ties, missing values, out-of-range likelihoods, toggles after soft evidence and failing batches are not exercised.",
     [GR+"jointree.py"],
     [("Evidence.validate", GR+"jointree.py"), ("JoinTree.set_observation", GR+"jointree.py"), ("JoinTree.update_evidences", GR+"jointree.py")],
     [("join_tree.evidences", "current likelihood per node and value", GR+"jointree.py")],
     ["EvidenceBuilder.build", "Evidence.validate", "Evidence.compare", "JoinTree.set_observation"])

prop("C05", "Join trees are isolated from each other",
     "Join trees obtained by applying inference repeatedly to one unchanged network, by re-application with new CPTs, by deep copy, or from a serialised form never influence one another: evidence, updates or failures on one leave every answer of the others unchanged, and each keeps responding to its own evidence. This holds for any interleaving of operations on distinct trees, including from several threads.",
     ["histories", "schedules"], "all interleavings of operations over several trees that share a network (not edited meanwhile) or an ancestor tree",
     "No test holds two live trees over the same network and drives both, let alone from threads.",
     [PP+"inferencecontroller.py", GR+"jointree.py", PP+"initializer.py"],
     [("JoinTree.__deepcopy__", GR+"jointree.py"), ("InferenceController.reapply copies the tree", PP+"inferencecontroller.py")],
     [("node.metadata['parent.clique']", "home clique of a node, stored on the shared node", PP+"initializer.py")],
     ["InferenceController.apply", "InferenceController.reapply", "copy.deepcopy(join_tree)", "JoinTree.from_dict"])

prop("C06", "Re-parameterising or re-applying equals building from scratch",
     "Re-applying a tree with new CPTs for any subset of variables gives a tree whose priors and posteriors equal those of a network built from scratch with these CPTs, starts without evidence, and leaves the original tree with its CPTs, evidence and answers unchanged. Applying inference again to a network after its nodes, edges or CPTs were changed equals applying it to a freshly built network.",
     ["inputs", "histories"], "all networks x all CPT replacements x all chains of re-applications and network edits",
     "Tests re-apply three fixed networks once, and never under evidence, in chains, or after structural edits.",
     [PP+"inferencecontroller.py", PP+"potentialinitializer.py", GR+"jointree.py", PP+"initializer.py"],
     [("InferenceController.reapply", PP+"inferencecontroller.py"), ("JoinTree.update_bbn_cpts", GR+"jointree.py"), ("PotentialInitializer.reinit", PP+"potentialinitializer.py")],
     [("join_tree.parent_info", "ordered parents of each node, as used by the CPT layout", GR+"jointree.py")],
     ["InferenceController.reapply", "InferenceController.apply"])

prop("C07", "The join tree is a valid junction tree",
     "For every network, inference builds a structure whose cliques cover every family (each variable with its parents), no clique is contained in another, which is a forest with one tree per connected component of the network, and in which the cliques containing any given variable are connected through separators that contain it (running intersection). Every separator is exactly the intersection of the two cliques it joins.",
     ["inputs"], "all directed acyclic structures",
     "Tests compare clique ids of a few networks to constants.",
     [PP+"transformer.py", PP+"triangulator.py", PP+"moralizer.py", GR+"jointree.py", GR+"node.py"],
     [("maximal-mass spanning tree over candidate separators", PP+"transformer.py"), ("JoinTree edge acceptance", GR+"jointree.py"), ("subset cliques dropped", PP+"triangulator.py")],
     [("join_tree.nodes/edges/neighbors", "cliques, separators and their links", GR+"jointree.py")],
     ["InferenceController.apply", "JoinTree.get_cliques", "JoinTree.get_sep_sets", "JoinTree.get_edges", "JoinTree.get_flattened_edges"])

prop("C08", "The tree is calibrated after every propagation",
     "Whenever an update has finished, every clique and separator potential equals, entry for entry, the joint probability of its variables together with the current evidence, so that any two cliques agree on what they share and every clique of one component sums to the probability of that component's evidence.",
     ["inputs", "histories"], "all networks, all evidence histories, all cliques and separators",
     "Tests compare a few potentials of one or two networks to constants; most checks only look at normalised marginals, which hide scale errors and disagreement between cliques.",
     [PP+"propagator.py", PP+"evidencecollector.py", PP+"evidencedistributor.py", GR+"potential.py", PP+"initializer.py"],
     [("collect then distribute", PP+"propagator.py"), ("PotentialUtil.pass_single_message", GR+"potential.py")],
     [("join_tree.potentials", "potential per clique and separator id", GR+"jointree.py")],
     ["JoinTreeListener callbacks", "JoinTree.potentials", "PotentialUtil.marginalize_for"])

prop("C09", "Answers do not depend on representation",
     "Answers are the same, up to floating-point rounding, for the same distribution however it is written down: any order of adding nodes and edges (with each CPT laid out for its own parent order, last parent varying fastest), any one-to-one relabelling of identifiers, names or values, lists or arrays as CPTs, and any string-hash seed of the interpreter.",
     ["inputs", "configurations"], "all re-encodings of one network, and interpreter hash seeds",
     "Each test network is written in exactly one way and the tests run under one fixed hash seed.",
     [GR+"dag.py", PP+"potentialinitializer.py", PP+"triangulator.py", PP+"transformer.py", PP+"propagator.py"],
     [("parents kept in edge insertion order", GR+"dag.py Bbn.__edge_added__"), ("sorted tie-breaking", PP+"triangulator.py, "+PP+"propagator.py")],
     [("bbn.parents", "parent ids per child in the order the CPT is laid out", GR+"dag.py")],
     ["InferenceController.apply", "JoinTree.get_posteriors"])

prop("C10", "JSON serialisation of a network is lossless",
     "Writing any network to its dictionary or JSON form and reading it back gives an equivalent network: same variables (ids, names, values in order), bit-identical CPTs, same edges and same parent order, hence the same answers. Serialising is repeatable (a second round trip produces the same document) and leaves the network unchanged.",
     ["inputs"], "all networks, names and values (including empty-looking, quoted, unicode and numeric-looking strings), array or list CPTs, any parent order",
     "Tests round-trip one or two networks with ascii names and binary values.",
     [GR+"dag.py", GR+"node.py", GR+"variable.py"],
     [("Bbn.to_dict/from_dict/to_json/from_json", GR+"dag.py"), ("to_dict of node and variable", GR+"node.py")],
     [("bbn.parents", "drives the edge order written", GR+"dag.py")],
     ["Bbn.to_dict", "Bbn.from_dict", "Bbn.to_json", "Bbn.from_json"])

prop("C11", "CSV serialisation of a network is lossless",
     "Writing any network whose names and values are non-empty strings without comma, pipe, line break or surrounding blanks to CSV and reading it back gives an equivalent network: same variables (ids, names, values in order), bit-identical CPTs, same edges and same parent order, hence the same answers.",
     ["inputs"], "all networks with CSV-safe names and values, any number of values, any parent order",
     "Tests round-trip one network with one-letter names and short decimals.",
     [GR+"dag.py"],
     [("Bbn.to_csv/from_csv", GR+"dag.py")],
     [],
     ["Bbn.to_csv", "Bbn.from_csv"])

prop("C12", "Join-tree serialisation is lossless and inference-ready",
     "A join tree written to its dictionary form (also through JSON text), read back and re-activated has the same cliques, separators and links as the original and gives the same priors, and the same posteriors under any further evidence, as a tree built from the network; this includes forests and isolated variables. It starts without evidence and accepts re-application with new CPTs.",
     ["inputs", "histories"], "all networks and evidence histories before and after serialisation",
     "Tests round-trip connected networks and one single-clique network and look at priors only.",
     [GR+"jointree.py", PP+"inferencecontroller.py", PP+"potentialinitializer.py"],
     [("JoinTree.to_dict/from_dict", GR+"jointree.py"), ("InferenceController.apply_from_serde", PP+"inferencecontroller.py")],
     [("parent_info", "ordered parents in the serialised form", GR+"jointree.py")],
     ["JoinTree.to_dict", "JoinTree.from_dict", "InferenceController.apply_from_serde"])

prop("C13", "Directed graphs can never become cyclic",
     "Under every sequence of node and edge additions and removals, a directed acyclic graph and a Bayesian network contain no directed cycle, self loop, duplicate or antiparallel edge and only directed edges, and a partially directed graph contains no directed cycle, no self loop and at most one edge per node pair. An offered edge that would not break this is accepted (an undirected one at least if no directed path links its ends) and one that would is ignored, leaving all edges as they were.",
     ["histories"], "all sequences of add_node / add_edge / remove_node with arbitrary edges",
     "Tests offer one or two offending edges to small fixed graphs, and none to a Bayesian network.",
     [GR+"dag.py", GR+"pdag.py", GR+"graph.py"],
     [("__shouldadd__ with PathDetector", GR+"dag.py"), ("__shouldadd__ with PathDetector", GR+"pdag.py")],
     [("edge_map", "adjacency used by the acyclicity test", GR+"graph.py")],
     ["Dag.add_edge", "Bbn.add_edge", "Pdag.add_edge"])

prop("C14", "Graph views agree with each other under any edit history",
     "After any sequence of node and edge additions and removals, the node list, edge list, neighbour, parent, child, ordered-parent, edge-existence, name/id map and networkx views of a graph all describe the same graph, which is the one an elementary set-of-nodes-and-edges model predicts. Removing a node removes exactly the edges that touch it, and a node that is present is not replaced by another one offered with its id.",
     ["histories"], "all edit sequences on undirected, directed, partially directed graphs and Bayesian networks",
     "Tests remove one or two nodes and inspect one view.",
     [GR+"graph.py", GR+"dag.py", GR+"pdag.py", GR+"edge.py"],
     [("Graph.add_edge/remove_node maintain nodes, edges, edge_map, neighbors", GR+"graph.py"), ("Bbn.parents", GR+"dag.py")],
     [("nodes/edges/edge_map/neighbors/parents", "redundant representations of one graph", GR+"graph.py")],
     ["Graph.get_*", "Dag.get_parents/get_children/to_nx_graph/get_i2n/get_n2i", "Pdag.get_out_nodes/directed_edge_exists", "Bbn.get_parents_ordered"])

prop("C15", "Deep copies are complete and independent",
     "A deep copy of any graph, network, node, edge, variable or join tree is observably equal to the original and shares no mutable state with it: whatever is done to either afterwards (structure, CPTs, values, metadata, evidence), the other is unchanged, and a copied join tree keeps the evidence in force and keeps answering to new evidence. References inside the copy point to the copied objects.",
     ["inputs", "histories"], "all objects and all later mutations of either side",
     "Tests copy one object of each kind and check identity of one or two fields.",
     [GR+"graph.py", GR+"node.py", GR+"edge.py", GR+"variable.py", GR+"jointree.py"],
     [("__deepcopy__ of each class", GR+"*.py")],
     [],
     ["copy.deepcopy"])

prop("C16", "Every sample is complete, possible and honours the evidence",
     "Every sample returned by the logic sampler assigns to every variable one of its values, agrees with every piece of evidence, and has non-zero probability under the network; exactly the requested number is returned (including zero). The same seed gives the same samples, and neither the network, its CPTs nor the evidence passed in is modified.",
     ["inputs"], "all networks, evidence with non-zero probability on any subset of variables (also leaves), all sample counts and seeds",
     "Tests sample one three-node network with evidence on one non-leaf variable and compare rounded frequencies.",
     ["pybbn/sampling/sampling.py"],
     [("rejection in get_samples", "pybbn/sampling/sampling.py"), ("topological order", "pybbn/sampling/sampling.py"), ("inverse CDF tables", "pybbn/sampling/sampling.py Table")],
     [],
     ["LogicSampler.get_samples", "LogicSampler.nodes"])

prop("C17", "Samples follow the exact conditional distribution",
     "Samples are independent draws from the exact joint distribution of the network conditioned on the evidence: for every event its frequency converges to the exact probability that inference reports. The sampling table maps a uniform number u to the value whose cumulative-probability interval contains u, for the parent values given.",
     ["inputs"], "all networks (any parent declaration order, ids and cardinalities), evidence on any subset, all seeds",
     "Tests compare frequencies of one small network with wide tolerance.",
     ["pybbn/sampling/sampling.py", GR+"dag.py"],
     [("Table CDFs keyed by parent values", "pybbn/sampling/sampling.py"), ("rejection", "pybbn/sampling/sampling.py")],
     [],
     ["LogicSampler.get_samples", "Table.get_value"])

prop("C18", "Networks learned from data carry the data's own conditionals",
     "Learning from a data frame gives exactly the requested structure, with each variable's values being the sorted distinct values of its column, and with each CPT row equal to the empirical conditional frequencies (uniform where the parent combination never occurs). The resulting distribution does not depend on row order, column order, parent list order, index or on what the columns and values are called or typed, and the data frame is unchanged.",
     ["inputs"], "all data frames of discrete columns (strings with spaces or quotes, numbers, booleans) and all acyclic structures over them",
     "Tests learn two or three fixed networks with plain on/off strings and sorted parents.",
     [GR+"factory.py"],
     [("Factory.from_data get_cpt", GR+"factory.py"), ("topological numbering", GR+"factory.py")],
     [],
     ["Factory.from_data"])

prop("C19", "Imported libpgm networks keep their distribution",
     "Importing any libpgm discrete network (as an object, dictionary or JSON string; root or multi-parent nodes, null or empty parents, any ordering of entries) yields a network with the same variables, values, edges and the distribution defined by the libpgm conditional tables. The three input forms agree and the input is not modified.",
     ["inputs"], "all well-formed libpgm discrete networks",
     "Tests import a handful of fixed documents and compare stored marginals of some of them.",
     [GR+"factory.py"],
     [("Factory.from_libpgm_discrete_*", GR+"factory.py")],
     [],
     ["Factory.from_libpgm_discrete_json", "Factory.from_libpgm_discrete_dictionary", "Factory.from_libpgm_discrete_object"])

prop("C20", "Generated networks are valid",
     "For every size, iteration count, value and hyper-parameter limit and every state of the random generator, a generated network is a connected directed acyclic graph over exactly the requested nodes, singly connected if asked for a singly-connected one, with 2 to the allowed number of values per variable and CPTs of the right shape whose rows are strictly valid distributions. The recorded parents are exactly the graph's, and equal random states give equal networks.",
     ["inputs", "configurations"], "all generator arguments and random states",
     "Tests generate a few networks of one size and check connectivity.",
     ["pybbn/generator/bbngenerator.py"],
     [("structure edits undone when they disconnect or create a cycle", "pybbn/generator/bbngenerator.py"), ("Dirichlet sampling", "pybbn/generator/bbngenerator.py")],
     [],
     ["generate_singly_bbn", "generate_multi_bbn"])

prop("C21", "Generated networks convert, serialise and draw faithfully",
     "Converting a generated structure and parameters to a network preserves nodes, edges and every conditional probability with respect to the recorded parents; its JSON form carries the same nodes, edges, parameters and shapes; the drawing form has exactly the network's nodes and edges; and the file form, CSV or JSON, loads back to a network of the requested size whose distribution is well defined.",
     ["inputs"], "all generated networks and hand-made structure/parameter pairs (parents recorded in the order in which the graph lists the edges), both file types",
     "Tests convert one network and check that inference does not fail.",
     ["pybbn/generator/bbngenerator.py", GR+"dag.py"],
     [("convert_for_exact_inference / convert_for_drawing / to_json / generate_bbn_to_file", "pybbn/generator/bbngenerator.py")],
     [],
     ["convert_for_exact_inference", "convert_for_drawing", "to_json", "generate_bbn_to_file"])

prop("C22", "Gaussian conditioning is exact",
     "For any multivariate normal with positive-definite covariance and any set of observed variables, the conditional covariance of the remaining variables equals the exact one, and the reported conditional means equal the exact ones. Observed variables are reported with their observed value and zero variance, and the unobserved ones keep their names and order.",
     ["inputs"], "all dimensions, means, covariances and observation sets",
     "Tests condition one three-variable zero-mean example on fixed observations.",
     ["pybbn/gaussian/inference.py"],
     [("GaussianInference.do_inferences", "pybbn/gaussian/inference.py"), ("GaussianInference.P", "pybbn/gaussian/inference.py")],
     [("meta", "observations so far", "pybbn/gaussian/inference.py")],
     ["GaussianInference.do_inferences", "GaussianInference.P", "GaussianInference.marginals"])

prop("C23", "Gaussian inference is order-free, compositional and pure",
     "Conditioning is invariant to the order in which observations are listed and to the order of variables in the model; observing in several steps gives the same result as observing at once; and conditioning never alters the model it starts from. Sampled marginals have one series of the requested size per variable, drawn around the reported mean with the reported variance.",
     ["inputs", "histories"], "all permutations, all splits of observation sets, all models",
     "Tests run one order of one split.",
     ["pybbn/gaussian/inference.py"],
     [("index bookkeeping between observation order and header order", "pybbn/gaussian/inference.py")],
     [("meta", "observations so far", "pybbn/gaussian/inference.py")],
     ["GaussianInference.do_inference", "GaussianInference.do_inferences", "GaussianInference.sample_marginals"])

prop("C24", "Average causal effects equal the truncated factorisation",
     "For every network in which all parent configurations of the cause co-occur with each of its values with positive probability, and for every cause, effect and effect value, the reported effect of setting the cause to a value equals the probability of the effect in the network with the cause's CPT replaced by that value (the intervention), for each value of the cause. Asking does not change later answers nor the network.",
     ["inputs", "histories"], "all strictly positive networks, all ordered pairs of variables, all query sequences",
     "Tests query one four-node network.",
     ["pybbn/causality/ace.py"],
     [("adjustment over the parents of the cause", "pybbn/causality/ace.py")],
     [],
     ["Ace.get_ace"])

prop("C25", "Path activity is d-separation",
     "For every directed acyclic graph, pair of nodes and conditioning set not containing them, some path between the nodes is active if and only if the nodes are not d-separated; each reported path carries its exact colliders, non-colliders, activity and whether it leaves the cause through a parent (back door) or a child (front door). All simple paths are reported, each exactly once.",
     ["inputs"], "all directed acyclic graphs, node pairs and conditioning sets",
     "Tests check a dozen fixed triples and paths.",
     ["pybbn/causality/do.py"],
     [("triplet classification and activity", "pybbn/causality/do.py"), ("get_paths", "pybbn/causality/do.py")],
     [],
     ["is_active_path", "is_active_triplet", "get_triplet_type", "get_paths", "get_colliders"])

prop("C26", "Confounder and mediator sets are graphically sound",
     "Reported confounders never include the cause, the effect or a descendant of the cause, lie on a back-door path that is open without conditioning, and the minimal set touches every such path that has an admissible interior node; reported mediators lie strictly inside a directed path from cause to effect and touch every directed path that has an admissible interior node (one that is no collider on another path). The complete confounder set is exactly the admissible interior of the open back-door paths, without colliders of closed ones.",
     ["inputs"], "all directed acyclic graphs and ordered node pairs",
     "Tests check some ten hand-drawn graphs.",
     ["pybbn/causality/do.py"],
     [("get_all_confounders / get_minimal_confounders / get_minimal_mediators", "pybbn/causality/do.py")],
     [],
     ["get_all_confounders", "get_minimal_confounders", "get_minimal_mediators"])

prop("C27", "DNE export describes the same network",
     "The DNE document of any network declares exactly its variables once each, with their values in order, their parents in the order their CPT is laid out, and their probabilities bit-exactly, so that the distribution read from the document equals that of the network; exporting leaves the network unchanged.",
     ["inputs"], "all networks with DNE-safe names and values",
     "The test prints the export of one network and compares a fixed text.",
     [GR+"dag.py"],
     [("Bbn.to_dne", GR+"dag.py")],
     [],
     ["Bbn.to_dne"])

prop("C28", "Potential operations are factor algebra",
     "For any potentials over any variables: building from nodes enumerates every combination of values exactly once in declared order, a node's CPT is laid out over its parents and itself with the node varying fastest, multiplication scales each entry by the unique matching entry, marginalisation sums exactly the matching entries, normalisation preserves ratios and sums to one (and leaves an all-zero potential alone), division divides entrywise with x/0 = 0, and lookup returns exactly the entries that agree. Operations change only the operand documented as updated.",
     ["inputs"], "all potentials, entries, variable subsets and values",
     "Tests check two or three potentials of one network.",
     [GR+"potential.py"],
     [("PotentialUtil", GR+"potential.py"), ("PotentialEntry.matches", GR+"potential.py")],
     [],
     ["PotentialUtil.*", "Potential.get_matching_entries", "PotentialEntry.matches/duplicate/get_kv"])

prop("C29", "Inference works on long and wide networks",
     "Network depth and width in number of nodes are limited only by time and memory: on chains, trees, stars and polytrees with hundreds to thousands of nodes, applying inference, updating evidence, copying, re-application and serialisation complete without error and give exact marginals, as long as the probability of the evidence is representable as a double.",
     ["inputs"], "long chains in any id order, deep trees, wide stars, forests of many components",
     "The largest network in the tests has a few dozen nodes.",
     [PP+"evidencecollector.py", PP+"evidencedistributor.py", GR+"jointree.py", GR+"dag.py"],
     [("traversals that do not depend on the recursion limit", PP+"*.py, "+GR+"jointree.py")],
     [],
     ["InferenceController.apply", "JoinTree.update_evidences", "copy.deepcopy", "JoinTree.to_dict"])

prop("C30", "Moralisation and triangulation are correct",
     "Moralising any directed acyclic graph yields exactly the undirected graph linking each variable to its parents and all co-parents pairwise, over the same variables. Triangulating it yields a chordal super-graph over the same variables and cliques that are exactly complete in it, cover all its edges and variables, and contain no duplicates or subsets; a graph that is already chordal gets no extra edges.",
     ["inputs"], "all directed acyclic structures, all variable cardinalities and ids",
     "Tests compare two fixed graphs to constants.",
     [PP+"moralizer.py", PP+"triangulator.py"],
     [("Moralizer.moralize", PP+"moralizer.py"), ("greedy min-fill elimination", PP+"triangulator.py")],
     [],
     ["Moralizer.moralize", "Triangulator.triangulate"])

prop("C31", "Reading never changes anything, and answers are reproducible",
     "Applying inference leaves the network's structure, variables and CPTs unchanged, and every read-only operation on a tree or network (marginals, potentials, node lookups, edge listings, serialisation, export, string forms) leaves all later answers unchanged and returns the same result when repeated. Returned marginals are the caller's own: changing them changes nothing else, and several threads may read one tree at once. Lookups by id and by name return the same variable, and unknown ids or names return nothing.",
     ["histories", "inputs"], "all interleavings of read-only operations with each other and with evidence updates",
     "Tests never re-read after reading, nor compare networks before and after inference.",
     [GR+"jointree.py", PP+"inferencecontroller.py", GR+"dag.py", GR+"potential.py"],
     [("marginalise into a fresh potential, then normalise", GR+"jointree.py get_bbn_potential")],
     [("join_tree.potentials", "must not be altered by queries", GR+"jointree.py")],
     ["JoinTree.get_posteriors", "JoinTree.get_bbn_potential", "JoinTree.get_bbn_node", "JoinTree.get_bbn_node_by_name", "Bbn.to_dict", "JoinTree.to_dict"])
prop("C32", "Generators reach every network of their kind",
     "Over the states of the random generator and given enough iterations, the multi-connected generator reaches every connected directed acyclic structure and the singly-connected one every polytree of three variables, and of more variables either links every ordered pair in some network, the multi-connected one also with undirected cycles. Every number of values from two to the limit occurs, and the rows of a CPT are separate Dirichlet draws whose hyper-parameters are the integers from one to the limit.",
     ["inputs", "schedules"], "all sizes, iteration counts, limits and random states, as distributions over the latter",
     "Tests look at one or two generated networks and accept any valid one, even if it is always the same.",
     ["pybbn/generator/bbngenerator.py"],
     [("edges added, deleted and redirected at random", "pybbn/generator/bbngenerator.py __generate_multi_connected_structure__, __generate_singly_structure__"),
      ("hyper-parameters and value counts drawn at random", "pybbn/generator/bbngenerator.py __generate_alphas__, __generate_num_values__")],
     [("numpy global random state", "decides the network", "pybbn/generator/bbngenerator.py")],
     ["generate_multi_bbn", "generate_singly_bbn"])


prop("C33", "Pickled objects carry on where they were",
     "A join tree pickled in the middle of any evidence history and loaded again, in the same or in another interpreter, keeps the evidence in force, gives the same answers, and responds to further evidence and re-application like the original, with which it shares no state. Networks, graphs, samplers, potentials, evidence and Gaussian models loaded from a pickle are equal to the originals and behave like them; size is limited only by time and memory, and pickling changes nothing.",
     ["histories", "inputs"], "any object at any point of its history, all pickle protocols, alone or in containers, across processes with other string-hash seeds",
     "Tests never pickle anything.",
     [GR+"jointree.py", GR+"dag.py", GR+"node.py", GR+"potential.py", "pybbn/gaussian/inference.py", "pybbn/sampling/sampling.py"],
     [("plain attributes only, the listener included", GR+"jointree.py, "+PP+"inferencecontroller.py")],
     [("join_tree.evidences and potentials", "must travel with the tree", GR+"jointree.py")],
     ["pickle.dumps", "pickle.loads", "JoinTree.update_evidences", "InferenceController.reapply"])

prop("C34", "Use wears nothing out",
     "However often a tree, network, graph, sampler, effect estimator or Gaussian model goes through a cycle of operations that ends in the state it began with, the state it holds stays the same size and the cycle takes the same number of steps. Objects that are no longer referred to are released: the library itself keeps nothing of past networks and trees.",
     ["histories"], "all cycles of evidence, failed updates, queries, copies, re-applications, edits and draws, repeated any number of times",
     "Tests use every object a few times at most and never look at what is retained.",
     [GR+"jointree.py", GR+"graph.py", GR+"dag.py", PP+"inferencecontroller.py", "pybbn/sampling/sampling.py", "pybbn/causality/ace.py"],
     [("evidence potentials are replaced, not accumulated", GR+"jointree.py"), ("removing a node removes its edges and records", GR+"graph.py, "+GR+"dag.py")],
     [("join_tree.evidences, potentials and neighbour maps", "bounded by the network", GR+"jointree.py, "+GR+"graph.py")],
     ["JoinTree.update_evidences", "JoinTree.unobserve_all", "Graph.add_edge", "Graph.remove_node", "LogicSampler.get_samples", "Ace.get_ace"])

prop("C35", "What is printed is what is there",
     "The string forms of networks, graphs and join trees list every node, separator and edge exactly once, with its id, name and values or its variables, and with the direction of each edge. The string form of a potential has one line for each combination of values, in terms of the variables' ids, with its number to five decimals; that of a Gaussian model its names, means, covariances and observations to three.",
     ["inputs", "histories"], "all networks, edit histories, evidence in force, ids of any number of digits, values of any type",
     "Tests compare the text of one or two small objects.",
     [GR+"potential.py", GR+"node.py", GR+"edge.py", GR+"graph.py", GR+"variable.py", "pybbn/gaussian/inference.py"],
     [("__str__ of each class", GR+"*.py")],
     [],
     ["str(potential)", "str(node)", "str(bbn)", "str(join_tree)", "repr(gaussian)"])

prop("C36", "Work follows the size of the tree",
     "On networks of bounded width, the number of steps of an evidence update, a retraction, a query of all marginals, a copy, a re-application, an export and a draw grows no faster than in proportion to the number of variables, and that of applying inference or reading a tree back no faster than its cube. Evidence on many variables given at once is propagated once, not once for each variable, and an update takes as many steps late in a history as early.",
     ["inputs", "histories"], "all shapes and sizes of sparse networks, batches of any size, any history",
     "Tests run networks of a few variables, where any blow-up is invisible.",
     [PP+"propagator.py", PP+"evidencecollector.py", PP+"evidencedistributor.py", GR+"jointree.py", GR+"dag.py", PP+"inferencecontroller.py"],
     [("every clique is visited once in each direction", PP+"evidencecollector.py, "+PP+"evidencedistributor.py"), ("one notification for a batch of evidence", GR+"jointree.py update_evidences")],
     [],
     ["JoinTree.update_evidences", "JoinTree.get_posteriors", "InferenceController.apply", "InferenceController.reapply", "copy.deepcopy"])


prop("C37", "Cliques and separators do the algebra of their variables",
     "Of any cliques, the reported intersection, containment, membership, ids and weight are those of their sets of variables, the weight being the product of the numbers of values. A separator holds exactly the variables its two cliques have in common, its mass is how many they are, its cost the sum of the weights of the two cliques, and it is empty exactly when they have none. A tree asked for the cliques with a variable and its parents returns exactly those, whether it was applied, copied, re-applied, read back or unpickled.",
     ["inputs"], "all sets of variables with any ids, names and numbers of values, overlapping or not, and all cliques of live trees",
     "Tests look at a few cliques of binary variables that overlap.",
     [GR+"node.py", GR+"jointree.py"],
     [("intersects, is_superset, contains, get_weight, SepSet.mass and cost", GR+"node.py"), ("find_cliques_with_node_and_parents", GR+"jointree.py")],
     [],
     ["Clique.intersects", "Clique.is_superset", "Clique.contains", "Clique.get_weight", "Clique.get_sep_set", "SepSet.cost", "SepSet.mass", "JoinTree.find_cliques_with_node_and_parents"])

prop("C38", "Path detection is reachability",
     "Between any two nodes of a graph, a path is reported exactly if there is one: along directed edges in directed and partially directed graphs, along links in a join tree, and from a node to itself always. This holds after any history of additions and removals and for paths of any length, and asking changes nothing.",
     ["inputs", "histories"], "all graphs of the three kinds at any point of an edit history, all pairs of nodes",
     "Tests ask about a few pairs in graphs of a handful of nodes that are never edited.",
     [GR+"dag.py", GR+"pdag.py", GR+"jointree.py"],
     [("PathDetector.exists", GR+"dag.py, "+GR+"pdag.py, "+GR+"jointree.py")],
     [("graph.edge_map", "follows additions and removals", GR+"graph.py")],
     ["PathDetector.exists"])

prop("C39", "Learning from a network's samples gives the network back",
     "A network learned over the structure of another from samples of that other has its structure, and each conditional probability and each marginal is the frequency in the data and lies within sampling error of the original's, also when a root is fixed by evidence and when the learned network is sampled and learned again.",
     ["inputs", "schedules"], "all networks, numbers of samples and seeds; statistically with explicit error bounds",
     "Tests sample or learn, never both, and from one small table.",
     ["pybbn/sampling/sampling.py", GR+"factory.py"],
     [("samples are keyed by id, learned variables by name", "pybbn/sampling/sampling.py, "+GR+"factory.py"), ("the parent order of learned CPTs and edges is one", GR+"factory.py from_data")],
     [("numpy global random state", "decides the samples", "pybbn/sampling/sampling.py")],
     ["LogicSampler.get_samples", "Factory.from_data", "Dag.get_i2n"])

prop("C40", "Listeners hear of every change of evidence once",
     "When an operation changes the evidence in force, the tree's current listener is called exactly once, after all of that evidence is in place and with the tree it belongs to; copies call the same listener with the copy. Queries, refused updates and repeated observations call nobody, no operation calls twice, and the failure of a listener reaches the caller. Without a listener evidence is kept all the same.",
     ["histories"], "all histories of batches, observations, retractions and refusals with listeners set, replaced, removed, failing and shared",
     "Tests never set a listener.",
     [GR+"jointree.py", PP+"inferencecontroller.py"],
     [("evidence is stored before the one notification of a batch", GR+"jointree.py update_evidences"), ("comparison of old and new evidence", GR+"jointree.py Evidence.compare, get_change_type")],
     [("join_tree.listener", "the engine itself, or the caller's", GR+"jointree.py set_listener, __deepcopy__")],
     ["JoinTree.set_listener", "JoinTree.update_evidences", "JoinTree.set_observation", "JoinTree.unobserve", "JoinTreeListener"])

prop("C41", "Nothing happens beside what was asked for",
     "No operation, successful or failing, opens, creates or changes any file but the one it is given, leaves anything open, prints, starts threads or processes, or changes settings of the interpreter, numpy or pandas. Only sampling, generating networks and drawing from a Gaussian model move a global random state. The caller's own dictionaries, lists, frames and graphs, and the default arguments of the library, stay as they were.",
     ["inputs", "histories"], "all public operations, failing ones included, on all networks",
     "Tests look at results, never at what else changed in the process.",
     [GR+"dag.py", "pybbn/sampling/sampling.py", "pybbn/generator/bbngenerator.py", GR+"factory.py", "pybbn/causality/do.py", "pybbn/gaussian/inference.py"],
     [("files are written in one with block", GR+"dag.py"), ("samples start from a copy of the evidence", "pybbn/sampling/sampling.py get_samples")],
     [("numpy global random state", "moved by draws only", "pybbn/sampling/sampling.py"), ("default arguments", "evidence={}, meta={}, memodict={} are shared by all calls", "pybbn/sampling/sampling.py, pybbn/gaussian/inference.py")],
     ["Bbn.to_json", "Bbn.to_csv", "Bbn.from_dict", "LogicSampler", "InferenceController.apply", "Factory.from_data", "generate_bbn_to_file"])

prop("C42", "An interrupted operation is made good by the next",
     "When an update of evidence is interrupted at any point of its work, by the keyboard or any exception, the next update that completes, the same one included, leaves the tree with the right answers for the evidence it then holds, also in a copy or after pickling. An interrupted inference, re-application, query, copy, export, draw or effect leaves the objects it worked on as they were: the same call made again, and any later one, gives the right result.",
     ["histories", "crash_points"], "all operations, interrupted at any function call inside the library, then any operations",
     "Tests never interrupt anything.",
     [GR+"jointree.py", PP+"propagator.py", PP+"initializer.py", PP+"inferencecontroller.py", "pybbn/causality/ace.py"],
     [("cliques are unmarked before each pass", PP+"propagator.py"), ("an update that did not finish makes the next one start over", GR+"jointree.py update_evidences"), ("each effect starts by retracting all evidence", "pybbn/causality/ace.py")],
     [("join_tree.potentials, clique marks", "half done after an interruption", PP+"*.py")],
     ["JoinTree.update_evidences", "JoinTree.unobserve_all", "InferenceController.reapply", "Ace.get_ace", "LogicSampler.get_samples"])

prop("C43", "Separate objects may be used from separate threads",
     "Threads that each work on objects of their own (build, infer, update, copy, write, read, triangulate, learn, sample, generate, ask for paths and effects, condition Gaussian models) get the results they would get alone, whatever the others do meanwhile and however they are interleaved, and afterwards everything works as before.",
     ["schedules", "inputs"], "all pairs of operations on separate objects, all interleavings of threads",
     "Tests run one operation at a time in one thread.",
     [PP+"triangulator.py", GR+"factory.py", GR+"dag.py", "pybbn/causality/do.py", "pybbn/generator/bbngenerator.py"],
     [("scratch data belongs to the call or the object, never to a class or module", PP+"*.py, "+GR+"*.py, pybbn/causality/do.py")],
     [("numpy global random state", "shared by draws only", "pybbn/sampling/sampling.py, pybbn/generator/bbngenerator.py")],
     ["InferenceController.apply", "JoinTree.update_evidences", "Triangulator.triangulate", "Factory.from_data", "get_all_paths", "Ace.get_ace", "LogicSampler.get_samples"])

prop("C44", "A document means what it says, however it is laid out",
     "What is read from a JSON document, a CSV file or a join tree's dictionary depends on what it says, not on how it is laid out: the order of keys, nodes, sections and (parents of one variable aside) edges, edges before the nodes they join, keys as numbers or text, foreign keys, white space, line ends and the notation of numbers make no difference to structure, CPTs and answers. A document that lacks something is refused.",
     ["inputs"], "all networks, all arrangements of their documents",
     "Tests read only what the library itself has written.",
     [GR+"dag.py", GR+"jointree.py", GR+"node.py", GR+"variable.py"],
     [("edges are added after all nodes", GR+"dag.py from_csv, from_dict; "+GR+"jointree.py from_dict"), ("nodes are found by the id they state", GR+"dag.py from_dict")],
     [("file contents", "the caller's", GR+"dag.py")],
     ["Bbn.from_dict", "Bbn.from_json", "Bbn.from_csv", "JoinTree.from_dict", "InferenceController.apply_from_serde"])


here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for p in P:
        jsonschema.validate(p, s)
        assert p["statement"].count(". ") <= 2, p["id"]

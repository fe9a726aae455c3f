#!/usr/bin/env python3
"""Writes properties.jsonl (the text of every property is kept here, in readable form)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Graph queries agree with the edit history",
  "After any sequence of node and edge edits, every question about the graph (does an edge exist in either, one or both directions, its type and value, parents, siblings, the list of edges, nodes in insertion order) is answered exactly as that sequence of edits implies, whether nodes are passed as objects or as ids. An edit that is rejected (unknown node, self loop, update of an edge that is not there, duplicate node id) leaves the graph unchanged.",
  ["histories", "inputs"], "every sequence of node additions and edge add/remove/restore/update/purge operations on any set of nodes",
  "The tests run a few fixed edit sequences and look at one or two queries after each; nothing compares all redundant views after an arbitrary history.",
  ["causy/graph.py", "causy/edge_types.py"],
  [("forward, reverse and deleted edge indexes are updated together by every edit", "GraphManager.add_edge / add_directed_edge / remove_edge / update_edge / restore_edge"),
   ("queries consult the soft-delete flag", "GraphBaseAccessMixin")],
  [("edges", "arcs with type, value, soft-delete flag", "Graph.edges"), ("_reverse_edges", "reverse index", "Graph"), ("_deleted_edges", "archive of removed arcs", "Graph")],
  ["public GraphManager / Graph query methods"])

p("C02", "Edge removal is complete, reversible and local to the pair",
  "A removed edge (soft or hard, one direction or both) is invisible to every query until it is restored, and restoring it brings back the same endpoints and value; purging marked edges changes no query answer. Removing, purging or restoring never changes any edge between other nodes, nor the remaining direction of the same edge.",
  ["histories"], "every interleaving of soft/hard removals, purges, restores, re-additions and updates on any nodes",
  "The tests remove and restore single edges in isolation; the three-way interplay of soft delete, purge and restore over histories is not exercised.",
  ["causy/graph.py"],
  [("soft delete flag and archive of hard-deleted arcs", "GraphManager.remove_edge / remove_directed_edge / restore_edge / restore_directed_edge / purge_soft_deleted_edges")],
  [("deleted", "soft-delete flag of an arc", "Edge"), ("_deleted_edges", "archive", "Graph")])

p("C03", "Proposed changes are applied exactly, in order, or skipped",
  "When a pipeline step proposes changes, each one is applied to the graph in order exactly once if the edge it needs is there at that moment, and otherwise skipped without any effect; changes that are not to be applied (dry run, no-ops) leave the graph untouched. The list of taken changes, the list of all proposed changes and the per-edge history contain exactly the applied (respectively proposed) changes, in order and in the right direction.",
  ["inputs", "histories", "configurations"], "every sequence of proposed actions of every kind, grouped in any way into results, on every graph, in the sequential, chunked, synchronous and dry-run modes",
  "Tests propose one or two actions of a few kinds; edge-type updates, restores and mixtures of conflicting actions in one batch are never executed.",
  ["causy/graph_model.py", "causy/models.py", "causy/graph.py"],
  [("interpretation of test results", "AbstractGraphModel._take_action"), ("edge history", "GraphManager.add_edge_history")],
  [("edge_history", "per ordered pair list of applied results", "Graph")])

p("C04", "The run log accounts for every change of the graph",
  "A completed run has one log entry per configured step in order (loops and action groups with their inner steps nested), and replaying the logged taken changes from the initial graph reproduces the final graph, including edge directions, types and values. A loop stops exactly after the first iteration in which no change was taken; an action group sees an unchanged graph in all its steps and applies everything at its end.",
  ["programs", "inputs", "histories"], "every pipeline built from plain steps, loops and apply-together groups, on every graph",
  "Tests check the length of the log for a couple of algorithms; they never replay it, nor run loops or groups whose steps interact.",
  ["causy/graph_model.py", "causy/common_pipeline_steps/logic.py", "causy/common_pipeline_steps/exit_conditions.py"],
  [("log entries", "execute_pipeline_step_with_progress"), ("Loop / ApplyActionsTogether", "causy/common_pipeline_steps/logic.py"), ("ExitOnNoActions", "causy/common_pipeline_steps/exit_conditions.py")],
  [("action_history", "run log", "Graph")])

p("C05", "PC recovers the exact equivalence class from perfect data",
  "If the data exhibits exactly the conditional independencies of a DAG, each shipped PC variant (PC, classic, stable, parallel) returns exactly the CPDAG of that DAG: the same adjacencies, every compelled edge directed the right way and every reversible edge undirected. The outcome does not depend on variable names, column order or sample order.",
  ["inputs", "configurations"], "every DAG and every faithful linear model on it, every naming and column order, every PC variant",
  "The tests run a handful of fixed DAGs with random data; a rule that is only needed for some DAG structures is never missed.",
  ["causy/causal_discovery/constraint/algorithms/pc.py", "causy/causal_discovery/constraint/independence_tests/common.py", "causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/graph_model.py", "causy/generators.py", "causy/common_pipeline_steps/logic.py"],
  [("skeleton search, v-structures, Meek rules", "PC / PCClassic / PCStable / ParallelPC")])

p("C06", "The skeleton search makes all prescribed tests and no unjustified cut",
  "On any data, the skeleton phase removes an adjacency only together with a separating set of other variables for which an independence test of that pair came out independent, and this set is what the edge history reports. An adjacency survives only if every prescribed test on it was made and came out dependent: all pairs unconditionally, all triangles with one conditioning variable, and all pairs with every larger subset of the neighbours of either endpoint.",
  ["inputs", "configurations"], "every data set, including ones whose decisions are inconsistent with any DAG, for the PC and classic PC skeleton phases and every threshold",
  "Tests only look at the final edges of a few data sets; a skipped conditioning set or a wrong recorded separator is invisible when the final graph is the same.",
  ["causy/causal_discovery/constraint/independence_tests/common.py", "causy/generators.py", "causy/graph_model.py"],
  [("tests and recorded triples / separating sets", "CorrelationCoefficientTest, PartialCorrelationTest, ExtendedPartialCorrelationTestMatrix"), ("enumeration of conditioning sets", "PairsWithNeighboursGenerator, AllCombinationsGenerator")],
  [("action_history[].all_proposed_actions", "all tests with their outcome", "run log")])

p("C07", "Independence decisions follow the significance test",
  "For every sample size, conditioning-set size, threshold and sign, a pair is judged independent exactly when the two-sided p-value of its (partial) correlation exceeds the threshold: Fisher's z with n - k - 3 for the correlation, partial correlation and precision-matrix tests, and Student's t with n - k - 2 for the regression test. The decision does not depend on scale or shift of the variables nor on the order of the two variables or of the conditioning variables, and perfectly correlated variables are dependent.",
  ["inputs"], "every sample size, conditioning set size, significance threshold and correlation value on either side of the critical value",
  "Tests use strongly dependent or independent random data with one sample size; an off-by-one in the degrees of freedom, a one-sided test or a lost sign never flips those decisions.",
  ["causy/causal_discovery/constraint/independence_tests/common.py", "causy/math_utils.py", "causy/common_pipeline_steps/calculation.py"],
  [("p-value computation and comparison with the threshold", "*.process of the independence tests")])

p("C08", "Orientation rules fire exactly where they are justified",
  "On any partially directed graph each orientation rule directs an undirected edge only if its pattern holds at that moment: away from a collider candidate (rule 1), along a directed two-step path (rule 2), towards the common child of two non-adjacent neighbours (rule 3), along the three-step pattern (rule 4). If the pattern of a rule holds and nothing contradicts it, a pass of that rule does orient the edge, and a pass changes nothing else.",
  ["inputs"], "every mixed graph (directed and undirected edges, cyclic or not) and every node order",
  "Tests contain one positive example per rule; mirrored patterns, missing side conditions and overlaps of several patterns are not covered.",
  ["causy/causal_discovery/constraint/orientation_rules/pc.py"],
  [("NonColliderTest, FurtherOrientTripleTest, OrientQuadrupleTest, FurtherOrientQuadrupleTest", "causy/causal_discovery/constraint/orientation_rules/pc.py")])

p("C09", "V-structures are exactly those the separating sets demand",
  "Given any undirected skeleton and recorded separating sets, the collider step directs u - z - v (u, v not adjacent) into z exactly when z is not in the separating set of u and v, and directs nothing else. If two v-structures contradict each other on an edge, the one that comes first in node-pair order wins under keep-first (the later one is not applied at all) and the later one wins under keep-last (the contradicting direction is restored).",
  ["inputs", "configurations"], "every skeleton, every assignment of separating sets (consistent or not), both conflict strategies, every node order",
  "Tests contain three hand-made conflict examples that pass under either strategy.",
  ["causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/graph_model.py"],
  [("ColliderTest with unapplied actions and conflict resolution", "ColliderTest.process, generate_restores, filter_unapplied_actions"), ("collecting unapplied actions", "execute_pipeline_step")])

p("C10", "Orientation keeps the skeleton, never flips, and reaches a fixpoint",
  "Whatever the skeleton and separating sets, the orientation phase terminates, keeps every adjacency and adds none, never reverses a direction that is already set, and stops only when no further rule application is possible. Afterwards every edge is either present in both directions and typed undirected or present in exactly one direction and typed directed.",
  ["inputs", "histories"], "every skeleton with every assignment of separating sets, including contradictory ones, and every node order",
  "Tests orient consistent textbook examples only; contradictory separating sets, which real data produces, are not exercised.",
  ["causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/common_pipeline_steps/logic.py", "causy/graph_model.py"],
  [("orientation loop", "PC_ORIENTATION_RULES"), ("directed removal sets the type of the remaining direction", "_take_action")])

p("C11", "d-separation in a DAG is decided exactly",
  "For every DAG, pair of nodes and conditioning set, the DAG query reports d-separation exactly when every path between the two nodes is blocked (a non-collider in the set, or a collider with neither itself nor a descendant in the set). The answer is the same for swapped endpoints and for nodes given as objects or ids; an endpoint inside the conditioning set is rejected.",
  ["inputs"], "every DAG, ordered pair and conditioning set",
  "Tests hold about twenty hand-picked queries; paths with several colliders or descendants of colliders are barely covered.",
  ["causy/graph.py"],
  [("path enumeration and blocking rules", "are_nodes_d_separated_dag and its helpers")])

p("C12", "d-separation in a CPDAG agrees with every DAG it represents",
  "For every CPDAG, pair of nodes and conditioning set, the CPDAG query reports d-separation exactly when the nodes are d-separated in the DAGs the CPDAG represents. The answer is the same for swapped endpoints and for nodes given as objects or ids; an endpoint inside the conditioning set is rejected.",
  ["inputs"], "every CPDAG, ordered pair and conditioning set",
  "Tests hold a few queries on small CPDAGs; paths that are not of definite status are not covered.",
  ["causy/graph.py"],
  [("definite-status paths", "are_nodes_d_separated_cpdag and its helpers")])

p("C13", "Path and ancestry queries are exact and always terminate",
  "On any graph with directed, undirected and deleted edges, including cyclic ones: the descendants of a node are exactly the nodes reachable over directed edges plus itself, directed-path existence and the list of directed paths agree with the edges that can be followed, and the paths of the underlying undirected graph are exactly the simple paths, each once. Deleted edges are never followed, isolated nodes are handled, and every query terminates.",
  ["inputs", "histories"], "every mixed graph with soft-deleted edges and every pair of nodes",
  "Tests query two chains.",
  ["causy/graph.py", "causy/edge_types.py"],
  [("graph traversals", "directed_path_exists, directed_paths, descendants_of_node, all_paths_on_underlying_undirected_graph")])

p("C14", "Generators enumerate every prescribed combination exactly once",
  "Each generator yields exactly the combinations it is configured for, none twice and none outside: all node subsets of every size between minimum and maximum; every existing edge direction; for every existing edge direction and size, the pair with every subset of the other neighbours of its first node. Chunking and shuffling only regroup or reorder them, deleted edges never contribute, and the random sample is drawn from the underlying combinations only.",
  ["inputs", "configurations"], "every graph (mixed, with soft-deleted edges, isolated nodes), every minimum/maximum, chunked or not, shuffled or not",
  "Tests use one small complete graph per generator, and compare lengths.",
  ["causy/generators.py"],
  [("AllCombinationsGenerator, PairsWithEdgesInBetweenGenerator, PairsWithNeighboursGenerator, RandomSampleGenerator", "causy/generators.py")])

p("C15", "Parallel execution gives the result of sequential execution",
  "Running a step in parallel hands every combination to the step exactly once and applies every result exactly once: whatever the order in which workers finish and whatever the chunk size, the changes taken are those of applying the results one after another in completion order. For steps whose proposals do not depend on each other the resulting graph is the same as in sequential execution, and switching parallel mode off really runs in the calling process.",
  ["schedules", "configurations"], "every completion order of the workers and every chunk size",
  "Tests run the parallel algorithm once and let the operating system choose one schedule.",
  ["causy/graph_model.py", "causy/interfaces.py"],
  [("pool.imap_unordered consumption", "execute_pipeline_step"), ("pool creation", "AbstractGraphModel.__init__")])

p("C16", "Variables are validated, resolved everywhere and never leak",
  "For every algorithm and assignment, each reference to a variable anywhere in the pipeline (steps, nested loop or group steps, generators and their settings) is replaced by the assigned value or else the declared default, and an unknown reference, an unknown variable, a value of the wrong type or outside the choices is rejected. Creating or running one model never changes the declared algorithm, its defaults or another model.",
  ["programs", "inputs", "histories"], "every pipeline shape, set of declared variables, and sequence of assignments in one process",
  "Tests resolve one or two flat pipelines with one assignment each.",
  ["causy/variables.py", "causy/graph_model.py", "causy/serialization.py"],
  [("resolve_variables, resolve_variable_to_object, validate_variable_values", "causy/variables.py"), ("deep copies of loaded algorithms", "load_algorithm_by_reference")])

p("C17", "Saving and loading an algorithm preserves it",
  "Every algorithm written as JSON or YAML and loaded again is the same algorithm: the same steps in the same nesting and order with the same settings, generators, exit conditions, edge types, extensions, variables and unresolved variable references, and the same hash. A model built from the loaded algorithm produces the same graph and log as one built from the original; distinct settings give distinct hashes.",
  ["programs", "configurations"], "every algorithm built from the shipped steps, generators, loops, groups and variables, with any settings",
  "Tests round-trip the preset algorithms and two small pipelines and compare parts of the dictionaries.",
  ["causy/serialization.py", "causy/graph_utils.py", "causy/interfaces.py", "causy/variables.py", "causy/models.py"],
  [("load_algorithm_from_specification, load_pipeline_artefact_by_definition, deserialize_variable_references", "causy/serialization.py, causy/graph_utils.py, causy/variables.py")])

p("C18", "Stored results are faithful and the API serves exactly them",
  "A stored result contains exactly the nodes, edges (direction, type, value), log and variables of the run, and reading it back gives the same. The API lists for each experiment exactly its own stored versions, newest first, serves for each version exactly that version's content, serves the newest as latest, and answers unknown experiments, unknown versions and missing workspaces with an error rather than with other data.",
  ["histories", "inputs"], "every run result and every set of stored versions of experiments with arbitrary (also prefix-related) names and foreign files in the directory",
  "Tests read two fixture files through a few endpoints.",
  ["causy/serialization.py", "causy/models.py", "causy/ui/server.py", "causy/workspaces/cli.py"],
  [("CausyJSONEncoder, deserialize_result", "causy/serialization.py"), ("version listing", "_load_experiment_versions"), ("endpoints", "causy/ui/server.py")])

p("C19", "An experiment is skipped exactly when its inputs are unchanged",
  "Executing all experiments re-runs an experiment exactly when it has no stored result, or its data, data loader options, pipeline or effective variables differ from those of its newest stored result, or re-execution is forced; otherwise it is skipped and nothing is written. Executing a named experiment always runs it and stores one new version with the effective variables, without touching other experiments; an experiment with an unknown variable or a value that is invalid for it is not run and nothing is stored for it.",
  ["histories"], "every history of executions, variable updates, data edits, pipeline switches and clears over several experiments sharing pipelines and data",
  "There are no tests of workspace execution.",
  ["causy/workspaces/cli.py", "causy/data_loader.py", "causy/models.py", "causy/graph_utils.py"],
  [("hash comparison", "_experiment_needs_reexecution"), ("hashes stored with the result", "_execute_experiment")])

p("C20", "Workspace commands change exactly what they name",
  "Adding a pipeline, data loader or experiment adds exactly that; initialising asks before it replaces an existing workspace and declining changes nothing. Removing a pipeline or data loader succeeds exactly when it exists and no experiment uses it; removing or clearing an experiment deletes exactly that experiment's stored versions (never those of an experiment whose name merely starts with it, nor foreign files); updating a variable stores exactly a value that is valid for it, and invalid values or unknown names change nothing. Everything else in the workspace file stays as it was, and reading back what was written gives the same workspace.",
  ["histories", "inputs"], "every history of workspace commands over several pipelines, data loaders and experiments with prefix-related names",
  "There are no tests of the workspace commands.",
  ["causy/workspaces/cli.py", "causy/workspaces/models.py", "causy/variables.py"],
  [("remove_pipeline, remove_experiment, clear_experiment, update_experiment_variable, remove_data_loader, write_to_workspace", "causy/workspaces/cli.py")])

p("C21", "Every way of loading data gives the same graph",
  "The same table given as a list of rows, as a dictionary of columns, or through a JSON (rows or columns), JSON-lines or dynamic data loader yields the same nodes with the same values in row order, whatever the order of columns or of keys within a row. The hash of a data loader changes when the data or its options change and is stable otherwise. Tables with a row that misses a column of the first row, and JSON files that hold neither rows nor columns, are rejected.",
  ["inputs", "configurations"], "every numeric table, column order, key order per row, and loader kind",
  "Tests load one small table per format, with the keys in the same order.",
  ["causy/graph_model.py", "causy/data_loader.py"],
  [("create_graph_from_data", "causy/graph_model.py"), ("JSONDataLoader, JSONLDataLoader, DynamicDataLoader", "causy/data_loader.py")])

p("C22", "Sample generators obey the structural equations",
  "Data from the i.i.d. generator satisfies, for every sample, that each variable equals its own noise plus the sum of coefficient times parent value over all its edges, for every order in which the edges are listed; the returned graph has exactly the listed edges. Data from the time-series generator satisfies the same with lagged parents from the longest lag on, and its unrolled graph connects exactly the matching time points; cyclic i.i.d. edges are rejected.",
  ["inputs"], "every acyclic set of weighted edges in every listing order, every lag structure, every noise sequence",
  "Tests check two-edge chains with zero noise.",
  ["causy/sample_generator.py"],
  [("topologic_sort, _generate_data, generate", "causy/sample_generator.py")])

p("C23", "Direct effects are the regression coefficients on all parents",
  "For every data set and every graph, the effect stored on a directed edge is the coefficient of the cause in the least-squares regression of the effect variable on exactly all its parents (the nodes the graph reports as its parents). Undirected edges get no effect, directions and other edge values stay untouched, and every directed edge gets one.",
  ["inputs"], "every data set and every partially directed graph with linearly independent parents",
  "Tests estimate effects in a few chains and one diamond with random data and loose tolerance.",
  ["causy/causal_effect_estimation/multivariate_regression.py", "causy/graph.py", "causy/generators.py"],
  [("least squares on the parents", "ComputeDirectEffectsInDAGsMultivariateRegression.process"), ("parents", "parents_of_node")])

p("C24", "Update hooks see and shape exactly the changes",
  "Hooks before an update receive each batch of proposed changes once, in registration order and each seeing the previous hook's output, and only what the last one returns is recorded as proposed and applied; hooks after an update receive exactly the changes of that batch that were taken, once the graph already contains them. This also holds in loops, action groups (whose changes reach the hooks after an update when the group is applied) and parallel steps. The hooks of an edge type are called once before and once after every taken removal, update or type change of such an edge; a failing edge-type hook neither prevents nor duplicates the change.",
  ["programs", "inputs"], "every set of pre- and post-update hooks (filtering, adding, rewriting changes) and every sequence of batches",
  "One test counts invocations of one hook of each kind.",
  ["causy/graph_model.py", "causy/interfaces.py"],
  [("_execute_pre_graph_update_hooks, _execute_post_graph_update_hooks, _execute_hook", "causy/graph_model.py")])

p("C25", "Algorithm files are only read inside the working directory",
  "Loading an algorithm by file reference succeeds only for files whose real location is inside the current working directory; absolute paths elsewhere, parent references, symbolic links pointing out and sibling directories with a common name prefix are rejected, through the library and through the API. Files inside (also in sub directories, given relative or absolute) are accepted by the library; through the API those named without a slash or two dots are.",
  ["inputs"], "every reference string and directory layout",
  "No test passes a file reference that points outside.",
  ["causy/serialization.py", "causy/ui/server.py"],
  [("real path containment check", "load_algorithm_by_reference"), ("reference check", "get_algorithm")])

p("C26", "The diff of experiments compares the right results edge by edge",
  "The diff of any list of experiments or stored versions has one row for every pair of nodes connected in at least one of them, showing for each experiment its own edge kind (or nothing) taken from the named version or the newest one. A row is marked equal exactly when all experiments have the same edge with the same direction; showing only differences hides exactly those rows.",
  ["inputs", "histories"], "every list of stored results with arbitrary directed and undirected edges",
  "There are no tests of the diff.",
  ["causy/workspaces/cli.py", "causy/interfaces.py"],
  [("diff", "causy/workspaces/cli.py"), ("edge equality", "EdgeInterface.__eq__")])

p("C27", "Every edge carries the Pearson correlation of its data",
  "After the correlation step every edge of the graph carries, in both directions, the Pearson correlation coefficient of its two variables: correct in sign and magnitude for every data set, never outside [-1, 1], and other values stored on the edge are kept.",
  ["inputs"], "every non-constant numeric data set and every graph size",
  "Tests compute the correlation for two or three variables of one data set.",
  ["causy/common_pipeline_steps/calculation.py", "causy/graph_model.py"],
  [("CalculatePearsonCorrelations.process", "causy/common_pipeline_steps/calculation.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties", max(len(x["title"]) for x in P))

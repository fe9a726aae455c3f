From 4f898a512ff13c858d315d582348e8da27d5483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 01/46] fix: hard-removing an edge that has only one direction
 must not fail

remove_edge deleted the reverse index entry of the opposite arc, which
does not exist for a one-directional edge (KeyError after a partial
removal).
---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9e22e05..21e2735 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -775,12 +775,12 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self._deleted_edges[u.id][v.id] = self.edges[u.id][v.id]
             del self.edges[u.id][v.id]
-            del self._reverse_edges[u.id][v.id]
+            del self._reverse_edges[v.id][u.id]
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self._deleted_edges[v.id][u.id] = self.edges[v.id][u.id]
             del self.edges[v.id][u.id]
-            del self._reverse_edges[v.id][u.id]
+            del self._reverse_edges[u.id][v.id]
 
     def restore_edge(self, u: Node, v: Node):
         """
-- 
2.43.0


From 3502cd02a0974a60104712f78d6776be48b10132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 02/46] fix: a node without any edge has no parents

parents_of_node raised a KeyError for nodes which never had an edge.
---
 causy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph.py b/causy/graph.py
index 21e2735..dbd3752 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -95,7 +95,7 @@ class GraphBaseAccessMixin:
 
         return [
             self.nodes[n]
-            for n in self._reverse_edges[u].keys()
+            for n in self._reverse_edges.get(u, {}).keys()
             if not self.directed_edge_is_soft_deleted(n, u)
         ]
 
-- 
2.43.0


From 4e19a8d38ec3fdcfdbd318b0b162949e0cb3b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 03/46] fix: edge_value and edge_type of an absent arc are None

When only the opposite arc existed both accessors raised a KeyError, and
they returned the data of a soft deleted arc.
---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index dbd3752..b62c832 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -178,7 +178,7 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if not self.edge_exists(u, v):
+        if not self.directed_edge_exists(u, v):
             return None
         return self.edges[u][v].metadata
 
@@ -195,7 +195,7 @@ class GraphBaseAccessMixin:
             u = u.id
         if isinstance(v, Node):
             v = v.id
-        if not self.edge_exists(u, v):
+        if not self.directed_edge_exists(u, v):
             return None
         return self.edges[u][v].edge_type
 
-- 
2.43.0


From 205fa13ddb3149eaef21648543449fc92f908b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 04/46] fix: directed_path_exists terminates on cycles and
 ignores deleted edges

It recursed without end on undirected edges and cycles, followed soft
deleted edges and failed on nodes without edges.
---
 causy/graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index b62c832..102d8d5 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -267,11 +267,16 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if self.directed_edge_exists(u, v):
-            return True
-        for w in self.edges[u]:
-            if self.directed_path_exists(self.nodes[w], v):
+        visited = set()
+        to_visit = [u]
+        while to_visit:
+            w = to_visit.pop()
+            if self.directed_edge_exists(w, v):
                 return True
+            visited.add(w)
+            for x in self.edges.get(w, {}):
+                if x not in visited and self.directed_edge_exists(w, x):
+                    to_visit.append(x)
         return False
 
     def edge_of_type_exists(
-- 
2.43.0


From ccdc8162484ec1b7fa21bc726cae5516cf8d9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 05/46] fix: directed_paths returns all directed paths

It returned only the direct edge when there was one, recursed without end
on cycles and failed on nodes without edges.
---
 causy/edge_types.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/causy/edge_types.py b/causy/edge_types.py
index f789fd2..9589953 100644
--- a/causy/edge_types.py
+++ b/causy/edge_types.py
@@ -71,13 +71,20 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             """
             u, v = self._resolve_node_references(u, v)
             # TODO: try a better data structure for this
-            if self.directed_edge_exists(u, v):
-                return [[(u, v)]]
             paths = []
-            for w in self.edges[u.id]:
-                if self.directed_edge_exists(u, self.nodes[w]):
-                    for path in self.directed_paths(self.nodes[w], v):
-                        paths.append([(u, self.nodes[w])] + path)
+            to_extend = [(u, [], {u.id})]
+            while to_extend:
+                node, path, visited = to_extend.pop()
+                for w in self.edges.get(node.id, {}):
+                    if not self.directed_edge_exists(node, self.nodes[w]):
+                        continue
+                    extended_path = path + [(node, self.nodes[w])]
+                    if w == v.id:
+                        paths.append(extended_path)
+                    elif w not in visited:
+                        to_extend.append(
+                            (self.nodes[w], extended_path, visited | {w})
+                        )
             return paths
 
 
-- 
2.43.0


From be8e97816e5d6c5ca7199f49293b046d6e8f134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 06/46] fix: one blocking collider blocks the whole path

A later collider with a descendant in the conditioning set unblocked a
path which an earlier collider had already blocked.
---
 causy/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 102d8d5..93ab682 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -345,7 +345,6 @@ class GraphBaseAccessMixin:
         Check if a path is blocked by a collider which is not in the conditioning set and has no descendants in the conditioning set.
         :return: Boolean indicating if the path is blocked
         """
-        is_path_blocked = False
         for i in range(1, len(path) - 1):
             if self._is_collider(path[i - 1], path[i], path[i + 1]):
                 # if the node is a collider, check if the node or any of its descendants are in the conditioning set
@@ -353,7 +352,9 @@ class GraphBaseAccessMixin:
                 for descendant in self.descendants_of_node(path[i]):
                     if descendant in conditioning_set:
                         is_path_blocked = False
-        return is_path_blocked
+                if is_path_blocked:
+                    return True
+        return False
 
     def _is_a_non_collider_in_conditioning_set(self, path, conditioning_set) -> bool:
         """
-- 
2.43.0


From 28dcd6623b71fb441980893af536549f2818b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 07/46] fix: accept nodes and ids in the conditioning set of
 d-separation

A conditioning set given as ids was silently ignored, and the endpoints
were only rejected when they were given as ids.
---
 causy/graph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/causy/graph.py b/causy/graph.py
index 93ab682..b3d8216 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -398,10 +398,16 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        conditioning_set = [
+            n.id if isinstance(n, Node) else n for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
         if u in conditioning_set or v in conditioning_set:
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
+        conditioning_set = [self.node_by_id(n) for n in conditioning_set]
+
         # If there are no paths between u and v, they are d-separated
         if list(self.all_paths_on_underlying_undirected_graph(u, v)) == []:
             return True
@@ -447,10 +453,16 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        conditioning_set = [
+            n.id if isinstance(n, Node) else n for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
         if u in conditioning_set or v in conditioning_set:
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
+        conditioning_set = [self.node_by_id(n) for n in conditioning_set]
+
         # If there are no paths between u and v, they are d-separated
         if list(self.all_paths_on_underlying_undirected_graph(u, v)) == []:
             return True
-- 
2.43.0


From 0ed2fb7018ca580e6ded07fe5775195d49c67f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 08/46] fix: only definite status paths decide d-separation in
 a CPDAG

Paths which are not of definite status counted as open paths, so nodes
were reported as d-connected although every definite status path was
blocked (Perkovic, 2020).
---
 causy/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index b3d8216..a662785 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -472,14 +472,16 @@ class GraphBaseAccessMixin:
             # If the path only has two nodes, it cannot be blocked and is open. Therefore, u and v are not d-separated
             if len(path) == 2:
                 return False
+            # only paths of definite status can connect u and v
+            if not self._is_path_of_definite_status(path):
+                continue
             is_path_blocked = False
-            if self._is_path_of_definite_status(path):
-                if self._is_definite_noncollider_in_conditioning_set(
-                    path, conditioning_set
-                ):
-                    is_path_blocked = True
-                if self._is_a_collider_blocking(path, conditioning_set):
-                    is_path_blocked = True
+            if self._is_definite_noncollider_in_conditioning_set(
+                path, conditioning_set
+            ):
+                is_path_blocked = True
+            if self._is_a_collider_blocking(path, conditioning_set):
+                is_path_blocked = True
             list_of_results_for_paths.append(is_path_blocked)
         if False in list_of_results_for_paths:
             return False
-- 
2.43.0


From 96a52e0afdbad841413ce5a12dbbea457109050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 09/46] fix: purge soft deleted edges after logic steps as well

After ApplyActionsTogether the removed edges were still present for the
orientation rules, so PCStable oriented edges towards nodes which are not
adjacent any more.
---
 causy/graph_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2f7222a..51d410f 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -209,6 +209,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
             if isinstance(filter, LogicStepInterface):
                 actions_taken = filter.execute(self.graph.graph, self)
                 self.graph.graph.action_history.append(actions_taken)
+                self.graph.purge_soft_deleted_edges()
                 continue
             yield {
                 "step": filter.__class__.__name__,
-- 
2.43.0


From 32249c5fabcc3dad949c68df76ce35e7a8bdf88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 10/46] fix: test results can carry the edge type of an edge
 type update

The UPDATE_EDGE_TYPE and UPDATE_EDGE_TYPE_DIRECTED actions read the edge
type from the test result, which had no such attribute.
---
 causy/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/models.py b/causy/models.py
index 96f5f13..ede176f 100644
--- a/causy/models.py
+++ b/causy/models.py
@@ -57,6 +57,7 @@ class TestResult(TestResultInterface):
     v: NodeInterface
     action: TestResultAction
     data: Optional[Dict] = None
+    edge_type: Optional[EdgeTypeInterface] = None
 
 
 class AlgorithmReferenceType(str, enum.Enum):
-- 
2.43.0


From 94e5a2ccc863a4eb230ba5ddc8e111608fdad63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 11/46] fix: chunked PairsWithEdgesInBetweenGenerator yields
 every edge once

After the chunks all edges were yielded again as single edges.
---
 causy/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/generators.py b/causy/generators.py
index 73a3219..0c63ff8 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -89,6 +89,7 @@ class PairsWithEdgesInBetweenGenerator(GeneratorInterface):
         if self.chunked:
             for i in range(0, len(edges), self.chunk_size):
                 yield edges[i : i + self.chunk_size]
+            return
 
         for edge in edges:
             yield edge
-- 
2.43.0


From d0996c42cd23ea2bf6a92bb15bdd3310dc6b175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 12/46] fix: do not ignore falsy pipeline step settings

threshold=0.0, parallel=False or apply_synchronous=False were silently
replaced by the defaults of the step.
---
 causy/interfaces.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 0fbf88f..2aa35f8 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -369,25 +369,25 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
         **kwargs,
     ) -> None:
         super().__init__()
-        if generator:
+        if generator is not None:
             if isinstance(generator, dict):
                 self.generator = load_pipeline_artefact_by_definition(generator)
             else:
                 self.generator = generator
 
-        if chunk_size_parallel_processing:
+        if chunk_size_parallel_processing is not None:
             self.chunk_size_parallel_processing = chunk_size_parallel_processing
 
-        if apply_synchronous:
+        if apply_synchronous is not None:
             self.apply_synchronous = apply_synchronous
 
-        if parallel:
+        if parallel is not None:
             self.parallel = parallel
 
         if display_name:
             self.display_name = display_name
 
-        if threshold:
+        if threshold is not None:
             self.threshold = threshold
 
     @computed_field
-- 
2.43.0


From d5758dbd37cce0a70cc0ecda6559a7031eb7cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 13/46] fix: apply the specific settings of a pipeline step

Settings which are not part of the base class were dropped, e.g.
ColliderTest(conflict_resolution_strategy=KEEP_LAST) kept the first
orientation. The strategy is compared by value, because it is a plain
string when it is loaded from a file.
---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 4 ++--
 causy/interfaces.py                                       | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index aa0e1c1..f0bd2c5 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -144,7 +144,7 @@ class ColliderTest(
                 if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:
                     if (
                         ColliderTestConflictResolutionStrategies.KEEP_FIRST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We prioritize the first edge that was removed, we do nothing
                         if len(unapplied_actions_y_z) > 0:
@@ -174,7 +174,7 @@ class ColliderTest(
 
                     elif (
                         ColliderTestConflictResolutionStrategies.KEEP_LAST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We keep the last edge that was removed and restore the other edges
                         results.extend(generate_restores(unapplied_actions_x_z))
diff --git a/causy/interfaces.py b/causy/interfaces.py
index 2aa35f8..f09b309 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -390,6 +390,11 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
         if threshold is not None:
             self.threshold = threshold
 
+        # settings which are specific to the pipeline step
+        for field in kwargs:
+            if field in self.model_fields:
+                setattr(self, field, kwargs[field])
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From 3974c1ec0a2e87e82061862ce7297a7860816c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 14/46] fix: load pipeline steps which have enum settings

Every pipeline with a ColliderTest failed to load from its serialized
form, because the references inside of the enum member were deserialized.
---
 causy/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/variables.py b/causy/variables.py
index bf59625..1d692dd 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -256,7 +256,7 @@ def deserialize_variable_references(element: object) -> object:
         if isinstance(value, dict) and "type" in value and value["type"] == "reference":
             setattr(element, attribute, VariableReference(name=value["name"]))
 
-        if hasattr(value, "__dict__"):
+        if hasattr(value, "__dict__") and not isinstance(value, enum.Enum):
             setattr(element, attribute, deserialize_variable_references(value))
 
     if hasattr(element, "pipeline_steps"):
-- 
2.43.0


From ec2b863cfccff67ddf3dea97b046a843cadd44e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 15/46] fix: load the edge types of a serialized algorithm

They stayed plain dictionaries, so no model could be created from the
loaded algorithm.
---
 causy/serialization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causy/serialization.py b/causy/serialization.py
index b9f91ba..ee3dff9 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -37,6 +37,12 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
         )
     else:
         algorithm_dict["extensions"] = []
+    algorithm_dict["edge_types"] = [
+        EDGE_TYPES[edge_type["name"]](**edge_type)
+        if isinstance(edge_type, dict)
+        else edge_type
+        for edge_type in algorithm_dict.get("edge_types") or []
+    ]
     if "variables" not in algorithm_dict or algorithm_dict["variables"] is None:
         algorithm_dict["variables"] = []
 
-- 
2.43.0


From 4bc2ca2fc1c8cd010f54b38d75c5baea4a039c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 16/46] fix: load dynamic data loaders by their reference

The options were read before they were set, and the reference to the
class (module.DataLoader, as the workspace creates it) was imported as a
module, so no dynamic data loader could be loaded.
---
 causy/data_loader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causy/data_loader.py b/causy/data_loader.py
index afe56e7..bf326b6 100644
--- a/causy/data_loader.py
+++ b/causy/data_loader.py
@@ -111,16 +111,16 @@ class DynamicDataLoader(AbstractDataLoader):
 
     def __init__(self, reference: str, options: Optional[Dict[str, Any]] = None):
         self.reference = reference
-        self.data_loader = self._load_data_loader()
         self.options = options
+        self.data_loader = self._load_data_loader()
 
     reference: str
     data_loader: AbstractDataLoader
 
     def _load_data_loader(self) -> AbstractDataLoader:
-        module = importlib.import_module(self.reference)
-        # todo: should the cls be referenced here?
-        return module.DataLoader(**self.options)
+        module_name, cls = self.reference.rsplit(".", 1)
+        module = importlib.import_module(module_name)
+        return getattr(module, cls)(**(self.options or {}))
 
     def load(self) -> Iterator[Dict[str, Union[float, int, str]]]:
         return self.data_loader.load()
-- 
2.43.0


From 6621e2cbd675a25bb1e8a6284cad2ae6e29611ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 17/46] fix: other json files do not break the experiment
 versions

A file like experiment_data.json next to the results raised a ValueError.
---
 causy/workspaces/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f486b7b..e02f31d 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -355,7 +355,11 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
         # Extract the unix timestamp
         if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
             segments = file.split("_")
-            timestamp = int(segments[-1].split(".")[0])
+            try:
+                timestamp = int(segments[-1].split(".")[0])
+            except ValueError:
+                # not a result of an experiment
+                continue
             name = "_".join(segments[:-1])
             if name != experiment_name:
                 # an experiment with a different name
-- 
2.43.0


From 3b1876a75cfb34d4cd2ee67d121f67d7e7a22b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 18/46] fix: execute experiments with the resolved variables

The defaults of variables which the experiment does not set were not
applied, although the result states that they were used.
---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index e02f31d..f0305b7 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -278,7 +278,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
-    model = graph_model_factory(pipeline, experiment.variables)()
+    model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
     task_count = len(model.pipeline_steps)
-- 
2.43.0


From e400eb158ba83f2446c2373202bbe9f6ba47d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 19/46] fix: do not share an algorithm loaded from a python
 module

The first experiment resolved its variables in the shared algorithm, so
every later experiment used the values of the first one.
---
 causy/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index ee3dff9..9610115 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -89,7 +89,7 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         st_function = getattr(module, ref_)
         if not st_function:
             raise ValueError(f"Algorithm {algorithm} not found")
-        return st_function()._original_algorithm
+        return copy.deepcopy(st_function()._original_algorithm)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From aa039dd2ace644d3438cfa2008e19b5d2248b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 20/46] fix: algorithm files must be inside of the working
 directory

commonprefix compares characters, so files in a sibling directory whose
name starts with the name of the working directory were accepted.
---
 causy/serialization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 9610115..d306b22 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -60,8 +60,9 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
         absolute_path = os.path.realpath(algorithm)
-        common_prefix = os.path.commonprefix([os.getcwd(), absolute_path])
-        if common_prefix != os.getcwd():
+        working_directory = os.path.realpath(os.getcwd())
+        common_path = os.path.commonpath([working_directory, absolute_path])
+        if common_path != working_directory:
             raise ValueError("Invalid reference")
 
         with open(absolute_path, "r") as file:
-- 
2.43.0


From 4814985cf2f5433c887793ec9153cb7ccd83836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:34 +0000
Subject: [PATCH 21/46] fix: update-variable rejects invalid values and
 understands false

Every non-empty text was stored as true in a bool variable, and a value
which is not one of the choices raised an uncaught error.
---
 causy/workspaces/cli.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f0305b7..148ff13 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -548,7 +548,13 @@ def update_experiment_variable(
 
     # try to cast the variable value to the correct type
     try:
-        variable_value = current_variable._PYTHON_TYPE(variable_value)
+        if current_variable._PYTHON_TYPE is bool:
+            # bool("False") would be True
+            if variable_value.lower() not in ["true", "false"]:
+                raise ValueError("not a bool")
+            variable_value = variable_value.lower() == "true"
+        else:
+            variable_value = current_variable._PYTHON_TYPE(variable_value)
     except ValueError:
         show_error(
             f'Variable {variable_name} should be {current_variable.type}. But got "{variable_value}" which is not a valid value.'
@@ -556,7 +562,7 @@ def update_experiment_variable(
         return
 
     # check if the variable is a valid value
-    if not validate_variable_values(pipeline, {variable_name: variable_value}):
+    if not current_variable.is_valid_value(variable_value):
         show_error(f"Variable {variable_name} is not a valid value.")
         return
 
-- 
2.43.0


From c467ee298e3429af5cec524bfe83a2a7be7aaa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:34 +0000
Subject: [PATCH 22/46] fix: reject cyclic edges in the iid sample generator

The topological sort did not terminate.
---
 causy/sample_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 306b499..2eae866 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -155,6 +155,8 @@ class IIDSampleGenerator(AbstractSampleGenerator):
                     sorted_nodes.append(node)
                     nodes.remove(node)
                     break
+            else:
+                raise ValueError("The edges of the sample generator contain a cycle")
         return sorted_nodes
 
     def _generate_data(self, size):
-- 
2.43.0


From 079addb3075fc233657b7ad4fcf673509e4f1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:34 +0000
Subject: [PATCH 23/46] fix: conflicting orientations must not remove the edge

If the triples of an undirected edge demanded both orientations, both
directions and with them the adjacency were removed.
---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index f0bd2c5..b873518 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -360,6 +360,14 @@ class FurtherOrientTripleTest(
                         data={"between": {"x": x, "y": y, "z": z}},
                     )
                 )
+        if len(set(result.u.id for result in results)) > 1:
+            # the edge would be removed if it was oriented in both directions
+            return TestResult(
+                u=x,
+                v=y,
+                action=TestResultAction.DO_NOTHING,
+                data={"orientation_conflict": True},
+            )
         return results
 
 
-- 
2.43.0


From c632ac165c1349a34854acfff340bb6ad60f09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:54 +0000
Subject: [PATCH 24/46] fix: unchunked PairsWithNeighboursGenerator yields
 plain pairs

With chunked=False the combinations of size two were wrapped in a chunk
nevertheless, so a pipeline step could not be run on them.
---
 causy/generators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causy/generators.py b/causy/generators.py
index 0c63ff8..0402e80 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -151,7 +151,10 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
 
                     checked_combinations.add((node, neighbour))
                     if range_size == 2:
-                        yield [[node, neighbour]]
+                        if self.chunked:
+                            yield [[node, neighbour]]
+                        else:
+                            yield [node, neighbour]
                         continue
 
                     other_neighbours = set(
-- 
2.43.0


From 38b07fcf841adb961946fb7e751cd2e5709d9a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:55 +0000
Subject: [PATCH 25/46] fix: skipped orientations must not count as conflicts
 in the collider step

---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index b873518..1774ca4 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -35,6 +35,9 @@ def filter_unapplied_actions(actions, u, v):
         if result_set is None:
             continue
         for result in result_set:
+            if result.action == TestResultAction.DO_NOTHING:
+                # an orientation that was not applied cannot cause a conflict
+                continue
             if result.u == u and result.v == v:
                 filtered.append(result)
     return filtered
-- 
2.43.0


From 51944393023a033e61b37be110a020074b7e6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:15 +0000
Subject: [PATCH 26/46] fix: a conflict at one shared neighbour must not end
 the non-collider test of a pair

---
 .../constraint/orientation_rules/pc.py        | 56 +++++++++++--------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 1774ca4..f661bfe 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -250,6 +250,7 @@ class NonColliderTest(
         )
         # if one edge has an arrowhead at z, orient the other one pointing away from z.
         # It cannot be a collider because we have already oriented all unshielded triples that contain colliders.
+        results = []
         for z in potential_zs:
             z = graph.nodes[z]
             breakflag = False
@@ -264,20 +265,25 @@ class NonColliderTest(
                         breakflag = True
                         break
                 if breakflag is True:
-                    return TestResult(
+                    results.append(
+                        TestResult(
+                            u=y,
+                            v=z,
+                            action=TestResultAction.DO_NOTHING,
+                            data={
+                                "orientation_conflict": True,
+                                "between": {"x": x, "y": y, "z": z},
+                            },
+                        )
+                    )
+                    continue
+                results.append(
+                    TestResult(
                         u=y,
                         v=z,
-                        action=TestResultAction.DO_NOTHING,
-                        data={
-                            "orientation_conflict": True,
-                            "between": {"x": x, "y": y, "z": z},
-                        },
+                        action=TestResultAction.REMOVE_EDGE_DIRECTED,
+                        data={"between": {"x": x, "y": y, "z": z}},
                     )
-                return TestResult(
-                    u=y,
-                    v=z,
-                    action=TestResultAction.REMOVE_EDGE_DIRECTED,
-                    data={"between": {"x": x, "y": y, "z": z}},
                 )
 
             if graph.only_directed_edge_exists(y, z) and graph.undirected_edge_exists(
@@ -291,21 +297,27 @@ class NonColliderTest(
                         break
 
                 if breakflag is True:
-                    return TestResult(
+                    results.append(
+                        TestResult(
+                            u=x,
+                            v=z,
+                            action=TestResultAction.DO_NOTHING,
+                            data={
+                                "orientation_conflict": True,
+                                "between": {"x": x, "y": y, "z": z},
+                            },
+                        )
+                    )
+                    continue
+                results.append(
+                    TestResult(
                         u=x,
                         v=z,
-                        action=TestResultAction.DO_NOTHING,
-                        data={
-                            "orientation_conflict": True,
-                            "between": {"x": x, "y": y, "z": z},
-                        },
+                        action=TestResultAction.REMOVE_EDGE_DIRECTED,
+                        data={"between": {"x": x, "y": y, "z": z}},
                     )
-                return TestResult(
-                    u=x,
-                    v=z,
-                    action=TestResultAction.REMOVE_EDGE_DIRECTED,
-                    data={"between": {"x": x, "y": y, "z": z}},
                 )
+        return results
 
 
 class FurtherOrientTripleTest(
-- 
2.43.0


From 6495d37d9e94304735ebce71abcf4ca5d2b0e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:33 +0000
Subject: [PATCH 27/46] fix: contradicting quadruple rules must not remove the
 edge

---
 .../constraint/orientation_rules/pc.py        | 53 ++++++++++++++++++-
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index f661bfe..c4f6abe 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -386,6 +386,55 @@ class FurtherOrientTripleTest(
         return results
 
 
+def _rule_3_orients(graph, x, z):
+    """
+    Does the pattern of the OrientQuadrupleTest hold which directs x - z to x -> z?
+    """
+    candidates = [
+        y
+        for y in graph.nodes.values()
+        if y not in (x, z)
+        and graph.undirected_edge_exists(x, y)
+        and graph.only_directed_edge_exists(y, z)
+    ]
+    return any(
+        not graph.edge_exists(y, w) for y, w in itertools.combinations(candidates, 2)
+    )
+
+
+def _rule_4_orients(graph, x, z):
+    """
+    Does the pattern of the FurtherOrientQuadrupleTest hold which directs x - z to x -> z?
+    """
+    return any(
+        graph.undirected_edge_exists(x, w)
+        and graph.only_directed_edge_exists(w, z)
+        and graph.undirected_edge_exists(x, y)
+        and graph.only_directed_edge_exists(y, w)
+        and not graph.edge_exists(y, z)
+        for y, w in itertools.permutations(graph.nodes.values(), 2)
+        if len({x.id, y.id, z.id, w.id}) == 4
+    )
+
+
+def _without_conflicts(graph, results, orients):
+    """
+    Replace the orientations of edges for which the same rule demands the opposite direction as well,
+    otherwise the edge would be removed.
+    """
+    return [
+        TestResult(
+            u=result.u,
+            v=result.v,
+            action=TestResultAction.DO_NOTHING,
+            data={"orientation_conflict": True},
+        )
+        if orients(graph, result.u, result.v)
+        else result
+        for result in results
+    ]
+
+
 class OrientQuadrupleTest(
     PipelineStepInterface[PipelineStepInterfaceType], Generic[PipelineStepInterfaceType]
 ):
@@ -451,7 +500,7 @@ class OrientQuadrupleTest(
                         data={},
                     )
                 )
-        return results
+        return _without_conflicts(graph, results, _rule_3_orients)
 
 
 class FurtherOrientQuadrupleTest(
@@ -551,4 +600,4 @@ class FurtherOrientQuadrupleTest(
                         data={},
                     )
                 )
-        return results
+        return _without_conflicts(graph, results, _rule_4_orients)
-- 
2.43.0


From 254f586726a3c57bff2d8e53d663dd4d625dc864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:43 +0000
Subject: [PATCH 28/46] fix: the correlation step crashed on graphs that are
 not complete

---
 causy/common_pipeline_steps/calculation.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index 60e0ef5..7b1247d 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -21,7 +21,7 @@ class CalculatePearsonCorrelations(
     chunk_size_parallel_processing: int = 1
     parallel: bool = False
 
-    def process(self, nodes: Tuple[str], graph: BaseGraphInterface) -> TestResult:
+    def process(self, nodes: Tuple[str], graph: BaseGraphInterface) -> Optional[TestResult]:
         """
         Calculate the correlation between each pair of nodes and store it to the respective edge.
         :param nodes: list of nodes
@@ -29,7 +29,17 @@ class CalculatePearsonCorrelations(
         """
         x = graph.nodes[nodes[0]]
         y = graph.nodes[nodes[1]]
-        edge_value = graph.edge_value(graph.nodes[nodes[0]], graph.nodes[nodes[1]])
+
+        if not graph.edge_exists(x, y):
+            return
+
+        action = TestResultAction.UPDATE_EDGE
+        if not graph.undirected_edge_exists(x, y):
+            action = TestResultAction.UPDATE_EDGE_DIRECTED
+            if not graph.directed_edge_exists(x, y):
+                x, y = y, x
+
+        edge_value = graph.edge_value(x, y)
 
         x_val = x.values
         y_val = y.values
@@ -52,6 +62,6 @@ class CalculatePearsonCorrelations(
         return TestResult(
             u=x,
             v=y,
-            action=TestResultAction.UPDATE_EDGE,
+            action=action,
             data=edge_value,
         )
-- 
2.43.0


From 2b511139f88c801f6e079067e56881c71efebf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:38 +0000
Subject: [PATCH 29/46] fix: building a model neither changes the algorithm nor
 skips unassigned or unknown variables

---
 causy/graph_model.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 51d410f..3d4b063 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -537,15 +537,16 @@ def graph_model_factory(
     :return: the graph model
     """
     original_algorithm = deepcopy(algorithm)
-    if variables is None and algorithm.variables is not None:
-        variables = resolve_variables(algorithm.variables, {})
-    elif variables is None:
-        variables = {}
-
-    if len(variables) > 0:
-        algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
-            algorithm.pipeline_steps, variables
-        )
+    # the passed algorithm is left as it is, it might be used for other models as well
+    algorithm = deepcopy(algorithm)
+    variables = {
+        **resolve_variables(algorithm.variables or [], {}),
+        **(variables or {}),
+    }
+
+    algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
+        algorithm.pipeline_steps, variables
+    )
 
     bases = tuple()
     if algorithm.edge_types is not None:
-- 
2.43.0


From 18d6fd968043b5d09002a81d62153f5d4425f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:39 +0000
Subject: [PATCH 30/46] fix: serializing an algorithm keeps its variable
 references and its name

---
 causy/serialization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index d306b22..68c0cbe 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -21,9 +21,11 @@ from causy.causal_discovery import AVAILABLE_ALGORITHMS
 def serialize_algorithm(model, algorithm_name: str = None):
     """Serialize the model into a dictionary."""
 
+    # the algorithm is serialized without the resolved variables
+    algorithm = model._original_algorithm.model_dump()
     if algorithm_name:
-        model.algorithm.name = algorithm_name
-    return model.algorithm.model_dump()
+        algorithm["name"] = algorithm_name
+    return algorithm
 
 
 def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
-- 
2.43.0


From dcc46bd86f939033fbcd3746329dbd61924216e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:39 +0000
Subject: [PATCH 31/46] fix: loading an algorithm leaves its specification as
 it is

---
 causy/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causy/serialization.py b/causy/serialization.py
index 68c0cbe..86d1f0b 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -30,6 +30,8 @@ def serialize_algorithm(model, algorithm_name: str = None):
 
 def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
     """Load the model from a dictionary."""
+    # the specification is left as it is
+    algorithm_dict = copy.deepcopy(algorithm_dict)
     algorithm_dict["pipeline_steps"] = load_pipeline_steps_by_definition(
         algorithm_dict["pipeline_steps"]
     )
-- 
2.43.0


From d2b590fd01c6695c08ca9cf02722793af6f05fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:39 +0000
Subject: [PATCH 32/46] fix: ejected pipelines are read back as written

---
 causy/workspaces/cli.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 148ff13..0750a0b 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -12,7 +12,6 @@ import sys
 
 import yaml
 from markdown.extensions.toc import slugify
-from pydantic_yaml import to_yaml_str
 from jinja2 import (
     Environment,
     select_autoescape,
@@ -161,7 +160,14 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
         pipeline_name = questionary.text("Enter the name of the pipeline").ask()
         pipeline_slug = slugify(pipeline_name, "_")
         with open(f"{pipeline_slug}.yml", "w") as f:
-            f.write(to_yaml_str(pipeline_reference()._original_algorithm))
+            # written with the library which reads it, they differ e.g. in 1e-05 or on
+            f.write(
+                yaml.dump(
+                    json.loads(
+                        pipeline_reference()._original_algorithm.model_dump_json()
+                    )
+                )
+            )
 
         pipeline = AlgorithmReference(
             reference=f"{pipeline_slug}.yml", type=AlgorithmReferenceType.FILE
-- 
2.43.0


From ff93ca3a53dd2e1edf5a3986b96933593792a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:39 +0000
Subject: [PATCH 33/46] fix: the chunk size of a generator is saved with the
 algorithm

---
 causy/interfaces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index f09b309..44f90a8 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -299,6 +299,7 @@ class GeneratorInterface(ABC, BaseModel):
     every_nth: Optional[IntegerParameter] = None
     generator: Optional["GeneratorInterface"] = None
     shuffle_combinations: Optional[BoolParameter] = None
+    chunk_size: Optional[IntegerParameter] = None
 
     @abstractmethod
     def generate(self, graph: BaseGraphInterface, graph_model_instance_: dict):
@@ -311,6 +312,7 @@ class GeneratorInterface(ABC, BaseModel):
         every_nth: Optional[IntegerParameter] = None,
         generator: Optional["GeneratorInterface"] = None,
         shuffle_combinations: Optional[BoolParameter] = None,
+        chunk_size: Optional[IntegerParameter] = None,
     ) -> None:
         super().__init__(comparison_settings=comparison_settings)
         if isinstance(comparison_settings, dict):
@@ -330,6 +332,9 @@ class GeneratorInterface(ABC, BaseModel):
         if shuffle_combinations is not None:
             self.shuffle_combinations = shuffle_combinations
 
+        if chunk_size is not None:
+            self.chunk_size = chunk_size
+
         self.comparison_settings = comparison_settings
 
     @computed_field
-- 
2.43.0


From 4365ef419a58f0be18c56e1ce15126b18825fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:53 +0000
Subject: [PATCH 34/46] fix: settings of an exit condition are saved with the
 algorithm

---
 causy/common_pipeline_steps/logic.py |  3 ++-
 causy/interfaces.py                  | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/causy/common_pipeline_steps/logic.py b/causy/common_pipeline_steps/logic.py
index 93b8f08..0992e2a 100644
--- a/causy/common_pipeline_steps/logic.py
+++ b/causy/common_pipeline_steps/logic.py
@@ -1,6 +1,7 @@
 import time
 from typing import Optional, Generic
 
+from pydantic import SerializeAsAny
 
 from causy.interfaces import (
     LogicStepInterface,
@@ -18,7 +19,7 @@ class Loop(LogicStepInterface[LogicStepInterfaceType], Generic[LogicStepInterfac
     A loop which executes a list of pipeline_steps until the exit_condition is met.
     """
 
-    exit_condition: Optional[ExitConditionInterface] = None
+    exit_condition: Optional[SerializeAsAny[ExitConditionInterface]] = None
 
     def execute(
         self, graph: BaseGraphInterface, graph_model_instance_: GraphModelInterface
diff --git a/causy/interfaces.py b/causy/interfaces.py
index 44f90a8..b9b2bfa 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -4,7 +4,14 @@ from typing import List, Dict, Optional, Union, TypeVar, Generic, Any
 from typing_extensions import Annotated
 import logging
 
-from pydantic import BaseModel, computed_field, Field, PlainValidator, WithJsonSchema
+from pydantic import (
+    BaseModel,
+    computed_field,
+    Field,
+    PlainValidator,
+    SerializeAsAny,
+    WithJsonSchema,
+)
 import torch
 
 from causy.graph_utils import (
@@ -474,7 +481,7 @@ LogicStepInterfaceType = TypeVar("LogicStepInterfaceType")
 
 class LogicStepInterface(ABC, BaseModel, Generic[LogicStepInterfaceType]):
     pipeline_steps: Optional[List[Union[PipelineStepInterfaceType]]] = None
-    exit_condition: Optional[ExitConditionInterface] = None
+    exit_condition: Optional[SerializeAsAny[ExitConditionInterface]] = None
 
     display_name: Optional[StringParameter] = None
 
-- 
2.43.0


From d659ce6f317d7e52eb475bc88af99a1f7851bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:53 +0000
Subject: [PATCH 35/46] fix: the stored algorithm hash is that of the algorithm
 which was executed

---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 0750a0b..b14ac2b 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -315,7 +315,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         nodes=model.graph.nodes,
         variables=variables,
         data_loader_hash=data_loader.hash(),
-        algorithm_hash=pipeline.hash(),
+        algorithm_hash=model.algorithm.hash(),
         variables_hash=hash_dictionary(variables),
     )
 
-- 
2.43.0


From 122c5953a0ee3660109d5e6aed6a98e93fe44b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:43 +0000
Subject: [PATCH 36/46] fix: boolean choices of a variable stay booleans in
 JSON

---
 causy/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/variables.py b/causy/variables.py
index 1d692dd..51a9e29 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -30,7 +30,7 @@ class BaseVariable(BaseModel, Generic[VariableInterfaceType]):
 
     name: str
     value: Union[str, int, float, bool]
-    choices: Optional[List[Union[str, int, float, bool]]] = None
+    choices: Optional[List[Union[bool, int, float, str]]] = None
 
     def is_valid(self):
         return self.is_valid_value(self.value)
-- 
2.43.0


From a44a7dec205a7985bb5f10474462ff77c06a81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:45 +0000
Subject: [PATCH 37/46] fix: a column named _dict is data like any other

---
 causy/graph_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 3d4b063..f2c9518 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -144,7 +144,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
 
         # load nodes into node dict
         for row in data_loader.load():
-            if isinstance(row, dict) and "_dict" in row:
+            if isinstance(row, dict) and isinstance(row.get("_dict"), dict):
                 # edge case for when data is in a dict of lists
                 return self.__create_graph_from_dict(row["_dict"])
 
-- 
2.43.0


From 4fdd964717b660039dfed37694112d3775a830f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:44 +0000
Subject: [PATCH 38/46] fix: the workspace file is written so that it is read
 back as it was

---
 causy/workspaces/cli.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index b14ac2b..c522bd7 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,6 +1,5 @@
 import json
 import logging
-from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
 
@@ -78,14 +77,8 @@ def show_success(message: str):
 
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    ordered_val = OrderedDict(json.loads(workspace.model_dump_json()))
-    yaml.add_representer(
-        OrderedDict,
-        lambda dumper, data: dumper.represent_mapping(
-            "tag:yaml.org,2002:map", data.items()
-        ),
-    )
-    output = yaml.dump(ordered_val)
+    # written with the library which reads it, they differ e.g. in 1e3 or 0o7
+    output = pydantic_yaml.to_yaml_str(workspace)
     with open(workspace_path, "w") as f:
         f.write(output)
 
-- 
2.43.0


From 8d862b0d977a214c126a78e9fd6cf6f915ad2090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:50 +0000
Subject: [PATCH 39/46] fix: boolean variable and metadata values stay booleans
 in JSON

---
 causy/interfaces.py | 4 ++--
 causy/variables.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index b9b2bfa..4b2a154 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -32,9 +32,9 @@ DEFAULT_THRESHOLD = 0.01
 
 AS_MANY_AS_FIELDS = 0
 
-MetadataBaseType = Union[str, int, float, bool]
+MetadataBaseType = Union[bool, int, float, str]
 MetadataType = Union[
-    str, int, float, bool, List[MetadataBaseType], Dict[str, MetadataBaseType]
+    bool, int, float, str, List[MetadataBaseType], Dict[str, MetadataBaseType]
 ]
 
 
diff --git a/causy/variables.py b/causy/variables.py
index 51a9e29..31821f1 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -8,7 +8,7 @@ from pydantic import BaseModel, computed_field
 
 VariableInterfaceType = TypeVar("VariableInterfaceType")
 
-VariableType = Union[str, int, float, bool]
+VariableType = Union[bool, int, float, str]
 
 
 class VariableTypes(enum.Enum):
-- 
2.43.0


From 3cb89034de9feca497634b2eb2b21a06b965f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:50 +0000
Subject: [PATCH 40/46] fix: only files written as results are versions of an
 experiment

---
 causy/workspaces/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index c522bd7..fdc7679 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -363,6 +363,9 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
             if name != experiment_name:
                 # an experiment with a different name
                 continue
+            if file != f"{experiment_name}_{timestamp}.json":
+                # a number which is not written as we write it, e.g. a backup
+                continue
             versions.append(timestamp)
     return sorted(versions, reverse=True)
 
-- 
2.43.0


From 7c1bcf01730872eb3e2fddda722ad148ef50ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:50 +0000
Subject: [PATCH 41/46] fix: a result does not replace one of the same second

---
 causy/workspaces/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index fdc7679..268eddc 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -372,6 +372,9 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
 
 def _save_experiment_result(workspace: Workspace, experiment_name: str, result: Result):
     timestamp = int(datetime.timestamp(result.created_at))
+    while os.path.exists(f"{experiment_name}_{timestamp}.json"):
+        # do not overwrite a result of the same second
+        timestamp += 1
     with open(f"{experiment_name}_{timestamp}.json", "w") as f:
         f.write(json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4))
 
-- 
2.43.0


From 529cf297f85690652b91c4f2576b98006d65f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:16 +0000
Subject: [PATCH 42/46] fix: restoring an edge gives each direction its own
 value back

---
 causy/graph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index a662785..3ba46b9 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -818,15 +818,18 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
         else:
-            self.add_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+            metadata = self._deleted_edges[u.id].pop(v.id).metadata
+            self.add_directed_edge(u, v, metadata, edge_type=UndirectedEdge())
+            if u.id not in self.edges[v.id] and u.id not in self._deleted_edges[v.id]:
+                self.add_directed_edge(v, u, metadata, edge_type=UndirectedEdge())
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self.edges[v.id][u.id].deleted = False
             self._reverse_edges[u.id][v.id].deleted = False
         else:
-            self.add_edge(v, u, self._deleted_edges[v.id][u.id].metadata)
-            del self._deleted_edges[v.id][u.id]
+            # each direction gets its own value back
+            metadata = self._deleted_edges[v.id].pop(u.id).metadata
+            self.add_directed_edge(v, u, metadata, edge_type=UndirectedEdge())
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
-- 
2.43.0


From 175a55d293bed1f659df4d1cd887d18003e88ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:54 +0000
Subject: [PATCH 43/46] fix: update hooks get the changes of one call as one
 batch in parallel steps too

---
 causy/graph_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index f2c9518..4444148 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -462,8 +462,8 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 ),
                 chunksize=test_fn.chunk_size_parallel_processing,
             ):
-                if not isinstance(result, list):
-                    result = [result]
+                # the changes returned by one call belong together
+                result = [result]
 
                 actions_taken_current, all_actions_current = self._take_action(
                     result, dry_run=not apply_to_graph
-- 
2.43.0


From b81ade8bdd4baaf525b0e568c78bb53733c36e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:21 +0000
Subject: [PATCH 44/46] fix: update hooks run once for the changes of an action
 group

---
 causy/common_pipeline_steps/logic.py |  2 +-
 causy/graph_model.py                 | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/causy/common_pipeline_steps/logic.py b/causy/common_pipeline_steps/logic.py
index 0992e2a..f51b9ce 100644
--- a/causy/common_pipeline_steps/logic.py
+++ b/causy/common_pipeline_steps/logic.py
@@ -102,7 +102,7 @@ class ApplyActionsTogether(
             )
             actions.extend(actions_taken)
 
-        graph_model_instance_._take_action(actions)
+        graph_model_instance_._take_action(actions, pre_hooks_executed=True)
 
         return ActionHistoryStep(
             name=self.name,
diff --git a/causy/graph_model.py b/causy/graph_model.py
index 4444148..6edcac4 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -292,7 +292,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
             logger.error(f"Error in hook ({str(hook)}): {e}")
 
     def _take_action(
-        self, results, dry_run=False
+        self, results, dry_run=False, pre_hooks_executed=False
     ) -> Tuple[List[TestResultAction], List[TestResultAction]]:
         """
         Take the actions returned by the test
@@ -302,6 +302,8 @@ class AbstractGraphModel(GraphModelInterface, ABC):
         Actions are returned by the test and are executed on the graph. The actions are stored in the action history to make it possible to revert the actions or use them in a later step.
 
         :param results: the results
+        :param dry_run: only collect the actions, the graph is not changed
+        :param pre_hooks_executed: the results are those of a dry run, which have already been passed to the pre graph update hooks
 
         :return: actions taken, all actions taken
         """
@@ -312,9 +314,10 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 continue
             if not isinstance(result_items, list):
                 result_items = [result_items]
-            result_items = self._execute_pre_graph_update_hooks(
-                self.algorithm.pre_graph_update_hooks, self.graph, result_items
-            )
+            if not pre_hooks_executed:
+                result_items = self._execute_pre_graph_update_hooks(
+                    self.algorithm.pre_graph_update_hooks, self.graph, result_items
+                )
             actions_taken = []
             all_actions.extend(result_items)
             for i in result_items:
@@ -425,6 +428,8 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 # add the action to the actions history
                 actions_taken.append(i)
             all_actions_taken.extend(actions_taken)
+            if dry_run:
+                continue
             self._execute_post_graph_update_hooks(
                 self.algorithm.post_graph_update_hooks, self.graph, actions_taken
             )
-- 
2.43.0


From 0c8769f3b9c4bfeb17cc4217f4784a40561c1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:22 +0000
Subject: [PATCH 45/46] fix: the effect step leaves the graph to its returned
 change

The step wrote the effect into the edge's own data while it was computed, so
running it without applying its changes altered the graph.
---
 causy/causal_effect_estimation/multivariate_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index bda11b6..54eceaa 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -28,10 +28,10 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
 
         # if there is an undirected edge, the effect is not identifiable
         if graph.undirected_edge_exists(cause_variable, effect_variable):
-            edge_data = graph.edge_value(cause_variable, effect_variable)
             return
 
-        edge_data = graph.edge_value(cause_variable, effect_variable)
+        # the graph is changed by the returned action only
+        edge_data = dict(graph.edge_value(cause_variable, effect_variable) or {})
 
         all_parents_of_effect_variable = graph.parents_of_node(effect_variable)
         parents_of_effect_variable_without_cause_variable = [
-- 
2.43.0


From 22c3be783ea879ddcf1702b4404ae1f13d78462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:22 +0000
Subject: [PATCH 46/46] fix: removing a direction that is gone already is
 skipped

The opposite direction made the change count as applied: it was recorded as
taken and the edge was treated as directed once more.
---
 causy/graph_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 6edcac4..95f7521 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -365,9 +365,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 elif i.action == TestResultAction.DO_NOTHING:
                     continue
                 elif i.action == TestResultAction.REMOVE_EDGE_DIRECTED:
-                    if not self.graph.directed_edge_exists(
-                        i.u, i.v
-                    ) and not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.directed_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to remove directed edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
-- 
2.43.0


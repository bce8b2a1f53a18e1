From f3ca83a0fc60316124471dfff7a49b09fa20b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:03 +0000
Subject: [PATCH 01/59] fix: overrides take precedence over inputs in
 task-based execution

The task-based executor let a runtime input (or config value) shadow an override
of the same name, while the default executor uses the override.
---
 hamilton/driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 868764e..12cf374 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -237,7 +237,8 @@ class TaskBasedGraphExecutor(GraphExecutor):
         )  # pure function transform
         # Instantiate a result cache so we can use later
         # Pass in inputs so we can pre-populate the results cache
-        prehydrated_results = {**overrides, **inputs}
+        # overrides take precedence over inputs, as they do with the default executor
+        prehydrated_results = {**inputs, **overrides}
         results_cache = state.DictBasedResultCache(prehydrated_results)
         # Create tasks from the grouped nodes, filtering/pruning as we go
         tasks = grouping.create_task_plan(grouped_nodes, final_vars, overrides, self.adapter)
-- 
2.43.0


From 9145b6bce8e8969a5190bcf62b737e80bb2435ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:47 +0000
Subject: [PATCH 02/59] fix: task-based execution of a request that needs no
 node terminates

With nothing to run the graph state was reported as INITIALIZED for ever, so
execute() never returned (and GroupNodesAllAsOne raised IndexError).
---
 hamilton/execution/grouping.py | 2 ++
 hamilton/execution/state.py    | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index ed68ffd..c425c35 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -285,6 +285,8 @@ class GroupNodesAllAsOne(GroupingStrategy):
     """Groups nodes all into one block. TODO -- add validation."""
 
     def group_nodes(self, nodes: List[node.Node]):
+        if len(nodes) == 0:
+            return []
         return [
             NodeGroup(
                 base_id="root",
diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index f121826..3270f95 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -437,7 +437,10 @@ class ExecutionState:
         """
         if not self.is_initialized:
             return GraphState.UNINITIALIZED
-        elif len(self.task_states) == 0 or all(
+        elif len(self.task_states) == 0:
+            # there is nothing to run, so we are already done
+            return GraphState.SUCCESSFUL
+        elif all(
             [state == TaskState.INITIALIZED for state in self.task_states.values()]
         ):
             return GraphState.INITIALIZED
-- 
2.43.0


From 0cc1204ea3736e9c356526e27cd3a609cc53602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:31 +0000
Subject: [PATCH 03/59] fix: executing with inputs=None equals executing with
 no inputs

With inputs=None an unprovided optional input was reported as a missing
required input when an overridden node happened to require it.
---
 hamilton/driver.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 12cf374..d52244b 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -731,7 +731,10 @@ class Driver:
         """
         function_graph = _fn_graph if _fn_graph is not None else self.graph
         run_id = str(uuid.uuid4())
-        nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs, overrides)
+        # at runtime no inputs means that optional inputs are not provided
+        nodes, user_nodes = function_graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         Driver.validate_inputs(
             function_graph, self.adapter, user_nodes, inputs, nodes
         )  # TODO -- validate within the function graph itself
@@ -805,7 +808,10 @@ class Driver:
         """
         function_graph = _fn_graph if _fn_graph is not None else self.graph
         run_id = _run_id
-        nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs, overrides)
+        # at runtime no inputs means that optional inputs are not provided
+        nodes, user_nodes = function_graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         Driver.validate_inputs(
             function_graph, self.adapter, user_nodes, inputs, nodes
         )  # TODO -- validate within the function graph itself
@@ -1110,7 +1116,9 @@ class Driver:
         :param overrides: Optional. Overrides to the DAG.
         :return: JSON string representation of the graph.
         """
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = self.graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         all_nodes = nodes | user_nodes
 
@@ -1678,7 +1686,7 @@ class Driver:
                 )
 
             nodes, user_nodes = function_graph.get_upstream_nodes(
-                final_vars + materializer_vars, inputs, overrides
+                final_vars + materializer_vars, inputs if inputs is not None else {}, overrides
             )
             Driver.validate_inputs(function_graph, self.adapter, user_nodes, inputs, nodes)
             all_nodes = nodes | user_nodes
@@ -1804,7 +1812,9 @@ class Driver:
         :param inputs: Inputs to pass to execution.
         :raise ValueError: if any issues with executino can be detected.
         """
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = self.graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         self.graph_executor.validate(list(nodes | user_nodes))
 
@@ -1839,7 +1849,7 @@ class Driver:
         # need to validate the right inputs has been provided.
         # we do this on the modified graph.
         nodes, user_nodes = function_graph.get_upstream_nodes(
-            final_vars + materializer_vars, inputs, overrides
+            final_vars + materializer_vars, inputs if inputs is not None else {}, overrides
         )
         Driver.validate_inputs(function_graph, self.adapter, user_nodes, inputs, nodes)
         all_nodes = nodes | user_nodes
-- 
2.43.0


From fec1e9c64c346750d63ef7b328ed5f2dfb0293f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:46 +0000
Subject: [PATCH 04/59] fix: async driver can return runtime inputs that are no
 node of the graph

The synchronous driver returns an input that is requested as an output; the
async driver raised a KeyError for it.
---
 hamilton/async_driver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 63d3a8b..a14ffa3 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -314,8 +314,12 @@ class AsyncDriver(driver.Driver):
                     "display_graph=True is not supported for the async graph adapter. "
                     "Instead you should be using visualize_execution."
                 )
+            provided = inputs if inputs is not None else {}
             task_dict = {
-                key: asyncio.create_task(process_value(memoized_computation[key]))
+                # as in the synchronous driver, inputs can also be used as outputs
+                key: asyncio.create_task(
+                    process_value(memoized_computation.get(key, provided.get(key)))
+                )
                 for key in final_vars
             }
             results = await await_dict_of_tasks(task_dict)
-- 
2.43.0


From 5b78921c22832065058976f067fea3f23742d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:58 +0000
Subject: [PATCH 05/59] fix: a parallel block does not absorb an earlier block
 it depends on

---
 hamilton/execution/graph_functions.py | 5 +++++
 hamilton/execution/grouping.py        | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index b3379cd..268711c 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -334,6 +334,7 @@ def execute_lifecycle_for_node(
 def nodes_between(
     end_node: node.Node,
     search_condition: lambda node_: bool,
+    barrier_condition: lambda node_: bool = lambda node_: False,
 ) -> Tuple[Optional[node.Node], List[node.Node]]:
     """Utility function to search backwards from an end node to a start node.
     This returns all nodes for which both of the following conditions are met:
@@ -349,6 +350,8 @@ def nodes_between(
 
     :param end_node: Node to trace back from
     :param search_condition: Condition to stop the search for ancestors
+    :param barrier_condition: Condition for nodes that are not searched through -- neither they
+        nor (through them) their ancestors are in between.
     :return: A tuple of [start_node, between], where start_node is None
     if there is no path (and between will be empty).
     """
@@ -363,6 +366,8 @@ def nodes_between(
             nonlocal search_node
             search_node = node_
             return True
+        if barrier_condition(node_):
+            return False
         if node_ in visited:
             # if we've already seen it, we want to include it
             return node_ in out
diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index c425c35..a23a199 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -188,7 +188,11 @@ class GroupByRepeatableBlocks(GroupingStrategy):
         def is_expander(node_: node.Node) -> bool:
             return node_.node_role in [NodeType.EXPAND]
 
-        return graph_functions.nodes_between(collect_node, is_expander)
+        def is_collector(node_: node.Node) -> bool:
+            # An upstream collect closes its own block -- nothing at or above it is part of this one
+            return node_.node_role in [NodeType.COLLECT]
+
+        return graph_functions.nodes_between(collect_node, is_expander, is_collector)
 
     def group_nodes(self, nodes: List[node.Node]) -> List[NodeGroup]:
         """Groups nodes into blocks. This works as follows:
-- 
2.43.0


From d48ebea6640fc66a4c6cd581f226ad4591787731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:05 +0000
Subject: [PATCH 06/59] fix: an overridden Parallelizable node is expanded item
 by item

---
 hamilton/execution/grouping.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index a23a199..81ee8fb 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -347,6 +347,15 @@ def create_task_plan(
     """
 
     outputs_set = set(outputs)
+    # An overridden expander still has to be expanded: its task runs (it just returns the override)
+    # so that it can spawn the tasks of its block.
+    expanders = {
+        node_.name
+        for node_group in node_groups
+        if node_group.purpose.is_expander()
+        for node_ in node_group.nodes
+        if node_.node_role == NodeType.EXPAND
+    }
     out = []
     node_to_task_map = {}
     for node_group in node_groups:
@@ -355,7 +364,7 @@ def create_task_plan(
         for node_ in node_group.nodes:
             # If this is overridden we can skip it
             # Note there may be a strange bug with grouping/overrides (E.G. downstream of overrides)
-            if node_.name in overrides:
+            if node_.name in overrides and node_.name not in expanders:
                 continue
             node_to_task_map[node_.name] = node_group
             is_output = False
@@ -396,7 +405,8 @@ def create_task_plan(
             if node_.name in overrides:
                 continue
             for dependency in node_.dependencies:
-                if dependency.name not in overrides and dependency.name not in nodes_in_group:
+                is_overridden = dependency.name in overrides and dependency.name not in expanders
+                if not is_overridden and dependency.name not in nodes_in_group:
                     task_containing_dependency = node_to_task_map.get(dependency.name)
                     # If its optional, we don't need to add it as a dependency
                     if task_containing_dependency is None and not node_.requires(dependency.name):
-- 
2.43.0


From bff5bca5a5f8775f67a89498021842e31104a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:18 +0000
Subject: [PATCH 07/59] fix: overriding a collect node while requesting its
 Parallelizable source does not crash

---
 hamilton/execution/grouping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index 81ee8fb..bc91968 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -211,6 +211,9 @@ class GroupByRepeatableBlocks(GroupingStrategy):
         # We have to do this as we may have overrides to handle
         node_names = {node_.name for node_ in nodes}
         for collector in collectors:
+            if collector.collect_dependency not in node_names:
+                # What it collects is not needed (it is overridden), so there is no block to form
+                continue
             expander, nodes_in_block = self.nodes_after_last_expand_block(collector)
             # TODO -- add error message for conflicting groups...
             # if expander in visited:
-- 
2.43.0


From d1d10b75c9c73ceeb75d7347ae5954bdd459005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 08/59] fix: results of nodes with caching behavior IGNORE are
 not stored

---
 hamilton/caching/adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 59fd181..649e38d 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1415,7 +1415,6 @@ class HamiltonCacheAdapter(
         if self.behaviors[run_id][node_name] in (
             CachingBehavior.DEFAULT,
             CachingBehavior.RECOMPUTE,
-            CachingBehavior.IGNORE,
         ):
             cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
             data_version = self.get_data_version(
-- 
2.43.0


From 696f93e88078bc0a0703bcf6b28f15926f317034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 09/59] fix: caching does not truncate the data of a data
 loader that is a tuple

---
 hamilton/caching/adapter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 649e38d..495d2b5 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1272,7 +1272,11 @@ class HamiltonCacheAdapter(
                 # where metadata often includes a timestamp. To ensure we provide a consistent
                 # `data_version` / hash, we only hash the result part of the materializer return
                 # value and discard the metadata.
-                if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
+                if (
+                    node_name in self._data_loaders[run_id]
+                    and node_.tags.get("hamilton.data_loader.has_metadata")
+                    and isinstance(result, tuple)
+                ):
                     result = result[0]
 
                 data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
@@ -1359,7 +1363,11 @@ class HamiltonCacheAdapter(
             # where metadata often includes a timestamp. To ensure we provide a consistent
             # `data_version` / hash, we only hash the result part of the materializer return
             # value and discard the metadata.
-            if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
+            if (
+                node_name in self._data_loaders[run_id]
+                and node_.tags.get("hamilton.data_loader.has_metadata")
+                and isinstance(result, tuple)
+            ):
                 result = result[0]
 
             data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
-- 
2.43.0


From 45a2a0e7b53dac3c630d80504784fbd159f2c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 10/59] fix: default_loader_behavior applies to nodes created
 by @load_from

---
 hamilton/caching/adapter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 495d2b5..157b7ea 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -982,6 +982,7 @@ class HamiltonCacheAdapter(
                         recompute=_recompute,
                         ignore=_ignore,
                         default_behavior=default_loader_behavior,
+                        default_loader_behavior=default_loader_behavior,
                     )
 
                 self._data_loaders[run_id].append(main_node)
-- 
2.43.0


From 8de22fd3d1963b41d46c87c77ecc85c35272f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 11/59] fix: caching works when a task depends on a node
 computed by another multi-node task

---
 hamilton/caching/adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 157b7ea..d90d34a 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1211,7 +1211,10 @@ class HamiltonCacheAdapter(
                 if tasks_data_versions is SENTINEL:
                     dep_data_version = self.version_data(dep_value, run_id=run_id)
                 elif isinstance(tasks_data_versions, dict):
+                    # the dependency may have been computed by another task
                     dep_data_version = tasks_data_versions.get(task_id)
+                    if dep_data_version is None:
+                        dep_data_version = self.version_data(dep_value, run_id=run_id)
                 else:
                     dep_data_version = tasks_data_versions
 
-- 
2.43.0


From 4c98bdafd009b2a07a6947e9a1214634e6ad6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 12/59] fix: concurrent tasks of a node do not lose each
 other's cache keys and data versions

---
 hamilton/caching/adapter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index d90d34a..a8b2503 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -596,9 +596,8 @@ class HamiltonCacheAdapter(
         ):
             self.cache_keys[run_id][node_name] = cache_key
         elif node_role == NodeRoleInTaskExecution.INSIDE:
-            if self.cache_keys[run_id].get(node_name, SENTINEL) is SENTINEL:
-                self.cache_keys[run_id][node_name] = {}
-            self.cache_keys[run_id][node_name][task_id] = cache_key  # type: ignore ; we just initialized the nested dict
+            # setdefault is atomic; tasks of the same node may run concurrently
+            self.cache_keys[run_id].setdefault(node_name, {})[task_id] = cache_key  # type: ignore
         else:
             raise ValueError(
                 f"Received `{node_role}`. Unhandled `NodeRoleInTaskExecution`, please report this bug."
@@ -734,9 +733,8 @@ class HamiltonCacheAdapter(
         elif node_role == NodeRoleInTaskExecution.EXPAND:
             self.data_versions[run_id][node_name] = {}
         elif node_role == NodeRoleInTaskExecution.INSIDE:
-            if self.data_versions[run_id].get(node_name, SENTINEL) is SENTINEL:
-                self.data_versions[run_id][node_name] = {}
-            self.data_versions[run_id][node_name][task_id] = data_version  # type: ignore ; we just initialized the nested dict
+            # setdefault is atomic; tasks of the same node may run concurrently
+            self.data_versions[run_id].setdefault(node_name, {})[task_id] = data_version  # type: ignore
         else:
             raise ValueError(
                 f"Received `{node_role}`. Unhandled `NodeRoleInTaskExecution`, please report this bug."
-- 
2.43.0


From a698c1f2489b6e4c963f9e1c13a735ec40b59c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 13/59] fix: an unreadable stored result is recomputed instead
 of failing or being read as None

---
 hamilton/caching/stores/file.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 9721a72..27ec12b 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -10,7 +10,7 @@ except ImportError:
 
 from hamilton.io.data_adapters import DataLoader, DataSaver
 
-from .base import ResultStore, StoredResult
+from .base import ResultRetrievalError, ResultStore, StoredResult
 
 
 class FileResultStore(ResultStore):
@@ -35,9 +35,9 @@ class FileResultStore(ResultStore):
     def _load_result_from_path(path: Path) -> Optional[StoredResult]:
         try:
             data = path.read_bytes()
-            return StoredResult.load(data)
         except FileNotFoundError:
             return None
+        return StoredResult.load(data)
 
     def _path_from_data_version(self, data_version: str) -> Path:
         return self.path.joinpath(data_version)
@@ -99,7 +99,10 @@ class FileResultStore(ResultStore):
     @override
     def get(self, data_version: str) -> Optional[Any]:
         result_path = self._path_from_data_version(data_version)
-        stored_result = self._load_result_from_path(result_path)
+        try:
+            stored_result = self._load_result_from_path(result_path)
+        except Exception as e:
+            raise ResultRetrievalError(f"Failed to load result from {result_path}") from e
 
         if stored_result is None:
             return None
-- 
2.43.0


From fd1f89f357cec35355f2fe94ad3ed5ed3887517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 14/59] fix: SQLiteMetadataStore.set() replaces the
 data_version of an existing cache_key

---
 hamilton/caching/stores/sqlite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 1e43484..089cc9b 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -147,7 +147,7 @@ class SQLiteMetadataStore(MetadataStore):
         cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
         cur.execute(
             """\
-            INSERT OR IGNORE INTO cache_metadata (
+            INSERT OR REPLACE INTO cache_metadata (
                 cache_key, node_name, code_version, data_version
             ) VALUES (?, ?, ?, ?)
             """,
-- 
2.43.0


From 7dcf5359d8fa1d6a8ada3f922fa5712458ccf16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 15/59] fix: SQLiteMetadataStore is usable after delete_all()

---
 hamilton/caching/stores/sqlite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 089cc9b..4155075 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -189,6 +189,8 @@ class SQLiteMetadataStore(MetadataStore):
             cur.execute(f"DROP TABLE IF EXISTS {table_name};")
 
         self.connection.commit()
+        # the store must remain usable after deletion
+        self._create_tables_if_not_exists()
 
     def exists(self, cache_key: str) -> bool:
         """boolean check if a ``data_version`` is found for ``cache_key``
-- 
2.43.0


From d51528d375f10e963563f833619efb8a7147274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:58 +0000
Subject: [PATCH 16/59] fix: in-memory cache stores tolerate deletion like the
 persistent stores

---
 hamilton/caching/stores/memory.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 37eee89..fb1453b 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -48,12 +48,14 @@ class InMemoryMetadataStore(MetadataStore):
     @override
     def delete(self, cache_key: str) -> None:
         """Delete the ``data_version`` for ``cache_key``."""
-        del self._data_versions[cache_key]
+        self._data_versions.pop(cache_key, None)
 
     @override
     def delete_all(self) -> None:
         """Delete all stored metadata."""
         self._data_versions.clear()
+        self._cache_keys_by_run.clear()
+        self._run_ids.clear()
 
     def persist_to(self, metadata_store: Optional[MetadataStore] = None) -> None:
         """Persist in-memory metadata using another MetadataStore implementation.
@@ -90,6 +92,9 @@ class InMemoryMetadataStore(MetadataStore):
 
         for run_id, cache_keys in self._cache_keys_by_run.items():
             for cache_key in cache_keys:
+                # skip deleted entries and nodes without cache_key
+                if cache_key is None or cache_key not in self._data_versions:
+                    continue
                 data_version = self._data_versions[cache_key]
                 metadata_store.set(
                     cache_key=cache_key,
@@ -150,6 +155,9 @@ class InMemoryMetadataStore(MetadataStore):
 
         nodes_metadata = []
         for cache_key in self._cache_keys_by_run[run_id]:
+            # skip deleted entries and nodes without cache_key
+            if cache_key is None or cache_key not in self._data_versions:
+                continue
             decoded_key = decode_key(cache_key)
             nodes_metadata.append(
                 dict(
@@ -187,7 +195,7 @@ class InMemoryResultStore(ResultStore):
 
     @override
     def delete(self, data_version: str) -> None:
-        del self._results[data_version]
+        self._results.pop(data_version, None)
 
     @override
     def delete_all(self) -> None:
-- 
2.43.0


From e7fd06b92ef396a9d49fccec1813273868811eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:03 +0000
Subject: [PATCH 17/59] fix: the cache key of a collecting node depends on the
 order of the collected items

---
 hamilton/caching/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index a8b2503..3eacd91 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1195,7 +1195,7 @@ class HamiltonCacheAdapter(
             if dep_name == collected_name:
                 # the collected value should be hashed based on the items, not the container
                 items_data_versions = [self.version_data(item, run_id=run_id) for item in dep_value]
-                dep_data_version = fingerprinting.hash_value(sorted(items_data_versions))
+                dep_data_version = fingerprinting.hash_value(items_data_versions)
 
             elif dep_role == NodeRoleInTaskExecution.EXPAND:
                 # if the dependency is `EXPAND`, the kwarg received is a single item yielded by the iterator
-- 
2.43.0


From 3995343457886fac760b19422c67875a17915a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:14 +0000
Subject: [PATCH 18/59] fix: InMemoryResultStore.load_from skips data versions
 without a stored result

---
 hamilton/caching/stores/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index fb1453b..cef4c95 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -279,8 +279,9 @@ class InMemoryResultStore(ResultStore):
                     data_versions_to_retrieve.add(node_metadata["data_version"])
 
         for data_version in data_versions_to_retrieve:
-            # TODO disambiguate "result is None" from the sentinel value when `data_version`
-            # is not found in `result_store`.
+            # ``None`` is a valid result; don't create one for a ``data_version`` without stored result
+            if not result_store.exists(data_version):
+                continue
             result = result_store.get(data_version)
             in_memory_result_store.set(data_version, result)
 
-- 
2.43.0


From 7daaa6df45bff326d1b13e4c48b177a93d013ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:14 +0000
Subject: [PATCH 19/59] fix: FileResultStore deletion only touches stored
 results, not the metadata that shares its directory

---
 hamilton/caching/stores/file.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 27ec12b..2ee34d4 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -116,11 +116,22 @@ class FileResultStore(ResultStore):
 
     @override
     def delete_all(self) -> None:
-        shutil.rmtree(self.path)
         self.path.mkdir(exist_ok=True)
+        for file_path in self.path.iterdir():
+            # by default, the metadata store and the logs live in the same directory
+            if file_path.name.startswith(("metadata_store.db", "cache_logs.jsonl")):
+                continue
+            if file_path.is_dir():
+                shutil.rmtree(file_path)
+            else:
+                file_path.unlink(missing_ok=True)
 
     def delete_expired(self) -> None:
         for file_path in self.path.iterdir():
-            stored_result = self._load_result_from_path(file_path)
+            try:
+                stored_result = self._load_result_from_path(file_path)
+            except Exception:
+                # not a stored result (e.g., metadata store, materialized file) or unreadable
+                continue
             if stored_result and stored_result.expired:
                 file_path.unlink(missing_ok=True)
-- 
2.43.0


From 6380fd80fa6a43a87185d94c22b9f7bb6f1781d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:14 +0000
Subject: [PATCH 20/59] fix: a cached None that does not match its data version
 is recomputed instead of returned

---
 hamilton/caching/adapter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 3eacd91..cea30b7 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1333,6 +1333,12 @@ class HamiltonCacheAdapter(
             try:
                 # successful retrieval: retrieve the result; potentially load using the DataLoader if e.g.,``@cache(format="json")``
                 result = self.result_store.get(data_version=data_version)
+                # stores return ``None`` if the result was removed since ``.exists()`` (e.g., by another process)
+                if result is None and data_version not in (
+                    fingerprinting.hash_value(None),
+                    f"{node_name}__metadata",
+                ):
+                    raise ResultRetrievalError(f"Result not found: {data_version}")
                 self._log_event(
                     run_id=run_id,
                     node_name=node_name,
-- 
2.43.0


From acc75900bc2eaefcf3e3d80bc6a4a7d9cde066bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 21/59] fix: @parameterize/@inject with source() of an optional
 parameter uses the default when the source is not supplied

---
 hamilton/function_modifiers/expanders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 1b5e726..e633572 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -195,7 +195,10 @@ class parameterize(base.NodeExpander):
                 for node_input in former_inputs:
                     if node_input in upstream_dependencies:
                         # If the node is specified by `source`, then we get the value from the kwargs
-                        new_kwargs[node_input] = kwargs[upstream_dependencies[node_input].source]
+                        # If it is not there, then it is optional and we use the function's default
+                        upstream_name = upstream_dependencies[node_input].source
+                        if upstream_name in kwargs:
+                            new_kwargs[node_input] = kwargs[upstream_name]
                     elif node_input in literal_dependencies:
                         # If the node is specified by `value`, then we get the literal value (no need for kwargs)
                         new_kwargs[node_input] = literal_dependencies[node_input].value
-- 
2.43.0


From ab81d2db4283c7458f5b134d57284401a2c63d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 22/59] fix: @extract_columns fill_with handles (name,
 documentation) columns

---
 hamilton/function_modifiers/expanders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index e633572..7a1bf21 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -635,6 +635,8 @@ class extract_columns(base.SingleNodeNodeTransformer):
                 df_generated = await fn(*args, **kwargs)
                 if self.fill_with is not None:
                     for col in self.columns:
+                        if isinstance(col, tuple):  # (name, documentation)
+                            col = col[0]
                         if col not in df_generated:
                             registry.fill_with_scalar(df_generated, col, self.fill_with)
                             assert col in df_generated
@@ -646,6 +648,8 @@ class extract_columns(base.SingleNodeNodeTransformer):
                 df_generated = fn(*args, **kwargs)
                 if self.fill_with is not None:
                     for col in self.columns:
+                        if isinstance(col, tuple):  # (name, documentation)
+                            col = col[0]
                         if col not in df_generated:
                             registry.fill_with_scalar(df_generated, col, self.fill_with)
                             assert col in df_generated
-- 
2.43.0


From c0a0f8b5806bca9ff342726707b467a7f49adbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 23/59] fix: @parameterize_extract_columns honours
 reassign_columns=False

---
 hamilton/function_modifiers/expanders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 7a1bf21..7ccad7d 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -934,8 +934,8 @@ class parameterize_extract_columns(base.NodeExpander):
                 df_out.columns = _output_columns
                 return df_out
 
-            new_node = node_.copy_with(callabl=wrapper_fn)
             fn_to_call = wrapper_fn if self.reassign_columns else fn
+            new_node = node_.copy_with(callabl=fn_to_call)
             # We have to rename the underlying function so that we do not
             # get naming collisions. Using __ is cleaner than using a uuid
             # as it is easier to read/manage and naturally maeks sense.
-- 
2.43.0


From 5768de7bbb7136cfd232c4a3032f441d3cbcfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 24/59] fix: @does maps chained and repeated argument names
 correctly

---
 hamilton/function_modifiers/macros.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index ae877db..ba52074 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -109,10 +109,9 @@ class does(base.NodeCreator):
         :param argument_mapping: Mapping of those arguments to a replacing function's arguments.
         :return: The new kwargs for the replacing function's arguments.
         """
-        output = {**kwargs}
+        mapped_args = set(argument_mapping.values())
+        output = {key: value for key, value in kwargs.items() if key not in mapped_args}
         for arg_mapped_to, original_arg in argument_mapping.items():
-            if original_arg in kwargs and arg_mapped_to not in argument_mapping.values():
-                del output[original_arg]
             # Note that if it is not there it could be a **kwarg
             output[arg_mapped_to] = kwargs[original_arg]
         return output
-- 
2.43.0


From a4155798c092b4b4b60c6dc9ac6ad964745547c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 25/59] fix: @pipe_output honours the namespace given to a
 single step

---
 hamilton/function_modifiers/macros.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index ba52074..54ec6da 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1291,12 +1291,13 @@ class pipe_output(base.NodeTransformer):
             # in case no functions in pipeline we short-circuit and return the original node
             return [node_]
 
-        if self.namespace is None:
-            _namespace = None
-        elif self.namespace is ...:
-            _namespace = node_.name
-        else:
-            _namespace = self.namespace
+        _namespace = self.namespace
+        if self.namespace is ...:
+            # the default is the name of the node, unless the step specifies its own namespace
+            transforms = tuple(
+                transform.namespaced(node_.name) if transform.namespace is ... else transform
+                for transform in transforms
+            )
 
         # We pick a reserved prefix that ovoids clashes with user defined functions / nodes
         original_node = node_.copy_with(name=f"{node_.name}.raw")
-- 
2.43.0


From c25563261d64e017b5335492adf97970c6122fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 26/59] fix: Node.reassign_inputs with sources that share a
 name with another parameter or source

---
 hamilton/node.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hamilton/node.py b/hamilton/node.py
index 5755b0e..22fe7f5 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -363,9 +363,13 @@ class Node(object):
         is_async = inspect.iscoroutinefunction(self.callable)  # determine if its async
 
         def new_callable(**kwargs) -> Any:
-            reverse_input_names = {v: k for k, v in input_names.items()}
-            kwargs = {**kwargs, **input_values}
-            return self.callable(**{reverse_input_names.get(k, k): v for k, v in kwargs.items()})
+            # Note that multiple parameters can have the same source, and that the source of a
+            # parameter can have the name of another parameter (even one with a fixed value).
+            sources = {k: input_names.get(k, k) for k in self.input_types if k not in input_values}
+            renamed = set(sources.values())
+            new_kwargs = {k: v for k, v in kwargs.items() if k not in renamed}
+            new_kwargs.update({k: kwargs[name] for k, name in sources.items() if name in kwargs})
+            return self.callable(**{**new_kwargs, **input_values})
 
         async def async_function(**kwargs):
             return await new_callable(**kwargs)
-- 
2.43.0


From d5323024b94879390dbb063bba04707d7d3f5f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 27/59] fix: @config.when does not shorten the node name again
 each time the function is resolved

---
 hamilton/function_modifiers/configuration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/function_modifiers/configuration.py b/hamilton/function_modifiers/configuration.py
index ae62c74..26cb8f2 100644
--- a/hamilton/function_modifiers/configuration.py
+++ b/hamilton/function_modifiers/configuration.py
@@ -179,8 +179,10 @@ class config(base.NodeResolver):
         fn.__config_decorated__ = (
             self._config_used if self._config_used is not None else ["__UNKNOWN__"]
         )
-        fn.__original_name__ = fn.__name__
-        fn.__name__ = self._get_function_name(fn)  # TODO -- copy function to not mutate it
+        if self.target_name is not None or not hasattr(fn, "__original_name__"):
+            name = self._get_function_name(fn)
+            fn.__original_name__ = getattr(fn, "__original_name__", fn.__name__)
+            fn.__name__ = name  # TODO -- copy function to not mutate it
         return fn
 
     def validate(self, fn):
-- 
2.43.0


From 2d643247516a1baa6583e4d0e9f19fde76f61e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:26 +0000
Subject: [PATCH 28/59] fix: functions imported from a module whose name merely
 contains the dataflow module's name are not nodes

is_submodule compared module names by substring, so a helper imported from
e.g. my_features_utils into features (or from lib_m into m) became a node.
---
 hamilton/graph_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/graph_utils.py b/hamilton/graph_utils.py
index 8c3695b..be67280 100644
--- a/hamilton/graph_utils.py
+++ b/hamilton/graph_utils.py
@@ -4,7 +4,7 @@ from typing import Callable, List, Tuple
 
 
 def is_submodule(child: ModuleType, parent: ModuleType):
-    return parent.__name__ in child.__name__
+    return child.__name__ == parent.__name__ or child.__name__.startswith(f"{parent.__name__}.")
 
 
 def find_functions(function_module: ModuleType) -> List[Tuple[str, Callable]]:
-- 
2.43.0


From e128e3c857937c79d5aa1cf1059c2f57a75ebccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:26 +0000
Subject: [PATCH 29/59] fix: Builder.copy() keeps allow_module_overrides()

---
 hamilton/driver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index d52244b..80ad8a3 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2197,6 +2197,7 @@ class Builder:
         new_builder.local_executor = self.local_executor
         new_builder.remote_executor = self.remote_executor
         new_builder.grouping_strategy = self.grouping_strategy
+        new_builder._allow_module_overrides = self._allow_module_overrides
         return new_builder
 
 
-- 
2.43.0


From 2a91a2a1454484aa29f2a840db274a66fb47ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:42 +0000
Subject: [PATCH 30/59] fix: configuring a builder further does not change
 drivers it already built

Driver held the builder's own config dictionary, so a later with_config() on
the builder silently changed the configuration of existing drivers.
---
 hamilton/async_driver.py | 2 +-
 hamilton/driver.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index a14ffa3..d5e6c90 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -498,7 +498,7 @@ class Builder(driver.Builder):
         result_builders = [adapter for adapter in adapters if isinstance(adapter, base.ResultMixin)]
         specified_result_builder = base.DictResult() if len(result_builders) == 0 else None
         return AsyncDriver(
-            self.config,
+            self.config.copy(),
             *self.modules,
             adapters=self.adapters,
             result_builder=specified_result_builder,
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 80ad8a3..5a22532 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2172,7 +2172,7 @@ class Builder:
             )
 
         return Driver(
-            self.config,
+            self.config.copy(),
             *self.modules,
             adapter=adapter,
             _materializers=self.materializers,
-- 
2.43.0


From e86915f96ffdf3e30f8a91d3664f391df139e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:42 +0000
Subject: [PATCH 31/59] fix: copying an async builder gives an async builder

---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 5a22532..95972de 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2186,7 +2186,7 @@ class Builder:
 
         NOTE. The copied Builder currently holds reference of Builder attributes
         """
-        new_builder = Builder()
+        new_builder = self.__class__()
         new_builder.v2_executor = self.v2_executor
         new_builder.config = self.config.copy()
         new_builder.modules = self.modules.copy()
-- 
2.43.0


From ee998b24042b36fae84cfb8e8d95f1826a400e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:42 +0000
Subject: [PATCH 32/59] fix: building a driver does not add adapters to the
 list the caller or the builder holds

---
 hamilton/driver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 95972de..9174028 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -329,8 +329,8 @@ class Driver:
             adapter = []
         if isinstance(adapter, lifecycle_base.LifecycleAdapterSet):
             return adapter
-        if not isinstance(adapter, list):
-            adapter = [adapter]
+        # copy, so that we do not add to the list the caller passed in
+        adapter = list(adapter) if isinstance(adapter, list) else [adapter]
         # we have to have exactly one result builder
         contains_result_builder = False
         for adapter_impl in adapter:
@@ -2149,7 +2149,7 @@ class Builder:
         :return: The driver you specified.
         """
 
-        adapter = self.adapters if self.adapters is not None else []
+        adapter = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapter.append(self.legacy_graph_adapter)
 
-- 
2.43.0


From 64444716d9ba19062f7603fd0f72de606becc4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:08 +0000
Subject: [PATCH 33/59] fix: task-based execution of a cyclic graph raises
 instead of looping forever

---
 hamilton/execution/executors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamilton/execution/executors.py b/hamilton/execution/executors.py
index 7bfb500..34e5c00 100644
--- a/hamilton/execution/executors.py
+++ b/hamilton/execution/executors.py
@@ -391,6 +391,12 @@ def run_graph_to_completion(
                     # We should probably wait a bit here, but for now we're going to keep
                     # burning through
                     execution_state.reject_task(task_to_reject=next_task)
+            elif not task_futures:
+                # nothing to hand out and nothing in flight -- no state will ever change again
+                raise ValueError(
+                    "The graph is not complete, but none of its tasks can run. "
+                    "Does it contain a cycle?"
+                )
             # update all the tasks in flight
             # copy so we can modify
             for task_name, task_future in task_futures.copy().items():
-- 
2.43.0


From abf3fcb2791be5ba4b027b8472377f3a1dbdf555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:51 +0000
Subject: [PATCH 34/59] fix: Builder.with_execution_manager() refuses when a
 local executor is set, as documented

---
 hamilton/driver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 9174028..f74ed95 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2082,6 +2082,10 @@ class Builder:
             "remote_executor",
             "Cannot set execution manager with remote " "executor set -- these are disjoint",
         )
+        self._require_field_unset(
+            "local_executor",
+            "Cannot set execution manager with local " "executor set -- these are disjoint",
+        )
 
         self.execution_manager = execution_manager
         return self
-- 
2.43.0


From 40f9417f84a2b5ee8097443b9c882659826c302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 35/59] fix: loader/saver arguments with the same source, or
 named like another argument's source, keep their values

---
 hamilton/function_modifiers/adapters.py | 105 ++++++++++++------------
 1 file changed, 53 insertions(+), 52 deletions(-)

diff --git a/hamilton/function_modifiers/adapters.py b/hamilton/function_modifiers/adapters.py
index 2f975f4..bae0088 100644
--- a/hamilton/function_modifiers/adapters.py
+++ b/hamilton/function_modifiers/adapters.py
@@ -97,6 +97,48 @@ def resolve_kwargs(kwargs: Dict[str, Any]) -> Tuple[Dict[str, str], Dict[str, An
     return dependencies, resolved_kwargs
 
 
+def resolve_dependencies(
+    dependencies: Dict[str, str], input_kwargs: Dict[str, Any]
+) -> Dict[str, Any]:
+    """Gives the adapter arguments that come from upstream nodes. Note that multiple arguments can
+    have the same source, and that sources can be named like (other) arguments.
+
+    :param dependencies: Map from the name of the adapter argument to the name of its source
+    :param input_kwargs: Values of the sources. Optional ones can be missing.
+    :return: Map from the name of the adapter argument to its value
+    """
+    return {
+        name: input_kwargs[source]
+        for name, source in dependencies.items()
+        if source in input_kwargs
+    }
+
+
+def get_dependency_types(
+    adapter_cls: Type[AdapterCommon], dependencies: Dict[str, str]
+) -> Dict[str, Tuple[Type[Type], DependencyType]]:
+    """Gives the input types of the node that calls the adapter -- one for each source.
+
+    :param adapter_cls: Adapter class to call
+    :param dependencies: Map from the name of the adapter argument to the name of its source
+    :return: Map from the source to its type and whether it is required
+    """
+    input_types = {
+        dependencies[key]: (type_, DependencyType.OPTIONAL)
+        for key, type_ in adapter_cls.get_optional_arguments().items()
+        if key in dependencies
+    }
+    # a source that is required by any of the arguments is required
+    input_types.update(
+        {
+            dependencies[key]: (type_, DependencyType.REQUIRED)
+            for key, type_ in adapter_cls.get_required_arguments().items()
+            if key in dependencies
+        }
+    )
+    return input_types
+
+
 def resolve_adapter_class(
     type_: Type[Type], loader_classes: List[Type[AdapterCommon]]
 ) -> Optional[Type[AdapterCommon]]:
@@ -181,44 +223,23 @@ class LoadFromDecorator(NodeInjector):
         # dependencies is a map from param name -> source name
         # we use this to pass the right arguments to the loader.
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        # we need to invert the dependencies so that we can pass
-        # the right argument to the loader
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def load_data(
             __loader_factory: AdapterFactory = loader_factory,
             __load_type: Type[Type] = load_type,
             __resolved_kwargs=resolved_kwargs,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __optional_params=loader_cls.get_optional_arguments(),  # noqa: B008
             **input_kwargs: Any,
         ) -> Tuple[load_type, Dict[str, Any]]:
-            input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+            kwargs = {
+                **__resolved_kwargs,
+                **resolve_dependencies(__dependencies, input_kwargs),
             }
-            kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
             data_loader = __loader_factory.create_loader(**kwargs)
             return data_loader.load_data(load_type)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
-        input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in loader_cls.get_required_arguments().items()
-        }
-        input_types.update(
-            {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in loader_cls.get_optional_arguments().items()
-                if key in dependencies
-            }
-        )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
+        input_types = get_dependency_types(loader_cls, dependencies)
 
         # the loader node is the node that loads the data from the data source.
         loader_node = node.Node(
@@ -528,43 +549,23 @@ class SaveToDecorator(SingleNodeNodeTransformer):
 
         adapter_factory = AdapterFactory(saver_cls, **self.kwargs)
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def save_data(
             __adapter_factory=adapter_factory,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __resolved_kwargs=resolved_kwargs,
             __data_node_name=node_to_save,
             **input_kwargs,
         ) -> Dict[str, Any]:
-            input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+            data_to_save = input_kwargs[__data_node_name]
+            kwargs = {
+                **__resolved_kwargs,
+                **resolve_dependencies(__dependencies, input_kwargs),
             }
-            kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
-            data_to_save = kwargs[__data_node_name]
-            kwargs = {k: v for k, v in kwargs.items() if k != __data_node_name}
             data_saver = __adapter_factory.create_saver(**kwargs)
             return data_saver.save_data(data_to_save)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
-        input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in saver_cls.get_required_arguments().items()
-        }
-        input_types.update(
-            {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in saver_cls.get_optional_arguments().items()
-                if key in dependencies
-            }
-        )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
+        input_types = get_dependency_types(saver_cls, dependencies)
         input_types[node_to_save] = (node_.type, DependencyType.REQUIRED)
         save_node = node.Node(
             name=artifact_name,
-- 
2.43.0


From ed67c219d13c25bcdf8abde9f5478c7ed000af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 36/59] fix: two materializers with the same id are rejected
 instead of one silently replacing the other

---
 hamilton/io/materialization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/io/materialization.py b/hamilton/io/materialization.py
index 2035bb4..1159b52 100644
--- a/hamilton/io/materialization.py
+++ b/hamilton/io/materialization.py
@@ -458,6 +458,10 @@ def modify_graph(
     materializer_nodes = []
     for materializer in materializer_factories:
         materializer_nodes.extend(materializer.generate_nodes(fn_graph))
+    node_names = [node_.name for node_ in materializer_nodes]
+    duplicates = {name for name in node_names if node_names.count(name) > 1}
+    if duplicates:
+        raise ValueError(f"Multiple materializers have the same id: {duplicates}")
     fn_graph = fn_graph.with_nodes({node_.name: node_ for node_ in materializer_nodes})
     loader_nodes = []
     # We want to treat this as an override
-- 
2.43.0


From 6c1aadb61b4dede580c9dd76b3fe385facf89976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 37/59] fix: materialize() no longer masks an early error with
 UnboundLocalError

---
 hamilton/driver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index f74ed95..80d3364 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1649,6 +1649,8 @@ class Driver:
         error_telemetry = None
         run_id = str(uuid.uuid4())
         outputs = (None, None)
+        # whether we got to pre_graph_execute, if not there's no run to call post_graph_execute for
+        run_started = False
         final_vars = self._create_final_vars(additional_vars)
         # This is so the finally logging statement does not accidentally die
         materializer_vars = []
@@ -1675,6 +1677,7 @@ class Driver:
             # Note we will not run the loaders if they're not upstream of the
             # materializers or additional_vars
             materializer_vars = [m.id for m in materializer_factories]
+            run_started = True
             if self.adapter.does_hook("pre_graph_execute", is_async=False):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "pre_graph_execute",
@@ -1708,7 +1711,7 @@ class Driver:
             error_execution = e
             raise e
         finally:
-            if self.adapter.does_hook("post_graph_execute", is_async=False):
+            if run_started and self.adapter.does_hook("post_graph_execute", is_async=False):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "post_graph_execute",
                     run_id=run_id,
-- 
2.43.0


From 70025833c55570593cada3f2043e0e366efa1d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 38/59] fix: the tracking client sends the updates it already
 took from its queue when stopped

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 5512164..314f5c9 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -251,6 +251,9 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
                     self.flush(batch)
                     batch = []
                     last_flush_time = time.time()
+        # We were asked to stop -- send what we already took out of the queue
+        if batch:
+            self.flush(batch)
 
     def flush(self, batch):
         """Flush the batch (send it to the backend or process it)."""
@@ -288,7 +291,8 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         while not self.data_queue.empty():
             try:
                 item = self.data_queue.get_nowait()
-                self.flush([item])
+                if item is not None:  # None just signals the end
+                    self.flush([item])
             except queue.Empty:
                 break
 
-- 
2.43.0


From 1bf436842745a0bc0f02fdd02347710e682d0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 39/59] fix: a failed tracking request no longer ends the
 worker that sends all further updates

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 50 +++++++++++++-------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 314f5c9..08effe5 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -262,21 +262,21 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         dag_run_ids = set([item["dag_run_id"] for item in batch])
         for dag_run_id in dag_run_ids:
             attributes_list, task_updates_list = create_batch(batch, dag_run_id)
-            response = requests.put(
-                f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
-                json={
-                    "attributes": make_json_safe(attributes_list),
-                    "task_updates": make_json_safe(task_updates_list),
-                },
-                headers=self._common_headers(),
-                verify=self.verify,
-            )
             try:
+                response = requests.put(
+                    f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
+                    json={
+                        "attributes": make_json_safe(attributes_list),
+                        "task_updates": make_json_safe(task_updates_list),
+                    },
+                    headers=self._common_headers(),
+                    verify=self.verify,
+                )
                 response.raise_for_status()
                 logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-            except HTTPError:
+            except Exception:
+                # We do not raise -- that would end the worker, and with it all further updates
                 logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
-                raise
 
     def stop(self):
         """Stop the logger and process remaining events."""
@@ -574,22 +574,22 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
         dag_run_ids = set([item["dag_run_id"] for item in batch])
         for dag_run_id in dag_run_ids:
             attributes_list, task_updates_list = create_batch(batch, dag_run_id)
-            async with aiohttp.ClientSession() as session:
-                async with session.put(
-                    f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
-                    json={
-                        "attributes": make_json_safe(attributes_list),
-                        "task_updates": make_json_safe(task_updates_list),
-                    },
-                    headers=self._common_headers(),
-                    ssl=self.ssl,
-                ) as response:
-                    try:
+            try:
+                async with aiohttp.ClientSession() as session:
+                    async with session.put(
+                        f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
+                        json={
+                            "attributes": make_json_safe(attributes_list),
+                            "task_updates": make_json_safe(task_updates_list),
+                        },
+                        headers=self._common_headers(),
+                        ssl=self.ssl,
+                    ) as response:
                         response.raise_for_status()
                         logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-                    except HTTPError:
-                        logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
-                        # zraise
+            except Exception:
+                # We do not raise -- that would end the worker, and with it all further updates
+                logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
 
     async def worker(self):
         """Worker thread to process the queue"""
-- 
2.43.0


From 0e83ad8fd91b59f2a6c45f0e0bc54127470a883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 40/59] fix: tracked values with non-finite floats or non-JSON
 keys can be sent

---
 ui/sdk/src/hamilton_sdk/tracking/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/tracking/utils.py b/ui/sdk/src/hamilton_sdk/tracking/utils.py
index b0e515d..7dfdb48 100644
--- a/ui/sdk/src/hamilton_sdk/tracking/utils.py
+++ b/ui/sdk/src/hamilton_sdk/tracking/utils.py
@@ -2,6 +2,7 @@ import dataclasses
 import datetime
 import json
 import logging
+import math
 from enum import Enum
 from typing import Any, Union
 
@@ -33,7 +34,10 @@ def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
     @return: A dictionary or list with non-serializable types converted.
     """
     if isinstance(item, dict):
-        return {k: make_json_safe(v) for k, v in item.items()}
+        return {
+            k if isinstance(k, (str, int, float, bool, type(None))) else str(k): make_json_safe(v)
+            for k, v in item.items()
+        }
     elif isinstance(item, list):
         return [make_json_safe(elem) for elem in item]
     elif isinstance(item, np.ndarray):
@@ -44,6 +48,8 @@ def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
         return make_json_safe(dataclasses.asdict(item))
     elif isinstance(item, Enum):
         return item.value  # Convert enum to its corresponding value
+    elif isinstance(item, float) and not math.isfinite(item):
+        return str(item)  # there are no such numbers in JSON
     elif hasattr(item, "to_json"):
         # we convert to json string and then deserialize it so that
         # it's not a string in the UI.
-- 
2.43.0


From 921cc1543a87c937cd1c0c76f206a9c64308d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 41/59] fix: the tracker keeps runs of one node in several
 parallel tasks apart

---
 ui/sdk/src/hamilton_sdk/adapters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 23cbb3a..0ae22e4 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -183,8 +183,10 @@ class HamiltonTracker(
         task_run = TaskRun(node_name=node_.name, is_in_sample=in_sample)
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
-        tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        # nodes in parallel blocks run once per task, so the name alone does not identify them
+        task_name = get_node_name(node_, task_id)
+        tracking_state.update_task(task_name, task_run)
+        self.task_runs[run_id][task_name] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -258,7 +260,7 @@ class HamiltonTracker(
     ):
         """Captures end of node execution."""
         logger.debug("post_node_execute %s %s", run_id, task_id)
-        task_run: TaskRun = self.task_runs[run_id][node_.name]
+        task_run: TaskRun = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
 
@@ -322,7 +324,7 @@ class HamiltonTracker(
                 attribute_role="result_summary",
             )
             attributes.append(other_attr)
-        tracking_state.update_task(node_.name, task_run)
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
         task_update = dict(
             node_template_name=node_.name,
             node_name=get_node_name(node_, task_id),
-- 
2.43.0


From 06d4280ed83bb3e5fead40c595656f95ce74569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 42/59] fix: the tracker forgets the template of a graph that
 is gone, as the ID may be reused

---
 ui/sdk/src/hamilton_sdk/adapters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 0ae22e4..4e9537a 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -4,6 +4,7 @@ import logging
 import os
 import random
 import traceback
+import weakref
 from datetime import timezone
 from types import ModuleType
 from typing import Any, Callable, Dict, List, Optional, Union
@@ -137,6 +138,8 @@ class HamiltonTracker(
             vcs_info=vcs_info,
         )
         self.dag_template_id_cache[fg_id] = dag_template_id
+        # graphs come and go (E.G. with materialize()), and the ID can be that of another one then
+        weakref.finalize(graph, self.dag_template_id_cache.pop, fg_id, None)
 
     def pre_graph_execute(
         self,
@@ -473,6 +476,8 @@ class AsyncHamiltonTracker(
             vcs_info=vcs_info,
         )
         self.dag_template_id_cache[fg_id] = dag_template_id
+        # graphs come and go (E.G. with materialize()), and the ID can be that of another one then
+        weakref.finalize(graph, self.dag_template_id_cache.pop, fg_id, None)
 
     async def pre_graph_execute(
         self,
-- 
2.43.0


From c1bdabd32c9edf44e12e4bfb6944f9461c5ce4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 43/59] fix: pandera validation no longer changes the data it
 validates

---
 hamilton/data_quality/pandera_validators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/data_quality/pandera_validators.py b/hamilton/data_quality/pandera_validators.py
index e764e22..cb8a3dd 100644
--- a/hamilton/data_quality/pandera_validators.py
+++ b/hamilton/data_quality/pandera_validators.py
@@ -31,7 +31,8 @@ class PanderaDataFrameValidator(base.BaseDefaultValidator):
 
     def validate(self, data: Any) -> base.ValidationResult:
         try:
-            result = self.schema.validate(data, lazy=True, inplace=True)
+            # not in place, as a schema can coerce/filter the data -- validators do not modify it
+            result = self.schema.validate(data, lazy=True, inplace=False)
             if hasattr(result, "dask"):
                 result.compute()
         except pa.errors.SchemaErrors as e:
@@ -77,7 +78,8 @@ class PanderaSeriesSchemaValidator(base.BaseDefaultValidator):
 
     def validate(self, data: Any) -> base.ValidationResult:
         try:
-            result = self.schema.validate(data, lazy=True, inplace=True)
+            # not in place, as a schema can coerce/filter the data -- validators do not modify it
+            result = self.schema.validate(data, lazy=True, inplace=False)
             if hasattr(result, "dask"):
                 result.compute()
         except pa.errors.SchemaErrors as e:
-- 
2.43.0


From b2d49575f9e808e48774ef21437c5551e00ce658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 44/59] fix: check_instance accepts instances of fixed-length
 tuples, Annotated, unions with generics and further container types

---
 hamilton/htypes.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/hamilton/htypes.py b/hamilton/htypes.py
index e1db63a..b5a8bda 100644
--- a/hamilton/htypes.py
+++ b/hamilton/htypes.py
@@ -1,5 +1,6 @@
 import inspect
 import sys
+import types
 import typing
 from typing import Any, Iterable, Optional, Protocol, Tuple, Type, TypeVar, Union
 
@@ -385,6 +386,12 @@ def check_instance(obj: Any, type_: Any) -> bool:
     """
     if type_ == Any:
         return True
+    # Annotated[...], E.G. htypes.column -- the annotations do not restrict the type
+    if hasattr(type_, "__metadata__"):
+        return check_instance(obj, type_.__origin__)
+    # int | str, which is not a typing.Union
+    if sys.version_info >= (3, 10) and isinstance(type_, types.UnionType):
+        return any(check_instance(obj, t) for t in type_.__args__)
     # Get the origin of the type (i.e., the base class for generic types)
     origin = getattr(type_, "__origin__", None)
 
@@ -395,8 +402,11 @@ def check_instance(obj: Any, type_: Any) -> bool:
             return any(check_instance(obj, t) for t in type_.__args__)
         elif origin is Literal:
             return obj in type_.__args__
+        # Parallelizable/Collect are markers for iterables, we cannot check for them
+        elif origin in (Parallelizable, Collect):
+            origin = typing.get_origin(Iterable)
         # Check if the object is an instance of the origin of the type
-        elif not isinstance(obj, origin):
+        if not isinstance(obj, origin):
             return False
 
         # If the type has arguments (i.e., it's a parameterized generic type like List[int])
@@ -404,8 +414,14 @@ def check_instance(obj: Any, type_: Any) -> bool:
             # Get the element type(s) of the generic type
             element_type = type_.__args__
 
+            # If the type has one type per element of a tuple (as opposed to Tuple[int, ...])
+            if origin is tuple and element_type[1:] != (...,):
+                return len(obj) == len(element_type) and all(
+                    check_instance(i, t) for i, t in zip(obj, element_type)
+                )
+
             # If the object is a dictionary
-            if isinstance(obj, dict):
+            elif isinstance(obj, dict) and len(element_type) == 2:
                 all_items_meet_condition = True
 
                 # Iterate over each key-value pair in the dictionary
@@ -422,13 +438,16 @@ def check_instance(obj: Any, type_: Any) -> bool:
                 # Return the result
                 return all_items_meet_condition
 
-            # If the object is a list, set, or tuple
-            elif isinstance(obj, (list, set, tuple)):
+            # If the object is a list, set, or tuple (or a dictionary, of which these are the keys)
+            elif isinstance(obj, (list, set, frozenset, tuple, dict)):
                 element_type = element_type[0]
                 for i in obj:
                     if not check_instance(i, element_type):
                         return False
                 return True
 
+        # We cannot look into anything else
+        return True
+
     # If the type is not a generic type, just use isinstance
     return isinstance(obj, type_)
-- 
2.43.0


From a45260dce465c6e9ad4897742d27561bac5e314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 45/59] fix: PrintLn forgets the timer of the run it started,
 also in task-based execution

---
 hamilton/lifecycle/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 313315b..44ec7a5 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -156,7 +156,7 @@ class PrintLn(NodeExecutionHook):
             else:
                 message += f" Error: \n{pprint.pformat(error)}"
         self.print_fn(message)
-        del self.timer_dict[node_name]
+        del self.timer_dict[node_unique_id]
 
 
 class PDBDebugger(NodeExecutionHook, NodeExecutionMethod):
-- 
2.43.0


From 307eb4d8702ac28f17d541920d51a6d523ef024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 46/59] fix: the type checker no longer masks a node's own
 error with a type error

---
 hamilton/lifecycle/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 44ec7a5..f3fbf53 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -517,7 +517,7 @@ class FunctionInputOutputTypeChecker(NodeExecutionHook):
         **future_kwargs: Any,
     ):
         """Checks that the result type matches the expected node return type."""
-        if self.check_output:
+        if self.check_output and success:
             # Replace the isinstance check in your code with check_instance
             if not htypes.check_instance(result, node_return_type):
                 raise TypeError(
-- 
2.43.0


From 80c3e830f01dca76b535274dca166def71bd6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 47/59] fix: the progress bar accepts a run that only asks for
 inputs

---
 hamilton/plugins/h_tqdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_tqdm.py b/hamilton/plugins/h_tqdm.py
index c7c25a0..7961ee0 100644
--- a/hamilton/plugins/h_tqdm.py
+++ b/hamilton/plugins/h_tqdm.py
@@ -69,7 +69,9 @@ class ProgressBar(
     ):
         total_node_to_execute = len(execution_path)
         max_node_name_length = min(
-            max([len(node) for node in execution_path]), self.max_node_name_width
+            # there is nothing to execute if just inputs were requested
+            max([len(node) for node in execution_path], default=self.max_node_name_width),
+            self.max_node_name_width,
         )
         if self.node_name_target_width is None:
             self.node_name_target_width = max_node_name_length
-- 
2.43.0


From abd4312788ec9993ee03c68e6e758e2adc027307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 48/59] fix: with_columns without select takes the columns of
 the present configuration, not of the first one

---
 hamilton/plugins/h_pandas.py           | 10 ++++++----
 hamilton/plugins/h_polars.py           | 10 ++++++----
 hamilton/plugins/h_polars_lazyframe.py | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/hamilton/plugins/h_pandas.py b/hamilton/plugins/h_pandas.py
index bcbc2e2..0bf48fe 100644
--- a/hamilton/plugins/h_pandas.py
+++ b/hamilton/plugins/h_pandas.py
@@ -201,8 +201,10 @@ class with_columns(with_columns_base):
         "Node that adds to / overrides columns for the original dataframe based on selected output."
         # In case no node is selected we append all possible nodes that have a column type matching
         # what the dataframe expects
-        if self.select is None:
-            self.select = [
+        # (which depends on the configuration, so it is not kept for the next time we get here)
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -211,13 +213,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.assign(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
diff --git a/hamilton/plugins/h_polars.py b/hamilton/plugins/h_polars.py
index 4ef8609..70fa309 100644
--- a/hamilton/plugins/h_polars.py
+++ b/hamilton/plugins/h_polars.py
@@ -250,8 +250,10 @@ class with_columns(with_columns_base):
     ) -> node.Node:
         "Node that adds to / overrides columns for the original dataframe based on selected output."
 
-        if self.select is None:
-            self.select = [
+        # (which depends on the configuration, so it is not kept for the next time we get here)
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -260,13 +262,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.with_columns(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
diff --git a/hamilton/plugins/h_polars_lazyframe.py b/hamilton/plugins/h_polars_lazyframe.py
index 00f4326..504467f 100644
--- a/hamilton/plugins/h_polars_lazyframe.py
+++ b/hamilton/plugins/h_polars_lazyframe.py
@@ -228,8 +228,10 @@ class with_columns(with_columns_base):
     ) -> node.Node:
         "Node that adds to / overrides columns for the original dataframe based on selected output."
 
-        if self.select is None:
-            self.select = [
+        # (which depends on the configuration, so it is not kept for the next time we get here)
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -238,13 +240,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.with_columns(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
-- 
2.43.0


From a2053e0e15a7505a76bf0602ab4fc7d425bcdf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 49/59] fix: the async driver hands results to the builder in
 the order they were requested

---
 hamilton/async_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index d5e6c90..de22e88 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -18,7 +18,7 @@ logger = logging.getLogger(__name__)
 
 async def await_dict_of_tasks(task_dict: Dict[str, typing.Awaitable]) -> Dict[str, Any]:
     """Util to await a dictionary of tasks as asyncio.gather is kind of garbage"""
-    keys = sorted(task_dict.keys())
+    keys = list(task_dict.keys())  # in the order they came, so results are as requested
     coroutines = [task_dict[key] for key in keys]
     coroutines_gathered = await asyncio.gather(*coroutines)
     return dict(zip(keys, coroutines_gathered))
-- 
2.43.0


From 47a0f024105f8dd3f8d218ecd38b6fff9ad1ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 50/59] fix: a dataframe's column no longer silently replaces
 another output of the same name

---
 hamilton/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamilton/base.py b/hamilton/base.py
index 136c0b3..869180e 100644
--- a/hamilton/base.py
+++ b/hamilton/base.py
@@ -257,6 +257,12 @@ class PandasDataFrameResult(ResultMixin):
                     get_output_name(name, col_name): col_value
                     for col_name, col_value in output.to_dict(orient="series").items()
                 }
+                redefined = [col_name for col_name in df_dict if col_name in flattened_outputs]
+                if redefined:
+                    raise ValueError(
+                        f"Columns {redefined} of dataframe {name} already exist in the output. "
+                        f"Please rename them, or the outputs they clash with, to avoid this error."
+                    )
                 flattened_outputs.update(df_dict)
             elif isinstance(output, pd.Series):
                 if name in flattened_outputs:
-- 
2.43.0


From 5594c142ee3737966521dff0220ddc10b124f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:28 +0000
Subject: [PATCH 51/59] fix: NumpyMatrixResult builds matrices of one row from
 scalars

---
 hamilton/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/base.py b/hamilton/base.py
index 869180e..9a9c9ef 100644
--- a/hamilton/base.py
+++ b/hamilton/base.py
@@ -359,7 +359,7 @@ class NumpyMatrixResult(ResultMixin):
         columns_with_lengths = collections.OrderedDict()
         for col, val in outputs.items():  # assumption is fixed order
             if isinstance(val, (int, float)):  # TODO add more things here
-                columns_with_lengths[(col, 1)] = val
+                columns_with_lengths[(col, None)] = val  # None means it is a scalar
             else:
                 length = len(val)
                 if num_rows == -1:
@@ -373,9 +373,11 @@ class NumpyMatrixResult(ResultMixin):
                         f"Got {length} for {col} instead of {num_rows}."
                     )
                 columns_with_lengths[(col, num_rows)] = val
+        if num_rows == -1:
+            num_rows = 1  # there are only scalars, so that's a single row
         list_of_columns = []
         for (col, length), val in columns_with_lengths.items():
-            if length != num_rows and length == 1:
+            if length is None:
                 list_of_columns.append([val] * num_rows)  # expand single values into a full row
             elif length == num_rows:
                 list_of_columns.append(list(val))
-- 
2.43.0


From 2f08ad0cf8567cd5c05f3dcbfb5810bbd9e41c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:58 +0000
Subject: [PATCH 52/59] fix: PandasCSVReader passes skipfooter and decimal on
 to pandas

---
 hamilton/plugins/pandas_extensions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index e212e5d..52c31cb 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -180,6 +180,8 @@ class PandasCSVReader(DataLoader):
             kwargs["skipinitialspace"] = self.skipinitialspace
         if self.skiprows is not None:
             kwargs["skiprows"] = self.skiprows
+        if self.skipfooter is not None:
+            kwargs["skipfooter"] = self.skipfooter
         if self.nrows is not None:
             kwargs["nrows"] = self.nrows
         if self.na_values is not None:
@@ -210,6 +212,8 @@ class PandasCSVReader(DataLoader):
             kwargs["compression"] = self.compression
         if self.thousands is not None:
             kwargs["thousands"] = self.thousands
+        if self.decimal is not None:
+            kwargs["decimal"] = self.decimal
         if self.lineterminator is not None:
             kwargs["lineterminator"] = self.lineterminator
         if self.quotechar is not None:
-- 
2.43.0


From 3af725dcef8591d05148e69f86609defe65c820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:59 +0000
Subject: [PATCH 53/59] fix: the xml adapters use pandas' names for namespaces
 and elem_cols

---
 hamilton/plugins/pandas_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index 52c31cb..f6083a7 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -835,7 +835,7 @@ class PandasXmlReader(DataLoader):
         if self.xpath is not None:
             kwargs["xpath"] = self.xpath
         if self.namespace is not None:
-            kwargs["namespace"] = self.namespace
+            kwargs["namespaces"] = self.namespace
         if self.elems_only is not None:
             kwargs["elems_only"] = self.elems_only
         if self.attrs_only is not None:
@@ -922,7 +922,7 @@ class PandasXmlWriter(DataSaver):
         if self.attr_cols is not None:
             kwargs["attr_cols"] = self.attr_cols
         if self.elems_cols is not None:
-            kwargs["elems_cols"] = self.elems_cols
+            kwargs["elem_cols"] = self.elems_cols
         if self.namespaces is not None:
             kwargs["namespaces"] = self.namespaces
         if self.prefix is not None:
-- 
2.43.0


From 1dae2cc13cf12ca5c7de0d91484b1023bdb5ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:59 +0000
Subject: [PATCH 54/59] fix: MatplotlibWriter passes dpi on to savefig

---
 hamilton/plugins/matplotlib_extensions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/plugins/matplotlib_extensions.py b/hamilton/plugins/matplotlib_extensions.py
index ae8e58f..d6c5ef1 100644
--- a/hamilton/plugins/matplotlib_extensions.py
+++ b/hamilton/plugins/matplotlib_extensions.py
@@ -37,6 +37,8 @@ class MatplotlibWriter(DataSaver):
 
     def _get_saving_kwargs(self) -> dict:
         kwargs = {}
+        if self.dpi is not None:
+            kwargs["dpi"] = self.dpi
         if self.format is not None:
             kwargs["format"] = self.format
         if self.metadata is not None:
-- 
2.43.0


From e5c2c1533efe5ef3f4c3723880815269e0cd8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:59 +0000
Subject: [PATCH 55/59] fix: PolarsParquetWriter passes its options on whether
 or not compression is given

---
 hamilton/plugins/polars_post_1_0_0_extensions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hamilton/plugins/polars_post_1_0_0_extensions.py b/hamilton/plugins/polars_post_1_0_0_extensions.py
index ee71bb0..5bd0230 100644
--- a/hamilton/plugins/polars_post_1_0_0_extensions.py
+++ b/hamilton/plugins/polars_post_1_0_0_extensions.py
@@ -309,15 +309,15 @@ class PolarsParquetWriter(DataSaver):
         kwargs = {}
         if self.compression is not None:
             kwargs["compression"] = self.compression
-        if self.compression is not None:
+        if self.compression_level is not None:
             kwargs["compression_level"] = self.compression_level
-        if self.compression is not None:
+        if self.statistics is not None:
             kwargs["statistics"] = self.statistics
-        if self.compression is not None:
+        if self.row_group_size is not None:
             kwargs["row_group_size"] = self.row_group_size
-        if self.compression is not None:
+        if self.use_pyarrow is not None:
             kwargs["use_pyarrow"] = self.use_pyarrow
-        if self.compression is not None:
+        if self.pyarrow_options is not None:
             kwargs["pyarrow_options"] = self.pyarrow_options
         return kwargs
 
-- 
2.43.0


From 1eb3b0cee7185fade36f5d4a942bcdbf45ed16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:59 +0000
Subject: [PATCH 56/59] fix: the type hints of the polars json and database
 adapters can be resolved

---
 hamilton/plugins/polars_post_1_0_0_extensions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hamilton/plugins/polars_post_1_0_0_extensions.py b/hamilton/plugins/polars_post_1_0_0_extensions.py
index 5bd0230..14632ab 100644
--- a/hamilton/plugins/polars_post_1_0_0_extensions.py
+++ b/hamilton/plugins/polars_post_1_0_0_extensions.py
@@ -22,6 +22,13 @@ try:
 except ImportError:
     Workbook = Type
 
+# polars' ConnectionOrCursor refers to these by name
+try:
+    from sqlalchemy.engine import Connection, Engine  # noqa: F401
+    from sqlalchemy.orm import Session  # noqa: F401
+except ImportError:
+    Connection = Engine = Session = Any
+
 import polars as pl
 from polars._typing import ConnectionOrCursor
 
@@ -38,7 +45,7 @@ if hasattr(polars.selectors, "_selector_proxy_"):
     from polars.selectors import _selector_proxy_  # noqa
 
 # for polars 0.18.0 we need to check what to do.
-from polars._typing import CsvEncoding, SchemaDefinition
+from polars._typing import CsvEncoding
 
 CsvQuoteStyle = Type
 
@@ -491,8 +498,8 @@ class PolarsJSONReader(DataLoader):
     """
 
     source: Union[str, Path, IOBase, bytes]
-    schema: SchemaDefinition = None
-    schema_overrides: SchemaDefinition = None
+    schema: Union[Mapping[str, Any], Sequence[Any]] = None
+    schema_overrides: Union[Mapping[str, Any], Sequence[Any]] = None
 
     @classmethod
     def applicable_types(cls) -> Collection[Type]:
-- 
2.43.0


From cdf2158b3f6f99ae6b2b7d9f7ce8de2e4d481827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:59 +0000
Subject: [PATCH 57/59] fix: hamilton diff --view draws the difference instead
 of failing

---
 hamilton/cli/logic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/cli/logic.py b/hamilton/cli/logic.py
index 2cd6da6..20de66c 100644
--- a/hamilton/cli/logic.py
+++ b/hamilton/cli/logic.py
@@ -248,6 +248,7 @@ def visualize_diff(
         custom_style_function=diff_style,
         node_modifiers=dict(),
         strictly_display_only_nodes_passed_in=True,
+        config=current_dr.graph.config,
     )
 
 
-- 
2.43.0


From 2ba1903c4d58fd4367336cd9f6ab3b672a885c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:59 +0000
Subject: [PATCH 58/59] fix: hamilton diff tells nodes without a version from
 nodes that are not there

---
 hamilton/cli/logic.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hamilton/cli/logic.py b/hamilton/cli/logic.py
index 20de66c..1522793 100644
--- a/hamilton/cli/logic.py
+++ b/hamilton/cli/logic.py
@@ -176,19 +176,17 @@ def diff_versions(current_map: Dict[str, str], reference_map: Dict[str, str]) ->
     current_only, reference_only, edit = [], [], []
 
     for node_name, v1 in current_map.items():
-        v2 = reference_map.get(node_name)
-        if v2 is None:
+        if node_name not in reference_map:
             current_only.append(node_name)
             continue
 
+        v2 = reference_map[node_name]
         if v1 != v2:
             edit.append(node_name)
 
-    for node_name, _ in reference_map.items():
-        v1 = current_map.get(node_name)
-        if v1 is None:
+    for node_name in reference_map:
+        if node_name not in current_map:
             reference_only.append(node_name)
-            continue
 
     return dict(current_only=current_only, reference_only=reference_only, edit=edit)
 
-- 
2.43.0


From d2333cc48b2e3890061c7aa6f3eb8c86a92bf8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:47 +0000
Subject: [PATCH 59/59] fix: the async driver ignored static validators

Adapters given to the async driver were only passed on if they had a hook, so a
StaticValidator (or any other adapter with only validators) was silently dropped.
---
 hamilton/async_driver.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index de22e88..21d079e 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -162,7 +162,8 @@ def separate_sync_from_async(
     adapters: typing.List[lifecycle.LifecycleAdapter],
 ) -> Tuple[typing.List[lifecycle.LifecycleAdapter], typing.List[lifecycle.LifecycleAdapter]]:
     """Separates the sync and async adapters from a list of adapters.
-    Note this only works with hooks -- we'll be dealing with methods later.
+    Note this only works with hooks and validators (which are always sync) -- we'll be dealing
+    with methods later.
 
     :param adapters: List of adapters
     :return: Tuple of sync adapters, async adapters
@@ -173,7 +174,12 @@ def separate_sync_from_async(
     # For now this is OK
     # Note those are dict[hook_name, list[hook]], so we have to flatten
     return (
-        [sync_adapter for adapters in adapter_set.sync_hooks.values() for sync_adapter in adapters],
+        [
+            sync_adapter
+            for sync_adapters in (adapter_set.sync_hooks, adapter_set.sync_validators)
+            for adapters in sync_adapters.values()
+            for sync_adapter in adapters
+        ],
         [
             async_adapter
             for adapters in adapter_set.async_hooks.values()
-- 
2.43.0


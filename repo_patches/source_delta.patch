From f105355d3be0f24156cebe6c18229f685abb71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 01/50] fix: traversals no longer call asyncio.coroutine,
 removed from Python 3.11

---
 .../rei/foundations/hierarchical_traversal_strategies.py  | 5 ++---
 .../rei/foundations/hypergraph_traversal_strategies.py    | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 3d70877..4aad6f9 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -26,7 +26,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
-            _task_list.append(asyncio.coroutine(self._visitor_func(start)))
+            _task_list.append(self._visitor_func(start))
         return _fringe, _task_list
 
     async def _fill_visit_fringe(self, current_node, _fringe: asyncio.Queue, current_depth: int = 0):
@@ -39,8 +39,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         if not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
-            # Add coroutine (TODO: seek for another solution to create coroutines)
-            _task_list.append(asyncio.coroutine(self._visitor_func(_next)))
+            _task_list.append(self._visitor_func(_next))
             await self._traverse(_fringe, _task_list)
 
 
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 07f1851..880b7ea 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -47,16 +47,16 @@ class HypergraphTraversal(GraphVisitor):
 
     def __fill_relations(self, weight, endpoint_id, edge_id, norm_weight, el, task_list: list):
         if weight[0] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
         if weight[1] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-- 
2.43.0


From 0cc87defa8a3ec24998964add03d6143dd28848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 02/50] fix: tensors use the builtin float, np.float was
 removed from NumPy

---
 framework_python/rei/tensor/tensor_representation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index 0de4167..c9f91ce 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -71,9 +71,9 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
             if self._incidence_matrix_in is not None:
                 del self._incidence_matrix_in
             ho = self._current_homomorphism
-            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
+            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)
+            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
+            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
 
     def fill_tensors(self, i_e, i_n0, i_n1, i_w, val):
         self._weight_tensor[i_e, i_n1, i_n0] = i_w
-- 
2.43.0


From 50c5e566a35e419455a83e834d6123ef71e89f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 03/50] fix: query engine accepts queries with coroutines,
 without matches and run repeatedly

---
 framework_python/rei/query/query_engine.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index ab51e61..1a99731 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -27,6 +27,7 @@ class HierarchicalPrepositionQuery(GraphMonad):
                                                                             HypergraphEdge | SemanticValueNode) and traversal_statement(x))
 
     async def prefilter(self):
+        self.__prefilter = []
         await self.__bfs.execute(self.__start)
         return self.__prefilter
 
@@ -76,7 +77,7 @@ class HypergraphQueryEngine(HypergraphNode):
         prefilter = self.prefilter_queries()
         for i in prefilter:
             __tasks.extend(await i)
-        await asyncio.wait(__tasks)
+        await asyncio.gather(*__tasks)
         res = []
         __task_list = await self.task_result_queries_lists()
         for t in __task_list:
@@ -86,11 +87,4 @@ class HypergraphQueryEngine(HypergraphNode):
     def execute_all_queries(self):
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
-        tasks = []
-        for i in self.prefilter_queries():
-            tasks.extend(loop.run_until_complete(i))
-        loop.run_until_complete(asyncio.wait(tasks))
-        results = []
-        for i in self.__queries.values():
-            results.extend(loop.run_until_complete(i.get_list_results()))
-        return results
\ No newline at end of file
+        return loop.run_until_complete(self.execute())
\ No newline at end of file
-- 
2.43.0


From 2e9f702fb38373bfac54003c046adc0c15d6dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 04/50] fix: every traversal and search run works on its own
 fringe queue

---
 .../rei/foundations/hierarchical_traversal_strategies.py     | 5 ++---
 .../rei/foundations/hypergraph_traversal_strategies.py       | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 4aad6f9..ac43e4c 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -2,7 +2,6 @@ import asyncio
 import math
 
 import typing
-import copy
 from abc import ABC
 
 from rei.foundations.graph_monad import GraphVisitor
@@ -19,10 +18,10 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         self._ignore_root = ignore_root
 
     async def _setup_visit_algorithm(self, start: typing.Any,
-                                     fringe: asyncio.Queue = asyncio.Queue()) \
+                                     fringe: asyncio.Queue | None = None) \
             -> tuple[asyncio.Queue | asyncio.LifoQueue, list]:
         # Fringe setup
-        _fringe = copy.copy(fringe)
+        _fringe = asyncio.Queue() if fringe is None else fringe
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 880b7ea..6642df3 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -1,5 +1,4 @@
 import asyncio
-import copy
 import math
 import typing
 
@@ -100,8 +99,8 @@ class HypergraphTraversal(GraphVisitor):
                         _fringe.task_done()
             await self._traverse(_fringe, _task_list)
 
-    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = asyncio.Queue()):
-        _fringe = copy.copy(fringe)
+    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
+        _fringe = asyncio.Queue() if fringe is None else fringe
         await _fringe.put((start, 0))
         _fringe.task_done()
         # Task list
-- 
2.43.0


From 6bbee0c9f22aa1f2579235eac4e8c55870fb8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 05/50] fix: traversals, searches and factorization loop
 instead of recursing once per element

---
 .../rei/foundations/hierarchical_traversal_strategies.py    | 3 +--
 .../rei/foundations/hypergraph_traversal_strategies.py      | 3 +--
 framework_python/rei/foundations/query/search_elements.py   | 6 ++----
 framework_python/rei/hypergraph/factorization_operations.py | 5 +----
 4 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index ac43e4c..3c1432b 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -35,11 +35,10 @@ class HierarchicalTraversal(GraphVisitor, ABC):
                 _fringe.task_done()
 
     async def _traverse(self, _fringe, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
             _task_list.append(self._visitor_func(_next))
-            await self._traverse(_fringe, _task_list)
 
 
 class BreadthFirstHierarchicalTraversal(HierarchicalTraversal):
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 6642df3..0007962 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -59,7 +59,7 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
             match _next:
                 case HypergraphNode():
@@ -97,7 +97,6 @@ class HypergraphTraversal(GraphVisitor):
                     if __current_depth + 1 < self.max_depth:
                         await _fringe.put((_next.endpoint, __current_depth + 1))
                         _fringe.task_done()
-            await self._traverse(_fringe, _task_list)
 
     async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
         _fringe = asyncio.Queue() if fringe is None else fringe
diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 6b07a85..888defe 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -54,7 +54,7 @@ class QuerySearchSubElement(GraphQuery):
         super().__init__()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             if __next.qualified_name == self._query_def:
                 self._element_cache[__next.qualified_name] = __next
@@ -63,7 +63,6 @@ class QuerySearchSubElement(GraphQuery):
             for n in __next.get_subelements(lambda x: True):
                 await fringe.put(n)
                 fringe.task_done()
-            await self._traverse(fringe)
 
 
 class QuerySearchElement(GraphQuery):
@@ -73,7 +72,7 @@ class QuerySearchElement(GraphQuery):
         self.visited_set = set()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             self.visited_set.add(__next.uuid)
             if __next.qualified_name == self._query_def:
@@ -87,7 +86,6 @@ class QuerySearchElement(GraphQuery):
             if __next.parent is not None:
                 await fringe.put(__next.parent)
                 fringe.task_done()
-            await self._traverse(fringe)
 
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self.visited_set = set()
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 4a5bcd9..16163bd 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,7 +13,7 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next = await fringe.get()
             match __next:
                 case HypergraphNode():
@@ -30,9 +30,6 @@ class Factorization2Operation(GraphMonad):
                     for i in o_e:
                         await fringe.put(i.endpoint)
                         fringe.task_done()
-            await self.__traverse(fringe)
-        else:
-            return
 
     async def execute(self, start) -> list[asyncio.Future]:
         self.__relation_list = []
-- 
2.43.0


From 839a0337f3ec74eb7f710d9826a69602db6db198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 06/50] fix: relation traversal, factorization and search
 process each element once, also on cyclic graphs

---
 .../rei/foundations/hypergraph_traversal_strategies.py        | 4 ++++
 framework_python/rei/foundations/query/search_elements.py     | 2 +-
 framework_python/rei/hypergraph/factorization_operations.py   | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 0007962..be198fc 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -59,8 +59,12 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
+        _visited = set()
         while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
+            if _next in _visited:
+                continue
+            _visited.add(_next)
             match _next:
                 case HypergraphNode():
                     _next: HypergraphNode
diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 888defe..0991e08 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -83,7 +83,7 @@ class QuerySearchElement(GraphQuery):
                 if n.uuid not in self.visited_set:
                     await fringe.put(n)
                     fringe.task_done()
-            if __next.parent is not None:
+            if __next.parent is not None and __next.parent.uuid not in self.visited_set:
                 await fringe.put(__next.parent)
                 fringe.task_done()
 
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 16163bd..25c553c 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,8 +13,12 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
+        __visited = set()
         while not fringe.empty():
             __next = await fringe.get()
+            if __next in __visited:
+                continue
+            __visited.add(__next)
             match __next:
                 case HypergraphNode():
                     __next: HypergraphNode
-- 
2.43.0


From 47edeb65167ab2d23aaebba87fb41378b7cfc5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 07/50] fix: adding an element to one of its own descendants is
 rejected

---
 framework_python/rei/foundations/conceptual_item.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index fe2d838..76b01b1 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -85,8 +85,11 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
 
     def add_element(self, element):
         # Forbid hierarchy recursion
-        if element is self:
-            raise ErrorRecursiveHierarchy
+        __ancestor = self
+        while __ancestor is not None:
+            if element is __ancestor:
+                raise ErrorRecursiveHierarchy
+            __ancestor = __ancestor.parent
         # Add as unique element
         if element.uuid not in self._sub_elements:
             self._sub_elements[element.uuid] = element
-- 
2.43.0


From 9c4aa746f79f4d0ea5ae5c909a630d09bbe8ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 08/50] fix: names and depths of a whole subtree follow when it
 is moved or detached

---
 framework_python/rei/foundations/conceptual_item.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 76b01b1..02f90a4 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -108,7 +108,6 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 for e in element.parent.remove_element(uuid=element.uuid):            # Update all sub elements
                     e.update()
             element.parent = self
-            element._depth = self._depth + 1
             # Subelement count increment
             self._cnt_subelements += 1
             # All-ever created subelement count
@@ -123,7 +122,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 self._index_elements_by_name[id_name].pop(uuid)
                 # Invalidate parent
                 el.parent = None
-                el.update()
+                self.__update_element(el)
                 # Decrement element count
                 self._cnt_subelements -= 1
                 # Yield element
@@ -137,7 +136,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-                    el.update()
+                    self.__update_element(el)
                     # Decrement by each element
                     self._cnt_subelements -= 1
                     # Yield element
@@ -149,7 +148,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 # Invalidate element parent
                 el.parent = None
                 # Update tiemstamp etc.
-                el.update()
+                self.__update_element(el)
                 # Decrement element
                 self._cnt_subelements -= 1
                 # Yield element
@@ -163,6 +162,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         __fringe.put(element)
         while not __fringe.empty():
             __next: HierarchicalElement = __fringe.get()
+            __next._depth = 0 if __next.parent is None else __next.parent.depth + 1
             __next.update()
             for e in __next.get_subelements(lambda x: True):
                 __fringe.put(e)
-- 
2.43.0


From 3e2729fcd8572e394f8739a414b3b3cd65e66767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 09/50] fix: removal by a name and an identifier that do not
 match changes nothing

---
 framework_python/rei/foundations/conceptual_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 02f90a4..bf3b9d8 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -118,8 +118,8 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         if len(id_name) > 0:
             if uuid is not None:
-                el = self._sub_elements.pop(uuid)
                 self._index_elements_by_name[id_name].pop(uuid)
+                el = self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
                 self.__update_element(el)
-- 
2.43.0


From 239d7eee75072eae86453e6bf52eb28b81e86b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 10/50] fix: bulk addition and removal process every item

---
 framework_python/rei/foundations/conceptual_item.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index bf3b9d8..7e1f3a6 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -213,10 +213,11 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
 
 
     async def add_elements(self, elements: typing.Iterable[typing.Any]) -> asyncio.Future:
-        return asyncio.gather(self.add_element(x) for x in elements)
+        for x in elements:
+            self.add_element(x)
 
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
-        return asyncio.gather(*[self.remove_element(e[0], e[1]) for e in elements])
+        return [el for e in elements for el in self.remove_element(e[0], e[1])]
 
     def get_element_by_id_name(self, id_name: str) -> typing.Generator:
         tokens = id_name.split('/')
-- 
2.43.0


From d092aedc4d8e89758d53c9250f8ca8e3bddcb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 11/50] fix: a path whose first name is unknown finds nothing
 instead of failing

---
 framework_python/rei/foundations/conceptual_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 7e1f3a6..fdf9b18 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -230,7 +230,7 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
                 yield from []
         else:
             # Iterate all possible named elements
-            for v in self._index_elements_by_name[tokens[0]].values():
+            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
                 yield from v.get_element_by_id_name('/'.join(tokens[1:]))
 
     def update(self):
-- 
2.43.0


From c874e2e3b04499a396d09767ae6d1be160df7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 12/50] fix: path lookup also follows edges' relations, values
 and ports without failing

---
 .../rei/foundations/conceptual_item.py        | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index fdf9b18..e1e352a 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -156,6 +156,20 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
             else:
                 raise ErrorInvalidQuery
 
+    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
+        tokens = id_name.split('/')
+        if len(tokens) == 0:
+            raise InvalidQueryName
+        elif len(tokens) == 1:
+            if tokens[0] in self._index_elements_by_name:
+                yield from list(self._index_elements_by_name[tokens[0]].values())
+            else:
+                yield from []
+        else:
+            # Iterate all possible named elements
+            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
+                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
+
     def __update_element(self, element):
         import queue
         __fringe = queue.Queue()
@@ -219,20 +233,6 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
         return [el for e in elements for el in self.remove_element(e[0], e[1])]
 
-    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
-        tokens = id_name.split('/')
-        if len(tokens) == 0:
-            raise InvalidQueryName
-        elif len(tokens) == 1:
-            if tokens[0] in self._index_elements_by_name:
-                yield from list(self._index_elements_by_name[tokens[0]].values())
-            else:
-                yield from []
-        else:
-            # Iterate all possible named elements
-            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
-                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
-
     def update(self):
         self._update_timestamp()
         self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])
-- 
2.43.0


From 039f202fe1098f6d11f77ed347e96c44926e6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 13/50] fix: removal by name keeps the name index right when
 its result is read only partly

---
 framework_python/rei/foundations/conceptual_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index e1e352a..c715e92 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -129,10 +129,10 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 yield el
             else:
                 __tmp = [x for x in self._index_elements_by_name[id_name].values()]
-                # Reset indices
-                self._index_elements_by_name[id_name] = {}
                 for v in __tmp:
                     el = self._sub_elements.pop(v.uuid)
+                    # Reset index
+                    self._index_elements_by_name[id_name].pop(v.uuid)
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-- 
2.43.0


From cf559db82014851a72d52b2a2f9cc7fe37cb9bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 14/50] fix: removing a child of an edge detaches it and yields
 it

---
 framework_python/rei/hypergraph/base_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 9b3614b..a425a70 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -147,12 +147,13 @@ class HypergraphEdge(HypergraphElement):
         super().add_element(element)
         match element:
             case HypergraphRelation():
-                self._sub_relations[element.cid] = element
+                self._sub_relations[element.uuid] = element
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         _el = super().remove_element(id_name, uuid)
         for v in _el:
-            yield from self._sub_relations.pop(v.cid)
+            self._sub_relations.pop(v.uuid, None)
+            yield v
 
     @property
     def sub_relations(self):
-- 
2.43.0


From 0207a158e3e61b5568c55afb157e4dd76993585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 15/50] fix: removing a child of a relation removes the
 requested one

---
 framework_python/rei/hypergraph/base_elements.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index a425a70..f372f5c 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -116,9 +116,10 @@ class HypergraphRelation(HierarchicalElement):
             element.connect(self)
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
-        el = self._sub_elements.pop(self.endpoint.uuid)
-        self._endpoint = None
-        yield el
+        for el in super().remove_element(id_name, uuid):
+            if el is self._endpoint:
+                self._endpoint = None
+            yield el
 
 
 class HypergraphEdge(HypergraphElement):
-- 
2.43.0


From ad2aa762097ae653fd7937b1e45d9e52f2f1d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 16/50] fix: disconnect removes the port from the element

---
 framework_python/rei/hypergraph/base_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index f372f5c..45ca037 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -51,7 +51,8 @@ class HypergraphElement(ConceptualItem):
 
     def disconnect(self, el: HierarchicalElement):
         p = self._ports.pop(el.uuid)
-        self.remove_element(id_name=p.id_name, uuid=p.uuid)
+        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):
+            pass
 
     @property
     def sub_ports(self):
-- 
2.43.0


From b0e379e48e1a014b32989b1a8fdd8feeaa5cc9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 17/50] fix: elements are complete before they become reachable
 through their parent

---
 framework_python/rei/hypergraph/base_elements.py | 4 ++--
 framework_python/rei/query/query_engine.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 45ca037..063a055 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -33,10 +33,10 @@ class HypergraphElement(ConceptualItem):
 
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
-        super().__init__(id_name, uuid, qualified_name, clock, parent)
         self._id_generation = Sha3UniqueIdentifierGenerator(id_name, HypergraphElement.identification_generation)
         # Ports to deduce associated relations
         self._ports: dict[bytes, HypergraphPort] = {}
+        super().__init__(id_name, uuid, qualified_name, clock, parent)
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
@@ -130,8 +130,8 @@ class HypergraphEdge(HypergraphElement):
 
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
-        super().__init__(id_name, uuid, qualified_name, clock, parent)
         self._sub_relations = {}
+        super().__init__(id_name, uuid, qualified_name, clock, parent)
 
     def unary_connect(self, endpoint: HypergraphElement, weight: ValueNode,
                       direction: EnumRelationDirection = EnumRelationDirection.BIDIRECTIONAL,
diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index 1a99731..1753bc8 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -51,8 +51,8 @@ class HypergraphQueryEngine(HypergraphNode):
 
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None) -> None:
-        super().__init__(id_name, uuid, qualified_name, clock, parent)
         self.__queries = dict()
+        super().__init__(id_name, uuid, qualified_name, clock, parent)
 
     def add_query(self, name: str, query):
         self.__queries[name] = query
-- 
2.43.0


From 1409f5ade417811cddf806c68b958538f44e86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 18/50] fix: a rejected connection leaves no port behind on the
 endpoint

---
 framework_python/rei/hypergraph/base_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 063a055..e266502 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -140,10 +140,10 @@ class HypergraphEdge(HypergraphElement):
         rel = HypergraphRelation(self._id_generation.generate_uid(endpoint), id_name,
                                  '/'.join([self.id_name, id_name]), endpoint, weight, direction=direction,
                                  semantic_value_node=semantic_value_node)
+        self.add_element(rel)
         endpoint.connect(rel)
         if semantic_value_node is not None:
             rel.add_element(semantic_value_node)
-        self.add_element(rel)
 
     def add_element(self, element: HierarchicalElement):
         super().add_element(element)
-- 
2.43.0


From 278dc55096ea51d456ef9c04ff851da0954865e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 19/50] fix: a rejected port does not replace the registered
 one

---
 framework_python/rei/hypergraph/base_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index e266502..4ddb1d6 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -46,8 +46,8 @@ class HypergraphElement(ConceptualItem):
         port_name = '.'.join([self.id_name, "port", el.id_name])
         p = HypergraphPort(self._id_generation.generate_uid(el), port_name,
                            port_name, el, self)
-        self._ports[el.uuid] = p
         self.add_element(p)
+        self._ports[el.uuid] = p
 
     def disconnect(self, el: HierarchicalElement):
         p = self._ports.pop(el.uuid)
-- 
2.43.0


From 32a4c385f77ec6605d3dbe5384b3b42c1524a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 20/50] fix: stamped qualified names are text, not one-element
 tuples

---
 framework_python/rei/factories/abstract_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/abstract_factory.py b/framework_python/rei/factories/abstract_factory.py
index 84bade4..f1b668a 100644
--- a/framework_python/rei/factories/abstract_factory.py
+++ b/framework_python/rei/factories/abstract_factory.py
@@ -20,4 +20,4 @@ class AbstractElementFactory():
         return f"{name}.{self._clock.get_time_ns()}"
 
     def get_stamped_qualified_name(self, id_name: str, parent: HierarchicalElement):
-        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}",
+        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}"
-- 
2.43.0


From ea5e02aa9731574b1608370bb9b397bbd7d148cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 21/50] fix: outgoing nodes of a two-factor edge get the second
 direction

---
 framework_python/rei/factories/foundation_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 0f34937..8ed4b4b 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -67,7 +67,7 @@ class HypergraphFactory(AbstractElementFactory):
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-            he.unary_connect(n, v, direction[0])
+            he.unary_connect(n, v, direction[1])
         return he
 
     def connect_dir_edges(self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
-- 
2.43.0


From 1dc3964347820a4b945adb680094af86319516a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 22/50] fix: an edge with a wrong number of values is rejected
 before it is created

---
 framework_python/rei/factories/foundation_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 8ed4b4b..63c7039 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -39,13 +39,13 @@ class HypergraphFactory(AbstractElementFactory):
                       direction: EnumRelationDirection = EnumRelationDirection.BIDIRECTIONAL,
                       values: list[ValueNode] | None = None):
         uuid: bytes = self.unique_identifier.generate_uid(edge_name)
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_values = zip(nodes, len(nodes)*[None])
         else:
             if len(values) != len(nodes):
                 raise ErrorInsufficientValues
             node_values = zip(nodes, values)
+        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_values:
             he.unary_connect(n, v, direction)
         return he
@@ -55,7 +55,6 @@ class HypergraphFactory(AbstractElementFactory):
             out_dir_nodes: list[HypergraphNode], direction: tuple[EnumRelationDirection, EnumRelationDirection],
             values: list[ValueNode] | None = None):
         uuid: bytes = self.unique_identifier.generate_uid(edge_name)
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])
             node_out_values = zip(out_dir_nodes, (len(out_dir_nodes))*[None])
@@ -64,6 +63,7 @@ class HypergraphFactory(AbstractElementFactory):
                 raise ErrorInsufficientValues
             node_in_values = zip(in_dir_nodes, values[:len(in_dir_nodes)])
             node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])
+        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-- 
2.43.0


From 7b467a63729b6f4f88ebca5b4a901d68b6f1ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 23/50] fix: identifiers of edges, values, relations and ports
 depend on what contains them

---
 framework_python/rei/factories/foundation_factory.py  | 11 ++++++-----
 .../semantics/cognitive_entity_semantic_factory.py    |  2 +-
 framework_python/rei/hypergraph/base_elements.py      |  4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 63c7039..039e18a 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -29,7 +29,7 @@ class HypergraphFactory(AbstractElementFactory):
     #
 
     def create_hyperedge(self, parent: HypergraphNode, edge_name: str):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid(':'.join([parent.qualified_name, edge_name]))
         he = HypergraphEdge(edge_name, uuid,
                             self.get_stamped_qualified_name(edge_name, parent),
                             parent.clock, parent)
@@ -38,7 +38,7 @@ class HypergraphFactory(AbstractElementFactory):
     def connect_nodes(self, container: HypergraphNode, edge_name: str, nodes: list[HypergraphNode],
                       direction: EnumRelationDirection = EnumRelationDirection.BIDIRECTIONAL,
                       values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid(':'.join([container.qualified_name, edge_name]))
         if values is None:
             node_values = zip(nodes, len(nodes)*[None])
         else:
@@ -54,7 +54,7 @@ class HypergraphFactory(AbstractElementFactory):
             self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
             out_dir_nodes: list[HypergraphNode], direction: tuple[EnumRelationDirection, EnumRelationDirection],
             values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid(':'.join([container.qualified_name, edge_name]))
         if values is None:
             node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])
             node_out_values = zip(out_dir_nodes, (len(out_dir_nodes))*[None])
@@ -85,7 +85,7 @@ class HypergraphFactory(AbstractElementFactory):
         :param nodes: endpoint, direction, value node, semantiv calue node
         :return:
         """
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid(':'.join([container.qualified_name, edge_name]))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n, dir, v, sv in nodes:
             he.unary_connect(n, v, dir, sv)
@@ -96,11 +96,12 @@ class HypergraphFactory(AbstractElementFactory):
         return he
 
     def create_value(self, parent: HypergraphNode | None, value_name: str, values: list[typing.Any] = None):
-        uuid: bytes = self.unique_identifier.generate_uid(value_name)
         if parent is not None:
+            uuid: bytes = self.unique_identifier.generate_uid('='.join([parent.qualified_name, value_name]))
             val = ValueNode(uuid, value_name, self.get_stamped_qualified_name(value_name, parent), values)
             parent.add_element(val)
         else:
+            uuid: bytes = self.unique_identifier.generate_uid(value_name)
             val = ValueNode(uuid, value_name, '/'.join([value_name])+f".{self._clock.get_time_ns()}", values)
         return val
 
diff --git a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
index b6bb936..63227bc 100644
--- a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
+++ b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
@@ -21,7 +21,7 @@ class CognitiveEntitySemanticFactory(AbstractElementFactory):
         if len(attr) == 0:
             raise ErrorInsufficientValues
         element_type = ''.join(raw_element_type.lower().strip().split('_'))
-        uuid = self.unique_identifier.generate_uid(id_name)
+        uuid = self.unique_identifier.generate_uid('/'.join([parent.qualified_name, id_name]))
         el = None
         match element_type:
             case 'cognitiveentity':
diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 4ddb1d6..2b2b2f0 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -33,14 +33,14 @@ class HypergraphElement(ConceptualItem):
 
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
-        self._id_generation = Sha3UniqueIdentifierGenerator(id_name, HypergraphElement.identification_generation)
+        self._id_generation = Sha3UniqueIdentifierGenerator(uuid.hex(), HypergraphElement.identification_generation)
         # Ports to deduce associated relations
         self._ports: dict[bytes, HypergraphPort] = {}
         super().__init__(id_name, uuid, qualified_name, clock, parent)
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
-        return f"{x}/{y.id_name}"
+        return f"{x}/{y.uuid.hex()}"
 
     def connect(self, el: HierarchicalElement):
         port_name = '.'.join([self.id_name, "port", el.id_name])
-- 
2.43.0


From 333be4de4ec334634525aedbef71fc9527f88da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 24/50] fix: decoding a graph keeps the direction of its
 relations

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 13532c5..6b8a443 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -2,6 +2,7 @@
 from rei.factories.foundation_factory import HypergraphFactory
 from rei.foundations.clock import MetaClock
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
+from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
 
 import cbor2
@@ -70,7 +71,8 @@ class GraphTensorCbor(object):
             edges.append((e[0], e[2]))
         # Relation
         for rel in frag[2]:
-            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]])
+            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
+                                    direction=EnumRelationDirection(rel[3]))
             _elements[rel[5]].add_element(_el)
         # Value nodes
         values = []
-- 
2.43.0


From b4761bcfeecbc6a2389317ffd05ba2d0e324e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 25/50] fix: decoded value nodes get their qualified name as
 text

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 6b8a443..27ecbd6 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -77,7 +77,7 @@ class GraphTensorCbor(object):
         # Value nodes
         values = []
         for v in frag[3]:
-            _el = ValueNode(v[0], v[1], v[4], v[5])
+            _el = ValueNode(v[0], v[1], v[4].decode('utf-8'), v[5])
             values.append((v[0], v[2]))
             _elements[v[3]].add_element(_el)
         # Value tensor
-- 
2.43.0


From 4205f015b7704a8f35e58f676744e5f517b54969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 26/50] fix: encoding a graph again does not repeat what an
 earlier message held

---
 .../rei/hypergraph/encoding/graph_tensor_icon.py           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 8a05bfb..639d070 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -28,6 +28,11 @@ class CoordinateObjectTransformer(GraphMonad):
     async def setup_homomorphism(self, context: HypergraphNode):
         self._index_homomorphism = IndexHomomorphismGraphTensor(True)
 
+    def _clear_messages(self):
+        self._msg_value_tensor = []
+        self._msg_incidence_out = []
+        self._msg_incidence_in = []
+
     async def reset(self, context: HypergraphNode):
         self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)
         return await self._index_homomorphism.execute(context)
@@ -41,6 +46,7 @@ class CoordinateObjectTransformer(GraphMonad):
     async def execute(self, start: HypergraphNode | None = None) -> list[asyncio.Future]:
         if start is None:
             start = self._context
+        self._clear_messages()
         q = queue.Queue()
         tr = HypergraphTraversal(
             lambda x: q.put(x), lambda x: True, SumNorm(), self._index_homomorphism, self.repr_depth)
@@ -71,6 +77,7 @@ class CoordinateObjectTransformer(GraphMonad):
         return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]
 
     def msg_relation_index_list(self):
+        self._msg_relations = []
         for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):
             for rel in el:
                 rel: HypergraphRelation
-- 
2.43.0


From 5524a41648c80d27665cbd5d34489df5f8dacb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 27/50] fix: replacing the values of a value node updates its
 dimension and copies the list

---
 framework_python/rei/hypergraph/value_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index a6d68cd..f18afe5 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -26,7 +26,8 @@ class ValueNode(HierarchicalElement):
         self._values[i] = arg
 
     def update_values(self, arg):
-        self._values = arg
+        self._values = [x for x in arg]
+        self.dim = len(self._values)
 
     def __getitem__(self, i, /):
         return self._values[i]
-- 
2.43.0


From 0ff91caa18aedad55afa32602d58e02f1d97e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 28/50] fix: relation factorization reads bidirectional
 relations both ways and skips one-sided edges

---
 framework_python/rei/hypergraph/factorization_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 25c553c..8c1c41e 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -84,14 +84,14 @@ class RelationFactorization2SubsetOperation(GraphMonad):
                 if __rel.parent.uuid not in self.incoming_relations:
                     self.incoming_relations[__rel.parent.uuid] = []
                 self.incoming_relations[__rel.parent.uuid].append(__rel)
-            elif __rel.direction == EnumRelationDirection.OUTWARDS:
+            if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                 if __rel.parent.uuid not in self.outgoing_relations:
                     self.outgoing_relations[__rel.parent.uuid] = []
                 self.outgoing_relations[__rel.parent.uuid].append(__rel)
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
-                for o_e in self.outgoing_relations[k]:
+                for o_e in self.outgoing_relations.get(k, []):
                     if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
-- 
2.43.0


From 759a56c6d80f9e29ba642df76353f28305f4f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 29/50] fix: a graph encoded from a node that has a parent can
 be decoded

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 27ecbd6..73d9a9b 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -58,7 +58,7 @@ class GraphTensorCbor(object):
             _el = HypergraphNode(n[1], n[0], n[4].decode('utf-8'), self.__clock)
             # Add to cache
             _elements[n[0]] = _el
-            if n[3] == 0:
+            if n[3] not in _elements:
                 _root = _el
             else:
                 _elements[n[3]].add_element(_el)
-- 
2.43.0


From 5e8f41e2e68b757218b41457f162c425ac075b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 30/50] fix: decoded relations are connected to the ports of
 their endpoints

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 73d9a9b..0942da8 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -74,6 +74,7 @@ class GraphTensorCbor(object):
             _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
                                     direction=EnumRelationDirection(rel[3]))
             _elements[rel[5]].add_element(_el)
+            _elements[rel[4]].connect(_el)
         # Value nodes
         values = []
         for v in frag[3]:
-- 
2.43.0


From adec7f6bdee6802f1504e2b399ac5f543fd57bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 31/50] fix: the encoder lists the elements of the context it
 was last given

---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 639d070..08c8477 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -34,6 +34,7 @@ class CoordinateObjectTransformer(GraphMonad):
         self._msg_incidence_in = []
 
     async def reset(self, context: HypergraphNode):
+        self._context = context
         self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)
         return await self._index_homomorphism.execute(context)
 
-- 
2.43.0


From 64c0d1f1af4e6b2820037aa6fdb6465d2c17fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 32/50] fix: a referenced geometry without an SDF form no
 longer breaks the export

---
 framework_python/rei/format/phys/solid_geometry_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index ae6dffb..bb0c95d 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -56,7 +56,8 @@ def extract_geometry_element(element):
                 for __g in g.get_subelements(lambda x: isinstance(x, GeometryNode)):
                     el_top_geom = etree.Element("geometry")
                     el_geom = encode_typegeometry_element(__g)
-                    el_top_geom.append(el_geom)
+                    if el_geom is not None:
+                        el_top_geom.append(el_geom)
                     yield el_top_geom
 
 
-- 
2.43.0


From cf0f8d4287d37418351f9d96e63d8ca771125870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 33/50] fix: links with several visual nodes keep the material
 of each

---
 framework_python/rei/format/phys/solid_geometry_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index bb0c95d..ba01a35 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -106,7 +106,7 @@ def encode_geometry_element(cont_node, prefix=""):
         mat = [x for x in n.get_subelements(lambda x: isinstance(x, VisualMaterial))]
         if len(mat) != 0:
             __sem_visual.extend(geometries)
-            __sem_material = ({i: mat[0] for i in geometries})
+            __sem_material.update({i: mat[0] for i in geometries})
         else:
             __sem_collision.extend(geometries)
     # Visual geometry setup
-- 
2.43.0


From c3e3903316b0e9bf6f2d116a14ee1076af04d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 34/50] fix: a polyhedron with two values is not exported as a
 box without a size

---
 framework_python/rei/format/phys/solid_geometry_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index ba01a35..0746117 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -28,7 +28,7 @@ def encode_typegeometry_element(e: GeometryNode) -> etree.Element:
                 el_radii.text = ' '.join([str(x) for x in  e["values"]])
                 el_geom.append(el_radii)
         case PolyhedronGeometry():
-            if 1 <= len(e["values"]) <= 3:
+            if len(e["values"]) in (1, 3):
                 el_geom = etree.Element("box")
                 el_size = etree.Element("size")
                 match len(e["values"]):
-- 
2.43.0


From f38978477544d71e094eb8b11a4c29db3e5bd37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 35/50] fix: translational joints are exported as prismatic

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 6c06879..1cee0ef 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -108,6 +108,8 @@ def __encode_joint_type(joint_type: str):
             return "fixed"
         case "rev":
             return "revolute"
+        case "tr":
+            return "prismatic"
     return "fixed"
 
 
-- 
2.43.0


From 8eeec993bc1562a813d24d2c9b374993a1005319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 36/50] fix: exporting a link with a connection that is no
 joint does not fail

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 1cee0ef..d68803d 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -53,7 +53,7 @@ def __obtain_relative_frame_name(node: HypergraphNode):
         # Normal
         x: HypergraphPort
         __rel: HypergraphRelation = x.endpoint
-        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)))
+        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)), None)
         if sub_el is not None:
             if __rel.direction == EnumRelationDirection.OUTWARDS:
                 e: HypergraphEdge = x.endpoint.parent
-- 
2.43.0


From d848b776ac458df9d06d1a6501884c2ab8eed370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 37/50] fix: exporting a jointed link outside any kinematic
 graph does not fail

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index d68803d..632c296 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -61,7 +61,7 @@ def __obtain_relative_frame_name(node: HypergraphNode):
                 if len(incom) > 0:
                     relative_frame_name = sub_el.id_name
                     return relative_frame_name
-            else:
+            elif parent_kin_graph is not None and parent_kin_graph.parent is not None:
                 # We are instantiating a reference
                 _, con_kin_graph = get_parent_kinematic_graph(parent_kin_graph.parent)
                 if con_kin_graph is not None:
-- 
2.43.0


From 45466913811c2932801878bd41bc8fe9a764444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 38/50] fix: cylinder inertia reads radius and length in the
 order the export does

---
 framework_python/rei/format/phys/inertia_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index b0948c4..87e6ec6 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -56,8 +56,8 @@ def encode_inertia_element(element):
 
 
 def calc_cylinder_inertia(mass: float, geom: CylinderGeometry):
-    l = geom['values'][0]
-    r = geom['values'][1]
+    r = geom['values'][0]
+    l = geom['values'][1]
     ixy = 1.0/12.0*mass*(3*r*r+ l*l)
     izz = 0.5*mass*r*r
     return [ixy, ixy, izz, 0.0, 0.0, 0.0]
-- 
2.43.0


From 6f040c49dd96685863481fa93e506c4bf8a27c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 39/50] fix: ellipsoids with three radii get an inertia

---
 framework_python/rei/format/phys/inertia_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index 87e6ec6..90f1aab 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -67,5 +67,7 @@ def calc_ellipsoid_inertia(mass: float, geom: EllipsoidGeometry):
         r = geom['values'][0]
         ixyz = 2.0/5.0*mass*r*r
         return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]
+    a, b, c = geom['values']
+    return [1.0/5.0*mass*(b*b + c*c), 1.0/5.0*mass*(a*a + c*c), 1.0/5.0*mass*(a*a + b*b), 0.0, 0.0, 0.0]
 
 
-- 
2.43.0


From c5abb059d3a7eeb3b40df4674ef9077b8d791ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 40/50] fix: the library no longer imports a helper from its
 tests

---
 framework_python/rei/format/common_util.py          | 13 +++++++++++++
 .../rei/format/mapping/cognilang_sdf_icon.py        |  2 +-
 .../phys/kinematics/kinematic_semantic_context.py   |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)
 create mode 100644 framework_python/rei/format/common_util.py

diff --git a/framework_python/rei/format/common_util.py b/framework_python/rei/format/common_util.py
new file mode 100644
index 0000000..3e71b05
--- /dev/null
+++ b/framework_python/rei/format/common_util.py
@@ -0,0 +1,13 @@
+
+import typing
+
+def join_w_separator(l: typing.List[str], separator: str="") -> str:
+    return separator.join(l)
+
+
+def join_w_prefix_separator(l: typing.List[str], separator: str="", prefix=""):
+    if len(prefix) == 0:
+        return join_w_separator(l, separator)
+    _s = [prefix]
+    _s.extend([x for x in l])
+    return separator.join(_s)
diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 9117718..63a6194 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -10,7 +10,7 @@ from rei.format.semantics.CognitiveEntity import KinematicJoint, KinematicLink,
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
 from rei.hypergraph.factorization_operations import RelationFactorization2SubsetOperation
 from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine
-from test.common.common_util import join_w_prefix_separator
+from rei.format.common_util import join_w_prefix_separator
 
 
 class CognilangSdfIcon(CognitiveIcon):
diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 632c296..27e1151 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -8,7 +8,7 @@ from lxml import etree
 from rei.hypergraph.base_elements import HypergraphPort, HypergraphNode, HypergraphEdge, HypergraphRelation
 from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.query.query_engine import HierarchicalPrepositionQuery
-from test.common.common_util import join_w_separator, join_w_prefix_separator
+from rei.format.common_util import join_w_separator, join_w_prefix_separator
 
 __DEFAULT_RIGID_TRANSFORMATION = [0.0, 0.0, 0.0, 0.0, 0.0, 0.0]
 __REI_KINEMATIC_ELEMENT_SEPARATOR = '.'
-- 
2.43.0


From cb242274735f1b89b58163351aa98f7c47f98e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 41/50] fix: projected entropy counts zero eigenvalues as zero
 instead of NaN

---
 framework_python/rei/tensor/tensor_representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index c9f91ce..79f4c33 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -49,7 +49,7 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
 
     def entropy_projected_vector(self):
         v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])
-        return -v*np.log2(v)
+        return -v*np.nan_to_num(np.log2(v), neginf=0, posinf=0)
 
     def entropy_projected(self):
         return np.sum(self.entropy_projected_vector())
-- 
2.43.0


From 8aadec2f094f2a0a95a9ba3e0b41702b85b6af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 42/50] fix: a repeated search answers for the current
 hierarchy and start, not from a cache by name

---
 framework_python/rei/foundations/query/search_elements.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 0991e08..2b77c5b 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -13,7 +13,6 @@ class GraphQuery(GraphMonad, ABC):
         super().__init__()
         self._query_def = ""
         self._result = []
-        self._element_cache = {}
 
     def _setup_query(self, fringe: asyncio.Queue = asyncio.Queue()):
         _fringe = copy.copy(fringe)
@@ -38,9 +37,6 @@ class GraphQuery(GraphMonad, ABC):
 
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self._result = []
-        if self.query_def in self._element_cache:
-            self._result = [self._element_cache[self.query_def]]
-            return []
         __fringe, _task_list = self._setup_query()
         await __fringe.put(start)
         __fringe.task_done()
@@ -57,7 +53,6 @@ class QuerySearchSubElement(GraphQuery):
         while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             if __next.qualified_name == self._query_def:
-                self._element_cache[__next.qualified_name] = __next
                 self._result.append(__next)
                 return
             for n in __next.get_subelements(lambda x: True):
@@ -76,7 +71,6 @@ class QuerySearchElement(GraphQuery):
             __next: HypergraphElement = await fringe.get()
             self.visited_set.add(__next.uuid)
             if __next.qualified_name == self._query_def:
-                self._element_cache[__next.qualified_name] = __next
                 self._result.append(__next)
                 return
             for n in __next.get_subelements(lambda x: True):
-- 
2.43.0


From df395316cf66a08681767be1e0e0e20859444d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 43/50] fix: joint relations carry their transformation as a
 value node, as traversals expect

---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 782b77c..abc36e0 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -86,7 +86,8 @@ class CognilangParserFileIcon(CogniLangVisitor):
         if ctx.rigid_transformation() is not None:
             _sv_trans, _translation, _rotation = self.__extract_rigid_transformation_element(ctx, __semantic_value_node)
             # Set rigid transformation as a value
-            values = [_translation, _rotation]
+            values = self.__factory.create_value(
+                None, '_'.join([__joint_name, 'transformation']), [_translation, _rotation])
         # Extract rigid transformation
         return __endpoint, __direction, values, __semantic_value_node
 
-- 
2.43.0


From e6e142dd9bf7d24f8707719cce7c4d52f6213f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 44/50] fix: a geometry referenced more than once is connected
 to every reference

---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index abc36e0..973d79d 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -141,6 +141,8 @@ class CognilangParserFileIcon(CogniLangVisitor):
             ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)
             ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
             self._reference_cache[_inferred_name] = ref_e
+        else:
+            self._reference_cache[_inferred_name].unary_connect(container_node, None, EnumRelationDirection.INWARDS)
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
         yield from self.__extract_float_vector_values(ctx.float_vector())
-- 
2.43.0


From da8492b575f18c8a052d07e68d0bf2d5749c88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 45/50] fix: an encoder reset to another context drops the
 tensor entries of the former one

---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 08c8477..87ae1bd 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -35,6 +35,8 @@ class CoordinateObjectTransformer(GraphMonad):
 
     async def reset(self, context: HypergraphNode):
         self._context = context
+        # Tensor entries of a previous context refer to the previous index
+        self._clear_messages()
         self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)
         return await self._index_homomorphism.execute(context)
 
-- 
2.43.0


From 0172d5b1bf6b425044fc5122d083af94fb7f76a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 46/50] fix: mesh geometries of the language can be built

---
 framework_python/rei/format/semantics/CognitiveEntity.py    | 6 ++++++
 .../format/semantics/cognitive_entity_semantic_factory.py   | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/semantics/CognitiveEntity.py b/framework_python/rei/format/semantics/CognitiveEntity.py
index fe6d824..ff6171e 100644
--- a/framework_python/rei/format/semantics/CognitiveEntity.py
+++ b/framework_python/rei/format/semantics/CognitiveEntity.py
@@ -82,6 +82,12 @@ class PolyhedronGeometry(GeometryNode):
     def __init__(self, uuid: bytes, id_name: str, progenitor_qualified_name: str, parent, attr: dict, values):
         super().__init__(uuid, id_name, progenitor_qualified_name, parent, attr, values)
 
+
+class MeshGeometry(GeometryNode):
+
+    def __init__(self, uuid: bytes, id_name: str, progenitor_qualified_name: str, parent, attr: dict, values):
+        super().__init__(uuid, id_name, progenitor_qualified_name, parent, attr, values)
+
 #
 # Material
 #
diff --git a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
index 63227bc..dacbc1b 100644
--- a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
+++ b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
@@ -3,7 +3,7 @@ import typing
 from rei.factories.abstract_factory import AbstractElementFactory, ErrorInsufficientValues
 from rei.format.semantics.CognitiveEntity import CognitiveEntity, KinematicGraphDefinition, KinematicLink, \
     KinematicJoint, CylinderGeometry, PolyhedronGeometry, EllipsoidGeometry, VisualMaterial, RigidTransformation, \
-    InertiaElement
+    InertiaElement, MeshGeometry
 from rei.foundations.clock import MetaClock
 
 
@@ -42,6 +42,9 @@ class CognitiveEntitySemanticFactory(AbstractElementFactory):
             case 'ellipsoidgeometry':
                 el = EllipsoidGeometry(uuid, id_name, self.get_stamped_qualified_name(id_name, parent),
                                          parent, attr, values)
+            case 'meshgeometry':
+                el = MeshGeometry(uuid, id_name, self.get_stamped_qualified_name(id_name, parent),
+                                  parent, attr, values)
             case 'material':
                 el = VisualMaterial(uuid, id_name, self.get_stamped_qualified_name(id_name, parent), parent, attr)
             case 'rigidtransformation':
-- 
2.43.0


From 9d1a8181cde7da1d56a2b2f7f416c8e7dc9b4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 47/50] fix: a visual node without a name is not called None

---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 973d79d..cc48d67 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -267,7 +267,10 @@ class CognilangParserFileIcon(CogniLangVisitor):
 
     def visitVisual_node(self, ctx: CogniLangParser.Visual_nodeContext):
         _parent = self.__generate_parent_node_name(ctx)
-        _name = str(ctx.ID())
+        if ctx.ID() is None:
+            _name = "/".join([_parent, "visual"])
+        else:
+            _name = str(ctx.ID())
         # Create node
         _el = self.__factory.generate_node(_name, self._element_cache[_parent])
         self._element_cache[_el.qualified_name] = _el
-- 
2.43.0


From b5d8219df1a00ecf2489105814378dceb85891ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 48/50] fix: a vector field may be a reference to a parameter

---
 .../rei/format/mapping/cognilang_file_icon.py  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index cc48d67..802c58e 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -145,16 +145,22 @@ class CognilangParserFileIcon(CogniLangVisitor):
             self._reference_cache[_inferred_name].unary_connect(container_node, None, EnumRelationDirection.INWARDS)
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
-        yield from self.__extract_float_vector_values(ctx.float_vector())
+        if ctx.ref_() is not None:
+            yield from self.__extract_parameter_values(ctx.ref_())
+        else:
+            yield from self.__extract_float_vector_values(ctx.float_vector())
+
+    def __extract_parameter_values(self, ref: CogniLangParser.Ref_Context):
+        __ref_name = str(ref.ID())
+        p = next(self.__parameters.get_subelements(
+            lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
+        for _p in p.get_values():
+            yield float(_p)
 
     def __extract_float_vector_values(self, ctx: CogniLangParser.Float_vectorContext, parent=None):
         for x in ctx.value():
             if x.ref_() is not None:
-                __ref_name = str(x.ref_().ID())
-                p = next(self.__parameters.get_subelements(
-                    lambda x: isinstance(x, ValueNode) and x.id_name == __ref_name))
-                for _p in p.get_values():
-                    yield float(_p)
+                yield from self.__extract_parameter_values(x.ref_())
             else:
                 yield float(str(x.FLOAT()))
 
-- 
2.43.0


From 49d04219c1f479ba04148c18cd7fca987e23ea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:31 +0000
Subject: [PATCH 49/50] fix: names within nested sub-graphs keep the separator
 of the prefix

---
 framework_python/rei/format/mapping/cognilang_sdf_icon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 63a6194..c5187af 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -77,7 +77,7 @@ class CognilangSdfIcon(CognitiveIcon):
 
     async def encode_sub_graph(self, joint, prefix):
         self.__sub_engine.clear()
-        prefix_t1 = prefix + joint.parent.id_name
+        prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)
         link_query = HierarchicalPrepositionQuery(
             joint.endpoint, lambda x: isinstance(x, KinematicLink), lambda x: True)
         joint_query = HierarchicalPrepositionQuery(
-- 
2.43.0


From fbc5084e94e280aafdaca56bc9c2766ba592a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:58 +0000
Subject: [PATCH 50/50] fix: place a joint without pose at its parent instead
 of at its own child

---
 .../format/phys/kinematics/kinematic_semantic_context.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 27e1151..233892b 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -159,5 +159,11 @@ def joint_base_element_endpoint(j0, j1, joint_name: str, child_endpoint_name, pr
             [j0.endpoint.id_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)
         # Add pose to joint
         joint_el.append(el_joint_pose)
+    if joint_el.find("pose") is None:
+        # A joint without pose is at its parent: SDF would place it relative to its child, which is relative to the joint
+        el_joint_pose = __default_rigid_transformation_element()
+        el_joint_pose.attrib['relative_to'] = join_w_prefix_separator(
+            [j0.endpoint.id_name], __REI_KINEMATIC_ELEMENT_SEPARATOR, prefix)
+        joint_el.append(el_joint_pose)
     # Return joint element
     return joint_el
-- 
2.43.0


From 43b6483726ab76c8c17b611e8809de7f8a3331e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 01/50] fix: a transition to state 0 must not be silently
 overwritten

Automaton.add_edge tested the target for truthiness, so an existing
transition leading to state 0 was replaced instead of being refused (and
the in-adjacencies of an IncidenceAutomaton were left inconsistent).
---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index ab74894..27a7d1b 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -89,7 +89,7 @@ class Automaton(DirectedGraph):
         """
         assert q is not None
         assert r is not None
-        if self.delta(q, a):
+        if self.delta(q, a) is not BOTTOM:
             return (None, False)
         self.adjacencies[q][a] = r
         return (EdgeDescriptor(q, r, a), True)
-- 
2.43.0


From d1cbb6429401a66918feea60449c1b76327fdf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 02/50] fix: make_node_automaton looks finality up by state
 name

pmap_vfinal maps the names used in the transitions, like in
make_automaton, but it was queried with the new vertex descriptor, so
named final states were lost.
---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 714eda4..a6e93de 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -324,7 +324,7 @@ def make_node_automaton(
     for vertex_name in vertex_names:
         a = pmap_vlabel[vertex_name]
         u = g.add_vertex(a)
-        if pmap_vfinal[u]:
+        if pmap_vfinal[vertex_name]:
             g.set_final(u)
     for (qn, rn) in transitions:
         q = map_vertices[qn]
-- 
2.43.0


From e7e22f867e9e95b288b27c377e62befd56e05f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 03/50] fix: NodeAutomaton.delta returns BOTTOM from BOTTOM

Like Automaton.delta; it raised KeyError, which broke every parallel
traversal of node automata that reaches a missing transition.
---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index a6e93de..10ad10e 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -65,7 +65,7 @@ class NodeAutomaton(Automaton):
         Returns:
             The reached state (if any), :py:data:`BOTTOM` otherwise.
         """
-        return self.adjacencies[q].get(a, BOTTOM)
+        return self.adjacencies.get(q, dict()).get(a, BOTTOM)
 
     def add_edge(self, q: int, r: int) -> tuple:
         """
-- 
2.43.0


From 0b018d055e6d9ff4913ac1496229fd33e68ae41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 04/50] fix: IncidenceNodeAutomaton must not drop its keyword
 arguments

num_vertices, q0 and pmap_vfinal were silently ignored when passed by
keyword.
---
 src/pybgl/incidence_node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/incidence_node_automaton.py b/src/pybgl/incidence_node_automaton.py
index c0b0cd1..b2cea0a 100644
--- a/src/pybgl/incidence_node_automaton.py
+++ b/src/pybgl/incidence_node_automaton.py
@@ -25,7 +25,7 @@ class IncidenceNodeAutomaton(NodeAutomaton):
                 each state with its corresponding symbol.
         """
         self.predecessors = defaultdict(set)  # predecessors[r] = {q}
-        super().__init__(*args, pmap_vsymbol=pmap_vsymbol)  # UGLY
+        super().__init__(*args, pmap_vsymbol=pmap_vsymbol, **kwargs)  # UGLY
 
     # TODO: Factorize with IncidenceAutomaton
     def add_edge(self, q: int, r: int) -> tuple:
-- 
2.43.0


From 566c2447f07f1d754c3daa57a51ad8787e0b28cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 05/50] fix: Nfa.remove_edge forgets a symbol once its last
 transition is removed

---
 src/pybgl/nfa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 4637ce5..bd0860e 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -175,6 +175,9 @@ class Nfa(DirectedGraph):
         (a, n) = e.distinguisher
         try:
             del self.adjacencies[q][a][r]
+            if not self.adjacencies[q][a]:
+                # Forget the symbols that no more label any transition of q
+                del self.adjacencies[q][a]
         except KeyError:
             pass
 
-- 
2.43.0


From 179496946bd45358d9ce8cfeefe2e5c36bb14e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 06/50] fix: difference of graph views keeps only edges
 relevant in the first view

---
 src/pybgl/graph_view.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 18fc175..1213f47 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -114,10 +114,11 @@ class GraphView:
             ),
             make_func_property_map(
                 lambda e: (
-                    self.pmap_erelevant[e] and
-                    not gv.pmap_erelevant[e] or (
-                        not gv.pmap_vrelevant[self.source(e)] and
-                        not gv.pmap_vrelevant[self.target(e)]
+                    self.pmap_erelevant[e] and (
+                        not gv.pmap_erelevant[e] or (
+                            not gv.pmap_vrelevant[self.source(e)] and
+                            not gv.pmap_vrelevant[self.target(e)]
+                        )
                     )
                 )
             )
-- 
2.43.0


From 6bf4e36f8ae3e02269549a6c0b114fdbfe1c7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 07/50] fix: Heap.decrease_key updates every occurrence of the
 element

---
 src/pybgl/heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/heap.py b/src/pybgl/heap.py
index 45bd9fc..aa74f48 100644
--- a/src/pybgl/heap.py
+++ b/src/pybgl/heap.py
@@ -206,7 +206,7 @@ class Heap:
         for (i, (_, index, x)) in enumerate(self._data):
             if element == x:
                 self._data[i] = (self.to_comparable(element), index, element)
-                heapq.heapify(self._data)
+        heapq.heapify(self._data)
 
     def pop(self) -> tuple:
         """
-- 
2.43.0


From d667ce8ecda8ab1274a17f232a51bdefe17314bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 08/50] fix: breadth_first_search works without a visitor

---
 src/pybgl/breadth_first_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 02bc7e4..6f307dd 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -231,6 +231,8 @@ def breadth_first_search(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
+    if vis is None:
+        vis = DefaultBreadthFirstSearchVisitor()
     for u in g.vertices():
         vis.initialize_vertex(u, g)
         pmap_vcolor[u] = WHITE
-- 
2.43.0


From 59a40bdf6fc79af684dd5162571cc05b0f8e67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 09/50] fix: breadth_first_search_graph starts from all
 vertices by default

---
 src/pybgl/breadth_first_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 6f307dd..9208e43 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -166,6 +166,8 @@ def breadth_first_search_graph(
         vis = DefaultBreadthFirstSearchVisitor()
     if not if_push:
         if_push = (lambda e, g: True)
+    if sources is None:
+        sources = g.vertices()
 
     stack = deque()
     for s in sources:
-- 
2.43.0


From f0b89e9180cc65895dd30f808fe89458ab484dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 10/50] fix: depth_first_search_graph visits nothing when the
 collection of sources is empty

---
 src/pybgl/depth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/depth_first_search.py b/src/pybgl/depth_first_search.py
index eebb8d8..ce5fa77 100644
--- a/src/pybgl/depth_first_search.py
+++ b/src/pybgl/depth_first_search.py
@@ -223,6 +223,6 @@ def depth_first_search_graph(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
-    for u in (sources if sources else g.vertices()):
+    for u in (sources if sources is not None else g.vertices()):
         if pmap_vcolor[u] == WHITE:
             depth_first_search(u, g, pmap_vcolor, vis, if_push)
-- 
2.43.0


From 90d09c926aefbd4eb8370dd419f74a274f93e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 11/50] fix: Dijkstra keeps all the shortest-path predecessors
 if the comparison is reflexive

---
 src/pybgl/dijkstra_shortest_paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 2abb979..46b4e7b 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -163,7 +163,8 @@ def dijkstra_shortest_paths_iteration(
         w_sv = pmap_vdist[v]
         w_uv = pmap_eweight[e]
         w = combine(w_su, w_uv)
-        if compare(w, w_sv):  # Traversing u is worth!
+        # The w != w_sv test matters if compare is reflexive (e.g., >=).
+        if w != w_sv and compare(w, w_sv):  # Traversing u is worth!
             pmap_vdist[v] = w
             pmap_vpreds[v] = {e}
             if pmap_vcolor[v] == WHITE:
-- 
2.43.0


From 937f659876dd6d53e2b2e19c88042daebffcd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 12/50] fix: extracting a shortest path terminates if the
 predecessors form a cycle

---
 src/pybgl/dijkstra_shortest_paths.py | 32 +++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 46b4e7b..dc5e1e0 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -5,7 +5,7 @@
 # https://github.com/nokia/pybgl
 
 import sys
-from collections import defaultdict
+from collections import defaultdict, deque
 from .algebra import BinaryRelation, BinaryOperator, Less, ClosedPlus
 from .aggregated_visitor import AggregatedVisitor
 from .graph import Graph, EdgeDescriptor
@@ -324,12 +324,15 @@ def make_shortest_paths_dag(
     done = set()
     while to_process:
         es = {e for u in to_process if pmap_vpreds[u] for e in pmap_vpreds[u]}
-        if single_path and es:
-            es = {es.pop()}
         kept_edges |= es
         predecessors = {g.source(e) for e in es if e not in done}
         done |= to_process
         to_process = predecessors - done
+    if single_path:
+        if s == t or any(g.source(e) == s for e in kept_edges):
+            return set(make_shortest_path(g, s, t, pmap_vpreds))
+        else:  # t is not reachable from s.
+            return set()
     return kept_edges
 
 
@@ -358,12 +361,25 @@ def make_shortest_path(
         this function returns an arbitrary shortest path.
     """
 # USELESS |    arcs = make_dag(g, s, t, pmap_vpreds, single_path=True)
-    u = t
+    # The predecessors may form cycles, e.g., if some arcs have a null weight.
+    # Hence, move backward from t to s without visiting a vertex twice.
+    map_vnext = dict()
+    done = {t}
+    to_process = deque([t])
+    while to_process and s not in done:
+        v = to_process.popleft()
+        for e in pmap_vpreds[v]:
+            u = g.source(e)
+            if u not in done:
+                done.add(u)
+                map_vnext[u] = e
+                to_process.append(u)
     path = list()
-    while u != s:
-        e = list(pmap_vpreds[u])[0]
-        path.insert(0, e)
-        u = g.source(e)
+    u = s
+    while u != t:
+        e = map_vnext[u]
+        path.append(e)
+        u = g.target(e)
     return path
 
 
-- 
2.43.0


From 2a2b6b4b9a559d6c759f157468ed072b399cff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 13/50] fix: topological_sort fills the deque given by the
 caller even if it is empty

---
 src/pybgl/topological_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/topological_sort.py b/src/pybgl/topological_sort.py
index 928fe83..4539ee2 100644
--- a/src/pybgl/topological_sort.py
+++ b/src/pybgl/topological_sort.py
@@ -50,7 +50,7 @@ def topological_sort(g: DirectedGraph, stack: deque = None) -> deque:
     Returns:
         The stack containing the vertices, sorted by topological order.
     """
-    stack = stack if stack else deque()
+    stack = stack if stack is not None else deque()
     depth_first_search_graph(
         g,
         pmap_vcolor=make_assoc_property_map(defaultdict(int)),
-- 
2.43.0


From a4ff3051bfd1ebe61b76ec813cea37cfdc60f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 14/50] fix: graph_copy and graph_extract process each
 undirected edge once

---
 src/pybgl/graph_extract.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graph_extract.py b/src/pybgl/graph_extract.py
index 11aadd0..ab68a18 100644
--- a/src/pybgl/graph_extract.py
+++ b/src/pybgl/graph_extract.py
@@ -6,7 +6,7 @@
 
 from collections import defaultdict
 
-from .graph import Graph, EdgeDescriptor
+from .graph import Graph, EdgeDescriptor, is_directed
 from .depth_first_search import (
     DefaultDepthFirstSearchVisitor,
     depth_first_search,
@@ -62,6 +62,7 @@ class DepthFirstSearchExtractVisitor(DefaultDepthFirstSearchVisitor):
         self.pmap_vcolor = pmap_vcolor
         self.callback_vertex_extract = callback_vertex_extract
         self.callback_edge_extract = callback_edge_extract
+        self.undirected_edges = set()  # Undirected edges already examined
 
     def discover_vertex(self, u: int, g: Graph):
         """
@@ -94,6 +95,13 @@ class DepthFirstSearchExtractVisitor(DefaultDepthFirstSearchVisitor):
             g (Graph): The considered graph.
         """
         if self.pmap_erelevant[e] and self.pmap_vrelevant[g.target(e)]:
+            if not is_directed(g):
+                # The DFS examines an undirected edge from both its ends.
+                (u, v) = sorted((g.source(e), g.target(e)))
+                key = (u, v, e.distinguisher)
+                if key in self.undirected_edges:
+                    return
+                self.undirected_edges.add(key)
             self.examine_relevant_edge(e, g)
 
 
-- 
2.43.0


From 570060bc6a2e6e18c815fa2817848cf43d9a91e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 15/50] fix: automaton_copy works without vertex and edge maps

---
 src/pybgl/automaton_copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton_copy.py b/src/pybgl/automaton_copy.py
index f1cfec5..36efcca 100644
--- a/src/pybgl/automaton_copy.py
+++ b/src/pybgl/automaton_copy.py
@@ -96,10 +96,10 @@ def automaton_copy(
 
     # Prepare the AutomatonCopyVisitor
     if not pmap_vertices:
-        map_vertices = dict()
+        map_vertices = defaultdict(None)
         pmap_vertices = make_assoc_property_map(map_vertices)
     if not pmap_edges:
-        map_edges = dict()
+        map_edges = defaultdict(None)
         pmap_edges = make_assoc_property_map(map_edges)
 
     vis = AutomatonCopyVisitor(
-- 
2.43.0


From b229e72b10bb042e6e0bed8d907ed2ebd7c53bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 16/50] fix: parallel_breadth_first_search colors its start
 pairs so that they are not discovered again

---
 src/pybgl/parallel_breadth_first_search.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index bde529e..3744511 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -250,17 +250,17 @@ def parallel_breadth_first_search(
     if source_pairs is None:
         q01 = g1.initial()
         q02 = g2.initial()
-        stack.appendleft((q01, q02))
-        vis.start_vertex(q01, g1, q02, g2)
-    else:
-        for (s1, s2) in source_pairs:
-            stack.appendleft((s1, s2))
-            vis.start_vertex(s1, g1, s2, g2)
+        source_pairs = [(q01, q02)]
 
     if not pmap_vcolor:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
 
+    for (s1, s2) in source_pairs:
+        pmap_vcolor[(s1, s2)] = GRAY
+        stack.appendleft((s1, s2))
+        vis.start_vertex(s1, g1, s2, g2)
+
     if not if_push:
         if_push = (lambda e1, g1, e2, g2: True)
 
-- 
2.43.0


From f4360f8c4d360764faa4834d9ce77eaa37f17627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 17/50] fix: parallel_breadth_first_search passes the first
 automaton to finish_vertex

---
 src/pybgl/parallel_breadth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index 3744511..99147a6 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -285,4 +285,4 @@ def parallel_breadth_first_search(
             else:
                 vis.black_target(e1, g1, e2, g2, a)
         pmap_vcolor[(q1, q2)] = BLACK
-        vis.finish_vertex(q1, g2, q2, g2)
+        vis.finish_vertex(q1, g1, q2, g2)
-- 
2.43.0


From c50083512782364e0648647178bed60579798a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 18/50] fix: deterministic_intersection goes on through a state
 whose descriptor is 0

---
 src/pybgl/deterministic_intersection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 377b5db..3b3f95f 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -81,9 +81,9 @@ def deterministic_intersection(
         vis=vis,
         if_push=lambda e1, g1, e2, g2: (
             e1 is not None
-            and g1.target(e1)
+            and g1.target(e1) is not BOTTOM
             and e2 is not None
-            and g2.target(e2)
+            and g2.target(e2) is not BOTTOM
         )
     )
     return g12
-- 
2.43.0


From 65afd2401d8f6b9530f6f05d0dad726a7619d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 19/50] fix: product automata start at the pair of initial
 states, even if it has no transition

---
 src/pybgl/deterministic_intersection.py | 15 +++++++++++++++
 src/pybgl/deterministic_union.py        | 17 ++++++++++++++++-
 src/pybgl/product_mixin.py              |  6 ++++--
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 3b3f95f..0f7fee8 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -30,6 +30,21 @@ class DeterministicIntersectionVisitor(
         """
         super().__init__(g12, lambda a, b: a and b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        """
+        Method invoked when the pair of initial states is pushed to the queue.
+
+        Args:
+            s1 (int): The initial state of ``g1`` if any, ``None`` otherwise.
+            g1 (Automaton): The automaton corresponding to left operand
+                of the intersection.
+            s2 (int): The initial state of ``g2`` if any, ``None`` otherwise.
+            g2 (Automaton): The automaton corresponding to right operand
+                of the intersection.
+        """
+        if s1 is not BOTTOM and s2 is not BOTTOM:
+            self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 73e0d85..a9bb79d 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -4,7 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
-from .automaton import Automaton, EdgeDescriptor
+from .automaton import BOTTOM, Automaton, EdgeDescriptor
 from .parallel_breadth_first_search import (
     ParallelBreadthFirstSearchVisitor,
     parallel_breadth_first_search,
@@ -30,6 +30,21 @@ class DeterministicUnionVisitor(
         """
         super().__init__(g12, lambda a, b: a or b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        """
+        Method invoked when the pair of initial states is pushed to the queue.
+
+        Args:
+            s1 (int): The initial state of ``g1`` if any, ``None`` otherwise.
+            g1 (Automaton): The automaton corresponding to left operand
+                of the union.
+            s2 (int): The initial state of ``g2`` if any, ``None`` otherwise.
+            g2 (Automaton): The automaton corresponding to right operand
+                of the union.
+        """
+        if s1 is not BOTTOM or s2 is not BOTTOM:
+            self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 894f68d..9897675 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -52,9 +52,11 @@ class ProductMixin:
             i.e. ``self.g12``.
         """
         q12 = self.g12.add_vertex()
-        if self.operator(g1.is_initial(q1), g2.is_initial(q2)):
+        if g1.is_initial(q1) and g2.is_initial(q2):
             self.g12.set_initial(q12)
-        if self.operator(g1.is_final(q1), g2.is_final(q2)):
+        is_final1 = q1 is not BOTTOM and g1.is_final(q1)
+        is_final2 = q2 is not BOTTOM and g2.is_final(q2)
+        if self.operator(is_final1, is_final2):
             self.g12.set_final(q12)
         self.map_product_vertices[(q1, q2)] = q12
         return q12
-- 
2.43.0


From aafdde9142f2499e4f63b8fb5d3f5dabd1f7cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:33 +0000
Subject: [PATCH 20/50] fix: product automata of node-labelled automata that
 miss a transition

---
 src/pybgl/product_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 9897675..d7815cb 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -85,14 +85,16 @@ class ProductMixin:
         if e1:
             q1 = g1.source(e1)
             r1 = g1.target(e1)
-            a = g1.label(e1)
+            if r1 is not BOTTOM:
+                a = g1.label(e1)
         else:
             q1 = r1 = BOTTOM
 
         if e2:
             q2 = g2.source(e2)
             r2 = g2.target(e2)
-            a = g2.label(e2)
+            if r2 is not BOTTOM:
+                a = g2.label(e2)
         else:
             q2 = r2 = BOTTOM
 
-- 
2.43.0


From 73d33e002c6a5f06d5497039d435bdaaa52a66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:29 +0000
Subject: [PATCH 21/50] fix: the ? operator of regular expressions adds its own
 initial and final states

---
 src/pybgl/thompson_compile_nfa.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 489458d..42273ab 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -196,8 +196,15 @@ def zero_or_one(nfa: Nfa, q0: int, f: int) -> tuple:
         ``f`` is its initial state.
     """
     eps = nfa.epsilon
-    nfa.add_edge(q0, f, eps)
-    return (nfa, q0, f)
+    new_q0 = nfa.add_vertex()
+    new_f = nfa.add_vertex()
+    nfa.add_edge(new_q0, q0, eps)
+    nfa.add_edge(f, new_f, eps)
+    nfa.add_edge(new_q0, new_f, eps)
+    nfa.set_initials({new_q0})
+    nfa.set_final(f, False)
+    nfa.set_final(new_f, True)
+    return (nfa, new_q0, new_f)
 
 
 def zero_or_more(nfa: Nfa, q0: int, f: int) -> tuple:
-- 
2.43.0


From 1b505ada56625dfd0711cd1f3e76d024ca710439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 22/50] fix: repetition ranges that start at 0

---
 src/pybgl/thompson_compile_nfa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 42273ab..e2753e1 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -326,6 +326,8 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         return zero_or_more(nfa, q0, f)
     elif (m, n) == (1, None):
         return one_or_more(nfa, q0, f)
+    elif m == 0 and n > 1:
+        return zero_or_one(*repetition_range(nfa, q0, f, 1, n))
 
     ori = copy.deepcopy(nfa)
     if n is None:
@@ -334,7 +336,7 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         return concatenation(nfa1, q01, f1, nfa2, q02, f2)
     else:
         (q0_ori, f_ori, ori) = (q0, f, copy.deepcopy(nfa))
-        (nfa, _, f) = repetition(nfa, q0, f, m)
+        (nfa, q0, f) = repetition(nfa, q0, f, m)
         final_states = {f}
         # The m-n following NFA instances are optional. We add them
         # one by one to get their respective final states to build an
-- 
2.43.0


From 16d109b974047e86753266d2fb16f6fc2f92c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:37 +0000
Subject: [PATCH 23/50] fix: negated escapes inside brackets use the given
 alphabet

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index e2753e1..c34709f 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -461,7 +461,7 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
             i += 1
         else:
             if a == "\\":
-                accepted |= parse_escaped(s[i:i+2])
+                accepted |= parse_escaped(s[i:i+2], whole_alphabet)
                 i += 1
             else:
                 accepted.add(a)
-- 
2.43.0


From 601111f575f81e11f1762c6100ce3b3ef8594e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 24/50] fix: a dash that ends a bracket stands for itself

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index c34709f..e84de5c 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -449,7 +449,7 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
 
     while i < imax - 1:
         a = s[i]
-        if a == "-" and last_non_hat:
+        if a == "-" and last_non_hat and i + 1 < imax - 1:
             m = ord(last_non_hat)
             n = ord(s[i + 1])
             if m > n:
-- 
2.43.0


From ef75e7330fe869467d8b2e1ac78a9207e545a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 25/50] fix: tokenize the {,n} repetition of regular
 expressions

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 16e3bd6..f7a8c91 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -148,7 +148,7 @@ RE_OPERATORS_RE = [
     for op in list(MAP_OPERATORS_RE.keys()) + ["(", ")"]
 ] + [
     # Extra repetition operators
-    "\\{\\s*\\d+(\\s*,)?(\\s*\\d+)?\\s*\\}",
+    "\\{\\s*(?:\\d+|\\d*\\s*,\\s*\\d*)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
     '\\[([^]])*\\]',
-- 
2.43.0


From 1605f360904fff2c636f24a7c074400ac1c83f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 26/50] fix: an escaped bracket does not close a character
 class

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index f7a8c91..10c2b3a 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -151,7 +151,7 @@ RE_OPERATORS_RE = [
     "\\{\\s*(?:\\d+|\\d*\\s*,\\s*\\d*)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
-    '\\[([^]])*\\]',
+    '\\[(?:\\\\.|[^\\]\\\\])*\\]',
     # Escape sequences (not exhaustive)
     "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}])",
 ]
-- 
2.43.0


From f0610e4a8c9f8609fa84edddf963c66f1e898840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 27/50] fix: Hopcroft minimization without final states or with
 only final states

---
 src/pybgl/hopcroft_minimize.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index 85564c5..eaf6e77 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -28,14 +28,12 @@ def hopcroft_agglomerate_states(g: IncidenceAutomaton) -> set:
 
     g_alphabet = g.alphabet()
     final_states = {q for q in g.vertices() if g.is_final(q)}
+    # Both blocks may be empty (no final state, only final states).
     aggregated_states = {
         frozenset(final_states),
         frozenset(g.vertices()) - final_states
-    }
-    waiting_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
-    }
+    } - {frozenset()}
+    waiting_states = set(aggregated_states)
     while waiting_states != set():
         current_states = waiting_states.pop()
         for a in g_alphabet:
-- 
2.43.0


From 5ed536f69da771d45813f76afbdf0f2c93445cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:49 +0000
Subject: [PATCH 28/50] fix: Revuz minimization keeps the initial state

---
 src/pybgl/revuz_minimize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/revuz_minimize.py b/src/pybgl/revuz_minimize.py
index 9af7c89..a417e2e 100644
--- a/src/pybgl/revuz_minimize.py
+++ b/src/pybgl/revuz_minimize.py
@@ -222,8 +222,12 @@ def revuz_minimize(
         for mergeable_states in map_aggregates.values():
             if len(mergeable_states) < 2:
                 continue
-            # Sort states to get deterministic behavior
-            mergeable_states = sorted(mergeable_states)
+            # Sort states to get deterministic behavior. The initial state
+            # (if any) is not merged into another state.
+            mergeable_states = sorted(
+                mergeable_states,
+                key=lambda q: (not g.is_initial(q), q)
+            )
             q1 = mergeable_states[0]
             for q2 in mergeable_states[1:]:
                 vis.merging_states(q1, q2, g)
-- 
2.43.0


From e79ca6bfdc876bd66252596e0d490bfa390c5a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:05 +0000
Subject: [PATCH 29/50] fix: factors of length at most 0

---
 src/pybgl/suffix_trie.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/suffix_trie.py b/src/pybgl/suffix_trie.py
index f673cbf..c7594f8 100644
--- a/src/pybgl/suffix_trie.py
+++ b/src/pybgl/suffix_trie.py
@@ -33,7 +33,7 @@ def slices(n, max_len: int = None) -> iter:
             for i in range(n)
             for j in range(
                 i + 1,
-                min(n, i + max_len) + 1 if max_len else n + 1
+                min(n, i + max_len) + 1 if max_len is not None else n + 1
             )
         )
     )
@@ -90,7 +90,9 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
     n = len(w)
     for i in range(n):
         q = g.initial()
-        for j in range(i, min(n, i + max_len) if max_len else n):
+        for j in range(
+            i, min(n, i + max_len) if max_len is not None else n
+        ):
             a = w[j]
             r = g.delta(q, a)
             if r is BOTTOM:
-- 
2.43.0


From 52dbc6e935942c8481dcfe57e9a7ce5e9522b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 30/50] fix: inserting a word in an automaton without states

---
 src/pybgl/automaton.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 27a7d1b..c4806d4 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -433,12 +433,15 @@ class Automaton(DirectedGraph):
         Returns:
             The reached state in best effort.
         """
+        if not self.has_vertex():
+            self.set_initial(self.add_vertex())
         (q, i) = self.delta_best_effort(w)
         for a in w[i:]:
             r = self.add_vertex()
             self.add_edge(q, r, a)
             q = r
         self.set_final(q)
+        return q
 
 
 # ------------------------------------------------------------------
@@ -845,4 +848,4 @@ def automaton_insert_string(g: Automaton, w: str) -> int:
     Returns:
         The reached state in best effort.
     """
-    g.automaton_insert_string(w)
+    return g.automaton_insert_string(w)
-- 
2.43.0


From 8aad6f5437de21f292f619495baa6888475b2d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:38 +0000
Subject: [PATCH 31/50] fix: shunting yard: prefix operators wait for their
 operand, postfix operators apply at once

---
 src/pybgl/shunting_yard_postfix.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 10c2b3a..34d03fe 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -377,16 +377,25 @@ def shunting_yard_postfix(
         output.append(a)
         vis.on_push_output(a)
 
+    # True iff the next token must start an operand. If so, a unary operator
+    # is prefix: it applies to what follows, so no pending operator has got all
+    # its operands yet. Otherwise it is postfix: its operand is complete.
+    expects_operand = True
     for a in expression:
         if a == "(":
             push_operator(a)
+            expects_operand = True
         elif a == ")":
             o = pop_operator()
             while o and o != "(":
                 push_output(o)
                 o = pop_operator()
+            expects_operand = False
         elif a in map_operators.keys():
+            is_unary = map_operators[a].cardinality == 1
+            is_prefix = is_unary and expects_operand
             while (
+                not is_prefix and
                 operators
                 and operators[-1] in map_operators.keys()
                 and preceeds(operators[-1], a)
@@ -394,8 +403,13 @@ def shunting_yard_postfix(
                 op = pop_operator()
                 push_output(op)
             push_operator(a)
+            if is_unary and not is_prefix:
+                push_output(pop_operator())
+            else:
+                expects_operand = True
         else:
             push_output(a)
+            expects_operand = False
 
     while operators:
         push_output(pop_operator())
-- 
2.43.0


From 1f33339453c9635326fb8c003e2df6e84aeb953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:45 +0000
Subject: [PATCH 32/50] fix: evaluation of a plus sign

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 34d03fe..480e910 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -756,7 +756,7 @@ class RpnDequeAlg(RpnDequeOperation):
             return x ** y
         elif a == "u-":
             return -x
-        elif a == "u-":
+        elif a == "u+":
             return x
         else:
             raise ValueError(f"Unsupported operator '{a}'")
-- 
2.43.0


From f2282d7bec0fc00c4abfe39a8e7803bb01b2740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:51 +0000
Subject: [PATCH 33/50] fix: shunting_yard_compute on a tokenized expression

---
 src/pybgl/shunting_yard_postfix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 480e910..d2a40b9 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -789,10 +789,9 @@ def shunting_yard_compute(
     Returns:
         The output ``float`` result.
     """
-    if tokenize:
-        output = RpnDequeAlg(map_operators=map_operators)
+    output = RpnDequeAlg(map_operators=map_operators)
     ret = shunting_yard_postfix(
-        tokenizer_alg(expression),
+        tokenizer_alg(expression) if tokenize else expression,
         map_operators,
         output,
         vis
-- 
2.43.0


From 86fa47a965ac94bd2113d9c2445bd2529c64cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 34/50] fix: Ast.to_expr

---
 src/pybgl/shunting_yard_postfix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index d2a40b9..00a042c 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -598,14 +598,14 @@ class Ast(DirectedGraph):
             if d == 0:
                 return a
             elif d == 1:
-                child = self.children(u)[0]
+                (child,) = self.children(u)
                 return f"({to_expr_rec(child)}){a}"
             else:
                 return "(%s)" % a.join(
                     to_expr_rec(child)
                     for child in self.children(u)
                 )
-        if self.root:
+        if self.root is None:
             raise RuntimeError("self.root is not initialized")
         return to_expr_rec(self.root)
 
@@ -691,6 +691,7 @@ def shunting_yard_ast(
     ret = shunting_yard_postfix(expression, map_operators, output, vis)
     assert len(ret) == 1
     root = ret.pop()
+    ast.root = root
     return (ast, root)
 
 
-- 
2.43.0


From ea327667b0d7ca0dc1c3dd4dac4a10ffc948f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:01 +0000
Subject: [PATCH 35/50] fix: tokenize reports the end of the last unmatched
 piece

---
 src/pybgl/tokenize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/tokenize.py b/src/pybgl/tokenize.py
index b7da28d..602bc1f 100644
--- a/src/pybgl/tokenize.py
+++ b/src/pybgl/tokenize.py
@@ -72,4 +72,4 @@ def tokenize(tokenizer, s: str, vis: TokenizeVisitor = None):
         start = match.end()
     remaining = s[start:]
     if remaining:
-        vis.on_unmatched(remaining, start, None, s)
+        vis.on_unmatched(remaining, start, len(s), s)
-- 
2.43.0


From c0f985d5274de7cf34621e7828f8eb7d7e2fadce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 36/50] fix: read_graphviz_dp reads attributes into the given
 property maps

---
 src/pybgl/graphviz.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index c5979c1..6da3b43 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -176,18 +176,18 @@ class ReadGraphvizDpVisitor(ReadGraphvizVisitor):
     Graphviz file.
     """
     def __init__(self, g, dpv: dict, dpe: dict):
-        super().__init__(g)
+        super().__init__()
         self.dpv = dpv
         self.dpe = dpe
 
     def on_install_vertex_property(self, u, g, key, value):
-        pmap = self.dpv[key] if self.dpv else None
-        if pmap:
+        pmap = self.dpv.get(key) if self.dpv else None
+        if pmap is not None:
             pmap[u] = value
 
     def on_install_edge_property(self, e, g, key, value):
-        pmap = self.dpe[key] if self.dpe else None
-        if pmap:
+        pmap = self.dpe.get(key) if self.dpe else None
+        if pmap is not None:
             pmap[e] = value
 
 
@@ -206,10 +206,10 @@ def read_graphviz_dp(
         iterable: An iterable (e.g., ``my_file.readlines()`` or
             ``my_str.splitlines()``)
         g (DirectedGraph): Pass an empty graph.
-        dpv (dict): Pass an empty dict if needed. It will map for each vertex a
-            dict mapping each specified graphviz attributes with its value.
-        dpe (dict): Pass an empty dict if needed. It will map for each edge a
-            dict mapping each specified graphviz attributes with its value.
+        dpv (dict): Maps each vertex attribute to be read with the
+            corresponding :py:class:`ReadWritePropertyMap` instance.
+        dpe (dict): Maps each edge attribute to be read with the
+            corresponding :py:class:`ReadWritePropertyMap` instance.
     """
     vis = ReadGraphvizDpVisitor(g, dpv, dpe)
     read_graphviz(iterable, g, vis)
-- 
2.43.0


From 8407331ba81ef41715625fc030f435e7f8b5d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 37/50] fix: read_graphviz reads the attributes that to_dot
 writes

---
 src/pybgl/graphviz.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 6da3b43..3a0fec6 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -6,7 +6,7 @@
 
 import re
 import sys
-from html.parser import HTMLParser
+from html import unescape
 from subprocess import Popen, PIPE
 from .graph import Graph, EdgeDescriptor
 from .graphviz_impl import *
@@ -16,26 +16,31 @@ from .graphviz_impl import *
 # Graphviz read
 # ------------------------------------------------------------------
 
-class GraphvizOptsParser(HTMLParser):
+RE_GRAPHVIZ_OPT = re.compile(
+    "([A-Za-z_][A-Za-z0-9_]*)\\s*=\\s*(?:"
+    "\"((?:\\\\\"|[^\"])*)\""       # double-quoted string
+    "|'([^']*)'"                    # single-quoted string
+    "|<((?:[^<>]|<[^<>]*>)*)>"      # HTML string
+    "|([^\\s;,\\]]+)"                # identifier
+    ")"
+)
+
+
+class GraphvizOptsParser:
     """
     The :py:class:`GraphvizOptsVisitor` is
-    used to parse HTML content related to a vertex or an edge.
+    used to parse the attributes related to a vertex or an edge.
     """
     def __init__(self):
         """
         Constructor.
         """
-        super().__init__()
         self.d = dict()
 
-    def handle_starttag(self, tag, attrs):
-        for (k, v) in attrs:
-            self.d[k] = v
-
     def feed(self, graphviz_opts):
         if graphviz_opts:
-            graphviz_opts = "<fake_tag " + graphviz_opts[1:-1] + ">"
-            super().feed(graphviz_opts)
+            for m in RE_GRAPHVIZ_OPT.finditer(graphviz_opts[1:-1]):
+                self.d[m.group(1)] = unescape(m.group(m.lastindex))
 
     def items(self):
         return self.d.items()
-- 
2.43.0


From fb12224eb04953a763ae30fb50e3ae3dd9fbd9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 38/50] fix: read_graphviz reads undirected edges

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 3a0fec6..bf937d2 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -111,7 +111,7 @@ class ReadGraphvizVisitor(GraphvizVisitor):
 
 PATTERN_SPACE = "\\s*"
 PATTERN_VERTEX_ID = "([0-9]+)"
-PATTERN_EDGE_CONNECTOR = "->"  # TODO manage -- for undirected graphs
+PATTERN_EDGE_CONNECTOR = "(?:->|--)"
 PATTERN_OPTS = "(\\[(.*)\\])?"
 PATTERN_LINE_VERTEX = PATTERN_SPACE.join(
     [PATTERN_VERTEX_ID, PATTERN_OPTS, ";"]
-- 
2.43.0


From 140dd4f2c44baf1e210b3aae8df4b25e7a039d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 39/50] fix: GraphDp.get_dpe and GraphDp.to_dot with an extra
 style

---
 src/pybgl/graph_dp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 5066e9f..6169374 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -73,7 +73,7 @@ class GraphDp:
         return self.dpv
 
     def get_dpe(self) -> dict:
-        return self.dpve
+        return self.dpe
 
     def get_dg(self) -> dict:
         return self.dg
@@ -97,7 +97,8 @@ class GraphDp:
         kwargs = enrich_kwargs(self.dg, "dg", **kwargs)
         kwargs = enrich_kwargs(self.dv, "dv", **kwargs)
         kwargs = enrich_kwargs(self.de, "de", **kwargs)
-        kwargs = enrich_kwargs(self.extra_style, "extra_style", **kwargs)
+        if self.extra_style:
+            kwargs.setdefault("extra_style", "; ".join(self.extra_style))
         return to_dot(self.g, **kwargs)
 
     # TODO GraphView
-- 
2.43.0


From 17f5718c6dd848d323567828bb88bf49449fefd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:56 +0000
Subject: [PATCH 40/50] fix: GraphDp.to_json escapes its strings

---
 src/pybgl/graph_dp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 6169374..a47f7b8 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -4,6 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
+import json
 from copy import copy
 from .graph import Graph
 from .graphviz import GraphvizStyle, enrich_kwargs, graphviz_type, to_dot
@@ -27,6 +28,10 @@ JSON_EDGE_FORMAT = """{
         }"""
 
 
+def json_str(x: object) -> str:
+    return json.dumps(str(x), ensure_ascii=False)
+
+
 class GraphDp:
     """
     Graph dynamic properties, used to define the style of a graph.
@@ -127,7 +132,7 @@ class GraphDp:
                     JSON_NODE_FORMAT % {
                         "id": u,
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[u])
+                            "%s: %s" % (json_str(k), json_str(pmap[u]))
                             for k, pmap in self.dpv.items()
                         ]),
                         "sep": "," if self.dpv else "",
@@ -138,7 +143,7 @@ class GraphDp:
                         "source": self.g.source(e),
                         "target": self.g.target(e),
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[e])
+                            "%s: %s" % (json_str(k), json_str(pmap[e]))
                             for k, pmap in self.dpe.items()
                         ]),
                         "sep": "," if self.dpe else "",
-- 
2.43.0


From 1e7ba303ddbaf51b34ef6ad4312745b569443875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 41/50] fix: GraphView.to_dot accepts any iterable of vertices
 and edges

---
 src/pybgl/graph_view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 1213f47..c207cb3 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -255,7 +255,7 @@ class GraphView:
         vs_ = kwargs.pop("vs", None)
         es_ = kwargs.pop("es", None)
         return self.g.to_dot(
-            vs=(vs & vs_) if vs_ is not None else vs,
-            es=(es & es_) if es_ is not None else es,
+            vs=(vs & set(vs_)) if vs_ is not None else vs,
+            es=(es & set(es_)) if es_ is not None else es,
             *cls, **kwargs
         )
-- 
2.43.0


From 4269f4e64e391e9cf147a98a93cd40784f597e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 42/50] fix: write_graphviz writes SVG and binary images

---
 src/pybgl/graphviz.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index bf937d2..a0a15ba 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -6,6 +6,7 @@
 
 import re
 import sys
+from io import TextIOBase
 from html import unescape
 from subprocess import Popen, PIPE
 from .graph import Graph, EdgeDescriptor
@@ -323,14 +324,17 @@ def write_graphviz(
         engine: str = "dot"
     ) -> bool:
         ret = False
-        bytes_img = run_graphviz(s_dot, engine, format)
-        if bytes_img:
-            print(bytes_img.decode("utf-8"), file=f)
+        img = run_graphviz(s_dot, engine, format)
+        if img:
+            if isinstance(f, TextIOBase):
+                print(img if isinstance(img, str) else img.decode("utf-8"), file=f)
+            else:
+                f.write(img.encode("utf-8") if isinstance(img, str) else img)
             ret = True
         return ret
 
     if isinstance(filename, str):
-        with open(filename, "w") as f:
+        with open(filename, "wb") as f:
             return write_graphviz_impl(s_dot, f, format, engine)
     else:
         return write_graphviz_impl(s_dot, filename, format, engine)
-- 
2.43.0


From 42207d43e979fe4787dcc6d26bd285c07df8c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 43/50] fix: AggregatedVisitor forwards keyword arguments

---
 src/pybgl/aggregated_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index 9bbdc66..1c28389 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -29,7 +29,7 @@ class AggregatedVisitor:
         """
         def wrapper(*args, **kwargs):
             for vis in self.visitors:
-                getattr(vis, method_name)(*args)
+                getattr(vis, method_name)(*args, **kwargs)
         return wrapper
 
     @staticmethod
-- 
2.43.0


From da7a4e9e5b0bafe0fde565ea997aeb6a75e41d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 44/50] fix: do not modify the default vertex/edge attributes
 the caller of to_dot passes

---
 src/pybgl/graphviz_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index e4417e4..1efe9d6 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -351,8 +351,7 @@ def enrich_kwargs(default_d: dict, key: str, **kwargs) -> dict:
         The updated ``**kwargs``.
     """
     if default_d:
-        if key not in kwargs:
-            kwargs[key] = dict()
+        kwargs[key] = dict(kwargs.get(key) or {})
         for (k, v) in default_d.items():
             if k not in kwargs[key].keys():
                 kwargs[key][k] = v
-- 
2.43.0


From c8df0a825392fc2defeec0d2b77870f81f49557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 45/50] fix: an unmatched opening parenthesis is refused
 instead of being output as an operand

---
 src/pybgl/shunting_yard_postfix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 00a042c..26c9b45 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -412,7 +412,10 @@ def shunting_yard_postfix(
             expects_operand = False
 
     while operators:
-        push_output(pop_operator())
+        o = pop_operator()
+        if o == "(":
+            raise ValueError("Unmatched opening parenthesis")
+        push_output(o)
     return output
 
 
-- 
2.43.0


From c0ee5bb48437e8789a1120026cb80a34ea497de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 46/50] fix: intersection with an automaton without initial
 state

deterministic_intersection raised AttributeError on such an automaton (the
traversal reports no edge for an automaton in BOTTOM) instead of returning an
automaton which accepts nothing.
---
 src/pybgl/deterministic_intersection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 0f7fee8..afd4f79 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -66,7 +66,12 @@ class DeterministicIntersectionVisitor(
                 of the intersection.
             a (str): The symbol that labels ``e1`` and ``e2``.
         """
-        if g1.target(e1) is not BOTTOM and g2.target(e2) is not BOTTOM:
+        if (
+            e1 is not None
+            and g1.target(e1) is not BOTTOM
+            and e2 is not None
+            and g2.target(e2) is not BOTTOM
+        ):
             self.add_product_edge(e1, g1, e2, g2)
 
 
-- 
2.43.0


From c9ed131b2dd3d1d6fdbeb67b39f0c5a1793350c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 47/50] fix: an Nfa shared its set of initial states with its
 caller

Changing the initial states of an Nfa modified the set passed to its
constructor, hence the initial states of any other Nfa built from it.
---
 src/pybgl/nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index bd0860e..7007af1 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -44,7 +44,7 @@ class Nfa(DirectedGraph):
             epsilon (str): The symbol assigned to the epsilon-transition.
         """
         super().__init__(num_vertices)
-        self.initials = initials if initials else {0}
+        self.initials = set(initials) if initials else {0}
         if not pmap_vfinal:
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
-- 
2.43.0


From 3601c6f226fff6005a21e1f1a1ab77bd002e1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 48/50] fix: inserting an automaton with another empty-word
 symbol

---
 src/pybgl/thompson_compile_nfa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index e84de5c..34e1468 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -89,7 +89,8 @@ def insert_automaton(g1: Nfa, g2: Nfa, map21: dict = None) -> dict:
     for e2 in g2.edges():
         q2 = g2.source(e2)
         r2 = g2.target(e2)
-        a = g2.label(e2)
+        # The two automata may not represent the empty word alike.
+        a = g1.epsilon if g2.is_epsilon_transition(e2) else g2.label(e2)
         q1 = map21[q2]
         r1 = map21[r2]
         g1.add_edge(q1, r1, a)
-- 
2.43.0


From abb5326eb8ab0e30e2b1408d986be1df48615936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 49/50] fix: edit distances of long words exceeded the
 recursion limit

---
 src/pybgl/damerau_levenshtein_distance.py | 52 ++++++++++++++---------
 src/pybgl/lcs_distance.py                 | 36 +++++++++++-----
 src/pybgl/levenshtein_distance.py         | 38 +++++++++++------
 3 files changed, 83 insertions(+), 43 deletions(-)

diff --git a/src/pybgl/damerau_levenshtein_distance.py b/src/pybgl/damerau_levenshtein_distance.py
index dfd181b..61f0a3d 100644
--- a/src/pybgl/damerau_levenshtein_distance.py
+++ b/src/pybgl/damerau_levenshtein_distance.py
@@ -75,27 +75,39 @@ class DamerauLevenshteinDistance:
             operations needed to transform ``x`` into ``y``.
         """
 
-        ret = self.memoize.get((i, j))
-        if ret is None:
-            ret = self.memoize[(i, j)] = (
-                len(self.x) - i if not j < len(self.y) else
-                len(self.y) - j if not i < len(self.x) else
-                self.compute(i + 1, j + 1) if self.x[i] == self.y[j] else
-                1 + min(
-                    [
-                        self.compute(i + 1, j),
-                        self.compute(i, j + 1),
-                        self.compute(i + 1, j + 1)
-                    ] + (
-                        [self.compute(i + 2, j + 2)] if (
-                            i + 1 < len(self.x) and j + 1 < len(self.y)
-                            and self.x[i] == self.y[j + 1]
-                            and self.x[i + 1] == self.y[j]
-                        ) else []
-                    )
+        # An explicit stack, because long words exceed the recursion limit.
+        start = (i, j)
+        stack = [start]
+        while stack:
+            (i, j) = stack[-1]
+            if not j < len(self.y):
+                needed, ret = [], len(self.x) - i
+            elif not i < len(self.x):
+                needed, ret = [], len(self.y) - j
+            elif self.x[i] == self.y[j]:
+                needed, ret = [(i + 1, j + 1)], 0
+            else:
+                needed, ret = [
+                    (i + 1, j),
+                    (i, j + 1),
+                    (i + 1, j + 1),
+                ] + (
+                    [(i + 2, j + 2)] if (
+                        i + 1 < len(self.x) and j + 1 < len(self.y)
+                        and self.x[i] == self.y[j + 1]
+                        and self.x[i + 1] == self.y[j]
+                    ) else []
+                ), 1
+            missing = [ij for ij in needed if ij not in self.memoize]
+            if missing:
+                stack.extend(missing)
+            else:
+                stack.pop()
+                self.memoize[(i, j)] = ret + min(
+                    (self.memoize[ij] for ij in needed),
+                    default=0
                 )
-            )
-        return ret
+        return self.memoize[start]
 
 
 def damerau_levenshtein_distance(x: str, y: str) -> int:
diff --git a/src/pybgl/lcs_distance.py b/src/pybgl/lcs_distance.py
index 074bd16..e648a94 100644
--- a/src/pybgl/lcs_distance.py
+++ b/src/pybgl/lcs_distance.py
@@ -63,18 +63,32 @@ class LcsDistance:
             The minimal number of insertion/deletion operations needed to
             transform ``x`` into ``y``.
         """
-        ret = self.memoize.get((i, j))
-        if ret is None:
-            ret = self.memoize[(i, j)] = (
-                len(self.x) - i if not j < len(self.y) else
-                len(self.y) - j if not i < len(self.x) else
-                self.compute(i + 1, j + 1) if self.x[i] == self.y[j] else
-                1 + min(
-                    self.compute(i + 1, j),
-                    self.compute(i, j + 1),
+        # An explicit stack, because long words exceed the recursion limit.
+        start = (i, j)
+        stack = [start]
+        while stack:
+            (i, j) = stack[-1]
+            if not j < len(self.y):
+                needed, ret = [], len(self.x) - i
+            elif not i < len(self.x):
+                needed, ret = [], len(self.y) - j
+            elif self.x[i] == self.y[j]:
+                needed, ret = [(i + 1, j + 1)], 0
+            else:
+                needed, ret = [
+                    (i + 1, j),
+                    (i, j + 1),
+                ], 1
+            missing = [ij for ij in needed if ij not in self.memoize]
+            if missing:
+                stack.extend(missing)
+            else:
+                stack.pop()
+                self.memoize[(i, j)] = ret + min(
+                    (self.memoize[ij] for ij in needed),
+                    default=0
                 )
-            )
-        return ret
+        return self.memoize[start]
 
 
 def lcs_distance(x: str, y: str) -> int:
diff --git a/src/pybgl/levenshtein_distance.py b/src/pybgl/levenshtein_distance.py
index 5efc694..48ca8ed 100644
--- a/src/pybgl/levenshtein_distance.py
+++ b/src/pybgl/levenshtein_distance.py
@@ -64,19 +64,33 @@ class LevenshteinDistance:
             The minimal number of insertion/deletion/substitution
             operations needed to transform ``x`` into ``y``.
         """
-        ret = self.memoize.get((i, j))
-        if ret is None:
-            ret = self.memoize[(i, j)] = (
-                len(self.x) - i if not j < len(self.y) else
-                len(self.y) - j if not i < len(self.x) else
-                self.compute(i + 1, j + 1) if self.x[i] == self.y[j] else
-                1 + min(
-                    self.compute(i + 1, j),
-                    self.compute(i, j + 1),
-                    self.compute(i + 1, j + 1),
+        # An explicit stack, because long words exceed the recursion limit.
+        start = (i, j)
+        stack = [start]
+        while stack:
+            (i, j) = stack[-1]
+            if not j < len(self.y):
+                needed, ret = [], len(self.x) - i
+            elif not i < len(self.x):
+                needed, ret = [], len(self.y) - j
+            elif self.x[i] == self.y[j]:
+                needed, ret = [(i + 1, j + 1)], 0
+            else:
+                needed, ret = [
+                    (i + 1, j),
+                    (i, j + 1),
+                    (i + 1, j + 1),
+                ], 1
+            missing = [ij for ij in needed if ij not in self.memoize]
+            if missing:
+                stack.extend(missing)
+            else:
+                stack.pop()
+                self.memoize[(i, j)] = ret + min(
+                    (self.memoize[ij] for ij in needed),
+                    default=0
                 )
-            )
-        return ret
+        return self.memoize[start]
 
 
 def levenshtein_distance(x: str, y: str) -> int:
-- 
2.43.0


From 687eb52a17da0b3403553b6503a74c92feb91313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 50/50] fix: Ast.to_expr exceeded the recursion limit on deep
 trees

---
 src/pybgl/shunting_yard_postfix.py | 33 +++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 26c9b45..603b80b 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -595,22 +595,27 @@ class Ast(DirectedGraph):
             The string containing the expression modeled
             by this :py:class:`Ast` instance.
         """
-        def to_expr_rec(u) -> str:
-            a = str(self.symbol(u))
-            d = self.out_degree(u)
-            if d == 0:
-                return a
-            elif d == 1:
-                (child,) = self.children(u)
-                return f"({to_expr_rec(child)}){a}"
-            else:
-                return "(%s)" % a.join(
-                    to_expr_rec(child)
-                    for child in self.children(u)
-                )
         if self.root is None:
             raise RuntimeError("self.root is not initialized")
-        return to_expr_rec(self.root)
+        # An explicit stack, because deep trees exceed the recursion limit.
+        exprs = dict()
+        stack = [self.root]
+        while stack:
+            u = stack[-1]
+            children = list(self.children(u))
+            missing = [child for child in children if child not in exprs]
+            if missing:
+                stack.extend(missing)
+                continue
+            stack.pop()
+            a = str(self.symbol(u))
+            if len(children) == 0:
+                exprs[u] = a
+            elif len(children) == 1:
+                exprs[u] = f"({exprs[children[0]]}){a}"
+            else:
+                exprs[u] = "(%s)" % a.join(exprs[child] for child in children)
+        return exprs[self.root]
 
 
 class RpnDequeAst(RpnDequeOperation):
-- 
2.43.0


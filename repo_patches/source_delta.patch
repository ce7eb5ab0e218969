From 1778f0270038502fe2f39f02e482e1b6ad0e9469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 01/66] fix: Automaton.add_edge overwrote a transition whose
 target is state 0

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index ab74894..27a7d1b 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -89,7 +89,7 @@ class Automaton(DirectedGraph):
         """
         assert q is not None
         assert r is not None
-        if self.delta(q, a):
+        if self.delta(q, a) is not BOTTOM:
             return (None, False)
         self.adjacencies[q][a] = r
         return (EdgeDescriptor(q, r, a), True)
-- 
2.43.0


From b801a9c54648a2db8d06bcfe9555fbf6c8416dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 02/66] fix: NodeAutomaton.delta raised KeyError on BOTTOM

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 714eda4..7d0ff0a 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -65,7 +65,7 @@ class NodeAutomaton(Automaton):
         Returns:
             The reached state (if any), :py:data:`BOTTOM` otherwise.
         """
-        return self.adjacencies[q].get(a, BOTTOM)
+        return self.adjacencies.get(q, dict()).get(a, BOTTOM)
 
     def add_edge(self, q: int, r: int) -> tuple:
         """
-- 
2.43.0


From b082be3aaf00277fed3b47da99eb4dcbed997167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 03/66] fix: IncidenceNodeAutomaton ignored its keyword
 arguments

---
 src/pybgl/incidence_node_automaton.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pybgl/incidence_node_automaton.py b/src/pybgl/incidence_node_automaton.py
index c0b0cd1..c6d17cc 100644
--- a/src/pybgl/incidence_node_automaton.py
+++ b/src/pybgl/incidence_node_automaton.py
@@ -15,7 +15,6 @@ from .node_automaton import *
 
 
 class IncidenceNodeAutomaton(NodeAutomaton):
-    # TODO **kwargs
     def __init__(self, *args, pmap_vsymbol: ReadPropertyMap = None, **kwargs):
         """
         Constructor.
@@ -25,7 +24,7 @@ class IncidenceNodeAutomaton(NodeAutomaton):
                 each state with its corresponding symbol.
         """
         self.predecessors = defaultdict(set)  # predecessors[r] = {q}
-        super().__init__(*args, pmap_vsymbol=pmap_vsymbol)  # UGLY
+        super().__init__(*args, pmap_vsymbol=pmap_vsymbol, **kwargs)
 
     # TODO: Factorize with IncidenceAutomaton
     def add_edge(self, q: int, r: int) -> tuple:
-- 
2.43.0


From 5bdafc62be456119092f31b6bcf4efde9f1cb114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 04/66] fix: make_node_automaton crashed without pmap_vlabel

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 7d0ff0a..4bffd02 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -322,7 +322,7 @@ def make_node_automaton(
     }
     g = Constructor(0)
     for vertex_name in vertex_names:
-        a = pmap_vlabel[vertex_name]
+        a = pmap_vlabel[vertex_name] if pmap_vlabel else None
         u = g.add_vertex(a)
         if pmap_vfinal[u]:
             g.set_final(u)
-- 
2.43.0


From eef347f6d8b8a2a9fe0649cf9ebdc1d442dea26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 05/66] fix: make_node_automaton looked up final states by
 index instead of identifier

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 4bffd02..78d105d 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -324,7 +324,7 @@ def make_node_automaton(
     for vertex_name in vertex_names:
         a = pmap_vlabel[vertex_name] if pmap_vlabel else None
         u = g.add_vertex(a)
-        if pmap_vfinal[u]:
+        if pmap_vfinal[vertex_name]:
             g.set_final(u)
     for (qn, rn) in transitions:
         q = map_vertices[qn]
-- 
2.43.0


From fcf1577adf1569261d94afebb95a7e8c241f24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 06/66] fix: NodeAutomaton.alphabet missed the symbol of an
 initial state that has in-transitions

---
 src/pybgl/node_automaton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 78d105d..2123935 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -192,6 +192,10 @@ class NodeAutomaton(Automaton):
             self.symbol(q)
             for q in vertices(self)
             if not self.is_initial(q)
+        } | {
+            a
+            for q in self.vertices()
+            for a in self.sigma(q)
         }
 
     def edges(self) -> iter:
-- 
2.43.0


From c836ad2db05db85049ed683ab260ff8fa5bc04de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 07/66] fix: states added after clearing an automaton inherited
 the final status and symbol of removed states

---
 src/pybgl/automaton.py      |  8 ++++++++
 src/pybgl/nfa.py            |  6 ++++++
 src/pybgl/node_automaton.py | 10 ++++++++--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 27a7d1b..84f33f3 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -54,6 +54,14 @@ class Automaton(DirectedGraph):
         else:
             self.pmap_vfinal = pmap_vfinal
 
+    def clear(self):
+        # Overloaded method
+        super().clear()
+        # The vertex descriptors restart from 0, so the statuses of the
+        # removed states must not apply to the states to come.
+        if hasattr(self, "map_vfinal"):
+            self.map_vfinal.clear()
+
     def delta(self, q: int, a: str) -> int:
         """
         Transition function, allowing to move from a state ``q`` to its
diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 4637ce5..3274a83 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -52,6 +52,12 @@ class Nfa(DirectedGraph):
             self.pmap_vfinal = pmap_vfinal
         self.epsilon = epsilon
 
+    def clear(self):
+        # Overloaded method
+        super().clear()
+        if hasattr(self, "map_vfinal"):
+            self.map_vfinal.clear()
+
     def delta_one_step(self, qs: iter, a: str) -> set:
         """
         Determines the target states reached by consuming a symbol
diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 2123935..d51f4c0 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -42,10 +42,16 @@ class NodeAutomaton(Automaton):
         # Convention: self.adjacencies[q][a] = r
         super().__init__(num_vertices, q0, pmap_vfinal)
         if pmap_vsymbol is None:
-            map_vsymbol = defaultdict(lambda: None)
-            pmap_vsymbol = make_assoc_property_map(map_vsymbol)
+            self.map_vsymbol = defaultdict(lambda: None)
+            pmap_vsymbol = make_assoc_property_map(self.map_vsymbol)
         self.pmap_vsymbol = pmap_vsymbol
 
+    def clear(self):
+        # Overloaded method
+        super().clear()
+        if hasattr(self, "map_vsymbol"):
+            self.map_vsymbol.clear()
+
     def add_vertex(self, a: str = None) -> int:
         u = super().add_vertex()
         if a is not None:
-- 
2.43.0


From c67f347f9db9b9040f031b67e163f1d8983fa2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 08/66] fix: Nfa.edges and Nfa.out_edges listed unhashable
 descriptors, unequal to those returned by add_edge

---
 src/pybgl/nfa.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 3274a83..42ade76 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -161,11 +161,8 @@ class Nfa(DirectedGraph):
         rn = arn.get(a)
         if rn is None:
             rn = self.adjacencies[q][a] = dict()
-        s = rn.get(r)
-        if s is None:
-            s = rn[r] = set()
-        n = len(s) + 1
-        s.add(n)
+        # A transition is stored once, even if it is added several times.
+        n = rn[r] = 1
         return (EdgeDescriptor(q, r, (a, n)), True)
 
     def remove_edge(self, e: EdgeDescriptor):
-- 
2.43.0


From 73e1433d142adc4be528d9707f5a217640720d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 09/66] fix: Nfa.remove_edge left the symbol of a removed
 transition in sigma and alphabet

---
 src/pybgl/nfa.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 42ade76..198307d 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -177,9 +177,12 @@ class Nfa(DirectedGraph):
         r = self.target(e)
         (a, n) = e.distinguisher
         try:
-            del self.adjacencies[q][a][r]
+            rn = self.adjacencies[q][a]
+            del rn[r]
         except KeyError:
-            pass
+            return
+        if not rn:
+            del self.adjacencies[q][a]
 
     def out_edges(self, q: int):
         """
-- 
2.43.0


From 0403db88a3848a1d4acdaa2406fc11ea543522b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 10/66] fix: depth_first_search_graph explored the whole graph
 when given no source

---
 src/pybgl/depth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/depth_first_search.py b/src/pybgl/depth_first_search.py
index eebb8d8..ce5fa77 100644
--- a/src/pybgl/depth_first_search.py
+++ b/src/pybgl/depth_first_search.py
@@ -223,6 +223,6 @@ def depth_first_search_graph(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
-    for u in (sources if sources else g.vertices()):
+    for u in (sources if sources is not None else g.vertices()):
         if pmap_vcolor[u] == WHITE:
             depth_first_search(u, g, pmap_vcolor, vis, if_push)
-- 
2.43.0


From 60e222da512b311b03e1aa9f1dc1b5550cabb511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 11/66] fix: breadth_first_search crashed without visitor

---
 src/pybgl/breadth_first_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 02bc7e4..6f307dd 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -231,6 +231,8 @@ def breadth_first_search(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
+    if vis is None:
+        vis = DefaultBreadthFirstSearchVisitor()
     for u in g.vertices():
         vis.initialize_vertex(u, g)
         pmap_vcolor[u] = WHITE
-- 
2.43.0


From 84416e9a7fdba9e1ee4dcdf9f4c88335075301ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 12/66] fix: parallel_breadth_first_search passed the second
 automaton twice to finish_vertex

---
 src/pybgl/parallel_breadth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index bde529e..b8ff0bf 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -285,4 +285,4 @@ def parallel_breadth_first_search(
             else:
                 vis.black_target(e1, g1, e2, g2, a)
         pmap_vcolor[(q1, q2)] = BLACK
-        vis.finish_vertex(q1, g2, q2, g2)
+        vis.finish_vertex(q1, g1, q2, g2)
-- 
2.43.0


From 0498dbfc263eb949dc974e20323ff531db0dc2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 13/66] fix: parallel_breadth_first_search visited twice a
 source pair that lies on a cycle

---
 src/pybgl/parallel_breadth_first_search.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index b8ff0bf..e46e3ba 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -247,20 +247,22 @@ def parallel_breadth_first_search(
 
     if vis is None:
         vis = ParallelBreadthFirstSearchVisitor()
+    if not pmap_vcolor:
+        map_vcolor = defaultdict(int)
+        pmap_vcolor = make_assoc_property_map(map_vcolor)
+
     if source_pairs is None:
         q01 = g1.initial()
         q02 = g2.initial()
         stack.appendleft((q01, q02))
+        pmap_vcolor[(q01, q02)] = GRAY
         vis.start_vertex(q01, g1, q02, g2)
     else:
         for (s1, s2) in source_pairs:
             stack.appendleft((s1, s2))
+            pmap_vcolor[(s1, s2)] = GRAY
             vis.start_vertex(s1, g1, s2, g2)
 
-    if not pmap_vcolor:
-        map_vcolor = defaultdict(int)
-        pmap_vcolor = make_assoc_property_map(map_vcolor)
-
     if not if_push:
         if_push = (lambda e1, g1, e2, g2: True)
 
-- 
2.43.0


From ead9d4fbc6eeaecbbb7696ddce24e431cd10ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 14/66] fix: deterministic_intersection did not explore pairs
 involving state 0

---
 src/pybgl/deterministic_intersection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 377b5db..3b3f95f 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -81,9 +81,9 @@ def deterministic_intersection(
         vis=vis,
         if_push=lambda e1, g1, e2, g2: (
             e1 is not None
-            and g1.target(e1)
+            and g1.target(e1) is not BOTTOM
             and e2 is not None
-            and g2.target(e2)
+            and g2.target(e2) is not BOTTOM
         )
     )
     return g12
-- 
2.43.0


From 203ee7933d7bce9448d175bc65fa20b3b78d01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 15/66] fix: products of automata moved their initial state
 when an operand comes back to its own

---
 src/pybgl/product_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 894f68d..165c110 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -52,7 +52,7 @@ class ProductMixin:
             i.e. ``self.g12``.
         """
         q12 = self.g12.add_vertex()
-        if self.operator(g1.is_initial(q1), g2.is_initial(q2)):
+        if g1.is_initial(q1) and g2.is_initial(q2):
             self.g12.set_initial(q12)
         if self.operator(g1.is_final(q1), g2.is_final(q2)):
             self.g12.set_final(q12)
-- 
2.43.0


From e34a82f3e8bc31cc12123a917a271c4c34e37b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 16/66] fix: products of automata ignored an initial pair
 without transition, and so the empty word

---
 src/pybgl/deterministic_intersection.py | 12 ++++++++++++
 src/pybgl/deterministic_union.py        | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 3b3f95f..1f62dae 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -30,6 +30,18 @@ class DeterministicIntersectionVisitor(
         """
         super().__init__(g12, lambda a, b: a and b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        """
+        Method invoked when processing the pair of initial states.
+
+        Args:
+            s1 (int): The initial state of ``g1``.
+            g1 (Automaton): The left operand.
+            s2 (int): The initial state of ``g2``.
+            g2 (Automaton): The right operand.
+        """
+        self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 73e0d85..78c16b8 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -30,6 +30,18 @@ class DeterministicUnionVisitor(
         """
         super().__init__(g12, lambda a, b: a or b)
 
+    def start_vertex(self, s1: int, g1: Automaton, s2: int, g2: Automaton):
+        """
+        Method invoked when processing the pair of initial states.
+
+        Args:
+            s1 (int): The initial state of ``g1``.
+            g1 (Automaton): The left operand.
+            s2 (int): The initial state of ``g2``.
+            g2 (Automaton): The right operand.
+        """
+        self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
-- 
2.43.0


From b339751e582c893d1738a671461db57c9c2abcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 17/66] fix: products of node automata lost the symbol of
 transitions missing in one operand

---
 src/pybgl/product_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 165c110..a810157 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -83,14 +83,16 @@ class ProductMixin:
         if e1:
             q1 = g1.source(e1)
             r1 = g1.target(e1)
-            a = g1.label(e1)
+            if r1 is not BOTTOM:
+                a = g1.label(e1)
         else:
             q1 = r1 = BOTTOM
 
         if e2:
             q2 = g2.source(e2)
             r2 = g2.target(e2)
-            a = g2.label(e2)
+            if r2 is not BOTTOM:
+                a = g2.label(e2)
         else:
             q2 = r2 = BOTTOM
 
-- 
2.43.0


From 8fba737874f192f629daf155fb385b510f2a5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 18/66] fix: hopcroft_minimize crashed without final state or
 without non-final state

---
 src/pybgl/hopcroft_minimize.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index 85564c5..bac2865 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -29,13 +29,13 @@ def hopcroft_agglomerate_states(g: IncidenceAutomaton) -> set:
     g_alphabet = g.alphabet()
     final_states = {q for q in g.vertices() if g.is_final(q)}
     aggregated_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
-    }
-    waiting_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
+        qs
+        for qs in (
+            frozenset(final_states),
+            frozenset(g.vertices()) - final_states
+        ) if qs
     }
+    waiting_states = set(aggregated_states)
     while waiting_states != set():
         current_states = waiting_states.pop()
         for a in g_alphabet:
-- 
2.43.0


From 6d6ef5aeccaff647fc68300cbbfba9cfccd2dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 19/66] fix: parallel_breadth_first_search never explored a
 pair first reached by a filtered transition

---
 src/pybgl/parallel_breadth_first_search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index e46e3ba..cef9094 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -277,10 +277,10 @@ def parallel_breadth_first_search(
             vis.examine_edge(e1, g1, e2, g2, a)
             color = pmap_vcolor[(r1, r2)]
             if color == WHITE:
-                vis.tree_edge(e1, g1, e2, g2, a)
-                pmap_vcolor[(r1, r2)] = GRAY
-                vis.discover_vertex(r1, g1, r2, g2)
                 if if_push(e1, g1, e2, g2):
+                    vis.tree_edge(e1, g1, e2, g2, a)
+                    pmap_vcolor[(r1, r2)] = GRAY
+                    vis.discover_vertex(r1, g1, r2, g2)
                     stack.appendleft((r1, r2))
             elif color == GRAY:
                 vis.gray_target(e1, g1, e2, g2, a)
-- 
2.43.0


From 0ea8d48d20a9c9a670620658d5d552f1e44cd00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 20/66] fix: DigitalSequence.set_initial/set_final raised
 TypeError instead of refusing the modification

---
 src/pybgl/digital_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/digital_sequence.py b/src/pybgl/digital_sequence.py
index 8cddb27..055adfa 100644
--- a/src/pybgl/digital_sequence.py
+++ b/src/pybgl/digital_sequence.py
@@ -96,7 +96,7 @@ class DigitalSequence(Trie):
         # Overloaded
         return len(self.w)
 
-    def set_initial(self):
+    def set_initial(self, *args):
         # Overloaded
         raise RuntimeError(ERR_STRING_IMMUTABLE)
 
@@ -108,7 +108,7 @@ class DigitalSequence(Trie):
         # Overloaded
         return q == 0
 
-    def set_final(self):
+    def set_final(self, *args):
         # Overloaded
         raise RuntimeError(ERR_STRING_IMMUTABLE)
 
-- 
2.43.0


From ab85c28a84813431c5249f560cee18e8aa493d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 21/66] fix: slices, factors and make_suffix_trie took
 max_len=0 for no limit

---
 src/pybgl/suffix_trie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/suffix_trie.py b/src/pybgl/suffix_trie.py
index f673cbf..1c89a88 100644
--- a/src/pybgl/suffix_trie.py
+++ b/src/pybgl/suffix_trie.py
@@ -33,7 +33,7 @@ def slices(n, max_len: int = None) -> iter:
             for i in range(n)
             for j in range(
                 i + 1,
-                min(n, i + max_len) + 1 if max_len else n + 1
+                min(n, i + max_len) + 1 if max_len is not None else n + 1
             )
         )
     )
@@ -90,7 +90,7 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
     n = len(w)
     for i in range(n):
         q = g.initial()
-        for j in range(i, min(n, i + max_len) if max_len else n):
+        for j in range(i, min(n, i + max_len) if max_len is not None else n):
             a = w[j]
             r = g.delta(q, a)
             if r is BOTTOM:
-- 
2.43.0


From 9f66fef7b20587a8e9f090129ef12600a710df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 22/66] fix: topological_sort did not fill in place an empty
 container given by the caller

---
 src/pybgl/topological_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/topological_sort.py b/src/pybgl/topological_sort.py
index 928fe83..4539ee2 100644
--- a/src/pybgl/topological_sort.py
+++ b/src/pybgl/topological_sort.py
@@ -50,7 +50,7 @@ def topological_sort(g: DirectedGraph, stack: deque = None) -> deque:
     Returns:
         The stack containing the vertices, sorted by topological order.
     """
-    stack = stack if stack else deque()
+    stack = stack if stack is not None else deque()
     depth_first_search_graph(
         g,
         pmap_vcolor=make_assoc_property_map(defaultdict(int)),
-- 
2.43.0


From 8c18e8d2f46f34f139c855a398a46d3aca19fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 23/66] fix: AggregatedVisitor dropped the keyword arguments of
 an event

---
 src/pybgl/aggregated_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index 9bbdc66..1c28389 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -29,7 +29,7 @@ class AggregatedVisitor:
         """
         def wrapper(*args, **kwargs):
             for vis in self.visitors:
-                getattr(vis, method_name)(*args)
+                getattr(vis, method_name)(*args, **kwargs)
         return wrapper
 
     @staticmethod
-- 
2.43.0


From f4ed201607568b3f8f4cb555c14a18f01aa3fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 24/66] fix: Dijkstra lost equally good predecessors when given
 a non-strict order

---
 src/pybgl/dijkstra_shortest_paths.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 2abb979..1939fde 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -163,7 +163,12 @@ def dijkstra_shortest_paths_iteration(
         w_sv = pmap_vdist[v]
         w_uv = pmap_eweight[e]
         w = combine(w_su, w_uv)
-        if compare(w, w_sv):  # Traversing u is worth!
+        if w == w_sv:  # Hence we discover equally-cost shortest paths
+            preds_v = pmap_vpreds[v]
+            preds_v.add(e)
+            pmap_vpreds[v] = preds_v
+            vis.edge_relaxed(e, g)
+        elif compare(w, w_sv):  # Traversing u is worth!
             pmap_vdist[v] = w
             pmap_vpreds[v] = {e}
             if pmap_vcolor[v] == WHITE:
@@ -173,11 +178,6 @@ def dijkstra_shortest_paths_iteration(
             elif pmap_vcolor[v] == GRAY:
                 heap.decrease_key(v)
             vis.edge_relaxed(e, g)
-        elif w == w_sv:  # Hence we discover equally-cost shortest paths
-            preds_v = pmap_vpreds[v]
-            preds_v.add(e)
-            pmap_vpreds[v] = preds_v
-            vis.edge_relaxed(e, g)
         else:
             vis.edge_not_relaxed(e, g)
     pmap_vcolor[u] = BLACK
-- 
2.43.0


From 12dd9d2e5b7683ef595a785d75b6de33f56cbefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 25/66] fix: make_shortest_path and single_path ran forever or
 astray around null cycles

---
 src/pybgl/dijkstra_shortest_paths.py | 31 ++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 1939fde..9659da4 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -5,7 +5,7 @@
 # https://github.com/nokia/pybgl
 
 import sys
-from collections import defaultdict
+from collections import defaultdict, deque
 from .algebra import BinaryRelation, BinaryOperator, Less, ClosedPlus
 from .aggregated_visitor import AggregatedVisitor
 from .graph import Graph, EdgeDescriptor
@@ -318,13 +318,16 @@ def make_shortest_paths_dag(
     Returns:
         The corresponding set of arcs.
     """
+    if single_path:
+        return (
+            set(make_shortest_path(g, s, t, pmap_vpreds)) if pmap_vpreds[t]
+            else set()
+        )
     kept_edges = set()
     to_process = {t}
     done = set()
     while to_process:
         es = {e for u in to_process if pmap_vpreds[u] for e in pmap_vpreds[u]}
-        if single_path and es:
-            es = {es.pop()}
         kept_edges |= es
         predecessors = {g.source(e) for e in es if e not in done}
         done |= to_process
@@ -356,13 +359,23 @@ def make_shortest_path(
         If several shortest paths exist from ``s`` to ``t``,
         this function returns an arbitrary shortest path.
     """
-# USELESS |    arcs = make_dag(g, s, t, pmap_vpreds, single_path=True)
-    u = t
+    # Walk back from t to s. Vertices are visited at most once because
+    # some predecessors may be involved in a cycle of null weight.
+    map_next = {t: None}
+    to_process = deque([t])
+    while s not in map_next:
+        v = to_process.popleft()
+        for e in pmap_vpreds[v]:
+            u = g.source(e)
+            if u not in map_next:
+                map_next[u] = e
+                to_process.append(u)
     path = list()
-    while u != s:
-        e = list(pmap_vpreds[u])[0]
-        path.insert(0, e)
-        u = g.source(e)
+    u = s
+    while u != t:
+        e = map_next[u]
+        path.append(e)
+        u = g.target(e)
     return path
 
 
-- 
2.43.0


From 4414b77abea2ffa3082a61954bfe40a453b23400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 26/66] fix: automaton_copy raised TypeError when given no
 vertex or edge map

---
 src/pybgl/automaton_copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton_copy.py b/src/pybgl/automaton_copy.py
index f1cfec5..36efcca 100644
--- a/src/pybgl/automaton_copy.py
+++ b/src/pybgl/automaton_copy.py
@@ -96,10 +96,10 @@ def automaton_copy(
 
     # Prepare the AutomatonCopyVisitor
     if not pmap_vertices:
-        map_vertices = dict()
+        map_vertices = defaultdict(None)
         pmap_vertices = make_assoc_property_map(map_vertices)
     if not pmap_edges:
-        map_edges = dict()
+        map_edges = defaultdict(None)
         pmap_edges = make_assoc_property_map(map_edges)
 
     vis = AutomatonCopyVisitor(
-- 
2.43.0


From bfdffe5e8b231df2885f13675b0241e074b922a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 27/66] fix: the difference of two graph views showed edges
 hidden by the first one

---
 src/pybgl/graph_view.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 18fc175..1213f47 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -114,10 +114,11 @@ class GraphView:
             ),
             make_func_property_map(
                 lambda e: (
-                    self.pmap_erelevant[e] and
-                    not gv.pmap_erelevant[e] or (
-                        not gv.pmap_vrelevant[self.source(e)] and
-                        not gv.pmap_vrelevant[self.target(e)]
+                    self.pmap_erelevant[e] and (
+                        not gv.pmap_erelevant[e] or (
+                            not gv.pmap_vrelevant[self.source(e)] and
+                            not gv.pmap_vrelevant[self.target(e)]
+                        )
                     )
                 )
             )
-- 
2.43.0


From a7b836eb37462c4312e346aa4f4a457cbe9479c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 28/66] fix: shunting_yard_compute and RpnDequeAlg could not
 evaluate a unary plus

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 16e3bd6..3cfb9a8 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -742,7 +742,7 @@ class RpnDequeAlg(RpnDequeOperation):
             return x ** y
         elif a == "u-":
             return -x
-        elif a == "u-":
+        elif a == "u+":
             return x
         else:
             raise ValueError(f"Unsupported operator '{a}'")
-- 
2.43.0


From 7fbad4a2b91bacfa4c244a8d312ca3b5a4a07252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 29/66] fix: shunting_yard_postfix crashed on a sign after a
 tighter operator (2 ^ -3)

---
 src/pybgl/shunting_yard_postfix.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 3cfb9a8..7360e2d 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -386,8 +386,15 @@ def shunting_yard_postfix(
                 push_output(o)
                 o = pop_operator()
         elif a in map_operators.keys():
+            # A prefix operator has no left operand, hence
+            # cannot complete the operations being parsed.
+            is_prefix = (
+                map_operators[a].cardinality == 1
+                and map_operators[a].associativity == RIGHT
+            )
             while (
-                operators
+                not is_prefix
+                and operators
                 and operators[-1] in map_operators.keys()
                 and preceeds(operators[-1], a)
             ):
-- 
2.43.0


From d13c0d0368ac0b70fe88aaacd8484a23bab4cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 30/66] fix: shunting_yard_compute crashed when given tokens
 (tokenize=False)

---
 src/pybgl/shunting_yard_postfix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 7360e2d..619caff 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -782,10 +782,9 @@ def shunting_yard_compute(
     Returns:
         The output ``float`` result.
     """
-    if tokenize:
-        output = RpnDequeAlg(map_operators=map_operators)
+    output = RpnDequeAlg(map_operators=map_operators)
     ret = shunting_yard_postfix(
-        tokenizer_alg(expression),
+        tokenizer_alg(expression) if tokenize else expression,
         map_operators,
         output,
         vis
-- 
2.43.0


From 74a33b79e6b2d60a619fd434ee1cb94c86e8226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 31/66] fix: Ast.to_expr always crashed

---
 src/pybgl/shunting_yard_postfix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 619caff..00a87b5 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -591,14 +591,19 @@ class Ast(DirectedGraph):
             if d == 0:
                 return a
             elif d == 1:
-                child = self.children(u)[0]
-                return f"({to_expr_rec(child)}){a}"
+                (child,) = self.children(u)
+                expr = to_expr_rec(child)
+                # The unary signs are the only prefix operators.
+                return (
+                    f"({a[1:]}({expr}))" if a in {"u+", "u-"}
+                    else f"({expr}){a}"
+                )
             else:
                 return "(%s)" % a.join(
                     to_expr_rec(child)
                     for child in self.children(u)
                 )
-        if self.root:
+        if self.root is None:
             raise RuntimeError("self.root is not initialized")
         return to_expr_rec(self.root)
 
@@ -683,7 +688,7 @@ def shunting_yard_ast(
     output = RpnDequeAst(map_operators=map_operators, ast=ast)
     ret = shunting_yard_postfix(expression, map_operators, output, vis)
     assert len(ret) == 1
-    root = ret.pop()
+    root = ast.root = ret.pop()
     return (ast, root)
 
 
-- 
2.43.0


From 57764ba5c157cf4dc1a43606f1ca65cdcc3065b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:51 +0000
Subject: [PATCH 32/66] fix: the ? operator let a regexp match the middle of
 its operand

---
 src/pybgl/thompson_compile_nfa.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 489458d..0eedc63 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -196,8 +196,17 @@ def zero_or_one(nfa: Nfa, q0: int, f: int) -> tuple:
         ``f`` is its initial state.
     """
     eps = nfa.epsilon
-    nfa.add_edge(q0, f, eps)
-    return (nfa, q0, f)
+    # q0 may have in-transitions and f may have out-transitions, so
+    # the NFA must only be skipped from a new state to another new state.
+    new_q0 = nfa.add_vertex()
+    new_f = nfa.add_vertex()
+    nfa.add_edge(new_q0, q0, eps)
+    nfa.add_edge(f, new_f, eps)
+    nfa.add_edge(new_q0, new_f, eps)
+    nfa.set_initials({new_q0})
+    nfa.set_final(f, False)
+    nfa.set_final(new_f, True)
+    return (nfa, new_q0, new_f)
 
 
 def zero_or_more(nfa: Nfa, q0: int, f: int) -> tuple:
-- 
2.43.0


From ff1232cce285211ded6931b70637757234d511de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:48 +0000
Subject: [PATCH 33/66] fix: a regexp repeated {0,n}, {0} or {m,n} times
 matched wrong words

---
 src/pybgl/thompson_compile_nfa.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 0eedc63..34829fd 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -335,19 +335,11 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         (nfa2, q02, f2) = one_or_more(ori, q0, f)
         return concatenation(nfa1, q01, f1, nfa2, q02, f2)
     else:
-        (q0_ori, f_ori, ori) = (q0, f, copy.deepcopy(nfa))
-        (nfa, _, f) = repetition(nfa, q0, f, m)
-        final_states = {f}
-        # The m-n following NFA instances are optional. We add them
-        # one by one to get their respective final states to build an
-        # epsilon-transition toward a same and unique final state.
+        (ori, q0_ori, f_ori) = zero_or_one(ori, q0, f)
+        (nfa, q0, f) = repetition(nfa, q0, f, m)
+        # The n-m following NFA instances are optional.
         for i in range(n - m):
             (nfa, q0, f) = concatenation(nfa, q0, f, ori, q0_ori, f_ori)
-            final_states.add(f)
-        eps = nfa.epsilon
-        for pred_f in final_states:
-            if pred_f != f:
-                nfa.add_edge(pred_f, f, eps)
         return (nfa, q0, f)
 
 
-- 
2.43.0


From 72210d02ec9af86d7d5bec13c6db6c340309fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:56 +0000
Subject: [PATCH 34/66] fix: re_escape escaped ^, $ and \ in a way no regexp
 could be compiled from

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 00a87b5..d50364d 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -153,7 +153,7 @@ RE_OPERATORS_RE = [
     # "\\[.*\\]",
     '\\[([^]])*\\]',
     # Escape sequences (not exhaustive)
-    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}])",
+    "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}^$\\\\])",
 ]
 
 
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 34829fd..b734432 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -499,7 +499,8 @@ def parse_escaped(s: str, whole_alphabet: iter = None) -> set:
     if len(s) == 2:
         if s in {
             r"\+", r"\*", r"\?", r"\.", r"\|",
-            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}"
+            r"\[", r"\]", r"\(", r"\)", r"\{", r"\}",
+            r"\^", r"\$", "\\\\"
         }:
             return {s[1]}
         elif s in {r"\A", r"\B", r"\Z"}:
-- 
2.43.0


From 9d7ae2335d714d6601bf33544fc8c232e2ac9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:03 +0000
Subject: [PATCH 35/66] fix: parse_bracket read a trailing - (as in [+-]), a -
 after a range or next to an escape as a range

---
 src/pybgl/thompson_compile_nfa.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index b734432..a97d480 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -441,23 +441,32 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
 
     while i < imax - 1:
         a = s[i]
-        if a == "-" and last_non_hat:
+        if a == "-" and last_non_hat and i + 1 < imax - 1:
+            end = s[i + 1]
+            i += 1
+            if end == "\\":
+                end = parse_escaped(s[i:i+2], whole_alphabet)
+                if len(end) != 1:
+                    raise ValueError(f"Invalid end of interval in s = {s}")
+                (end,) = end
+                i += 1
             m = ord(last_non_hat)
-            n = ord(s[i + 1])
+            n = ord(end)
             if m > n:
                 raise ValueError(
                     f"Invalid end of interval in s = {s} at index m = {m}"
                 )
             for c in range(m, n + 1):
                 accepted.add(chr(c))
+            last_non_hat = None
+        elif a == "\\":
+            chars = parse_escaped(s[i:i+2], whole_alphabet)
+            accepted |= chars
+            last_non_hat = list(chars)[0] if len(chars) == 1 else None
             i += 1
         else:
-            if a == "\\":
-                accepted |= parse_escaped(s[i:i+2])
-                i += 1
-            else:
-                accepted.add(a)
-        last_non_hat = a
+            accepted.add(a)
+            last_non_hat = a
         i += 1
     return accepted if not reverse else set(whole_alphabet) - accepted
 
-- 
2.43.0


From 4db33fdad93dc8942fabf8075d2d67f60340c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:08 +0000
Subject: [PATCH 36/66] fix: an escaped ] ended the character class of a regexp

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index d50364d..12bedb9 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -151,7 +151,7 @@ RE_OPERATORS_RE = [
     "\\{\\s*\\d+(\\s*,)?(\\s*\\d+)?\\s*\\}",
     # Character classes
     # "\\[.*\\]",
-    '\\[([^]])*\\]',
+    '\\[([^]\\\\]|\\\\.)*\\]',
     # Escape sequences (not exhaustive)
     "(\\\\[abdDfnrsStvwW*+?.|\\[\\](){}^$\\\\])",
 ]
-- 
2.43.0


From 289ef98d841bd9eb1e4d1245e15f90f3671451ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:15 +0000
Subject: [PATCH 37/66] fix: the {,n} operator of a regexp was read as plain
 characters

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 12bedb9..e404a66 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -148,7 +148,7 @@ RE_OPERATORS_RE = [
     for op in list(MAP_OPERATORS_RE.keys()) + ["(", ")"]
 ] + [
     # Extra repetition operators
-    "\\{\\s*\\d+(\\s*,)?(\\s*\\d+)?\\s*\\}",
+    "\\{\\s*(\\d+(\\s*,)?(\\s*\\d+)?|,\\s*\\d+)\\s*\\}",
     # Character classes
     # "\\[.*\\]",
     '\\[([^]\\\\]|\\\\.)*\\]',
-- 
2.43.0


From 6a5ca0abea7c01303d52b1c83c5e60c8e56e6d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 38/66] fix: in a regexp {m,n} was applied before a *, + or ?
 at its left (as in a*{2})

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index e404a66..e4a36ae 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -137,7 +137,7 @@ MAP_OPERATORS_RE = {
     # Unary operators
     "*":  Op(cardinality=1, precedence=4, associativity=LEFT),
     "+":  Op(cardinality=1, precedence=4, associativity=LEFT),
-    "?":  Op(cardinality=1, precedence=3, associativity=LEFT),
+    "?":  Op(cardinality=1, precedence=4, associativity=LEFT),
     # Binary operators
     ".":  Op(cardinality=2, precedence=2, associativity=LEFT),
     "|":  Op(cardinality=2, precedence=1, associativity=LEFT),
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index a97d480..146ec24 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -597,8 +597,13 @@ def thompson_compile_nfa(expression: str, whole_alphabet: iter = None) -> Nfa:
                 (nfa1, q01, f1) = literal(a)
             self.nfas.append((nfa1, q01, f1))
 
+    map_operators = dict(MAP_OPERATORS_RE)
+    for a in expression:
+        if a[0] == "{" and len(a) > 1:
+            map_operators[a] = MAP_OPERATORS_RE["*"]
+
     vis = ThompsonShuntingYardVisitor()
-    shunting_yard_postfix(expression, map_operators=MAP_OPERATORS_RE, vis=vis)
+    shunting_yard_postfix(expression, map_operators=map_operators, vis=vis)
     assert len(vis.nfas) == 1
     (nfa, q0, f) = vis.nfas.pop()
     return (nfa, q0, f)
-- 
2.43.0


From ec71ec4da810e85992c95a3f39f1fc64d2909006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 39/66] fix: enrich_kwargs altered the dictionary of its
 caller, and so the style of later exports

---
 src/pybgl/graphviz_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index e4417e4..1efe9d6 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -351,8 +351,7 @@ def enrich_kwargs(default_d: dict, key: str, **kwargs) -> dict:
         The updated ``**kwargs``.
     """
     if default_d:
-        if key not in kwargs:
-            kwargs[key] = dict()
+        kwargs[key] = dict(kwargs.get(key) or {})
         for (k, v) in default_d.items():
             if k not in kwargs[key].keys():
                 kwargs[key][k] = v
-- 
2.43.0


From 2dc081e46ebf5cbb0449c78db198d19c17ba2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 40/66] fix: GraphDp.to_dot crashed when given an extra style,
 and GraphDp.get_dpe always did

---
 src/pybgl/graph_dp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 5066e9f..dbf69ec 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -73,7 +73,7 @@ class GraphDp:
         return self.dpv
 
     def get_dpe(self) -> dict:
-        return self.dpve
+        return self.dpe
 
     def get_dg(self) -> dict:
         return self.dg
@@ -97,7 +97,8 @@ class GraphDp:
         kwargs = enrich_kwargs(self.dg, "dg", **kwargs)
         kwargs = enrich_kwargs(self.dv, "dv", **kwargs)
         kwargs = enrich_kwargs(self.de, "de", **kwargs)
-        kwargs = enrich_kwargs(self.extra_style, "extra_style", **kwargs)
+        if self.extra_style and kwargs.get("extra_style") is None:
+            kwargs["extra_style"] = ";\n  ".join(self.extra_style)
         return to_dot(self.g, **kwargs)
 
     # TODO GraphView
-- 
2.43.0


From 3ae108cf6f996e28b2524aa9207eb5aac402af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 41/66] fix: GraphDp.to_json made an invalid JSON when a
 property holds a quote or a backslash

---
 src/pybgl/graph_dp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index dbf69ec..1fa39b4 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -4,6 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
+import json
 from copy import copy
 from .graph import Graph
 from .graphviz import GraphvizStyle, enrich_kwargs, graphviz_type, to_dot
@@ -127,7 +128,7 @@ class GraphDp:
                     JSON_NODE_FORMAT % {
                         "id": u,
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[u])
+                            "%s: %s" % (json.dumps(str(k)), json.dumps(str(pmap[u])))
                             for k, pmap in self.dpv.items()
                         ]),
                         "sep": "," if self.dpv else "",
@@ -138,7 +139,7 @@ class GraphDp:
                         "source": self.g.source(e),
                         "target": self.g.target(e),
                         "attributes": ",\n            ".join([
-                            "\"%s\": \"%s\"" % (k, pmap[e])
+                            "%s: %s" % (json.dumps(str(k)), json.dumps(str(pmap[e])))
                             for k, pmap in self.dpe.items()
                         ]),
                         "sep": "," if self.dpe else "",
-- 
2.43.0


From 952ac6562b513dab4f556aae9d43198b4360beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 42/66] fix: a property that holds a double quote made an
 invalid Graphviz string

---
 src/pybgl/graphviz_impl.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index 1efe9d6..5fcffd4 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -10,6 +10,25 @@ from .singleton import Singleton
 from .tokenize import TokenizeVisitor, tokenize
 
 
+def graphviz_quote(x: object) -> str:
+    """
+    Quotes a value assigned to a Graphviz attribute. The escape sequences
+    already involved in this value (e.g. ``\\n``) are kept as they are.
+
+    Args:
+        x (object): The value.
+
+    Returns:
+        The corresponding quoted Graphviz string.
+    """
+    return '"%s"' % re.sub(
+        r'\\.|["\\]',
+        lambda m: m[0] if len(m[0]) == 2 else "\\" + m[0],
+        str(x),
+        flags=re.DOTALL
+    )
+
+
 # ------------------------------------------------------------------
 # Graphviz style
 # ------------------------------------------------------------------
@@ -92,7 +111,7 @@ class GraphvizStyle(metaclass=Singleton):
         return "%s [%s]" % (
             prefix,
             "; ".join([
-                "%s=\"%s\"" % (k, v) for k, v in d.items()
+                "%s=%s" % (k, graphviz_quote(v)) for k, v in d.items()
             ])
         ) if d else ""
 
@@ -220,7 +239,7 @@ def graphviz_properties_to_str(x: object, dpx: dict) -> str:
         The resulting Graphviz string.
     """
     return "[%s]" % "; ".join([
-        f"{k}=\"{pmap[x]}\"" if k != "label"
+        f"{k}={graphviz_quote(pmap[x])}" if k != "label"
         else f"{k}=<{graphviz_escape_html(str(pmap[x]))}>"
         for (k, pmap) in dpx.items()
         if pmap[x] is not None
@@ -296,7 +315,7 @@ def graphviz_dx_to_dot(prefix: str, dx: dict) -> str:
     return "%s [%s]" % (
         prefix,
         "; ".join([
-            f"{k}=\"{v}\""
+            f"{k}={graphviz_quote(v)}"
             for (k, v) in dx.items()
         ])
     ) if dx else ""
-- 
2.43.0


From 46782f44e0b89dafebaaec3e36310f93dfacffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 43/66] fix: read_graphviz ignored the edges of undirected
 graphs

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index c5979c1..1a29a8a 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -106,7 +106,7 @@ class ReadGraphvizVisitor(GraphvizVisitor):
 
 PATTERN_SPACE = "\\s*"
 PATTERN_VERTEX_ID = "([0-9]+)"
-PATTERN_EDGE_CONNECTOR = "->"  # TODO manage -- for undirected graphs
+PATTERN_EDGE_CONNECTOR = "(?:->|--)"
 PATTERN_OPTS = "(\\[(.*)\\])?"
 PATTERN_LINE_VERTEX = PATTERN_SPACE.join(
     [PATTERN_VERTEX_ID, PATTERN_OPTS, ";"]
-- 
2.43.0


From ddd4b614085c2cddfae5c3357bc2df49923395c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 44/66] fix: write_graphviz crashed whatever the format

---
 src/pybgl/graphviz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 1a29a8a..0b534b3 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -320,12 +320,13 @@ def write_graphviz(
         ret = False
         bytes_img = run_graphviz(s_dot, engine, format)
         if bytes_img:
-            print(bytes_img.decode("utf-8"), file=f)
+            f.write(bytes_img)
             ret = True
         return ret
 
     if isinstance(filename, str):
-        with open(filename, "w") as f:
+        mode = {"mode": "w", "encoding": "utf-8"} if format == "svg" else {"mode": "wb"}
+        with open(filename, **mode) as f:
             return write_graphviz_impl(s_dot, f, format, engine)
     else:
         return write_graphviz_impl(s_dot, filename, format, engine)
-- 
2.43.0


From a06a3cb1c856b52a161bc515f82f529f34a09690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 45/66] fix: GraphView.to_dot crashed when the vertices or
 edges to export are not sets

---
 src/pybgl/graph_view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 1213f47..c207cb3 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -255,7 +255,7 @@ class GraphView:
         vs_ = kwargs.pop("vs", None)
         es_ = kwargs.pop("es", None)
         return self.g.to_dot(
-            vs=(vs & vs_) if vs_ is not None else vs,
-            es=(es & es_) if es_ is not None else es,
+            vs=(vs & set(vs_)) if vs_ is not None else vs,
+            es=(es & set(es_)) if es_ is not None else es,
             *cls, **kwargs
         )
-- 
2.43.0


From 31f93b1c24c133fd2f79ebe18c7c044cc0043c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 46/66] fix: read_graphviz lost or damaged the attributes of an
 exported vertex or edge

---
 src/pybgl/graphviz.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 0b534b3..595c5ff 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -6,7 +6,7 @@
 
 import re
 import sys
-from html.parser import HTMLParser
+from html import unescape
 from subprocess import Popen, PIPE
 from .graph import Graph, EdgeDescriptor
 from .graphviz_impl import *
@@ -16,26 +16,39 @@ from .graphviz_impl import *
 # Graphviz read
 # ------------------------------------------------------------------
 
-class GraphvizOptsParser(HTMLParser):
+RE_GRAPHVIZ_OPT = re.compile(
+    r"""
+    ([^\s=;,]+)\s*=\s*(?:          # key =
+        "((?:[^"\\]|\\.)*)"         # "value"
+        | '([^']*)'                 # 'value'
+        | <((?:[^<>]|<[^<>]*>)*)>   # <HTML value>
+        | ([^\s;,]+)                # value
+    )
+    """,
+    re.VERBOSE
+)
+
+
+class GraphvizOptsParser:
     """
     The :py:class:`GraphvizOptsVisitor` is
-    used to parse HTML content related to a vertex or an edge.
+    used to parse the attributes related to a vertex or an edge.
     """
     def __init__(self):
         """
         Constructor.
         """
-        super().__init__()
         self.d = dict()
 
-    def handle_starttag(self, tag, attrs):
-        for (k, v) in attrs:
-            self.d[k] = v
-
     def feed(self, graphviz_opts):
-        if graphviz_opts:
-            graphviz_opts = "<fake_tag " + graphviz_opts[1:-1] + ">"
-            super().feed(graphviz_opts)
+        for m in RE_GRAPHVIZ_OPT.finditer((graphviz_opts or "")[1:-1]):
+            (k, quoted, single_quoted, html, bare) = m.groups()
+            if quoted is not None:
+                self.d[k] = quoted.replace("\\\"", "\"")
+            else:
+                self.d[k] = unescape(
+                    next(x for x in (single_quoted, html, bare) if x is not None)
+                )
 
     def items(self):
         return self.d.items()
-- 
2.43.0


From d9cbb920945bb8dc8de586439aabba340028e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 47/66] fix: read_graphviz_dp always raised TypeError

---
 src/pybgl/graphviz.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 595c5ff..0187dd4 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -189,19 +189,17 @@ class ReadGraphvizDpVisitor(ReadGraphvizVisitor):
     Graphviz file.
     """
     def __init__(self, g, dpv: dict, dpe: dict):
-        super().__init__(g)
+        super().__init__()
         self.dpv = dpv
         self.dpe = dpe
 
     def on_install_vertex_property(self, u, g, key, value):
-        pmap = self.dpv[key] if self.dpv else None
-        if pmap:
-            pmap[u] = value
+        if self.dpv is not None:
+            self.dpv.setdefault(u, dict())[key] = value
 
     def on_install_edge_property(self, e, g, key, value):
-        pmap = self.dpe[key] if self.dpe else None
-        if pmap:
-            pmap[e] = value
+        if self.dpe is not None:
+            self.dpe.setdefault(e, dict())[key] = value
 
 
 def read_graphviz_dp(
-- 
2.43.0


From 221dc95a3e78036cfb79285b3b7046a35100f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 48/66] fix: read_graphviz cut the lines whose label holds a
 Unicode line separator

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 0187dd4..10d6595 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -157,7 +157,7 @@ def read_graphviz(iterable, g: Graph, vis: ReadGraphvizVisitor = None):
     if not vis:
         vis = ReadGraphvizVisitor()
     if isinstance(iterable, str):
-        iterable = iterable.splitlines()
+        iterable = iterable.split("\n")
 
     for line in iterable:
         line = line.strip()
-- 
2.43.0


From 9207c8e89fe5fffdcdb1322ecf4f4570e6129cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 49/66] fix: a label such as <b <c> made an invalid Graphviz
 string

---
 src/pybgl/graphviz_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index 5fcffd4..d00b103 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -146,7 +146,7 @@ GRAPHVIZ_HTML_TOKENIZER = re.compile(
     "|".join(
         "<\\s*%s%s\\s*>" % (
             tag,
-            "(\\s[^>]*)?" if tag[0] != "/" else ""
+            "(\\s[^<>]*)?" if tag[0] != "/" else ""
         )
         for tag in GRAPHVIZ_SUPPORTED_HTML_TAGS
     ),
-- 
2.43.0


From 27bb0a1a6635238d1a5620e2d1b15f2875a31f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 50/66] fix: an empty label made an invalid Graphviz string

---
 src/pybgl/graphviz_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index d00b103..9b0e5f9 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -239,7 +239,7 @@ def graphviz_properties_to_str(x: object, dpx: dict) -> str:
         The resulting Graphviz string.
     """
     return "[%s]" % "; ".join([
-        f"{k}={graphviz_quote(pmap[x])}" if k != "label"
+        f"{k}={graphviz_quote(pmap[x])}" if k != "label" or str(pmap[x]) == ""
         else f"{k}=<{graphviz_escape_html(str(pmap[x]))}>"
         for (k, pmap) in dpx.items()
         if pmap[x] is not None
-- 
2.43.0


From 4dc854616e36b02dcd42807e15a04be6aaff55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 51/66] fix: shunting_yard_postfix read an unclosed parenthesis
 as an operand

---
 src/pybgl/shunting_yard_postfix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index e4a36ae..6f9716f 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -405,7 +405,10 @@ def shunting_yard_postfix(
             push_output(a)
 
     while operators:
-        push_output(pop_operator())
+        o = pop_operator()
+        if o == "(":
+            raise RuntimeError("Unmatched '('")
+        push_output(o)
     return output
 
 
-- 
2.43.0


From 056f12a066bc73072d668e475ec5a04cd286bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 52/66] fix: accepts_debug asked the status of the missing
 state when the last transition is missing

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 84f33f3..48e56b2 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -492,7 +492,7 @@ def accepts_debug(w: str, g: Automaton) -> bool:
         if q is BOTTOM:
             return False
         q = delta(q, a, g)
-    return is_final(q, g)
+    return q is not BOTTOM and is_final(q, g)
 
 
 def add_edge(q: int, r: int, a: str, g: Automaton) -> tuple:
-- 
2.43.0


From f94240c977a2bdf5b1a377e91c2fc6dbbc91031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 53/66] fix: is_minimal returned an exception, which is true,
 instead of raising it

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 48e56b2..b74a16e 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -752,7 +752,7 @@ def is_complete(g) -> bool:
 # --------------------------------------------------
 
 def is_minimal(g) -> bool:
-    return NotImplementedError()
+    raise NotImplementedError()
 
 
 def make_automaton(
-- 
2.43.0


From 896657052dc1f6a8da468e5acf6bdb99cb06c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 54/66] fix: automaton_insert_string did not return the reached
 state

---
 src/pybgl/automaton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index b74a16e..914aac9 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -447,6 +447,7 @@ class Automaton(DirectedGraph):
             self.add_edge(q, r, a)
             q = r
         self.set_final(q)
+        return q
 
 
 # ------------------------------------------------------------------
@@ -853,4 +854,4 @@ def automaton_insert_string(g: Automaton, w: str) -> int:
     Returns:
         The reached state in best effort.
     """
-    g.automaton_insert_string(w)
+    return g.automaton_insert_string(w)
-- 
2.43.0


From bba284ce7ce292a58c5f7b4e4bb2fb77766bdeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 55/66] fix: background_template_html broke on colours with a
 percent sign

---
 src/pybgl/ipynb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/ipynb.py b/src/pybgl/ipynb.py
index ca96615..d4195e0 100644
--- a/src/pybgl/ipynb.py
+++ b/src/pybgl/ipynb.py
@@ -47,7 +47,9 @@ def background_template_html(background_color: str = None) -> str:
         The corresponding HTML template.
     """
     template_html = "<div style='background-color:%s'>%%s</div>"
-    return template_html % background_color if background_color else "%s"
+    if not background_color:
+        return "%s"
+    return template_html % background_color.replace("%", "%%")
 
 
 def ipynb_display_graph(g, background_color: str = None, **kwargs):
-- 
2.43.0


From 6e55a05dfe5c837319aa469f81dadabe8ad7ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 56/66] fix: display_svg wrote the file in the encoding of the
 locale

---
 src/pybgl/ipynb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/ipynb.py b/src/pybgl/ipynb.py
index d4195e0..8da5273 100644
--- a/src/pybgl/ipynb.py
+++ b/src/pybgl/ipynb.py
@@ -93,7 +93,7 @@ def display_svg(svg, filename_svg: str, background_color: str = None):
         >>> g.add_edge(0, 1)
         >>> display_svg(graph_to_html(g), "g.svg", background_color="white")
     """
-    with open(filename_svg, "w") as f:
+    with open(filename_svg, "w", encoding="utf-8") as f:
         print(svg, file=f)
         html(f"<a href='{filename_svg}' target='_blank'>View</a>")
     template_html = background_template_html(background_color)
-- 
2.43.0


From 9ace17212b45e953fb58be1bfa66ca3d6be079fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 57/66] fix: an Nfa shared its set of initial states with the
 set given to build it

---
 src/pybgl/nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 198307d..114cddc 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -44,7 +44,7 @@ class Nfa(DirectedGraph):
             epsilon (str): The symbol assigned to the epsilon-transition.
         """
         super().__init__(num_vertices)
-        self.initials = initials if initials else {0}
+        self.initials = set(initials) if initials else {0}
         if not pmap_vfinal:
             self.map_vfinal = defaultdict(bool)
             self.pmap_vfinal = make_assoc_property_map(self.map_vfinal)
-- 
2.43.0


From b00f8936458a6a5ad81692dcb57eeeaa5a515552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 58/66] fix: automaton_insert_string wired a loop when the
 automaton had no state

---
 src/pybgl/automaton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index 914aac9..23809b2 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -441,6 +441,8 @@ class Automaton(DirectedGraph):
         Returns:
             The reached state in best effort.
         """
+        if not self.has_vertex():
+            self.set_initial(self.add_vertex())
         (q, i) = self.delta_best_effort(w)
         for a in w[i:]:
             r = self.add_vertex()
-- 
2.43.0


From b5969c1ec2be89438c715b5e86ea74d25269ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 59/66] fix: fusing a trie into a trie without state wired a
 loop

---
 src/pybgl/trie.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/trie.py b/src/pybgl/trie.py
index 518adda..b354783 100644
--- a/src/pybgl/trie.py
+++ b/src/pybgl/trie.py
@@ -105,6 +105,8 @@ def trie_deterministic_fusion(g1: Trie, g2: Trie):
             in place.
         g2 (Trie): The second :py:class:`Trie` instance (unmodified).
     """
+    if not g1.has_vertex():
+        g1.set_initial(g1.add_vertex())
     parallel_breadth_first_search(
         g1, g2,
         vis=TrieDeterministicFusion(),
-- 
2.43.0


From 959abfb690fc9a95ab27758af27b4c4b75903063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 60/66] fix: a cleared BKTree kept its root, so that the next
 insertions looped

---
 src/pybgl/bk_tree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pybgl/bk_tree.py b/src/pybgl/bk_tree.py
index 70eca9c..ef27b6a 100644
--- a/src/pybgl/bk_tree.py
+++ b/src/pybgl/bk_tree.py
@@ -50,6 +50,12 @@ class BKTree(Automaton):
         self.map_velement[u] = w
         return u
 
+    def clear(self):
+        # Overloaded method
+        super().clear()
+        self.map_velement.clear()
+        self.root = None
+
     def element(self, u: int) -> str:
         """
         Retrieves the element assigned to a node of this
-- 
2.43.0


From d4a37ed0d67bbc53becf9c45f401f8b6da2a20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 61/66] fix: minimizing an automaton without states returned
 the automaton itself instead of a new one

---
 src/pybgl/hopcroft_minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index bac2865..764b17d 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -73,7 +73,7 @@ def hopcroft_minimize(g: IncidenceAutomaton) -> IncidenceAutomaton:
         The minimized automaton.
     """
     if not g.has_vertex():
-        return g
+        return IncidenceAutomaton()
     aggregated_states = list(hopcroft_agglomerate_states(g))
 
     # Find the aggregated state corresponding to the initial state
-- 
2.43.0


From 6f2d48e1950411ea6c0910f0427ba895061045b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 62/66] fix: only the first negated class saw the alphabet
 given as an iterator

---
 src/pybgl/thompson_compile_nfa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 146ec24..bc56630 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -553,6 +553,8 @@ def thompson_compile_nfa(expression: str, whole_alphabet: iter = None) -> Nfa:
         return (g, 0, 0)
     if whole_alphabet is None:
         whole_alphabet = DEFAULT_ALPHABET
+    # Several operators may need the alphabet, which may be a generator.
+    whole_alphabet = set(whole_alphabet)
     expression = list(tokenizer_re(expression, cat="."))
 
     class ThompsonShuntingYardVisitor(DefaultShuntingYardVisitor):
-- 
2.43.0


From 4b6e8e5548cbf82f7d8ef6df1076f490b4e2f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 63/66] fix: an emptied trie has a root before the factors of a
 word are added to it

---
 src/pybgl/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/suffix_trie.py b/src/pybgl/suffix_trie.py
index 1c89a88..068d276 100644
--- a/src/pybgl/suffix_trie.py
+++ b/src/pybgl/suffix_trie.py
@@ -79,7 +79,7 @@ def make_suffix_trie(w: str = "", max_len: int = None, g: Trie = None) -> Trie:
     if g is None:
         g = Trie(pmap_vfinal=make_func_property_map(lambda q: q != BOTTOM))
     if g.num_vertices() == 0:
-        g.add_vertex()
+        g.set_initial(g.add_vertex())
 
     # Naive implementation (slow)
     # g.insert("")
-- 
2.43.0


From fdc65941476c106609f03235c60c46f3115c047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:52 +0000
Subject: [PATCH 64/66] fix: the initial state of a determinized NFA is not set
 in an automaton emptied beforehand

---
 src/pybgl/moore_determination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/moore_determination.py b/src/pybgl/moore_determination.py
index 7c300ff..8c69205 100644
--- a/src/pybgl/moore_determination.py
+++ b/src/pybgl/moore_determination.py
@@ -50,7 +50,7 @@ def moore_determination(
     # Keeps track of qs for which delta is not yet installed in dfa
     unprocessed_qs = set()
     unprocessed_qs.add(q0s)
-    _ = dfa_add_state(q0s)  # Build q0 in the DFA
+    dfa.set_initial(dfa_add_state(q0s))  # Build q0 in the DFA
 
     while unprocessed_qs:
         qs = unprocessed_qs.pop()
-- 
2.43.0


From 3da44fd837ef3d4de1b2b6d801180dc5363f6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:59 +0000
Subject: [PATCH 65/66] fix: a negated class of an expression over an empty
 alphabet matches nothing, not the default alphabet

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index bc56630..8e6fb08 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -426,7 +426,7 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
     Returns:
         The corresponding matched characters.
     """
-    if not whole_alphabet:
+    if whole_alphabet is None:
         whole_alphabet = DEFAULT_ALPHABET
     if not (s[0] == "[" and s[-1] == "]"):
         raise ValueError(f"Invalid parameter: s = {s}")
-- 
2.43.0


From 7e74caf3fd23cd52b7f87d7ccd57e1ee62dca91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 66/66] fix: a null repetition of an NFA keeps its symbol of
 empty moves

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 8e6fb08..92b54cd 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -289,7 +289,7 @@ def repetition(nfa: Nfa, q0: int, f: int, m: int) -> tuple:
     """
     assert m >= 0
     if m == 0:
-        nfa = Nfa(1)
+        nfa = Nfa(1, epsilon=nfa.epsilon)
         nfa.set_final(0)
         (nfa, q0, f) = (nfa, 0, 0)
     elif m > 1:
-- 
2.43.0


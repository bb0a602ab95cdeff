From ff7072c20e2555256ab17dcbeb16985a257c05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 01/35] fix: propagate evidence in every component of a
 disconnected network

---
 pybbn/pptc/propagator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pybbn/pptc/propagator.py b/pybbn/pptc/propagator.py
index 773b188..6245618 100644
--- a/pybbn/pptc/propagator.py
+++ b/pybbn/pptc/propagator.py
@@ -18,13 +18,18 @@ class Propagator(object):
         cliques = join_tree.get_cliques()
         cliques = sorted(cliques, key=lambda c: c.id)
         # cliques = sorted(cliques, key=lambda c: c.get_sid())
-        x = cliques[0]
 
+        # a disconnected BBN has one tree (component) per connected part;
+        # every component needs its own collection and distribution
         join_tree.unmark_cliques()
-        Propagator.collect_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.collect_evidence(join_tree, x)
 
         join_tree.unmark_cliques()
-        Propagator.distribute_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.distribute_evidence(join_tree, x)
 
         return join_tree
 
-- 
2.43.0


From 43b14afc924164f0d0c0a516ee9d275909d935e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 02/35] fix: virtual evidence with one likelihood of 1 is not
 an observation

---
 pybbn/graph/jointree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a67e2f9..23d358a 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -796,7 +796,7 @@ class Evidence(object):
         for k, v in values.items():
             if 1.0 == v:
                 one += 1
-            else:
+            elif 0.0 == v:
                 zero += 1
 
         return 1 == one and len(values) - 1 == zero
-- 
2.43.0


From fc57bceef53e1cc53823d39aba945416a1449f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:09 +0000
Subject: [PATCH 03/35] fix: set_observation toggles only an identical
 observation and accepts any likelihoods

---
 pybbn/graph/jointree.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 23d358a..0dbbeb4 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -386,26 +386,18 @@ class JoinTree(Ug):
         :return: This join tree.
         """
         potentials = self.evidences[evidence.node.id]
-
-        pvalues = []
-        for v, potential in potentials.items():
-            entry = potential.entries[0]
-            p = entry.value
-            if 1.0 == p:
-                pvalues.append(v)
-
-        cvalues = []
-        for v, likelihood in evidence.values.items():
-            if 1.0 == likelihood:
-                cvalues.append(v)
-
-        if 1 == len(pvalues):
-            last_value = pvalues[0]
-            curr_value = cvalues[0]
-            if last_value == curr_value:
-                self.unobserve([evidence.node])
-            else:
-                self.update_evidences([evidence])
+        previous = Evidence.__convert__(potentials)
+
+        evidence.validate()
+
+        # toggle only if the very same observation is already in force
+        if (
+            Evidence.__is_observed__(previous)
+            and Evidence.__is_observed__(evidence.values)
+            and Evidence.__get_observed_value__(previous)
+            == Evidence.__get_observed_value__(evidence.values)
+        ):
+            self.unobserve([evidence.node])
         else:
             self.update_evidences([evidence])
 
-- 
2.43.0


From 041227500ca25964edab2ac62a2b04a91071b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:13 +0000
Subject: [PATCH 04/35] fix: update_evidences changes nothing when an evidence
 names an unknown value

---
 pybbn/graph/jointree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 0dbbeb4..7f67e2d 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -368,13 +368,17 @@ class JoinTree(Ug):
         for evidence in evidences:
             evidence.validate()
         change = self.get_change_type(evidences)
+        # resolve every potential first, so that an unknown value leaves the join tree untouched
+        updates = []
         for evidence in evidences:
             node = evidence.node
             potentials = self.evidences[node.id]
 
             for k, v in evidence.values.items():
                 potential = potentials[k]
-                potential.entries[0].value = v
+                updates.append((potential, v))
+        for potential, v in updates:
+            potential.entries[0].value = v
         self.__notify_listener__(change)
         return self
 
-- 
2.43.0


From d86bc793bb5fada95c4ba0a277a9ed0aa971dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 05/35] fix: deep copies of a join tree keep reacting to
 evidence

---
 pybbn/graph/jointree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 7f67e2d..15a1854 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -42,6 +42,7 @@ class JoinTree(Ug):
         jt.potentials = potentials
         jt.evidences = evidences
         jt.parent_info = parent_info
+        jt.listener = self.listener
         return jt
 
     def get_posteriors(self):
-- 
2.43.0


From e1f956348dfbd12e722ee517b8de93b9413d7358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 06/35] fix: deserialised join trees keep isolated cliques

---
 pybbn/graph/jointree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 15a1854..f449b43 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -489,11 +489,10 @@ class JoinTree(Ug):
         edges = [JtEdge(sepsets[e]) for e in d["jt"]["edges"]]
 
         jt = JoinTree()
-        if len(edges) > 0:
-            for e in edges:
-                jt.add_edge(e)
-        else:
-            jt.nodes = cliques
+        for c in cliques.values():
+            jt.add_node(c)
+        for e in edges:
+            jt.add_edge(e)
 
         jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
         return jt
-- 
2.43.0


From b8acd4dc035b26e93828a06b8cdf327005f07cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 07/35] fix: applying inference again after the network's
 structure changed

---
 pybbn/pptc/initializer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pybbn/pptc/initializer.py b/pybbn/pptc/initializer.py
index b21c1f0..9d6cc8e 100644
--- a/pybbn/pptc/initializer.py
+++ b/pybbn/pptc/initializer.py
@@ -55,7 +55,15 @@ class Initializer(object):
         :param join_tree: Join tree.
         :return: Parent clique.
         """
-        if "parent.clique" not in node.metadata:
+        # a clique remembered from an earlier application is stale if the BBN has changed since
+        clique = node.metadata.get("parent.clique")
+        if clique is not None and clique.id in join_tree.nodes:
+            family = {node.id} | {pa.id for pa in node.metadata.get("parents", [])}
+            stale = not clique.get_node_ids().issuperset(family)
+        else:
+            stale = True
+
+        if stale:
             cliques = sorted(
                 join_tree.find_cliques_with_node_and_parents(node.id),
                 key=lambda x: x.id,
@@ -64,4 +72,4 @@ class Initializer(object):
             node.add_metadata("parent.clique", clique)
             return clique
         else:
-            return node.metadata["parent.clique"]
+            return clique
-- 
2.43.0


From a79ad8f025adc27dc2bb1f9255dce3b233c9349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 08/35] fix: join trees keep their own parent lists

---
 pybbn/pptc/inferencecontroller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/pptc/inferencecontroller.py b/pybbn/pptc/inferencecontroller.py
index c32813b..49f1279 100644
--- a/pybbn/pptc/inferencecontroller.py
+++ b/pybbn/pptc/inferencecontroller.py
@@ -28,7 +28,7 @@ class InferenceController(JoinTreeListener):
         cliques = Triangulator.triangulate(ug)
         join_tree = Transformer.transform(cliques)
         join_tree.parent_info = {
-            node.id: bbn.parents[node.id]
+            node.id: list(bbn.parents[node.id])
             for node in bbn.get_nodes()
             if node.id in bbn.parents
         }
-- 
2.43.0


From 580e368e3002d3d1914f1c6673c3dc9724a285d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 09/35] fix: a BBN rejects edges that would create cycles,
 loops or duplicates

---
 pybbn/graph/dag.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 7b12247..9a328f8 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -150,9 +150,7 @@ class Bbn(Dag):
         :param edge: Directed edge.
         :return: A boolean indicating if the directed edge should be added.
         """
-        if isinstance(edge.i, BbnNode) and isinstance(edge.j, BbnNode):
-            return True
-        return Dag.__shouldadd__(edge)
+        return Dag.__shouldadd__(self, edge)
 
     @staticmethod
     def to_csv(bbn, path):
@@ -387,15 +385,17 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        children = self.graph.get_children(i)
-        if self.stop in children:
-            return True
-
-        self.seen.add(i)
-        for child in children:
-            if child not in self.seen and self.__find__(child):
+        stack = [i]
+        while stack:
+            children = self.graph.get_children(stack.pop())
+            if self.stop in children:
                 return True
 
+            for child in children:
+                if child not in self.seen:
+                    self.seen.add(child)
+                    stack.append(child)
+
         return False
 
 
-- 
2.43.0


From 34ba3eb2053baaf0670b56ec387fac48d37ee8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 10/35] fix: removing a node removes its edges and parent
 records

---
 pybbn/graph/dag.py   | 12 ++++++++++++
 pybbn/graph/graph.py |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 9a328f8..accbc0a 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -143,6 +143,18 @@ class Bbn(Dag):
         if edge.i.id not in self.parents[edge.j.id]:
             self.parents[edge.j.id].append(edge.i.id)
 
+    def remove_node(self, id):
+        """
+        Removes a node from the BBN.
+
+        :param id: Node id.
+        """
+        Dag.remove_node(self, id)
+        self.parents.pop(id, None)
+        for parents in self.parents.values():
+            if id in parents:
+                parents.remove(id)
+
     def __shouldadd__(self, edge):
         """
         Checks if the specified directed edge should be added.
diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 49b1d6f..7a8ccf1 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -144,6 +144,10 @@ class Graph(object):
         self.edge_map.pop(id, None)
         self.neighbors.pop(id, None)
 
+        for k, edge in list(self.edges.items()):
+            if id == edge.i.id or id == edge.j.id:
+                self.edges.pop(k)
+
         for k, v in self.edge_map.items():
             if id in v:
                 v.remove(id)
-- 
2.43.0


From c572e60b2302edde7fc41dcad997cbf387ca4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 11/35] fix: reject samples that contradict evidence on the
 last sampled node

---
 pybbn/sampling/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 7793a81..a2d2d43 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -156,8 +156,7 @@ class LogicSampler(object):
                 if node_id in evidence and val != evidence[node_id]:
                     break
                 sample[node_id] = val
-
-            if len(sample) == n:
+            else:
                 samples.append(sample)
 
             if len(samples) == n_samples:
-- 
2.43.0


From 0008f017bbda801e8d5dfb3fe9827aed5f116c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 12/35] fix: sample nodes in a true topological order

---
 pybbn/sampling/sampling.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index a2d2d43..5d9171c 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -1,7 +1,7 @@
 import bisect
 import copy
+import heapq
 import itertools
-from functools import cmp_to_key
 
 import numpy as np
 
@@ -123,14 +123,23 @@ class LogicSampler(object):
             SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
             for node in self.bbn.get_nodes()
         ]
-        id_sorter = lambda x, y: -1 if x < y else 1 if x > y else 0
-        pa_sorter = lambda x, y: (
-            -1
-            if x.node_id in y.parent_ids
-            else 1 if y.node_id in x.parent_ids else id_sorter(x.node_id, y.node_id)
-        )
-        nodes = sorted(nodes, key=cmp_to_key(pa_sorter))
-        nodes = [n.node_id for n in nodes]
+        nodes = sorted(nodes, key=lambda n: n.node_id)
+        children = {n.node_id: [] for n in nodes}
+        for n in nodes:
+            for pa in n.parent_ids:
+                children[pa].append(n.node_id)
+
+        # repeatedly take the node with the smallest id whose parents were all taken
+        pending = {n.node_id: len(n.parent_ids) for n in nodes}
+        ready = [n.node_id for n in nodes if pending[n.node_id] == 0]
+        nodes = []
+        while ready:
+            node_id = heapq.heappop(ready)
+            nodes.append(node_id)
+            for ch in children[node_id]:
+                pending[ch] -= 1
+                if pending[ch] == 0:
+                    heapq.heappush(ready, ch)
         return nodes
 
     def get_samples(self, evidence={}, n_samples=100, seed=37):
-- 
2.43.0


From adb006bd7cc0fbcd468ed157f6137a5581c7ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 13/35] fix: sample with the parent order the CPTs are laid out
 for

---
 pybbn/sampling/sampling.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 5d9171c..26b49f4 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -28,16 +28,18 @@ class Table(object):
     of node values.
     """
 
-    def __init__(self, node, parents=[]):
+    def __init__(self, node, parents=[], sort_parents=True):
         """
         Ctor.
 
         :param node: BBN node.
         :param parents: List of parent BBN nodes.
+        :param sort_parents: Whether the probabilities are laid out for parents sorted by id (default) or for
+            parents in the order given.
         """
         self.node = node
-        self.parents = sorted(parents, key=lambda n: n.id)
-        self.parent_ids = [p.id for p in parents]
+        self.parents = sorted(parents, key=lambda n: n.id) if sort_parents else parents
+        self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
             self.probs = np.array([node.probs]).cumsum()
@@ -105,12 +107,15 @@ class LogicSampler(object):
         :return: Dictionary of node ID to Table.
         """
         tables = [node for node in self.bbn.get_nodes()]
-        tables = [(node, self.bbn.get_parents_ordered(node.id)) for node in tables]
+        tables = [(node, self.bbn.parents.get(node.id, [])) for node in tables]
         tables = [
             (node, [self.bbn.get_node(pa_id) for pa_id in parents])
             for node, parents in tables
         ]
-        tables = {node.id: Table(node, parents) for node, parents in tables}
+        tables = {
+            node.id: Table(node, parents, sort_parents=False)
+            for node, parents in tables
+        }
         return tables
 
     def __topological_sort__(self):
-- 
2.43.0


From 95e6055b16a6c9b496e025f7a5b8d8ba95864526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 14/35] fix: sampling stays within the values at rounding gaps
 and returns no sample when none is asked for

---
 pybbn/sampling/sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 26b49f4..4117b15 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -69,11 +69,12 @@ class Table(object):
         :return: Value.
         """
         if not self.has_parents():
-            index = bisect.bisect(self.probs, prob)
+            probs = self.probs
         else:
             k = ",".join([f"{i}={sample[i]}" for i in self.parent_ids])
             probs = self.probs[k]
-            index = bisect.bisect(probs, prob)
+        # cumulative sums may end just below 1.0, stay within the values that have probability
+        index = min(bisect.bisect(probs, prob), bisect.bisect_left(probs, probs[-1]))
         return self.node.variable.values[index]
 
     def has_parents(self):
@@ -159,7 +160,7 @@ class LogicSampler(object):
         np.random.seed(seed)
         n = len(self.nodes)
         samples = []
-        while True:
+        while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
             probs = np.random.uniform(0.0, 1.0, size=n)
@@ -173,7 +174,4 @@ class LogicSampler(object):
             else:
                 samples.append(sample)
 
-            if len(samples) == n_samples:
-                break
-
         return samples
-- 
2.43.0


From 4f8c671ba1d70fc2633a368256218dc4512eff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 15/35] fix: number learned nodes by the structure, not by the
 data's values

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 0e1c453..2b71589 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -205,7 +205,7 @@ class Factory(object):
             return cpts
 
         n2v = get_profile(df)
-        n2i = get_n2i(df)
+        n2i = get_n2i(structure)
         n2c = {n: get_cpt(n, structure[n], n2v, df) for n in structure}
 
         bbn = Bbn()
-- 
2.43.0


From 49c747e1978cbfe7a2bd235d381d7a39ded554f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 16/35] fix: learned networks add parents in the order of their
 CPTs

---
 pybbn/graph/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 2b71589..1710a64 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -223,7 +223,8 @@ class Factory(object):
 
         for ch, parents in structure.items():
             ch_node = nodes[ch]
-            for pa in parents:
+            # same parent order as the one the CPTs are laid out for
+            for pa in sorted(parents):
                 pa_node = nodes[pa]
 
                 edge = Edge(pa_node, ch_node, EdgeType.DIRECTED)
-- 
2.43.0


From d22846f6dd421342f97a99734ede29c4b3182ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 17/35] fix: learn from columns and values of any name or type

---
 pybbn/graph/factory.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 1710a64..045cccc 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -183,14 +183,14 @@ class Factory(object):
 
                 for values in domains:
                     probs = []
-                    denom_q = " and ".join(
-                        [f'{n}=="{v}"' for n, v in zip(domain_names, values)]
-                    )
+                    denom_q = df[domain_names[0]] == values[0]
+                    for domain_name, value in zip(domain_names[1:], values[1:]):
+                        denom_q = denom_q & (df[domain_name] == value)
                     for v in n2v[name]:
-                        numer_q = f'{name}=="{v}" and {denom_q}'
+                        numer_q = (df[name] == v) & denom_q
 
-                        numer = df.query(numer_q).shape[0] / n
-                        denom = df.query(denom_q).shape[0] / n
+                        numer = df[numer_q].shape[0] / n
+                        denom = df[denom_q].shape[0] / n
 
                         if denom == 0:
                             prob = 1e-5
-- 
2.43.0


From 76277193b51c1255475b2a3ee951d082db7a289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 18/35] fix: generated parameters serialise to JSON

---
 pybbn/generator/bbngenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9632457..1d90700 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -301,8 +301,8 @@ def __generate_parameters__(g, max_values=2, max_alpha=10):
             "parents": parents,
             "params": params,
             "shape": [
-                __get_num_parent_instantiations__(parents, num_values),
-                num_values[i],
+                int(__get_num_parent_instantiations__(parents, num_values)),
+                int(num_values[i]),
             ],
         }
     return g_params
-- 
2.43.0


From 369de16d50944be3fc878d94565d3b68ad686087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 19/35] fix: generating a network of one node terminates

---
 pybbn/generator/bbngenerator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 1d90700..2b95686 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -155,6 +155,8 @@ def __generate_multi_connected_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
+    if n < 2:
+        return g
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True:
@@ -174,6 +176,8 @@ def __generate_singly_structure__(n, max_iter=10):
     """
     g = __get_simple_ordered_tree__(n)
 
+    if n < 2:
+        return g
     for it in range(max_iter):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True or g.has_edge(j, i) is True:
-- 
2.43.0


From c615f616704fd17dd549ff4f4f9dac69bc75eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 20/35] fix: generated parameters record parents in the order
 of the converted network

---
 pybbn/generator/bbngenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 2b95686..5b58c91 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -299,7 +299,8 @@ def __generate_parameters__(g, max_values=2, max_alpha=10):
     num_values = __generate_num_values__(num_nodes, max_values)
     g_params = {}
     for i in g.nodes:
-        parents = list(g.predecessors(i))
+        # same parent order as the converted BBN
+        parents = sorted(g.predecessors(i))
         params = __generate_dirichlet_parameters__(i, parents, num_values, max_alpha)
         g_params[i] = {
             "parents": parents,
-- 
2.43.0


From 72679520aaf6cea7188aebdeb2e4ee4117599a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 21/35] fix: match Gaussian means to observations listed in any
 order

---
 pybbn/gaussian/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/gaussian/inference.py b/pybbn/gaussian/inference.py
index 4e40de0..90a8a64 100644
--- a/pybbn/gaussian/inference.py
+++ b/pybbn/gaussian/inference.py
@@ -121,7 +121,7 @@ class GaussianInference(object):
         z_index = [self.I[name] for name, _ in observations]
         y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
 
-        m_Z = np.array([m for i, m in enumerate(self.M) if i in z_index])
+        m_Z = np.array([self.M[i] for i in z_index])
         m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
 
         z = np.array([o for _, o in observations])
-- 
2.43.0


From 5a218dee5e40bcd80d9d61653de5a938eb898f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 22/35] fix: adjust average causal effects with the joint
 probability of the parents

---
 pybbn/causality/ace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 08cf8d7..1d3163b 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -49,9 +49,12 @@ class Ace(object):
             return posteriors[y][y_val]
 
         def get_z_prob(z):
+            # chain rule, as the parents may depend on each other
             self.jt.unobserve_all()
-            posteriors = self.jt.get_posteriors()
-            probs = [posteriors[n][v] for n, v in z]
+            probs = []
+            for n, v in z:
+                probs.append(self.jt.get_posteriors()[n][v])
+                self.jt.update_evidences(get_evidences([(n, v)]))
             probs = reduce(operator.mul, probs, 1)
             return probs
 
-- 
2.43.0


From 4b0e925084469b94ee9d3293b765ff76873f6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 23/35] fix: minimal confounders leave out effects of the cause

---
 pybbn/causality/do.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pybbn/causality/do.py b/pybbn/causality/do.py
index 82d5743..8cd5574 100644
--- a/pybbn/causality/do.py
+++ b/pybbn/causality/do.py
@@ -175,7 +175,14 @@ def get_minimal_confounders(g: Graph, x: Any, y: Any) -> List[Any]:
     paths = get_paths(g, x, y)
     paths = filter(lambda p: p["is_active"] is True and p["backdoor"] is True, paths)
 
-    confounders = [find_minimal_confounders(g, p["path"], x, y, p["z"]) for p in paths]
+    # descendants of x are effects of x and never confound it
+    descendants = nx.descendants(g.d, x)
+    confounders = [
+        find_minimal_confounders(
+            g, p["path"], x, y, [n for n in p["z"] if n not in descendants]
+        )
+        for p in paths
+    ]
     confounders = itertools.chain(*confounders)
     confounders = set(confounders)
     return list(confounders)
-- 
2.43.0


From c2dab965acea7816bb3e14658ac238dc3b2874f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 24/35] fix: undirected neighbours are not parents in a
 partially directed graph

---
 pybbn/graph/pdag.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pybbn/graph/pdag.py b/pybbn/graph/pdag.py
index c51fe21..8c34721 100644
--- a/pybbn/graph/pdag.py
+++ b/pybbn/graph/pdag.py
@@ -19,7 +19,11 @@ class Pdag(Graph):
         :param id: Node id.
         :return: Array of parent ids.
         """
-        return [x for x in self.edge_map if id in self.edge_map[x]]
+        return [
+            x
+            for x in self.edge_map
+            if id in self.edge_map[x] and x not in self.edge_map.get(id, set())
+        ]
 
     def get_out_nodes(self, id):
         """
@@ -119,7 +123,12 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        out_nodes = self.graph.get_out_nodes(i)
+        # paths follow directed arcs only
+        out_nodes = [
+            j
+            for j in self.graph.get_out_nodes(i)
+            if self.graph.directed_edge_exists(i, j)
+        ]
         if self.stop in out_nodes:
             return True
 
-- 
2.43.0


From 85e6e7fc56caf499355a826bcfb7825cd4366299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 25/35] fix: build and copy join trees of long networks without
 deep recursion

---
 pybbn/graph/jointree.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index f449b43..190728f 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -1,5 +1,5 @@
 from collections import defaultdict
-from copy import deepcopy
+from copy import copy, deepcopy
 from enum import Enum
 
 from pybbn.graph.edge import JtEdge
@@ -26,6 +26,18 @@ class JoinTree(Ug):
         # self.__all_nodes__ = None
 
     def __deepcopy__(self, memodict={}):
+        # copy the nodes before what their metadata refers to, so that copying does not recurse from node to node
+        bbn_nodes = [node for c in self.get_cliques() for node in c.nodes]
+        copies = []
+        for node in [*self.nodes.values(), *bbn_nodes]:
+            if id(node) not in memodict:
+                result = copy(node)
+                memodict[id(node)] = result
+                copies.append(result)
+        for result in copies:
+            for k, v in result.__dict__.items():
+                setattr(result, k, deepcopy(v, memodict))
+
         nodes = deepcopy(self.nodes, memodict)
         edges = deepcopy(self.edges, memodict)
         edge_map = deepcopy(self.edge_map, memodict)
@@ -577,21 +589,23 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        neighbors = set()
-
-        try:
-            neighbors = self.graph.get_neighbors(i)
-        except KeyError:
-            pass
+        stack = [i]
+        while stack:
+            neighbors = set()
 
-        if self.stop in neighbors:
-            return True
+            try:
+                neighbors = self.graph.get_neighbors(stack.pop())
+            except KeyError:
+                pass
 
-        self.seen.add(i)
-        for neighbor in neighbors:
-            if neighbor not in self.seen and self.__find__(neighbor):
+            if self.stop in neighbors:
                 return True
 
+            for neighbor in neighbors:
+                if neighbor not in self.seen:
+                    self.seen.add(neighbor)
+                    stack.append(neighbor)
+
         return False
 
 
-- 
2.43.0


From 687b2a8412c4d98a1660395933ed5d9705bf62d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 26/35] fix: propagate through long join trees without deep
 recursion

---
 pybbn/pptc/evidencecollector.py   | 31 ++++++++++++++++---------------
 pybbn/pptc/evidencedistributor.py | 22 +++++++++++-----------
 2 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/pybbn/pptc/evidencecollector.py b/pybbn/pptc/evidencecollector.py
index dedcd2a..b186428 100644
--- a/pybbn/pptc/evidencecollector.py
+++ b/pybbn/pptc/evidencecollector.py
@@ -58,18 +58,19 @@ class EvidenceCollector(object):
         :param s: Separation-set.
         :param y: Clique.
         """
-
-        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
-
-        s_arr = []
-        c_arr = []
-        for sep, cli in zip(sepsets, cliques):
-            if not cli[1].is_marked():
-                cli[1].mark()
-                s_arr.append(sep)
-                c_arr.append(cli)
-
-        for sep, cli in zip(s_arr, c_arr):
-            self.__walk__(y, sep[1], cli[1])
-
-        PotentialUtil.pass_single_message(self.join_tree, y, s, x)
+        walked = []
+        stack = [(x, s, y)]
+        while stack:
+            x, s, y = stack.pop()
+            walked.append((x, s, y))
+
+            sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+
+            for sep, cli in zip(sepsets, cliques):
+                if not cli[1].is_marked():
+                    cli[1].mark()
+                    stack.append((y, sep[1], cli[1]))
+
+        # remote cliques were walked to last and pass their messages first
+        for x, s, y in reversed(walked):
+            PotentialUtil.pass_single_message(self.join_tree, y, s, x)
diff --git a/pybbn/pptc/evidencedistributor.py b/pybbn/pptc/evidencedistributor.py
index a573628..7b04470 100644
--- a/pybbn/pptc/evidencedistributor.py
+++ b/pybbn/pptc/evidencedistributor.py
@@ -66,16 +66,16 @@ class EvidenceDistributor(object):
         :param s: Separation-set.
         :param y: Clique.
         """
-        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+        stack = [y]
+        while stack:
+            y = stack.pop()
 
-        s_arr = []
-        c_arr = []
-        for sep, cli in zip(sepsets, cliques):
-            if not cli[1].is_marked():
-                cli[1].mark()
-                s_arr.append(sep)
-                c_arr.append(cli)
+            sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
 
-        for sep, cli in zip(s_arr, c_arr):
-            PotentialUtil.pass_single_message(self.join_tree, y, sep[1], cli[1])
-            self.__walk__(y, sep[1], cli[1])
+            for sep, cli in zip(sepsets, cliques):
+                if not cli[1].is_marked():
+                    cli[1].mark()
+                    PotentialUtil.pass_single_message(
+                        self.join_tree, y, sep[1], cli[1]
+                    )
+                    stack.append(cli[1])
-- 
2.43.0


From bba7a5a07fdc493092f392815daedc99e8fba69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 27/35] fix: copy long networks without deep recursion

---
 pybbn/graph/graph.py    | 22 +++++++++++++++++++++-
 pybbn/graph/jointree.py | 13 ++-----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 7a8ccf1..ab195a5 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -1,5 +1,5 @@
 from collections import defaultdict
-from copy import deepcopy
+from copy import copy, deepcopy
 
 from pybbn.graph.edge import EdgeType
 
@@ -167,10 +167,30 @@ class Graph(object):
         result.__dict__.update(self.__dict__)
         return result
 
+    @staticmethod
+    def __deepcopy_nodes__(nodes, memodict):
+        """
+        Deep copies nodes into the memo. All nodes are copied before what they (e.g. their metadata) refer to,
+        so that copying does not recurse from node to node through the whole graph.
+
+        :param nodes: Nodes.
+        :param memodict: Memo of deepcopy.
+        """
+        copies = []
+        for node in nodes:
+            if id(node) not in memodict:
+                result = copy(node)
+                memodict[id(node)] = result
+                copies.append(result)
+        for result in copies:
+            for k, v in result.__dict__.items():
+                setattr(result, k, deepcopy(v, memodict))
+
     def __deepcopy__(self, memodict={}):
         cls = self.__class__
         result = cls.__new__(cls)
         memodict[id(self)] = result
+        Graph.__deepcopy_nodes__(self.nodes.values(), memodict)
         for k, v in self.__dict__.items():
             setattr(result, k, deepcopy(v, memodict))
         return result
diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 190728f..0d32b79 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -1,5 +1,5 @@
 from collections import defaultdict
-from copy import copy, deepcopy
+from copy import deepcopy
 from enum import Enum
 
 from pybbn.graph.edge import JtEdge
@@ -26,17 +26,8 @@ class JoinTree(Ug):
         # self.__all_nodes__ = None
 
     def __deepcopy__(self, memodict={}):
-        # copy the nodes before what their metadata refers to, so that copying does not recurse from node to node
         bbn_nodes = [node for c in self.get_cliques() for node in c.nodes]
-        copies = []
-        for node in [*self.nodes.values(), *bbn_nodes]:
-            if id(node) not in memodict:
-                result = copy(node)
-                memodict[id(node)] = result
-                copies.append(result)
-        for result in copies:
-            for k, v in result.__dict__.items():
-                setattr(result, k, deepcopy(v, memodict))
+        JoinTree.__deepcopy_nodes__([*self.nodes.values(), *bbn_nodes], memodict)
 
         nodes = deepcopy(self.nodes, memodict)
         edges = deepcopy(self.edges, memodict)
-- 
2.43.0


From 9fb6fd90122834e102ea3472a229070ba7258934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:34 +0000
Subject: [PATCH 28/35] fix: string form of nodes with non-string values

---
 pybbn/graph/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/node.py b/pybbn/graph/node.py
index 6399f34..c0fb3d4 100644
--- a/pybbn/graph/node.py
+++ b/pybbn/graph/node.py
@@ -79,7 +79,9 @@ class BbnNode(Node):
 
     def __str__(self):
         return "{}|{}|{}".format(
-            self.id, self.variable.name, str.join(",", self.variable.values)
+            self.id,
+            self.variable.name,
+            str.join(",", [str(v) for v in self.variable.values]),
         )
 
     def __repr__(self):
-- 
2.43.0


From 50b67b4721383fd3e23a034ba9e7cf09ff4a2176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 29/35] fix: edges of long partially directed graphs are
 checked without deep recursion

---
 pybbn/graph/pdag.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pybbn/graph/pdag.py b/pybbn/graph/pdag.py
index 8c34721..012513d 100644
--- a/pybbn/graph/pdag.py
+++ b/pybbn/graph/pdag.py
@@ -123,18 +123,21 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        # paths follow directed arcs only
-        out_nodes = [
-            j
-            for j in self.graph.get_out_nodes(i)
-            if self.graph.directed_edge_exists(i, j)
-        ]
-        if self.stop in out_nodes:
-            return True
-
-        self.seen.add(i)
-        for out_node in out_nodes:
-            if out_node not in self.seen and self.__find__(out_node):
+        stack = [i]
+        while stack:
+            i = stack.pop()
+            # paths follow directed arcs only
+            out_nodes = [
+                j
+                for j in self.graph.get_out_nodes(i)
+                if self.graph.directed_edge_exists(i, j)
+            ]
+            if self.stop in out_nodes:
                 return True
 
+            for out_node in out_nodes:
+                if out_node not in self.seen:
+                    self.seen.add(out_node)
+                    stack.append(out_node)
+
         return False
-- 
2.43.0


From 8521a7c836e8d30cec096df2386ab92c654263c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:51 +0000
Subject: [PATCH 30/35] fix: average causal effects of variables whose values
 are not texts raised KeyError

---
 pybbn/causality/ace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 1d3163b..c0eab1e 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -46,14 +46,14 @@ class Ace(object):
             self.jt.unobserve_all()
             self.jt.update_evidences(evs)
             posteriors = self.jt.get_posteriors()
-            return posteriors[y][y_val]
+            return posteriors[y][f"{y_val}"]
 
         def get_z_prob(z):
             # chain rule, as the parents may depend on each other
             self.jt.unobserve_all()
             probs = []
             for n, v in z:
-                probs.append(self.jt.get_posteriors()[n][v])
+                probs.append(self.jt.get_posteriors()[n][f"{v}"])
                 self.jt.update_evidences(get_evidences([(n, v)]))
             probs = reduce(operator.mul, probs, 1)
             return probs
-- 
2.43.0


From b62ad1a5d89e5de7b82b4c7f09c52c4f0aa38516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:51 +0000
Subject: [PATCH 31/35] fix: DNE export of networks with values that are not
 texts raised TypeError

---
 pybbn/graph/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index accbc0a..3d77761 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -323,7 +323,7 @@ class Bbn(Dag):
         def get_dne_node(id):
             node = d["nodes"][id]
             name = node["variable"]["name"]
-            states = f"({','.join(node['variable']['values'])})"
+            states = f"({','.join([f'{v}' for v in node['variable']['values']])})"
             probs = f"({','.join([f'{p}' for p in node['probs']])})"
             parents = [
                 d["nodes"][e["pa"]]["variable"]["name"]
-- 
2.43.0


From 4900654d808f068bb3f538d62de288195e304933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:08 +0000
Subject: [PATCH 32/35] fix: separators have node ids, and a weight when they
 are empty

---
 pybbn/graph/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/node.py b/pybbn/graph/node.py
index c0fb3d4..ea2b5e4 100644
--- a/pybbn/graph/node.py
+++ b/pybbn/graph/node.py
@@ -179,7 +179,7 @@ class Clique(Node):
 
         :return: Weight.
         """
-        return reduce(lambda x, y: x * y, [node.get_weight() for node in self.nodes])
+        return reduce(lambda x, y: x * y, [node.get_weight() for node in self.nodes], 1)
 
     def contains(self, id):
         """
@@ -229,6 +229,7 @@ class SepSet(Clique):
         sid = "-".join(str(x) for arr in [lhs, intersection, rhs] for x in arr)
         Node.__init__(self, sid)
         self.nodes = [x for x in left.nodes if x.id in intersection]
+        self.node_ids = set([node.id for node in self.nodes])
         self.marked = False
 
         self.left = left
-- 
2.43.0


From 8c842c215ef53382868ad6e5b2712e5564008fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:08 +0000
Subject: [PATCH 33/35] fix: the update after an interrupted one propagates
 from the start

---
 pybbn/graph/jointree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 0d32b79..cd69bd9 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -23,6 +23,7 @@ class JoinTree(Ug):
         self.evidences = dict()
         self.listener = None
         self.parent_info = defaultdict(set)
+        self.unsettled = False
         # self.__all_nodes__ = None
 
     def __deepcopy__(self, memodict={}):
@@ -46,6 +47,7 @@ class JoinTree(Ug):
         jt.evidences = evidences
         jt.parent_info = parent_info
         jt.listener = self.listener
+        jt.unsettled = self.unsettled
         return jt
 
     def get_posteriors(self):
@@ -381,9 +383,14 @@ class JoinTree(Ug):
             for k, v in evidence.values.items():
                 potential = potentials[k]
                 updates.append((potential, v))
+        if self.unsettled:
+            # the propagation of an earlier update was interrupted, start over
+            change = ChangeType.RETRACTION
+        self.unsettled = True
         for potential, v in updates:
             potential.entries[0].value = v
         self.__notify_listener__(change)
+        self.unsettled = False
         return self
 
     def set_observation(self, evidence):
-- 
2.43.0


From 8bd84a995d9d13c103b6170fac96a1d901ad32f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:38 +0000
Subject: [PATCH 34/35] fix: serialise CPTs given as integer arrays, which json
 refused

---
 pybbn/graph/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/node.py b/pybbn/graph/node.py
index ea2b5e4..3d87930 100644
--- a/pybbn/graph/node.py
+++ b/pybbn/graph/node.py
@@ -75,7 +75,10 @@ class BbnNode(Node):
 
         :return: Dictionary.
         """
-        return {"probs": [p for p in self.probs], "variable": self.variable.to_dict()}
+        return {
+            "probs": [float(p) for p in self.probs],
+            "variable": self.variable.to_dict(),
+        }
 
     def __str__(self):
         return "{}|{}|{}".format(
-- 
2.43.0


From 1efd150999cf156c59f6bf714cb8b9c01bc0533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:50 +0000
Subject: [PATCH 35/35] fix: samples follow the CPT row of the parents' values,
 not of their text, which different values may share

---
 pybbn/sampling/sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 4117b15..684a723 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -59,6 +59,8 @@ class Table(object):
             probs = [node.probs[i : i + n] for i in range(0, len(node.probs), n)]
             probs = [np.array(p).cumsum() for p in probs]
             self.probs = {k: p for k, p in zip(keys, probs)}
+            # keys are for reading, different values may give the same text
+            self.rows = {values: p for values, p in zip(cartesian, probs)}
 
     def get_value(self, prob, sample=None):
         """
@@ -71,8 +73,7 @@ class Table(object):
         if not self.has_parents():
             probs = self.probs
         else:
-            k = ",".join([f"{i}={sample[i]}" for i in self.parent_ids])
-            probs = self.probs[k]
+            probs = self.rows[tuple(sample[i] for i in self.parent_ids)]
         # cumulative sums may end just below 1.0, stay within the values that have probability
         index = min(bisect.bisect(probs, prob), bisect.bisect_left(probs, probs[-1]))
         return self.node.variable.values[index]
-- 
2.43.0


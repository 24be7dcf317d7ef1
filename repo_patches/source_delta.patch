From a19efbeff27437662dfba49deca258d0a9fe22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:57 +0000
Subject: [PATCH 01/31] fix: a concept without visible attributes has no
 correct guesses instead of dividing by zero

---
 concept_formation/cobweb.py  | 2 ++
 concept_formation/cobweb3.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 4151605..148db4f 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -399,6 +399,8 @@ class CobwebNode(object):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
         return correct_guesses / attr_count
 
     def category_utility(self):
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 1fb2f79..fb9653e 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -284,6 +284,8 @@ class Cobweb3Node(CobwebNode):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
         return correct_guesses / attr_count
 
     def pretty_print(self, depth=0):
-- 
2.43.0


From 4778ca330909ba49f936d17e6715a96f01586b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 02/31] fix: k_cluster unpacks the (clustering, heuristic)
 pairs of cluster_iter

---
 concept_formation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index e723d60..c164490 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -80,7 +80,7 @@ def k_cluster(tree, instances, k=3, mod=True):
                          "guaranteed to have at least 2 children.")
 
     clustering = ["Concept" + str(tree.root.concept_id) for i in instances]
-    for c in cluster_iter(tree, instances, mod=mod):
+    for c, _ in cluster_iter(tree, instances, mod=mod):
         if len(set(c)) > k:
             break
         clustering = c
-- 
2.43.0


From c81b8013d96286d0ef614e497e54646750562cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 03/31] fix: cluster_iter performs the splits before minsplit
 instead of yielding nothing

---
 concept_formation/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index c164490..f99bbcf 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -430,19 +430,19 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         cluster_assign = []
         child_cluster_assign = []
+        clusters = []
+        for i, c in enumerate(temp_clusters):
+            child = None
+            while (c.parent and c.parent.parent):
+                child = c
+                c = c.parent
+            if labels:
+                clusters.append("Concept" + str(c.concept_id))
+            else:
+                clusters.append(c)
+            cluster_assign.append(c)
+            child_cluster_assign.append(child)
         if nth_split >= minsplit:
-            clusters = []
-            for i, c in enumerate(temp_clusters):
-                child = None
-                while (c.parent and c.parent.parent):
-                    child = c
-                    c = c.parent
-                if labels:
-                    clusters.append("Concept" + str(c.concept_id))
-                else:
-                    clusters.append(c)
-                cluster_assign.append(c)
-                child_cluster_assign.append(child)
             yield clusters, heuristic(cluster_assign, temp_clusters)
 
         split_cus = []
-- 
2.43.0


From c44943088b4ff6afdc9dd9610c0fb76529d9cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 04/31] fix: visualize_clusters names concept nodes as the
 output does, so the tree is trimmed

---
 concept_formation/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 9c0352c..2880b24 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -153,7 +153,7 @@ def visualize_clusters(tree, clusters, dst=None, recreate_html=True):
     :type create_html: bool
     """
     if isinstance(clusters[0], CobwebNode):
-        clusters = {str(c.concept_id) for c in clusters}
+        clusters = {"Concept" + str(c.concept_id) for c in clusters}
     else:
         clusters = set(clusters)
 
-- 
2.43.0


From d2964a024dd16cf557ed9c3ea383d10221c894e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 05/31] fix: NameStandardizer restores the names of variable
 attributes with atomic values

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 802cc94..4eedc26 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -444,7 +444,7 @@ class NameStandardizer(Preprocessor):
                 temp_rel = rename_relation(attr, self.reverse_mapping)
                 new_instance[temp_rel] = instance[attr]
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[name] = instance[attr]
 
         return new_instance
 
-- 
2.43.0


From a435658e1ad07d368ce7b828de7ce160ee7d5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:53 +0000
Subject: [PATCH 06/31] fix: ListsToRelations leaves cyclic and partially
 ordered lists as relations

---
 concept_formation/preprocessor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 4eedc26..ac257aa 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1124,8 +1124,8 @@ class ListsToRelations(Preprocessor):
                 front = True
                 while front is not None:
                     front = None
-                    for a, b in order[ele]:
-                        if b == new_list[0]:
+                    for a, b in order.get(ele, []):
+                        if b == new_list[0] and a in elements[ele]:
                             change = True
                             front = (a, b)
                             elements[ele].remove(a)
@@ -1138,8 +1138,8 @@ class ListsToRelations(Preprocessor):
                 back = True
                 while back is not None:
                     back = None
-                    for a, b in order[ele]:
-                        if a == new_list[-1]:
+                    for a, b in order.get(ele, []):
+                        if a == new_list[-1] and b in elements[ele]:
                             change = True
                             back = (a, b)
                             elements[ele].remove(b)
@@ -1148,14 +1148,14 @@ class ListsToRelations(Preprocessor):
                     if back is not None:
                         order[ele].remove(back)
 
-            if len(elements[ele]) == 0:
+            if len(elements[ele]) == 0 and not order.get(ele):
                 path = self._get_path(ele)
                 current = new_instance
                 while len(path) > 1:
                     current = current[path.pop(0)]
                 current[path[0]] = new_list
             else:
-                for attr, val in originals:
+                for attr, val in originals[ele]:
                     new_instance[attr] = val
 
         return new_instance
-- 
2.43.0


From 532cc478624e85dea50e2687d9124b9c5d60b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:53 +0000
Subject: [PATCH 07/31] fix: undoing ListsToRelations does not write into the
 components of its argument

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ac257aa..a27be17 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1111,7 +1111,7 @@ class ListsToRelations(Preprocessor):
                 originals[lname].append((attr, instance[attr]))
 
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[attr] = deepcopy(instance[attr])
 
         for ele in elements:
             new_list = [elements[ele].pop(0)]
-- 
2.43.0


From 60e0deda0345e4183b94c58095d9d8faf1d175ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:53 +0000
Subject: [PATCH 08/31] fix: Tuplizer can undo relations that contain numbers

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index a27be17..001bf33 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -295,7 +295,7 @@ class Tuplizer(Preprocessor):
         """
         if isinstance(relation, tuple):
             relation = [self._stringify_relation(ele) if isinstance(ele, tuple)
-                        else ele for ele in relation]
+                        else str(ele) for ele in relation]
             return "(" + " ".join(relation) + ")"
         else:
             return relation
-- 
2.43.0


From 5e61d2332353358f401a5b99e2c12a8e8dc49f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:53 +0000
Subject: [PATCH 09/31] fix: NominalToNumeric converts inside components
 instead of failing on them

---
 concept_formation/preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 001bf33..06a5059 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1596,10 +1596,10 @@ class NominalToNumeric(OneWayPreprocessor):
         new_instance = {}
 
         for a in instance:
-            if a in attrs:
+            if a in attrs and not isinstance(instance[a], dict):
                 try:
                     val = float(instance[a])
-                except ValueError as e:
+                except (ValueError, TypeError) as e:
                     if self.on_fail == "break":
                         raise e
                         return None
-- 
2.43.0


From 6716e865d6f1c4c3e6d96f83999e889993f8a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:53 +0000
Subject: [PATCH 10/31] fix: Sanitizer honours the spec names it accepts in any
 case

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 06a5059..2924503 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1664,7 +1664,7 @@ class Sanitizer(OneWayPreprocessor):
         if spec.lower() not in ['trestle', 'cobweb', 'cobweb3']:
             raise ValueError(
                 "Invalid Spec: must be one of: 'trestle','cobweb','cobweb3'")
-        self.spec = spec
+        self.spec = spec.lower()
 
     def transform(self, instance):
         return self._sanitize(instance)
-- 
2.43.0


From ae1169305f70b048155bab3f7005b74e4fc09d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:53 +0000
Subject: [PATCH 11/31] fix: ObjectVariablizer renames the variablized objects
 in relations too

---
 concept_formation/preprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 2924503..054c192 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1432,6 +1432,7 @@ class ObjectVariablizer(OneWayPreprocessor):
                 name = attr
                 if attr[0] != '?':
                     name = '?' + attr
+                mapping[attr] = name
                 new_instance[name] = self._variablize(instance[attr], mapping,
                                                       prefix)
             else:
-- 
2.43.0


From 3eeb31b6494ad1d46da205f127b4b7d38b323ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:53 +0000
Subject: [PATCH 12/31] fix: SubComponentProcessor keeps where a variable
 inside a constant component belongs

---
 concept_formation/preprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 054c192..020393b 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1341,7 +1341,7 @@ class SubComponentProcessor(Preprocessor):
         inner = None
         relations = []
 
-        while len(attr) == 2:
+        while isinstance(attr, tuple) and len(attr) == 2:
             a, attr = attr
             if isinstance(a, str) and len(a) > 0 and a[0] == '?':
                 if last_comp is not None:
@@ -1349,8 +1349,7 @@ class SubComponentProcessor(Preprocessor):
                 last_comp = a
                 inner = self._extract_attr(attr)
 
-        if last_comp is not None and (isinstance(attr, str) and len(attr) > 0
-                                      and attr[0] == '?'):
+        if last_comp is not None:
             relations.append(('has-component', inner, last_comp))
 
         return relations
-- 
2.43.0


From 60bb8ef14b266263ddc09ea7cd4fd4d003a9f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:32 +0000
Subject: [PATCH 13/31] fix: DummyTree keeps scales, so it can estimate
 probabilities of numbers

---
 concept_formation/dummy.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9492c81..4cf2d51 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -8,7 +8,6 @@ from __future__ import print_function
 from __future__ import unicode_literals
 from __future__ import absolute_import
 from __future__ import division
-from concept_formation.cobweb3 import Cobweb3Node
 from concept_formation.trestle import TrestleTree
 from concept_formation.structure_mapper import StructureMapper
 from concept_formation.preprocessor import SubComponentProcessor
@@ -27,9 +26,7 @@ class DummyTree(TrestleTree):
     """
 
     def __init__(self):
-        self.root = Cobweb3Node()
-        self.root.tree = self
-        self.gensym_counter = 0
+        super(DummyTree, self).__init__()
         self.structure_map_internally = False
 
     def gensym(self):
@@ -67,6 +64,7 @@ class DummyTree(TrestleTree):
         else:
             pipeline = Pipeline(SubComponentProcessor(), Flattener())
         temp_instance = pipeline.transform(instance)
+        self.update_scales(temp_instance)
         self.root.increment_counts(temp_instance)
         return self.root
 
-- 
2.43.0


From ba1ff68eceb79454ff5b398916c4e017b7bf8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:32 +0000
Subject: [PATCH 14/31] fix: incremental_evaluation scores run_length instances
 per run as documented

---
 concept_formation/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/evaluation.py b/concept_formation/evaluation.py
index 2445373..2356eba 100644
--- a/concept_formation/evaluation.py
+++ b/concept_formation/evaluation.py
@@ -236,7 +236,7 @@ def incremental_evaluation(tree, instances, attr, run_length, runs=1,
 
         row = []
 
-        for i, instance in enumerate(instances[:run_length+2]):
+        for i, instance in enumerate(instances[:run_length]):
             # print(i)
             val = None
             if attr in instance:
-- 
2.43.0


From d9c5e2d2d96abf3f6800ee76b0872608bb4f6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:32 +0000
Subject: [PATCH 15/31] fix: dataset loaders return num_instances instances,
 not one more

---
 concept_formation/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/datasets.py b/concept_formation/datasets.py
index aaf79f9..3ec3f0e 100644
--- a/concept_formation/datasets.py
+++ b/concept_formation/datasets.py
@@ -23,7 +23,7 @@ def _load_json(filename, num_instances=None):
     output = []
     with open(join(module_path, 'data_files', filename)) as dat:
         for idx, lin in enumerate(dat):
-            if num_instances is not None and idx > num_instances:
+            if num_instances is not None and idx >= num_instances:
                 break
             output.append(json.loads(lin.strip('[],\n')))
     return output
-- 
2.43.0


From f701127ec246f5fdd4de4f442e956a5b694ad47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:32 +0000
Subject: [PATCH 16/31] fix: an empty concept predicts a missing value instead
 of dividing by zero

---
 concept_formation/cobweb.py  | 2 ++
 concept_formation/cobweb3.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 148db4f..2b31eb2 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -1149,6 +1149,8 @@ class CobwebNode(object):
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v] for v in
                          self.av_counts[attr]])
+            if self.count == 0:
+                return 1.0
             return (self.count - c) / self.count
 
         if attr in self.av_counts and val in self.av_counts[attr]:
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index fb9653e..a27d24d 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -447,6 +447,8 @@ class Cobweb3Node(CobwebNode):
                 c = sum([self.av_counts[attr][v].num if v == cv_key
                          else self.av_counts[attr][v] for v in
                          self.av_counts[attr]])
+            if self.count == 0:
+                return 1.0
             return (self.count - c) / self.count
 
         if attr in self.av_counts and isNumber(val):
-- 
2.43.0


From d49d3ae726a9bb904ffc8ef7bf9c6825c10fa378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:32 +0000
Subject: [PATCH 17/31] fix: combining with an empty ContinuousValue changes
 nothing instead of dividing by zero

---
 concept_formation/continuous_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/continuous_value.py b/concept_formation/continuous_value.py
index d465862..39776b7 100644
--- a/concept_formation/continuous_value.py
+++ b/concept_formation/continuous_value.py
@@ -188,6 +188,8 @@ class ContinuousValue():
         """
         if not isinstance(other, ContinuousValue):
             raise ValueError("Can only merge 2 continuous values.")
+        if other.num == 0:
+            return
         delta = other.mean - self.mean
         self.meanSq = (self.meanSq + other.meanSq + delta * delta *
                        ((self.num * other.num) / (self.num + other.num)))
-- 
2.43.0


From b564916e19b1d96fc3890f422995dd00a70f0c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:35 +0000
Subject: [PATCH 18/31] fix: weighted_choice refuses a negative weight wherever
 it is in the list

---
 concept_formation/utils.py | 359 +++++++++++++++++++------------------
 1 file changed, 180 insertions(+), 179 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 65944a9..8eccbc9 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -1,179 +1,180 @@
-"""
-The utils module contains a number of utility functions used by other modules.
-"""
-
-from __future__ import print_function
-from __future__ import unicode_literals
-from __future__ import absolute_import
-from __future__ import division
-from numbers import Number
-from random import uniform
-from random import random
-from math import sqrt
-from math import isnan
-
-
-# A hashtable of values to use in the c4(n) function to apply corrections to
-# estimates of std.
-c4n_table = {2: 0.7978845608028654,
-             3:  0.886226925452758,
-             4:  0.9213177319235613,
-             5:  0.9399856029866254,
-             6:  0.9515328619481445,
-             7:  0.9593687886998328,
-             8:  0.9650304561473722,
-             9:  0.9693106997139539,
-             10: 0.9726592741215884,
-             11: 0.9753500771452293,
-             12: 0.9775593518547722,
-             13: 0.9794056043142177,
-             14: 0.9809714367555161,
-             15: 0.9823161771626504,
-             16: 0.9834835316158412,
-             17: 0.9845064054718315,
-             18: 0.985410043808079,
-             19: 0.9862141368601935,
-             20: 0.9869342675246552,
-             21: 0.9875829288261562,
-             22: 0.9881702533158311,
-             23: 0.988704545233999,
-             24: 0.9891926749585048,
-             25: 0.9896403755857028,
-             26: 0.9900524688409107,
-             27: 0.990433039209448,
-             28: 0.9907855696217323,
-             29: 0.9911130482419843}
-
-
-def c4(n):
-    """
-    Returns the correction factor to apply to unbias estimates of standard
-    deviation in low sample sizes. This implementation is based on a lookup
-    table for n in [2-29] and returns 1.0 for values >= 30.
-
-    >>> c4(3)
-    0.886226925452758
-    """
-    if n <= 1:
-        raise ValueError("Cannot apply correction for a sample size of 1.")
-    else:
-        return c4n_table[n] if n < 30 else 1.0
-
-
-def isNumber(n):
-    """
-    Check if a value is a number that should be handled differently than
-    nominals.
-    """
-    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
-
-
-def mean(values):
-    """
-    Computes the mean of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the mean of the list of values
-    :rtype: float
-
-    >>> mean([600, 470, 170, 430, 300])
-    394.0
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    return float(sum(values))/len(values)
-
-
-def std(values):
-    """
-    Computes the standard deviation of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the standard deviation of the list of values
-    :rtype: float
-
-    >>> std([600, 470, 170, 430, 300])
-    147.32277488562318
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    meanValue = mean(values)
-    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
-                          values]))/len(values)
-    return sqrt(variance)
-
-
-def weighted_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
-    chosen value where the choice frequency is proportional to the choice
-    weight divided by the sum of all weights. Note, weights must be greater
-    than or equal to 0.
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: A choice sampled from the list according to the weightings
-    :rtype: val
-
-    >>> from random import seed
-    >>> seed(1234)
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> weighted_choice(options)
-    'd'
-    >>> weighted_choice(options)
-    'c'
-    >>> weighted_choice(options)
-    'a'
-
-    .. seealso::
-        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
-    """
-    total = sum(w for c, w in choices)
-    r = uniform(0, total)
-    upto = 0
-    for c, w in choices:
-        if w < 0:
-            raise ValueError('All weights must be greater than or equal to 0.')
-        if upto + w > r:
-            return c
-        upto += w
-    raise ValueError("Choices cannot be an empty list")
-
-
-def most_likely_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], returns the value
-    with the highest weight. Ties are randomly broken.
-
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: the val with the hightest weight
-    :rtype: val
-    """
-    if len(choices) == 0:
-        raise ValueError("Choices cannot be an empty list")
-
-    vals = [w for _, w in choices if w < 0]
-    if len(vals) > 0:
-        raise ValueError('All weights must be greater than or equal to 0')
-
-    updated_choices = [(prob, random(), val) for val, prob in choices]
-    return sorted(updated_choices, reverse=True)[0][2]
+"""
+The utils module contains a number of utility functions used by other modules.
+"""
+
+from __future__ import print_function
+from __future__ import unicode_literals
+from __future__ import absolute_import
+from __future__ import division
+from numbers import Number
+from random import uniform
+from random import random
+from math import sqrt
+from math import isnan
+
+
+# A hashtable of values to use in the c4(n) function to apply corrections to
+# estimates of std.
+c4n_table = {2: 0.7978845608028654,
+             3:  0.886226925452758,
+             4:  0.9213177319235613,
+             5:  0.9399856029866254,
+             6:  0.9515328619481445,
+             7:  0.9593687886998328,
+             8:  0.9650304561473722,
+             9:  0.9693106997139539,
+             10: 0.9726592741215884,
+             11: 0.9753500771452293,
+             12: 0.9775593518547722,
+             13: 0.9794056043142177,
+             14: 0.9809714367555161,
+             15: 0.9823161771626504,
+             16: 0.9834835316158412,
+             17: 0.9845064054718315,
+             18: 0.985410043808079,
+             19: 0.9862141368601935,
+             20: 0.9869342675246552,
+             21: 0.9875829288261562,
+             22: 0.9881702533158311,
+             23: 0.988704545233999,
+             24: 0.9891926749585048,
+             25: 0.9896403755857028,
+             26: 0.9900524688409107,
+             27: 0.990433039209448,
+             28: 0.9907855696217323,
+             29: 0.9911130482419843}
+
+
+def c4(n):
+    """
+    Returns the correction factor to apply to unbias estimates of standard
+    deviation in low sample sizes. This implementation is based on a lookup
+    table for n in [2-29] and returns 1.0 for values >= 30.
+
+    >>> c4(3)
+    0.886226925452758
+    """
+    if n <= 1:
+        raise ValueError("Cannot apply correction for a sample size of 1.")
+    else:
+        return c4n_table[n] if n < 30 else 1.0
+
+
+def isNumber(n):
+    """
+    Check if a value is a number that should be handled differently than
+    nominals.
+    """
+    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
+
+
+def mean(values):
+    """
+    Computes the mean of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the mean of the list of values
+    :rtype: float
+
+    >>> mean([600, 470, 170, 430, 300])
+    394.0
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    return float(sum(values))/len(values)
+
+
+def std(values):
+    """
+    Computes the standard deviation of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the standard deviation of the list of values
+    :rtype: float
+
+    >>> std([600, 470, 170, 430, 300])
+    147.32277488562318
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    meanValue = mean(values)
+    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
+                          values]))/len(values)
+    return sqrt(variance)
+
+
+def weighted_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
+    chosen value where the choice frequency is proportional to the choice
+    weight divided by the sum of all weights. Note, weights must be greater
+    than or equal to 0.
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: A choice sampled from the list according to the weightings
+    :rtype: val
+
+    >>> from random import seed
+    >>> seed(1234)
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> weighted_choice(options)
+    'd'
+    >>> weighted_choice(options)
+    'c'
+    >>> weighted_choice(options)
+    'a'
+
+    .. seealso::
+        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
+    """
+    if any(w < 0 for _, w in choices):
+        raise ValueError('All weights must be greater than or equal to 0.')
+
+    total = sum(w for c, w in choices)
+    r = uniform(0, total)
+    upto = 0
+    for c, w in choices:
+        if upto + w > r:
+            return c
+        upto += w
+    raise ValueError("Choices cannot be an empty list")
+
+
+def most_likely_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], returns the value
+    with the highest weight. Ties are randomly broken.
+
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: the val with the hightest weight
+    :rtype: val
+    """
+    if len(choices) == 0:
+        raise ValueError("Choices cannot be an empty list")
+
+    vals = [w for _, w in choices if w < 0]
+    if len(vals) > 0:
+        raise ValueError('All weights must be greater than or equal to 0')
+
+    updated_choices = [(prob, random(), val) for val, prob in choices]
+    return sorted(updated_choices, reverse=True)[0][2]
-- 
2.43.0


From 6b90fc0444eeae894b616fc3c8f940f61678e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:07 +0000
Subject: [PATCH 19/31] fix: TrestleTree.infer_missing refuses an invalid
 instance like ifit and categorize do

---
 concept_formation/trestle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index 24e2e80..d31e381 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -194,6 +194,7 @@ class TrestleTree(Cobweb3Tree):
                                  StructureMapper(self.root))
 
         temp_instance = preprocessing.transform(instance)
+        self._sanity_check_instance(temp_instance)
         concept = self._cobweb_categorize(temp_instance)
 
         for attr in concept.attrs('all'):
-- 
2.43.0


From cf5d383b75b45f54e0b1845fb2efd1e5e625528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:45 +0000
Subject: [PATCH 20/31] fix: Sanitizer also converts tuples that contain
 unhashable values

---
 concept_formation/preprocessor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 020393b..7ac8ffe 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1698,6 +1698,12 @@ class Sanitizer(OneWayPreprocessor):
         ret = {}
         for attr in instance:
             val = instance[attr]
+            try:
+                hash(val)
+            except TypeError:
+                # e.g., a tuple that contains a list
+                if not isinstance(val, dict):
+                    val = self._cob_str(val)
             if not isinstance(attr, str) and not isinstance(attr, tuple):
                 if str(attr) in instance:
                     print('Santitizing', attr,
-- 
2.43.0


From c9154b28a5d69e37ed0a3b8eac54ac88e331fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:07 +0000
Subject: [PATCH 21/31] fix: Tuplizer parses relations that begin with a
 relation (postfix)

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 7ac8ffe..2303605 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -260,7 +260,7 @@ class Tuplizer(Preprocessor):
         for val in relation.split(' '):
             end = 0
 
-            if val[0] == '(':
+            while val[0] == '(':
                 stack.append([])
                 val = val[1:]
 
-- 
2.43.0


From 2a2e7da9bdb1bd73db38e672f7b43254012f2e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:03 +0000
Subject: [PATCH 22/31] fix: structure mapping accepts the initial mapping dict
 it documents

---
 concept_formation/structure_mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/concept_formation/structure_mapper.py b/concept_formation/structure_mapper.py
index eeaa3f2..4238727 100644
--- a/concept_formation/structure_mapper.py
+++ b/concept_formation/structure_mapper.py
@@ -207,7 +207,8 @@ def flat_match(target, base, initial_mapping=None):
     if initial_mapping is None:
         initial_mapping = hungarian_mapping(inames, cnames, target, base)
     else:
-        initial_mapping = frozenset([(a, v) for a, v in initial_mapping if a in
+        initial_mapping = frozenset([(a, v) for a, v in
+                                     dict(initial_mapping).items() if a in
                                      inames and v in cnames])
 
     unmapped = cnames - frozenset(dict(initial_mapping).values())
-- 
2.43.0


From 712119639e06fc752e4860c585719e21047d4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:12 +0000
Subject: [PATCH 23/31] fix: TrestleTree.infer_missing keeps given objects
 where they were given

A predicted has-component relation moved an object of the instance into
another component, so the attributes given were no longer found under
their own name.
---
 concept_formation/trestle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index d31e381..028e2b3 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -11,6 +11,7 @@ from __future__ import division
 from concept_formation.cobweb3 import Cobweb3Tree
 from concept_formation.cobweb3 import Cobweb3Node
 from concept_formation.structure_mapper import StructureMapper
+from concept_formation.structure_mapper import get_component_names
 from concept_formation.preprocessor import SubComponentProcessor
 from concept_formation.preprocessor import Flattener
 from concept_formation.preprocessor import Pipeline
@@ -196,10 +197,15 @@ class TrestleTree(Cobweb3Tree):
         temp_instance = preprocessing.transform(instance)
         self._sanity_check_instance(temp_instance)
         concept = self._cobweb_categorize(temp_instance)
+        given = get_component_names(temp_instance)
 
         for attr in concept.attrs('all'):
             if attr in temp_instance:
                 continue
+            # objects that were given stay where they were given
+            if (isinstance(attr, tuple) and len(attr) == 3 and
+                    attr[0] == 'has-component' and attr[2] in given):
+                continue
             val = concept.predict(attr, choice_fn, allow_none)
             if val is not None:
                 temp_instance[attr] = val
-- 
2.43.0


From a7fe337fcc9bbafeca5bd44cef84dd0d5a07c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:53 +0000
Subject: [PATCH 24/31] fix: a copied concept's children have the copy as their
 parent

---
 concept_formation/cobweb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 2b31eb2..de30194 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -309,7 +309,9 @@ class CobwebNode(object):
             self.update_counts_from_node(otherNode)
 
             for child in otherNode.children:
-                self.children.append(self.__class__(child))
+                new_child = self.__class__(child)
+                new_child.parent = self
+                self.children.append(new_child)
 
     def shallow_copy(self):
         """
-- 
2.43.0


From a5a0a83f85a12baf5421f670c65ef4aa5d05295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:05 +0000
Subject: [PATCH 25/31] fix: weighted_choice chooses for every draw, whatever
 the rounding of the total

---
 concept_formation/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 8eccbc9..5c59786 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -141,7 +141,11 @@ def weighted_choice(choices):
     if any(w < 0 for _, w in choices):
         raise ValueError('All weights must be greater than or equal to 0.')
 
-    total = sum(w for c, w in choices)
+    # added up in the same way as below, so that rounding cannot leave a gap
+    # between the last choice and the total
+    total = 0
+    for c, w in choices:
+        total += w
     r = uniform(0, total)
     upto = 0
     for c, w in choices:
-- 
2.43.0


From 123b42341cf56a26fbea827c1e158b8fdc8bcf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:16 +0000
Subject: [PATCH 26/31] fix: hidden attributes of components are scaled by
 their own name

get_inner_attr returned the mark '_' for every hidden attribute of a
component, so that all of them shared one scale.
---
 concept_formation/cobweb3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index a27d24d..7e9d0b3 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -88,6 +88,10 @@ class Cobweb3Tree(CobwebTree):
         'a'
         """
         if isinstance(attr, tuple) and self.inner_attr_scaling:
+            if attr[0] == '_' and len(attr) > 1:
+                # hidden, so the name is that of the attribute it marks
+                inner = str(self.get_inner_attr(attr[1]))
+                return inner if inner.startswith('_') else '_' + inner
             return attr[0]
         else:
             return attr
-- 
2.43.0


From 5ac18c1f85f3a1ae3149c003ae1ecec06de16e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:40 +0000
Subject: [PATCH 27/31] fix: NameStandardizer.undo_transform renames relations
 whatever their value

A relation described by a component or a list kept its standardised names.
---
 concept_formation/preprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 2303605..41d6ddd 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -433,6 +433,8 @@ class NameStandardizer(Preprocessor):
                 name = self.reverse_mapping[attr]
                 if isinstance(name, tuple):
                     name = name[0]
+            elif isinstance(attr, tuple):
+                name = rename_relation(attr, self.reverse_mapping)
 
             if isinstance(instance[attr], dict):
                 new_instance[name] = self._undo_standardize(instance[attr])
@@ -440,9 +442,6 @@ class NameStandardizer(Preprocessor):
                 new_instance[name] = [self._undo_standardize(ele) if
                                       isinstance(ele, dict) else ele for ele in
                                       instance[attr]]
-            elif isinstance(attr, tuple):
-                temp_rel = rename_relation(attr, self.reverse_mapping)
-                new_instance[temp_rel] = instance[attr]
             else:
                 new_instance[name] = instance[attr]
 
-- 
2.43.0


From 1d5089648395c318b438deee1344c2529885cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:40 +0000
Subject: [PATCH 28/31] fix: Flattener keeps the attributes of a hidden
 component hidden

They were flattened to visible attributes and influenced formation.
---
 concept_formation/preprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 41d6ddd..ba046ab 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -705,7 +705,8 @@ class Flattener(Preprocessor):
         for attr in instance:
             original = attr
             if outer_attr is not None:
-                if attr[0] == "_":
+                # the attributes of a hidden component are hidden too
+                if attr[0] == "_" or outer_attr[0] == "_":
                     attr = ('_', (attr, outer_attr))
                 else:
                     attr = (attr, outer_attr)
-- 
2.43.0


From 204564fcfd78dd0d8907d52a69eba5520667e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:40 +0000
Subject: [PATCH 29/31] fix: objects that belong to several components stay in
 relational form

As documented, SubComponentProcessor.undo_transform now leaves them and
their has-component relations alone instead of dropping all but one.
---
 concept_formation/preprocessor.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index ba046ab..1ec845a 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1281,13 +1281,16 @@ class SubComponentProcessor(Preprocessor):
         return self._embed_sub_objects(instance)
 
     def _embed_sub_objects(self, instance):
-        so_mapping = {attr[2]: (attr[2], attr[1]) for attr in instance
-                      if (isinstance(attr, tuple) and len(attr) == 3 and
-                          attr[0] == 'has-component')}
+        relations = [attr for attr in instance
+                     if (isinstance(attr, tuple) and len(attr) == 3 and
+                         attr[0] == 'has-component')]
+        children = [attr[2] for attr in relations]
+        so_mapping = {attr[2]: (attr[2], attr[1]) for attr in relations
+                      if children.count(attr[2]) == 1}
 
         return {self._rename_embedding(attr, so_mapping): instance[attr] for
-                attr in instance if not (isinstance(attr, tuple) and len(attr)
-                                         == 3 and attr[0] == 'has-component')}
+                attr in instance if not (attr in relations and
+                                         attr[2] in so_mapping)}
 
     def _rename_embedding(self, attr, so_mapping):
         if attr in so_mapping:
-- 
2.43.0


From 92cb498df317b7e7cf2366519323952f7e7a3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:56 +0000
Subject: [PATCH 30/31] fix: utils.py keeps its original line endings

An earlier fix had converted the whole file.
---
 concept_formation/utils.py | 368 ++++++++++++++++++-------------------
 1 file changed, 184 insertions(+), 184 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 5c59786..1521b06 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -1,184 +1,184 @@
-"""
-The utils module contains a number of utility functions used by other modules.
-"""
-
-from __future__ import print_function
-from __future__ import unicode_literals
-from __future__ import absolute_import
-from __future__ import division
-from numbers import Number
-from random import uniform
-from random import random
-from math import sqrt
-from math import isnan
-
-
-# A hashtable of values to use in the c4(n) function to apply corrections to
-# estimates of std.
-c4n_table = {2: 0.7978845608028654,
-             3:  0.886226925452758,
-             4:  0.9213177319235613,
-             5:  0.9399856029866254,
-             6:  0.9515328619481445,
-             7:  0.9593687886998328,
-             8:  0.9650304561473722,
-             9:  0.9693106997139539,
-             10: 0.9726592741215884,
-             11: 0.9753500771452293,
-             12: 0.9775593518547722,
-             13: 0.9794056043142177,
-             14: 0.9809714367555161,
-             15: 0.9823161771626504,
-             16: 0.9834835316158412,
-             17: 0.9845064054718315,
-             18: 0.985410043808079,
-             19: 0.9862141368601935,
-             20: 0.9869342675246552,
-             21: 0.9875829288261562,
-             22: 0.9881702533158311,
-             23: 0.988704545233999,
-             24: 0.9891926749585048,
-             25: 0.9896403755857028,
-             26: 0.9900524688409107,
-             27: 0.990433039209448,
-             28: 0.9907855696217323,
-             29: 0.9911130482419843}
-
-
-def c4(n):
-    """
-    Returns the correction factor to apply to unbias estimates of standard
-    deviation in low sample sizes. This implementation is based on a lookup
-    table for n in [2-29] and returns 1.0 for values >= 30.
-
-    >>> c4(3)
-    0.886226925452758
-    """
-    if n <= 1:
-        raise ValueError("Cannot apply correction for a sample size of 1.")
-    else:
-        return c4n_table[n] if n < 30 else 1.0
-
-
-def isNumber(n):
-    """
-    Check if a value is a number that should be handled differently than
-    nominals.
-    """
-    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
-
-
-def mean(values):
-    """
-    Computes the mean of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the mean of the list of values
-    :rtype: float
-
-    >>> mean([600, 470, 170, 430, 300])
-    394.0
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    return float(sum(values))/len(values)
-
-
-def std(values):
-    """
-    Computes the standard deviation of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the standard deviation of the list of values
-    :rtype: float
-
-    >>> std([600, 470, 170, 430, 300])
-    147.32277488562318
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    meanValue = mean(values)
-    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
-                          values]))/len(values)
-    return sqrt(variance)
-
-
-def weighted_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
-    chosen value where the choice frequency is proportional to the choice
-    weight divided by the sum of all weights. Note, weights must be greater
-    than or equal to 0.
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: A choice sampled from the list according to the weightings
-    :rtype: val
-
-    >>> from random import seed
-    >>> seed(1234)
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> weighted_choice(options)
-    'd'
-    >>> weighted_choice(options)
-    'c'
-    >>> weighted_choice(options)
-    'a'
-
-    .. seealso::
-        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
-    """
-    if any(w < 0 for _, w in choices):
-        raise ValueError('All weights must be greater than or equal to 0.')
-
-    # added up in the same way as below, so that rounding cannot leave a gap
-    # between the last choice and the total
-    total = 0
-    for c, w in choices:
-        total += w
-    r = uniform(0, total)
-    upto = 0
-    for c, w in choices:
-        if upto + w > r:
-            return c
-        upto += w
-    raise ValueError("Choices cannot be an empty list")
-
-
-def most_likely_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], returns the value
-    with the highest weight. Ties are randomly broken.
-
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: the val with the hightest weight
-    :rtype: val
-    """
-    if len(choices) == 0:
-        raise ValueError("Choices cannot be an empty list")
-
-    vals = [w for _, w in choices if w < 0]
-    if len(vals) > 0:
-        raise ValueError('All weights must be greater than or equal to 0')
-
-    updated_choices = [(prob, random(), val) for val, prob in choices]
-    return sorted(updated_choices, reverse=True)[0][2]
+"""
+The utils module contains a number of utility functions used by other modules.
+"""
+
+from __future__ import print_function
+from __future__ import unicode_literals
+from __future__ import absolute_import
+from __future__ import division
+from numbers import Number
+from random import uniform
+from random import random
+from math import sqrt
+from math import isnan
+
+
+# A hashtable of values to use in the c4(n) function to apply corrections to
+# estimates of std.
+c4n_table = {2: 0.7978845608028654,
+             3:  0.886226925452758,
+             4:  0.9213177319235613,
+             5:  0.9399856029866254,
+             6:  0.9515328619481445,
+             7:  0.9593687886998328,
+             8:  0.9650304561473722,
+             9:  0.9693106997139539,
+             10: 0.9726592741215884,
+             11: 0.9753500771452293,
+             12: 0.9775593518547722,
+             13: 0.9794056043142177,
+             14: 0.9809714367555161,
+             15: 0.9823161771626504,
+             16: 0.9834835316158412,
+             17: 0.9845064054718315,
+             18: 0.985410043808079,
+             19: 0.9862141368601935,
+             20: 0.9869342675246552,
+             21: 0.9875829288261562,
+             22: 0.9881702533158311,
+             23: 0.988704545233999,
+             24: 0.9891926749585048,
+             25: 0.9896403755857028,
+             26: 0.9900524688409107,
+             27: 0.990433039209448,
+             28: 0.9907855696217323,
+             29: 0.9911130482419843}
+
+
+def c4(n):
+    """
+    Returns the correction factor to apply to unbias estimates of standard
+    deviation in low sample sizes. This implementation is based on a lookup
+    table for n in [2-29] and returns 1.0 for values >= 30.
+
+    >>> c4(3)
+    0.886226925452758
+    """
+    if n <= 1:
+        raise ValueError("Cannot apply correction for a sample size of 1.")
+    else:
+        return c4n_table[n] if n < 30 else 1.0
+
+
+def isNumber(n):
+    """
+    Check if a value is a number that should be handled differently than
+    nominals.
+    """
+    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
+
+
+def mean(values):
+    """
+    Computes the mean of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the mean of the list of values
+    :rtype: float
+
+    >>> mean([600, 470, 170, 430, 300])
+    394.0
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    return float(sum(values))/len(values)
+
+
+def std(values):
+    """
+    Computes the standard deviation of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the standard deviation of the list of values
+    :rtype: float
+
+    >>> std([600, 470, 170, 430, 300])
+    147.32277488562318
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    meanValue = mean(values)
+    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
+                          values]))/len(values)
+    return sqrt(variance)
+
+
+def weighted_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
+    chosen value where the choice frequency is proportional to the choice
+    weight divided by the sum of all weights. Note, weights must be greater
+    than or equal to 0.
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: A choice sampled from the list according to the weightings
+    :rtype: val
+
+    >>> from random import seed
+    >>> seed(1234)
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> weighted_choice(options)
+    'd'
+    >>> weighted_choice(options)
+    'c'
+    >>> weighted_choice(options)
+    'a'
+
+    .. seealso::
+        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
+    """
+    if any(w < 0 for _, w in choices):
+        raise ValueError('All weights must be greater than or equal to 0.')
+
+    # added up in the same way as below, so that rounding cannot leave a gap
+    # between the last choice and the total
+    total = 0
+    for c, w in choices:
+        total += w
+    r = uniform(0, total)
+    upto = 0
+    for c, w in choices:
+        if upto + w > r:
+            return c
+        upto += w
+    raise ValueError("Choices cannot be an empty list")
+
+
+def most_likely_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], returns the value
+    with the highest weight. Ties are randomly broken.
+
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: the val with the hightest weight
+    :rtype: val
+    """
+    if len(choices) == 0:
+        raise ValueError("Choices cannot be an empty list")
+
+    vals = [w for _, w in choices if w < 0]
+    if len(vals) > 0:
+        raise ValueError('All weights must be greater than or equal to 0')
+
+    updated_choices = [(prob, random(), val) for val, prob in choices]
+    return sorted(updated_choices, reverse=True)[0][2]
-- 
2.43.0


From b4e8363b533983f60f1097a3440f4f955745e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:33 +0000
Subject: [PATCH 31/31] fix: restored concepts keep ids of new concepts
 distinct

---
 concept_formation/cobweb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index de30194..18a07d2 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -959,6 +959,15 @@ class CobwebNode(object):
         return self.__class__._counter
         # return str(self.__class__._counter)
 
+    def __setstate__(self, state):
+        """
+        Restore a copied or unpickled concept. The class _counter moves past
+        its id, so that concepts created later do not get the same id.
+        """
+        self.__dict__.update(state)
+        cls = self.__class__
+        cls._counter = max(cls._counter, self.concept_id)
+
     def __str__(self):
         """
         Call :meth:`CobwebNode.pretty_print`
-- 
2.43.0


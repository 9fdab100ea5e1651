From b8d904633a7181e01d3e78ddbda9f6f1ce856dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 01/65] fix: keep the two dimensions of a context without
 objects

---
 fca/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/context.py b/fca/context.py
index 51dc172..9a776b4 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -243,6 +243,8 @@ class Context(object):
         self._objects = _objects
         self._attributes = _attributes
         self.np_table = np.array(cross_table, dtype=bool)
+        # a table without rows has no second dimension of its own
+        self.np_table = self.np_table.reshape(len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
         self.attribute_indices = {att: ind
-- 
2.43.0


From d10aab4800a31b8eb9cdbd727cedef597ddcc7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 02/65] fix: rename repeated object and attribute names until
 they are unique

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 9a776b4..4fd41d8 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -220,7 +220,7 @@ class Context(object):
                     " columns (=%i) must agree" % (len(attributes),
                         len(cross_table[0])))
         _attributes = attributes[:]
-        if len(set(attributes)) < len(attributes):
+        while len(set(_attributes)) < len(_attributes):
             for att in _attributes:
                 if _attributes.count(att) > 1:
                     indices = [i for i, x in enumerate(_attributes) if x == att]
@@ -230,7 +230,7 @@ class Context(object):
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
         _objects = objects[:]
-        if len(set(objects)) < len(objects):
+        while len(set(_objects)) < len(_objects):
             for obj in _objects:
                 if _objects.count(obj) > 1:
                     indices = [i for i, x in enumerate(_objects) if x == obj]
-- 
2.43.0


From 85b683c5c57b431a862792e65cc9de52ac2f40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 03/65] fix: object implications of the current context, with
 no background by default

---
 fca/context.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 4fd41d8..1f326ca 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -309,13 +309,9 @@ class Context(object):
     @basis_computation
     def get_object_implications(self, 
                                 basis=fca.algorithms.compute_dg_basis,
-                                confirmed=None):
-        cxt = self.transpose()
-        if not self._obj_imp_basis:
-            self._obj_imp_basis = basis(cxt, imp_basis=confirmed)
-        return self._obj_imp_basis
+                                confirmed=[]):
+        return basis(self.transpose(), imp_basis=confirmed)
     
-    _obj_imp_basis = None
     object_implications = property(get_object_implications)
         
     def examples(self):
-- 
2.43.0


From 161f98b8d813882f3bab115600e128cb8fec6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 04/65] fix: compound context joins the rows of both tables

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 1f326ca..088c738 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -783,7 +783,7 @@ class Context(object):
         @note: original context remains unchanged
         """
         complementary_cxt = self.complementary() 
-        compound_table = [self.table[i] + complementary_cxt.table[i]
+        compound_table = [list(self.table[i]) + list(complementary_cxt.table[i])
                           for i in range(len(self.objects))]
         return Context(compound_table,
                        self.objects,
-- 
2.43.0


From bc68d28fc7aa995e80168652a1f63a3b69cd4408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 05/65] fix: contexts that merely print alike are not equal

---
 fca/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 088c738..b1beaa9 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -670,9 +670,7 @@ class Context(object):
     def __eq__(self, other):
         if type(other) != Context:
             raise TypeError("An input object should be a context!")
-        if self.__repr__() == other.__repr__():
-            return True
-        elif (len(self.objects) != len(other.objects) or
+        if (len(self.objects) != len(other.objects) or
               len(self.attributes) != len(other.attributes)):
             return False
         elif (set(self.objects) != set(other.objects) or
-- 
2.43.0


From 2ff1c1da4dea7d422d82d10b7b49de07305b3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 06/65] fix: do not overflow when reducing contexts with 63
 attributes or more

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index b1beaa9..aca5c5e 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -793,7 +793,7 @@ def list2int(lst):
     input lst - list of 1 and 0. Treat as binary number, make it decimal integer
     """
     def foo(x, y):
-        return (x << 1) + y
+        return (x << 1) + int(y)
     return reduce(foo, reversed(lst), 0)
 
 
-- 
2.43.0


From fb8a40d6f27e7dc7560b830956d6ad9e60f3ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 07/65] fix: reduce_objects skipped rows whose index equalled a
 reducible row

---
 fca/context.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index aca5c5e..949aaa8 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -728,8 +728,6 @@ class Context(object):
         reducible = set()
         M = (1 << len(self.attributes)) - 1              #set of attributes repr
         for i in range(len(keys)):                      #checking if i reducible
-            if i in reducible:
-                continue 
             rest = keys[:i] + keys[i+1:]
             current = new = M
             for j in rest:
-- 
2.43.0


From 656492b4f6ab066a15fbc8d40aeffed973092028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 08/65] fix: drop the memoised rows and columns when a basis
 computation fails

---
 fca/context.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 949aaa8..6e4546d 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -100,12 +100,11 @@ def basis_computation(f):
         old_att_extent = args[0].get_attribute_extent_by_index
         args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
         args[0].get_attribute_extent_by_index = memo(args[0].get_attribute_extent_by_index)
-        result = f(*args, **kwargs)
-        del args[0].get_attribute_extent_by_index.cache
-        del args[0].get_object_intent_by_index.cache
-        args[0].get_object_intent_by_index = old_obj_intent
-        args[0].get_attribute_extent_by_index = old_att_extent
-        return result
+        try:
+            return f(*args, **kwargs)
+        finally:
+            args[0].get_object_intent_by_index = old_obj_intent
+            args[0].get_attribute_extent_by_index = old_att_extent
     _f.__name__ = f.__name__
     return _f
 
-- 
2.43.0


From 991464d240401f7236e2f8ad161a749f8d9197a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 09/65] fix: sort modified concepts of the incremental basis by
 a total order

---
 fca/algorithms/aibasis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/aibasis.py b/fca/algorithms/aibasis.py
index 1ea2d86..9732c38 100644
--- a/fca/algorithms/aibasis.py
+++ b/fca/algorithms/aibasis.py
@@ -4,6 +4,8 @@ Attribute Incremental algorithm for finding the canonical basis.
 @author: Sergei Obiedkov
 """
 
+import functools
+
 import fca
 
 from fca.algorithms import closure_operators
@@ -87,7 +89,7 @@ def update_preclosed(i, cxt, preclosed, close):
             basis.append(impl)
             mod_extra.append(non_min_mod[j])
         
-    mod_extra.sort(key=lambda x: x[1])
+    mod_extra.sort(key=functools.cmp_to_key(compare_tuples))
     
     return new_preclosed + mod_extra, basis
 
-- 
2.43.0


From 27edfc323dfa17fdfaeaac059604a60dd3a0b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 10/65] fix: linear closure is right when an implication occurs
 twice

---
 fca/algorithms/closure_operators.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 3d2258f..df8e761 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -124,12 +124,12 @@ def lin_closure(s, implications):
     
     """
     def decrease_count(i):
-        imp = current_imps[i]
-        if count[imp] == 0:
+        k = current_imps[i]
+        if count[k] == 0:
             return set()
-        count[imp] -= 1
-        if count[imp] == 0:
-            return imp._conclusion
+        count[k] -= 1
+        if count[k] == 0:
+            return implications[k]._conclusion
         return set()
     
     if not implications:
@@ -138,9 +138,10 @@ def lin_closure(s, implications):
     new_closure = reduce(set.union,
                          [imp._conclusion for imp in implications if not imp.premise],
                          new_closure)
-    count_ls = [(imp, len(imp.premise)) for imp in implications]
-    count = dict(count_ls)
-    imps_ls = [(attr, imp) for imp in implications for attr in imp.premise]
+    # implications are told apart by position: equal ones may occur twice
+    count = [len(imp.premise) for imp in implications]
+    imps_ls = [(attr, k) for k, imp in enumerate(implications)
+               for attr in imp.premise]
     imps = defaultdict(list)
     for n,v in imps_ls:
         imps[n].append(v)
-- 
2.43.0


From f6a523781b1f63d591f8446cdeb0f330318f7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 11/65] fix: hash of a concept agrees with equality, whatever
 its meta data

---
 fca/concept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/concept.py b/fca/concept.py
index 6903edb..8c772f9 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -68,7 +68,7 @@ class Concept(object):
                 self.intent == other.intent)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.extent), frozenset(self.intent)))
 
     def pairs(self):
         if not self.extent or not self.intent:
-- 
2.43.0


From ae3bc91e84c300eec2c705bd3e8f0506c77bc3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 12/65] fix: compare the tables of a partial context with
 integer indices

---
 fca/compare_context.py | 53 ++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/fca/compare_context.py b/fca/compare_context.py
index 1d49fdc..342555c 100644
--- a/fca/compare_context.py
+++ b/fca/compare_context.py
@@ -1,28 +1,25 @@
-""" Comparing contexts """
-
-
-def subseteq_table(table_left, table_right):
-    """
-    Checks whether one binary relation of two sets (presented as bool table) is
-    subset or equals another. Tables should be given as lists of bool lists and
-    should have the same dimensions. Result is bool.
-    table_left ?\subseteq table_right
-    """
-    if len(table_left) != len(table_right):
-        raise ValueError("Number of rows in left table (=%i) and number of rows"
-                         "in right table (=%i) must agree" % (len(table_left),
-                                                              len(table_right)))
-    elif (len(table_left) != 0) and len(table_left[0]) != len(table_right[0]):
-        raise ValueError("Number of columns in left table (=%i) and number of"
-                         "columns in right table (=%i) must agree"
-                         %(len(table_left[0]), len(table_right[0])))
-
-    row_length = len(table_left)
-    table_size = row_length * len(table_left[0])
-    for i in range(table_size):
-        a = (i / row_length)
-        b = (i % row_length)
-        if not (table_left[b][a] <= table_right[b][a]):
-            return False
-
-    return True
+""" Comparing contexts """
+
+
+def subseteq_table(table_left, table_right):
+    """
+    Checks whether one binary relation of two sets (presented as bool table) is
+    subset or equals another. Tables should be given as lists of bool lists and
+    should have the same dimensions. Result is bool.
+    table_left ?\subseteq table_right
+    """
+    if len(table_left) != len(table_right):
+        raise ValueError("Number of rows in left table (=%i) and number of rows"
+                         "in right table (=%i) must agree" % (len(table_left),
+                                                              len(table_right)))
+    elif (len(table_left) != 0) and len(table_left[0]) != len(table_right[0]):
+        raise ValueError("Number of columns in left table (=%i) and number of"
+                         "columns in right table (=%i) must agree"
+                         %(len(table_left[0]), len(table_right[0])))
+
+    for row_left, row_right in zip(table_left, table_right):
+        for left, right in zip(row_left, row_right):
+            if not (left <= right):
+                return False
+
+    return True
-- 
2.43.0


From 6fdd4d6af45926d3fc5c3effdd9cd604d6bb01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 13/65] fix: filtering concepts by "part" and "abs" passes the
 sort key by name

---
 fca/algorithms/filtering/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index c36b142..4326d40 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -30,7 +30,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     
     def _filter_abs(lattice, indexes, n):
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:int(n)]
             
         return fca.ConceptSystem([c[0] for c in filtered_concepts])
@@ -38,7 +38,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     def _filter_part(lattice, indexes, part):
         n = int(len(lattice) * part)
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-- 
2.43.0


From 8e8f4b7e53b528e5080849d916927be85c97321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 14/65] fix: the empty relation has no factors to cover it

---
 fca/algorithms/factors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index fa3e54b..a0e1ad8 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -82,6 +82,8 @@ def algorithm2(cxt, fidelity=1):
     """
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
@@ -137,6 +139,8 @@ def algorithm2_weighted(cxt, fidelity=1):
 
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
-- 
2.43.0


From 8f2110603fb74493b2ee589b1f3c923c33aff398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 15/65] fix: weighted factorisation derives the extent of an
 attribute set

---
 fca/algorithms/factors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index a0e1ad8..4b43789 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -146,7 +146,7 @@ def algorithm2_weighted(cxt, fidelity=1):
         V = 0
         to_remove = set()
         while True:
-            D_objs = cxt.oprime(D)
+            D_objs = cxt.aprime(D)
             ls_measures = [(score(_oplus(D_objs, j, cxt, U)), j)
                            for j in set(cxt.attributes) - D]
             if ls_measures:
-- 
2.43.0


From 010b1ea418d0c628ee00b0d9ba4dec68f10b0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 16/65] fix: conditional factorisation restarts where it used
 to get stuck

---
 fca/algorithms/factors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index 4b43789..f66cdc5 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -239,10 +239,10 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
                 else:
                     to_remove = to_remove_U
             elif good_factor(cpt=fca.Concept(C, D)):
-                if len(to_remove) == 0:
-                    raise Exception(
-                        f'Algorithm stuck, something went wrong, pairs left '
-                        f'{len(U)}')
+                if len(to_remove) == 0:  # covers nothing new - early restart
+                    U = {u for u in U if u[1] not in D}
+                    removed_atts |= D
+                    break
                 U -= to_remove
                 # print(f'Factor out: {len(C)}, {len(D)}')
                 yield fca.Concept(C, D), len(to_remove) / len_initial, (len_initial - len(U)) / len_initial
-- 
2.43.0


From e1487f598f7eabf8262f2761575183e7208c3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 17/65] fix: many-valued contexts keep their values

---
 fca/mvcontext.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a1d1fd8..ada7d52 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,8 @@
 Holds class for many valued context
 """
 
+import numpy as np
+
 from fca import Context
 
 class ManyValuedContext(Context):
@@ -54,6 +56,11 @@ class ManyValuedContext(Context):
         super().__init__(cross_table=table,
                          objects=objects,
                          attributes=attributes)
+        # keep the values themselves, not their truth values
+        self.np_table = np.empty((len(objects), len(attributes)), dtype=object)
+        for i, row in enumerate(table):
+            self.np_table[i, :] = list(row)
+        self.cross_table = self.np_table.tolist()
         # if len(table) != len(objects):
         #     raise ValueError("Number of objects (=%i) and number of cross table"
         #            " rows(=%i) must agree" % (len(objects), len(table)))
-- 
2.43.0


From 7b047cb4736ac63f4dfbf8ee4553b19a69f0bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 18/65] fix: nominal scales of values with quotes or
 backslashes

---
 fca/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/scale.py b/fca/scale.py
index 5d3ace0..b3bd830 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -38,7 +38,7 @@ class NominalScale(Scale):
             try:
                 return float(value)
             except ValueError:
-                return "'" + str(value) + "'"
+                return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
         values = list(set([foo(mvcontext[i][attribute])
-- 
2.43.0


From 341342d53d88d818b2e51d8394de101c85ea248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 19/65] fix: an empty side of an implication is read as the
 empty set

---
 fca/implication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index c9c8135..c350cf2 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -95,7 +95,7 @@ class Implication(object):
     @classmethod
     def str2imp(cls, string):
         def str2set(str_):
-            return set(map(str.strip, str_.split(',')))
+            return set(map(str.strip, str_.split(','))) - {''}
         str_premise, str_conclusion = string.split('=>')
         premise = str2set(str_premise)
         conclusion = str2set(str_conclusion)
-- 
2.43.0


From 684560a3451f53657a3ab365aa4e572da6ab8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 20/65] fix: read and write tab-separated files as text

---
 fca/readwrite/tab_separated.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 456f2a5..b80055b 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -79,7 +79,7 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", newline="", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read attributes names
 
@@ -105,7 +105,7 @@ def read_txt(path):
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "rb")
+        input_file = open(path, "r", newline="", encoding="utf-8")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
 
@@ -144,7 +144,7 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", newline="", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -172,7 +172,7 @@ def read_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r", newline="", encoding="utf-8")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -211,19 +211,19 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", newline="", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
     objects = []
     for obj in rec:
-        objects.append(str(obj, "utf-8").strip())
+        objects.append(str(obj).strip())
     
     rec = next(rdr) # read attributes names
 
     attributes = []
     for attr in rec:
-        attributes.append(str(attr, "utf-8").strip())
+        attributes.append(str(attr).strip())
     
     next(rdr) # empty line
     
@@ -239,7 +239,7 @@ def uread_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r", newline="", encoding="utf-8")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -247,7 +247,7 @@ def uread_mv_txt(path):
     return fca.ManyValuedContext(table, objects, attributes)
 
 def write_mv_txt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
 
     output_file.write("\t".join(context.objects))
     output_file.write("\n")
@@ -262,12 +262,12 @@ def write_mv_txt(context, path):
     output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
 
-    output_file.write("\t".join(context.objects).encode("utf-8"))
+    output_file.write("\t".join(context.objects))
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes).encode("utf-8"))
+    output_file.write("\t".join(context.attributes))
     output_file.write("\n\n")
 
     for i in range(len(context.objects)):
-- 
2.43.0


From 9b42e2dcfd23aa4e210c07a48c48ec7b92b81344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 21/65] fix: an object named 0 or 1 is not a cell of its row

---
 fca/readwrite/tab_separated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index b80055b..e2b5a17 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -31,7 +31,7 @@ def read_txt_with_names(path):
     for rec in rdr:
         objects.append(rec[0])                  # read objects names
         line = []
-        for num in rec:
+        for num in rec[1:]:
             if num == "0":
                 line.append(False)
             elif num == "1":
-- 
2.43.0


From b48d89dcb6b60ff5ad40489ef1bbfa17276dc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 22/65] fix: read comma-separated files as text

---
 fca/readwrite/comma_separated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 7867d44..9992615 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,7 +36,7 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", newline="", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter=",")
     
     objects = []
-- 
2.43.0


From 87038e1fca4592b18e246d35972d7fe9612941c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 23/65] fix: a 0 in a binary comma-separated file is not a
 cross

---
 fca/readwrite/comma_separated.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 9992615..f10edb6 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -65,7 +65,9 @@ def read_csv(path):
     @note: uses *read_mv_csv* add then treats many valued context as binary
     """
     mvcxt = read_mv_csv(path)
-    return fca.Context(mvcxt.table, mvcxt.objects, mvcxt.attributes)
+    table = [[val.strip() not in ("", "0") for val in row]
+             for row in mvcxt.table]
+    return fca.Context(table, mvcxt.objects, mvcxt.attributes)
 
 if __name__ == "__main__":
     import doctest
-- 
2.43.0


From 47aec54ab95d9a93efe611776e51c1824a87a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 24/65] fix: names in a cxt file are not evaluated as code

---
 fca/readwrite/cxt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index f119e5d..d564115 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 """Holds function that read context from tab separated txt file"""
 
+import ast
+
 import fca
 
 def read_cxt(path):
@@ -69,16 +71,16 @@ def read_cxt(path):
     for _ in range(number_of_objects):
         next_obj_s = input_file.readline().strip()
         try:
-            next_obj = eval(next_obj_s)
-        except (NameError, SyntaxError):
+            next_obj = ast.literal_eval(next_obj_s)
+        except (ValueError, SyntaxError, TypeError):
             next_obj = next_obj_s
         objects.append(next_obj)
     attributes = []
     for _ in range(number_of_attributes):
         next_att_s = input_file.readline().strip()
         try:
-            next_att = eval(next_att_s)
-        except (NameError, SyntaxError):
+            next_att = ast.literal_eval(next_att_s)
+        except (ValueError, SyntaxError, TypeError):
             next_att = next_att_s
         attributes.append(next_att)
 
-- 
2.43.0


From dec6935da9d0e670858144fc585ee8fbc4cda6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 25/65] fix: uread_cxt and uwrite_cxt use UTF-8 text

---
 fca/readwrite/cxt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index d564115..f08448f 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -117,7 +117,7 @@ def write_cxt(context, path):
     output_file.close()
     
 def uwrite_cxt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
     output_file.write("B\n\n")
 
     output_file.write(str(len(context.objects))+"\n")
@@ -139,7 +139,7 @@ def uwrite_cxt(context, path):
     output_file.close()
     
 def uread_cxt(path):
-    input_file = open(path, "r")
+    input_file = open(path, "r", encoding="utf-8")
     assert input_file.readline().strip() == "B",\
         "File is not valid cxt"
     input_file.readline() # Empty line
@@ -147,8 +147,8 @@ def uread_cxt(path):
     number_of_attributes = int(input_file.readline().strip())
     input_file.readline() # Empty line
 
-    objects = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_objects)]
-    attributes = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_attributes)]
+    objects = [input_file.readline().strip() for i in range(number_of_objects)]
+    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From e74c28d35895243de2f106ef7d18f98cf847507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 26/65] fix: write xml as text and parse it as bytes

---
 fca/readwrite/xml_.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 5fefff8..425b04f 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -28,7 +28,7 @@ def write_xml(path, cs):
     objects_ids = dict([(objects[i], "o{0}".format(i+1))  for i in range(len(objects))])
     attributes_ids = dict([(attributes[i], "a{0}".format(i+1))  for i in range(len(attributes))])
 
-    with open(path, "wb") as out:
+    with open(path, "w", encoding="utf-8") as out:
         impl = getDOMImplementation()
 
         newdoc = impl.createDocument(None, "conceptsystem", None)
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj.encode("utf-8"))
+            textnode = newdoc.createTextNode(obj)
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr.encode("utf-8"))
+            textnode = newdoc.createTextNode(attr)
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
@@ -177,8 +177,8 @@ def read_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
     
     return cs
     
@@ -262,8 +262,8 @@ def uread_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
 
     return cs
 
-- 
2.43.0


From 90aaabe7b4f075e41ac713901327f9175740b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 27/65] fix: keep the spaces inside names read from xml

---
 fca/readwrite/xml_.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 425b04f..f37e8ad 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -145,12 +145,14 @@ def read_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
+                buffer = buffer.strip()
                 d_objects[new_obj] = buffer
                 objects.append(buffer)
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
+                buffer = buffer.strip()
                 d_attributes[new_attr] = buffer
                 attributes.append(buffer)
                 new_attr = None
@@ -166,9 +168,6 @@ def read_xml(path):
     
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
@@ -230,12 +229,14 @@ def uread_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
+                buffer = buffer.strip()
                 d_objects[new_obj] = buffer
                 objects.append(buffer)
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
+                buffer = buffer.strip()
                 d_attributes[new_attr] = buffer
                 attributes.append(buffer)
                 new_attr = None
@@ -251,9 +252,6 @@ def uread_xml(path):
 
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
-- 
2.43.0


From 39c088867639ac0fa273dfbfde76d0c79a9d9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 28/65] fix: exploration calls the existing methods to delete
 objects and attributes

---
 fca/algorithms/exploration_/exploration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 70dda74..526511d 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -84,7 +84,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_example(self, name):
-        self._cxt.delete_object_by_name(name)
+        self._cxt.delete_object(name)
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
@@ -106,7 +106,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_attribute(self, name):
-        self._cxt.delete_attribute_by_name(name)
+        self._cxt.delete_attribute(name)
 
     @context_modifier
     def touch(self):
-- 
2.43.0


From 93dfc2d98ed6a3613abaa4e05483fa0e95725abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 29/65] fix: editing an attribute checks the new intents and
 the new name

---
 fca/algorithms/exploration_/exploration.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 526511d..b9a3600 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -116,19 +116,16 @@ class ExplorationDB(object):
     def edit_attribute(self, name, old_name, extent):
         intents = []
         for obj in self._cxt.objects:
+            intent = self._cxt.get_object_intent(obj)
             if obj in extent:
-                intents.append(self._cxt.get_object_intent(obj).add(old_name))
+                intent.add(old_name)
             else:
-                intents.append(self._cxt.get_object_intent(obj).discard(old_name))
+                intent.discard(old_name)
+            intents.append(intent)
         self._check_intents(intents)
 
-        first = False
-        for attribute in self._cxt.attributes:
-            if name == attribute:
-                if first:
-                    raise NotUniqueAttributeName()
-                else:
-                    first = True
+        if name != old_name and name in self._cxt.attributes:
+            raise NotUniqueAttributeName()
         self._cxt.set_attribute_extent(extent, old_name)
         self._cxt.rename_attribute(old_name, name)
             
-- 
2.43.0


From 1922eb078a1ca48b5e62db521124f505cc8f7212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 30/65] fix: a refused edit of an example changes nothing

---
 fca/algorithms/exploration_/exploration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index b9a3600..cbd7d70 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -88,15 +88,14 @@ class ExplorationDB(object):
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
+        if old_name != name and name in self._cxt.objects:
+            raise NotUniqueObjectName()
         old_intent = self._cxt.get_object_intent(old_name)
         if intent != old_intent:
             self._check_intents([intent])
             self._cxt.set_object_intent(intent, old_name)
         if old_name != name:
-            if name in self._cxt.objects:
-                raise NotUniqueObjectName()
-            else:
-                self._cxt.rename_object(old_name, name)
+            self._cxt.rename_object(old_name, name)
         
     @context_modifier
     def add_attribute(self, name, extent):
-- 
2.43.0


From 036a8416a23f658ff5e2d3491adecb674be81298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:15 +0000
Subject: [PATCH 31/65] fix: equal negative implications have equal hashes

---
 fca/implication.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/implication.py b/fca/implication.py
index c350cf2..93cfa5e 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -123,15 +123,15 @@ class UnitImplication(Implication):
 class NegativeImplication(Implication):
     def __repr__(self):
         try:
-            premise = ", ".join([element for element in self.premise])
+            premise = ", ".join([element for element in sorted(self.premise)])
             conclusion = ("not (" +
-                          ", ".join([element for element in self.conclusion]) +
+                          ", ".join([element for element in sorted(self.conclusion)]) +
                           ")")
         except:
-            premise = ", ".join([str(element) for element in self.premise])
+            premise = ", ".join([str(element) for element in sorted(self.premise)])
             conclusion = ("not (" +
                           ", ".join([str(element)
-                                     for element in self.conclusion]) +
+                                     for element in sorted(self.conclusion)]) +
                           ")")
         return " => ".join((premise, conclusion,))
 
-- 
2.43.0


From e04880e0659173fdf960905b780f30bf26f6ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:15 +0000
Subject: [PATCH 32/65] fix: a deep copy of a negative implication is negative

---
 fca/implication.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/implication.py b/fca/implication.py
index 93cfa5e..c3067a8 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -121,6 +121,9 @@ class UnitImplication(Implication):
 
 
 class NegativeImplication(Implication):
+    def __deepcopy__(self, memo):
+        return NegativeImplication(self._premise.copy(), self._conclusion.copy())
+
     def __repr__(self):
         try:
             premise = ", ".join([element for element in sorted(self.premise)])
-- 
2.43.0


From 374868c83abe0ab38ccd389feb5d42cade5aa618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 33/65] fix: completing a partial context recomputes the open
 implications

---
 fca/algorithms/exploration_/exploration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index cbd7d70..6c59774 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -144,6 +144,7 @@ class ExplorationDB(object):
         # TODO: refactor
         if type(self._cxt) == PartialContext:
             self._cxt.complete(self._implications)
+            self.touch()
     
     objects = property(get_object_names)
     attributes = property(get_attribute_names)
-- 
2.43.0


From 88b86db593abb71b6e165552b73b8bf883bdbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 34/65] fix: a refused completion leaves the partial context as
 it was

---
 fca/partial_context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index ebe336c..7c16174 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -96,20 +96,22 @@ class PartialContext(object):
         self.objects.append(name)
         
     def complete(self, implications):
+        completed = []
         for o in self.objects:
             xintent = self.x_context.get_object_intent(o)
             new_xintent = closure(xintent, implications)
             qintent = self.q_context.get_object_intent(o)
             if not new_xintent <= qintent:
-                # TODO: undo the modifications
                 raise ValueError(
                     'implications are inconsistent with the partial context')
-            self.x_context.set_object_intent(new_xintent, o)
             new_qintent = set([a for a in qintent
                                  if a in new_xintent or
                                  closure(new_xintent | {a}, implications)
                                                                     <= qintent
                              ])
+            completed.append((o, xintent, qintent, new_xintent, new_qintent))
+        for o, xintent, qintent, new_xintent, new_qintent in completed:
+            self.x_context.set_object_intent(new_xintent, o)
             self.q_context.set_object_intent(new_qintent, o)
             # TODO: Remove printing
             if xintent != new_xintent or qintent != new_qintent:
-- 
2.43.0


From 14ebcf170dfc2beadaf8ea57f4d5b3afff0677aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:40 +0000
Subject: [PATCH 35/65] fix: a negative implication does not equal an
 implication with the same sides

---
 fca/implication.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index c3067a8..4c0374c 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -72,7 +72,10 @@ class Implication(object):
         return self.__repr__()
 
     def __eq__(self, other):
-        if ((self.premise == other.premise) and
+        # a negative implication with the same sides says something else
+        if (isinstance(self, NegativeImplication) ==
+                isinstance(other, NegativeImplication) and
+                (self.premise == other.premise) and
                 (self.conclusion == other.conclusion)):
             return 1
         else:
-- 
2.43.0


From 837d2c547041908028f2142f31b815759e2ec07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:40 +0000
Subject: [PATCH 36/65] fix: a deep copy of a unit implication is a unit
 implication

---
 fca/implication.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/implication.py b/fca/implication.py
index 4c0374c..a1ae7ea 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -115,6 +115,10 @@ class UnitImplication(Implication):
         set_conclusion = {conclusion}
         super().__init__(premise, set_conclusion)
 
+    def __deepcopy__(self, memo):
+        (element,) = self._conclusion
+        return UnitImplication(self._premise.copy(), element)
+
     def get_reduced_conclusion(self):
         conclusion = super().conclusion
         assert len(conclusion) == 1
-- 
2.43.0


From 20cdd784f82410eaca9ba6b79e7fd7725d85df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:08 +0000
Subject: [PATCH 37/65] fix: a basis computation left methods of the original
 in copies of a context

---
 fca/context.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 6e4546d..7c7978b 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -96,6 +96,7 @@ def clear_cxt_vars(cxt):
 
 def basis_computation(f):
     def _f(*args, **kwargs):
+        nested = 'get_object_intent_by_index' in vars(args[0])
         old_obj_intent = args[0].get_object_intent_by_index 
         old_att_extent = args[0].get_attribute_extent_by_index
         args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
@@ -103,8 +104,13 @@ def basis_computation(f):
         try:
             return f(*args, **kwargs)
         finally:
-            args[0].get_object_intent_by_index = old_obj_intent
-            args[0].get_attribute_extent_by_index = old_att_extent
+            if nested:
+                args[0].get_object_intent_by_index = old_obj_intent
+                args[0].get_attribute_extent_by_index = old_att_extent
+            else:
+                # bound methods left here would go into copies of the context
+                del args[0].get_object_intent_by_index
+                del args[0].get_attribute_extent_by_index
     _f.__name__ = f.__name__
     return _f
 
-- 
2.43.0


From b43dad711da854518b60bc1127076c7cdaa3f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 38/65] fix: the probability index of contexts with a thousand
 objects and more was 0

---
 fca/algorithms/filtering/probability.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/fca/algorithms/filtering/probability.py b/fca/algorithms/filtering/probability.py
index 8b0b97c..bd623d0 100644
--- a/fca/algorithms/filtering/probability.py
+++ b/fca/algorithms/filtering/probability.py
@@ -3,7 +3,7 @@ Created on 12.02.2010
 
 @author: jupp
 """
-from math import exp, log
+from math import exp, lgamma, log
 
 def compute_probability(lattice):
     
@@ -35,16 +35,12 @@ def compute_probability(lattice):
                     return exp(mult)
                 else:
                     t = k * log_p_B + (n - k) * log((1 - p_B)) + mult
+                    # the powers alone leave the range of floats for large n
+                    t += lgamma(n + 1) - lgamma(k + 1) - lgamma(n - k + 1)
                     t = exp(t)
                     # print k, t
             except:
                 t = 0
-            nom = list(range(n - k + 1, n + 1))
-            den = list(range(1, k + 1))
-            if len(den) != len(nom):
-                print("False")
-            for i in range(len(nom)):
-                t *= nom[i] / float(den[i])
             ans += t
         return ans
 
-- 
2.43.0


From 1f08e238495e362209c6a8b7bf5901d40a55f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 39/65] fix: nominal scales of columns with None failed

---
 fca/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/scale.py b/fca/scale.py
index b3bd830..2271a31 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -37,7 +37,7 @@ class NominalScale(Scale):
         def foo(value):
             try:
                 return float(value)
-            except ValueError:
+            except (TypeError, ValueError):
                 return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
-- 
2.43.0


From 7a2756c366a73e3d5ca1c1c529980c21365de0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:34 +0000
Subject: [PATCH 40/65] fix: nominal scales of columns with infinite numbers or
 nan could not be used

---
 fca/scale.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fca/scale.py b/fca/scale.py
index 2271a31..6e6a41e 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -34,16 +34,24 @@ class NominalScale(Scale):
         input many-valued context.
         
         """
+        # conditions for the numbers whose text is a name and not a number
+        inf, nan = float("inf"), float("nan")
+        special = {inf: "value == float('inf')",
+                   -inf: "value == float('-inf')",
+                   nan: "value != value"}
+
         def foo(value):
             try:
-                return float(value)
+                value = float(value)
+                return nan if value != value else value
             except (TypeError, ValueError):
                 return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
         values = list(set([foo(mvcontext[i][attribute])
                            for i in range(len(mvcontext))]))
-        objects = ["value == {}".format(v) for v in values]
+        objects = ["value == {}".format(v) if v not in special else special[v]
+                   for v in values]
         table = []
         for i in range(len(objects)):
             row = [False] * len(values)
-- 
2.43.0


From 2340b4b97171b89dedd1b363f4996a724e6bcbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:34 +0000
Subject: [PATCH 41/65] fix: nominal scales of columns with integers beyond any
 float failed

---
 fca/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/scale.py b/fca/scale.py
index 6e6a41e..ae80306 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -44,7 +44,7 @@ class NominalScale(Scale):
             try:
                 value = float(value)
                 return nan if value != value else value
-            except (TypeError, ValueError):
+            except (TypeError, ValueError, OverflowError):
                 return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
-- 
2.43.0


From d711769eaff31bcb8907699e14440f875d25c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:40 +0000
Subject: [PATCH 42/65] fix: deep copies of many-valued contexts had truth
 values for values

---
 fca/mvcontext.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index ada7d52..d0407f2 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,8 @@
 Holds class for many valued context
 """
 
+import copy
+
 import numpy as np
 
 from fca import Context
@@ -88,6 +90,11 @@ class ManyValuedContext(Context):
         
     table = property(get_table)
 
+    def __deepcopy__(self, memo):
+        return ManyValuedContext(copy.deepcopy(self.cross_table, memo),
+                                 self.objects[:],
+                                 self.attributes[:])
+
     def extract_subcontext(self, attribute_names):
         """Create a subcontext with only indicated attributes"""
         return ManyValuedContext(self._extract_subtable(attribute_names),
-- 
2.43.0


From b8f72b9416fe7ca7c55c0e4310488889036f970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:40 +0000
Subject: [PATCH 43/65] fix: transposed many-valued contexts had truth values
 for values

---
 fca/mvcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index d0407f2..5aa2ea8 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -95,6 +95,12 @@ class ManyValuedContext(Context):
                                  self.objects[:],
                                  self.attributes[:])
 
+    def transpose(self):
+        """Return new many-valued context with transposed table"""
+        new_table = [[row[j] for row in self.table]
+                     for j in range(len(self.attributes))]
+        return ManyValuedContext(new_table, self.attributes[:], self.objects[:])
+
     def extract_subcontext(self, attribute_names):
         """Create a subcontext with only indicated attributes"""
         return ManyValuedContext(self._extract_subtable(attribute_names),
-- 
2.43.0


From 24697a5224887819bad445e7d2d865a6b348a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:40 +0000
Subject: [PATCH 44/65] fix: printing a many-valued context failed

---
 fca/mvcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index 5aa2ea8..61e68e8 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -143,6 +143,12 @@ class ManyValuedContext(Context):
 
     ############################
 
+    def __repr__(self):
+        output = ", ".join(map(str, self.attributes)) + "\n"
+        for obj, row in zip(self.objects, self):
+            output += "\t".join(map(str, [obj] + row)) + "\n"
+        return output
+
 if __name__ == "__main__":
     import doctest
     doctest.testmod()
-- 
2.43.0


From a147b52e3c48f02c27d2f43dc8b3e9dd3eb406b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:40 +0000
Subject: [PATCH 45/65] fix: adding to a many-valued context failed or changed
 the types of values

---
 fca/mvcontext.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index 61e68e8..e736caf 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -101,6 +101,22 @@ class ManyValuedContext(Context):
                      for j in range(len(self.attributes))]
         return ManyValuedContext(new_table, self.attributes[:], self.objects[:])
 
+    def add_attribute(self, col, attr_name):
+        """Add new attribute with given values to context"""
+        if len(col) != len(self.objects):
+            raise ValueError("Number of objects (=%i) and number of values (=%i)"
+                             " must agree" % (len(self.objects), len(col)))
+        new_table = [row + [value] for row, value in zip(self.table, col)]
+        self.__init__(new_table, self.objects, self.attributes + [attr_name])
+
+    def add_object(self, row, obj_name):
+        """Add new object with given values to context"""
+        if len(row) != len(self.attributes):
+            raise ValueError("Number of attributes (=%i) and number of values (=%i)"
+                             " must agree" % (len(self.attributes), len(row)))
+        new_table = self.table + [list(row)]
+        self.__init__(new_table, self.objects + [obj_name], self.attributes)
+
     def extract_subcontext(self, attribute_names):
         """Create a subcontext with only indicated attributes"""
         return ManyValuedContext(self._extract_subtable(attribute_names),
-- 
2.43.0


From ac2ff5b7ad4ba813f91e6330820d51c99dbb9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 46/65] fix: many-valued contexts could not hold values that
 are sequences

---
 fca/mvcontext.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index e736caf..33d39b6 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -55,13 +55,14 @@ class ManyValuedContext(Context):
         objects - the list of objects
         attributes - the list of attributes 
         """
-        super().__init__(cross_table=table,
+        super().__init__(cross_table=[[False] * len(row) for row in table],
                          objects=objects,
                          attributes=attributes)
         # keep the values themselves, not their truth values
         self.np_table = np.empty((len(objects), len(attributes)), dtype=object)
         for i, row in enumerate(table):
-            self.np_table[i, :] = list(row)
+            for j, value in enumerate(row):
+                self.np_table[i, j] = value
         self.cross_table = self.np_table.tolist()
         # if len(table) != len(objects):
         #     raise ValueError("Number of objects (=%i) and number of cross table"
-- 
2.43.0


From 9a69b187c53740dc37cebe4799c413984318fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 47/65] fix: scales could not be changed, and lost their
 consistency

---
 fca/context.py | 22 +++++++++++++---------
 fca/scale.py   |  3 +++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 7c7978b..49c805b 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -361,12 +361,16 @@ class Context(object):
         ia = self.attributes.index(a)
         return self[io][ia]
 
+    def _update(self, cross_table, objects, attributes):
+        """Set up the changed context; subclasses may have other constructors"""
+        self.__init__(cross_table, objects, attributes)
+
     def add_attribute(self, col, attr_name):
         """Add new attribute to context with given name"""
         # not optimised: not expected to be a usual operation
         new_table = np.c_[self.np_table, col]
         new_attributes = self.attributes + [attr_name]
-        self.__init__(new_table, self.objects, new_attributes)
+        self._update(new_table, self.objects, new_attributes)
 
     def add_object(self, row, obj_name):
         """Add new object to context with given name
@@ -378,7 +382,7 @@ class Context(object):
         else:
             new_table = np.array([row])
         new_objects = self.objects + [obj_name]
-        self.__init__(new_table, new_objects, self.attributes)
+        self._update(new_table, new_objects, self.attributes)
         
     def add_object_with_intent(self, intent, obj_name):
         row = [(attr in intent) for attr in self.attributes]
@@ -394,28 +398,28 @@ class Context(object):
             new_column[i] = True
         self.np_table[:, self.attribute_indices[name]] = new_column
         new_table = self.np_table.tolist()
-        self.__init__(new_table, self.objects, self.attributes)
+        self._update(new_table, self.objects, self.attributes)
 
     def set_object_intent(self, intent, name):
         new_row = [False]*len(self.attributes)
         for i in [self.attribute_indices[x] for x in intent]:
             new_row[i] = True
         self.table[self.object_indices[name]] = new_row
-        self.__init__(self.table, self.objects, self.attributes)
+        self._update(self.table, self.objects, self.attributes)
 
     def delete_object(self, name):
         obj_index = self.object_indices[name]
         self.np_table = np.delete(self.np_table, obj_index, 0)
         new_table = self.np_table.tolist()
         del self.objects[obj_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        self._update(new_table, self.objects, self.attributes)
 
     def delete_attribute(self, name):
         att_index = self.attribute_indices[name]
         self.np_table = np.delete(self.np_table, att_index, 1)
         new_table = self.np_table.tolist()
         del self.attributes[att_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        self._update(new_table, self.objects, self.attributes)
 
     def delete_attributes(self, names):
         att_inds = [self.attribute_indices[name] for name in names]
@@ -423,15 +427,15 @@ class Context(object):
         new_table = self.np_table.tolist()
         for att_index in sorted(att_inds, reverse=True):
             del self.attributes[att_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        self._update(new_table, self.objects, self.attributes)
 
     def rename_object(self, old_name, name):
         self.objects[self.object_indices[old_name]] = name
-        self.__init__(self.table, self.objects, self.attributes)
+        self._update(self.table, self.objects, self.attributes)
 
     def rename_attribute(self, old_name, name):
         self.attributes[self.attribute_indices[old_name]] = name
-        self.__init__(self.table, self.objects, self.attributes)
+        self._update(self.table, self.objects, self.attributes)
         
     def oprime_inds(self, obj_inds):
         """
diff --git a/fca/scale.py b/fca/scale.py
index ae80306..6df5ead 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -27,6 +27,9 @@ class Scale(Context):
                                     context.objects,
                                     context.attributes)
 
+    def _update(self, cross_table, objects, attributes):
+        Context.__init__(self, cross_table, objects, attributes)
+
 
 class NominalScale(Scale):
     def __init__(self, attribute, mvcontext):
-- 
2.43.0


From 323a193f26afe679e1520dcaf122d65553eeff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 48/65] fix: deep copies of scales were no scales

---
 fca/scale.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/scale.py b/fca/scale.py
index 6df5ead..dd4f96b 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -27,6 +27,9 @@ class Scale(Context):
                                     context.objects,
                                     context.attributes)
 
+    def __deepcopy__(self, memo):
+        return Scale(super(Scale, self).__deepcopy__(memo))
+
     def _update(self, cross_table, objects, attributes):
         Context.__init__(self, cross_table, objects, attributes)
 
-- 
2.43.0


From 8160ff55b1e9c94edfa9c6a567815d443e88f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 49/65] fix: deleting an attribute named twice deleted others
 and broke the context

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 49c805b..fc04cfb 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -422,7 +422,7 @@ class Context(object):
         self._update(new_table, self.objects, self.attributes)
 
     def delete_attributes(self, names):
-        att_inds = [self.attribute_indices[name] for name in names]
+        att_inds = list({self.attribute_indices[name] for name in names})
         self.np_table = np.delete(self.np_table, att_inds, 1)
         new_table = self.np_table.tolist()
         for att_index in sorted(att_inds, reverse=True):
-- 
2.43.0


From 03e9e8b654fcd85007de4602172139456f7dc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 50/65] fix: diagrams of contexts with names that are no
 strings failed

---
 fca/readwrite/dot.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/dot.py b/fca/readwrite/dot.py
index 6d86450..b0832a4 100644
--- a/fca/readwrite/dot.py
+++ b/fca/readwrite/dot.py
@@ -3,6 +3,10 @@
 
 import fca
 
+def _label(names):
+    """Text of a label with one name a line"""
+    return "\\n ".join(map(str, names))
+
 def write_dot(cs, path):
     """For given concept_system writes a .dot file, which contains graph
     representation of lattice diagram in format understandable 
@@ -41,7 +45,7 @@ def write_dot(cs, path):
             if len(own_objects[cs[i]]) >= 5:
                 own_objects[cs[i]] = [str(len(own_objects[cs[i]]))]
             output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
+                     _label(own_objects[cs[i]]))
             output_file.write(
                 "labeldistance=1,labelangle=270,color=transparent]\n")
         if len(own_attributes[cs[i]])!=0:
@@ -50,7 +54,7 @@ def write_dot(cs, path):
             if len(own_attributes[cs[i]]) >= 5:
                 own_attributes[cs[i]] = [str(len(own_attributes[cs[i]]))]
             output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
+                     _label(own_attributes[cs[i]]))
             output_file.write(
                 "labeldistance=2,labelangle=90,color=transparent]\n")
 
@@ -98,7 +102,7 @@ def uwrite_dot(cs, path, full=False):
                 own_objects[cs[i]] = own_objects[cs[i]][:6] + ["..."]
             n = len(own_objects[cs[i]])
             output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
+                     _label(own_objects[cs[i]]))
             output_file.write(
                 "labeldistance={0},labelangle=270,color=transparent]\n".format(n/1.8 + 0.5))
         if len(own_attributes[cs[i]])!=0:
@@ -111,7 +115,7 @@ def uwrite_dot(cs, path, full=False):
                 own_attributes[cs[i]] = own_attributes[cs[i]][:6] + ["..."]
             n = len(own_attributes[cs[i]])
             output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
+                     _label(own_attributes[cs[i]]))
             output_file.write(
                 "labeldistance={0},labelangle=90,color=transparent]\n".format(n/1.8 + 0.5))
 
-- 
2.43.0


From 6c46380b2baeb809d44d1e6054829cfe045eff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 51/65] fix: names with quotes or backslashes broke diagrams

---
 fca/readwrite/dot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/readwrite/dot.py b/fca/readwrite/dot.py
index b0832a4..68c4add 100644
--- a/fca/readwrite/dot.py
+++ b/fca/readwrite/dot.py
@@ -5,7 +5,9 @@ import fca
 
 def _label(names):
     """Text of a label with one name a line"""
-    return "\\n ".join(map(str, names))
+    # backslashes and quotes in names are no markup
+    return "\\n ".join(str(name).replace("\\", "\\\\").replace('"', '\\"')
+                       for name in names)
 
 def write_dot(cs, path):
     """For given concept_system writes a .dot file, which contains graph
-- 
2.43.0


From 4a9c8a41ff39338f7e7130e69db3c316440e89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 52/65] fix: tab-separated files without objects could not be
 read

---
 fca/readwrite/tab_separated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index e2b5a17..f427c7d 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -39,7 +39,7 @@ def read_txt_with_names(path):
         table.append(line)
     input_file.close()
 
-    if len(attributes) != len(table[0]):
+    if len(table) != 0 and len(attributes) != len(table[0]):
         input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
@@ -104,7 +104,7 @@ def read_txt(path):
 
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
-    if len(attributes) != len(table[0]):
+    if len(table) != 0 and len(attributes) != len(table[0]):
         input_file = open(path, "r", newline="", encoding="utf-8")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
-- 
2.43.0


From f9d1af53cdbba9e74edf62036d9e504e8d63699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 53/65] fix: scaling failed for attributes whose names are no
 strings

---
 fca/algorithms/scaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/scaling.py b/fca/algorithms/scaling.py
index 4360ccb..7f8b84f 100644
--- a/fca/algorithms/scaling.py
+++ b/fca/algorithms/scaling.py
@@ -53,8 +53,8 @@ def scale_mvcontext(mvcontext, scales):
                             value = str(mvcontext[obj][attr_index])
                         if eval(scale.objects[row], {"value" : value}):
                             derived_attr[obj] = scale[row][col]
-            new_attribute_name = ":".join([mvcontext.attributes[attr_index],
-                                                  scale.attributes[col]])
+            new_attribute_name = ":".join([str(mvcontext.attributes[attr_index]),
+                                                  str(scale.attributes[col])])
             derived_context.add_attribute(derived_attr, new_attribute_name)                                    
     return derived_context
         
-- 
2.43.0


From ed51c76d1b7f8ed4267d5fd50d82403155c8b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 54/65] fix: complementary and compound contexts failed for
 names that are no strings

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index fc04cfb..132af92 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -772,7 +772,7 @@ class Context(object):
         @return: complementary context
         @note: original context remains unchanged
         """
-        complementary_attributes = ['not ' + self.attributes[i]
+        complementary_attributes = ['not ' + str(self.attributes[i])
                                for i in range(len(self.attributes))]
         complementary_table = []
         for i in range(len(self.objects)):
-- 
2.43.0


From 364e1668a72b62f442026cd1c20d543be62f45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 55/65] fix: uwrite_cxt failed for names that are no strings
 and left half a file

---
 fca/readwrite/cxt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index f08448f..de68be8 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -124,11 +124,11 @@ def uwrite_cxt(context, path):
     output_file.write(str(len(context.attributes))+"\n\n")
 
     for i in range(len(context.objects)):
-        output_file.write(context.objects[i])
+        output_file.write(str(context.objects[i]))
         output_file.write("\n")
 
     for i in range(len(context.attributes)):
-        output_file.write(context.attributes[i])
+        output_file.write(str(context.attributes[i]))
         output_file.write("\n")
 
     cross = {True : "X", False : "."}
-- 
2.43.0


From 1f32d36b45dd2bd594069d7ef7acd3c3e4c5e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 56/65] fix: filtering a single concept by part failed

---
 fca/algorithms/filtering/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index 4326d40..eb03740 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -42,7 +42,7 @@ def filter_concepts(lattice, function, mode, opt=1):
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-        eps = values[n-2][1]-values[n-1][1]
+        eps = values[n-2][1]-values[n-1][1] if n > 1 else 0
         
         other_concepts = sorted_indexes[n:]
         for concept in other_concepts:
-- 
2.43.0


From 7e6a4cf9669e794cca66718923ce8214b856b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 57/65] fix: lin_closure without implications returned its
 argument itself

---
 fca/algorithms/closure_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index df8e761..bac4f97 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -132,9 +132,9 @@ def lin_closure(s, implications):
             return implications[k]._conclusion
         return set()
     
-    if not implications:
-        return s
     new_closure = s.copy()
+    if not implications:
+        return new_closure
     new_closure = reduce(set.union,
                          [imp._conclusion for imp in implications if not imp.premise],
                          new_closure)
-- 
2.43.0


From 82ab7ee8997d3ca8b6697c48851f13f942d29c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 58/65] fix: many-valued contexts with names that are no
 strings or with quotes in values were written wrongly

---
 fca/readwrite/tab_separated.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index f427c7d..c7315df 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -247,32 +247,30 @@ def uread_mv_txt(path):
     return fca.ManyValuedContext(table, objects, attributes)
 
 def write_mv_txt(context, path):
-    output_file = open(path, "w", encoding="utf-8")
+    output_file = open(path, "w", newline="", encoding="utf-8")
+    # values with tabs, quotes or line ends are quoted, as the reader expects
+    wtr = csv.writer(output_file, delimiter="\t", lineterminator="\n")
 
-    output_file.write("\t".join(context.objects))
+    wtr.writerow([str(spam) for spam in context.objects])
+    wtr.writerow([str(spam) for spam in context.attributes])
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes))
-    output_file.write("\n\n")
-
     for i in range(len(context.objects)):
-        output_file.write("\t".join([str(spam) for spam in context[i]]))
-        output_file.write("\n")
+        wtr.writerow([str(spam) for spam in context[i]])
 
     output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w", encoding="utf-8")
+    output_file = open(path, "w", newline="", encoding="utf-8")
+    # values with tabs, quotes or line ends are quoted, as the reader expects
+    wtr = csv.writer(output_file, delimiter="\t", lineterminator="\n")
 
-    output_file.write("\t".join(context.objects))
+    wtr.writerow([str(spam) for spam in context.objects])
+    wtr.writerow([str(spam) for spam in context.attributes])
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes))
-    output_file.write("\n\n")
-
     for i in range(len(context.objects)):
-        output_file.write("\t".join([str(spam) for spam in context[i]]))
-        output_file.write("\n")
+        wtr.writerow([str(spam) for spam in context[i]])
 
     output_file.close()
 
-- 
2.43.0


From 182900a9ae6f9fbbf985ff546afaf725a7139b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 59/65] fix: concept systems with names that are no strings
 could not be written

---
 fca/readwrite/xml_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index f37e8ad..b82f381 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj)
+            textnode = newdoc.createTextNode(str(obj))
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr)
+            textnode = newdoc.createTextNode(str(attr))
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
-- 
2.43.0


From ae44edd017269b8444852b2f9eef17c8efe50e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 60/65] fix: cxt files with names that look like lists could
 not be read

---
 fca/readwrite/cxt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index de68be8..1f4a319 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -72,6 +72,7 @@ def read_cxt(path):
         next_obj_s = input_file.readline().strip()
         try:
             next_obj = ast.literal_eval(next_obj_s)
+            hash(next_obj)  # lists and the like cannot be names
         except (ValueError, SyntaxError, TypeError):
             next_obj = next_obj_s
         objects.append(next_obj)
@@ -80,6 +81,7 @@ def read_cxt(path):
         next_att_s = input_file.readline().strip()
         try:
             next_att = ast.literal_eval(next_att_s)
+            hash(next_att)
         except (ValueError, SyntaxError, TypeError):
             next_att = next_att_s
         attributes.append(next_att)
-- 
2.43.0


From 0a9f9e2ee972ad4c77814cb95ea85bedb3a805c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 61/65] fix: contexts with names given as tuples could not be
 changed or multiplied

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 132af92..4322795 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -224,7 +224,7 @@ class Context(object):
             raise ValueError("Number of attributes (=%i) and number of cross table"
                     " columns (=%i) must agree" % (len(attributes),
                         len(cross_table[0])))
-        _attributes = attributes[:]
+        _attributes = list(attributes)
         while len(set(_attributes)) < len(_attributes):
             for att in _attributes:
                 if _attributes.count(att) > 1:
@@ -234,7 +234,7 @@ class Context(object):
                     message =  "Not unique name of attribute '{}', ".format(att)
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
-        _objects = objects[:]
+        _objects = list(objects)
         while len(set(_objects)) < len(_objects):
             for obj in _objects:
                 if _objects.count(obj) > 1:
-- 
2.43.0


From 050199bd5119cb805f7a7ca17aead0addceb3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:31 +0000
Subject: [PATCH 62/65] fix: partial contexts with repeated names lost track of
 their objects

---
 fca/partial_context.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index 7c16174..1687178 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -29,10 +29,11 @@ class PartialContext(object):
         if not subseteq_table(x_table, q_table):
             raise ValueError('x table should be \subseteq q table')
         else:
-            self.objects = copy(objects)
-            self.attributes = copy(attributes)
-            self.x_context = Context(x_table, objects[:], self.attributes[:])
-            self.q_context = Context(q_table, objects[:], self.attributes[:])
+            self.x_context = Context(x_table, objects[:], attributes[:])
+            self.q_context = Context(q_table, objects[:], attributes[:])
+            # repeated names are renamed in there
+            self.objects = copy(self.x_context.objects)
+            self.attributes = copy(self.x_context.attributes)
 
     def __deepcopy__(self, memo):
         return PartialContext(deepcopy(self.x_context.table, memo),
@@ -93,7 +94,7 @@ class PartialContext(object):
             raise ValueError('inconsistent partial example')
         self.x_context.add_object_with_intent(intent[0], name)
         self.q_context.add_object_with_intent(intent[1], name)
-        self.objects.append(name)
+        self.objects = copy(self.x_context.objects)
         
     def complete(self, implications):
         completed = []
-- 
2.43.0


From 6f830146d81167d3e3cac81f23f9a484ca5ebe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 63/65] fix: xml files read at the same time by several threads
 were mixed up

---
 fca/readwrite/xml_.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index b82f381..96e0b44 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -98,8 +98,7 @@ def read_xml(path):
     (['obj1'], ['attr1', 'attr3'])
     ([], M)
     """
-    global new_obj, new_attr, cs, buffer
-    
+    # state of this reading; files may be read at the same time
     buffer = ""
     
     cs = fca.ConceptSystem()
@@ -118,8 +117,8 @@ def read_xml(path):
     new_meta = {}
     
     def start_element(name, attrs):
-        global new_obj, new_attr, buffer
-        global new_extent, new_intent, new_meta
+        nonlocal new_obj, new_attr, buffer
+        nonlocal new_extent, new_intent, new_meta
         if name == "object":
             if "id" in list(attrs.keys()):
                 buffer = ""
@@ -141,8 +140,8 @@ def read_xml(path):
             new_meta = {}
         
     def end_element(name):
-        global cs, new_intent, new_extent, new_meta
-        global new_obj, new_attr, buffer
+        nonlocal new_intent, new_extent, new_meta
+        nonlocal new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
                 buffer = buffer.strip()
@@ -167,7 +166,7 @@ def read_xml(path):
             new_meta = {}
     
     def char_data(data):
-        global buffer
+        nonlocal buffer
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
@@ -182,8 +181,7 @@ def read_xml(path):
     return cs
     
 def uread_xml(path):
-    global new_obj, new_attr, cs, buffer
-
+    # state of this reading; files may be read at the same time
     buffer = ""
 
     cs = fca.ConceptSystem()
@@ -202,8 +200,8 @@ def uread_xml(path):
     new_meta = {}
 
     def start_element(name, attrs):
-        global new_obj, new_attr, buffer
-        global new_extent, new_intent, new_meta
+        nonlocal new_obj, new_attr, buffer
+        nonlocal new_extent, new_intent, new_meta
         if name == "object":
             if "id" in list(attrs.keys()):
                 buffer = ""
@@ -225,8 +223,8 @@ def uread_xml(path):
             new_meta = {}
 
     def end_element(name):
-        global cs, new_intent, new_extent, new_meta
-        global new_obj, new_attr, buffer
+        nonlocal new_intent, new_extent, new_meta
+        nonlocal new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
                 buffer = buffer.strip()
@@ -251,7 +249,7 @@ def uread_xml(path):
             new_meta = {}
 
     def char_data(data):
-        global buffer
+        nonlocal buffer
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
-- 
2.43.0


From f062092c39964aa2d7f3acd36cd8094ff1cdfde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:16 +0000
Subject: [PATCH 64/65] fix: bases computed at the same time by several threads
 broke the context

---
 fca/context.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 4322795..d597fa8 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -96,21 +96,12 @@ def clear_cxt_vars(cxt):
 
 def basis_computation(f):
     def _f(*args, **kwargs):
-        nested = 'get_object_intent_by_index' in vars(args[0])
-        old_obj_intent = args[0].get_object_intent_by_index 
-        old_att_extent = args[0].get_attribute_extent_by_index
-        args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
-        args[0].get_attribute_extent_by_index = memo(args[0].get_attribute_extent_by_index)
-        try:
-            return f(*args, **kwargs)
-        finally:
-            if nested:
-                args[0].get_object_intent_by_index = old_obj_intent
-                args[0].get_attribute_extent_by_index = old_att_extent
-            else:
-                # bound methods left here would go into copies of the context
-                del args[0].get_object_intent_by_index
-                del args[0].get_attribute_extent_by_index
+        # remembered intents and extents stay in a view of the context: others
+        # may use the context meanwhile, also in other threads
+        cxt = copy.copy(args[0])
+        cxt.get_object_intent_by_index = memo(cxt.get_object_intent_by_index)
+        cxt.get_attribute_extent_by_index = memo(cxt.get_attribute_extent_by_index)
+        return f(cxt, *args[1:], **kwargs)
     _f.__name__ = f.__name__
     return _f
 
-- 
2.43.0


From bc794a7c398f135ac5fa76cbf03151bceb8d9e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:38 +0000
Subject: [PATCH 65/65] fix: a context created without a table, objects or
 attributes failed although they may be omitted

---
 fca/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/context.py b/fca/context.py
index d597fa8..0335be5 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -202,6 +202,9 @@ class Context(object):
         objects - the list of objects
         attributes - the list of attributes 
         """
+        cross_table = [] if cross_table is None else cross_table
+        objects = [] if objects is None else objects
+        attributes = [] if attributes is None else attributes
         # if not (isinstance(cross_table, list) and
         #         all(isinstance(i, list) for i in cross_table)):
         #     try:
-- 
2.43.0


From ff8be19e911e538dfa507a7175132c42a371e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 01/43] fix: add_choices() ignored choices given as a one-shot
 iterator

---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index a5b50ba..e0ec06d 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -136,6 +136,7 @@ class ChoiceModel(object):
         if self._cached_utils is not None:
             self._cached_utils = None
 
+        names = list(names)  # `names` could be a one-shot iterator
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From 0812f3d0533566a4cc395a7e1771466d02347b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 02/43] fix: running a model changed its cached partial
 utilities

Running evaluated the expressions on top of the cached table in place, so that
a second run (or a run after a failed one) counted every expression again, and
a later change of precision had no effect.
---
 cheval/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index e0ec06d..735f2ca 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -61,6 +61,8 @@ class ChoiceModel(object):
         if i not in {4, 8}:
             raise ValueError(f"Only precision values of 4 or 8 are allowed (got {i})")
         self._precision = i
+        if self._cached_utils is not None:
+            self._cached_utils = self._cached_utils.astype(f"f{i}")
 
     @property
     def _partial_utilities(self) -> pd.DataFrame:
@@ -464,7 +466,8 @@ class ChoiceModel(object):
         if self.debug_id:
             debug_label = row_index.get_loc(self.debug_id)
 
-        utilities = to_numpy(self._partial_utilities)
+        # Evaluation happens in-place, so take a copy to leave the cached partial utilities as they were
+        utilities = to_numpy(self._partial_utilities).copy()
 
         # Prepare locals, including scalar, vector, and matrix variables that don't need any further processing.
         shared_locals = {NAN_STR: np.nan, OUT_STR: utilities, NEG_INF_STR: NEG_INF_VAL}
-- 
2.43.0


From 89665a752e35f26f813dfd1e1ee16421d564c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 03/43] fix: changing the decision units kept partial utilities
 of the previous ones

---
 cheval/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index 735f2ca..37b7145 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -244,6 +244,10 @@ class ChoiceModel(object):
         else:
             self._decision_units = pd.Index(item)
 
+        # Partial utilities are only meaningful for the decision units they were computed for
+        if self._cached_utils is not None and not self._cached_utils.index.equals(self._decision_units):
+            self._cached_utils = None
+
     @staticmethod
     def _check_symbol_name(name: str):
         # TODO: Check function names from NumExpr
-- 
2.43.0


From 71c615ced1ffc7d3804f9e45d24f669eb96089a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 04/43] fix: adding a nested choice kept the cached utilities
 of the smaller tree

---
 cheval/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index 37b7145..29b67ce 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -79,6 +79,10 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
+        # The cached items depend on the tree; reset here so that this applies to nested choices as well
+        self._cached_cols = None
+        self._cached_utils = None
+
         expected_namespace = name
         if parent is None and name in self._all_nodes:
             old_node = self._all_nodes.pop(name)  # Remove from model dictionary
-- 
2.43.0


From 0d7434a0664345413cafb5c88c1f9b6d653c94da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 05/43] fix: replacing a choice left the children of the
 replaced one in the tree

---
 cheval/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index 29b67ce..e75b7a7 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -92,6 +92,11 @@ class ChoiceModel(object):
             if expected_namespace in self._all_nodes:
                 del self._all_nodes[expected_namespace]  # Remove from model dictionary
 
+        # The children of a replaced choice are not part of the model any more
+        for full_name in list(self._all_nodes):
+            if full_name.startswith(expected_namespace + '.'):
+                del self._all_nodes[full_name]
+
         level = 1 if parent is None else (parent.level + 1)
         node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
         self._all_nodes[expected_namespace] = node
-- 
2.43.0


From aebf6bf440b2eb02dc81d17d5d261cd8371f8c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 06/43] fix: run_discrete() could not return labels for nested
 models

---
 cheval/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index e75b7a7..d4d032a 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -550,15 +550,18 @@ class ChoiceModel(object):
         n_draws = raw_result.shape[1]
         column_index = pd.RangeIndex(n_draws, name=result_name)
         record_index = self.decision_units
+        choices = self.choices
+        if choices.nlevels > 1:
+            choices = choices.to_flat_index()  # Nested choices are labelled with tuples
 
         if astype == 'index':
             if squeeze and n_draws == 1:
                 return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
             return pd.DataFrame(raw_result, index=record_index, columns=column_index)
         elif astype == 'category':
-            lookup_table = pd.Categorical(self.choices)
+            lookup_table = pd.Categorical(choices)
         else:
-            lookup_table = self.choices.astype(astype)
+            lookup_table = choices.astype(astype)
 
         retval = []
         for col in range(n_draws):
-- 
2.43.0


From b9982240a6bb13bc004f9e552f822bb2f4c68243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 07/43] fix: sampling could return a zero-probability choice
 when rounding leaves the total below the draw

---
 cheval/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 7a1a4fc..1b95977 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -36,7 +36,12 @@ def sample_once(p_array: NDArray, r: float) -> int:
         if r <= cumsum:
             return index
         index += 1
-    return len(p_array) - 1
+
+    # Due to rounding, the cumulative sum can end below r. Use the last index that has a probability
+    index = len(p_array) - 1
+    while index > 0 and p_array[index] <= 0:
+        index -= 1
+    return index
 
 
 @njit(nlong(ndouble, ndouble[:]), nogil=True, cache=True)
@@ -74,8 +79,11 @@ def logarithmic_search(r: float, cps: NDArray) -> int:
     cp_at_left = cps[lower_bound]
     if r <= cp_at_left:
         return lower_bound
-    else:
-        return upper_bound
+
+    # Due to rounding, the last cumulative probability can be below r. Use the last index that has a probability
+    while upper_bound > 0 and r > cps[upper_bound] and cps[upper_bound] <= cps[upper_bound - 1]:
+        upper_bound -= 1
+    return upper_bound
 
 
 @njit(void(ndouble[:]), nogil=True, cache=True)
-- 
2.43.0


From 4b5b7e7d5ec16cd545ac2d677ec6a14857e20f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 08/43] fix: utilities without valid probabilities were not
 reliably reported

Exceptions raised inside of the parallel loops were lost (or surfaced as
SystemError), leaving rows of zeros, and an overflowing logsum gave NaN
probabilities. Check the logsums after the loops instead.
---
 cheval/core.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 1b95977..69b5111 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -24,6 +24,17 @@ class UtilityBoundsError(ValueError):
     pass
 
 
+@njit(void(ndouble[:], nbool), nogil=True, cache=True)
+def check_logsums(logsums: NDArray, check_infeasible: bool):
+    """Raises an error if any row doesn't have valid probabilities. This is separate from the computation itself because
+    exceptions raised inside of a parallel loop don't reliably reach the caller."""
+    for ls in logsums:
+        if not np.isfinite(ls):
+            raise UtilityBoundsError("Utilities are too large to be exponentiated (Logsum is not finite)")
+        if check_infeasible and ls <= 0:
+            raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
+
+
 # region Sampling
 
 @njit(nlong(ndouble[:], ndouble), nogil=True, cache=True)
@@ -267,7 +278,7 @@ def simple_multisample(weights: NDArray, n: int, seed: int, out: NDArray = None)
 ], nogil=True, cache=True)
 def multinomial_sample(utilities: NDArray, r: float) -> Tuple[int, float]:
     """Samples once from an array of multinomial logit utilities, from an existing random draw"""
-    p_array, ls, _ = multinomial_probabilities(utilities, True)  # Check infeasible req'd (for sampling)
+    p_array, ls, _ = multinomial_probabilities(utilities, False)  # Infeasibility is checked by the worker
     return sample_once(p_array, r), ls
 
 
@@ -277,7 +288,7 @@ def multinomial_sample(utilities: NDArray, r: float) -> Tuple[int, float]:
 ], nogil=True, cache=True)
 def multinomial_multisample(utilities: NDArray, n: int, seed: int, out: NDArray = None) -> Tuple[NDArray, float]:
     """Samples multiple times from an array of multinomial logit utilities, based on a random seed. Thread-safe."""
-    p_array, ls, _ = multinomial_probabilities(utilities, True)  # Check infeasible req'd (for sampling)
+    p_array, ls, _ = multinomial_probabilities(utilities, False)  # Infeasibility is checked by the worker
     return sample_multi(p_array, n, seed, out), ls
 
 
@@ -289,7 +300,7 @@ def nested_sample(utilities: NDArray, r: float, parents, levels, ls_scales, bott
                   scale_utilities: bool) -> Tuple[int, float]:
     """Samples once from an array of nested logit utilities, from an existing random draw"""
     p_array, ls, _ = nested_probabilities(
-        utilities, parents, levels, ls_scales, bottom_flags, scale_utilities, True  # Check infeasible req'd (for sampling)
+        utilities, parents, levels, ls_scales, bottom_flags, scale_utilities, False  # Infeasibility is checked by the worker
     )
     return sample_once(p_array, r), ls
 
@@ -302,7 +313,7 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
                        scale_utilities: bool, out: NDArray = None) -> Tuple[NDArray, float]:
     """Samples multiple times from an array of nested logit utilities, based on a random seed. Thread-safe."""
     p_array, ls, _ = nested_probabilities(
-        utilities, parents, levels, ls_scales, bottom_flags, scale_utilities, True  # Check infeasible req'd (for sampling)
+        utilities, parents, levels, ls_scales, bottom_flags, scale_utilities, False  # Infeasibility is checked by the worker
     )
     return sample_multi(p_array, n, seed, out), ls
 
@@ -356,6 +367,8 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
             seed_i = seed_array[i]
             _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
             ls_array[i] = ls
+
+    check_logsums(ls_array, True)
     return result, ls_array
 
 
@@ -372,11 +385,12 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
 
     for i in prange(n_rows):
         utility_row = utilities[i, :]
-        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, check_infeasible)
+        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 
@@ -410,6 +424,8 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
                 utility_row, parents, levels, ls_scales, bottom_flags, n, seed_i, scale_utilities, out=result[i, :]
             )
             ls_array[i] = ls
+
+    check_logsums(ls_array, True)
     return result, ls_array
 
 
@@ -428,12 +444,13 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
     for i in prange(n_rows):
         utility_row = utilities[i, :]
         p_array, top_ls, nested_ls = nested_probabilities(
-            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, check_infeasible
+            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
         )
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 # endregion
-- 
2.43.0


From 2dc1bc974de83aa8898e3e9e6cd325cdb8dfd506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 09/43] fix: symbols of grouped or rejected expressions leaked
 into the ungrouped symbols

---
 cheval/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2d5a086..0009329 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -152,9 +152,9 @@ class ExpressionGroup(object):
         self._subgroups: Dict[Hashable, ExpressionSubGroup] = {}
 
     def append(self, e: str, group: Hashable = None):
-        # Parse the expression and look for invalid syntax and inconsistent usage. self._simple_symbols and
-        # self._chained_symbols are modified in-place during parsing.
-        expr = Expression.parse(e, self._simple_symbols, self._chained_symbols)
+        # Parse the expression and look for invalid syntax and inconsistent usage with all other expressions. The sets
+        # given to the parser are modified in-place, so they need to be copies.
+        expr = Expression.parse(e, set(self.itersimple()), set(self.iterchained()))
         if group is not None:
             if group not in self._subgroups:
                 subgroup = ExpressionSubGroup(group)
-- 
2.43.0


From e2eb5d4362a05ce369b5995aff4e9f82425eb799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 10/43] fix: preval() cleaned up symbols which are also used by
 other groups

---
 cheval/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index d4d032a..a80b8a4 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -670,13 +670,12 @@ class ChoiceModel(object):
 
         if cleanup_scope:
             # Need to get a set of only those symbols unique to this group, using set math
-            all_symbols = set(iter_chain(self.expressions.itersimple(), self.expressions.itersimple()))
-            ungrouped_symbols = set(
-                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
+            other_expressions = self._expressions.copy()
+            other_expressions.drop_group(group)
+            other_symbols = set(iter_chain(other_expressions.iterchained(), other_expressions.itersimple()))
             group_symbols = set(iter_chain(subgroup.iterchained(), subgroup.itersimple()))
-            other_symbols = all_symbols - ungrouped_symbols - group_symbols
 
-            symbols_to_clear = group_symbols - ungrouped_symbols - other_symbols
+            symbols_to_clear = group_symbols - other_symbols - RESERVED_WORDS
 
             for name in symbols_to_clear:
                 del self._scope[name]
-- 
2.43.0


From 04936cf95cd33faf354ad33b75b5a635927f3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 11/43] fix: aggregations of a table's own links could not be
 used in utility expressions

---
 cheval/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 0009329..8a001e6 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -375,7 +375,8 @@ class TableSymbol(AbstractSymbol):
     def _get(self, chain_info: ChainTuple = None):
         assert chain_info is not None
 
-        chained = len(chain_info.chain) > 1
+        # Aggregations directly on a link of this table don't have any other item in the chain
+        chained = len(chain_info.chain) > 1 or chain_info.withfunc
 
         if chained:
             assert isinstance(self._table, LinkedDataFrame)
-- 
2.43.0


From fe5d7992e1047ec19932502d818b8cb386b664d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 12/43] fix: declare_table(allow_links=False) only accepted
 LinkedDataFrames

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 8a001e6..6256a63 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -367,7 +367,7 @@ class TableSymbol(AbstractSymbol):
         for column in self._mandatory_attributes:
             assert column in data, f"Mandatory attribute {column} not found in DataFrame"
 
-        if not self._allow_links and not isinstance(data, LinkedDataFrame):
+        if not self._allow_links and isinstance(data, LinkedDataFrame):
             raise TypeError(f"LinkedDataFrames not allowed for symbol {self._name}")
 
         self._table = data
-- 
2.43.0


From c3f63f32c86c049d7deb6ef13a5b656b25756432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 13/43] fix: matrix symbols could not be expanded over both
 rows and columns

---
 cheval/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 6256a63..7083399 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -464,7 +464,10 @@ class MatrixSymbol(AbstractSymbol):
                 else:
                     row_indexer = slice(None)
 
-                matrix[row_indexer, col_indexer] = data
+                if not rows_match and not cols_match:
+                    matrix[np.ix_(row_indexer, col_indexer)] = data
+                else:
+                    matrix[row_indexer, col_indexer] = data
                 self._matrix = matrix
 
         else:
-- 
2.43.0


From 30dfc60680aa6035ba5668892f6a74ace523cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 14/43] fix: symbols under a unary minus were not recognized

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index e4eaab4..b0568fd 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -58,7 +58,7 @@ class ExpressionParser(ast.NodeTransformer):
         if isinstance(node.op, ast.Not):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
-            return node
+            return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
     def visit_boolop(self, node):
-- 
2.43.0


From ae7e801dea824491b86daefb466108c07754d266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 15/43] fix: substitutions for different symbols could have the
 same name

For example, the 11th use of symbol `a` and the first use of symbol `a1`.
---
 cheval/parsing/expr_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/expr_items.py b/cheval/parsing/expr_items.py
index f94b627..294d944 100644
--- a/cheval/parsing/expr_items.py
+++ b/cheval/parsing/expr_items.py
@@ -24,7 +24,7 @@ class ChainedSymbol(object):
         return ChainTuple(chain, func, args, True)
 
     def _make_sub(self, *, prepend_at=False) -> str:
-        s1 = "__sub_%s%s" % (self._name, len(self._lookups))
+        s1 = "__sub_%s_%s" % (self._name, len(self._lookups))
         if prepend_at:
             return '@' + s1
         return s1
-- 
2.43.0


From 144ade5de773f517aa695a91c246c5f63a9f053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 16/43] fix: dict literal key for all children of a nest
 discarded the value of the nest itself

---
 cheval/parsing/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index a30ed9c..5b301dd 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -100,8 +100,9 @@ class Expression(object):
                 locs = choice_index.get_loc(tuple(new_key))
                 parent_loc = choice_index.get_loc(tuple(new_key + delta))
 
+                parent_val = new_array[0, parent_loc]
                 new_array[0, locs] = val
-                new_array[0, parent_loc] = 0
+                new_array[0, parent_loc] = parent_val  # The parent node itself isn't affected
             else:
                 loc = choice_index.get_loc(tuple(new_key + delta))
                 new_array[0, loc] = val
-- 
2.43.0


From 34ebb2599155ae76b642ea5999a0bf778ae0d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 17/43] fix: None was not accepted as missing value in
 expressions

---
 cheval/parsing/ast_transformer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index b0568fd..7960512 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -53,6 +53,13 @@ class ExpressionParser(ast.NodeTransformer):
         # Converts text-strings to NumExpr-supported byte-strings
         return ast.Bytes(node.s.encode())
 
+    @staticmethod
+    def visit_constant(node):
+        # Allow None to mean 'null'. As of Python 3.8 it is a constant and not a name
+        if node.value is None:
+            return ast.Name(NAN_STR, ast.Load())
+        return node
+
     def visit_unaryop(self, node):
         # Converts 'not' into '~' which NumExpr supports
         if isinstance(node.op, ast.Not):
-- 
2.43.0


From a283097c737b1f265b3f98f3fb66e5f0bd748469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 18/43] fix: aggregations inside of expressions failed for text
 columns, or without an argument

---
 cheval/parsing/ast_transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 7960512..347b716 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -275,7 +275,10 @@ class ExpressionParser(ast.NodeTransformer):
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
         if call_node.starargs is not None or call_node.kwargs is not None:
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
-        arg_expression = astor.to_source(call_node.args[0])
+        if len(call_node.args) > 0:
+            arg_expression = astor.to_source(call_node.args[0]).strip()
+        else:
+            arg_expression = '1'  # Same default as when aggregating outside of expressions
 
         if name in self.simple_symbols:
             raise UnsupportedSyntaxError("Inconsistent usage of symbol '%s'" % name)
-- 
2.43.0


From 1a28516e56409bef9ff54bff9dababa90d6fd15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 19/43] fix: columns with missing text or nullable integers
 could not be used in expressions

---
 cheval/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index a32c411..ce9a32e 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -27,7 +27,10 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         # need to deal with NA values in integer series in pandas >= 0.24
         # https://pandas.pydata.org/pandas-docs/stable/whatsnew/v1.0.0.html#arrays-integerarray-now-uses-pandas-na
         if np.all(~s.isna()):  # no NA values found
-            return s.to_numpy()[...]
+            arr = s.to_numpy()
+            if arr.dtype == np.object_:  # pandas >= 1.0.0 nullable integers
+                arr = s.to_numpy(dtype=dtype.numpy_dtype)
+            return arr[...]
         else:  # if NA values are present, yet pandas keeps the series as an IntegerArray instead of float
             try:
                 return np.asarray(s, dtype='float')[...]
@@ -41,6 +44,10 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         if category_index.dtype.name == 'object':
             max_len = category_index.str.len().max()
             typename = f'S{max_len}'
+            if categorical.isna().any():  # Missing text gets converted to empty strings
+                categorical = np.where(categorical.isna(), '', categorical.astype('object'))
+        elif categorical.isna().any():
+            typename = 'float'  # Only floats can represent missing numbers
         else:
             typename = category_index.dtype
 
@@ -48,6 +55,8 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
     elif dtype.name == 'object':
         # Object or text column
         # This is much slower than other dtypes, but it can't be helped. For now, users should just use Categoricals
+        if s.isna().any():
+            s = s.fillna('')  # Missing text gets converted to empty strings
         max_length = s.str.len().max()
         if np.isnan(max_length):
             raise TypeError('Could not get max string length')
-- 
2.43.0


From f1d483d390564a14714614ad4abebddd03364786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 20/43] fix: compute_indexers() kept the missing rows of the
 previous indexers

---
 cheval/ldf/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 93f39b4..8c00d98 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -184,6 +184,7 @@ class _LinkMeta:
     def precompute(self):
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
+        self._missing_indices = None  # These belong to the previous indexer
 
     def copy_meta(self) -> _LinkMeta:
         copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
-- 
2.43.0


From 2858cd07394031795ae003932cd744be9455b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 21/43] fix: link_to() rejected integer levels, and didn't
 raise LinkageSpecificationError for a wrong number of levels

---
 cheval/ldf/api.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 8c00d98..0d2d6a8 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -11,6 +11,7 @@ import numexpr as ne
 import numpy as np
 import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, Series
+from pandas.api.types import is_integer_dtype, is_list_like
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
 from ..parsing.expr_items import EvaluationMode
@@ -33,10 +34,10 @@ class _IndexMeta:
     from_row_labels: bool = attr.ib()
 
     def __init__(self, labels: Union[str, List[str]] = None, from_row_labels: bool = True):
-        if isinstance(labels, str):
-            labels = [labels]
-        elif labels is None:
+        if labels is None:
             from_row_labels = True
+        elif not is_list_like(labels):
+            labels = [labels]
         self.labels = labels
         self.from_row_labels = from_row_labels
 
@@ -107,7 +108,8 @@ class _LinkMeta:
         self_meta = _IndexMeta(self_labels, self_from_row_labels)
         other_meta = _IndexMeta(other_labels, other_from_row_labels)
 
-        assert self_meta.nlevels(owner) == other_meta.nlevels(other)
+        if self_meta.nlevels(owner) != other_meta.nlevels(other):
+            raise LinkageSpecificationError('Both sides of the link must have the same number of levels')
 
         other_has_links = isinstance(other, LinkedDataFrame)
 
-- 
2.43.0


From a1733566c6769f78797fce16135392c4127b85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 22/43] fix: looking up attributes of an empty frame failed
 instead of returning fill values

---
 cheval/ldf/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 0d2d6a8..6b0586c 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -466,6 +466,10 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
+                if len(series) == 0:  # Nothing to look up from, so everything is going to be missing
+                    series = to_numpy(Series([fill_value], dtype=series.dtype))
+                    indexer = np.zeros_like(indexer)
+
                 series = series[indexer]  # Reorder/duplicate/drop the raw array
                 series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
-- 
2.43.0


From 004161274c00d37097b01f5a62c43f1a94543bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 23/43] fix: aggregations and lookups of links with missing
 keys, lazy indexers or empty targets

- Rows of the target with a missing key shifted the results of all groups
- Links that were not precomputed couldn't be aggregated
- count() failed for non-integer columns when any row had no match
- nth() required an argument and was misaligned for groups with fewer rows
- Attributes of a frame without any rows could not be looked up
---
 cheval/ldf/api.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 6b0586c..e4485fe 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -466,8 +466,11 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                if len(series) == 0:  # Nothing to look up from, so everything is going to be missing
-                    series = to_numpy(Series([fill_value], dtype=series.dtype))
+                if len(series) == 0:  # Nothing to look up from, so every row gets filled. Just needs the right type
+                    if isinstance(series, np.ndarray):
+                        series = np.zeros(1, dtype=series.dtype)
+                    else:
+                        series = Series([np.nan], dtype=series.dtype).array
                     indexer = np.zeros_like(indexer)
 
                 series = series[indexer]  # Reorder/duplicate/drop the raw array
@@ -560,16 +563,34 @@ class LinkedDataFrame(DataFrame):
                     raise RuntimeError(f'Results of evaluation `{expr}` is non-numeric type {series_type}, which is not'
                                        f' allowed for aggregation function `{self._func_name}`')
 
+                if series_type == PandasDtype.TIME_NAME:
+                    raise NotImplementedError("Haven't found a way to instantiate NaT filler")
+
+                if top.other_grouper is None:
+                    top.precompute()
+                grouper = top.other_grouper
+                n_groups = grouper.max() + 1 if len(grouper) > 0 else 0
+
+                # Rows whose key is missing don't belong to any group
+                has_key = grouper >= 0
+                if not np.all(has_key):
+                    evaluation, grouper = evaluation[has_key], grouper[has_key]
+
+                # Aggregate and align the result
+                if self._func_name == 'nth':
+                    kwargs.setdefault('n', 1)
+                grouped_result = getattr(evaluation.groupby(grouper), self._func_name)(**kwargs)
+
                 # A fill value of NaN is only disallowed for integer types
                 fill_value = np.nan
                 if series_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME, PandasDtype.BOOL_NAME}:
                     fill_value = int_fill
-                elif series_type == PandasDtype.TIME_NAME:
-                    raise NotImplementedError("Haven't found a way to instantiate NaT filler")
+                elif is_integer_dtype(grouped_result):  # E.g. count() of non-integer values
+                    fill_value = int_fill
 
-                # Aggregate and align the result
-                grouper = top.other_grouper
-                grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
+                if len(grouped_result) != n_groups:  # E.g. nth() for groups with fewer rows
+                    grouped_result = grouped_result.reindex(np.arange(n_groups), fill_value=fill_value)
+                grouped_result = to_numpy(grouped_result)
 
                 return self._owner._resolve_history(grouped_result, fill_value)
 
-- 
2.43.0


From 3b6223924a4916f6d8c9fcd1e388c0199534cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 24/43] fix: pivot_table() failed for lists of columns

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index e4485fe..aaf8717 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -850,7 +850,7 @@ class LinkedDataFrame(DataFrame):
                 new_columns[lookup_items] = self.evaluate(lookup_items)
         elif (lookup_items is not None) and not isinstance(lookup_items, (pd.Series, np.ndarray)):
             for item in lookup_items:
-                if lookup_items in self.columns:
+                if item in self.columns:
                     new_columns[item] = self[item]
                 else:
                     new_columns[item] = self.evaluate(item)
-- 
2.43.0


From 5e6900709cebfff7cb775576ff8eb69134c6c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 25/43] fix: temporary_fill_defaults() could not be used

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index aaf8717..2ad6c77 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -389,7 +389,7 @@ class LinkedDataFrame(DataFrame):
 
     def temporary_fill_defaults(self=None, **kwargs):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
-        yield from filler.temporary_fill_defaults(**kwargs)
+        return filler.temporary_fill_defaults(**kwargs)
 
     def reset_fill_defaults(self=None):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 22032ea..a408d9d 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -88,6 +88,7 @@ class SeriesFillManager:
                 enum_ = PandasDtype[type_name]
                 previous_values[enum_] = self._fill_values[enum_]
                 self._fill_values[enum_] = default_value
+            yield
         finally:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
-- 
2.43.0


From 5a85d6f4bb8b04f5adcd564eb4b90521ee693394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 26/43] fix: class-level fill defaults did not affect new
 LinkedDataFrames

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 2ad6c77..e49932c 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -269,7 +269,7 @@ class LinkedDataFrame(DataFrame):
 
         object.__setattr__(self, '_links', {})
         object.__setattr__(self, '_identified_links', set())
-        object.__setattr__(self, '_instance_filler', SeriesFillManager())
+        object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
         object.__setattr__(self, '_column_fills', {})
 
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index a408d9d..57a5a42 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -70,6 +70,11 @@ class SeriesFillManager:
             enum_ = PandasDtype[type_name]
             self._fill_values[enum_] = default_value
 
+    def copy(self) -> SeriesFillManager:
+        copied = SeriesFillManager()
+        copied._fill_values = self._fill_values.copy()
+        return copied
+
     def get_fill(self, s: pd.Series):
         dtype = infer_dtype(s)
         return self._fill_values[dtype]
-- 
2.43.0


From bc796cd7baefdbb81a94d6937062ed7b47b4d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 27/43] fix: compute_indexers() of a slice or copy used the
 rows of the original frame

---
 cheval/ldf/api.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index e49932c..cf1a9fc 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -74,6 +74,15 @@ class _IndexMeta:
             return Index(arrays[0], name=name)
         return MultiIndex.from_arrays(arrays, names=self.labels)
 
+    def is_available(self, frame: DataFrame) -> bool:
+        """Checks if the given frame (still) has all the labels needed to construct the indexer"""
+        if self.labels is None:
+            return True
+        if self.from_row_labels:
+            level_numbers = range(-frame.index.nlevels, frame.index.nlevels)
+            return all(label in frame.index.names or label in level_numbers for label in self.labels)
+        return all(label in frame for label in self.labels)
+
     def nlevels(self, frame: DataFrame) -> int:
         if self.labels is None:
             return frame.index.nlevels
@@ -814,7 +823,10 @@ class LinkedDataFrame(DataFrame):
                 to be re-computed.
         """
         for entry in self._links.values():
-            if refresh or entry.flat_indexer is None:
+            if refresh and entry.self_meta.is_available(self):
+                entry.owner = self  # In case the link was copied from another frame
+                entry.precompute()
+            elif entry.flat_indexer is None:
                 entry.precompute()
 
     def pivot_table(self, values=None, index=None, columns=None, **kwargs):
-- 
2.43.0


From adeceaa66c3581f9663c42a41f70c430546b11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 28/43] fix: slicing frames whose links were not precomputed,
 and reindexing to new labels

The indexer of a slice was computed from all of the rows of the original frame,
so its lookups either failed or returned values of other rows. Similarly, rows
added by reindex() returned the values of the last row.
---
 cheval/ldf/api.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index cf1a9fc..ed93a5f 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -202,11 +202,21 @@ class _LinkMeta:
         copied.aggregation_required = self.aggregation_required
         return copied
 
-    def copy(self, indices=None) -> _LinkMeta:
+    def copy(self, indices=None, allow_missing: bool = False) -> _LinkMeta:
         copied = self.copy_meta()
 
-        if self.flat_indexer is not None:
-            copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
+        if indices is not None:
+            if self.flat_indexer is None:
+                self.precompute()  # The given indices are only meaningful for the indexer of all rows
+
+            if allow_missing:  # In which case -1 refers to a row that doesn't exist, instead of the last row
+                copied.flat_indexer = np.full(len(indices), -1)
+                exists = indices >= 0
+                copied.flat_indexer[exists] = self.flat_indexer[indices[exists]]
+            else:
+                copied.flat_indexer = self.flat_indexer[indices]
+        elif self.flat_indexer is not None:
+            copied.flat_indexer = self.flat_indexer
 
         # If we are not taking a slice, copy missing indices (if they exist)
         # If we are taking a slice, leave missing indices to be lazy-computed
@@ -679,13 +689,13 @@ class LinkedDataFrame(DataFrame):
             indexer = None
         link_names = set()
         for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(indexer)
+            self._links[link_name] = link.copy(indexer, allow_missing=True)
             link_names.add(link_name)
         self._identified_links = link_names
 
-    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
+    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray, allow_missing: bool = False):
         for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.copy(indexer)
+            target._links[link_name] = link_entry.copy(indexer, allow_missing)
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
@@ -704,7 +714,7 @@ class LinkedDataFrame(DataFrame):
 
         if isinstance(new_frame, LinkedDataFrame) and (0 in reindexers):
             _, indexer = reindexers[0]
-            self.__subset_links(new_frame, indexer)
+            self.__subset_links(new_frame, indexer, allow_missing=True)
         return new_frame
 
     def _slice(self, slobj, axis=0, kind=None):
-- 
2.43.0


From 3e629b13614265620ff7e047e4c679140b8b7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 29/43] fix: operations which filter or reorder rows kept the
 links of the original rows

For example, sort_values(), take(), drop(), nlargest(), sample() or reindexing
rows and columns at the same time. Lookups in the result either failed because
of the wrong length or returned the values of other rows.
---
 cheval/ldf/api.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index ed93a5f..506abe3 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -197,8 +197,10 @@ class _LinkMeta:
         self._make_indexer(*self._get_indexers())
         self._missing_indices = None  # These belong to the previous indexer
 
-    def copy_meta(self) -> _LinkMeta:
-        copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
+    def copy_meta(self, owner: LinkedDataFrame = None) -> _LinkMeta:
+        if owner is None:
+            owner = self.owner
+        copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
         return copied
 
@@ -668,12 +670,18 @@ class LinkedDataFrame(DataFrame):
         # Copy the link metadata from the parent dataframe
         # Note that as of pandas 1.5, the names of the methods is not considered stable
         # and may change in future versions.
-        if method == "groupby":
+        if method == "groupby" and other.index.is_unique:
             self._copy_links(other, reindex=True)
         else:
             for link_name, link in other._links.items():
-                self._links[link_name] = link.copy_meta()
-            self._identified_links = other._identified_links.copy()
+                if self.index is other.index:  # Same rows, so the indexer (if any) is still the same
+                    self._links[link_name] = link.copy()
+                elif link_name in self._links:
+                    continue  # Already taken from a copy
+                elif link.self_meta.is_available(self):
+                    # The rows could've been filtered or reordered, so the indexer needs to be computed for this frame
+                    self._links[link_name] = link.copy_meta(owner=self)
+            self._identified_links = other._identified_links & set(self._links)
 
         return self
 
-- 
2.43.0


From ef53526b7104a59c90b959f64b8f48b93be0944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 30/43] fix: a rejected replacement of a choice removed the
 existing one

---
 cheval/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index a80b8a4..4103421 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -79,6 +79,10 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
+        # Create the node first, so that nothing gets replaced if its name or scale is invalid
+        level = 1 if parent is None else (parent.level + 1)
+        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
+
         # The cached items depend on the tree; reset here so that this applies to nested choices as well
         self._cached_cols = None
         self._cached_utils = None
@@ -97,8 +101,6 @@ class ChoiceModel(object):
             if full_name.startswith(expected_namespace + '.'):
                 del self._all_nodes[full_name]
 
-        level = 1 if parent is None else (parent.level + 1)
-        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
         self._all_nodes[expected_namespace] = node
 
         return node
-- 
2.43.0


From b03f03e479eeda83ade2d2181ac7e3c172ac7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 31/43] fix: export the UnsupportedSyntaxError which is
 actually raised

---
 cheval/exceptions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cheval/exceptions.py b/cheval/exceptions.py
index dc94bd6..fc74841 100644
--- a/cheval/exceptions.py
+++ b/cheval/exceptions.py
@@ -1,5 +1,4 @@
-class UnsupportedSyntaxError(SyntaxError):
-    pass
+from .parsing.exceptions import UnsupportedSyntaxError
 
 
 class ModelNotReadyError(RuntimeError):
-- 
2.43.0


From 3d09af6302f0e9aecc20aef4cabb0a85182ec193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 32/43] fix: unknown values of multi-level links matched rows
 with missing ones

---
 cheval/ldf/api.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 506abe3..488bfeb 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -28,6 +28,18 @@ _SUPPORTED_AGGREGATIONS = sorted(_NUMERIC_AGGREGATIONS | _NON_NUMERIC_AGGREGATIO
 _NUMERIC_TYPES = {PandasDtype.INT_NAME, PandasDtype.UINT_NAME, PandasDtype.FLOAT_NAME, PandasDtype.BOOL_NAME}
 
 
+def _get_positions(index: Index, target: Index) -> np.ndarray:
+    """Gets the position of each item of the target in the given (unique) index, or -1 if it doesn't exist"""
+    positions = index.get_indexer(target)
+    if isinstance(index, MultiIndex):
+        # Pandas takes values which don't exist in a level for missing ones, which could be found in the index
+        for index_codes, target_codes in zip(index.codes, target.codes):
+            index_missing = index_codes == -1
+            if index_missing.any():
+                positions[index_missing[positions] & (target_codes != -1)] = -1
+    return positions
+
+
 class _IndexMeta:
 
     labels: List[str] = attr.ib(converter=lambda x: [x] if isinstance(x, str) else list(x))
@@ -165,7 +177,7 @@ class _LinkMeta:
         if self.aggregation_required:
             group_ints, group_order = other_indexer.factorize()
             self.other_grouper = group_ints
-            self.flat_indexer = group_order.get_indexer(self_indexer)
+            self.flat_indexer = _get_positions(group_order, self_indexer)
         else:  # Performance-tuned fast paths for constructing indexers
             if self_indexer.equals(other_indexer):  # Indexers are identical
                 self.flat_indexer = np.arange(len(other_indexer))
@@ -173,7 +185,7 @@ class _LinkMeta:
                 # Originally, different logic was used if the self indexer didn't map cleanly onto the other indexer
                 # (the other was missing values, or the self had NaNs).
                 # Those were combined into a single case for performance purposes
-                self.flat_indexer = other_indexer.get_indexer(self_indexer)
+                self.flat_indexer = _get_positions(other_indexer, self_indexer)
 
     def _compute_missing_indices(self):
         """Initializes `missing_indices` by finding the rows which do not have any linkages
-- 
2.43.0


From 738850ce3554aa7c4606b90220ea9ab54b8d7524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 33/43] fix: frames ignored the restriction of an expression to
 a choice

---
 cheval/parsing/expressions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index 5b301dd..c7b3072 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -10,7 +10,7 @@ import pandas as pd
 
 from .ast_transformer import ExpressionParser
 from .exceptions import UnsupportedSyntaxError
-from .expr_items import ChainedSymbol
+from .expr_items import ChainedSymbol, EvaluationMode
 
 
 def _split_filter(e: str) -> Tuple[str, Optional[str]]:
@@ -38,6 +38,8 @@ class Expression(object):
     @staticmethod
     def parse(e: str, prior_simple: Set[str] = None, prior_chained: Set[str] = None, mode='cheval') -> Expression:
         split_e, filter_ = _split_filter(e)
+        if filter_ is not None and mode == EvaluationMode.DATAFRAME:
+            raise UnsupportedSyntaxError("'@' is not allowed in this context")
 
         tree = ast.parse(split_e, mode='eval').body
         transformer = ExpressionParser(prior_simple, prior_chained, mode=mode)
-- 
2.43.0


From ab00135cda74d80b5a110b1e555f5adf01a7c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 34/43] fix: text columns without rows or characters could not
 be used in expressions

---
 cheval/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index ce9a32e..bab014b 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -42,7 +42,7 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
 
         category_index = categorical.categories
         if category_index.dtype.name == 'object':
-            max_len = category_index.str.len().max()
+            max_len = max(category_index.str.len().max(), 1) if len(category_index) > 0 else 1
             typename = f'S{max_len}'
             if categorical.isna().any():  # Missing text gets converted to empty strings
                 categorical = np.where(categorical.isna(), '', categorical.astype('object'))
@@ -57,9 +57,10 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         # This is much slower than other dtypes, but it can't be helped. For now, users should just use Categoricals
         if s.isna().any():
             s = s.fillna('')  # Missing text gets converted to empty strings
-        max_length = s.str.len().max()
+        max_length = s.str.len().max() if len(s) > 0 else 0
         if np.isnan(max_length):
             raise TypeError('Could not get max string length')
+        max_length = max(max_length, 1)  # Expressions don't support strings of size zero
 
         return s.to_numpy(dtype=f'S{max_length}') if _USE_TO_NUMPY else s.values.astype(f'S{max_length}')
     elif np.issubdtype(dtype, np.datetime64):
-- 
2.43.0


From ef266367b18f859994110b7f47308c2637a8421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 35/43] fix: pivot_table() without values discarded the columns
 of the frame

---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 488bfeb..b48b867 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -863,6 +863,8 @@ class LinkedDataFrame(DataFrame):
         # Construct a new DataFrame from any of the columns or lookups specified
         # in values, index, or columns, and then pivot that
         new_columns = {}
+        if values is None:  # In which case pandas aggregates all of the remaining columns
+            new_columns.update(pd.DataFrame(self).items())
         value_cols = self._resolve_columns(values)
         new_columns.update(value_cols)
         index_cols = self._resolve_columns(index)
-- 
2.43.0


From 66de2cb68146533b6ad4b0ceda5a901a7fb50605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 36/43] fix: operations of pandas on a LinkedDataFrame modified
 the frame itself, since copies were shallow by default

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index b48b867..809d9b9 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -745,7 +745,7 @@ class LinkedDataFrame(DataFrame):
             self.__subset_links(new_frame, slobj)
         return new_frame
 
-    def copy(self, deep=False) -> LinkedDataFrame:
+    def copy(self, deep=True) -> LinkedDataFrame:
         copied = super().copy(deep=deep)
 
         # Copy the link data
-- 
2.43.0


From 9df88a7b4d07d213bb394fe469f5a1afc1c2273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 37/43] fix: slicing failed once the keys of a lazy link were
 removed from the frame

---
 cheval/ldf/api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 809d9b9..2dcce83 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -209,6 +209,11 @@ class _LinkMeta:
         self._make_indexer(*self._get_indexers())
         self._missing_indices = None  # These belong to the previous indexer
 
+    def is_computable(self) -> bool:
+        """Checks if the owner (still) has keys which can be matched with those of the other frame"""
+        return (self.self_meta.is_available(self.owner) and
+                self.self_meta.nlevels(self.owner) == self.other_meta.nlevels(self.other))
+
     def copy_meta(self, owner: LinkedDataFrame = None) -> _LinkMeta:
         if owner is None:
             owner = self.owner
@@ -221,6 +226,8 @@ class _LinkMeta:
 
         if indices is not None:
             if self.flat_indexer is None:
+                if not self.is_computable():
+                    return copied  # The keys are gone, so neither of the two frames can use this link any more
                 self.precompute()  # The given indices are only meaningful for the indexer of all rows
 
             if allow_missing:  # In which case -1 refers to a row that doesn't exist, instead of the last row
-- 
2.43.0


From 0703dbac6352bd949336450370effa6c88ce768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 38/43] fix: sums of ExpressionGroups shared groups with their
 operands, and had them in arbitrary order

---
 cheval/api.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 7083399..67d5514 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -203,16 +203,11 @@ class ExpressionGroup(object):
         new._chained_symbols = self._chained_symbols | other._chained_symbols
         new._ungrouped_expressions = self._ungrouped_expressions + other._ungrouped_expressions
 
+        # Groups also need to be new, so that changing the result doesn't change its operands
         new._subgroups = {}
-        keys = set(self._subgroups.keys()) | set(other._subgroups.keys())
-        for key in keys:
-            key_in_self, key_in_other = key in self._subgroups, key in other._subgroups
-            if key_in_self and key_in_other:
-                new._subgroups[key] = self._subgroups[key] + other._subgroups[key]
-            elif key_in_self:
-                new._subgroups[key] = self._subgroups[key]
-            elif key_in_other:
-                new._subgroups[key] = other._subgroups[key]
+        for subgroups in (self._subgroups, other._subgroups):
+            for key, subgroup in subgroups.items():
+                new._subgroups[key] = new._subgroups.get(key, ExpressionSubGroup(key)) + subgroup
 
         return new
 
-- 
2.43.0


From 89c76adb6b224c2fbbb9ece968317ce28551052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 39/43] fix: .iloc[[]] of a LinkedDataFrame with links raised
 an error

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 2dcce83..e24adfe 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -727,7 +727,7 @@ class LinkedDataFrame(DataFrame):
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
         if axis == 0:
-            self.__subset_links(sliced, indices)
+            self.__subset_links(sliced, np.asarray(indices, dtype=np.intp))  # Empty lists aren't integers otherwise
         return sliced
 
     def _take(self, indices, axis=0, is_copy=True):  # pandas < 1.0.x
-- 
2.43.0


From 6e8db089ec22d2a36eb5633b15bd196897ece44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:29 +0000
Subject: [PATCH 40/43] fix: lazy links of copies followed later changes of the
 original frame

---
 cheval/ldf/api.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index e24adfe..e06403b 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -95,6 +95,11 @@ class _IndexMeta:
             return all(label in frame.index.names or label in level_numbers for label in self.labels)
         return all(label in frame for label in self.labels)
 
+    def copy_keys(self, frame: DataFrame) -> DataFrame:
+        """Gets a frame to construct the indexer from, which isn't affected by changes of the given frame"""
+        columns = [] if (self.labels is None or self.from_row_labels) else list(self.labels)
+        return DataFrame(frame)[columns].copy()
+
     def nlevels(self, frame: DataFrame) -> int:
         if self.labels is None:
             return frame.index.nlevels
@@ -238,6 +243,9 @@ class _LinkMeta:
                 copied.flat_indexer = self.flat_indexer[indices]
         elif self.flat_indexer is not None:
             copied.flat_indexer = self.flat_indexer
+        elif self.self_meta.is_available(self.owner):
+            # The owner might change until the indexer of the copy is computed
+            copied.owner = self.self_meta.copy_keys(self.owner)
 
         # If we are not taking a slice, copy missing indices (if they exist)
         # If we are taking a slice, leave missing indices to be lazy-computed
-- 
2.43.0


From 46e4164fb9cb6e6586c9dd339deea3539698e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:39 +0000
Subject: [PATCH 41/43] fix: in-place sorting and filtering of a
 LinkedDataFrame left its links behind

---
 cheval/ldf/api.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index e06403b..f916218 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -760,6 +760,24 @@ class LinkedDataFrame(DataFrame):
             self.__subset_links(new_frame, slobj)
         return new_frame
 
+    def _update_inplace(self, result, verify_is_copy=True):
+        # Used by the methods which have an `inplace` argument. The result could have other rows than this frame
+        same_rows = result.index is self.index
+        super()._update_inplace(result, verify_is_copy)
+        if same_rows:
+            return
+
+        for link_name, link in list(self._links.items()):
+            if isinstance(result, LinkedDataFrame) and link_name in result._links:
+                self._links[link_name] = result._links[link_name]
+                if link.self_meta.is_available(self):
+                    self._links[link_name].owner = self
+            elif link.self_meta.is_available(self):
+                self._links[link_name] = link.copy_meta(owner=self)
+            else:  # Same as for the results of the method without `inplace`
+                del self._links[link_name]
+                self._identified_links.discard(link_name)
+
     def copy(self, deep=True) -> LinkedDataFrame:
         copied = super().copy(deep=deep)
 
-- 
2.43.0


From 625ef9a56cc9aa53854899b545ec3f1bef0983db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 42/43] fix: further arguments of aggregations were silently
 ignored

---
 cheval/parsing/ast_transformer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 347b716..1610efa 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -275,6 +275,8 @@ class ExpressionParser(ast.NodeTransformer):
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
         if call_node.starargs is not None or call_node.kwargs is not None:
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
+        if len(call_node.args) > 1:
+            raise UnsupportedSyntaxError("Aggregations only support a single expression")
         if len(call_node.args) > 0:
             arg_expression = astor.to_source(call_node.args[0]).strip()
         else:
-- 
2.43.0


From 4370d51539920fb3cd871b3504e0caa614fc374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:55 +0000
Subject: [PATCH 43/43] fix: runs which were refused because of their utilities
 leaked the memory of their results

---
 cheval/core.py | 57 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 69b5111..0b2fa84 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -27,7 +27,8 @@ class UtilityBoundsError(ValueError):
 @njit(void(ndouble[:], nbool), nogil=True, cache=True)
 def check_logsums(logsums: NDArray, check_infeasible: bool):
     """Raises an error if any row doesn't have valid probabilities. This is separate from the computation itself because
-    exceptions raised inside of a parallel loop don't reliably reach the caller."""
+    exceptions raised inside of a parallel loop don't reliably reach the caller, and because compiled functions don't
+    release the arrays they allocated when they raise an exception."""
     for ls in logsums:
         if not np.isfinite(ls):
             raise UtilityBoundsError("Utilities are too large to be exponentiated (Logsum is not finite)")
@@ -347,8 +348,7 @@ def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     NTuple((nlong[:, :], ndouble[:]))(ndouble[:, :], nlong, nlong),
     NTuple((nlong[:, :], ndouble[:]))(nfloat[:, :], nlong, nlong)
 ], parallel=True, nogil=True, cache=True)
-def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[NDArray, NDArray]:
-    """Runs multinomial_sample or multinomial_multisample in parallel."""
+def _worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[NDArray, NDArray]:
     n_rows = utilities.shape[0]
     result = np.zeros((n_rows, n), dtype=np.int64)
     ls_array = np.zeros(n_rows, dtype=np.float64)
@@ -368,16 +368,21 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
             _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
             ls_array[i] = ls
 
+    return result, ls_array
+
+
+def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[NDArray, NDArray]:
+    """Runs multinomial_sample or multinomial_multisample in parallel."""
+    result, ls_array = _worker_multinomial_sample(utilities, n, seed)
     check_logsums(ls_array, True)
     return result, ls_array
 
 
 @njit([
-    NTuple((ndouble[:, :], ndouble[:], ndouble[:, :]))(ndouble[:, :], nbool),
-    NTuple((ndouble[:, :], ndouble[:], ndouble[:, :]))(nfloat[:, :], nbool)
+    NTuple((ndouble[:, :], ndouble[:], ndouble[:, :]))(ndouble[:, :]),
+    NTuple((ndouble[:, :], ndouble[:], ndouble[:, :]))(nfloat[:, :])
 ], parallel=True, nogil=True, cache=True)
-def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool) -> Tuple[NDArray, NDArray, NDArray]:
-    """Runs multinomial_probabilities in parallel"""
+def _worker_multinomial_probabilities(utilities: NDArray) -> Tuple[NDArray, NDArray, NDArray]:
     n_rows, n_cols = utilities.shape
     result = np.zeros((n_rows, n_cols), dtype=np.float64)
     top_ls_array = np.zeros(n_rows, dtype=np.float64)
@@ -390,6 +395,12 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    return result, top_ls_array, nested_ls_terms
+
+
+def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool) -> Tuple[NDArray, NDArray, NDArray]:
+    """Runs multinomial_probabilities in parallel"""
+    result, top_ls_array, nested_ls_terms = _worker_multinomial_probabilities(utilities)
     check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
@@ -398,9 +409,8 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
     NTuple((nlong[:, :], ndouble[:]))(ndouble[:, :], nlong[:], nlong[:], ndouble[:], nbool[:], nlong, nlong, nbool),
     NTuple((nlong[:, :], ndouble[:]))(nfloat[:, :], nlong[:], nlong[:], ndouble[:], nbool[:], nlong, nlong, nbool)
 ], parallel=True, nogil=True, cache=True)
-def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_flags, n: int, seed: int,
-                         scale_utilities: bool) -> Tuple[NDArray, NDArray]:
-    """Runs nested_sample or nested_multisample in parallel."""
+def _worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_flags, n: int, seed: int,
+                          scale_utilities: bool) -> Tuple[NDArray, NDArray]:
     n_rows = len(utilities)
     result = np.zeros((n_rows, n), dtype=np.int64)
     ls_array = np.zeros(n_rows, dtype=np.float64)
@@ -425,17 +435,25 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
             )
             ls_array[i] = ls
 
+    return result, ls_array
+
+
+def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_flags, n: int, seed: int,
+                         scale_utilities: bool) -> Tuple[NDArray, NDArray]:
+    """Runs nested_sample or nested_multisample in parallel."""
+    result, ls_array = _worker_nested_sample(
+        utilities, parents, levels, ls_scales, bottom_flags, n, seed, scale_utilities
+    )
     check_logsums(ls_array, True)
     return result, ls_array
 
 
 @njit([
-    NTuple((ndouble[:, :], ndouble[:], ndouble[:, :]))(ndouble[:, :], nlong[:], nlong[:], ndouble[:], nbool[:], nbool, nbool),
-    NTuple((ndouble[:, :], ndouble[:], ndouble[:, :]))(nfloat[:, :], nlong[:], nlong[:], ndouble[:], nbool[:], nbool, nbool)
+    NTuple((ndouble[:, :], ndouble[:], ndouble[:, :]))(ndouble[:, :], nlong[:], nlong[:], ndouble[:], nbool[:], nbool),
+    NTuple((ndouble[:, :], ndouble[:], ndouble[:, :]))(nfloat[:, :], nlong[:], nlong[:], ndouble[:], nbool[:], nbool)
 ], parallel=True, nogil=True, cache=True)
-def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales, bottom_flags, scale_utilities: bool,
-                                check_infeasible: bool) -> Tuple[NDArray, NDArray, NDArray]:
-    """Runs nested_probabilities in parallel"""
+def _worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales, bottom_flags,
+                                 scale_utilities: bool) -> Tuple[NDArray, NDArray, NDArray]:
     n_rows, n_cols = utilities.shape
     result = np.zeros((n_rows, n_cols), dtype=np.float64)
     top_ls_array = np.zeros(n_rows, dtype=np.float64)
@@ -450,6 +468,15 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    return result, top_ls_array, nested_ls_terms
+
+
+def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales, bottom_flags, scale_utilities: bool,
+                                check_infeasible: bool) -> Tuple[NDArray, NDArray, NDArray]:
+    """Runs nested_probabilities in parallel"""
+    result, top_ls_array, nested_ls_terms = _worker_nested_probabilities(
+        utilities, parents, levels, ls_scales, bottom_flags, scale_utilities
+    )
     check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
-- 
2.43.0


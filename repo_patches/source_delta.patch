From ebec4a5d453491077636ec80b1de921908f01682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:53 +0000
Subject: [PATCH 01/20] fix: support trees without ancestors (maxdepth 1 and 2)
 in the grow proposal

With maxdepth=2 the list of ancestor variables is empty and indexing it raised
IndexError; with maxdepth=1 its length was computed as -1.
---
 src/bartz/mcmcstep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d98c07e..b968b99 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -605,8 +605,10 @@ def ancestor_variables(var_tree, max_split, node_index):
         The variable indices of the ancestors of the node, from the root to
         the parent. Unused spots are filled with `p`.
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     ancestor_vars = jnp.zeros(max_num_ancestors, jaxext.minimal_unsigned_dtype(max_split.size))
+    if not max_num_ancestors:
+        return ancestor_vars
     carry = ancestor_vars.size - 1, node_index, ancestor_vars
     def loop(carry, _):
         i, index, ancestor_vars = carry
@@ -640,7 +642,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     l, r : int
         The range of allowed splits is [l, r).
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
     carry = 0, initial_r, node_index
     def loop(carry, _):
-- 
2.43.0


From 75334db4610fff0859114be01e7b57bec99ba3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:53 +0000
Subject: [PATCH 02/20] fix: randint_exclude returns sup when everything is
 excluded

The filling values were counted as excluded values, so the result exceeded sup.
---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index b968b99..ef68fe0 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -682,7 +682,7 @@ def randint_exclude(key, sup, exclude):
     num_allowed = sup - jnp.count_nonzero(exclude < sup)
     u = random.randint(key, (), 0, num_allowed)
     def loop(u, i):
-        return jnp.where(i <= u, u + 1, u), None
+        return jnp.where((i <= u) & (i < sup), u + 1, u), None
     u, _ = lax.scan(loop, u, exclude)
     return u
 
-- 
2.43.0


From 8e1ac42652a285c985fac4802bd5ea76c4cdafc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 03/20] fix: never grow a leaf with a decision rule that has no
 available cutpoint

If all predictors were exhausted at the leaf (or the chosen predictor has no
cutpoints at all), the proposal used an out of range predictor or cutpoint, and
could be accepted if min_points_per_leaf was 0 or not specified.
---
 src/bartz/mcmcstep.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index ef68fe0..5882353 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -358,7 +358,7 @@ def sample_moves(bart, key):
     right = left + 1
 
     return dict(
-        allowed=grow | prune_moves['allowed'],
+        allowed=jnp.where(grow, grow_moves['allowed'], prune_moves['allowed']),
         grow=grow,
         num_growable=grow_moves['num_growable'],
         node=node,
@@ -411,6 +411,9 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
 
         'num_growable' : int
             The number of growable leaves.
+        'allowed' : bool
+            Whether the move is possible, i.e., there is a growable leaf and a
+            decision rule available for the chosen leaf.
         'node' : int
             The index of the leaf to grow. ``2 ** d`` if there are no growable
             leaves.
@@ -432,11 +435,13 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
     var_tree = var_tree.at[leaf_to_grow].set(var.astype(var_tree.dtype))
 
     split = choose_split(var_tree, split_tree, max_split, leaf_to_grow, key2)
+    l, r = split_range(var_tree, split_tree, max_split, leaf_to_grow, var)
 
     ratio = compute_partial_ratio(prob_choose, num_prunable, p_nonterminal, leaf_to_grow)
 
     return dict(
         num_growable=num_growable,
+        allowed=(num_growable > 0) & (l < r),
         node=leaf_to_grow,
         var=var,
         split=split,
-- 
2.43.0


From fd6bd181c13bc25d64ccb93b7aca54c2dcb85ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 04/20] fix: do not modify the input state when saving the
 ratios

The nested 'ratios' dictionary of the input was updated in place.
---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 5882353..72777e9 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1286,7 +1286,8 @@ def accept_moves_sequential_stage(bart, count_trees, moves, move_counts, prelkv,
 
     bart['resid'] = resid
     bart['leaf_trees'] = leaf_trees
-    bart.get('ratios', {}).update(ratios)
+    if 'ratios' in bart:
+        bart['ratios'] = ratios
     moves['acc'] = acc
     moves['to_prune'] = to_prune
 
-- 
2.43.0


From c294bdf68e26f998f4c8df2275d7fa82242912da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 05/20] fix: empty traces contain only the documented fields

With n_burn=0 or n_save=0 the corresponding trace contained the whole state.
---
 src/bartz/mcmcloop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bartz/mcmcloop.py b/src/bartz/mcmcloop.py
index 4510b3d..a8ac553 100644
--- a/src/bartz/mcmcloop.py
+++ b/src/bartz/mcmcloop.py
@@ -107,6 +107,7 @@ def run_mcmc(bart, n_burn, n_save, n_skip, callback, key):
         return (bart, i_total + 1, i_skip + 1, key), output
 
     def empty_trace(bart, tracelist):
+        bart = {key: bart[key] for key in tracelist if key in bart}
         return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(bart)
 
     if n_burn > 0:
-- 
2.43.0


From 6449584e4950e7b4ad6171dc79741f10e7a6df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:36 +0000
Subject: [PATCH 06/20] fix: report zero cutpoints when quantilizing an empty
 dataset

With n=0 max_split was -1 cast to unsigned (255) while splits had no columns.
---
 src/bartz/prepcovars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 4319b6b..490cec2 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -53,7 +53,7 @@ def quantilized_splits_from_matrix(X, max_bins):
     max_split : array (p,)
         The number of actually used values in each row of `splits`.
     """
-    out_length = min(max_bins, X.shape[1]) - 1
+    out_length = max(0, min(max_bins, X.shape[1]) - 1)
     # return _quantilized_splits_from_matrix(X, out_length)
     @functools.partial(jaxext.autobatch, max_io_nbytes=2 ** 29)
     def quantilize(X):
@@ -78,7 +78,7 @@ def _quantilized_splits_from_matrix(x, out_length):
     decimated_midpoints = midpoints[indices]
     truncated_midpoints = midpoints[:out_length]
     splits = jnp.where(actual_length > out_length, decimated_midpoints, truncated_midpoints)
-    max_split = jnp.minimum(actual_length, out_length)
+    max_split = jnp.clip(actual_length, 0, out_length)
     max_split = max_split.astype(jaxext.minimal_unsigned_dtype(out_length))
     return splits, max_split
 
-- 
2.43.0


From 997753de3318b15ebab8e21b0a3435a548d1c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:36 +0000
Subject: [PATCH 07/20] fix: compare dataframe columns as lists in
 gbart.predict

Comparing pandas indices with == raised ValueError for any new dataframe with
more than one column.
---
 src/bartz/BART.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index be77301..14df0db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -256,7 +256,7 @@ class gbart:
     @staticmethod
     def _process_predictor_input(x):
         if hasattr(x, 'columns'):
-            fmt = dict(kind='dataframe', columns=x.columns)
+            fmt = dict(kind='dataframe', columns=list(x.columns))
             x = x.to_numpy().T
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
-- 
2.43.0


From 08597a38bbac33f1fcb7d50fc131d28ed59a07fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:46 +0000
Subject: [PATCH 08/20] fix: jaxext.unique misses values when size is less than
 the input length

Only the first `size` sorted elements were scanned, so repeated values hid the
ones after them.
---
 src/bartz/jaxext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 815f2b7..7e67219 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -183,8 +183,8 @@ def unique(x, size, fill_value):
         out = out.at[i_out].set(x)
         return (i_out, i_in + 1, x, out), None
     carry = 0, 0, x[0], jnp.full(size, fill_value, x.dtype)
-    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x[:size])
-    return out, actual_length + 1
+    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x)
+    return out, jnp.minimum(actual_length + 1, size)
 
 def autobatch(func, max_io_nbytes, in_axes=0, out_axes=0, return_nbatches=False):
     """
-- 
2.43.0


From 2f2b44d681535a5c8b76d53a721c53a2f6021485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 09/20] fix: points_per_leaf_distr overflows with 256 or more
 leaves of the same size

---
 src/bartz/debug.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/debug.py b/src/bartz/debug.py
index 868ab35..2a54687 100644
--- a/src/bartz/debug.py
+++ b/src/bartz/debug.py
@@ -86,7 +86,7 @@ def points_per_leaf_distr(var_tree, split_tree, X):
     indices = traverse_tree(X, var_tree, split_tree)
     count_tree = jnp.zeros(2 * split_tree.size, dtype=jaxext.minimal_unsigned_dtype(indices.size))
     count_tree = count_tree.at[indices].add(1)
-    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).view(jnp.uint8)
+    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).astype(jnp.uint32)
     return jnp.bincount(count_tree, is_leaf, length=X.shape[1] + 1)
 
 def forest_points_per_leaf_distr(bart, X):
-- 
2.43.0


From 7fec7f0f2252314a9e09d2d09e0ea1b0ad79f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:29 +0000
Subject: [PATCH 10/20] fix: avoid overflow in split_range with the largest
 cutpoint index

The lower end of the range was computed with the type of the cutpoints, such
that to the right of cutpoint 255 (uint8) the range was [0, 256) instead of
empty, and rules that separate nothing could be accepted.
---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 72777e9..6be3815 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -654,7 +654,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
         l, r, index = carry
         right_child = (index & 1).astype(bool)
         index >>= 1
-        split = split_tree[index]
+        split = split_tree[index].astype(jnp.int32) # l + 1 would overflow
         cond = (var_tree[index] == ref_var) & index.astype(bool)
         l = jnp.where(cond & right_child, jnp.maximum(l, split), l)
         r = jnp.where(cond & ~right_child, jnp.minimum(r, split), r)
-- 
2.43.0


From 86f3b8e89a9cbad5ef31d56a52dbc254b220f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:21 +0000
Subject: [PATCH 11/20] fix: initialize the noise variance to 1 if the prior
 shape is zero

With Python numbers the division raised ZeroDivisionError instead of taking the
fallback for non-finite values.
---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 6be3815..71f615f 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -170,7 +170,7 @@ def init(*,
     large_float = jnp.dtype(large_float)
     y = jnp.asarray(y, small_float)
     resid_batch_size, count_batch_size = _choose_suffstat_batch_size(resid_batch_size, count_batch_size, y, 2 ** max_depth * num_trees)
-    sigma2 = jnp.array(sigma2_beta / sigma2_alpha, large_float)
+    sigma2 = jnp.asarray(sigma2_beta, large_float) / jnp.asarray(sigma2_alpha, large_float)
     sigma2 = jnp.where(jnp.isfinite(sigma2) & (sigma2 > 0), sigma2, 1)
 
     bart = dict(
-- 
2.43.0


From 99b60b7e74e9eba4a380c4955dda8401144b24ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:07 +0000
Subject: [PATCH 12/20] fix: support uint32 predictors in
 quantilized_splits_from_matrix

---
 src/bartz/prepcovars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 490cec2..a2e9760 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -62,7 +62,7 @@ def quantilized_splits_from_matrix(X, max_bins):
 
 @functools.partial(jax.vmap, in_axes=(0, None))
 def _quantilized_splits_from_matrix(x, out_length):
-    huge = jaxext.huge_value(x)
+    huge = jnp.array(jaxext.huge_value(x), x.dtype)
     u, actual_length = jaxext.unique(x, size=x.size, fill_value=huge)
     actual_length -= 1
     if jnp.issubdtype(x.dtype, jnp.integer):
-- 
2.43.0


From 28afa797f66c18f39dac398552dce99e3a65032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 13/20] fix: avoid overflow in the midpoints of large floating
 point predictors

---
 src/bartz/prepcovars.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index a2e9760..07f55af 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -70,7 +70,9 @@ def _quantilized_splits_from_matrix(x, out_length):
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
-        midpoints = (u[1:] + u[:-1]) / 2
+        total = u[1:] + u[:-1]
+        midpoints = jnp.where(jnp.isinf(total), u[1:] / 2 + u[:-1] / 2, total / 2)
+            # halve before summing if the sum overflows
     indices = jnp.linspace(-1, actual_length, out_length + 2)[1:-1]
     indices = jnp.around(indices).astype(jaxext.minimal_unsigned_dtype(midpoints.size - 1))
         # indices calculation with float rather than int to avoid potential
-- 
2.43.0


From d81daa9cd4e929cbfa2af0c948d432d00c735748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:54 +0000
Subject: [PATCH 14/20] fix: keep quantile cutpoints distinct with a large
 number of bins

---
 src/bartz/prepcovars.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 07f55af..0b78dc0 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -73,10 +73,14 @@ def _quantilized_splits_from_matrix(x, out_length):
         total = u[1:] + u[:-1]
         midpoints = jnp.where(jnp.isinf(total), u[1:] / 2 + u[:-1] / 2, total / 2)
             # halve before summing if the sum overflows
-    indices = jnp.linspace(-1, actual_length, out_length + 2)[1:-1]
-    indices = jnp.around(indices).astype(jaxext.minimal_unsigned_dtype(midpoints.size - 1))
+    excess = jnp.maximum(actual_length - out_length, 0)
+    shift = jnp.around(jnp.linspace(0, excess, out_length + 2)[1:-1])
+    dtype = jaxext.minimal_unsigned_dtype(midpoints.size - 1)
+    indices = jnp.arange(out_length, dtype=dtype) + shift.astype(dtype)
         # indices calculation with float rather than int to avoid potential
-        # overflow with int32, and to round to nearest instead of rounding down
+        # overflow with int32, and to round to nearest instead of rounding down;
+        # shift is not decreasing, so the indices are distinct even if rounding
+        # errors accumulate
     decimated_midpoints = midpoints[indices]
     truncated_midpoints = midpoints[:out_length]
     splits = jnp.where(actual_length > out_length, decimated_midpoints, truncated_midpoints)
-- 
2.43.0


From 9b7244c91b1902b7b5432714db3b7f0852a2b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 15/20] fix: quantile cutpoints of integer predictors with 257
 or 65537 distinct values

---
 src/bartz/prepcovars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 0b78dc0..f82d512 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -67,7 +67,7 @@ def _quantilized_splits_from_matrix(x, out_length):
     actual_length -= 1
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
-        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
+        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
         total = u[1:] + u[:-1]
-- 
2.43.0


From 578bbe2ada529ab7e9734086e5ee199c7fbf36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 16/20] fix: estimate of the noise with constant predictors in
 gbart

---
 src/bartz/BART.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 14df0db..2b939db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -300,8 +300,10 @@ class gbart:
                 y_centered = y_train - y_train.mean()
                     # centering is equivalent to adding an intercept column
                 _, chisq, rank, _ = jnp.linalg.lstsq(x_centered, y_centered)
-                chisq = chisq.squeeze(0)
-                dof = len(y_train) - rank
+                # lstsq returns nan if all the predictors are constant
+                any_varying = jnp.any(x_centered != 0)
+                chisq = jnp.where(any_varying, chisq.squeeze(0), jnp.dot(y_centered, y_centered))
+                dof = len(y_train) - jnp.where(any_varying, rank, 0)
                 sigest2 = chisq / dof
             alpha = sigdf / 2
             invchi2 = jaxext.scipy.stats.invgamma.ppf(sigquant, alpha) / 2
-- 
2.43.0


From 45a99489eeb0ffb42125eb34036a7c486ce19e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:47 +0000
Subject: [PATCH 17/20] fix: keep the leaves in small_float after a step

---
 src/bartz/mcmcstep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 71f615f..3322359 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1391,6 +1391,9 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
         .set(leaf_tree[node])
     )
 
+    # store the leaves with their type, and use the stored values from now on
+    leaf_tree = leaf_tree.astype(initial_leaf_tree.dtype)
+
     # replace old tree with new tree in function values
     resid += (initial_leaf_tree - leaf_tree)[leaf_indices]
 
-- 
2.43.0


From 541cae92f3cbb904efecd4eac8ee7d79a7ee6ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:47 +0000
Subject: [PATCH 18/20] fix: keep the noise variance in large_float after a
 step

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 3322359..66c441f 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1572,7 +1572,7 @@ def sample_sigma(bart, key):
     norm2 = jnp.dot(resid, resid, preferred_element_type=bart['opt']['large_float'])
     beta = bart['sigma2_beta'] + norm2 / 2
 
-    sample = random.gamma(key, alpha)
+    sample = random.gamma(key, alpha, dtype=bart['opt']['large_float'])
     bart['sigma2'] = beta / sample
 
     return bart
-- 
2.43.0


From c1b1bea50e48d7f993b233b418570193136bc624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:48 +0000
Subject: [PATCH 19/20] fix: initialize the ratios in large_float

---
 src/bartz/mcmcstep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 66c441f..ab5cd70 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -210,8 +210,8 @@ def init(*,
 
     if save_ratios:
         bart['ratios'] = dict(
-            log_trans_prior=jnp.full(num_trees, jnp.nan),
-            log_likelihood=jnp.full(num_trees, jnp.nan),
+            log_trans_prior=jnp.full(num_trees, jnp.nan, large_float),
+            log_likelihood=jnp.full(num_trees, jnp.nan, large_float),
         )
 
     return bart
-- 
2.43.0


From a9505e82e9e9574306cbd4da7a14afbecd8e37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:09 +0000
Subject: [PATCH 20/20] fix: keep the residuals consistent with leaves stored
 in small_float

---
 src/bartz/mcmcstep.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index ab5cd70..bee3130 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1346,7 +1346,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     resid_tree = sum_resid(resid, leaf_indices, leaf_tree.size, resid_batch_size)
 
     # subtract starting tree from function
-    resid_tree += count_tree * leaf_tree
+    resid_tree += count_tree * leaf_tree.astype(resid.dtype)
 
     # get indices of move
     node = move['node']
@@ -1391,11 +1391,15 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
         .set(leaf_tree[node])
     )
 
-    # store the leaves with their type, and use the stored values from now on
+    # store the leaves with their type, and use the stored values from now on;
+    # `reduce_precision` because the compiler may skip the rounding of a cast
+    finfo = jnp.finfo(initial_leaf_tree.dtype)
+    leaf_tree = lax.reduce_precision(leaf_tree, finfo.nexp, finfo.nmant)
     leaf_tree = leaf_tree.astype(initial_leaf_tree.dtype)
 
     # replace old tree with new tree in function values
-    resid += (initial_leaf_tree - leaf_tree)[leaf_indices]
+    diff_tree = initial_leaf_tree.astype(resid.dtype) - leaf_tree.astype(resid.dtype)
+    resid += diff_tree[leaf_indices]
 
     return resid, leaf_tree, acc, to_prune, ratios
 
-- 
2.43.0


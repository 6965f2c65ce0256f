From 33e7b90bf00dceb965524927c87687de31fc5f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 001/106] fix: a row with null/NaN is never a neighbor under
 the inf metric either

---
 src/utils/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 360da3c..edf353e 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -334,7 +334,16 @@ impl<T: Float + DistanceOps + 'static> DIST<T> {
                 .iter()
                 .copied()
                 .zip(a2.iter().copied())
-                .fold(T::zero(), |acc, (x, y)| acc.max((x - y).abs())),
+                .fold(T::zero(), |acc, (x, y)| {
+                    // Float max ignores NaN. A NaN coordinate must make the distance NaN here, like it
+                    // does for the other metrics.
+                    let d = (x - y).abs();
+                    if d > acc || d.is_nan() {
+                        d
+                    } else {
+                        acc
+                    }
+                }),
 
             DIST::ANY(func) => func(a1, a2),
         }
-- 
2.43.0


From f775096785e5e9f017e0c50cc5d5f0c0a3fb8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 002/106] fix: KNN queries give null or no neighbors, not a
 panic, when no row can be a neighbor

---
 src/arkadia/kdt.rs        |  4 ++--
 src/num_ext/entrophies.rs | 12 ++++++------
 src/num_ext/knn.rs        | 14 +++++++-------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/arkadia/kdt.rs b/src/arkadia/kdt.rs
index d9f75a1..d395795 100644
--- a/src/arkadia/kdt.rs
+++ b/src/arkadia/kdt.rs
@@ -120,8 +120,8 @@ impl<'a, T: Float + DistanceOps + 'static + Debug, A: Copy> KDT<'a, T, A> {
         Ok(tree)
     }
 
-    pub fn from_leaves_unchecked(data: &'a mut [Leaf<'a, T, A>], d: DIST<T>) -> Self {
-        let dim = data[0].dim();
+    /// Data can be empty, in which case no point will ever be found.
+    pub fn from_leaves_unchecked(data: &'a mut [Leaf<'a, T, A>], dim: usize, d: DIST<T>) -> Self {
         let mut tree = KDT::new_empty(dim, suggest_capacity(dim), d);
         for leaf in data.iter().copied() {
             tree.add_unchecked(leaf, 0);
diff --git a/src/num_ext/entrophies.rs b/src/num_ext/entrophies.rs
index b0d10ac..0b4890f 100644
--- a/src/num_ext/entrophies.rs
+++ b/src/num_ext/entrophies.rs
@@ -46,7 +46,7 @@ fn pl_approximate_entropy(
         .map(|sl| ((), &sl[..ncols_minus_1]).into())
         .collect::<Vec<_>>();
 
-    let tree = KDT::from_leaves_unchecked(&mut leaves, DIST::LINF);
+    let tree = KDT::from_leaves_unchecked(&mut leaves, ncols_minus_1, DIST::LINF);
 
     let nrows_recip = (nrows as f64).recip();
     let phi_m = if can_parallel {
@@ -75,7 +75,7 @@ fn pl_approximate_entropy(
         .map(|sl| ((), sl).into())
         .collect::<Vec<_>>();
 
-    let tree = KDT::from_leaves_unchecked(&mut leaves2, DIST::LINF);
+    let tree = KDT::from_leaves_unchecked(&mut leaves2, ncols, DIST::LINF);
 
     let nrows_minus_1_recip = 1.0 / (nrows_minus_1 as f64);
     let phi_m1 = if can_parallel {
@@ -131,7 +131,7 @@ fn pl_sample_entropy(
         .collect::<Vec<_>>();
 
     // let mut leaves = matrix_to_empty_leaves(&data_1_view);
-    let tree = KDT::from_leaves_unchecked(&mut leaves, DIST::LINF);
+    let tree = KDT::from_leaves_unchecked(&mut leaves, ncols_minus_1, DIST::LINF);
 
     let b = if can_parallel {
         data.chunks_exact(ncols)
@@ -155,7 +155,7 @@ fn pl_sample_entropy(
         .map(|sl| ((), sl).into())
         .collect::<Vec<_>>();
 
-    let tree = KDT::from_leaves_unchecked(&mut leaves2, DIST::LINF);
+    let tree = KDT::from_leaves_unchecked(&mut leaves2, ncols, DIST::LINF);
     let a = if can_parallel {
         data.chunks_exact(ncols)
             .take(nrows_minus_1)
@@ -241,11 +241,11 @@ fn pl_knn_entropy(
     let (cd, log_d) = if metric_str == "l2" {
         let half_d: f64 = d / 2.0;
         let cd = std::f64::consts::PI.powf(half_d) / (2f64.powf(d)) / (1.0 + half_d).gamma();
-        let tree = KDT::from_leaves_unchecked(&mut leaves, DIST::L2);
+        let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, DIST::L2);
         (cd, _knn_entropy_helper(tree, &data, k, can_parallel))
     } else if metric_str == "inf" {
         let cd = 1.0;
-        let tree = KDT::from_leaves_unchecked(&mut leaves, DIST::LINF);
+        let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, DIST::LINF);
         (cd, _knn_entropy_helper(tree, &data, k, can_parallel))
     } else {
         return Err(PolarsError::ComputeError(
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 603f58a..bb9b681 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -112,7 +112,7 @@ fn pl_knn_avg(
     let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, &null_mask);
 
     let tree = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
-        Ok(d) => Ok(KDT::from_leaves_unchecked(&mut leaves, d)),
+        Ok(d) => Ok(KDT::from_leaves_unchecked(&mut leaves, ncols, d)),
         Err(e) => Err(e),
     }
     .map_err(|err| PolarsError::ComputeError(err.into()))?;
@@ -228,7 +228,7 @@ fn pl_dist_from_kth_nb(
             let mut leaves: Vec<Leaf<f64, ()>> =
                 data.chunks_exact(ncols).map(|sl| ((), sl).into()).collect();
             // let mut leaves = row_major_slice_to_leaves(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
             let nrows = data.len() / ncols;
             let ca = if can_parallel {
                 let n_threads = POOL.current_num_threads();
@@ -309,7 +309,7 @@ fn pl_knn_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, keep_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
             Ok(knn_ptwise(
                 tree,
                 eval_mask,
@@ -474,7 +474,7 @@ fn pl_knn_ptwise_w_dist(
     let (ca_nb, ca_dist) = match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = row_major_slice_to_leaves_filtered(&data, ncols, id, null_mask);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
             Ok(knn_ptwise_w_dist(
                 tree,
                 eval_mask,
@@ -572,7 +572,7 @@ fn pl_query_radius_ptwise(
     match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
         Ok(d) => {
             let mut leaves = slice_to_leaves(&data, ncols, id);
-            let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+            let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
             Ok(query_radius_ptwise(tree, &data, radius, can_parallel, sort).into_series())
         }
         Err(e) => Err(PolarsError::ComputeError(e.into())),
@@ -677,7 +677,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
                 Ok(query_nb_cnt(tree, &data, r, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
@@ -688,7 +688,7 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-                let tree = KDT::from_leaves_unchecked(&mut leaves, d);
+                let tree = KDT::from_leaves_unchecked(&mut leaves, ncols, d);
                 Ok(query_nb_cnt_w_radius(tree, &data, radius, can_parallel)
                     .with_name("cnt".into())
                     .into_series())
-- 
2.43.0


From ff957a6fcfff906183640f1b953bd1a22fb1dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 003/106] fix: query_nb_cnt gives null, not a panic, when its
 only radius is null

---
 src/num_ext/knn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index bb9b681..043c6c3 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -673,7 +673,9 @@ fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> Po
     let nrows = data.len() / ncols;
 
     if radius.len() == 1 {
-        let r = radius.get(0).unwrap();
+        let Some(r) = radius.get(0) else {
+            return Ok(UInt32Chunked::full_null("cnt".into(), nrows).into_series());
+        };
         match DIST::<f64>::new_from_str_informed(kwargs.metric, ncols) {
             Ok(d) => {
                 let mut leaves = slice_to_empty_leaves(&data, ncols);
-- 
2.43.0


From b9fa62b9848cd94c776bb3ac325c8bcd3305c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 004/106] fix: within_dist_from compares the l2 distance, not
 its square, with the radius

---
 python/polars_ds/exprs/expr_knn.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index e331f19..3cc196f 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -364,7 +364,14 @@ def within_dist_from(
             pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
             <= r
         )
-    elif dist in ("l2", "sql2"):
+    elif dist == "l2":
+        return (
+            pl.sum_horizontal(
+                (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
+            ).sqrt()
+            <= r
+        )
+    elif dist == "sql2":
         return (
             pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth))
             <= r
-- 
2.43.0


From 191a22877f160324581c3debfbda35a321030a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 005/106] fix: KDTree.within and within_count return their
 result for a 1-element radius array

---
 python/polars_ds/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 4210de1..88fd49e 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -152,7 +152,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within(X, rad[0], sort, parallel)
+                return self.within(X, rad[0], sort, return_dist, parallel)
             else:
                 if return_dist:
                     return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel)
@@ -185,7 +185,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within_count(X, rad[0], parallel)
+                return self.within_count(X, rad[0], parallel)
             else:
                 return self.kdt.within_count_vec_r(X, rad, parallel)
         else:
-- 
2.43.0


From 18c432723f67729032ae23ef4f256a8e1e36fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 006/106] fix: KDTree.within and within_count refuse points of
 another dimension

---
 python/polars_ds/spatial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 88fd49e..a1e267c 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -142,6 +142,8 @@ class KDTree:
         """
         if X.ndim != 2:
             raise ValueError("Input `X` is not a matrix.")
+        if X.shape[1] != self.kdt.dim():
+            raise ValueError("Dimension doesn't match.")
 
         if isinstance(r, (int, float)):
             rad = float(r)
@@ -179,6 +181,8 @@ class KDTree:
         """
         if X.ndim != 2:
             raise ValueError("Input `X` is not a matrix.")
+        if X.shape[1] != self.kdt.dim():
+            raise ValueError("Dimension doesn't match.")
 
         if isinstance(r, (int, float)):
             return self.kdt.within_count(X, float(r), parallel)
-- 
2.43.0


From ef4fc9e5d093952f54e2354f66eea19ee2282367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 007/106] fix: is_knn_from compares ranks of one evaluation of
 the distances

sum_horizontal adds the columns up on the pool in any order, so two evaluations of
the same distances can differ in the last digit; comparing one with the k-th smallest
of the other dropped the nearest row under some schedules.
---
 python/polars_ds/exprs/expr_knn.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index 3cc196f..d2eb5e1 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -408,6 +408,12 @@ def within_dist_from(
         raise ValueError(f"Unknown distance function: {dist}")
 
 
+def _is_k_smallest(dist: pl.Expr, k: int) -> pl.Expr:
+    # Ranks, so that the distances are compared with themselves. A second evaluation of the same
+    # expression may round differently, because the pool adds up the columns in any order.
+    return (dist.rank(method="min") <= k) & dist.is_not_nan()
+
+
 def is_knn_from(
     *features: str | pl.Expr,
     pt: Iterable[float],
@@ -437,17 +443,17 @@ def is_knn_from(
         dist_out = pl.sum_horizontal(
             (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
         )
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_k_smallest(dist_out, k)
     elif dist in ("l2", "sql2"):
         dist_out = pl.sum_horizontal(
             (e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)
         )
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_k_smallest(dist_out, k)
     elif dist == "inf":
         dist_out = pl.max_horizontal(
             (e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth)
         )
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_k_smallest(dist_out, k)
     elif dist == "cosine":
         x_list = list(pt)
         x_norm = sum(z * z for z in x_list)
@@ -456,7 +462,7 @@ def is_knn_from(
             1.0
             - pl.sum_horizontal(xi * e for xi, e in zip(x_list, oth)) / (x_norm * oth_norm).sqrt()
         )
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_k_smallest(dist_out, k)
     elif dist in ("h", "haversine"):
         from . import haversine
 
@@ -470,7 +476,7 @@ def is_knn_from(
         y_lat = pl.lit(pt_as_list[0], dtype=pl.Float64)
         y_long = pl.lit(pt_as_list[1], dtype=pl.Float64)
         dist_out = haversine(oth[0], oth[1], y_lat, y_long)
-        return dist_out <= dist_out.bottom_k(k=k).max()
+        return _is_k_smallest(dist_out, k)
     else:
         raise ValueError(f"Unknown distance function: {dist}")
 
-- 
2.43.0


From 134ac7d6f5dd39d93dee80ece646c7c122551bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 008/106] fix: query_permute_entropy takes each series' own
 windows inside a group_by

---
 python/polars_ds/exprs/ts_features.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index be1d257..76b5e7d 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -764,20 +764,17 @@ def query_permute_entropy(
     t = str_to_expr(ts)
     if tau == 1:  # Fast track the most common use case
         return (
-            pl.concat_list(t, *(t.shift(-i) for i in range(1, n_dims)))
-            .head(t.len() - n_dims + 1)
+            # head() on the columns, because head() on the list column picks wrong rows in group_by
+            pl.concat_list(*(t.shift(-i).head(t.len() - n_dims + 1) for i in range(n_dims)))
             .list.eval(pl.element().arg_sort())
             .value_counts()  # groupby and count, but returns a struct
             .struct.field("count")  # extract the field named "count"
             .entropy(base=base, normalize=True)
         )
     else:
+        rows = (t.len() // tau) + 1 - (n_dims // tau)
         return (
-            pl.concat_list(
-                t.gather_every(tau),
-                *(t.shift(-i).gather_every(tau) for i in range(1, n_dims)),
-            )
-            .slice(0, length=(t.len() // tau) + 1 - (n_dims // tau))
+            pl.concat_list(*(t.shift(-i).gather_every(tau).head(rows) for i in range(n_dims)))
             .list.eval(pl.element().arg_sort())
             .value_counts()
             .struct.field("count")
-- 
2.43.0


From edb973baabab994d9a9bb320b5526d683a89904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 009/106] fix: query_similar_count works with sqzl2 inside a
 group_by

---
 python/polars_ds/exprs/ts_features.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 76b5e7d..017040a 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -286,14 +286,15 @@ def query_similar_count(
         )
     elif metric == "sqzl2":  # pl_subseq_sim_cnt_zl2
         rolling_mean = t.rolling_mean(window_size=len(q)).slice(len(q) - 1, None)
-        rolling_var = pl.max_horizontal(
-            t.rolling_var(window_size=len(q)).slice(len(q) - 1, None).fill_nan(1e-10),
-            pl.lit(1e-10, dtype=pl.Float64),
+        rolling_var = (
+            t.rolling_var(window_size=len(q))
+            .slice(len(q) - 1, None)
+            .fill_nan(1e-10)
+            .clip(lower_bound=1e-10)
         )
-        qq = pl.lit(q)
         args = [
             t.cast(pl.Float64).rechunk(),
-            ((qq - qq.mean()) / qq.std()).rechunk(),
+            ((q - q.mean()) / q.std()).rechunk(),
             rolling_mean.rechunk(),
             rolling_var.rechunk(),
         ]
-- 
2.43.0


From 89bda0ed83c886db080738e3aee82a374578e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 010/106] fix: integrate_trapz accepts an x column of several
 chunks

---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 843b783..0ba4ec2 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -742,7 +742,7 @@ def integrate_trapz(y: str | pl.Expr, x: float | pl.Expr) -> pl.Expr:
     if isinstance(x, float):
         xx = pl.lit(abs(x), pl.Float64)
     else:
-        xx = str_to_expr(x).cast(pl.Float64)
+        xx = str_to_expr(x).cast(pl.Float64).rechunk()
 
     return pl_plugin(
         symbol="pl_trapz",
-- 
2.43.0


From d80e78a6d4d2b481873c84bec21b958fc86c1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 011/106] fix: query_approx_entropy gives NaN, not a panic,
 when the standard deviation is null

---
 src/num_ext/entrophies.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/entrophies.rs b/src/num_ext/entrophies.rs
index 0b4890f..868c69e 100644
--- a/src/num_ext/entrophies.rs
+++ b/src/num_ext/entrophies.rs
@@ -27,7 +27,7 @@ fn pl_approximate_entropy(
     if radius.len() != 1 {
         return Err(PolarsError::ComputeError("Radius must be a scalar.".into()));
     }
-    let r = radius.get(0).unwrap();
+    let r = radius.get(0).unwrap_or(-1f64); // see return below
     let name = inputs[1].name();
     let ncols = inputs[1..].len();
     let data = series_to_row_major_slice::<Float64Type>(&inputs[1..])?;
-- 
2.43.0


From cd3492f81e8df87083cdb584595374ce2cf3d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 012/106] fix: ROC AUC counts the last step of the curve when
 the top scores are tied

---
 src/num_ext/tp_fp.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3bf7de3..bca535a 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -22,6 +22,16 @@ fn tpr_fpr_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("tpr_fpr".into(), DataType::Struct(v)))
 }
 
+/// Area under the ROC curve. The points are ordered by threshold, from (1, 1) downwards, and the
+/// curve ends at (0, 0), which is not among them.
+fn roc_area(tpr: &[f64], fpr: &[f64]) -> f64 {
+    let end = match (tpr, fpr) {
+        ([_, .., y], [_, .., x]) => 0.5 * y * x,
+        _ => 0., // trapz does the same for a single point
+    };
+    end - super::trapz::trapz(tpr, fpr)
+}
+
 fn tp_fp_frame(
     predicted: &Series,
     actual: &Series,
@@ -126,7 +136,7 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?; // Zero copy
     let x = x.cont_slice()?; // Zero copy
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = roc_area(y, x);
     let auc: Series = Series::from_vec("roc_auc".into(), vec![auc]);
 
     // Average Precision
@@ -237,7 +247,7 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     let y = y.cont_slice()?;
     let x = x.cont_slice()?;
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = roc_area(y, x);
     Ok(Series::from_vec("roc_auc".into(), vec![auc]))
 }
 
-- 
2.43.0


From 415be60bc293209007244008a0d9dfcac7f46f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 013/106] fix: average precision counts the rows at the top
 score

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index bca535a..efff3d2 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -142,7 +142,7 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     // Average Precision
     let ap: f64 = -1.0
         * y.iter()
-            .zip(y.iter().skip(1))
+            .zip(y.iter().skip(1).chain(std::iter::once(&0.))) // recall is 0 above the top score
             .zip(precision)
             .fold(0., |acc, ((y, y_next), p)| (y_next - y).mul_add(*p, acc));
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
-- 
2.43.0


From e59db5e9a7bbedbd5dd82a6d56d2e412401b0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 014/106] fix: query_binary_metrics accepts a threshold above
 every score

---
 src/num_ext/tp_fp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index efff3d2..cce7be9 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -148,8 +148,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let ap: Series = Series::from_vec("average_precision".into(), vec![ap]);
 
     // Precision & Recall & F
-    let recall = y[index];
-    let precision = precision[index];
+    let (recall, precision) = match (y.get(index), precision.get(index)) {
+        (Some(r), Some(p)) => (*r, *p),
+        _ => (0., f64::NAN), // nothing is predicted positive
+    };
     let f: f64 = 2.0 * (precision * recall) / (precision + recall);
     let recall: Series = Series::from_vec("recall".into(), vec![recall]);
     let precision: Series = Series::from_vec("precision".into(), vec![precision]);
-- 
2.43.0


From 75281d93f631debfda30df749cd73da44e28fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 015/106] fix: query_binary_metrics declares the field
 average_precision under its name

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index cce7be9..d7c5c00 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -9,7 +9,7 @@ fn combo_output(_: &[Field]) -> PolarsResult<Field> {
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
-    let avg_precision = Field::new("avg_precision".into(), DataType::Float64);
+    let avg_precision = Field::new("average_precision".into(), DataType::Float64);
     let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
-- 
2.43.0


From 61dbdbe9d368e98de618670bd6f4a1bb378dbc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 016/106] fix: query_binary_metrics and query_tpr_fpr keep
 their fields when a group has no positives

---
 src/num_ext/tp_fp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index d7c5c00..91d0d49 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -108,7 +108,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     let positive_count = actual.sum::<u32>().unwrap_or(0);
     if positive_count == 0 {
-        return Ok(Series::from_iter([f64::NAN]));
+        let nans = ["precision", "recall", "f", "average_precision", "roc_auc"]
+            .map(|name| Series::from_vec(name.into(), vec![f64::NAN]));
+        let out = StructChunked::from_series("metrics".into(), 1, nans.iter())?;
+        return Ok(out.into_series());
     }
 
     let mut binding = tp_fp_frame(predicted, actual, positive_count, true)?.collect()?;
@@ -173,12 +176,13 @@ fn pl_tpr_fpr(inputs: &[Series]) -> PolarsResult<Series> {
     let positive_cnt = actual.sum::<u32>().unwrap_or(0);
 
     if positive_cnt == 0 {
+        let threshold = Series::from_vec("threshold".into(), vec![f64::NAN]);
         let tpr = Series::from_vec("tpr".into(), vec![f64::NAN]);
         let fpr = Series::from_vec("fpr".into(), vec![f64::NAN]);
         let ca = StructChunked::from_columns(
             "tpr_fpr".into(),
             1,
-            &[tpr.into_column(), fpr.into_column()],
+            &[threshold.into_column(), tpr.into_column(), fpr.into_column()],
         )?;
         Ok(ca.into_series())
     } else {
-- 
2.43.0


From ce7f87a4582741629006c8c09938961e31b08c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 017/106] fix: query_mcc no longer overflows on large counts

---
 src/num_ext/tp_fp.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 91d0d49..d727a3a 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -214,17 +214,14 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let combined_series = combined_series.u32()?;
     let cm = binary_confusion_matrix(combined_series);
 
-    let n00 = cm[0];
-    let n01 = cm[1];
-    let n10 = cm[2];
-    let n11 = cm[3];
+    let [n00, n01, n10, n11] = cm.map(f64::from);
 
-    let n1_ = (n11 + n10) as f64;
-    let n_1 = (n11 + n01) as f64;
-    let n0_ = (n01 + n00) as f64;
-    let n_0 = (n10 + n00) as f64;
+    let n1_ = n11 + n10;
+    let n_1 = n11 + n01;
+    let n0_ = n01 + n00;
+    let n_0 = n10 + n00;
 
-    let phi = ((n11 * n00) as f64 - (n10 * n01) as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
+    let phi = (n11 * n00 - n10 * n01) / (n1_ * n_1 * n0_ * n_0).sqrt();
     Ok(Series::from_iter([phi]))
 }
 
-- 
2.43.0


From 7ddf807babf548b43784359bc7896444576a2ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 018/106] fix: confusion matrix and MCC skip rows with nulls
 instead of counting what lies under them

---
 src/num_ext/tp_fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index d727a3a..1dff1eb 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -201,7 +201,7 @@ fn binary_confusion_matrix(combined_series: &UInt32Chunked) -> [u32; 4] {
     // At Python side, actual and pred columns were turned into boolean first. So
     // no invalid indices will happen.
     let mut output = [0u32; 4];
-    for i in combined_series.into_no_null_iter() {
+    for i in combined_series.iter().flatten() {
         let j = i % 4; // to make this safe
         output[j as usize] += 1;
     }
-- 
2.43.0


From e1efdc2bcc54674fcefd8b2ec865484f520900f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 019/106] fix: jaccard_col leaves nulls out, or counts them as
 one element, as asked

---
 src/num_ext/jaccard.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d3c139a..0ee9a58 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -92,15 +92,12 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
 
-    let (s1, s2) = (inputs[0].clone(), inputs[1].clone());
+    // Nulls count as one more element of their column, if they count
+    let null1 = (count_null && inputs[0].has_nulls()) as usize;
+    let null2 = (count_null && inputs[1].has_nulls()) as usize;
 
-    let adj = if count_null {
-        (s1.has_nulls() && s2.has_nulls()) as usize // adjust for null
-    } else {
-        0
-    };
-
-    // All computation below assumes the input has no nulls, that is why we have the adj
+    // All computation below assumes the input has no nulls
+    let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
 
     // God, help me with this unholy mess,
     let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
@@ -221,7 +218,8 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ));
     };
 
-    let adjusted = intersection_size + adj;
-    let out = adjusted as f64 / (len1 + len2).abs_diff(adjusted) as f64;
+    let intersection_size = intersection_size + (null1 & null2);
+    let union_size = len1 + null1 + len2 + null2 - intersection_size;
+    let out = intersection_size as f64 / union_size as f64;
     Ok(Series::from_iter([out]))
 }
-- 
2.43.0


From ad0875b5ffb975069b7f7974283e2132e443ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 020/106] fix: query_first_digit_cnt leaves nulls out

---
 src/num_ext/benford.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/benford.rs b/src/num_ext/benford.rs
index dfcee45..72c8ae3 100644
--- a/src/num_ext/benford.rs
+++ b/src/num_ext/benford.rs
@@ -18,7 +18,7 @@ fn first_digit<T: Integer + Copy>(u: T) -> T {
 #[polars_expr(output_type_func=list_u32_output)]
 fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
     let mut out = [0; 10];
-    let s = &inputs[0];
+    let s = &inputs[0].drop_nulls();
     match s.dtype() {
         DataType::UInt8 => {
             let ss = s.u8().unwrap();
-- 
2.43.0


From b8f666ed081baab9fa6240f5349bf9bdbf7e61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 021/106] fix: psi_discrete pairs each category with its own
 count

---
 python/polars_ds/exprs/num.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 0ba4ec2..c3cfb97 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -514,7 +514,8 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().struct.rename_fields(["", "count"])
+        # sorted, because the order of value_counts can differ between the two evaluations below
+        temp = new_.value_counts().sort().struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -525,7 +526,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().struct.rename_fields(["", "count"])
+        temp = base.value_counts().sort().struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


From a96fc4f297d32c2368606bed62b42e243208250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 022/106] fix: psi_discrete's report declares its own fields

---
 src/num_ext/psi.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d80790f..d644e63 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -11,6 +11,18 @@ fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("psi_report".into(), DataType::Struct(v)))
 }
 
+fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    // Inputs are actual categories, actual counts, baseline categories, baseline counts
+    let v: Vec<Field> = vec![
+        Field::new("baseline_category".into(), fields[2].dtype().clone()),
+        Field::new("actual_category".into(), fields[0].dtype().clone()),
+        Field::new("baseline_pct".into(), DataType::Float64),
+        Field::new("actual_pct".into(), DataType::Float64),
+        Field::new("psi_bin".into(), DataType::Float64),
+    ];
+    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+}
+
 /// Computes counts in each bucket given by the breakpoints in
 /// a PSI computation. This returns the count for the first series
 /// and the count for the second series.
@@ -117,7 +129,7 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 }
 
 /// Discrete PSI report
-#[polars_expr(output_type_func=psi_report_output)]
+#[polars_expr(output_type_func=psi_discrete_report_output)]
 fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
     let df1 = df!(
         "actual_cat" => &inputs[0], // data cats
-- 
2.43.0


From 8824f6def94ab38e9835351fd8b79a27555cdc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 023/106] fix: psi_discrete counts null as one category on both
 sides

---
 src/num_ext/psi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d644e63..5f06291 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -140,13 +140,17 @@ fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
         "baseline_cnt" => &inputs[3], // ref cnt
     )?;
 
+    // null is a category by itself, so nulls on both sides have to match
+    let mut join_args = JoinArgs::new(JoinType::Full);
+    join_args.join_nulls = true;
+
     let psi_report = df1
         .lazy()
         .join(
             df2.lazy(),
             [col("actual_cat")],
             [col("baseline_cat")],
-            JoinArgs::new(JoinType::Full),
+            join_args,
         )
         .with_columns([
             col("baseline_cnt").fill_null(0),
-- 
2.43.0


From c2409d201c1013480f548ab9cbe19e1df1707f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 024/106] fix: confusion matrix metrics are ratios of floats,
 not integer divisions

---
 src/num_ext/tp_fp.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 1dff1eb..b74835b 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -336,19 +336,28 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
 
     let df = DataFrame::new(vec![tn, fp, fn_, tp])?;
 
+    // u32 / u32 is an integer division, so the ratios are of floats. 0 / 0 is then NaN.
+    let cnt = |name: &str| col(name).cast(DataType::Float64);
+    // NaN, not inf, when the denominator is 0
+    let ratio = |x: &str, y: &str| {
+        when(col(y).neq(lit(0.0)))
+            .then(col(x) / col(y))
+            .otherwise(lit(f64::NAN))
+    };
+
     let result = df
         .lazy()
         .with_columns([
-            (col("tp") + col("fn")).alias("p"),
-            (col("fp") + col("tn")).alias("n"),
+            (cnt("tp") + cnt("fn")).alias("p"),
+            (cnt("fp") + cnt("tn")).alias("n"),
         ])
         .with_columns([
-            (col("tp") / col("p")).alias("tpr"),
-            (col("fp") / col("n")).alias("fpr"),
-            (col("tp") / (col("tp") + col("fp"))).alias("precision"),
-            (col("fn") / (col("fn") + col("tn"))).alias("false_omission_rate"),
+            (cnt("tp") / col("p")).alias("tpr"),
+            (cnt("fp") / col("n")).alias("fpr"),
+            (cnt("tp") / (cnt("tp") + cnt("fp"))).alias("precision"),
+            (cnt("fn") / (cnt("fn") + cnt("tn"))).alias("false_omission_rate"),
             (col("p") / (col("p") + col("n"))).alias("prevalence"),
-            (col("tp") / (col("tp") + col("fn") + col("fp"))).alias("threat_score"),
+            (cnt("tp") / (cnt("tp") + cnt("fn") + cnt("fp"))).alias("threat_score"),
         ])
         .with_columns([
             (lit(1) - col("tpr")).alias("fnr"),
@@ -357,8 +366,8 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             (lit(1) - col("precision")).alias("fdr"),
         ])
         .with_columns([
-            (col("tpr") / col("fpr")).alias("plr"),
-            (col("fnr") / col("tnr")).alias("nlr"),
+            ratio("tpr", "fpr").alias("plr"),
+            ratio("fnr", "tnr").alias("nlr"),
             (col("tpr") + col("tnr") - lit(1)).alias("informedness"),
             (col("precision") - col("false_omission_rate")).alias("markedness"),
             (((col("tpr") * col("fpr")).sqrt() - col("fpr")) / (col("tpr") - col("fpr")))
@@ -370,9 +379,9 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             ((col("tpr") * col("tnr") * col("precision") * col("npv")).sqrt()
                 - (col("fnr") * col("fpr") * col("false_omission_rate") * col("fdr")).sqrt())
             .alias("mcc"),
-            ((col("tp") + col("tn")) / (col("p") + col("n"))).alias("acc"),
+            ((cnt("tp") + cnt("tn")) / (col("p") + col("n"))).alias("acc"),
         ])
-        .with_columns([(col("plr") / col("nlr")).alias("dor")])
+        .with_columns([ratio("plr", "nlr").alias("dor")])
         .select(&[
             col("tp"),
             col("tn"),
@@ -400,7 +409,6 @@ fn pl_binary_confusion_matrix(inputs: &[Series]) -> PolarsResult<Series> {
             col("npv"),
             col("dor"),
         ])
-        .fill_null(f64::NAN) // In Rust dividing by 0 results in Null for some reason.
         .collect()?;
 
     let out = result.into_struct("confusion_matrix".into());
-- 
2.43.0


From eb8785e44c5572079fac9dcd62ec33c3929b47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 025/106] fix: calculate_ndcg uses the group column it is given

---
 python/polars_ds/exprs/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 54070b0..7935aa9 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -725,7 +725,7 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
-    ignore_flag = df.group_by("example_id").len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
+    ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
     else:
@@ -736,8 +736,8 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
                                                    group_col, sort_by_column=relevance_col, k=k)
     ideal_dcg_per_group = ideal_dcg_per_group.rename({"discounted_relevance": "discounted_ideal_relevance"})
     
-    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on ='example_id')
-    ndcg_df = ndcg_df.join(ignore_flag, on='example_id')
+    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on=group_col)
+    ndcg_df = ndcg_df.join(ignore_flag, on=group_col)
     
     ndcg_df = ndcg_df.with_columns((pl.col('discounted_relevance')/pl.col('discounted_ideal_relevance')).alias('ndcg'))
     
@@ -845,20 +845,20 @@ def _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column, k):
     df = _get_rank_discount_at_k(df, k, group_col)
 
     df = df.with_columns((pl.col(relevance_col) * pl.col("discount")).alias("discounted_relevance"))
-    df = df.with_columns(pl.col('discount').cum_sum().over('example_id').flatten().alias('discount_cumsum'))
+    df = df.with_columns(pl.col('discount').cum_sum().over(group_col).flatten().alias('discount_cumsum'))
     df = df.with_columns(
             pl.col(sort_by_column)
             .rank(method='min', descending=True)
-            .over('example_id')
+            .over(group_col)
             .alias("rank_groups")
         )
 
-    df_diff = df.group_by('example_id', 'rank_groups').agg(pl.col('discount_cumsum').last(), 
+    df_diff = df.group_by(group_col, 'rank_groups').agg(pl.col('discount_cumsum').last(), 
                                                         pl.col(relevance_col).sum(),
                                                           pl.len().alias('num_rows')).sort('rank_groups')
-    df_diff.sort('example_id', 'rank_groups')
+    df_diff.sort(group_col, 'rank_groups')
 
-    df_diff = df_diff.group_by('example_id').agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
+    df_diff = df_diff.group_by(group_col).agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
                                                  pl.col(relevance_col), 
                                                  pl.col('discount_cumsum'),
                                                  pl.col('rank_groups'), 
-- 
2.43.0


From 3e70ead35dfb12b34fbae1ec2c3375fd8872a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 026/106] fix: psi accepts values above the last break of a
 baseline with nothing above it

---
 src/num_ext/psi.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index 5f06291..b066572 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -118,7 +118,12 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
     let binding = new.rechunk();
     let data_new = binding.cont_slice().unwrap();
     let binding = brk.rechunk();
-    let ref_brk = binding.cont_slice().unwrap();
+    let mut ref_brk = binding.cont_slice().unwrap().to_vec();
+    // The last interval always ends at inf, even if no baseline value is above the last break
+    if let Some(last) = ref_brk.last_mut() {
+        *last = f64::INFINITY;
+    }
+    let ref_brk = ref_brk.as_slice();
     let binding = cnt.rechunk();
     let ref_cnt = binding.cont_slice().unwrap();
 
-- 
2.43.0


From 54b34841008ca9f978bf63790cafe4108f57537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 027/106] fix: str_lcs_seq finds its similarity plugin

---
 src/str_ext/lcs_seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index e09424f..9f9d37a 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -36,7 +36,7 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
 }
 
 #[polars_expr(output_type=Float64)]
-fn pl_lcs_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
+fn pl_lcs_seq_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
     let parallel = inputs[2].bool()?;
-- 
2.43.0


From 70f316b67b75dfd64539eba9bb489ca5a23b09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 028/106] fix: str_fuzz declares the Float64 it returns

---
 src/str_ext/fuzz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 48f92bc..965e2e6 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
-- 
2.43.0


From 437fc05cd06f73816689932e8ea033899240f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 029/106] fix: comparing strings with a null constant gives
 null, not a panic

---
 src/str_ext/fuzz.rs          |  9 +++++++-
 src/str_ext/hamming.rs       | 27 +++++++++++++++++++---
 src/str_ext/jaro.rs          | 18 +++++++++++++--
 src/str_ext/lcs_seq.rs       | 18 +++++++++++++--
 src/str_ext/levenshtein.rs   | 45 ++++++++++++++++++++++++++++++++----
 src/str_ext/osa.rs           | 18 +++++++++++++--
 src/str_ext/overlap.rs       |  9 +++++++-
 src/str_ext/sorensen_dice.rs |  9 +++++++-
 src/str_ext/str_jaccard.rs   |  9 +++++++-
 src/str_ext/tversky.rs       |  9 +++++++-
 10 files changed, 152 insertions(+), 19 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 965e2e6..5be5afd 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -20,7 +20,14 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = RatioBatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index a7642c4..3b4384f 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -29,7 +29,14 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -119,7 +126,14 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let can_parallel = parallel && !context.parallel();
     let padding = hamming::Args::default().pad(true);
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -176,7 +190,14 @@ fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Boolean,
+            ));
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             POOL.install(|| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 441c64c..9831ab0 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -33,7 +33,14 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = jaro::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -55,7 +62,14 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = jaro_winkler::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index 9f9d37a..fea680c 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -23,7 +23,14 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +50,14 @@ fn pl_lcs_seq_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 4a56040..ce74e06 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -50,7 +50,14 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -72,7 +79,14 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Boolean,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -135,7 +149,14 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -155,7 +176,14 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -180,7 +208,14 @@ fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResu
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index 3496955..de76c97 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -23,7 +23,14 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::UInt32,
+            ));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +50,14 @@ fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index 67e4580..b78ea81 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -32,7 +32,14 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index f3e9a79..3cfa62a 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -32,7 +32,14 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index 891e723..ba018aa 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -33,7 +33,14 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap(); // .unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 936f7ff..3239c40 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -41,7 +41,14 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        // Comparing with a null constant gives null
+        let Some(r) = ca2.get(0) else {
+            return Ok(Series::full_null(
+                ca1.name().clone(),
+                ca1.len(),
+                &DataType::Float64,
+            ));
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
-- 
2.43.0


From 2ff69214d6edceffaf2955e9a74de4a42c3b840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 030/106] fix: an n-gram similarity with one empty string is 0,
 not NaN

---
 src/str_ext/mod.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/str_ext/mod.rs b/src/str_ext/mod.rs
index c7b2380..8a237ec 100644
--- a/src/str_ext/mod.rs
+++ b/src/str_ext/mod.rs
@@ -27,20 +27,19 @@ pub fn str_set_sim_helper(w1: &str, w2: &str, ngram: usize) -> (usize, usize, us
     let w1_len = w1.len();
     let w2_len = w2.len();
 
-    // as long as intersection size is 0, output will be correct
-    if (w1_len == 0) || (w2_len == 0) {
-        return (0, 0, 0);
-    }
-
-    // Both are nonempty
     // Another version that has slices of size <= n?
-    let s1: HashSet<&[u8]> = if w1_len < ngram {
+    // The empty string has no substrings, so its set is empty.
+    let s1: HashSet<&[u8]> = if w1_len == 0 {
+        HashSet::new()
+    } else if w1_len < ngram {
         HashSet::from_iter([w1.as_bytes()])
     } else {
         HashSet::from_iter(w1.as_bytes().windows(ngram))
     };
 
-    let s2: HashSet<&[u8]> = if w2_len < ngram {
+    let s2: HashSet<&[u8]> = if w2_len == 0 {
+        HashSet::new()
+    } else if w2_len < ngram {
         HashSet::from_iter([w2.as_bytes()])
     } else {
         HashSet::from_iter(w2.as_bytes().windows(ngram))
-- 
2.43.0


From 55e8ef31296a74c5bcdc3f6db636bb2fc0d3ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 031/106] fix: str_nearest never returns what lies under a null

---
 src/str_ext/nearest_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 2ad6c07..309ebdb 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -17,7 +17,7 @@ fn levenshtein_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) ->
     let mut actual_cutoff = levenshtein::Args::default().score_cutoff(cutoff);
     let mut nearest_str: Option<&str> = None;
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Some(d) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if d == 0 {
                     return Some(w);
@@ -39,7 +39,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     let mut nearest_str: Option<&str> = None;
 
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Ok(ss) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if let Some(d) = ss {
                     if d == 0 {
-- 
2.43.0


From 8091d490d9060d84330f9c81edf7dd88b3e49dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 032/106] fix: str_fuzz against a constant gives the indel
 ratio

---
 src/str_ext/fuzz.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 5be5afd..55bc2b6 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -10,7 +10,7 @@ use pyo3_polars::{
         POOL,
     },
 };
-use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
+use rapidfuzz::{distance::indel, fuzz::ratio};
 
 #[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
@@ -28,21 +28,24 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
                 &DataType::Float64,
             ));
         };
-        let batched = RatioBatchComparator::new(r.chars());
+        // Not RatioBatchComparator: it gives the normalized LCS similarity, unlike ratio
+        let batched = indel::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
                 let s1 = ca1.slice(offset as i64, len);
                 let out: Float64Chunked = s1.apply_nonnull_values_generic(DataType::Float64, |s| {
-                    batched.similarity(s.chars())
+                    batched.normalized_similarity(s.chars())
                 });
                 out.downcast_iter().cloned().collect::<Vec<_>>()
             });
             let chunks = POOL.install(|| chunks_iter.collect::<Vec<_>>());
             Float64Chunked::from_chunk_iter(ca1.name().clone(), chunks.into_iter().flatten())
         } else {
-            ca1.apply_nonnull_values_generic(DataType::Float64, |s| batched.similarity(s.chars()))
+            ca1.apply_nonnull_values_generic(DataType::Float64, |s| {
+                batched.normalized_similarity(s.chars())
+            })
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-- 
2.43.0


From f76425e7f33cb2f4b1745e70dc7ad9c1c3e148fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 033/106] fix: similar_to_vocab can use the jw metric

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index f8c7f46..92dba7d 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -696,7 +696,7 @@ def similar_to_vocab(
     elif metric == "osa":
         sims = [str_osa(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
     elif metric == "jw":
-        sims = [str_jw(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
+        sims = [str_jw(c, pl.lit(w, dtype=pl.String)) for w in vocab]
     else:
         raise ValueError(f"Unknown metric: {metric}")
 
-- 
2.43.0


From e753196fb63b0f4bd4a990e737e89213cf80a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 034/106] fix: query_similar_count refuses a query longer than
 the series for every metric

---
 src/num_ext/subseq_sim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/num_ext/subseq_sim.rs b/src/num_ext/subseq_sim.rs
index e50eb2a..8c392e1 100644
--- a/src/num_ext/subseq_sim.rs
+++ b/src/num_ext/subseq_sim.rs
@@ -76,6 +76,12 @@ fn pl_subseq_sim_cnt_zl2(
     let query = inputs[1].f64()?; // is already z normalized
     let query = query.cont_slice().unwrap();
 
+    if query.len() > seq.len() {
+        return Err(PolarsError::ComputeError(
+            "Not enough data points for the query.".into(),
+        ));
+    }
+
     let rolling_mean = inputs[2].f64()?;
     let rolling_mean = rolling_mean.cont_slice()?;
     let rolling_var = inputs[3].f64()?;
-- 
2.43.0


From 13f1ace913b624d1839efe887de41a2f8516c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 035/106] fix: random columns and noise are not element-wise
 expressions

Marked element-wise they are evaluated once for all groups of a window or group-by
(wrong length, rows of a null-injected column moved between groups) and once per
morsel by the streaming engine, restarting the seeded generator each time.
---
 python/polars_ds/exprs/stats.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 64e6daf..faed95e 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -398,7 +398,6 @@ def perturb(
     return pl_plugin(
         symbol="pl_perturb",
         args=[str_to_expr(x), lo, hi, pl.lit(seed, dtype=pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -428,7 +427,6 @@ def jitter(x: str | pl.Expr, std: float | pl.Expr = 1.0, seed: int | None = None
     return pl_plugin(
         symbol="pl_jitter",
         args=[str_to_expr(x), s, pl.lit(seed, dtype=pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -510,7 +508,6 @@ def random(
     return pl_plugin(
         symbol="pl_random",
         args=[len_, lo, up, pl.lit(seed, pl.UInt64)],
-        is_elementwise=True,
     )
 
 
@@ -570,7 +567,6 @@ def random_int(
             hi,
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -607,7 +603,6 @@ def random_str(
             pl.lit(ma, pl.UInt32),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -639,7 +634,6 @@ def random_binomial(
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -665,7 +659,6 @@ def random_exp(
             pl.lit(lambda_, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
@@ -697,7 +690,6 @@ def random_normal(
             pl.lit(std, pl.Float64) if isinstance(std, float) else std,
             pl.lit(seed, pl.UInt64),
         ],
-        is_elementwise=True,
     )
 
 
-- 
2.43.0


From 3498ec9cc48704535d164377ad7e3043c4caca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 036/106] fix: random_binomial passes n as the unsigned integer
 the plugin reads

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index faed95e..2482cc1 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -630,7 +630,7 @@ def random_binomial(
         symbol="pl_rand_binomial",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(n, pl.Int32),
+            pl.lit(n, pl.UInt32),
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-- 
2.43.0


From 01c2095edae95c7a6e756af2627a328a2134f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 037/106] fix: random_int accepts expressions as bounds

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 2482cc1..c85d2cc 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -553,7 +553,7 @@ def random_int(
     length
         Custom length. Note length needs to match with other columns in the context.
     """
-    if lower == upper:
+    if isinstance(lower, int) and isinstance(upper, int) and lower == upper:
         raise ValueError("Input `lower` must be smaller than `higher`")
 
     lo = pl.lit(lower, pl.Int32) if isinstance(lower, int) else lower.cast(pl.Int32)
-- 
2.43.0


From 33a25864aab32d654ae66baede7f956a475ab7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 038/106] fix: random_str declares strings

---
 src/stats/sample.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e95c2db..d3eacb0 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -184,7 +184,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
-- 
2.43.0


From 2939e7ca965ade4edb87f163f24cbaea7b12b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 039/106] fix: random_cols uses its seed and the columns it can
 pick from

---
 .../sample_and_split/sample_and_split.py        | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5a0c40c..54c947b 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -182,20 +182,13 @@ def random_cols(
     seed
         A random seed
     """
-    if keep is None:
-        out = []
-        to_sample = combinations(all_columns, k)
-    else:
-        out = keep
-        to_sample = combinations((c for c in all_columns if c not in keep), k)
-
-    pool_size = len(all_columns) - len(out)
-    if pool_size < k:
+    out = [] if keep is None else list(keep)
+    pool = [c for c in all_columns if c not in out]
+    if len(pool) < k:
         raise ValueError("Not enough columns to select from.")
 
-    n = random.randrange(0, math.comb(pool_size, k))
-    rand_cols = next(islice(to_sample, n, None), None)
-    return out + list(rand_cols)
+    n = random.Random(seed).randrange(0, math.comb(len(pool), k))
+    return out + list(next(islice(combinations(pool, k), n, None)))
 
 
 def split_by_ratio(
-- 
2.43.0


From a11a2a1aece5ceebd52a19698f3a6a2e69446b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 040/106] fix: downsample keeps rows for which a condition is
 null

---
 python/polars_ds/sample_and_split/sample_and_split.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 54c947b..83240ec 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -157,7 +157,9 @@ def downsample(
     >>>     [(pl.col("y").is_between(1, 2, closed="both"), 0.5)]
     >>> )
     """
-    all_filters = ((_sampler_expr(r, seed).over(c) | (~c)) for c, r in conditions)
+    all_filters = (
+        (_sampler_expr(r, seed).over(c) | (~c).fill_null(True)) for c, r in conditions
+    )
     return df.lazy().filter(pl.lit(True).and_(*all_filters)).collect()
 
 
-- 
2.43.0


From 4a8afe190a054df753ccf3c8520fbed8bcc7c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 041/106] fix: split_by_ratio neither loses rows nor fails on
 an empty part

---
 .../sample_and_split/sample_and_split.py        | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 83240ec..3a4ec99 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -228,10 +228,9 @@ def split_by_ratio(
                     "__tt"
                 )
             )
-            .partition_by("__tt", as_dict=True)
         )
-        train = frames[(True,)].select(pl.col("*").exclude(["__id", "__tt"]))
-        test = frames[(False,)].select(pl.col("*").exclude(["__id", "__tt"]))
+        train = frames.filter(pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
+        test = frames.filter(~pl.col("__tt")).select(pl.col("*").exclude(["__id", "__tt"]))
         return [train, test]
     else: # Should work with iterable (with a length), not just list
         if len(split_ratio) == 1:
@@ -250,12 +249,16 @@ def split_by_ratio(
 
             n = len(df_eager)
             start = 0
+            total = 0.0
             dfs = []
-            for v in split_ratio:
-                length = int(n * v)
+            for i, v in enumerate(split_ratio):
+                total += v
+                end = n if i == len(split_ratio) - 1 else round(n * total)
                 dfs.append(
-                    df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
+                    df_eager.slice(start, length=end - start).select(
+                        pl.col("*").exclude(["__id", "__tt"])
+                    )
                 )
-                start += length
+                start = end
 
             return dfs
-- 
2.43.0


From 9524b66743d960c6af5cdc276934eee8d6f57ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 042/106] fix: imputing with the mode works

mode() gives plain values, not a list; of several modes the smallest is taken, so that
fitting twice learns the same constant.
---
 python/polars_ds/modeling/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index bf139cc..2466ef1 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -44,7 +44,7 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     elif method == "mode":
-        temp = df.lazy().select(pl.col(cols).mode().list.first()).collect().row(0)
+        temp = df.lazy().select(pl.col(cols).drop_nulls().mode().min()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
@@ -98,7 +98,7 @@ def conditional_impute(
             df.lazy()
             .select(
                 *(
-                    pl.col(c).filter(rules_dict[c].not_()).mode().list.first()
+                    pl.col(c).filter(rules_dict[c].not_()).drop_nulls().mode().min()
                     for c in rules_dict.keys()
                 )
             )
-- 
2.43.0


From 1c166807bbae581a20503df26e7f915bbbc38248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 043/106] fix: a pipeline that renames its input to one case
 accepts the frame it was fitted on

---
 python/polars_ds/modeling/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cfea244..a08b658 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -238,6 +238,10 @@ class Pipeline:
         """
         if self.ensure_features_in:
             columns = df.lazy().collect_schema().names()
+            if self.lowercase:
+                columns = [c.lower() for c in columns]
+            elif self.uppercase:
+                columns = [c.upper() for c in columns]
             extras = [c for c in columns if c not in self.feature_names_in_]
             missing = [c for c in self.feature_names_in_ if c not in columns]
             if len(extras) > 0 or len(missing) > 0:
-- 
2.43.0


From 97c467267f1c6a524fdb6f376990b070c33c02c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 044/106] fix: Blueprint.nan_to_null maps NaN to null instead
 of raising

---
 python/polars_ds/modeling/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index a08b658..aee5d50 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -437,7 +437,7 @@ class Blueprint:
         """
         Maps NaN values in all columns to null.
         """
-        self._steps.append(PipelineStep(cs.float().nan_to_null(), PLContext.WITH_COLUMNS))
+        self._steps.append(PipelineStep(cs.float().fill_nan(None), PLContext.WITH_COLUMNS))
         return self
 
     def int_to_float(self, f32: bool = True) -> Self:
-- 
2.43.0


From b2a98a8e5fb8f170bacc227313a55c4bbe568916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 045/106] fix: pipelines with polynomial features can be saved

---
 python/polars_ds/modeling/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 2466ef1..326ad76 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -606,13 +606,16 @@ def polynomial_features(
     interaction_only
         It true, only combinations that involve 2 or more variables will be used.
     """
+    from functools import reduce
     from itertools import combinations_with_replacement
+    from operator import mul
 
     if degree <= 1:
         raise ValueError("Degree should be > 1.")
 
     return list(
-        pl.reduce(function=lambda acc, x: acc * x, exprs=list(comb)).alias("*".join(comb))
+        # A chain of products, not pl.reduce with a Python function, which cannot be serialized
+        reduce(mul, (pl.col(c) for c in comb)).alias("*".join(comb))
         for comb in combinations_with_replacement(cols, degree)
         if ((not interaction_only) or len(set(comb)) > 1)
     )
-- 
2.43.0


From c295c085b928ca30f2a1d1d5181fa22ec0b3ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 046/106] fix: rank hot encoding works after the pipeline is
 loaded from JSON

---
 python/polars_ds/modeling/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index 326ad76..9c14f1e 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -386,7 +386,7 @@ def rank_hot_encode(
         old=ranking, new=number_rank, default=None, return_dtype=pl.Int32
     )
     return [
-        (ranked_expr >= i).cast(pl.Int8).fill_null(-1).alias(f"{col}>={c}")
+        (ranked_expr >= i).cast(pl.Int8).fill_null(pl.lit(-1, dtype=pl.Int8)).alias(f"{col}>={c}")
         for i, c in zip(range(1, n_ranks), ranking[1:])
     ]
 
-- 
2.43.0


From 9c143953c21b19c6a41f23b3cd38d6e597c2ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 047/106] fix: random does not hang on narrow ranges of large
 numbers

---
 src/stats/sample.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index d3eacb0..93af729 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -83,8 +83,10 @@ fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
     let high = high.get(0).unwrap();
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
-    let dist = Uniform::new(low, high);
-    let out = Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
+    // gen_range instead of Uniform: constructing the latter takes a number of steps proportional to
+    // the magnitude of the bounds over their difference, which is endless for, e.g., 1e12 and 1e12 + 1
+    let sample = (0..len).map(|_| rng.gen_range(low..high));
+    let out = Float64Chunked::from_iter_values("".into(), sample);
     Ok(out.into_series())
 }
 
-- 
2.43.0


From af878c7346bc90c4c08fe91071618a5333707853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 048/106] fix: linear models with a bias term can be asked
 whether they are fitted

---
 src/linalg/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 36f3899..2205c9f 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -107,9 +107,9 @@ pub trait LinearRegression<T: RealField + Float> {
     fn has_bias(&self) -> bool;
 
     fn bias(&self) -> T {
-        if self.has_bias() {
-            let n = self.fitted_values().nrows() - 1;
-            *self.fitted_values().get(n, 0)
+        let n = self.fitted_values().nrows();
+        if self.has_bias() && n > 0 {
+            *self.fitted_values().get(n - 1, 0)
         } else {
             T::zero()
         }
@@ -118,9 +118,9 @@ pub trait LinearRegression<T: RealField + Float> {
     /// Returns a copy of the coefficients
 
     fn coefficients(&self) -> MatRef<T> {
-        if self.has_bias() {
-            let n = self.fitted_values().nrows() - 1;
-            self.fitted_values().get(0..n, ..)
+        let n = self.fitted_values().nrows();
+        if self.has_bias() && n > 0 {
+            self.fitted_values().get(0..n - 1, ..)
         } else {
             self.fitted_values()
         }
-- 
2.43.0


From aebdc5f9fc81927d3ad3e3752d73e8329317f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 049/106] fix: lin_reg predictions have one entry per row with
 the ignore null policy

---
 src/num_ext/linear_regression.rs     | 4 +++-
 src/num_ext/linear_regression_f32.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e5a4cb..6dbe076 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -159,8 +159,10 @@ fn series_to_mat_for_lstsq(
     let init_mask = inputs[0].is_not_null();
     let (df, mask) = if has_null {
         match null_policy {
+            // Takes the raw data. No row is dropped.
+            NullPolicy::IGNORE => Ok((df, BooleanChunked::from_slice("".into(), &[true]))),
             // Like ignore, skip_window takes the raw data. The actual skip is done in the underlying function in linalg.
-            NullPolicy::IGNORE | NullPolicy::SKIP_WINDOW => {
+            NullPolicy::SKIP_WINDOW => {
                 // false, because it has nulls
                 Ok((df, BooleanChunked::from_slice("".into(), &[false])))
             }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7526fea..ca2ac38 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -101,8 +101,10 @@ fn series_to_mat_for_lstsq_f32(
     let init_mask = inputs[0].is_not_null();
     let (df, mask) = if has_null {
         match null_policy {
+            // Takes the raw data. No row is dropped.
+            NullPolicy::IGNORE => Ok((df, BooleanChunked::from_slice("".into(), &[true]))),
             // Like ignore, skip_window takes the raw data. The actual skip is done in the underlying function in linalg.
-            NullPolicy::IGNORE | NullPolicy::SKIP_WINDOW => {
+            NullPolicy::SKIP_WINDOW => {
                 // false, because it has nulls
                 Ok((df, BooleanChunked::from_slice("".into(), &[false])))
             }
-- 
2.43.0


From 258186cb9b4a4b0eaa40fe00d9731f4840ccfe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 050/106] fix: linear regression with a bias term keeps a
 feature called literal

---
 src/num_ext/linear_regression.rs     | 15 +++++++++++++--
 src/num_ext/linear_regression_f32.rs | 10 +++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 6dbe076..8ac6a24 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -132,6 +132,15 @@ impl Into<PlSmallStr> for StandardError {
 
 // -----------------------------------------------------------------------------------------------------
 
+/// A name for the constant column that none of the inputs has
+pub(crate) fn bias_column_name(inputs: &[Series]) -> PlSmallStr {
+    let mut name = String::from("__bias__");
+    while inputs.iter().any(|s| s.name().as_str() == name) {
+        name.push('_');
+    }
+    name.into()
+}
+
 /// Returns a Array2 ready for linear regression, and a mask, where true means the row doesn't contain null
 #[inline(always)]
 fn series_to_mat_for_lstsq(
@@ -151,7 +160,8 @@ fn series_to_mat_for_lstsq(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        let ones = Column::new_scalar(bias_column_name(inputs), 1f64.into(), df.height());
+        df.with_column(ones)?;
     }
 
     // In mask, true means not null.
@@ -276,7 +286,8 @@ fn series_to_mat_for_multi_lstsq(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f64)).collect()?;
+        let ones = Column::new_scalar(bias_column_name(inputs), 1f64.into(), df.height());
+        df.with_column(ones)?;
     }
 
     if df.is_empty() {
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index ca2ac38..9b21604 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -1,4 +1,6 @@
-use super::linear_regression::{LstsqKwargs, MultiLstsqKwargs, SWWLstsqKwargs, StandardError};
+use super::linear_regression::{
+    bias_column_name, LstsqKwargs, MultiLstsqKwargs, SWWLstsqKwargs, StandardError,
+};
 /// A copy of linear_regression, but with f32.
 /// Unfortunately, it is not so easily to write generic functions. If I do so,
 /// there would be too many functions that have purpose that is not obvious by first sight.
@@ -93,7 +95,8 @@ fn series_to_mat_for_lstsq_f32(
     }
     // Add a constant column if has_bias
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        let ones = Column::new_scalar(bias_column_name(inputs), 1f32.into(), df.height());
+        df.with_column(ones)?;
     }
 
     // In mask, true means not null.
@@ -218,7 +221,8 @@ fn series_to_mat_for_multi_lstsq_f32(
     }?;
 
     if has_bias {
-        df = df.lazy().with_column(lit(1f32)).collect()?;
+        let ones = Column::new_scalar(bias_column_name(inputs), 1f32.into(), df.height());
+        df.with_column(ones)?;
     }
 
     if df.is_empty() {
-- 
2.43.0


From cd18e5e28b5a9096b7cb28732c7e1b6f5c9854a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 051/106] fix: lin_reg_w_rcond compares the singular values of
 X with the threshold

---
 src/linalg/lr_solvers.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index e5e0161..0650a35 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -193,21 +193,21 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
     rcond: T,
 ) -> (Mat<T>, Vec<T>) {
     let n1 = x.ncols().abs_diff(has_bias as usize);
-    let xt = x.transpose();
-    let mut xtx = xt * x;
-    // xtx + diagonal of lambda. If has bias, last diagonal element is 0.
-    // Safe. Index is valid and value is initialized.
-    if lambda >= T::zero() && n1 >= 1 {
-        unsafe {
-            for i in 0..n1 {
-                *xtx.get_mut_unchecked(i, i) = *xtx.get_mut_unchecked(i, i) + lambda;
-            }
+    // Ridge is plain least squares with these rows appended. If has bias, it is not regularized.
+    let n_reg = if lambda > T::zero() { n1 } else { 0 };
+    let reg = Mat::from_fn(n_reg, x.ncols(), |i, j| {
+        if i == j {
+            lambda.sqrt()
+        } else {
+            T::zero()
         }
-    }
-    // need work here
-    let svd = xtx.thin_svd().unwrap();
+    });
+    let x = faer::concat![[x], [reg]];
+    let y = faer::concat![[y], [Mat::<T>::zeros(n_reg, y.ncols())]];
+
+    let svd = x.thin_svd().unwrap();
     let s = svd.S().column_vector();
-    let singular_values = s.iter().copied().map(T::sqrt).collect::<Vec<_>>();
+    let singular_values = s.iter().copied().collect::<Vec<_>>();
 
     let n = singular_values.len();
 
@@ -221,7 +221,7 @@ pub fn faer_solve_lstsq_rcond<T: RealField + Float>(
         }
     }
 
-    let weights = svd.V() * s_inv * svd.U().transpose() * xt * y;
+    let weights = svd.V() * s_inv * svd.U().transpose() * y;
     (weights, singular_values)
 }
 
-- 
2.43.0


From c3f8cf59fdfa9b2dc140082aff8799bfa6510a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 052/106] fix: online regression weighs an update by c, not by
 1 / c

---
 src/linalg/lr_online_solvers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 6538a96..2421d1c 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -323,7 +323,7 @@ pub fn woodbury_step<T: RealField + Float>(
 
     let u = &inverse * new_x.transpose(); // corresponding to u in the reference
                                           // right = left.transpose() by the fact that if A is symmetric, invertible, A-1 is also symmetric
-    let z = (c + *(new_x * &u).get(0, 0)).recip();
+    let z = (c.recip() + *(new_x * &u).get(0, 0)).recip();
     // Update the information matrix's inverse. Page 56 of the gatech reference
     faer::linalg::matmul::matmul(
         inverse,
-- 
2.43.0


From fe9ac204d3657f7556e6a4482c9eea9e1f41142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 053/106] fix: weighted linear regression drops the weights of
 the rows it drops

---
 src/num_ext/linear_regression.rs     | 19 +++++++++++--------
 src/num_ext/linear_regression_f32.rs | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8ac6a24..db10599 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -310,14 +310,15 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let data_for_matrix = if weighted { &inputs[1..] } else { inputs };
 
     match series_to_mat_for_lstsq(data_for_matrix, has_bias, null_policy) {
-        Ok((mat, _)) => {
+        Ok((mat, mask)) => {
             // Solving Least Square
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float64)?;
-                let weights = binding.f64().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                // Weights of the rows that are kept
+                let weights = binding.f64().unwrap().filter(&mask)?.rechunk();
+                let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Shape of weights is not the same as the data.".into(),
@@ -521,8 +522,9 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let x = mat.slice(s![.., 1..]).into_faer();
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float64)?;
-                let weights = binding.f64().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                // Weights of the rows that are kept
+                let weights = binding.f64().unwrap().filter(&mask)?.rechunk();
+                let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Length of weights and data in X must be the same.".into(),
@@ -751,8 +753,6 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
     let binding = inputs[0].cast(&DataType::Float64)?;
-    let weights = binding.f64().unwrap();
-    let weights = weights.cont_slice().unwrap();
     let binding2 = inputs[1].cast(&DataType::Float64)?;
     let y_var = binding2.f64().unwrap();
     let y_var = y_var.get(0).unwrap_or(f64::NAN);
@@ -770,13 +770,16 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     // Copy data
     // Target y is at index 2, weights at index 0
     match series_to_mat_for_lstsq(&inputs[2..], has_bias, null_policy) {
-        Ok((mat, _)) => {
+        Ok((mat, mask)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
 
             let x = mat.slice(s![0..nrows, 1..]).into_faer();
             let y = mat.slice(s![0..nrows, 0..1]).into_faer();
 
+            // Weights of the rows that are kept
+            let weights = binding.f64().unwrap().filter(&mask)?.rechunk();
+            let weights = weights.cont_slice()?;
             // let w = faer::mat::from_row_major_slice(weights, x.nrows(), 1);
             let w = faer::ColRef::from_slice(weights);
             let w = w.as_diagonal();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 9b21604..a79b2bc 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -245,14 +245,15 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     let data_for_matrix = if weighted { &inputs[1..] } else { inputs };
 
     match series_to_mat_for_lstsq_f32(data_for_matrix, has_bias, null_policy) {
-        Ok((mat, _)) => {
+        Ok((mat, mask)) => {
             // Solving Least Square
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float32)?;
-                let weights = binding.f32().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                // Weights of the rows that are kept
+                let weights = binding.f32().unwrap().filter(&mask)?.rechunk();
+                let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Shape of weights is not the same as the data.".into(),
@@ -463,8 +464,9 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let x = mat.slice(s![.., 1..]).into_faer();
             let coeffs = if weighted {
                 let binding = inputs[0].cast(&DataType::Float32)?;
-                let weights = binding.f32().unwrap();
-                let weights = weights.cont_slice().unwrap();
+                // Weights of the rows that are kept
+                let weights = binding.f32().unwrap().filter(&mask)?.rechunk();
+                let weights = weights.cont_slice()?;
                 if weights.len() != mat.nrows() {
                     return Err(PolarsError::ComputeError(
                         "Length of weights and data in X must be the same.".into(),
@@ -692,8 +694,6 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
     let binding = inputs[0].cast(&DataType::Float32)?;
-    let weights = binding.f32().unwrap();
-    let weights = weights.cont_slice().unwrap();
     let binding2 = inputs[1].cast(&DataType::Float32)?;
     let y_var = binding2.f32().unwrap();
     let y_var = y_var.get(0).unwrap_or(f32::NAN);
@@ -711,13 +711,16 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     // Copy data
     // Target y is at index 2, weights at index 0
     match series_to_mat_for_lstsq_f32(&inputs[2..], has_bias, null_policy) {
-        Ok((mat, _)) => {
+        Ok((mat, mask)) => {
             let ncols = mat.ncols() - 1;
             let nrows = mat.nrows();
 
             let x = mat.slice(s![0..nrows, 1..]).into_faer();
             let y = mat.slice(s![0..nrows, 0..1]).into_faer();
 
+            // Weights of the rows that are kept
+            let weights = binding.f32().unwrap().filter(&mask)?.rechunk();
+            let weights = weights.cont_slice()?;
             // let w = faer::mat::from_row_major_slice(weights, x.nrows(), 1);
             let w = faer::ColRef::from_slice(weights);
             let w = w.as_diagonal();
-- 
2.43.0


From 6b3c67fcf48e0deb829cb6d3619129680916ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 054/106] fix: lin_reg_report computes r2 from the rows it uses

---
 src/num_ext/linear_regression.rs     | 18 ++++++++++--------
 src/num_ext/linear_regression_f32.rs | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index db10599..3f37a87 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -594,10 +594,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float64)?;
-    let y_var = binding.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
+    // index 0 is the variance of y over all rows, 1 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(2) + (has_bias) as usize,
@@ -629,11 +626,16 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             // Residue
             let res = y - x * &coeffs;
 
-            // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            // r2, adj_r2. Only rows that are kept count.
+            let y_mean = y.sum() / nrows as f64;
+            let tss = y
+                .col(0)
+                .iter()
+                .fold(0., |acc, v| acc + (*v - y_mean) * (*v - y_mean));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = match se_type {
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index a79b2bc..fcca5e5 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -536,10 +536,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     let se_type = StandardError::from(kwargs.std_err);
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
-    // index 0 is y_var, 1 is target y. Skip
-    let binding = inputs[0].cast(&DataType::Float32)?;
-    let y_var = binding.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
+    // index 0 is the variance of y over all rows, 1 is target y. Skip
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(2) + (has_bias) as usize,
@@ -571,11 +568,16 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
             // Residue
             let res = y - x * &coeffs;
 
-            // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            // r2, adj_r2. Only rows that are kept count.
+            let y_mean = y.sum() / nrows as f32;
+            let tss = y
+                .col(0)
+                .iter()
+                .fold(0., |acc, v| acc + (*v - y_mean) * (*v - y_mean));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = match se_type {
-- 
2.43.0


From 25769535fb9496dfdf0790acf0792153ec163279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 055/106] fix: recursive_lin_reg with nulls predicts each row
 from its own features

---
 src/num_ext/linear_regression.rs     | 3 ++-
 src/num_ext/linear_regression_f32.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 3f37a87..521614c 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -932,7 +932,8 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        // the i-th coefficients come from the first n + i valid rows
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index fcca5e5..df5eb2a 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -873,7 +873,8 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 for should_keep in mask.into_no_null_iter().skip(m) {
                     if should_keep {
                         let coefficients = &coeffs[i];
-                        let row = x.get(i..i + 1, ..);
+                        // the i-th coefficients come from the first n + i valid rows
+                        let row = x.get(n - 1 + i..n + i, ..);
                         let pred = *(row * coefficients).get(0, 0);
                         let coef = coefficients.col_as_slice(0);
                         builder.append_slice(coef);
-- 
2.43.0


From 03183635882e106cf96e9fe02ac12d303eb80e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 056/106] fix: rolling and recursive regression give nulls when
 there are fewer rows than the first fit needs

---
 src/linalg/lr_online_solvers.rs      | 13 +++++++++++--
 src/num_ext/linear_regression.rs     |  4 ++--
 src/num_ext/linear_regression_f32.rs |  4 ++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 2421d1c..08f76b3 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -163,6 +163,9 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     // x: size xn x m
     // y: size xn x 1
     // Vector of matrix of size m x 1
+    if xn < n {
+        return vec![];
+    }
     let mut coefficients = Vec::with_capacity(xn - n + 1);
     // n >= 2, guaranteed by Python
     let x0 = x.get(..n, ..);
@@ -195,7 +198,10 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     // x: size xn x m
     // y: size xn x 1
     // Vector of matrix of size m x 1
-    let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
+    if xn < n {
+        return vec![];
+    }
+    let mut coefficients = Vec::with_capacity(xn - n + 1);
 
     let x0 = x.get(..n, ..);
     let y0 = y.get(..n, ..);
@@ -236,7 +242,10 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     // y: size xn x 1
     // n is window size. m is min_window_size after skipping null rows. n >= m > 0.
     // Vector of matrix of size m x 1
-    let mut coefficients = Vec::with_capacity(xn - n + 1); // xn >= n is checked in Python
+    if xn < n {
+        return vec![];
+    }
+    let mut coefficients = Vec::with_capacity(xn - n + 1);
 
     // Initialize the problem.
     let mut non_null_cnt_in_window = 0;
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 521614c..1eacf51 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -946,7 +946,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
                 }
             } else {
                 // n always > 1, guaranteed in Python
-                let m = n.abs_diff(1);
+                let m = (n - 1).min(mat.nrows());
                 for _ in 0..m {
                     builder.append_null();
                     pred_builder.append_null();
@@ -1013,7 +1013,7 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let mut pred_builder: PrimitiveChunkedBuilder<Float64Type> =
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
-            let m = n - 1; // n >= 2 guaranteed in Python
+            let m = (n - 1).min(mat.nrows()); // n >= 2 guaranteed in Python
             for _ in 0..m {
                 builder.append_null();
                 pred_builder.append_null();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index df5eb2a..54a1b6b 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -887,7 +887,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
                 }
             } else {
                 // n always > 1, guaranteed in Python
-                let m = n.abs_diff(1);
+                let m = (n - 1).min(mat.nrows());
                 for _ in 0..m {
                     builder.append_null();
                     pred_builder.append_null();
@@ -954,7 +954,7 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let mut pred_builder: PrimitiveChunkedBuilder<Float32Type> =
                 PrimitiveChunkedBuilder::new("pred".into(), mat.nrows());
 
-            let m = n - 1; // n >= 2 guaranteed in Python
+            let m = (n - 1).min(mat.nrows()); // n >= 2 guaranteed in Python
             for _ in 0..m {
                 builder.append_null();
                 pred_builder.append_null();
-- 
2.43.0


From 704b4d85f0126513a7a2472ad20efda58bf1f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 057/106] fix: rolling and recursive ridge regression leave the
 bias out of the penalty, as lin_reg does

---
 src/linalg/lr_online_solvers.rs      | 16 +++++++++++++---
 src/num_ext/linear_regression.rs     | 13 ++++++++++---
 src/num_ext/linear_regression_f32.rs | 13 ++++++++++---
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 08f76b3..54aa5a5 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -66,6 +66,13 @@ impl<T: RealField + Float> OnlineLR<T> {
         }
     }
 
+    /// Fits on an X which already has the constant column, as its last one, if has_bias is true.
+    fn fit_with_bias_column(&mut self, x: MatRef<T>, y: MatRef<T>, has_bias: bool) {
+        let (inv, coefficients) = faer_qr_lstsq_with_inv(x, y, self.lambda, has_bias);
+        self.inv = inv;
+        self.coefficients = coefficients;
+    }
+
     pub fn update_unchecked(&mut self, new_x: MatRef<T>, new_y: MatRef<T>, c: T) {
         if self.has_bias() {
             let ones = Mat::full(new_x.nrows(), 1, T::one());
@@ -158,6 +165,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -174,7 +182,7 @@ pub fn faer_recursive_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0); // safe because things are checked in plugin / python functions.
+    online_lr.fit_with_bias_column(x0, y0, has_bias); // safe because things are checked in plugin / python functions.
     coefficients.push(online_lr.fitted_values().to_owned());
     for j in n..xn {
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
@@ -193,6 +201,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     y: MatRef<T>,
     n: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     // x: size xn x m
@@ -209,7 +218,7 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    online_lr.fit_unchecked(x0, y0);
+    online_lr.fit_with_bias_column(x0, y0, has_bias);
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
@@ -235,6 +244,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     n: usize,
     m: usize,
     lambda: T,
+    has_bias: bool,
 ) -> Vec<Mat<T>> {
     let xn = x.nrows();
     let ncols = x.ncols();
@@ -277,7 +287,7 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
             // faer::mat::from_row_major_slice(&x_slice, y_slice.len(), ncols);
             let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
             // faer::mat::from_row_major_slice(&y_slice, y_slice.len(), 1);
-            online_lr.fit_unchecked(x0, y0);
+            online_lr.fit_with_bias_column(x0, y0, has_bias);
             coefficients.push(online_lr.fitted_values().to_owned());
             break;
         } else {
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 1eacf51..c6590c1 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -898,7 +898,7 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -998,9 +998,16 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda)
+                faer_rolling_skipping_lstsq(
+                    x,
+                    y,
+                    n,
+                    kwargs.min_size,
+                    kwargs.lambda,
+                    has_bias,
+                )
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float64Type> =
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 54a1b6b..9459e94 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -839,7 +839,7 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
 
-            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32);
+            let coeffs = faer_recursive_lstsq(x, y, n, kwargs.lambda as f32, has_bias);
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
                 ListPrimitiveChunkedBuilder::new(
                     "coeffs".into(),
@@ -939,9 +939,16 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
             let coeffs = if should_skip {
-                faer_rolling_skipping_lstsq(x, y, n, kwargs.min_size, kwargs.lambda as f32)
+                faer_rolling_skipping_lstsq(
+                    x,
+                    y,
+                    n,
+                    kwargs.min_size,
+                    kwargs.lambda as f32,
+                    has_bias,
+                )
             } else {
-                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32)
+                faer_rolling_lstsq(x, y, n, kwargs.lambda as f32, has_bias)
             };
 
             let mut builder: ListPrimitiveChunkedBuilder<Float32Type> =
-- 
2.43.0


From 7271bf4fb3952062a2d3ea590e42a29debd92d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 058/106] fix: rolling_lin_reg works when the window has as
 many rows as there are coefficients

---
 src/linalg/lr_online_solvers.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 54aa5a5..9e4ea77 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -222,13 +222,14 @@ pub fn faer_rolling_lstsq<T: RealField + Float>(
     coefficients.push(online_lr.fitted_values().to_owned());
 
     for j in n..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-        online_lr.update(remove_x, remove_y, T::one().neg());
-
+        // Add first. Removing first may leave fewer rows than columns, which has no inverse.
         let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
         let next_y = y.get(j..j + 1, ..); // 1 by 1
         online_lr.update(next_x, next_y, T::one());
+
+        let remove_x = x.get(j - n..j - n + 1, ..);
+        let remove_y = y.get(j - n..j - n + 1, ..);
+        online_lr.update(remove_x, remove_y, T::one().neg());
         coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
-- 
2.43.0


From 13623058ae27d8fc8a23b19828848b403bf090e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 059/106] fix: rolling_lin_reg is not spoilt by a window with
 too few valid rows

---
 src/linalg/lr_online_solvers.rs | 91 +++++++++++++--------------------
 1 file changed, 35 insertions(+), 56 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 9e4ea77..4898a2d 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -252,77 +252,56 @@ pub fn faer_rolling_skipping_lstsq<T: RealField + Float>(
     // x: size xn x m
     // y: size xn x 1
     // n is window size. m is min_window_size after skipping null rows. n >= m > 0.
-    // Vector of matrix of size m x 1
     if xn < n {
         return vec![];
     }
+    // Vector of matrix of size m x 1
     let mut coefficients = Vec::with_capacity(xn - n + 1);
 
-    // Initialize the problem.
-    let mut non_null_cnt_in_window = 0;
-    let mut left = 0;
-    let mut right = n;
-    let mut x_slice: Vec<T> = Vec::with_capacity(n * ncols);
-    let mut y_slice: Vec<T> = Vec::with_capacity(n);
+    let is_valid = (0..xn)
+        .map(|i| !(has_nan(x.get(i..i + 1, ..)) | has_nan(y.get(i..i + 1, ..))))
+        .collect::<Vec<_>>();
+    let mut non_null_cnt_in_window = is_valid[..n].iter().filter(|b| **b).count();
 
     // This is because if add_bias, the 1 is added to
     // all data already. No need to let OnlineLR add the 1 for the user.
     let mut online_lr = OnlineLR::new(lambda, false);
-    while right <= xn {
-        // Somewhat redundant here.
-        non_null_cnt_in_window = 0;
-        x_slice.clear();
-        y_slice.clear();
-        for i in left..right {
-            let x_i = x.get(i, ..);
-            let y_i = y.get(i, ..);
-
-            if !(x_i.iter().any(|x| is_nan(x)) || y_i.iter().any(|y| is_nan(y))) {
+    // If true, the inverse doesn't describe the window, or doesn't exist. A new fit is needed.
+    let mut stale = true;
+    for right in n..=xn {
+        let left = right - n;
+        if left > 0 {
+            let (next, remove) = (right - 1, left - 1);
+            // Add first. Removing first may leave fewer rows than columns, which has no inverse.
+            if is_valid[next] {
                 non_null_cnt_in_window += 1;
-                x_slice.extend(x_i.iter());
-                y_slice.extend(y_i.iter());
             }
-        }
-        if non_null_cnt_in_window >= m {
-            let x0 = MatRef::from_row_major_slice(&x_slice, y_slice.len(), ncols);
-            // faer::mat::from_row_major_slice(&x_slice, y_slice.len(), ncols);
-            let y0 = MatRef::from_column_major_slice(&y_slice, y_slice.len(), 1);
-            // faer::mat::from_row_major_slice(&y_slice, y_slice.len(), 1);
-            online_lr.fit_with_bias_column(x0, y0, has_bias);
-            coefficients.push(online_lr.fitted_values().to_owned());
-            break;
-        } else {
-            left += 1;
-            right += 1;
-            coefficients.push(Mat::with_capacity(0, 0));
-        }
-    }
-
-    if right >= xn {
-        return coefficients;
-    }
-    // right < xn, the problem must have been initialized (inv and weights are defined.)
-    for j in right..xn {
-        let remove_x = x.get(j - n..j - n + 1, ..);
-        let remove_y = y.get(j - n..j - n + 1, ..);
-
-        if !(has_nan(remove_x) | has_nan(remove_y)) {
-            non_null_cnt_in_window -= 1; // removed one non-null column
-            online_lr.update_unchecked(remove_x, remove_y, T::one().neg()); // No need to check for nan
-        }
-
-        let next_x = x.get(j..j + 1, ..); // 1 by m, m = # of columns
-        let next_y = y.get(j..j + 1, ..); // 1 by 1
-        if !(has_nan(next_x) | has_nan(next_y)) {
-            non_null_cnt_in_window += 1;
-            online_lr.update_unchecked(next_x, next_y, T::one()); // No need to check for nan
+            if is_valid[remove] {
+                non_null_cnt_in_window -= 1;
+            }
+            stale = stale || non_null_cnt_in_window < ncols.max(m);
+            if !stale && is_valid[next] {
+                let (next_x, next_y) = (x.get(next..right, ..), y.get(next..right, ..));
+                online_lr.update_unchecked(next_x, next_y, T::one());
+            }
+            if !stale && is_valid[remove] {
+                let (remove_x, remove_y) = (x.get(remove..left, ..), y.get(remove..left, ..));
+                online_lr.update_unchecked(remove_x, remove_y, T::one().neg());
+            }
         }
 
-        if non_null_cnt_in_window >= m {
-            coefficients.push(online_lr.fitted_values().to_owned());
-        } else {
+        if non_null_cnt_in_window < m {
             coefficients.push(Mat::with_capacity(0, 0));
+            continue;
         }
+        if stale {
+            let rows = (left..right).filter(|i| is_valid[*i]).collect::<Vec<_>>();
+            let x0 = Mat::from_fn(rows.len(), ncols, |i, j| *x.get(rows[i], j));
+            let y0 = Mat::from_fn(rows.len(), 1, |i, _| *y.get(rows[i], 0));
+            online_lr.fit_with_bias_column(x0.as_ref(), y0.as_ref(), has_bias);
+            stale = non_null_cnt_in_window < ncols;
+        }
+        coefficients.push(online_lr.fitted_values().to_owned());
     }
     coefficients
 }
-- 
2.43.0


From 1804cf71edfb0ce39a08ec72f706f0681d5ba227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 060/106] fix: bias() of linear models returns the bias

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 62900cf..b3beef6 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -187,7 +187,7 @@ class LR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def fit(self, X: np.ndarray, y: np.ndarray, null_policy: NullPolicy = "ignore") -> Self:
         """
@@ -574,7 +574,7 @@ class OnlineLR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def inv(self) -> np.ndarray:
         """
-- 
2.43.0


From 6503a9f443a34e1223905f0b703c967ca9880497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 061/106] fix: a failing fit_df leaves the model as it was

---
 python/polars_ds/linear_models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index b3beef6..d6dc3c2 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -260,9 +260,9 @@ class LR:
         )
         X = df2.select(features).to_numpy()
         y = df2.select(target).to_numpy()
-        self.feature_names_in_.clear()
+        self.fit(X, y)
         self.feature_names_in_ = list(features)
-        return self.fit(X, y)
+        return self
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         """
@@ -463,9 +463,9 @@ class ElasticNet:
         )
         X = df2.select(features).to_numpy()
         y = df2.select(target).to_numpy()
-        self.feature_names_in_.clear()
+        self.fit(X, y)
         self.feature_names_in_ = list(features)
-        return self.fit(X, y)
+        return self
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         """
-- 
2.43.0


From 24210d99cc7b944674d8d92510e22d3f052cec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 062/106] fix: an online regression with a bias can be restored
 from its coefficients, bias and inverse

---
 src/linalg/lr_online_solvers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 4898a2d..7941eba 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -38,10 +38,12 @@ impl<T: RealField + Float> OnlineLR<T> {
         bias: T,
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
-        if coeffs.len() != inv.ncols() {
+        // The inverse has a last row and column for the bias if the model was fitted with one.
+        let inv_has_bias = inv.ncols() == coeffs.len() + 1;
+        if inv.nrows() != inv.ncols() || (coeffs.len() != inv.ncols() && !inv_has_bias) {
             Err(LinalgErrors::DimensionMismatch)
         } else {
-            self.has_bias = bias.abs() > T::epsilon();
+            self.has_bias = inv_has_bias || bias.abs() > T::epsilon();
             if self.has_bias {
                 self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                     if i < coeffs.len() {
-- 
2.43.0


From 927842fe1757502f465ba38cb24a46c4511ad86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 063/106] fix: updating an online regression with the wrong
 number of features is an error, not a panic

---
 src/pymodels/py_lr.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymodels/py_lr.rs b/src/pymodels/py_lr.rs
index bac5891..df69be5 100644
--- a/src/pymodels/py_lr.rs
+++ b/src/pymodels/py_lr.rs
@@ -211,10 +211,19 @@ impl PyOnlineLR {
         }
     }
 
-    pub fn update(&mut self, X: PyReadonlyArray2<f64>, y: PyReadonlyArray2<f64>, c: f64) {
+    pub fn update(
+        &mut self,
+        X: PyReadonlyArray2<f64>,
+        y: PyReadonlyArray2<f64>,
+        c: f64,
+    ) -> PyResult<()> {
         let x = X.as_array().into_faer();
         let y = y.as_array().into_faer();
+        if x.ncols() + self.lr.has_bias as usize != self.lr.inv.ncols() {
+            return Err(LinalgErrors::DimensionMismatch.into());
+        }
         self.lr.update(x, y, c);
+        Ok(())
     }
 
     pub fn set_coeffs_bias_inverse(
-- 
2.43.0


From c2d8d114c1c42934b7e36ecfafc8d81c1537c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 064/106] fix: online regression takes a 1d target to fit and
 any scalar to update

---
 python/polars_ds/linear_models.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index d6dc3c2..f9ee37d 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -598,7 +598,7 @@ class OnlineLR:
                 "Online regression currently must fit without null for the initial fit."
             )
 
-        self._lr.fit(X, y)
+        self._lr.fit(X, y.reshape((-1, 1)))
         return self
 
     def update(self, X: np.ndarray, y: np.ndarray | float, c: float = 1.0) -> Self:
@@ -621,10 +621,7 @@ class OnlineLR:
             raise ValueError("You cannot update before the initial fit of the matrix.")
 
         x_2d = X.reshape((1, -1))
-        if isinstance(y, float):
-            y_2d = np.array([[y]])
-        else:
-            y_2d = y.reshape((1, 1))
+        y_2d = np.asarray(y, dtype=np.float64).reshape((1, 1))
 
         self._lr.update(x_2d, y_2d, c)
         return self
-- 
2.43.0


From 7a5c8d12e6a2e2619bd61b7e83a1bd7e1b5ea6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 065/106] fix: singular_values works inside a group-by

---
 src/utils/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index edf353e..9279c80 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -24,7 +24,13 @@ pub fn to_f64_matrix_without_nulls(
     inputs: &[Series],
     order: IndexOrder,
 ) -> PolarsResult<Array2<f64>> {
-    let df = DataFrame::from_iter(inputs.iter().map(|s| Column::Series(s.clone().into())));
+    // Inside a group-by the inputs may all come without a name
+    let df = DataFrame::from_iter(
+        inputs
+            .iter()
+            .enumerate()
+            .map(|(i, s)| s.clone().with_name(i.to_string().into()).into_column()),
+    );
     let df = df.drop_nulls::<String>(None)?;
     df.to_ndarray::<Float64Type>(order)
 }
-- 
2.43.0


From 2270893d9804f8eb9c4f7f91d5aa408acf67f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 066/106] fix: chi2 with return_full works inside a group-by

---
 python/polars_ds/exprs/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index c85d2cc..d920f92 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -280,7 +280,10 @@ def chi2(var1: str | pl.Expr, var2: str | pl.Expr, return_full: bool = False) ->
     """
     if return_full:
         return pl_plugin(
-            symbol="pl_chi2_full", args=[str_to_expr(var1), str_to_expr(var2)], changes_length=True
+            symbol="pl_chi2_full",
+            args=[str_to_expr(var1), str_to_expr(var2)],
+            changes_length=True,
+            pass_name_to_apply=True,
         )
     else:
         return pl_plugin(
-- 
2.43.0


From eb509a2a6371794ab07a056facdc8683e29aa5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 067/106] fix: chi2 with return_full gives its rows in the same
 order every time

---
 src/stats/chi2.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stats/chi2.rs b/src/stats/chi2.rs
index e82dffa..80fd3f9 100644
--- a/src/stats/chi2.rs
+++ b/src/stats/chi2.rs
@@ -20,9 +20,9 @@ fn _chi2_helper(inputs: &[Series]) -> PolarsResult<(LazyFrame, usize, usize)> {
     let s1_name = "s1";
     let s2_name = "s2";
 
-    let u1 = inputs[0].unique()?;
+    let u1 = inputs[0].unique_stable()?;
     let u1_len = u1.len();
-    let u2 = inputs[1].unique()?;
+    let u2 = inputs[1].unique_stable()?;
     let u2_len = u2.len();
     // Get the cartesian product
     let df1 = df!(s1_name => u1)?.lazy();
@@ -37,12 +37,16 @@ fn _chi2_helper(inputs: &[Series]) -> PolarsResult<(LazyFrame, usize, usize)> {
         .group_by([col(s1_name), col(s2_name)])
         .agg([len().cast(DataType::UInt64).alias("ob")]);
 
+    // Always in the same order
+    let mut join_args = JoinArgs::new(JoinType::Left);
+    join_args.maintain_order = MaintainOrderJoin::Left;
+
     let df4 = cross
         .join(
             df3,
             [col(s1_name), col(s2_name)],
             [col(s1_name), col(s2_name)],
-            JoinArgs::new(JoinType::Left),
+            join_args,
         )
         .with_column(col("ob").fill_null(0));
 
-- 
2.43.0


From 1876be1ff6ee7b1d7ae559fe699ace449174c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 068/106] fix: woe, info_value, target_encode and psi_discrete
 reports come in the same order every time

---
 src/num_ext/psi.rs           | 4 ++++
 src/num_ext/target_encode.rs | 2 +-
 src/num_ext/woe_iv.rs        | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index b066572..6adac1a 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -180,6 +180,10 @@ fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
                 * ((col("baseline_pct") / col("actual_pct")).log(std::f64::consts::E)))
             .alias("psi_bin"),
         ])
+        .sort(
+            ["baseline_category", "actual_category"],
+            SortMultipleOptions::default().with_nulls_last(true),
+        )
         .collect()?;
 
     Ok(psi_report.into_struct("".into()).into_series())
diff --git a/src/num_ext/target_encode.rs b/src/num_ext/target_encode.rs
index e7955b1..abd16a0 100644
--- a/src/num_ext/target_encode.rs
+++ b/src/num_ext/target_encode.rs
@@ -31,7 +31,7 @@ fn get_target_encode_frame(
     Ok(df
         .lazy()
         .drop_nulls(None)
-        .group_by([col("value")])
+        .group_by_stable([col("value")])
         .agg([len().alias("cnt"), col("target").mean().alias("cond_p")])
         .with_column(
             (lit(1f64)
diff --git a/src/num_ext/woe_iv.rs b/src/num_ext/woe_iv.rs
index 743fd9f..1b3b894 100644
--- a/src/num_ext/woe_iv.rs
+++ b/src/num_ext/woe_iv.rs
@@ -29,7 +29,7 @@ fn get_woe_frame(discrete_col: &Series, target: &Series) -> PolarsResult<LazyFra
     let out = df
         .lazy()
         .drop_nulls(None)
-        .group_by([col("value")])
+        .group_by_stable([col("value")])
         .agg([
             len().cast(DataType::Float64).alias("cnt"),
             col("target").sum().cast(DataType::Float64).alias("goods"),
-- 
2.43.0


From 27556d9776d8a1c46d30d158b3ff8183a75522ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 069/106] fix: mann_whitney_u is one value per group

---
 python/polars_ds/exprs/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index d920f92..353740d 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -334,6 +334,7 @@ def mann_whitney_u(
     return pl_plugin(
         symbol="pl_mann_whitney_u",
         args=[u1, u2, mean, ranks.sort(), pl.lit(alternative, dtype=pl.String)],
+        returns_scalar=True,
     )
 
 
-- 
2.43.0


From 74166b4328b9abbebb01eed1c2dcd4954d393255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 070/106] fix: principal_components declares the components it
 returns

---
 python/polars_ds/exprs/num.py | 12 ++++++++----
 src/num_ext/pca.rs            | 25 ++++++++++++++++++-------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index c3cfb97..03bb95c 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -352,13 +352,17 @@ def principal_components(
     if k > len(feats) or k <= 0:
         raise ValueError("Input `k` should be between 1 and the number of features inclusive.")
 
-    actual_inputs = [pl.lit(k, dtype=pl.UInt32)]
     if center:
-        actual_inputs.extend(f - f.mean() for f in feats)
+        actual_inputs = [f - f.mean() for f in feats]
     else:
-        actual_inputs.extend(feats)
+        actual_inputs = feats
 
-    return pl_plugin(symbol="pl_principal_components", args=actual_inputs, pass_name_to_apply=True)
+    return pl_plugin(
+        symbol="pl_principal_components",
+        args=actual_inputs,
+        kwargs={"k": k},
+        pass_name_to_apply=True,
+    )
 
 
 def jaccard_row(first: str | pl.Expr, second: str | pl.Expr) -> pl.Expr:
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 42ad686..5293580 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -7,6 +7,7 @@ use faer::{
 };
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
+use serde::Deserialize;
 
 pub fn singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
@@ -27,8 +28,16 @@ pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
-pub fn principal_components_output(fields: &[Field]) -> PolarsResult<Field> {
-    let components: Vec<_> = (0..fields.len())
+#[derive(Deserialize, Debug)]
+pub(crate) struct PrincipalComponentsKwargs {
+    pub(crate) k: usize,
+}
+
+pub(crate) fn principal_components_output(
+    _: &[Field],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Field> {
+    let components: Vec<_> = (0..kwargs.k)
         .map(|i| Field::new(format!("pc{}", i + 1).into(), DataType::Float64))
         .collect();
     Ok(Field::new(
@@ -78,12 +87,14 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type_func=principal_components_output)]
-fn pl_principal_components(inputs: &[Series]) -> PolarsResult<Series> {
-    let k = inputs[0].u32()?;
-    let k = k.get(0).unwrap() as usize;
+#[polars_expr(output_type_func_with_kwargs=principal_components_output)]
+fn pl_principal_components(
+    inputs: &[Series],
+    kwargs: PrincipalComponentsKwargs,
+) -> PolarsResult<Series> {
+    let k = kwargs.k;
 
-    let mat = to_f64_matrix_fail_on_nulls(&inputs[1..], IndexOrder::Fortran)?;
+    let mat = to_f64_matrix_fail_on_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
     let n = mat.nrows();
 
-- 
2.43.0


From 9aaa407c140478040063526e3f3c6d5d6aad48da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 071/106] fix: rolling and recursive regression declare the
 field they return

---
 src/num_ext/linear_regression.rs     | 2 +-
 src/num_ext/linear_regression_f32.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index c6590c1..7278166 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -75,7 +75,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
-    let pred = Field::new("prediction".into(), DataType::Float64);
+    let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 9459e94..bd423e4 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -52,7 +52,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
-    let pred = Field::new("prediction".into(), DataType::Float32);
+    let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
-- 
2.43.0


From 9bc9f666695a8de2ae72f04129dfda3af8537770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 072/106] fix: lin_reg_report declares the standard error it
 returns

---
 python/polars_ds/exprs/expr_linear.py | 2 +-
 src/num_ext/linear_regression.rs      | 9 +++++----
 src/num_ext/linear_regression_f32.rs  | 9 +++++----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/python/polars_ds/exprs/expr_linear.py b/python/polars_ds/exprs/expr_linear.py
index c25cfb3..44b3f39 100644
--- a/python/polars_ds/exprs/expr_linear.py
+++ b/python/polars_ds/exprs/expr_linear.py
@@ -580,7 +580,7 @@ def lin_reg_report(
         "l2_reg": 0.0,
         "solver": "qr",
         "tol": 0.0,
-        "std_err": std_err.lower(),
+        "std_err": std_err.lower() if weights is None else "se",
     }
 
     t = lr_formula(target)
diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 7278166..24603c8 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -52,10 +52,11 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    let se_name = StandardError::from(kwargs.std_err).into();
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float64); // Std Err for this coefficient
+    let stderr = Field::new(se_name, DataType::Float64); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float64); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float64); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float64); // CI lower bound at 0.025
@@ -588,7 +589,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -748,7 +749,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index bd423e4..c7ff0dd 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -29,10 +29,11 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    let se_name = StandardError::from(kwargs.std_err).into();
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float32); // Std Err for this coefficient
+    let stderr = Field::new(se_name, DataType::Float32); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float32); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float32); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float32); // CI lower bound at 0.025
@@ -530,7 +531,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -689,7 +690,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
-- 
2.43.0


From e7668550068bde090c13555ed5375c3b173a6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 073/106] fix: multi-target regression declares the struct it
 returns

---
 src/num_ext/linear_regression.rs     | 31 +++++++++++++++++++++++-----
 src/num_ext/linear_regression_f32.rs | 31 +++++++++++++++++++++++-----
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 24603c8..ff4448e 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -81,6 +81,30 @@ fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| {
+            Field::new(
+                f.name().clone(),
+                DataType::List(Box::new(DataType::Float64)),
+            )
+        })
+        .collect();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let mut v = Vec::with_capacity(kwargs.last_target_idx * 2);
+    for f in fields[..kwargs.last_target_idx].iter() {
+        let pred_name = format!("{}_pred", f.name());
+        let resid_name = format!("{}_resid", f.name());
+        v.push(Field::new(pred_name.into(), DataType::Float64));
+        v.push(Field::new(resid_name.into(), DataType::Float64));
+    }
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
     let singular_values = Field::new(
@@ -359,9 +383,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -409,8 +431,7 @@ fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<S
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index c7ff0dd..ac68ed0 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -58,6 +58,30 @@ fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v = fields[..kwargs.last_target_idx]
+        .iter()
+        .map(|f| {
+            Field::new(
+                f.name().clone(),
+                DataType::List(Box::new(DataType::Float32)),
+            )
+        })
+        .collect();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let mut v = Vec::with_capacity(kwargs.last_target_idx * 2);
+    for f in fields[..kwargs.last_target_idx].iter() {
+        let pred_name = format!("{}_pred", f.name());
+        let resid_name = format!("{}_resid", f.name());
+        v.push(Field::new(pred_name.into(), DataType::Float32));
+        v.push(Field::new(resid_name.into(), DataType::Float32));
+    }
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
     let singular_values = Field::new(
@@ -294,9 +318,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -348,8 +370,7 @@ fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResu
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
-- 
2.43.0


From d2b20a4b424d052e26712da4a53e9041b1b4c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 074/106] fix: a k far above the number of points does not
 abort the process

---
 src/arkadia/mod.rs     | 15 +++++++++------
 src/num_ext/knn.rs     | 14 +++++++-------
 src/pymodels/py_kdt.rs | 16 +++++++++++++---
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/arkadia/mod.rs b/src/arkadia/mod.rs
index 9413bdb..a4a3518 100644
--- a/src/arkadia/mod.rs
+++ b/src/arkadia/mod.rs
@@ -52,6 +52,9 @@ impl KNNMethod {
     }
 }
 
+// Room set aside for a query's neighbors up front. k may be far larger than the number of points.
+pub const MAX_PREALLOC: usize = 1024;
+
 /// K Dimensional Tree Queries. Should be the same for ball trees, etc.
 pub trait SpatialQueries<'a, T: Float + 'static, A> {
     fn dim(&self) -> usize;
@@ -81,8 +84,8 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
             None
         } else {
             // Always allocate 1 more.
-            let mut top_k = Vec::with_capacity(k + 1);
-            let mut pending = Vec::with_capacity(k + 1);
+            let mut top_k = Vec::with_capacity(k.min(MAX_PREALLOC) + 1);
+            let mut pending = Vec::with_capacity(k.min(MAX_PREALLOC) + 1);
             pending.push((T::min_value(), self));
             while !pending.is_empty() {
                 self.knn_one_step(&mut pending, &mut top_k, k, point, T::max_value(), epsilon);
@@ -106,8 +109,8 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
             None
         } else {
             // Always allocate 1 more.
-            let mut top_k = Vec::with_capacity(k + 1);
-            let mut pending = Vec::with_capacity(k + 1);
+            let mut top_k = Vec::with_capacity(k.min(MAX_PREALLOC) + 1);
+            let mut pending = Vec::with_capacity(k.min(MAX_PREALLOC) + 1);
             pending.push((T::min_value(), self));
             while !pending.is_empty() {
                 self.knn_one_step(&mut pending, &mut top_k, k, point, max_dist_bound, epsilon);
@@ -123,8 +126,8 @@ pub trait SpatialQueries<'a, T: Float + 'static, A> {
         max_dist_bound: T,
         epsilon: T,
     ) -> Vec<NB<T, A>> {
-        let mut top_k = Vec::with_capacity(k + 1);
-        let mut pending = Vec::with_capacity(k + 1);
+        let mut top_k = Vec::with_capacity(k.min(MAX_PREALLOC) + 1);
+        let mut pending = Vec::with_capacity(k.min(MAX_PREALLOC) + 1);
         pending.push((T::min_value(), self));
         while !pending.is_empty() {
             self.knn_one_step(&mut pending, &mut top_k, k, point, max_dist_bound, epsilon);
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index 043c6c3..fe14800 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -3,7 +3,7 @@
 use crate::{
     arkadia::{
         utils::{slice_to_empty_leaves, slice_to_leaves},
-        KNNMethod, KNNRegressor, Leaf, SpatialQueries, KDT,
+        KNNMethod, KNNRegressor, Leaf, SpatialQueries, KDT, MAX_PREALLOC,
     },
     utils::{list_u32_output, series_to_row_major_slice, split_offsets, DIST},
 };
@@ -168,7 +168,7 @@ where
             let mut builder = ListPrimitiveChunkedBuilder::<UInt32Type>::new(
                 "".into(),
                 len,
-                k + 1,
+                k.min(MAX_PREALLOC) + 1,
                 DataType::UInt32,
             );
 
@@ -195,7 +195,7 @@ where
         let mut builder = ListPrimitiveChunkedBuilder::<UInt32Type>::new(
             "knn".into(),
             eval_mask.len(),
-            k + 1,
+            k.min(MAX_PREALLOC) + 1,
             DataType::UInt32,
         );
         for (b, p) in eval_mask.into_iter().zip(data.chunks_exact(ncols)) {
@@ -349,13 +349,13 @@ where
                     let mut builder = ListPrimitiveChunkedBuilder::<UInt32Type>::new(
                         "".into(),
                         len,
-                        k + 1,
+                        k.min(MAX_PREALLOC) + 1,
                         DataType::UInt32,
                     );
                     let mut dist_builder = ListPrimitiveChunkedBuilder::<Float64Type>::new(
                         "".into(),
                         len,
-                        k + 1,
+                        k.min(MAX_PREALLOC) + 1,
                         DataType::Float64,
                     );
                     let subslice = &data[offset * ncols..(offset + len) * ncols];
@@ -401,13 +401,13 @@ where
         let mut builder = ListPrimitiveChunkedBuilder::<UInt32Type>::new(
             "idx".into(),
             nrows,
-            k + 1,
+            k.min(MAX_PREALLOC) + 1,
             DataType::UInt32,
         );
         let mut dist_builder = ListPrimitiveChunkedBuilder::<Float64Type>::new(
             "dist".into(),
             nrows,
-            k + 1,
+            k.min(MAX_PREALLOC) + 1,
             DataType::Float64,
         );
         for (b, p) in eval_mask.into_iter().zip(data.chunks_exact(ncols)) {
diff --git a/src/pymodels/py_kdt.rs b/src/pymodels/py_kdt.rs
index d43811e..15dc8ec 100644
--- a/src/pymodels/py_kdt.rs
+++ b/src/pymodels/py_kdt.rs
@@ -7,7 +7,7 @@ use numpy::{
     IntoPyArray, PyArray1, PyArray2, PyArrayMethods, PyReadonlyArray1, PyReadonlyArray2,
     PyUntypedArrayMethods,
 };
-use pyo3::exceptions::PyValueError;
+use pyo3::exceptions::{PyMemoryError, PyValueError};
 use pyo3::prelude::*;
 use pyo3_polars::export::polars_core::utils::rayon::prelude::{
     IndexedParallelIterator, IntoParallelIterator, ParallelIterator,
@@ -95,8 +95,18 @@ impl PyKDT {
                 ));
             }
 
-            let mut dist_vec = Vec::with_capacity(nrows * k);
-            let mut idx_vec = Vec::with_capacity(nrows * k);
+            // k is the caller's and may ask for more than there is
+            let mut dist_vec: Vec<f64> = Vec::new();
+            let mut idx_vec: Vec<u32> = Vec::new();
+            nrows
+                .checked_mul(k)
+                .and_then(|n| {
+                    dist_vec.try_reserve_exact(n).ok()?;
+                    idx_vec.try_reserve_exact(n).ok()
+                })
+                .ok_or_else(|| {
+                    PyMemoryError::new_err("Not enough memory for `k` neighbors of every row.")
+                })?;
             if parallel && nrows >= 16 {
                 let mut neighbors = Vec::with_capacity(nrows);
                 let pts = matrix_slice.chunks_exact(ncols).collect::<Vec<_>>();
-- 
2.43.0


From fb979a0388525faee7ea379ef9e6c5333400433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 075/106] fix: adding NaN to a KDTree does not lose the points
 it has

---
 src/pymodels/py_kdt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymodels/py_kdt.rs b/src/pymodels/py_kdt.rs
index 15dc8ec..4f4dc14 100644
--- a/src/pymodels/py_kdt.rs
+++ b/src/pymodels/py_kdt.rs
@@ -64,6 +64,9 @@ impl PyKDT {
             let matrix_slice = X.as_slice().unwrap();
             if ncols != self.kdt.dim() {
                 Err(LinalgErrors::DimensionMismatch.into())
+            } else if matrix_slice.iter().any(|x| x.is_nan()) {
+                // Ordering them fails halfway, and the points around them would be lost
+                Err(PyValueError::new_err("Input contains NaN."))
             } else {
                 let cur_count = self.kdt.count_all();
                 for (i, sl) in matrix_slice.chunks_exact(ncols).enumerate() {
-- 
2.43.0


From c8d77c7bab07af0f4f01629e9cdf534b2fd214f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 076/106] fix: gmean and weighted_gmean can be built

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 353740d..c3cb35a 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -743,7 +743,7 @@ def gmean(var: str | pl.Expr) -> pl.Expr:
     var
         The variable
     """
-    return str_to_expr(var).ln().mean().exp()
+    return str_to_expr(var).log().mean().exp()
 
 
 def weighted_gmean(
@@ -763,9 +763,9 @@ def weighted_gmean(
     """
     x, w = str_to_expr(var), str_to_expr(weights)
     if is_normalized:
-        return (x.ln().dot(w)).exp()
+        return (x.log().dot(w)).exp()
     else:
-        return (x.ln().dot(w) / (w.sum())).exp()
+        return (x.log().dot(w) / (w.sum())).exp()
 
 
 def weighted_mean(
-- 
2.43.0


From 5f2e9f2334552c5c15b5b765e2d88cdf01900659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 077/106] fix: linear detrend works with nulls

---
 python/polars_ds/exprs/num.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 03bb95c..310265a 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -931,10 +931,11 @@ def detrend(x: str | pl.Expr, method: DetrendMethod = "linear") -> pl.Expr:
     """
     ts = str_to_expr(x)
     if method == "linear":
-        N = ts.count()
-        x = pl.int_range(0, N, eager=False)
-        coeff = pl.cov(ts, x) / x.var()
-        const = ts.mean() - coeff * (N - 1) / 2
+        x = pl.int_range(0, ts.len(), eager=False)
+        # The line is fitted on the rows that have a value
+        xv = pl.when(ts.is_not_null()).then(x)
+        coeff = pl.cov(ts, xv) / xv.var()
+        const = ts.mean() - coeff * xv.mean()
         return ts - x * coeff - const
     elif method == "mean":
         return ts - ts.mean()
-- 
2.43.0


From b375486d3074d7012a93a873d40282da3ad7520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 078/106] fix: building a KDTree from NaN is an error, not a
 panic

---
 src/pymodels/py_kdt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymodels/py_kdt.rs b/src/pymodels/py_kdt.rs
index 4f4dc14..12f6ebc 100644
--- a/src/pymodels/py_kdt.rs
+++ b/src/pymodels/py_kdt.rs
@@ -41,6 +41,9 @@ impl PyKDT {
 
         if X.is_c_contiguous() && !X.is_empty() {
             let matrix_slice = X.as_slice().unwrap();
+            if matrix_slice.iter().any(|x| x.is_nan()) {
+                return Err(PyValueError::new_err("Input contains NaN."));
+            }
             let leaves = row_major_slice_to_leaves(matrix_slice, ncols);
             let kdt = OwnedKDT::from_leaves_unchecked(leaves, d, balanced.into());
             Ok(PyKDT { kdt: kdt })
-- 
2.43.0


From ea7a595e8575bda5545bd9b83a959913cc845731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 079/106] fix: coordinate descent does not stop while the bias
 still moves

---
 src/linalg/lr_solvers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg/lr_solvers.rs b/src/linalg/lr_solvers.rs
index 0650a35..4d25e05 100644
--- a/src/linalg/lr_solvers.rs
+++ b/src/linalg/lr_solvers.rs
@@ -357,7 +357,10 @@ pub fn faer_coordinate_descent<T: RealField + Float>(
             let xx = unsafe { x.get_unchecked(.., 0..n1) };
             let bb = unsafe { beta.get_unchecked(0..n1, ..) };
             let ss = (y - xx * bb).as_ref().sum() / m;
+            let before = *unsafe { beta.get_unchecked(n1, 0) };
             *unsafe { beta.get_mut_unchecked(n1, 0) } = ss;
+            // The coefficients may still move if the bias did
+            max_change = (ss - before).abs().max(max_change);
         }
         converge = max_change < tol;
         if converge {
-- 
2.43.0


From 1d787401abdc79b5e2b20f9e201c7e4057854268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 080/106] fix: weighted_hmean uses the weights

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index c3cb35a..897bb0b 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -727,7 +727,7 @@ def weighted_hmean(
     """
     w = str_to_expr(weights)
     x = str_to_expr(var)
-    dot = x.dot(pl.lit(1.0, dtype=pl.Float32) / x)
+    dot = w.dot(pl.lit(1.0, dtype=pl.Float32) / x)
     if is_normalized:
         return 1.0 / dot
     else:
-- 
2.43.0


From f66c4dfb4c70db06bab6e7a97bdb1456e748cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 081/106] fix: weighted_corr divides by the spread of y, not of
 x around y's mean

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 897bb0b..788bd91 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -871,7 +871,7 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     w = str_to_expr(weights)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
-    syy = w.dot((xx - weighted_mean(yy, w, False)).pow(2))
+    syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
     return numerator * w.sum() / (sxx * syy).sqrt()
 
 
-- 
2.43.0


From d97024970ad371bd047523baef3142b278252884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 082/106] fix: cosine_sim divides by the norms, not by the
 square root of their product

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 788bd91..a510a22 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -889,7 +889,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     xx, yy = str_to_expr(x), str_to_expr(y)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
-    return xx.dot(yy) / (x2 * y2).sqrt()
+    return xx.dot(yy) / (x2 * y2)
 
 
 def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From aecd0c7aa2e28bcf3c24b288ffba54260e823b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 083/106] fix: mann_whitney_u corrects for ties in the largest
 value too

---
 src/stats/mann_whitney_u.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 1d3c390..1dcafe5 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -18,6 +18,10 @@ fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
             rank_cnt = 1.0;
         }
     }
+    if rank_cnt > 0. {
+        // The last run of equal ranks
+        accumulant += rank_cnt * (rank_cnt + 1.0) * (rank_cnt - 1.0);
+    }
     accumulant
 }
 
@@ -52,7 +56,7 @@ fn pl_mann_whitney_u(inputs: &[Series]) -> PolarsResult<Series> {
     };
 
     let p = if std_ == 0. {
-        0.
+        1. // Everything is tied
     } else {
         // -0.5 is some continuity adjustment. See Scipy's impl
         (factor * normal::sf_unchecked(u, mean + 0.5, std_)).clamp(0., 1.)
-- 
2.43.0


From 34ea607736945e84b85e0c98e78d4a4a843fd6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 084/106] fix: singular_values divides the explained variance
 by the number of rows less one

---
 python/polars_ds/exprs/num.py |  9 ++++++---
 src/num_ext/pca.rs            | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 310265a..a7fd85c 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -296,9 +296,12 @@ def singular_values(
     else:
         actual_inputs = feats
 
-    out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
-    if as_explained_var:
-        out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
+    out = pl_plugin(
+        symbol="pl_singular_values",
+        args=actual_inputs,
+        kwargs={"as_explained_var": as_explained_var},
+        returns_scalar=True,
+    )
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
 
diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index 5293580..d22a30c 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -28,6 +28,11 @@ pub fn pca_output(_: &[Field]) -> PolarsResult<Field> {
     ))
 }
 
+#[derive(Deserialize, Debug)]
+pub(crate) struct SingularValuesKwargs {
+    pub(crate) as_explained_var: bool,
+}
+
 #[derive(Deserialize, Debug)]
 pub(crate) struct PrincipalComponentsKwargs {
     pub(crate) k: usize,
@@ -47,7 +52,7 @@ pub(crate) fn principal_components_output(
 }
 
 #[polars_expr(output_type_func=singular_values_output)]
-fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
+fn pl_singular_values(inputs: &[Series], kwargs: SingularValuesKwargs) -> PolarsResult<Series> {
     let mat = to_f64_matrix_without_nulls(inputs, IndexOrder::Fortran)?;
     let mat = mat.view().into_faer();
 
@@ -79,6 +84,13 @@ fn pl_singular_values(inputs: &[Series]) -> PolarsResult<Series> {
     )
     .map_err(|_| PolarsError::ComputeError("SVD algorithm did not converge.".into()))?;
 
+    if kwargs.as_explained_var {
+        let dof = m as f64 - 1.0; // The number of rows, without those dropped, less one
+        for v in s.iter_mut() {
+            *v = *v * *v / dof;
+        }
+    }
+
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
         ListPrimitiveChunkedBuilder::new("singular_values".into(), 1, dim, DataType::Float64);
 
-- 
2.43.0


From bfb2df4f576a6132d846b4ecb6333b0d85b2704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 085/106] fix: normal_test keeps the sign of the kurtosis term
 for very flat data

---
 src/stats/normal_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index fca4eab..6650c5c 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
+        let term2 = ((1. - 2. / a) / denom).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From 192915beb4babb0e2d2ee162bd24169718a79dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 086/106] fix: gcd and lcm with a null are null instead of a
 panic

---
 src/num_ext/gcd_lcm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 30532dd..471175e 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -8,8 +8,10 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::gcd(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::gcd(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::gcd);
@@ -26,8 +28,10 @@ fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
-        let out: Int32Chunked = ca1.apply_values(|a| num::integer::lcm(a, b));
+        let out: Int32Chunked = match ca2.get(0) {
+            Some(b) => ca1.apply_values(|a| num::integer::lcm(a, b)),
+            None => Int32Chunked::full_null(ca1.name().clone(), ca1.len()),
+        };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
         let out: Int32Chunked = binary_elementwise_values(ca1, ca2, num::integer::lcm);
-- 
2.43.0


From 6993dce74f9f49f8eb36e254c87938eab0242f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 087/106] fix: haversine to a null point is null instead of a
 panic

---
 src/num_ext/haversine.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 16130ff..f17ca17 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -14,8 +14,9 @@ where
     T::Native: Float,
 {
     if (y_lat.len() == y_long.len()) && (y_lat.len() == 1) {
-        let e_lat = y_lat.get(0).unwrap();
-        let e_long = y_long.get(0).unwrap();
+        let (Some(e_lat), Some(e_long)) = (y_lat.get(0), y_long.get(0)) else {
+            return Ok(ChunkedArray::full_null(x_lat.name().clone(), x_lat.len()));
+        };
         let out: ChunkedArray<T> = x_lat
             .into_iter()
             .zip(x_long.into_iter())
-- 
2.43.0


From 8cb0420ef7233472d3e2b8cb434778acf5d185fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 088/106] fix: str_tokenize with stem removes stop words and
 duplicates, as documented

---
 python/polars_ds/exprs/string.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 92dba7d..29df0d0 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -270,7 +270,11 @@ def str_tokenize(c: str | pl.Expr, pattern: str = r"(?u)\b\w\w+\b", stem: bool =
     """
     out = str_to_expr(c).str.extract_all(pattern)
     if stem:
-        return out.list.eval(str_snowball(pl.element(), True).drop_nulls())
+        # Stop words and numbers are stemmed to the empty string
+        out = out.list.eval(str_snowball(pl.element(), True))
+        return out.list.eval(pl.element().filter(pl.element() != "")).list.unique(
+            maintain_order=True
+        )
     return out
 
 
-- 
2.43.0


From c89a86fe19aeb004becb92e3801199424a5ea4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 089/106] fix: DIA.infer_prob looks at every row of a list
 column, not at the first only

---
 python/polars_ds/eda/diagnosis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 07257ef..cd4397b 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -501,9 +501,9 @@ class DIA:
                 *(
                     (
                         (
-                            pl.col(c).list.eval((pl.element() >= 0.0).all()).list.first()
+                            pl.col(c).list.eval((pl.element() >= 0.0).all()).list.first().all()
                         )  # every number must be positive
-                        & ((pl.col(c).list.sum() - 1.0).abs() < 1e-6)  # class prob must sum to 1
+                        & ((pl.col(c).list.sum() - 1.0).abs() < 1e-6).all()  # class prob must sum to 1
                         & (
                             pl.col(c).list.len().min() == pl.col(c).list.len().max()
                         )  # class prob column must have the same length
-- 
2.43.0


From f7a0c47d8d2a94dfb712620fcad3834f55bfe8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 090/106] fix: DIA.infer_discrete includes the boolean and
 categorical columns it sets aside

---
 python/polars_ds/eda/diagnosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index cd4397b..ce64f49 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -566,7 +566,7 @@ class DIA:
             .row(0)
         )
 
-        return [c for c, ok in zip(to_check, is_ok) if ok is True]
+        return out + [c for c, ok in zip(to_check, is_ok) if ok is True]
 
     @lru_cache
     def infer_const(self, include_null: bool = False) -> List[str]:
-- 
2.43.0


From 5641283c5ad8cbbb2f9f9a98f99a231edcfd6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 091/106] fix: PartitionHelper refuses parts whose names
 collide instead of losing one

---
 python/polars_ds/partition/partition.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/partition/partition.py b/python/polars_ds/partition/partition.py
index 4d838e8..071757b 100644
--- a/python/polars_ds/partition/partition.py
+++ b/python/polars_ds/partition/partition.py
@@ -48,10 +48,14 @@ class PartitionHelper():
             if not all_ok:
                 raise ValueError("Currently this only supports partitions by str, bool or categorical columns.")
 
-            self.parts = {
-                separator.join((str(k) for k in keys)): value
-                for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items()
-            }
+            self.parts = {}
+            for keys, value in df.lazy().collect().partition_by(by=by, as_dict=True).items():
+                name = separator.join((str(k) for k in keys))
+                if name in self.parts:
+                    raise ValueError(
+                        f"More than one part would have the name {name}. Please use another separator."
+                    )
+                self.parts[name] = value
 
     def __repr__(self) -> str:
         output = ""
-- 
2.43.0


From a23d66d9fa87606064888b0695b20967d23817a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 092/106] fix: DIA.row_validation does not give a rule that is
 null as a reason

---
 python/polars_ds/eda/diagnosis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index ce64f49..9a23da5 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -322,9 +322,9 @@ class DIA:
 
         if all_reasons:
             reasons = [
-                pl.when(pl.col(c)).then(None).otherwise(pl.lit(c, dtype=pl.String))
+                pl.when(pl.col(c).not_()).then(pl.lit(c, dtype=pl.String))
                 for c in all_rule_names
-            ]  # When true, return None. When false, return reason
+            ]  # When false, return reason. Otherwise (true, or unknown because of null), return None
 
             return df_temp.select(
                 *to_keep, pl.concat_list(reasons).list.drop_nulls().list.sort().alias("__reason__")
-- 
2.43.0


From 6e69a115ae62beade81f3b90616baeb96fe0e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 093/106] fix: a column type that cannot be imported
 (Categorical, Decimal, ..) is an error, not an abort, for every expression

---
 src/num_ext/cond_entropy.rs        |  3 ++-
 src/num_ext/convolve.rs            |  3 ++-
 src/num_ext/entrophies.rs          |  8 ++++----
 src/num_ext/float_extras.rs        |  4 ++--
 src/num_ext/gcd_lcm.rs             |  5 +++--
 src/num_ext/isotonic_regression.rs |  3 ++-
 src/num_ext/jaccard.rs             |  5 +++--
 src/num_ext/knn.rs                 |  7 ++++---
 src/num_ext/lempel_ziv.rs          |  3 ++-
 src/num_ext/subseq_sim.rs          |  5 +++--
 src/num_ext/tp_fp.rs               |  5 +++--
 src/num_ext/trapz.rs               |  3 ++-
 src/stats/kendall_tau.rs           |  3 ++-
 src/stats/sample.rs                | 14 +++++++-------
 src/stats/xi_corr.rs               |  3 ++-
 src/str_ext/fuzz.rs                |  4 ++--
 src/str_ext/hamming.rs             |  8 ++++----
 src/str_ext/inflections.rs         |  9 +++++----
 src/str_ext/is_stopword.rs         |  3 ++-
 src/str_ext/jaro.rs                |  6 +++---
 src/str_ext/lcs_seq.rs             |  5 +++--
 src/str_ext/levenshtein.rs         | 12 ++++++------
 src/str_ext/nearest_str.rs         |  3 ++-
 src/str_ext/osa.rs                 |  5 +++--
 src/str_ext/overlap.rs             |  4 ++--
 src/str_ext/snowball_stem.rs       |  3 ++-
 src/str_ext/sorensen_dice.rs       |  4 ++--
 src/str_ext/str_cleaning.rs        | 11 ++++++-----
 src/str_ext/str_jaccard.rs         |  4 ++--
 src/str_ext/tversky.rs             |  4 ++--
 src/utils/mod.rs                   | 22 ++++++++++++++++++++++
 31 files changed, 111 insertions(+), 70 deletions(-)

diff --git a/src/num_ext/cond_entropy.rs b/src/num_ext/cond_entropy.rs
index 3cae1bf..c094fc8 100644
--- a/src/num_ext/cond_entropy.rs
+++ b/src/num_ext/cond_entropy.rs
@@ -1,7 +1,8 @@
+use crate::utils::f64_output;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_conditional_entropy(inputs: &[Series]) -> PolarsResult<Series> {
     let df = df!("x" => inputs[0].clone(), "y" => inputs[1].clone())?;
     let mut out = df
diff --git a/src/num_ext/convolve.rs b/src/num_ext/convolve.rs
index 15d5386..f5d06a6 100644
--- a/src/num_ext/convolve.rs
+++ b/src/num_ext/convolve.rs
@@ -1,3 +1,4 @@
+use crate::utils::f64_output;
 use cfavml;
 use polars::prelude::*;
 use pyo3_polars::{
@@ -189,7 +190,7 @@ fn convolve(
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_convolve(
     inputs: &[Series],
     context: CallerContext,
diff --git a/src/num_ext/entrophies.rs b/src/num_ext/entrophies.rs
index 868c69e..c5975aa 100644
--- a/src/num_ext/entrophies.rs
+++ b/src/num_ext/entrophies.rs
@@ -1,7 +1,7 @@
 use crate::arkadia::utils::slice_to_empty_leaves;
 use crate::arkadia::{kdt::KDT, SpatialQueries};
 use crate::num_ext::knn::KDTKwargs;
-use crate::utils::{series_to_row_major_slice, split_offsets, DIST};
+use crate::utils::{series_to_row_major_slice, split_offsets, DIST, f64_output};
 use core::f64;
 use polars::prelude::*;
 use polars_core::POOL;
@@ -14,7 +14,7 @@ use pyo3_polars::export::polars_core::{
 // https://en.wikipedia.org/wiki/Sample_entropy
 // https://en.wikipedia.org/wiki/Approximate_entropy
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_approximate_entropy(
     inputs: &[Series],
     context: CallerContext,
@@ -97,7 +97,7 @@ fn pl_approximate_entropy(
     Ok(Series::from_vec(name.clone(), vec![(phi_m1 - phi_m).abs()]))
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_sample_entropy(
     inputs: &[Series],
     context: CallerContext,
@@ -210,7 +210,7 @@ fn _knn_entropy_helper<'a>(
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_knn_entropy(
     inputs: &[Series],
     context: CallerContext,
diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index c9b56fe..4e001ec 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -2,7 +2,7 @@ use crate::stats_utils::gamma::digamma;
 /// Extra functions for floating points
 /// trunc, fract, exp2, logit, expit, gamma,
 /// The logit, expit and gamma functions are as defined in SciPy
-use crate::utils::{first_field_output, float_output};
+use crate::utils::{first_field_output, float_output, f64_output};
 use arity::binary_elementwise_values;
 use num::traits::Float;
 use polars::prelude::*;
@@ -280,7 +280,7 @@ fn pl_xlogy(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(ca.into_series())
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_diagamma(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
     match s.dtype() {
diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 471175e..8ef9e0b 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -1,9 +1,10 @@
 /// GCD and LCM for integers in dataframe.
+use crate::utils::i32_output;
 use polars::prelude::*;
 use polars_core::prelude::arity::binary_elementwise_values;
 use pyo3_polars::derive::polars_expr;
 
-#[polars_expr(output_type=Int32)]
+#[polars_expr(output_type_func=i32_output)]
 fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
@@ -23,7 +24,7 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Int32)]
+#[polars_expr(output_type_func=i32_output)]
 fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
diff --git a/src/num_ext/isotonic_regression.rs b/src/num_ext/isotonic_regression.rs
index 5f3c0c5..eb1b813 100644
--- a/src/num_ext/isotonic_regression.rs
+++ b/src/num_ext/isotonic_regression.rs
@@ -1,3 +1,4 @@
+use crate::utils::f64_output;
 use itertools::Either;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
@@ -70,7 +71,7 @@ fn isotonic_regression(x: &mut [f64], w: &mut [f64], r: &mut [usize]) {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_isotonic_regression(inputs: &[Series], kwargs: IsotonicRegKwargs) -> PolarsResult<Series> {
     // Not sure why increasing = False doesn't give the right result
     let y = inputs[0].f64()?;
diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index 0ee9a58..b18da04 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -1,5 +1,6 @@
 /// Jaccard similarity for two columns
 /// and Jaccard similarity for two columns of lists with compatible inner types.
+use crate::utils::f64_output;
 use core::hash::Hash;
 use ordered_float::OrderedFloat;
 use polars::prelude::*;
@@ -54,7 +55,7 @@ fn _list_jaccard(a: &ListChunked, b: &ListChunked) -> Float64Chunked {
     })
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_list_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let s1 = inputs[0].list()?;
     let s2 = inputs[1].list()?;
@@ -87,7 +88,7 @@ fn pl_list_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
diff --git a/src/num_ext/knn.rs b/src/num_ext/knn.rs
index fe14800..d9a9da1 100644
--- a/src/num_ext/knn.rs
+++ b/src/num_ext/knn.rs
@@ -1,5 +1,6 @@
 /// Performs KNN related search queries, classification and regression, and
 /// other features/entropies that require KNN to be efficiently computed.
+use crate::utils::{f64_output, u32_output};
 use crate::{
     arkadia::{
         utils::{slice_to_empty_leaves, slice_to_leaves},
@@ -85,7 +86,7 @@ pub fn row_major_slice_to_leaves_filtered<'a, T: Float + 'static, A: Copy>(
 /// KNN Regression
 /// Always do k + 1 because this operation is in-dataframe, and this means
 /// that the point itself is always a neighbor to itself.
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_knn_avg(
     inputs: &[Series],
     context: CallerContext,
@@ -212,7 +213,7 @@ where
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_dist_from_kth_nb(
     inputs: &[Series],
     context: CallerContext,
@@ -663,7 +664,7 @@ where
 
 /// For every point in this dataframe, find the number of neighbors within radius r
 /// The point itself is always considered as a neighbor to itself.
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_nb_cnt(inputs: &[Series], context: CallerContext, kwargs: KDTKwargs) -> PolarsResult<Series> {
     let radius = inputs[0].f64()?;
     let can_parallel = kwargs.parallel && !context.parallel();
diff --git a/src/num_ext/lempel_ziv.rs b/src/num_ext/lempel_ziv.rs
index 54e9f66..dc52d47 100644
--- a/src/num_ext/lempel_ziv.rs
+++ b/src/num_ext/lempel_ziv.rs
@@ -1,8 +1,9 @@
+use crate::utils::u32_output;
 use hashbrown::HashSet;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_lempel_ziv_complexity(inputs: &[Series]) -> PolarsResult<Series> {
     let bools = inputs[0].bool()?;
     let bits: Vec<bool> = bools
diff --git a/src/num_ext/subseq_sim.rs b/src/num_ext/subseq_sim.rs
index 8c392e1..64aeefc 100644
--- a/src/num_ext/subseq_sim.rs
+++ b/src/num_ext/subseq_sim.rs
@@ -1,4 +1,5 @@
 /// Subsequence similarity related queries
+use crate::utils::u32_output;
 use cfavml;
 use polars::prelude::*;
 use pyo3_polars::{
@@ -19,7 +20,7 @@ pub(crate) struct SubseqQueryKwargs {
     pub(crate) parallel: bool,
 }
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_subseq_sim_cnt_l2(
     inputs: &[Series],
     context: CallerContext,
@@ -65,7 +66,7 @@ fn pl_subseq_sim_cnt_l2(
     Ok(output.into_series())
 }
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_subseq_sim_cnt_zl2(
     inputs: &[Series],
     context: CallerContext,
diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index b74835b..0d74538 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -1,3 +1,4 @@
+use crate::utils::f64_output;
 use faer::reborrow::IntoConst;
 /// All things true positive, false positive related.
 /// ROC AUC, Average Precision, precision, recall, etc. m
@@ -208,7 +209,7 @@ fn binary_confusion_matrix(combined_series: &UInt32Chunked) -> [u32; 4] {
     output
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let combined_series = &inputs[0];
     let combined_series = combined_series.u32()?;
@@ -225,7 +226,7 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(Series::from_iter([phi]))
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     // actual, when passed in, is always u32 (done in Python extension side)
     let actual = &inputs[0];
diff --git a/src/num_ext/trapz.rs b/src/num_ext/trapz.rs
index 2ac4cb5..42f01d4 100644
--- a/src/num_ext/trapz.rs
+++ b/src/num_ext/trapz.rs
@@ -1,4 +1,5 @@
 /// Integration via Trapezoidal rule.
+use crate::utils::f64_output;
 use cfavml;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
@@ -23,7 +24,7 @@ pub fn trapz_dx(y: &[f64], dx: f64) -> f64 {
     dx * (s + ss)
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_trapz(inputs: &[Series]) -> PolarsResult<Series> {
     let y = inputs[0].f64()?;
     let x = inputs[1].f64()?;
diff --git a/src/stats/kendall_tau.rs b/src/stats/kendall_tau.rs
index df1bfdb..733a40f 100644
--- a/src/stats/kendall_tau.rs
+++ b/src/stats/kendall_tau.rs
@@ -1,10 +1,11 @@
 /// O(nlogn) implementation of Kendall's Tau correlation
 /// Implemented by translating the Java code:
 /// https://www.hipparchus.org/xref/org/hipparchus/stat/correlation/KendallsCorrelation.html
+use crate::utils::f64_output;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 pub fn pl_kendall_tau(inputs: &[Series]) -> PolarsResult<Series> {
     let name = inputs[0].name();
     let mut binding = df!("x" => &inputs[0], "y" => &inputs[1])?
diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index 93af729..8350a1f 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -1,5 +1,5 @@
 /// Generates random sample from distributions for Polars DataFrame
-use crate::utils::float_output;
+use crate::utils::{f64_output, float_output, i32_output, str_output, u64_output};
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 use rand::distributions::Uniform;
@@ -15,7 +15,7 @@ fn rng_from_seed(seed: Option<u64>) -> StdRng {
     }
 }
 
-#[polars_expr(output_type=Int32)]
+#[polars_expr(output_type_func=i32_output)]
 fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
     let n = inputs[0].u32()?;
     let n = n.get(0).unwrap() as usize;
@@ -36,7 +36,7 @@ fn pl_rand_int(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type=UInt64)]
+#[polars_expr(output_type_func=u64_output)]
 fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
@@ -52,7 +52,7 @@ fn pl_rand_binomial(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
@@ -73,7 +73,7 @@ fn pl_rand_exp(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
     let len: &ChunkedArray<UInt32Type> = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
@@ -161,7 +161,7 @@ fn pl_jitter(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
@@ -186,7 +186,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
diff --git a/src/stats/xi_corr.rs b/src/stats/xi_corr.rs
index f79481e..c8e6ecf 100644
--- a/src/stats/xi_corr.rs
+++ b/src/stats/xi_corr.rs
@@ -1,3 +1,4 @@
+use crate::utils::f64_output;
 use super::simple_stats_output;
 use crate::stats_utils::normal;
 use polars::{prelude::*, series::ops::NullBehavior};
@@ -23,7 +24,7 @@ fn _xi_corr(inputs: &[Series]) -> PolarsResult<Series> {
         .clone())
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 pub fn pl_xi_corr(inputs: &[Series]) -> PolarsResult<Series> {
     _xi_corr(inputs)
 }
diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 55bc2b6..dad42b5 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -1,6 +1,6 @@
 /// Returns a simple ratio between two strings or `None` if `ratio < score_cutoff`
 /// The simple ratio is
-use crate::utils::split_offsets;
+use crate::utils::{f64_output, split_offsets};
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
     derive::{polars_expr, CallerContext},
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::{distance::indel, fuzz::ratio};
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index 3b4384f..8c06dff 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -1,4 +1,4 @@
-use crate::utils::split_offsets;
+use crate::utils::{bool_output, split_offsets, u32_output};
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
     derive::{polars_expr, CallerContext},
@@ -21,7 +21,7 @@ fn hamming_within_bound(x: &str, y: &str, bound: usize) -> bool {
     // If result is Option<usize>, return true if is some. Every other case return false
 }
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -117,7 +117,7 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -180,7 +180,7 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     }
 }
 
-#[polars_expr(output_type=Boolean)]
+#[polars_expr(output_type_func=bool_output)]
 fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/inflections.rs b/src/str_ext/inflections.rs
index 4a625e7..825199b 100644
--- a/src/str_ext/inflections.rs
+++ b/src/str_ext/inflections.rs
@@ -1,28 +1,29 @@
+use crate::utils::str_output;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn pl_to_camel(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let out: StringChunked = ca.apply_values(|s| inflections::case::to_camel_case(s).into());
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn pl_to_snake(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let out: StringChunked = ca.apply_values(|s| inflections::case::to_snake_case(s).into());
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn pl_to_pascal(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let out: StringChunked = ca.apply_values(|s| inflections::case::to_pascal_case(s).into());
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn pl_to_constant(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let out: StringChunked = ca.apply_values(|s| inflections::case::to_constant_case(s).into());
diff --git a/src/str_ext/is_stopword.rs b/src/str_ext/is_stopword.rs
index 423582f..fc89932 100644
--- a/src/str_ext/is_stopword.rs
+++ b/src/str_ext/is_stopword.rs
@@ -1,10 +1,11 @@
 /// Checks whether or not the string is a stopword
 /// Currently only supports English
+use crate::utils::bool_output;
 use super::consts::EN_STOPWORDS;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-#[polars_expr(output_type=Boolean)]
+#[polars_expr(output_type_func=bool_output)]
 fn pl_is_stopword(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let out: BooleanChunked = ca.apply_nonnull_values_generic(DataType::Boolean, |s| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 9831ab0..2581666 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -1,5 +1,5 @@
 use super::generic_str_distancer::{generic_batched_sim, generic_binary_sim};
-use crate::utils::split_offsets;
+use crate::utils::{f64_output, split_offsets};
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
     derive::{polars_expr, CallerContext},
@@ -25,7 +25,7 @@ fn jw_sim(s1: &str, s2: &str, weight: f64) -> f64 {
     )
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -52,7 +52,7 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index fea680c..962871b 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -1,3 +1,4 @@
+use crate::utils::{f64_output, u32_output};
 use super::generic_str_distancer::{
     generic_batched_distance, generic_batched_sim, generic_binary_distance, generic_binary_sim,
 };
@@ -15,7 +16,7 @@ fn lcs_seq_sim(s1: &str, s2: &str) -> f64 {
     lcs_seq::normalized_similarity(s1.chars(), s2.chars())
 }
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -42,7 +43,7 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_lcs_seq_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index ce74e06..a583495 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -1,7 +1,7 @@
 use super::generic_str_distancer::{
     generic_batched_distance, generic_batched_sim, generic_binary_distance, generic_binary_sim,
 };
-use crate::utils::split_offsets;
+use crate::utils::{bool_output, f64_output, split_offsets, u32_output};
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
     derive::{polars_expr, CallerContext},
@@ -42,7 +42,7 @@ fn d_levenshtein_sim(s1: &str, s2: &str) -> f64 {
     damerau_levenshtein::normalized_similarity(s1.chars(), s2.chars())
 }
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -69,7 +69,7 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type=Boolean)]
+#[polars_expr(output_type_func=bool_output)]
 fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -141,7 +141,7 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -168,7 +168,7 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     }
 }
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -200,7 +200,7 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 309ebdb..99db516 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -1,3 +1,4 @@
+use crate::utils::str_output;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 use rapidfuzz::distance::{hamming, levenshtein};
@@ -56,7 +57,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     nearest_str
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 pub fn pl_nearest_str(inputs: &[Series], kwargs: NearestStrKwargs) -> PolarsResult<Series> {
     let s = inputs[0].str()?;
     let word = kwargs.word;
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index de76c97..7ba1cb1 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -1,3 +1,4 @@
+use crate::utils::{f64_output, u32_output};
 use super::generic_str_distancer::{
     generic_batched_distance, generic_batched_sim, generic_binary_distance, generic_binary_sim,
 };
@@ -15,7 +16,7 @@ fn osa_sim(s1: &str, s2: &str) -> f64 {
     osa::normalized_similarity(s1.chars(), s2.chars())
 }
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type_func=u32_output)]
 fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
@@ -42,7 +43,7 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index b78ea81..ce94ce2 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -1,5 +1,5 @@
 use super::str_set_sim_helper;
-use crate::utils::split_offsets;
+use crate::utils::{f64_output, split_offsets};
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
     derive::{polars_expr, CallerContext},
@@ -18,7 +18,7 @@ fn overlap_coeff(w1: &str, w2: &str, ngram: usize) -> f64 {
     (intersect as f64) / ((s1.min(s2)) as f64)
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/snowball_stem.rs b/src/str_ext/snowball_stem.rs
index 07fed5f..266fd34 100644
--- a/src/str_ext/snowball_stem.rs
+++ b/src/str_ext/snowball_stem.rs
@@ -1,3 +1,4 @@
+use crate::utils::str_output;
 use super::consts::EN_STOPWORDS;
 use super::snowball::{algorithms, SnowballEnv};
 use polars::prelude::*;
@@ -14,7 +15,7 @@ fn snowball(s: &str, no_stopwords: bool, output: &mut String) {
     };
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn pl_snowball_stem(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let no_stop = inputs[1].bool()?;
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index 3cfa62a..c5666f5 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -1,5 +1,5 @@
 use super::str_set_sim_helper;
-use crate::utils::split_offsets;
+use crate::utils::{f64_output, split_offsets};
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
     derive::{polars_expr, CallerContext},
@@ -18,7 +18,7 @@ fn sorensen_dice(w1: &str, w2: &str, ngram: usize) -> f64 {
     ((2 * intersect) as f64) / ((s1 + s2) as f64)
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/str_cleaning.rs b/src/str_ext/str_cleaning.rs
index c36c0de..a31613f 100644
--- a/src/str_ext/str_cleaning.rs
+++ b/src/str_ext/str_cleaning.rs
@@ -1,3 +1,4 @@
+use crate::utils::str_output;
 use itertools::Itertools;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
@@ -23,7 +24,7 @@ impl TryFrom<String> for NormalForm {
     }
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn remove_non_ascii(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let out =
@@ -31,7 +32,7 @@ fn remove_non_ascii(inputs: &[Series]) -> PolarsResult<Series> {
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn remove_diacritics(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let out =
@@ -44,7 +45,7 @@ struct NormalizeKwargs {
     form: String,
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn normalize_string(inputs: &[Series], kwargs: NormalizeKwargs) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let form: NormalForm = kwargs.form.try_into()?;
@@ -62,7 +63,7 @@ struct MapWordsKwargs {
     mapping: ahash::HashMap<String, String>,
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn map_words(inputs: &[Series], kwargs: MapWordsKwargs) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let mapping = kwargs.mapping;
@@ -77,7 +78,7 @@ fn map_words(inputs: &[Series], kwargs: MapWordsKwargs) -> PolarsResult<Series>
     Ok(out.into_series())
 }
 
-#[polars_expr(output_type=String)]
+#[polars_expr(output_type_func=str_output)]
 fn normalize_whitespace(inputs: &[Series]) -> PolarsResult<Series> {
     let ca = inputs[0].str()?;
     let out = ca.apply_into_string_amortized(|s, buf| *buf = s.split_whitespace().join(" "));
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index ba018aa..1ea8278 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -1,5 +1,5 @@
 use super::str_set_sim_helper;
-use crate::utils::split_offsets;
+use crate::utils::{f64_output, split_offsets};
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
     derive::{polars_expr, CallerContext},
@@ -19,7 +19,7 @@ fn str_jaccard(w1: &str, w2: &str, ngram: usize) -> f64 {
     (intersect as f64) / ((s1 + s2 - intersect) as f64)
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 3239c40..14f4c43 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -1,5 +1,5 @@
 use super::str_set_sim_helper;
-use crate::utils::split_offsets;
+use crate::utils::{f64_output, split_offsets};
 use polars::prelude::{arity::binary_elementwise_values, *};
 use pyo3_polars::{
     derive::{polars_expr, CallerContext},
@@ -21,7 +21,7 @@ fn tversky_sim(w1: &str, w2: &str, ngram: usize, alpha: f64, beta: f64) -> f64 {
     (intersect as f64) / (intersect as f64 + alpha * s1ms2 + beta * s2ms1)
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type_func=f64_output)]
 fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 9279c80..b54daf5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -168,6 +168,28 @@ pub fn split_offsets(len: usize, n: usize) -> Vec<(usize, usize)> {
 // Common Output Types
 // -------------------------------------------------------------------------------
 
+// Output types that do not depend on the inputs. Unlike `output_type = ...`, an output function
+// runs inside catch_unwind, so that an input type which this build of Polars cannot import
+// (e.g. Categorical, Enum, Decimal) is an error and not an abort of the process.
+macro_rules! fixed_output {
+    ($($name:ident => $dtype:ident),*) => {
+        $(
+            pub fn $name(fields: &[Field]) -> PolarsResult<Field> {
+                FieldsMapper::new(fields).with_dtype(DataType::$dtype)
+            }
+        )*
+    };
+}
+
+fixed_output!(
+    f64_output => Float64,
+    bool_output => Boolean,
+    i32_output => Int32,
+    u32_output => UInt32,
+    u64_output => UInt64,
+    str_output => String
+);
+
 pub fn first_field_output(fields: &[Field]) -> PolarsResult<Field> {
     Ok(fields[0].clone())
 }
-- 
2.43.0


From 45a33daf90fc0bd792efcc4c415e1df23ece048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 094/106] fix: DIA.infer_dependency takes the categorical
 columns it includes

---
 python/polars_ds/eda/diagnosis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 9a23da5..a86d601 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -750,6 +750,10 @@ class DIA:
                 stacklevel=2,
             )
 
+        # The entropy expression cannot take a categorical column. Its codes serve as well.
+        def as_key(c: str) -> pl.Expr:
+            return pl.col(c).to_physical() if c in self.cats else pl.col(c)
+
         # Construct output
         column = []
         by = []
@@ -759,7 +763,7 @@ class DIA:
 
         ce = (
             self._frame.select(
-                query_cond_entropy(x, y).abs().alias(f"{i}")
+                query_cond_entropy(as_key(x), as_key(y)).abs().alias(f"{i}")
                 for i, (x, y) in enumerate(zip(column, by))
             )
             .collect()
-- 
2.43.0


From 58cbec15301ad9761f0c2c4f5a1bfa0e22b37fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:48 +0000
Subject: [PATCH 095/106] Revert "fix: normal_test keeps the sign of the
 kurtosis term for very flat data"

This reverts commit bfb2df4f576a6132d846b4ecb6333b0d85b2704b.
---
 src/stats/normal_test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats/normal_test.rs b/src/stats/normal_test.rs
index 6650c5c..fca4eab 100644
--- a/src/stats/normal_test.rs
+++ b/src/stats/normal_test.rs
@@ -45,7 +45,7 @@ fn kurtosis_test_statistic(kur: f64, n: usize) -> f64 {
         f64::NAN
     } else {
         let term1 = 1. - tmp;
-        let term2 = ((1. - 2. / a) / denom).cbrt();
+        let term2 = ((1. - 2. / a) / denom.abs()).cbrt();
         let z = (term1 - term2) / tmp.sqrt();
         z
     }
-- 
2.43.0


From a106526319489d33d1f9ca0bb823718e8a0d4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 096/106] fix: pca and principal_components of fewer rows than
 columns

---
 src/num_ext/pca.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/pca.rs b/src/num_ext/pca.rs
index d22a30c..7ccac02 100644
--- a/src/num_ext/pca.rs
+++ b/src/num_ext/pca.rs
@@ -119,7 +119,7 @@ fn pl_principal_components(
         let compute = ComputeSvdVectors::Thin;
         let dim = Ord::min(mat.nrows(), mat.ncols());
         let mut s = Col::<f64>::zeros(dim);
-        let mut v = Mat::<f64>::zeros(dim, dim);
+        let mut v = Mat::<f64>::zeros(n, dim);
         let par = Par::rayon(0);
         faer::linalg::svd::svd(
             mat,
@@ -162,7 +162,7 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let dim = Ord::min(mat.nrows(), mat.ncols());
     let mut s = vec![0f64; dim];
     let cs = ColMut::from_slice_mut(&mut s);
-    let mut v = Mat::<f64>::zeros(dim, dim);
+    let mut v = Mat::<f64>::zeros(n, dim);
     let par = Par::rayon(0);
     let compute = ComputeSvdVectors::Thin;
 
@@ -187,9 +187,9 @@ fn pl_pca(inputs: &[Series]) -> PolarsResult<Series> {
     let mut builder: PrimitiveChunkedBuilder<Float64Type> =
         PrimitiveChunkedBuilder::new("singular_value".into(), dim);
     let mut list_builder: ListPrimitiveChunkedBuilder<Float64Type> =
-        ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim, DataType::Float64);
+        ListPrimitiveChunkedBuilder::new("weight_vector".into(), dim, dim * n, DataType::Float64);
 
-    for i in 0..v.nrows() {
+    for i in 0..dim {
         builder.append_value(s[i]);
         list_builder.append_slice(v.col_as_slice(i));
     }
-- 
2.43.0


From 45b8213803f9e69208c237a2b527c7bf6f5342b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 097/106] fix: Blueprint.drop takes selectors and expressions

---
 python/polars_ds/modeling/_structures.py | 15 ++++++++-------
 python/polars_ds/modeling/pipeline.py    | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/python/polars_ds/modeling/_structures.py b/python/polars_ds/modeling/_structures.py
index 6517347..74b3af4 100644
--- a/python/polars_ds/modeling/_structures.py
+++ b/python/polars_ds/modeling/_structures.py
@@ -9,11 +9,19 @@ from typing import List, Sequence, Dict
 from polars._typing import IntoExprColumn
 
 
+class PLContext(Enum):
+    SELECT = "select"
+    WITH_COLUMNS = "with_columns"
+    SQL = "sql"
+    FILTER = "filter"
+
+
 @dataclass
 class FitStep:  # Not a FittedStep
     func: FitTransformFunc
     cols: IntoExprColumn | None
     exclude: List[str]
+    context: PLContext = PLContext.WITH_COLUMNS  # Where the fitted expressions go
 
     # Here we allow IntoExprColumn as input so that users can use selectors, or other polars expressions
     # to specify input columns, which adds flexibility.
@@ -30,13 +38,6 @@ class FitStep:  # Not a FittedStep
             return self.func(df, real_cols)
 
 
-class PLContext(Enum):
-    SELECT = "select"
-    WITH_COLUMNS = "with_columns"
-    SQL = "sql"
-    FILTER = "filter"
-
-
 class PipelineStep:
     def __init__(self, action: str | pl.Expr | Sequence[pl.Expr], context: str | PLContext):
         self.context = context if isinstance(context, PLContext) else PLContext(context)
diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index aee5d50..73a6da6 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -634,7 +634,19 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
-        self._steps.append(PipelineStep(pl.all().exclude(cols), PLContext.SELECT))
+        if isinstance(cols, str) or (
+            not isinstance(cols, pl.Expr) and all(isinstance(c, str) for c in cols)
+        ):
+            self._steps.append(PipelineStep(pl.all().exclude(cols), PLContext.SELECT))
+        else:  # Only the frame at fit time knows the names
+            self._steps.append(
+                FitStep(
+                    lambda _, names: [pl.all().exclude(names)],
+                    cols,
+                    [],
+                    context=PLContext.SELECT,
+                )
+            )
         return self
 
     def rename(self, rename_dict: Dict[str, str]) -> Self:
@@ -932,9 +944,9 @@ class Blueprint:
         for step in self._steps:
             if isinstance(step, FitStep):  # Need fitting
                 df_temp = df_lazy.collect()
-                exprs = step.fit(df_temp)
-                transforms.append(PipelineStep(exprs, PLContext.WITH_COLUMNS))
-                df_lazy = df_temp.lazy().with_columns(exprs)
+                fitted = PipelineStep(step.fit(df_temp), step.context)
+                transforms.append(fitted)
+                df_lazy = fitted.apply_df(df_temp.lazy())
             elif isinstance(step, PipelineStep):
                 transforms.append(step)
                 df_lazy = step.apply_df(df_lazy)
-- 
2.43.0


From 223c99b29a7f08a1f4f42fc0fff658cb83bbd557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 098/106] fix: Blueprint.select takes column names

---
 python/polars_ds/modeling/pipeline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index 73a6da6..c789c0b 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -539,7 +539,11 @@ class Blueprint:
         cols
             Any Polars expression that can be understood as columns.
         """
-        self._steps.append(PipelineStep(cols, PLContext.SELECT))
+        if isinstance(cols, (str, pl.Expr)):
+            cols = [cols]
+        self._steps.append(
+            PipelineStep([pl.col(c) if isinstance(c, str) else c for c in cols], PLContext.SELECT)
+        )
         return self
 
     # Not working after pl.Int128 is introduced
-- 
2.43.0


From 85f786782ec249f34f58ad064002c0aae5ca3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 099/106] fix: Blueprint.rename keeps columns that trade names

---
 python/polars_ds/modeling/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index c789c0b..37624a0 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -662,13 +662,14 @@ class Blueprint:
         rename_dict
             The name mapping
         """
-        old = list(rename_dict.keys())
+        new = set(rename_dict.values())
+        old = [k for k in rename_dict.keys() if k not in new]
         self._steps.append(
             PipelineStep(
                 [pl.col(k).alias(v) for k, v in rename_dict.items()], PLContext.WITH_COLUMNS
             )
         )
-        return self.drop(old)
+        return self.drop(old) if old else self
 
     def one_hot_encode(
         self,
-- 
2.43.0


From 1daf0f578f9b7fc44539c4241ea056bb2c7105e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:19 +0000
Subject: [PATCH 100/106] fix: r2 and adj_r2 of the weighted lin_reg_report
 count the rows that are kept

The variance came from all rows of the target, those left out for a null included,
and adj_r2 took the bias for a feature.
---
 src/num_ext/linear_regression.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index ff4448e..ede133b 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -777,10 +777,7 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
     let binding = inputs[0].cast(&DataType::Float64)?;
-    let binding2 = inputs[1].cast(&DataType::Float64)?;
-    let y_var = binding2.f64().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f64::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is the variance of y over all rows, 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(3) + (has_bias) as usize,
@@ -823,11 +820,16 @@ fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
             let mse =
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
-            // r2, adj_r2
-            let nf64 = nrows as f64;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf64);
+            // r2, adj_r2. Only rows that are kept count.
+            let y_mean = y.sum() / nrows as f64;
+            let tss = y
+                .col(0)
+                .iter()
+                .fold(0., |acc, v| acc + (*v - y_mean) * (*v - y_mean));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / (dof - 1.0));
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f64 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
-- 
2.43.0


From 67a7ce7fc125ee492607c6b6cf915f2f009b68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 101/106] fix: r2 and adj_r2 of the weighted lin_reg_report,
 single precision

---
 src/num_ext/linear_regression_f32.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index ac68ed0..8e96831 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -718,10 +718,7 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
         .map_err(|e| PolarsError::ComputeError(e.into()))?;
 
     let binding = inputs[0].cast(&DataType::Float32)?;
-    let binding2 = inputs[1].cast(&DataType::Float32)?;
-    let y_var = binding2.f32().unwrap();
-    let y_var = y_var.get(0).unwrap_or(f32::NAN);
-    // index 0 is weights, 1 is y_var, 2 is target y. Skip them
+    // index 0 is weights, 1 is the variance of y over all rows, 2 is target y. Skip them
     let mut name_builder = StringChunkedBuilder::new(
         "features".into(),
         inputs.len().abs_diff(3) + (has_bias) as usize,
@@ -764,11 +761,16 @@ fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
             let mse =
                 (0..y.nrows()).fold(0., |acc, i| acc + weights[i] * res.get(i, 0).powi(2)) / dof;
 
-            // r2, adj_r2
-            let nf32 = nrows as f32;
-            let ratio = res.col(0).squared_norm_l2() / (y_var * nf32);
+            // r2, adj_r2. Only rows that are kept count.
+            let y_mean = y.sum() / nrows as f32;
+            let tss = y
+                .col(0)
+                .iter()
+                .fold(0., |acc, v| acc + (*v - y_mean) * (*v - y_mean));
+            let ratio = res.col(0).squared_norm_l2() / tss;
             let r2 = 1.0 - ratio;
-            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / (dof - 1.0));
+            let adj_dof = if has_bias { dof } else { dof - 1.0 };
+            let adj_r2 = 1.0 - ratio * ((nrows - 1) as f32 / adj_dof);
 
             // std err
             let std_err = (0..ncols)
-- 
2.43.0


From f9c9448888601cfed6c3a889665fa43543c30805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 102/106] fix: auto_corr, transfer_entropy and multi_roc_auc
 use the length of their own input

The three took pl.len(), the height of the frame, for the length of the
expression they are given.  For a filtered or sliced expression, and in compat
mode (where there is no frame at all), query_auto_corr returned a wrong
correlation or NaN, query_transfer_entropy failed, and the weighted
query_multi_roc_auc was scaled by the wrong number of rows.
---
 python/polars_ds/exprs/metrics.py     | 2 +-
 python/polars_ds/exprs/ts_features.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 7935aa9..febcdc7 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -551,7 +551,7 @@ def query_multi_roc_auc(
         preds = [p.list.get(i) for i in range(n_classes)]
         return (
             pl.sum_horizontal(a.sum() * query_roc_auc(a, p) for a, p in zip(actuals, preds))
-            / pl.len()
+            / a.len()
         )
     else:
         raise NotImplementedError
diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index 017040a..770227f 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -410,7 +410,7 @@ def query_auto_corr(x: str | pl.Expr, lag: int, ddof: int = 0, normalize: bool =
     if normalize:
         x_m = xx - xx.mean()
         var = xx.var(ddof=ddof)
-        n = pl.len()
+        n = xx.len()
         n_minus_lag = pl.when(n < lag).then(float("nan")).otherwise(n - lag)
         return x_m.dot(x_m.shift(-lag)) / (n_minus_lag * var)
     else:
@@ -726,9 +726,9 @@ def query_transfer_entropy(
         raise ValueError("Input `lag` must be >= 1.")
 
     xx = str_to_expr(x)
-    x1 = xx.slice(0, pl.len() - lag)
-    x2 = xx.slice(lag, pl.len() - lag)  # (equivalent to slice(lag, None), but will break in v1.0)
-    s = str_to_expr(source).slice(0, pl.len() - lag)
+    x1 = xx.slice(0, xx.len() - lag)
+    x2 = xx.slice(lag, xx.len() - lag)  # (equivalent to slice(lag, None), but will break in v1.0)
+    s = str_to_expr(source).slice(0, xx.len() - lag)
     return query_cond_indep(x2, s, x1, k=k, parallel=parallel)
 
 
-- 
2.43.0


From b7e04bc3f8fcc3b705a9e83bc837d08aefb65c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 103/106] fix: xlogy with a scalar on one side gives a value
 per row

A scalar, such as the 2.0 of xlogy(2.0, "x") or of xlogy("x", pl.lit(2.0)), was
not broadcast: the plugin paired it with the first row only and returned a
single value, which a select or with_columns then repeats for every row.
---
 src/num_ext/float_extras.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index 4e001ec..2f7e208 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -3,7 +3,7 @@ use crate::stats_utils::gamma::digamma;
 /// trunc, fract, exp2, logit, expit, gamma,
 /// The logit, expit and gamma functions are as defined in SciPy
 use crate::utils::{first_field_output, float_output, f64_output};
-use arity::binary_elementwise_values;
+use arity::broadcast_binary_elementwise_values;
 use num::traits::Float;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
@@ -276,7 +276,7 @@ fn pl_xlogy(inputs: &[Series]) -> PolarsResult<Series> {
     let s2 = &inputs[1];
     let ca1 = s1.f64().unwrap();
     let ca2 = s2.f64().unwrap();
-    let ca: Float64Chunked = binary_elementwise_values(ca1, ca2, xlogy::<f64>);
+    let ca: Float64Chunked = broadcast_binary_elementwise_values(ca1, ca2, xlogy::<f64>);
     Ok(ca.into_series())
 }
 
-- 
2.43.0


From 4a3015a5601d075f4916be30d8d7f2d8df12da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:47 +0000
Subject: [PATCH 104/106] fix: predict_df of LR and ElasticNet is a plain
 Polars expression

A NumPy scalar times an expression goes through Expr.__array_ufunc__, which
turns the product into a Python function (map_batches) for every coefficient.
The pool's workers then wait for the GIL, and a thread that holds the GIL while
it waits for the pool, as the to_numpy() of a concurrent fit_df does, never gets
an answer: the two calls deadlock.
---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index f9ee37d..f349e3d 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -294,7 +294,7 @@ class LR:
             )
 
         pred = pl.sum_horizontal(
-            beta * pl.col(c) for c, beta in zip(self.feature_names_in_, self._lr.coeffs)
+            float(beta) * pl.col(c) for c, beta in zip(self.feature_names_in_, self._lr.coeffs)
         )
         bias = self._lr.bias
         if bias != 0.0:
@@ -497,7 +497,7 @@ class ElasticNet:
             )
 
         pred = pl.sum_horizontal(
-            beta * pl.col(c) for c, beta in zip(self.feature_names_in_, self._en.coeffs)
+            float(beta) * pl.col(c) for c, beta in zip(self.feature_names_in_, self._en.coeffs)
         )
         bias = self._en.bias
         if bias != 0.0:
-- 
2.43.0


From f2d837306dead7e1e90556c8e795f2805103dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:47 +0000
Subject: [PATCH 105/106] fix: within_dist_from and is_knn_from by cosine
 distance to a NumPy point stay plain expressions

As in predict_df: the elements of a NumPy array times an expression become
Python functions, which need the GIL in the pool's workers, and can deadlock
with a thread that waits for the pool and holds the GIL.
---
 python/polars_ds/exprs/expr_knn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index d2eb5e1..cfbf596 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -382,7 +382,7 @@ def within_dist_from(
             <= r
         )
     elif dist == "cosine":
-        x_list = list(pt)
+        x_list = [float(x) for x in pt]  # a NumPy scalar would make Python functions of the products
         x_norm = sum(z * z for z in x_list)
         oth_norm = pl.sum_horizontal(e * e for e in oth)
         distN = (
@@ -455,7 +455,7 @@ def is_knn_from(
         )
         return _is_k_smallest(dist_out, k)
     elif dist == "cosine":
-        x_list = list(pt)
+        x_list = [float(x) for x in pt]  # a NumPy scalar would make Python functions of the products
         x_norm = sum(z * z for z in x_list)
         oth_norm = pl.sum_horizontal(e * e for e in oth)
         dist_out = (
-- 
2.43.0


From f96a302fea0e22cc01e28245f9f6fcf1a2523a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:06 +0000
Subject: [PATCH 106/106] fix: the discounts of ndcg are a plain Polars
 expression

np.log2 of an expression is a Python function run in the pool's workers, which
can deadlock with a thread that waits for the pool and holds the GIL.
---
 python/polars_ds/exprs/metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index febcdc7..3d07c74 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -2,7 +2,6 @@
 
 from __future__ import annotations
 
-import numpy as np
 import polars as pl
 
 # Internal dependencies
@@ -811,7 +810,7 @@ def _get_rank_discount_at_k(df, k, group_col):
         df = df.with_columns(pl.lit(1).alias("discount_mask"))
 
     df = df.with_columns(
-            ((1 / np.log2(pl.col("rank") + 1))*pl.col('discount_mask')).alias("discount")
+            ((1 / (pl.col("rank") + 1).log(2))*pl.col('discount_mask')).alias("discount")
         )
     return df 
 
-- 
2.43.0


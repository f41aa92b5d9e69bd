From 1c4fcc6e7c483c52cf60f14d145c0ecd7178b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:26 +0000
Subject: [PATCH 01/35] fix: Greenwell interactions with a feature that has one
 distinct value

statistics.stdev raises StatisticsError for a single data point, so fitting
failed whenever a feature was constant on the (sampled) data. The dispersion
of a single value is zero.
---
 .../partial_dependence_based/_greenwell.py            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
index 9468a40..2ef516c 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
@@ -80,9 +80,9 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         for pair in self.pairs:
             pair = self.pd_calculator._get_pair_key((pair[0], pair[1]))
             pd_values = self.pd_calculator.get_pd_pairs(pair[0], pair[1])
-            res_j = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
+            res_j = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
                                                                       is_numerical=pair[1] in num_features))
-            res_i = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
+            res_i = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
                                                                       is_numerical=pair[0] in num_features))
             value_pairs.append([pair[0], pair[1], (res_j + res_i) / 2])
         return pd.DataFrame(value_pairs, columns=["Feature 1", "Feature 2", self.method]).sort_values(
@@ -91,4 +91,9 @@ class GreenwellMethod(PartialDependenceBasedMethod):
 
 
 def _calc_conditional_imp(pd_values: np.ndarray, is_numerical: bool):
-    return stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+    return _stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+
+
+def _stdev(values: np.ndarray) -> float:
+    # a feature with a single distinct value has no dispersion (statistics.stdev raises for one data point)
+    return stdev(values) if len(values) > 1 else 0.0
-- 
2.43.0


From d825543f647023afd7e6a96abd9f4bb5acfd0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:08 +0000
Subject: [PATCH 02/35] fix: refitting the H-statistic without one-vs-all keeps
 the previous fit's one-vs-all values

---
 .../partial_dependence_based/_friedman_h_statistic.py          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ceeaa46..ee12a68 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -105,8 +105,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             If True, one vs all interactions will be calculated. Default is True.
         """
         super().fit(model, X, n, predict_function, features, show_progress, batchsize, pd_calculator)
-        if calculate_ova:
-            self.ova = self._calculate_ova_interactions_from_pd(show_progress)
+        self.ova = self._calculate_ova_interactions_from_pd(show_progress) if calculate_ova else None
 
     def plot(self,
              vis_type: str = VisualizationType.HEATMAP,
-- 
2.43.0


From d5dcacdbf8e48ee0607e3dbb9c283450e3beb2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:08 +0000
Subject: [PATCH 03/35] fix: H-statistic fitted without one-vs-all values
 cannot be plotted at all

---
 .../partial_dependence_based/_friedman_h_statistic.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ee12a68..af47695 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -175,7 +175,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             Used for 'graph' visualization. Minimum (or maximum, depends on method) value of interaction to display
             corresponding edge on visualization. Default depends on the interaction method.
         """
-        if self.ova is None:
+        if self.ovo is None or (self.ova is None and vis_type == VisualizationType.BAR_CHART_OVA):
             raise MethodNotFittedException(self.method)
 
         self.visualizer.plot(self.ovo,
-- 
2.43.0


From 1102691c0cb525f6ae9590a1699cc910c15bfb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:08 +0000
Subject: [PATCH 04/35] fix: sampled targets do not belong to the sampled rows
 unless the index is 0..n-1

---
 artemis/_utilities/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index f399978..f089222 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -26,8 +26,8 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
     if n is None:
         return X, y
     else:
-        X_sampled = X.sample(n, random_state=random_generator)
-        return X_sampled, y[X_sampled.index]
+        rows = pd.Series(range(len(X))).sample(n, random_state=random_generator).values
+        return X.iloc[rows], y.iloc[rows] if isinstance(y, pd.Series) else y[rows]
 
 
 def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
-- 
2.43.0


From 6a701b9808d5b5141e7c30452a0492a0bb10e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:08 +0000
Subject: [PATCH 05/35] fix: feature importance of the performance based method
 ignores random_state

---
 .../model_agnostic/performance_based/_sejong_oh.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 7468f36..9d9c0b3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -103,7 +103,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
-        self._feature_importance_obj = PermutationImportance(self.metric)
+        self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
         self.feature_importance = self._feature_importance_obj.importance(model, X=self.X_sampled,
                                                                             y_true=self.y_sampled,
                                                                             n_repeat=n_repeat,
-- 
2.43.0


From 333f7570c4fd5147d38d57fb9e4b5b6b843900a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:08 +0000
Subject: [PATCH 06/35] fix: permutation importance fails when features is None

---
 .../model_agnostic/_permutational_importance.py               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 4901bbd..7f09e24 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -6,6 +6,7 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod, ProgressInfoLog, ProblemType
+from artemis._utilities.ops import all_if_none
 from artemis._utilities.performance_metrics import Metric, RMSE
 
 
@@ -75,7 +76,8 @@ class PermutationImportance(FeatureImportanceMethod):
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
         self.feature_importance = _permutation_importance(
-            model, X, y_true, self.metric, n_repeat, features, show_progress, self._random_generator
+            model, X, y_true, self.metric, n_repeat, all_if_none(X.columns, features), show_progress,
+            self._random_generator
         )
         return self.feature_importance
     @property
-- 
2.43.0


From 92a2dc23e41cd74fe44e56d13f19c12fd0a7719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:17 +0000
Subject: [PATCH 07/35] fix: split score interactions fail when no tree has a
 split below another split

---
 .../model_specific/gb_trees/_split_score.py                    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 0b4d0a7..3054663 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -206,7 +206,8 @@ def _calculate_full_result(
         .progress_apply(_prepare_stats, package=model_package)
         .reset_index(drop=True)
     )
-    return full_result[_COLUMNS_TO_CHOSE]
+    # parent columns do not exist when no tree has a split below another split
+    return full_result.reindex(columns=_COLUMNS_TO_CHOSE)
 
 
 def _prepare_stats(tree: pd.DataFrame, package: str):
-- 
2.43.0


From baa11e6de7720a6145f7801dc2f9c5ccb9d50e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:17 +0000
Subject: [PATCH 08/35] fix: split score importance ranks depth metrics from
 the deepest feature

---
 .../importance_methods/model_specific/_split_score.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f88e901..78aeb75 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -82,8 +82,10 @@ class SplitScoreImportance(FeatureImportanceMethod):
 
     @property
     def importance_ascending_order(self):
-        return self.selected_metric in [SplitScoreImportanceMetric.MEAN_DEPTH,
-                                        SplitScoreImportanceMetric.MEAN_WEIGHTED_DEPTH]
+        return self.selected_metric in _ASCENDING_ORDER_METRICS
+
+
+_ASCENDING_ORDER_METRICS = [SplitScoreImportanceMetric.MEAN_DEPTH, SplitScoreImportanceMetric.MEAN_WEIGHTED_DEPTH]
 
 
 def _calculate_all_feature_importance(
@@ -105,7 +107,7 @@ def _calculate_all_feature_importance(
         [importance_full_result, mean_weighted_depth], axis=1
     ).reset_index()
 
-    return importance_full_result.sort_values(selected_metric, ascending=False)
+    return importance_full_result.sort_values(selected_metric, ascending=selected_metric in _ASCENDING_ORDER_METRICS)
 
 
 def _calculate_basic_metrics(trees_df: pd.DataFrame):
@@ -146,7 +148,7 @@ def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
         ["split_feature", selected_metric]
     ].rename(columns={"split_feature": "Feature", selected_metric: "Importance"})
     return feature_importance.sort_values(
-        by="Importance", ascending=False, ignore_index=True
+        by="Importance", ascending=selected_metric in _ASCENDING_ORDER_METRICS, ignore_index=True
     )
 
 
-- 
2.43.0


From f2b9f6e01fc1003c5a4f69be239f37a90d18db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:17 +0000
Subject: [PATCH 09/35] fix: split score importance fails when no requested
 feature is used in a split

---
 artemis/importance_methods/model_specific/_split_score.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 78aeb75..7317b40 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -135,12 +135,11 @@ def _calculate_root_metrics(trees_df: pd.DataFrame):
 
 
 def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
+    # built from a dict because groupby.apply does not return a Series when there are no groups
     return pd.Series(
-        trees_df.groupby("split_feature").apply(
-            lambda x: np.average(x.depth, weights=x.gain)
-        ),
+        {feature: np.average(x.depth, weights=x.gain) for feature, x in trees_df.groupby("split_feature")},
         name="mean_weighted_depth",
-    )
+    ).rename_axis("split_feature")
 
 
 def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
-- 
2.43.0


From d4c83ad67ae3f4907eaf9d593850bfc3f28761b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:47 +0000
Subject: [PATCH 10/35] fix: conditional minimal depth is wrong for trees grown
 best-first

---
 .../_conditional_minimal_depth.py             | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 7525c24..8a75dfc 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -233,15 +233,33 @@ def _bfs(tree: pd.DataFrame):
 
 
 def _tree_representation(decision_tree_object):
-    """Efficient, sklearn-like table tree representation. Row = node in the tree."""
+    """
+    Efficient, sklearn-like table tree representation. Row = node in the tree.
+    Nodes are numbered depth-first, so that each subtree has consecutive ids. Scikit-learn numbers nodes differently
+    for trees grown best-first (with `max_leaf_nodes`).
+    """
+    order = _depth_first_order(decision_tree_object)
+    new_id = np.full(len(order) + 1, -1)  # -1 (no child) stays -1
+    new_id[order] = np.arange(len(order))
     return pd.DataFrame({
         "id": range(decision_tree_object.node_count),
-        "left_child": decision_tree_object.children_left,
-        "right_child": decision_tree_object.children_right,
-        "split_variable": decision_tree_object.feature,
+        "left_child": new_id[decision_tree_object.children_left[order]],
+        "right_child": new_id[decision_tree_object.children_right[order]],
+        "split_variable": decision_tree_object.feature[order],
     })
 
 
+def _depth_first_order(decision_tree_object):
+    order, stack = [], [0]
+    while stack:
+        node = stack.pop()
+        order.append(node)
+        if decision_tree_object.children_left[node] >= 0:
+            stack.append(decision_tree_object.children_right[node])
+            stack.append(decision_tree_object.children_left[node])
+    return np.array(order)
+
+
 def _conditional_minimal_depth(split_var_to_nodes: dict, depths: np.array, tree_id: int, column_size: int):
     """
     Main algorithm for efficient conditional minimal depth calculation.
-- 
2.43.0


From cb25d9951bdd1d7f89d96453abf6ed8150142f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:47 +0000
Subject: [PATCH 11/35] fix: minimal depth importance fails for a forest
 without any split

---
 artemis/importance_methods/model_specific/_minimal_depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_minimal_depth.py b/artemis/importance_methods/model_specific/_minimal_depth.py
index f6911ea..6d08714 100644
--- a/artemis/importance_methods/model_specific/_minimal_depth.py
+++ b/artemis/importance_methods/model_specific/_minimal_depth.py
@@ -70,7 +70,7 @@ class MinimalDepthImportance(FeatureImportanceMethod):
             )
 
         self.feature_importance = pd.DataFrame.from_records(
-            records_result
+            records_result, columns=["Feature", "Importance"]
         ).sort_values(by="Importance", ignore_index=True)
 
         return self.feature_importance
-- 
2.43.0


From 5a66cec457b5a5d93713c35fd9a323ac9a075c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:19 +0000
Subject: [PATCH 12/35] fix: bar charts of the summary plot are not ordered
 from the strongest

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e46d4ee..e6495db 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -364,7 +364,7 @@ class Visualizer:
             grid=True,
             ax=ax,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_barchart_ova(
             self,
@@ -395,7 +395,7 @@ class Visualizer:
             ax=ax,
             grid=True,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_summary(
             self,
-- 
2.43.0


From 3861b7f0da37bb8c2d93f90f24d5ccf4d48f8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:19 +0000
Subject: [PATCH 13/35] fix: summary plot ignores the order of interactions and
 importance

---
 artemis/visualizer/_visualizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e6495db..12137b0 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -51,6 +51,7 @@ class Visualizer:
                 title=title,
                 figsize=figsize,
                 interactions_ascending_order=interactions_ascending_order,
+                importance_ascending_order=importance_ascending_order,
                 _f1_name=_feature_column_name_1,
                 _f2_name=_feature_column_name_2,
                 _directed=_directed,
@@ -405,6 +406,7 @@ class Visualizer:
             title: str = "default",
             figsize: Tuple[float, float] = (8, 6),
             interactions_ascending_order: bool = False,
+            importance_ascending_order: bool = False,
             _f1_name: str = "Feature 1",
             _f2_name: str = "Feature 2",
             _directed: bool = False,
@@ -425,6 +427,7 @@ class Visualizer:
             ovo,
             feature_importance,
             interactions_ascending_order=interactions_ascending_order,
+            importance_ascending_order=importance_ascending_order,
             ax=ax1,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
@@ -435,6 +438,7 @@ class Visualizer:
             ovo,
             feature_importance,
             ax=ax2,
+            interactions_ascending_order=interactions_ascending_order,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
             _directed=_directed,
-- 
2.43.0


From c4f80603dda47f97b57b7e0e9997987ce09035ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:48 +0000
Subject: [PATCH 14/35] fix: heatmap shows interaction of a feature with itself
 instead of its importance

---
 artemis/visualizer/_visualizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 12137b0..3017cc7 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -189,7 +189,8 @@ class Visualizer:
             var_imp_diag = self._feature_importance_diag(
                 ovo, feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
             )
-            ovo_all_pairs = pd.concat([ovo_all_pairs, var_imp_diag])
+            # diagonal goes first to take precedence over interactions of a feature with itself
+            ovo_all_pairs = pd.concat([var_imp_diag, ovo_all_pairs])
 
         fig = None
         if ax is not None:
-- 
2.43.0


From e832c10cad057e41280eeb920a69074d67a0a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:48 +0000
Subject: [PATCH 15/35] fix: heatmap fails for features not used by the model

---
 artemis/visualizer/_visualizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 3017cc7..7ab06b2 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -202,6 +202,9 @@ class Visualizer:
         matrix = ovo_all_pairs.pivot_table(
             self.method, _f1_name, _f2_name, aggfunc="first"
         )
+        # features without any value are dropped from the pivot table
+        all_features = sorted(set(ovo_all_pairs[_f1_name]) | set(ovo_all_pairs[_f2_name]))
+        matrix = matrix.reindex(index=all_features, columns=all_features)
 
         matrix = self.order_heatmap(matrix, asc_order=interactions_ascending_order)
 
@@ -586,14 +589,13 @@ class Visualizer:
             _f2_name: str = "Feature 2",
     ):
         all_features = set(list(ovo[_f1_name]) + list(ovo[_f2_name]))
+        importance = dict(zip(feature_importance["Feature"], feature_importance["Importance"]))
         var_imp_diag = pd.DataFrame.from_records(
             [
                 {
                     _f1_name: f,
                     _f2_name: f,
-                    self.method: feature_importance[
-                        feature_importance["Feature"] == f
-                        ]["Importance"].values[0],
+                    self.method: importance.get(f, np.nan),
                 }
                 for f in all_features
             ]
-- 
2.43.0


From d07f007c86ff85f770a2b6dcd156c6ae28114022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:48 +0000
Subject: [PATCH 16/35] fix: graph fails for features without interactions or
 without importance

---
 artemis/visualizer/_visualizer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 7ab06b2..8403740 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -287,6 +287,9 @@ class Visualizer:
             edge_attr=self.method,
             create_using=nx.DiGraph if _directed else nx.Graph,
         )
+        if feature_importance is not None:
+            G.add_nodes_from(feature_importance["Feature"])
+            importance = dict(zip(feature_importance["Feature"], feature_importance["Importance"]))
         pos = nx.circular_layout(G)
 
         nx.draw(
@@ -295,12 +298,10 @@ class Visualizer:
             ax=ax,
             width=[G[u][v][self.method] for u, v in G.edges()],
             with_labels=True,
-            nodelist=list(feature_importance["Feature"])
-            if feature_importance is not None
-            else None,
+            nodelist=list(G.nodes()),
             node_size=[
-                node_size * val / np.max(feature_importance["Importance"])
-                for val in feature_importance["Importance"]
+                node_size * importance.get(feature, 0) / np.max(feature_importance["Importance"])
+                for feature in G.nodes()
             ]
             if feature_importance is not None
             else node_size,
-- 
2.43.0


From 060e7087800430c285ae09c1182642bd8443d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:12 +0000
Subject: [PATCH 17/35] fix: graph hides the strongest interactions of
 ascending order methods and equally strong interactions

---
 artemis/visualizer/_visualizer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 8403740..92f0310 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -329,7 +329,7 @@ class Visualizer:
                                      max_width: float):
 
         # standardize edge widths by scaling interactions to [0,1] interval
-        self._scale_to_unit_interval(ovo_copy)
+        self._scale_to_unit_interval(interactions_ascending_order, ovo_copy)
 
         # a => (1 - a) for ascending order
         self._reverse_scale_for_ascending(interactions_ascending_order, ovo_copy)
@@ -608,24 +608,27 @@ class Visualizer:
                                            threshold_relevant_interaction: float,
                                            ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = 0
+            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = np.nan
         else:
             ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = 0
 
         return ovo_copy.copy()
 
-    def _scale_to_unit_interval(self, ovo_copy: pd.DataFrame):
+    def _scale_to_unit_interval(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         vals = ovo_copy[self.method]
         m, M = np.min(vals), np.max(vals)
-        ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
+        if m < M:
+            ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
+        else:  # equally strong interactions
+            ovo_copy.loc[:, self.method] = vals * 0 if interactions_ascending_order else (vals > 0) * 1.0
 
     def _reverse_scale_for_ascending(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > 0, self.method] = 1 - ovo_copy.loc[
-                ovo_copy[self.method] > 0, self.method]
+            ovo_copy[self.method] = 1 - ovo_copy[self.method]
 
     def _map_to_width(self, max_width: float, ovo_copy: pd.DataFrame):
-        ovo_copy[self.method] = ovo_copy[self.method] * max_width
+        # insignificant or missing interactions have no width
+        ovo_copy[self.method] = (ovo_copy[self.method] * max_width).fillna(0)
 
     @staticmethod
     def order_heatmap(matrix: pd.DataFrame, asc_order: bool) -> pd.DataFrame:
-- 
2.43.0


From a674389e5cd29a9f48ebd50531c8d63dfb0177cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:12 +0000
Subject: [PATCH 18/35] fix: lollipop plot omits trees, e.g. the last one when
 all trees are requested

---
 artemis/visualizer/_visualizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 92f0310..224c1d6 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -504,8 +504,9 @@ class Visualizer:
         full_result_copy["pair_name"] = (
                 full_result_copy["parent_name"] + ":" + full_result_copy["split_feature"]
         )
+        n_trees = full_result_copy["tree"].max() + 1
         roots = full_result_copy.loc[full_result_copy["depth"] == 0].copy()
-        roots = roots[roots["tree"] < max_trees * roots["tree"].max()]
+        roots = roots[roots["tree"] < max_trees * n_trees]
         nodes = full_result_copy.loc[
             (full_result_copy["leaf"] == False)
             & (full_result_copy["depth"] > 0)
@@ -514,7 +515,7 @@ class Visualizer:
         nodes.loc[full_result_copy["interaction"] == True, "split_feature"] = nodes.loc[
             full_result_copy["interaction"] == True, "pair_name"
         ]
-        nodes = nodes[nodes["tree"] < max_trees * nodes["tree"].max()]
+        nodes = nodes[nodes["tree"] < max_trees * n_trees]
 
         ax.set_axisbelow(True)
         plt.xscale(scale)
-- 
2.43.0


From 4a137fbeafa53ae76a333d94c1b21484433dd0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:07 +0000
Subject: [PATCH 19/35] fix: zenplot fails when there are few pairs and
 mislabels its last panel

---
 .../partial_dependence_based/_pdp.py          | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 6a29057..3d0e44c 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -198,6 +198,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         - https://www.jstatsoft.org/article/view/v095i04
         """
         fig = plt.figure(figsize=figsize)
+        zenpath_length = min(zenpath_length, len(self.ovo))
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
         min_pd, max_pd = get_pd_dict(self.pd_calculator, to_vis)
         pair = to_vis.iloc[0]["Feature 1"], to_vis.iloc[0]["Feature 2"]
@@ -274,22 +275,20 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 ax.set_title(pair[0], size=10)
                 id_col += 1
 
-            idx, continued = find_next_pair_index(to_vis, pair[1])
-            if continued:
-                pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
-                if zenpath_length - 1 == i:
-                    if id_col > id_row:
-                        ax.set_ylabel(pair[1])
-                    else:
-                        ax.set_title(pair[1], size=10)
-            else:
+            last = zenpath_length - 1 == i
+            if not last:
+                idx, continued = find_next_pair_index(to_vis, pair[1])
+            if last or not continued:
                 if id_col > id_row:
                     ax.set_ylabel(pair[1])
                 else:
                     ax.set_title(pair[1], size=10)
-                pair = to_vis.loc[idx]["Feature 1"], to_vis.loc[idx]["Feature 2"]
-
-            to_vis = to_vis.drop(idx)
+            if not last:
+                if continued:
+                    pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
+                else:
+                    pair = to_vis.loc[idx]["Feature 1"], to_vis.loc[idx]["Feature 2"]
+                to_vis = to_vis.drop(idx)
 
             plt.tight_layout()
         cbar_ax = fig.add_axes([1, 0.25, 0.05, 0.5])
-- 
2.43.0


From 61bc3609a5e820b1e2c68fda61bceef02726a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:07 +0000
Subject: [PATCH 20/35] fix: colour scale of zenplot is undefined or does not
 match the partial dependence values

---
 artemis/_utilities/zenplot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/artemis/_utilities/zenplot.py b/artemis/_utilities/zenplot.py
index 1be7bde..df5308a 100644
--- a/artemis/_utilities/zenplot.py
+++ b/artemis/_utilities/zenplot.py
@@ -27,12 +27,12 @@ def get_pd_pairs_values(method, pair):
 
 
 def get_pd_dict(pd_calculator, to_vis):
-    max_pd = 0
-    min_pd = 1
+    max_pd = -np.inf
+    min_pd = np.inf
     for i in range(len(to_vis)):
         pair = (to_vis.iloc[i, 0], to_vis.iloc[i, 1])
         pair_key = pd_calculator._get_pair_key(pair)
         pair_values = pd_calculator.pd_pairs[pair_key].copy()
-        max_pd = max(np.max(pair_values["pd_values"]), max_pd)
-        min_pd = min(np.min(pair_values["pd_values"]), min_pd)
+        max_pd = max(np.nanmax(pair_values["pd_values"]), max_pd)
+        min_pd = min(np.nanmin(pair_values["pd_values"]), min_pd)
     return min_pd, max_pd
-- 
2.43.0


From 146a3d2bcb31bd769fc325ba1b69aeb7c71da81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:07 +0000
Subject: [PATCH 21/35] fix: lollipop plot fails when no tree has a split below
 another split

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 3054663..efb9fd1 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -207,7 +207,7 @@ def _calculate_full_result(
         .reset_index(drop=True)
     )
     # parent columns do not exist when no tree has a split below another split
-    return full_result.reindex(columns=_COLUMNS_TO_CHOSE)
+    return full_result.reindex(columns=_COLUMNS_TO_CHOSE).astype({"parent_name": object})
 
 
 def _prepare_stats(tree: pd.DataFrame, package: str):
-- 
2.43.0


From bf71864c053e47dae00a930349c961582b7a9016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:07 +0000
Subject: [PATCH 22/35] fix: conditional minimal depth of different pairs is
 merged when feature names concatenate equally

---
 .../model_specific/random_forest/_conditional_minimal_depth.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 8a75dfc..1504f0a 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -56,7 +56,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         compare_ovo = self.ovo.copy().rename(columns={"root_variable": "Feature 1", "variable": "Feature 2"})
-        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: "".join(sorted(x)), axis=1)
+        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: tuple(sorted(x)), axis=1)
         return (compare_ovo.groupby("id")
                            .agg({"Feature 1": "first", "Feature 2": "first", self.method: "mean"})
                            .sort_values(InteractionMethod.CONDITIONAL_MINIMAL_DEPTH,
-- 
2.43.0


From bd578fcdd3e679b15096983b38543062c974c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:00 +0000
Subject: [PATCH 23/35] fix: rank correlation of two methods depends on names
 of features

---
 artemis/comparison/_method_comparator.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0cc98ce..37beae5 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -176,12 +176,19 @@ class FeatureInteractionMethodComparator:
 
 
 def _rank_interaction_values_encoded(method1, method2):
-    rank_features_m1 = method1._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_m2 = method2._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_encoded = pd.concat(
-        [rank_features_m1.astype('category').cat.codes, rank_features_m2.astype('category').cat.codes], axis=1)
+    values = pd.concat([_pair_values(method1), _pair_values(method2)], axis=1, join="inner").dropna()
 
-    return rank_features_encoded
+    return pd.concat(
+        [values.iloc[:, i].rank(ascending=not method._interactions_ascending_order)
+         for i, method in enumerate([method1, method2])], axis=1)
+
+
+def _pair_values(method):
+    compare_ovo = method._compare_ovo
+    values = pd.Series(list(compare_ovo[method.method]),
+                       index=[_alphabetical_order_pair(row) for _, row in compare_ovo.iterrows()])
+
+    return values[~values.index.duplicated()]  # the strongest one for methods distinguishing order in a pair
 
 
 def _title_x_y(ax, m1_name, m2_name):
@@ -232,6 +239,4 @@ def _suitable_for_ovo(method: FeatureInteractionMethod):
 
 
 def _alphabetical_order_pair(row):
-    features_alphabetical = sorted([row["Feature 1"], row["Feature 2"]])
-
-    return "-".join(features_alphabetical)
+    return tuple(sorted([row["Feature 1"], row["Feature 2"]]))
-- 
2.43.0


From 33bc8d429624be39e73f6a34f329d3a2b4b960a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:00 +0000
Subject: [PATCH 24/35] fix: comparison plot shows correlations of previously
 compared methods

---
 artemis/comparison/_method_comparator.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 37beae5..395db6f 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -137,12 +137,7 @@ class FeatureInteractionMethodComparator:
             plt.gca().invert_yaxis()
 
         if add_correlation_box:
-
-            corr = self.correlations_df
-            if self.correlations_df is None:
-                corr = self.correlations(method1, method2)
-
-            _add_correlation_box(ax, corr)
+            _add_correlation_box(ax, self.correlations(method1, method2))
 
         _title_x_y(ax, m1_name, m2_name)
 
-- 
2.43.0


From 6227b63265d7640bf51b6898964a295c909af4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:39 +0000
Subject: [PATCH 25/35] fix: partial dependence visualizer always fails

---
 artemis/visualizer/_pdp_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_pdp_visualizer.py b/artemis/visualizer/_pdp_visualizer.py
index 50d9ce1..4c59a4c 100644
--- a/artemis/visualizer/_pdp_visualizer.py
+++ b/artemis/visualizer/_pdp_visualizer.py
@@ -58,6 +58,6 @@ class PartialDependenceVisualizer:
                                                 self.X,
                                                 features,
                                                 grid_resolution=grid_resolution,
-                                                _ax=ax,
+                                                ax=ax,
                                                 **kwargs)
         ax.set_title(title)
-- 
2.43.0


From d31bbef01a56ea3bc3d24ae560c0952a24486ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:39 +0000
Subject: [PATCH 26/35] fix: bar chart of one-vs-all interactions ignores the
 title

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 224c1d6..ee9ab8b 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -70,7 +70,7 @@ class Visualizer:
                 **kwargs,
             )
         elif vis_type == VisualizationType.BAR_CHART_OVA:
-            self.plot_barchart_ova(ova, figsize=figsize, **kwargs)
+            self.plot_barchart_ova(ova, title=title, figsize=figsize, **kwargs)
         elif vis_type == VisualizationType.HEATMAP:
             self.plot_heatmap(
                 ovo,
-- 
2.43.0


From 078b9145bbc6f90199142d05b2a0739d4614f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:14 +0000
Subject: [PATCH 27/35] fix: rejected fit of split score changes the order of
 previous results

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index efb9fd1..a6a2063 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -87,8 +87,8 @@ class SplitScoreMethod(FeatureInteractionMethod):
         """
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
-        self.metric = interaction_selected_metric
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
+        self.metric = interaction_selected_metric
         self.full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
         )
-- 
2.43.0


From b857c2be8e2ae1e84b2ae94ff797096c96610959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:00 +0000
Subject: [PATCH 28/35] fix: settings of the bar chart given under its
 documented name are ignored in the summary

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index ee9ab8b..cc42306 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -425,7 +425,7 @@ class Visualizer:
 
         heatmap_kwargs = kwargs.pop("heatmap", None)
         graph_kwargs = kwargs.pop("graph", None)
-        bar_char_ovo_kwargs = kwargs.pop("bar_chart_ovo", None)
+        bar_char_ovo_kwargs = kwargs.pop("bar_chart_ovo", kwargs.pop(VisualizationType.BAR_CHART_OVO, None))
         bar_char_ova_kwargs = kwargs.pop("bar_chart_ova", None)
 
         self.plot_heatmap(
-- 
2.43.0


From ab5179b62b117d0bb7af5f1a85cce60582e48aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:52 +0000
Subject: [PATCH 29/35] fix: results mix two prediction functions when the
 supplied calculator was built with another one

---
 artemis/additivity/_additivity_meter.py                      | 5 +++++
 artemis/importance_methods/model_agnostic/_pdp.py            | 3 +++
 .../model_agnostic/partial_dependence_based/_pdp.py          | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 1863f5a..ea40018 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -95,7 +95,12 @@ class AdditivityMeter:
                 raise ValueError(
                     "Data in PDP calculator is different than the data in the method."
                 )
+            if predict_function is not None and pd_calculator.predict_function != predict_function:
+                raise ValueError(
+                    "Predict function in PDP calculator is different than the predict function in the method."
+                )
             self.pd_calculator = pd_calculator
+            self.predict_function = pd_calculator.predict_function
 
         self.full_result = self.X_sampled.copy()
         self.additivity_index = self._calculate_additivity(show_progress=show_progress)
diff --git a/artemis/importance_methods/model_agnostic/_pdp.py b/artemis/importance_methods/model_agnostic/_pdp.py
index 6b60727..b5b0df8 100644
--- a/artemis/importance_methods/model_agnostic/_pdp.py
+++ b/artemis/importance_methods/model_agnostic/_pdp.py
@@ -100,7 +100,10 @@ class PartialDependenceBasedImportance(FeatureImportanceMethod):
                 raise ValueError("Model in PDP calculator is different than the model in the method.")
             if not pd_calculator.X.equals(self.X_sampled):
                 raise ValueError("Data in PDP calculator is different than the data in the method.")
+            if predict_function is not None and pd_calculator.predict_function != predict_function:
+                raise ValueError("Predict function in PDP calculator is different than the predict function in the method.")
             self.pd_calculator = pd_calculator
+            self.predict_function = pd_calculator.predict_function
 
         self.feature_importance = self._pdp_importance(show_progress)
         return self.feature_importance
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 3d0e44c..bc24a54 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -95,7 +95,12 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 raise ValueError(
                     "Data in PDP calculator is different than the data in the method."
                 )
+            if predict_function is not None and pd_calculator.predict_function != predict_function:
+                raise ValueError(
+                    "Predict function in PDP calculator is different than the predict function in the method."
+                )
             self.pd_calculator = pd_calculator
+            self.predict_function = pd_calculator.predict_function
 
         self.ovo = self._calculate_ovo_interactions_from_pd(show_progress=show_progress)
 
-- 
2.43.0


From 0d542fd04109eaded5e6ddb29aae122b15d9fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:52 +0000
Subject: [PATCH 30/35] fix: rejected model changes the package of a handler

---
 artemis/_utilities/_handler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/artemis/_utilities/_handler.py b/artemis/_utilities/_handler.py
index 16e92d3..4c092ff 100644
--- a/artemis/_utilities/_handler.py
+++ b/artemis/_utilities/_handler.py
@@ -26,9 +26,10 @@ class GBTreesHandler:
 
     def unify_structure(self, model) -> None:
         model_class = search("(?<=<class ').*(?='>)", str(type(model)))[0]
-        self.package = model_class.split(".")[0]
-        if self.package not in _SUPPORTED_PACKAGES:
-            raise ModelNotSupportedException(self.package, model_class)
+        package = model_class.split(".")[0]
+        if package not in _SUPPORTED_PACKAGES:
+            raise ModelNotSupportedException(package, model_class)
+        self.package = package
         if hasattr(model, "get_booster"):
             model = model.get_booster()
         if hasattr(model, "booster_"):
-- 
2.43.0


From 21daad884f5a1f831022757094ebbe4cd37e5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:50 +0000
Subject: [PATCH 31/35] fix: colours of the conditional bar chart are wrong
 when pairs are equally frequent

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index cc42306..aaacfc0 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -139,7 +139,7 @@ class Visualizer:
         new_cmap = colors.LinearSegmentedColormap.from_list("new_cmap", cmap(np.linspace(0.5, 1, 100)))
         sm = plt.cm.ScalarMappable(cmap=new_cmap, norm=norm)
         ax = sns.barplot(df_to_plot, x="Interaction", y=self.method, hue="n_occurences",
-                         palette=sm.to_rgba(np.flip(df_to_plot["n_occurences"])), dodge=False)
+                         palette={n: sm.to_rgba(n) for n in df_to_plot["n_occurences"]}, dodge=False)
         plt.vlines(x=df_to_plot["Interaction"], ymin=df_to_plot[self.method],
                    ymax=df_to_plot["unconditional_importance"], color=color, alpha=0.5)
         plt.scatter(df_to_plot["Interaction"], y=df_to_plot["unconditional_importance"], color=color, marker="o")
-- 
2.43.0


From 1249d4c504c425e7f5c442fe7e11fe617c1ccc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:36 +0000
Subject: [PATCH 32/35] fix: partial dependence hands the model columns of
 other types than the data has

---
 artemis/_utilities/pd_calculator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5192233..9f6a322 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -120,8 +120,8 @@ class PartialDependenceCalculator:
         X_full = pd.DataFrame()
         for feature in tqdm(features, desc=desc, disable=not show_progress):
             if np.isnan(self.pd_minus_single[feature]["pd_values"]).any(): 
-                for i, row in self.X.copy().reset_index(drop=True).iterrows():
-                    change_dict = {other_feature: row[other_feature] for other_feature in self.X.columns if other_feature != feature}
+                for i in range(self.X_len):
+                    change_dict = {other_feature: self.X[other_feature].iloc[i] for other_feature in self.X.columns if other_feature != feature}
                     X_changed = self.X.copy().assign(**change_dict)
                     range_dict[(feature, i)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
@@ -135,14 +135,14 @@ class PartialDependenceCalculator:
             self.fill_pd_minus_single(range_dict, X_full)
 
     def fill_pd_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
         for var_name, var_val in range_dict.keys():
             start, end = range_dict[(var_name, var_val)]
             value_index = get_index(self.pd_single[var_name]["f_values"], var_val)
             self.pd_single[var_name]["pd_values"][value_index] = np.mean(y[start:end])
 
     def fill_pd_pairs(self, range_dict, X_full):
-        y = self.predict_function(self.model, X_full)
+        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
         for var_name1, var_name2, var_val1, var_val2 in range_dict.keys():
             start, end = range_dict[(var_name1, var_name2, var_val1, var_val2)]
             value_index1 = get_index(self.pd_pairs[(var_name1, var_name2)]["f1_values"], var_val1)
@@ -150,7 +150,7 @@ class PartialDependenceCalculator:
             self.pd_pairs[(var_name1, var_name2)]["pd_values"][value_index1, value_index2] = np.mean(y[start:end])
 
     def fill_pd_minus_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
         for var_name, row_id in range_dict.keys():
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
-- 
2.43.0


From b2a73e97592de441b408be29049ad3af4bbef19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:36 +0000
Subject: [PATCH 33/35] fix: permutation importance hands the model columns of
 other types than the data has

---
 .../model_agnostic/_permutational_importance.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 7f09e24..5acedb5 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -129,7 +129,7 @@ def _corrupted_scores(
         range(n_repeat), disable=not show_progress, desc=ProgressInfoLog.CALC_VAR_IMP
     ):
         for feature in features:
-            X_copy_permuted[feature] = random_generator.permutation(X_copy_permuted[feature])
+            X_copy_permuted[feature] = X[feature].values[random_generator.permutation(len(X))]
             corrupted_scores[feature].append(
                 metric.calculate(y, model.predict(X_copy_permuted))
             )
-- 
2.43.0


From f9bb6cf360aed3dc0f35d588bba1a0124cb53865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:51 +0000
Subject: [PATCH 34/35] fix: comparison plot fails when the second method has
 no value for a pair

---
 artemis/comparison/_method_comparator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 395db6f..706c40f 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -118,15 +118,19 @@ class FeatureInteractionMethodComparator:
         plt.grid(True)
         circle_r = 0.2 * min(max(method1._compare_ovo[m1_name]), max(method2._compare_ovo[m2_name]))
 
+        second_method_pairs = _pair_values(method2).index
+
         x, y = [], []
         for index, row in method1._compare_ovo.iterrows():
+            if _alphabetical_order_pair(row) not in second_method_pairs:
+                continue
 
             f1, f2 = row["Feature 1"], row["Feature 2"]
             x_curr, y_curr = row[method1.method], method2.interaction_value(f1, f2)
             x.append(x_curr)
             y.append(y_curr)
 
-            if index < n_labels:
+            if len(x) <= n_labels:
                 _add_arrow(ax, circle_r, f1, f2, x_curr, y_curr)
 
         ax.scatter(x, y, color=InteractionGraphConfiguration.NODE_COLOR)
-- 
2.43.0


From 3a461c18d1f491a87dd48fb0189be8d25a97e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:57 +0000
Subject: [PATCH 35/35] fix: comparison plot shows a pair twice when the first
 method reports both directions

---
 artemis/comparison/_method_comparator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 706c40f..36374e8 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -118,12 +118,14 @@ class FeatureInteractionMethodComparator:
         plt.grid(True)
         circle_r = 0.2 * min(max(method1._compare_ovo[m1_name]), max(method2._compare_ovo[m2_name]))
 
-        second_method_pairs = _pair_values(method2).index
+        pairs_to_show = set(_common_pair_values(method1, method2).index)
 
         x, y = [], []
         for index, row in method1._compare_ovo.iterrows():
-            if _alphabetical_order_pair(row) not in second_method_pairs:
+            pair = _alphabetical_order_pair(row)
+            if pair not in pairs_to_show:
                 continue
+            pairs_to_show.remove(pair)
 
             f1, f2 = row["Feature 1"], row["Feature 2"]
             x_curr, y_curr = row[method1.method], method2.interaction_value(f1, f2)
@@ -175,13 +177,17 @@ class FeatureInteractionMethodComparator:
 
 
 def _rank_interaction_values_encoded(method1, method2):
-    values = pd.concat([_pair_values(method1), _pair_values(method2)], axis=1, join="inner").dropna()
+    values = _common_pair_values(method1, method2)
 
     return pd.concat(
         [values.iloc[:, i].rank(ascending=not method._interactions_ascending_order)
          for i, method in enumerate([method1, method2])], axis=1)
 
 
+def _common_pair_values(method1, method2):
+    return pd.concat([_pair_values(method1), _pair_values(method2)], axis=1, join="inner").dropna()
+
+
 def _pair_values(method):
     compare_ovo = method._compare_ovo
     values = pd.Series(list(compare_ovo[method.method]),
-- 
2.43.0


From 7753b51fe29d30252dbf149a9cb478ffaec0f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:06 +0000
Subject: [PATCH 01/26] fix: ECdfTransformer.transform no longer overwrites the
 array passed in

A float array was transformed in place, so the caller's X changed.
---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 723d05e..90d40ba 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -272,7 +272,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
         if check_frame_empty(X):
             return X
 
-        Xnp = np.asarray(X, dtype=float)
+        Xnp = np.array(X, dtype=float)
         Xt = Xnp
 
         for col, epsilon, bins_and_cdfs in self.bins_and_cdfs_:
-- 
2.43.0


From a76ff283ce65e6df78eb3925200a4f2aec78a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:06 +0000
Subject: [PATCH 02/26] fix: CBNBinomC no longer clips the caller's prior
 prediction column in place

---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 7b7e798..f1c5185 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -144,7 +144,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
         else:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-            np.clip(prior_pred, 0, 1, prior_pred)
+            prior_pred = np.clip(prior_pred, 0, 1)
             prior_prediction_link = self.link_func(prior_pred)
             finite = np.isfinite(prior_prediction_link)
             prior_prediction_link[~finite] = self.neutral_factor_link
-- 
2.43.0


From 540289709e5d24fd193e44f9f4d19685d219d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:06 +0000
Subject: [PATCH 03/26] fix: OrthogonalPolynomialSmoother.predict no longer
 clamps the caller's array in place

---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index a050b7d..b03960b 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -257,7 +257,7 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
         assert X.ndim == 2
         if not hasattr(self, "pp_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
-        x = np.ascontiguousarray(X[:, 0], dtype=np.float64)
+        x = np.array(X[:, 0], dtype=np.float64)
         x[x < self.minimal_x] = self.minimal_x
         x[x > self.maximal_x] = self.maximal_x
         y = cy_apply_orthogonal_poly_fit_equidistant(x, self.pp_, self.n_degrees_)
-- 
2.43.0


From 81a6ae75c2a1c930805db42516cb67bea7d6838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:01 +0000
Subject: [PATCH 04/26] fix: prediction methods of an unfitted estimator raise
 ValueError

The constructor already creates the feature list, so the check for a missing
feature list never fired.  predict returned the prior column or None values.
---
 cyclic_boosting/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 98d11f1..db925ad 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -940,7 +940,7 @@ class CyclicBoostingBase(
 
     def _check_fitted(self) -> None:
         """Check if fit was called"""
-        if self.features is None:
+        if self.features is None or self.global_scale_link_ is None:
             raise ValueError("fit must be called first.")
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
@@ -1007,6 +1007,7 @@ class CyclicBoostingBase(
         dict
             contributions from each feature for each sample of X
         """
+        self._check_fitted()
         contribution = {}
         for feature in self.features:
             ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
-- 
2.43.0


From 59c786a138074b8dca1918deaef4f24bb8c5b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:27 +0000
Subject: [PATCH 05/26] fix: feature importances of an earlier training are
 dropped when an estimator is trained again

---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index db925ad..768bf32 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -968,6 +968,7 @@ class CyclicBoostingBase(
             return [(feature.feature_id, feature.smoother) for feature in self.features]
 
     def set_feature_importances(self) -> None:
+        self.feature_importances = {}
         for feature in self.features:
             feature.prepare_feature()
             feature.set_feature_bin_deviations_from_neutral(self.neutral_factor_link)
-- 
2.43.0


From 46d3b82242c4bc154159b405043a3919e2620723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:53 +0000
Subject: [PATCH 06/26] fix: training no longer overwrites the feature_groups
 option when it was left at its default

---
 cyclic_boosting/base.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 768bf32..3bc7bc3 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -328,7 +328,7 @@ class CyclicBoostingBase(
             self.learn_rate = learn_rate
         if hierarchical_feature_groups is not None:
             self.learn_rate = learning_rate.constant_learn_rate_one
-        self._init_features()
+        self._init_features(self.feature_groups)
 
     def loss(self, prediction: np.ndarray, y: np.ndarray, weights: np.ndarray) -> np.ndarray:
         if not len(y) > 0:
@@ -378,9 +378,9 @@ class CyclicBoostingBase(
            are we called in fit() ?
         """
 
-    def _init_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> None:
+    def _get_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> List:
         """
-        Initializes the ``feature_groups`` to be a list of all
+        Returns the default ``feature_groups``, i.e., a list of all
         columns available in ``X`` except the ``prior_prediction_column`` and
         the ``weight_column``.
         """
@@ -390,7 +390,7 @@ class CyclicBoostingBase(
         if self.weight_column is not None:
             exclude_columns.append(self.weight_column)
 
-        self.feature_groups = get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
+        return get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """
@@ -436,12 +436,12 @@ class CyclicBoostingBase(
         if self.weights is None:
             raise RuntimeError("The weights have to be initialized.")
 
-    def _init_features(self) -> None:
+    def _init_features(self, feature_groups) -> None:
         """
         Initializes the ``features`` and binds the data belonging to a feature
         to it.
         """
-        self.features = create_features(self.feature_groups, self.feature_properties, self.smoother_choice)
+        self.features = create_features(feature_groups, self.feature_properties, self.smoother_choice)
 
     def _get_prior_predictions(self, X: Union[pd.DataFrame, np.ndarray]) -> np.ndarray:
         if self.prior_prediction_column is None:
@@ -703,11 +703,12 @@ class CyclicBoostingBase(
         self._init_weight_column(X)
         self._init_external_column(X, True)
 
-        if self.feature_groups is None:
-            self._init_default_feature_groups(X)
+        feature_groups = self.feature_groups
+        if feature_groups is None:
+            feature_groups = self._get_default_feature_groups(X)
 
         self._check_weights()
-        self._init_features()
+        self._init_features(feature_groups)
         self._init_global_scale(X, y)
 
     def _fit_main(self, X: np.ndarray, y: np.ndarray, pred: CBLinkPredictionsFactors) -> np.ndarray:
-- 
2.43.0


From dfce686fb1fd303d01e55b8c1c2b8a4ec5bcdb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:01 +0000
Subject: [PATCH 07/26] fix: multidimensional smoothers trained on a single
 dimension can predict

---
 cyclic_boosting/smoothing/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cyclic_boosting/smoothing/base.py b/cyclic_boosting/smoothing/base.py
index 8bca2bc..fa5f38d 100644
--- a/cyclic_boosting/smoothing/base.py
+++ b/cyclic_boosting/smoothing/base.py
@@ -34,8 +34,7 @@ class SetNBinsMixin(object):
         self.n_bins_ = np.max(X_for_smoother[:, : self.ndim_], axis=0)
         self.n_bins_ = np.round(self.n_bins_)
         self.n_bins_ = np.asarray(self.n_bins_, dtype=int) + 1
-        if ndim > 1:
-            self._bin_steps = bin_steps(self.n_bins_)
+        self._bin_steps = bin_steps(self.n_bins_)
 
 
 __all__ = ["AbstractBinSmoother", "SetNBinsMixin"]
-- 
2.43.0


From 3c143682072a796444b46f6a9ee96f3da9510174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:32 +0000
Subject: [PATCH 08/26] fix: CBNBinomC can be trained on arrays and through
 fit_transform

---
 cyclic_boosting/nbinom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index f1c5185..08c52fe 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -133,11 +133,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         # TODO: use weights
         return loss_nbinom_c(y.astype(np.float64), self.mu, c, self.gamma)
 
-    def fit(self, X, y=None):
-        self.mu = X[self.mean_prediction_column].values
-        _ = self._fit_predict(X, y)
+    def _fit_predict(self, X, y=None):
+        self.mu = get_X_column(X, self.mean_prediction_column)
+        prediction = CyclicBoostingBase._fit_predict(self, X, y)
         del self.mu
-        return self
+        return prediction
 
     def _get_prior_predictions(self, X):
         if self.prior_prediction_column is None:
-- 
2.43.0


From 0430f74a60e8bdbaeb69692474eb908e6be6276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:33 +0000
Subject: [PATCH 09/26] fix: SectionSmoother honours its nan_representation
 option

---
 cyclic_boosting/smoothing/meta_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/meta_smoother.py b/cyclic_boosting/smoothing/meta_smoother.py
index b5543f9..a81c36a 100644
--- a/cyclic_boosting/smoothing/meta_smoother.py
+++ b/cyclic_boosting/smoothing/meta_smoother.py
@@ -263,7 +263,7 @@ class SectionSmoother(AbstractBinSmoother):
         self.split_point = split_point
         self.smoother_lower = smoother_lower
         self.smoother_upper = smoother_upper
-        self.nan_representation = np.nan
+        self.nan_representation = nan_representation
         self.epsilon = epsilon
         self._reset_smoother_status()
 
-- 
2.43.0


From ec7ff90ca291ab4739f79273a0f588fc01ff5594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:32 +0000
Subject: [PATCH 10/26] fix: fit of every smoother returns the smoother

---
 cyclic_boosting/smoothing/meta_smoother.py | 4 ++++
 cyclic_boosting/smoothing/multidim.py      | 4 +++-
 cyclic_boosting/smoothing/onedim.py        | 8 +++++---
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/smoothing/meta_smoother.py b/cyclic_boosting/smoothing/meta_smoother.py
index a81c36a..e6093f9 100644
--- a/cyclic_boosting/smoothing/meta_smoother.py
+++ b/cyclic_boosting/smoothing/meta_smoother.py
@@ -111,6 +111,7 @@ class NormalizationSmoother(AbstractBinSmoother):
     def fit(self, X_for_smoother, y):
         self.calc_norm(X_for_smoother, y)
         self.smoother.fit(X_for_smoother, y - self.norm_)
+        return self
 
     def predict(self, X_for_smoother):
         smoothed_y = self.smoother.predict(X_for_smoother)
@@ -183,6 +184,7 @@ class RegressionTypeSmoother(AbstractBinSmoother, SetNBinsMixin):
     def fit(self, X_for_smoother, y):
         self.set_n_bins(X_for_smoother)
         self.smoother.fit(X_for_smoother, y)
+        return self
 
     def predict(self, X_for_smoother):
         smoothed_y = self.smoother.predict(X_for_smoother)
@@ -221,6 +223,7 @@ class NormalizationRegressionTypeSmoother(NormalizationSmoother, RegressionTypeS
         self.set_n_bins(X_for_smoother)
         self.calc_norm(X_for_smoother, y)
         self.smoother.fit(X_for_smoother, y - self.norm_)
+        return self
 
     def predict(self, X_for_smoother):
         smoothed_y = self.smoother.predict(X_for_smoother) + self.norm_
@@ -284,6 +287,7 @@ class SectionSmoother(AbstractBinSmoother):
             self.smoother_upper.fit(X_for_smoother[~cond_lower], y[~cond_lower])
             self.smoother_upper_fitted = True
         assert self.smoother_upper_fitted or self.smoother_lower_fitted
+        return self
 
     def predict(self, X_for_smoother):
         if not self.smoother_upper_fitted and not self.smoother_lower_fitted:
diff --git a/cyclic_boosting/smoothing/multidim.py b/cyclic_boosting/smoothing/multidim.py
index 14e0198..d6b5ebd 100644
--- a/cyclic_boosting/smoothing/multidim.py
+++ b/cyclic_boosting/smoothing/multidim.py
@@ -216,7 +216,7 @@ class WeightedMeanSmoother(AbstractBinSmoother, PredictingBinValueMixin):
     ...     [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     ...     [0.05, 0.05, 0.05, 0.05, 0.15, 0.15, 0.05]]
     >>> smoother = smoothing.multidim.WeightedMeanSmoother()
-    >>> smoother.fit(X_for_smoother, y_for_smoother)
+    >>> _ = smoother.fit(X_for_smoother, y_for_smoother)
     >>> smoother.smoothed_y_
     array([ 0.90096366,  0.90096366,  0.90096366,  1.79077293,  1.723854  ,
             0.45467402,  0.40662518])
@@ -229,6 +229,7 @@ class WeightedMeanSmoother(AbstractBinSmoother, PredictingBinValueMixin):
     def fit(self, X_for_smoother, y):
         self.set_n_bins(X_for_smoother)
         self.smoothed_y_ = utils.regularize_to_error_weighted_mean(y, X_for_smoother[:, -1], self.prior_prediction)
+        return self
 
 
 class PriorExpectationMetaSmoother(AbstractBinSmoother, PredictingBinValueMixin):
@@ -330,6 +331,7 @@ class GroupBySmoother(AbstractBinSmoother):
         X = pd.DataFrame(np.c_[X_for_smoother, y])
         self.group_cols = list(range(self.n_group_columns))
         self.gb = X.groupby(self.group_cols, sort=False).apply(_fit_est_on_group, self.n_group_columns, self.est)
+        return self
 
     def predict(self, X):
         X = pd.DataFrame(X)
diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index b03960b..6896920 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -188,7 +188,7 @@ class WeightedMeanSmoother(AbstractBinSmoother, PredictingBinValueMixin):
     ...     [0.05, 0.05, 0.05, 0.05, 0.15, 0.15, 0.05]]
     >>> from cyclic_boosting.smoothing.onedim import WeightedMeanSmoother
     >>> smoother = WeightedMeanSmoother()
-    >>> smoother.fit(X_for_smoother, y_for_smoother)
+    >>> _ = smoother.fit(X_for_smoother, y_for_smoother)
     >>> smoother.smoothed_y_
     array([ 0.90096366,  0.90096366,  0.90096366,  1.79077293,  1.723854  ,
             0.45467402,  0.40662518])
@@ -196,7 +196,7 @@ class WeightedMeanSmoother(AbstractBinSmoother, PredictingBinValueMixin):
     >>> y_for_smoother = np.array([-0.70710678, -0.70710678])
     >>> X_for_smoother = np.c_[[0., 1.], [0.012]*2, [9.12870929]*2]
     >>> smoother = WeightedMeanSmoother()
-    >>> smoother.fit(X_for_smoother, y_for_smoother)
+    >>> _ = smoother.fit(X_for_smoother, y_for_smoother)
     >>> smoother.smoothed_y_
     array([-0.70710678, -0.70710678])
 
@@ -206,7 +206,7 @@ class WeightedMeanSmoother(AbstractBinSmoother, PredictingBinValueMixin):
     ...     [0.0, 0.0, 0.0, 0.0, 0.0],
     ...     [0.5, 0.5, 0.5, 0.5, 0.5]]
     >>> smoother = WeightedMeanSmoother(prior_prediction=0)
-    >>> smoother.fit(X_for_smoother, y_for_smoother)
+    >>> _ = smoother.fit(X_for_smoother, y_for_smoother)
     >>> smoothed_abs = (4. * 1 + 1 * 0) / (4 + 1)
     >>> np.testing.assert_allclose(smoother.smoothed_y_,
     ...     y_for_smoother * smoothed_abs)
@@ -218,6 +218,7 @@ class WeightedMeanSmoother(AbstractBinSmoother, PredictingBinValueMixin):
 
     def fit(self, X_for_smoother, y):
         self.smoothed_y_ = utils.regularize_to_error_weighted_mean(y, X_for_smoother[:, 2], self.prior_prediction)
+        return self
 
 
 class WeightedMeanSmootherNeighbors(AbstractBinSmoother, PredictingBinValueMixin):
@@ -232,6 +233,7 @@ class WeightedMeanSmootherNeighbors(AbstractBinSmoother, PredictingBinValueMixin
             self.smoothed_y_ = utils.regularize_to_error_weighted_mean(y, X_for_smoother[:, 2])
         else:
             self.smoothed_y_ = utils.regularize_to_error_weighted_mean_neighbors(y, X_for_smoother[:, 2], window_size=3)
+        return self
 
 
 class OrthogonalPolynomialSmoother(AbstractBinSmoother):
-- 
2.43.0


From 33521908ea931736be910d7f5900cff173c0e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:51 +0000
Subject: [PATCH 11/26] fix: CBExponential trains through fit_transform and
 drops the training weights

---
 cyclic_boosting/price.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 56f3ea0..c9b5aab 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -414,18 +414,20 @@ class CBExponential(CBNBinomRegressor):
             pred.update_predictions(feature_predictions, feature, influence_categories)
         return pred
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
+        y = np.asarray(y)
         self._init_fit(X, y)
         pred = CBLinkPredictions(
             self._get_prior_predictions(X),
             self._get_prior_exponent(X),
             self.external_col,
         )
-        _ = self._fit_main(X, y, pred)
+        prediction = self._fit_main(X, y, pred)
+        del self.weights
         del self.external_col
         del self.weights_external
 
-        return self
+        return prediction
 
 
 def gamma_momemt_matching(factors, variance_factors, link_func):
-- 
2.43.0


From d3ee64643ea727e54112e2e505db4d170e777b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:51 +0000
Subject: [PATCH 12/26] fix: CBExponential.predict_extended can be called
 without influence categories

---
 cyclic_boosting/price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index c9b5aab..ab6da45 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -402,7 +402,7 @@ class CBExponential(CBNBinomRegressor):
         pred = self.predict_extended(X, None)
         return self.unlink_func(pred.predict_link())
 
-    def predict_extended(self, X, influence_categories):
+    def predict_extended(self, X, influence_categories=None):
         self._check_fitted()
         self._init_external_column(X, False)
 
-- 
2.43.0


From 88b31152352e88d6946801340fec61bf4bed3bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:11 +0000
Subject: [PATCH 13/26] fix: BaseObserver accepts the arguments estimators pass
 to observe_iterations

---
 cyclic_boosting/observers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 8328b7b..85900f5 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
         """
         Called after each iteration of the algorithm.
 
@@ -42,6 +42,11 @@ class BaseObserver(object):
             :meth:`cyclic_boosting.base.CyclicBoostingBase.get_state` for
             information on what will be passed here
 
+        delta : float
+            mean change of the factors in the last iteration
+
+        quantile : float or None
+            quantile the estimator predicts, if it is a quantile estimator
         """
 
     def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
-- 
2.43.0


From 0963c9018f7689639db9e75adc01a862478800a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:48 +0000
Subject: [PATCH 14/26] fix: CBGBSRegressor refuses targets that are not finite

---
 cyclic_boosting/GBSregression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/GBSregression.py b/cyclic_boosting/GBSregression.py
index 01c1596..13437d1 100644
--- a/cyclic_boosting/GBSregression.py
+++ b/cyclic_boosting/GBSregression.py
@@ -91,7 +91,9 @@ class CBGBSRegressor(RegressorMixin, CyclicBoostingBase, IdentityLinkMixin):
         return summand, np.sqrt(variance_summand)
 
     def _check_y(self, y: np.ndarray):
-        pass
+        """Check that y has no NAN or infinite values."""
+        if not np.isfinite(y).all():
+            raise ValueError("The target y must be real value and not NAN.")
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         if self.weights is None:
-- 
2.43.0


From 3931de34cf8e64eccfd0746ae235ec7ae14a7a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:48 +0000
Subject: [PATCH 15/26] fix: training refuses data as empty when only the
 features or only the target are empty

---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 3bc7bc3..78458c8 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -946,7 +946,7 @@ class CyclicBoostingBase(
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """Check that input arrays are not empty"""
-        if len(X) == 0 | len(y) == 0:
+        if len(X) == 0 or len(y) == 0:
             raise ValueError("Estimator should be applied on non-empty data")
 
     def _check_y(self, y: np.ndarray) -> None:
-- 
2.43.0


From bf8b42ec15c4ca9244b923bc9bafbd80f7e08b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:45 +0000
Subject: [PATCH 16/26] fix: pipeline_CBExponential passes the a and c options
 to the estimator

---
 cyclic_boosting/pipelines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index f7689de..f3382cc 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -99,6 +99,8 @@ def pipeline_CB(
             smoother_choice=smoother_choice,
             output_column=output_column,
             learn_rate=learn_rate,
+            a=a,
+            c=c,
             var_prior_exponent=var_prior_exponent,
             prior_exponent_colname=prior_exponent_colname,
         )
-- 
2.43.0


From fc9ff1c420d9875029061cf1c4d7e12183714e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:33 +0000
Subject: [PATCH 17/26] fix: converting flags with alternative names no longer
 writes them into the flags module

---
 cyclic_boosting/flags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/flags.py b/cyclic_boosting/flags.py
index 2d123a1..2471c54 100644
--- a/cyclic_boosting/flags.py
+++ b/cyclic_boosting/flags.py
@@ -380,7 +380,7 @@ def _convert_flags_to_string(
 
     lst = []
     flags1 = flags_value
-    glob_vars = globals()
+    glob_vars = dict(globals())
 
     if alternative_flags is not None:
         glob_vars.update(alternative_flags)
-- 
2.43.0


From 329d72bc5663e7e6a3a1b6c111b1d52443387b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:36 +0000
Subject: [PATCH 18/26] fix: flags_to_string knows the INCREASING, DECREASING
 and HAS_MAGIC_INT_MISSING flags

---
 cyclic_boosting/flags.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/flags.py b/cyclic_boosting/flags.py
index 2471c54..b541a37 100644
--- a/cyclic_boosting/flags.py
+++ b/cyclic_boosting/flags.py
@@ -47,6 +47,9 @@ _FLAG_LIST = [
     "CORR_TO_WIDTH",
     "IS_LINEAR",
     "IS_SEASONAL",
+    "HAS_MAGIC_INT_MISSING",
+    "INCREASING",
+    "DECREASING",
 ]
 
 
-- 
2.43.0


From 7547a636c1494d2f6bfa17263b955659975af713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:59 +0000
Subject: [PATCH 19/26] fix: number rows outside of all bins the same in every
 batch

When no row of a batch fell into a known bin, all rows were assigned to
the first bin instead of the reserved one behind the last bin.
---
 cyclic_boosting/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index d82e56e..74d7ee6 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -240,11 +240,7 @@ def multidim_binnos_to_lexicographic_binnos(binnos, n_bins=None, binsteps=None):
     is_valid = np.isfinite(binnos).all(axis=1)
     is_valid[is_valid] &= ((binnos[is_valid] >= 0) & (binnos[is_valid] < n_bins[None, :])).all(axis=1)
 
-    if not np.any(is_valid):
-        result = np.repeat(0, len(binnos))
-    else:
-        result = np.repeat(np.product(n_bins), len(binnos))
-
+    result = np.repeat(np.product(n_bins), len(binnos))
     result[is_valid] = np.dot(np.floor(binnos[is_valid]), binsteps[1:])
 
     if n_bins.prod() >= np.iinfo(np.int32).max:
-- 
2.43.0


From 4a8a951328d7853d165fa1dff7a27d68746efc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:33 +0000
Subject: [PATCH 20/26] fix: leave the bin weights of a plotted feature
 unchanged

The marginal distributions of two-dimensional features replaced empty bin
weights by one in the array of the observer.
---
 cyclic_boosting/plots/_2dplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/plots/_2dplots.py b/cyclic_boosting/plots/_2dplots.py
index 9b6a9b4..9629df8 100644
--- a/cyclic_boosting/plots/_2dplots.py
+++ b/cyclic_boosting/plots/_2dplots.py
@@ -166,7 +166,7 @@ def plot_factor_2d(n_bins_finite, feature, grid_item=None):
     )
 
     def plot_marginal(axis):
-        w1 = np.reshape(weights[:-1], n_bins_finite)
+        w1 = np.reshape(weights[:-1], n_bins_finite).copy()
         w1[w1 == 0.0] = 1.0
         w = np.sum(w1, axis=axis)
 
-- 
2.43.0


From cc2a6dd841b73085c5aeb66f4020e7d5af000460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:12 +0000
Subject: [PATCH 21/26] fix: do not hide errors while plotting factors

Plotting prediction and truth swallowed every exception, including an
interrupt, to cope with features for which these are not available.
---
 cyclic_boosting/plots/_1dplots.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cyclic_boosting/plots/_1dplots.py b/cyclic_boosting/plots/_1dplots.py
index fec019a..e7144fc 100644
--- a/cyclic_boosting/plots/_1dplots.py
+++ b/cyclic_boosting/plots/_1dplots.py
@@ -301,15 +301,13 @@ def plot_factor_1d(
             x_axis_range = (x_axis_range + np.append(x_axis_range, x_axis_range[-1] + 1)[1:]) / 2
         _plot_factors(factors, x_axis_range, label, uncertainties if with_errorbars else None)
 
-    try:
+    if p is not None and y is not None:
         if len(factors) > 1:
             plt.plot(p[:-1], ".-", label="prediction", alpha=0.5)
             plt.plot(y[:-1], ".-", label="truth", alpha=0.5)
         else:
             plt.plot(p, ".-", label="prediction", alpha=0.5)
             plt.plot(y, ".-", label="truth", alpha=0.5)
-    except:
-        pass
 
     from cyclic_boosting.plots import _format_groupname_with_type
 
-- 
2.43.0


From 9e9fbf1bd61ca23340059b6996673f246b12bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:09:56 +0000
Subject: [PATCH 22/26] fix: a training that diverges in the hierarchical
 iterations no longer fails

Features that take no part in the hierarchical iterations have no
factors yet, so there is nothing to take back for them.
---
 cyclic_boosting/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 78458c8..3758fc5 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -556,6 +556,9 @@ class CyclicBoostingBase(
 
     def remove_preds(self, pred: CBLinkPredictionsFactors, X: np.ndarray) -> None:
         for feature in self.features:
+            if not feature.is_fitted:
+                # left out of the hierarchical iterations so far
+                continue
             if feature.feature_type is None:
                 weights = self.weights
             else:
-- 
2.43.0


From d41a9ae762676acb9ba038fc628a25296cf80d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:39:38 +0000
Subject: [PATCH 23/26] fix: without aggregation a diverged iteration is
 removed from the prediction only once

---
 cyclic_boosting/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 3758fc5..2c0c5d3 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -570,6 +570,9 @@ class CyclicBoostingBase(
             pred.remove_predictions(feature_predictions, feature)
 
             feature.fitted_aggregated -= feature.factors_link
+            if not self.aggregate:
+                # nothing is left to be removed before the next update
+                feature.factors_link = np.ones(feature.n_bins) * self.neutral_factor_link
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
-- 
2.43.0


From 2f137dfacb5ea3b3a22bae6b5947fcabe6471c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:30 +0000
Subject: [PATCH 24/26] fix: distributions given by symmetric quantiles have
 these quantiles

For symmetric quantiles J_QPD_S and J_QPD_B divided by zero or, with
rounding errors, took arccosh of a value below one.  The extended versions
scaled both quantiles with sinh(1).
---
 cyclic_boosting/quantile_matching.py | 50 ++++++++++++++--------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5c00597..cc52199 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -66,19 +66,15 @@ class J_QPD_S:
         self.n = np.where(self.L + self.H - 2 * self.B > 0, 1, -1)
         self.theta = np.where(self.L + self.H - 2 * self.B > 0, qv_low - l, qv_high - l)
 
-        self.n = np.where(self.L + self.H - 2 * self.B == 0, 0, self.n)
-        self.theta = np.where(self.L + self.H - 2 * self.B == 0, qv_median - l, self.theta)
-
-        self.delta = (
-            1.0
-            / self.c
-            * np.sinh(
-                np.arccosh(
-                    (self.H - self.L)
-                    / (2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B)))
-                )
-            )
+        ratio = (self.H - self.L) / (
+            2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B))
         )
+        # symmetric quantiles (up to rounding): any delta gives the same distribution, only zero must be avoided
+        symmetric = ratio <= 1
+        self.n = np.where(symmetric, 0, self.n)
+        self.theta = np.where(symmetric, qv_median - l, self.theta)
+
+        self.delta = 1.0 / self.c * np.sinh(np.arccosh(np.where(symmetric, 2.0, ratio)))
 
         self.kappa = (
             1.0
@@ -226,19 +222,21 @@ class J_QPD_B:
         self.n = np.where(self.L + self.H - 2 * self.B > 0, 1, -1)
         self.xi = np.where(self.L + self.H - 2 * self.B > 0, self.L, self.H)
 
-        self.n = np.where(self.L + self.H - 2 * self.B == 0, 0, self.n)
-        self.xi = np.where(self.L + self.H - 2 * self.B == 0, self.B, self.xi)
-
-        self.delta = (
-            1.0
-            / self.c
-            * np.arccosh(
-                (self.H - self.L)
-                / (2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B))
-            )
+        ratio = (self.H - self.L) / (
+            2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B)
         )
+        # symmetric quantiles (up to rounding)
+        symmetric = ratio <= 1
+        self.n = np.where(symmetric, 0, self.n)
+        self.xi = np.where(symmetric, self.B, self.xi)
 
-        self.kappa = (self.H - self.L) / np.sinh(2 * self.delta * self.c)
+        self.delta = 1.0 / self.c * np.where(symmetric, 1.0, np.arccosh(np.where(symmetric, 2.0, ratio)))
+
+        self.kappa = np.where(
+            symmetric,
+            (self.H - self.B) / np.sinh(self.delta * self.c),
+            (self.H - self.L) / np.sinh(2 * self.delta * self.c),
+        )
 
     def ppf(self, x: Union[float, np.ndarray], inner=False) -> Union[float, np.ndarray]:
         if inner:
@@ -361,10 +359,12 @@ class BaseDist:
 def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, float, float]:
     gamma = -np.sign(L + H - 2 * B)
 
-    if gamma == 0:
+    # symmetric quantiles (up to rounding)
+    if gamma == 0 or min(B - L, H - B) >= 0.5 * (H - L):
+        gamma = 0
         xi = B
-        kappa = H - B
         delta = 1
+        kappa = (H - B) / sinh(1.0 / delta)
     else:
         if gamma < 0:
             xi = L
-- 
2.43.0


From 2f40167dc5bdd7a0dcecae3cd65517f25027d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:30 +0000
Subject: [PATCH 25/26] fix: the chain of quantile models selects the rows
 below the median also if it is negative

The quotient of target and predicted median is below one for the rows above
the median if the median is negative, so that training failed with NaN.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index cc52199..4539c7b 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -787,7 +787,7 @@ class QPD_RegressorChain(BaseEstimator):
 
         # lower quantile model
         y_trans = y / pred_median
-        mask = y_trans < 1
+        mask = y < pred_median
         y_trans = y_trans[mask]
         y_trans = transform_from_bounds(y_trans, self.l / pred_median[mask], 1)
         self.est_lowq.fit(X[mask], y_trans)
-- 
2.43.0


From ecb250c3e8d2782e199f2354af37c22b262f2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:30 +0000
Subject: [PATCH 26/26] fix: the chain of quantile models can be trained with
 both bounds

The upper bound of the transformed targets was not restricted to the rows
above the median.
---
 cyclic_boosting/quantile_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 4539c7b..5ba0b04 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -801,7 +801,8 @@ class QPD_RegressorChain(BaseEstimator):
         if self.bound == "S":
             y_trans = transform_from_semibound_lower(y_trans, 0)
         elif self.bound == "B":
-            y_trans = transform_from_bounds(y_trans, 0, (self.u - pred_median) / (pred_median - pred_lowq))
+            upper = (self.u - pred_median) / (pred_median - pred_lowq)
+            y_trans = transform_from_bounds(y_trans, 0, upper[mask])
         self.est_highq.fit(X[mask], y_trans)
 
         return self
-- 
2.43.0


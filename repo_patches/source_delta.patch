From 52734030caa21244aa8d4c50b72d296e6ca597b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 01/19] fix: use the categorical_features given to the forest's
 constructor

fit only looked at its own argument, so columns declared categorical in the
constructor were silently treated as if nothing had been declared.
---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 79fe5e1..ecc10bb 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -359,7 +359,7 @@ class ForestBase(BaseEstimator):
 
         self._generate_random_states()
 
-        is_categorical = get_is_categorical(categorical_features, n_features)
+        is_categorical = get_is_categorical(self.categorical_features, n_features)
 
         encoder = Encoder(
             max_bins=self.max_bins,
-- 
2.43.0


From 2b150b5239bf71598a7f5c7f66b5bab8fdae84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 02/19] fix: do not modify the caller's sample_weight array in
 fit

With class_weight="balanced" a float32 sample_weight was multiplied in place.
---
 wildwood/forest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index ecc10bb..677cbca 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -332,7 +332,9 @@ class ForestBase(BaseEstimator):
             if multiclass == "multinomial":
                 if class_weight is not None:
                     expanded_class_weight = compute_sample_weight(class_weight, y)
-                    sample_weight_ *= expanded_class_weight
+                    sample_weight_ = np.ascontiguousarray(
+                        sample_weight_ * expanded_class_weight, dtype=np.float32
+                    )
 
             else:
                 if class_weight is not None:
-- 
2.43.0


From 4425fbc3d521aeaa755a71316d3a15b1ad7666df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 03/19] fix: raise the ValueError built for an invalid
 random_state

The exceptions were created but not raised, leaving a half-built forest.
---
 wildwood/forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 677cbca..60c5860 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -867,9 +867,9 @@ class ForestBase(BaseEstimator):
                 if val >= 0:
                     self._random_state = val
                 else:
-                    ValueError("random_state must be >= 0")
+                    raise ValueError("random_state must be >= 0")
             else:
-                ValueError("random_state must be either None or an integer number")
+                raise ValueError("random_state must be either None or an integer number")
 
     @property
     def verbose(self):
-- 
2.43.0


From 4f8c8db7d29d5b319ca7c23885b9d82a3e08bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 04/19] fix: reject a cat_min_categories that is neither an int
 nor a str

Such values were silently dropped and the attribute was left unset.
---
 wildwood/preprocessing/encoder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f41b93..8e281ff 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -755,3 +755,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                 )
             else:
                 self._cat_min_categories = val
+        else:
+            raise ValueError(
+                f"cat_min_categories should be an int > 3 or either "
+                f"'log' or 'sqrt'; {val} was given"
+            )
-- 
2.43.0


From daa26e3fc37e12e2518350e0b981d2c230c81260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 05/19] fix: seed the encoder's subsampling with the forest's
 random_state

Above `subsample` rows the binning thresholds depended on numpy's global
state even when random_state was set.
---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 60c5860..9f0372b 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -369,6 +369,7 @@ class ForestBase(BaseEstimator):
             is_categorical=is_categorical,
             cat_min_categories=self.cat_min_categories,
             handle_unknown=self.handle_unknown,
+            random_state=self.random_state,
         )
 
         encoder.fit(X)
-- 
2.43.0


From d4688c48ecbdd3fcd0f64de6cd5c80162ea8fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 06/19] fix: draw randomized depths from the forest's
 random_state

They were drawn from numpy's global state, so that a forest with a fixed
random_state was not reproducible with randomized_depth=True.
---
 wildwood/forest.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 9f0372b..bb09f83 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -361,6 +361,9 @@ class ForestBase(BaseEstimator):
 
         self._generate_random_states()
 
+        # Used to draw the depth of the trees if randomized_depth=True
+        random_instance = check_random_state(self.random_state)
+
         is_categorical = get_is_categorical(self.categorical_features, n_features)
 
         encoder = Encoder(
@@ -391,7 +394,7 @@ class ForestBase(BaseEstimator):
                     step=self.step,
                     aggregation=self.aggregation,
                     dirichlet=self.dirichlet,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else random_instance.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
@@ -415,7 +418,7 @@ class ForestBase(BaseEstimator):
                     loss=self.loss,
                     step=self.step,
                     aggregation=self.aggregation,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else random_instance.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
-- 
2.43.0


From 44ff682327491d1b6e09e0d42b9d8033433b655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 07/19] fix: give each tree of a class its own seed with
 multiclass="ovr"

The trees of class k are the indices k * n_estimators, ..., (k + 1) *
n_estimators - 1, so that np.repeat handed the same seed (hence the same
bootstrap) to n_classes trees of one class.
---
 wildwood/forest.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index bb09f83..37c31c1 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -250,8 +250,7 @@ class ForestBase(BaseEstimator):
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy
-                # np.repeat(np.array([2, 1, 17, 3]), repeats=3)
-                _random_states = np.repeat(_random_states, repeats=self._n_classes_)
+                _random_states = np.tile(_random_states, reps=self._n_classes_)
 
         self._random_states_bootstrap = _random_states
         self._random_states_trees = _random_states
-- 
2.43.0


From b4ab8218e6a202ec66a1843d7e9a3d23e5e41a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 08/19] fix: make max_depth=None work after a fit with an
 integer max_depth

2 ** 64 - 1 does not fit in the int64 signature compiled for an integer
max_depth, so fit raised OverflowError depending on what was fitted before
in the same process.
---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 37c31c1..592e93c 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -728,7 +728,7 @@ class ForestBase(BaseEstimator):
 
     @staticmethod
     def _get_max_depth_(max_depth):
-        return np.iinfo(np.uintp).max if max_depth is None else max_depth
+        return np.iinfo(np.intp).max if max_depth is None else max_depth
 
     @property
     def min_samples_split(self):
-- 
2.43.0


From 7903bf4e8f2d2ab438b939d0c74d85d457149904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 09/19] fix: store is_left in the nodes of the tree

The field was never written: get_nodes reported every node as a right child.
---
 wildwood/_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 41d2478..b312b08 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -614,6 +614,7 @@ def add_node_tree(
     node["node_id"] = node_idx
     node["parent"] = parent
     node["depth"] = depth
+    node["is_left"] = is_left
     node["is_leaf"] = is_leaf
     node["impurity"] = impurity
     node["n_samples_train"] = n_samples_train
-- 
2.43.0


From c03ca73576fce13f2c6ca42ac00166ed0a479512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 10/19] fix: order categorical bins by their mean label for
 regression

They were ordered by the sum of the labels, which depends on the bin sizes
and misses the best partition.
---
 wildwood/_split.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index f3942c8..3a28023 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -885,7 +885,11 @@ def find_best_split_regressor_along_feature(
     cumsum_samples_valid_left = np.zeros(n_samples_train_in_bins.size, dtype=np.uintp)
 
     if is_feature_categorical:
-        idx_sort = np.argsort(y_sum_in_bins[non_empty_bins_train])
+        # Sort bins according to the average label in each bin
+        idx_sort = np.argsort(
+            y_sum_in_bins[non_empty_bins_train]
+            / w_samples_train_in_bins[non_empty_bins_train]
+        )
         bins_train[:] = non_empty_bins_train[idx_sort]
     else:
         bins_train[:] = np.sort(non_empty_bins_train)
-- 
2.43.0


From bad9c879c39ee138118330a492819c273a209ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 11/19] fix: transform dataframes with duplicated column names

Columns were stored by name, so duplicates overwrote each other and some
columns of the bitarray were left uninitialized.
---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 8e281ff..94dc775 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -374,7 +374,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 max_values[col_idx] = col_n_bins - 1
 
                 # Save the eventually transformed column (if categorical)
-                X_dict[col_name] = col
+                X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
             # since this might increase by one the number of bins required. Note that
@@ -435,7 +435,7 @@ class Encoder(TransformerMixin, BaseEstimator):
 
         # And to loop again over the columns to fill it
         if is_dataframe:
-            for col_idx, (col_name, col) in enumerate(X_dict.items()):
+            for col_idx, col in X_dict.items():
                 if is_categorical_[col_idx]:
                     col_categories_at_fit = categories[col_idx]
                     # Use the same categories as the ones used in fit and replace
-- 
2.43.0


From 227622cc1b90f87864a57363a3e34c598f9e335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 12/19] fix: account for missing values in numpy arrays of
 objects

No bin was reserved for them, so they were merged with another bin.
---
 wildwood/preprocessing/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 94dc775..59469d2 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -386,7 +386,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 has_missing_values = np.isnan(X).any(axis=0)
             else:
                 # Otherwise, there is no missing value
-                has_missing_values = np.zeros(n_features, dtype=np.bool_)
+                has_missing_values = pd.isna(X).any(axis=0)
 
             for col_idx in range(n_features):
                 col = X[:, col_idx]
-- 
2.43.0


From 4fd2e80f1825c437a8f80d7f3c7f176e17d4610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:39 +0000
Subject: [PATCH 13/19] fix: allow a fitted ovr forest to be fitted again with
 two classes

The setter of multiclass refuses changes after fit.
---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 592e93c..c0e388a 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1172,7 +1172,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                         'multiclass="multinomial" instead of "ovr"'
                     )
                 # We switch back to "multinomial" encoding
-                self.multiclass = "multinomial"
+                self._multiclass = "multinomial"
                 # And we need to flatten the array in this case (since LabelBinarizer
                 # returns a (n_samples, 2) array in this case)
                 encoded_y = pre_encoded_y.ravel().astype(np.float32)
-- 
2.43.0


From fc53632f406b79c9a7ac23c9c6eb5a4163163e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:39 +0000
Subject: [PATCH 14/19] fix: raise NotFittedError when predicting with an
 unfitted forest

check_is_fitted found attributes such as max_features_ and let it through.
---
 wildwood/forest.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index c0e388a..530d18e 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -230,6 +230,9 @@ class ForestBase(BaseEstimator):
         self.random_state = random_state
         self.verbose = verbose
 
+    def __sklearn_is_fitted__(self):
+        return self._fitted
+
     def _generate_random_states(self):
         """This helper method generates one seed (random_state) for each tree,
         that is used to generate at random bootstrap samples and columns subsampling.
-- 
2.43.0


From 7aa194f2be567bf39fc474904a54a25921d76392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:39 +0000
Subject: [PATCH 15/19] fix: allow step to be changed after lighten

The aggregation weights only need the nodes, which lighten keeps.
---
 wildwood/tree.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 4550e65..e9b4028 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -156,23 +156,23 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         if self._step != val:
             self._step = val
             if self.is_classifier:
-                if hasattr(self, "_tree_classifier_context"):
+                if self._tree_classifier_context is not None:
                     self._tree_classifier_context.step = val
-                    if self._tree_classifier_context.aggregation:
-                        compute_tree_weights(
-                            self._tree_classifier.nodes,
-                            self._tree_classifier.node_count,
-                            val,
-                        )
+                if self._tree_classifier is not None and self.aggregation:
+                    compute_tree_weights(
+                        self._tree_classifier.nodes,
+                        self._tree_classifier.node_count,
+                        val,
+                    )
             else:
-                if hasattr(self, "_tree_regressor_context"):
+                if self._tree_regressor_context is not None:
                     self._tree_regressor_context.step = val
-                    if self._tree_regressor_context.aggregation:
-                        compute_tree_weights(
-                            self._tree_regressor.nodes,
-                            self._tree_regressor.node_count,
-                            val,
-                        )
+                if self._tree_regressor is not None and self.aggregation:
+                    compute_tree_weights(
+                        self._tree_regressor.nodes,
+                        self._tree_regressor.node_count,
+                        val,
+                    )
 
     def lighten(self):
         if hasattr(self, "_train_indices"):
-- 
2.43.0


From bdbc957eca5bae60194b822d41e0f1a9b7cd5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 16/19] fix: make forests picklable after lighten

The nodes were truncated but not the capacity used to rebuild them, and the
context that lighten removes could not be restored.
---
 wildwood/tree.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index e9b4028..6c7a484 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -187,12 +187,18 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
             if hasattr(self, "_tree_classifier"):
                 self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]
                 self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]
+                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]
+                self._tree_classifier.capacity = self._tree_classifier.node_count
+                self._tree_classifier.bin_partitions_capacity = self._tree_classifier.bin_partitions_end
         else:
             if hasattr(self, "_tree_regressor_context"):
                 self._tree_regressor_context = None
             if hasattr(self, "_tree_regressor"):
                 self._tree_regressor.nodes = self._tree_regressor.nodes[:self._tree_regressor.node_count]
                 self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]
+                self._tree_regressor.y_pred = self._tree_regressor.y_pred[:self._tree_regressor.node_count]
+                self._tree_regressor.capacity = self._tree_regressor.node_count
+                self._tree_regressor.bin_partitions_capacity = self._tree_regressor.bin_partitions_end
 
 
 class TreeClassifier(ClassifierMixin, TreeBase):
@@ -477,7 +483,9 @@ def serialize(obj):
 
 
 def unserialize(key, val):
-    if key == "_tree_classifier":
+    if val is None:
+        return None
+    elif key == "_tree_classifier":
         n_features = val["n_features"]
         n_classes = val["n_classes"]
         random_state = val["random_state"]
-- 
2.43.0


From 6301a3afb69eca8319aaa0460b78b083eb83726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 17/19] fix: make ForestRegressor.predict_trees work

It called methods that do not exist (_bin_data, and predict_proba on the
trees of a regressor).
---
 wildwood/forest.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 530d18e..3017844 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1704,13 +1704,10 @@ class ForestRegressor(ForestBase, RegressorMixin):
         # Check data
         X = self._validate_X_predict(X)
         # TODO: we can also avoid data binning for predictions...
-        X_binned = self._bin_data(X, is_training_data=False)
-        n_samples, n_features = X.shape
+        X_binned, n_jobs, lock = self._predict_helper(X)
         n_estimators = len(self.trees)
-        n_jobs, _, _ = _partition_estimators(self.n_estimators, self.n_jobs)
-        probas = np.empty((n_estimators, n_samples, n_features))
+        predictions = np.empty((n_estimators, X_binned.n_samples))
 
-        lock = threading.Lock()
         with parallel_config(require="sharedmem"):
             Parallel(
                 n_jobs=n_jobs,
@@ -1718,11 +1715,11 @@ class ForestRegressor(ForestBase, RegressorMixin):
                 # **_joblib_parallel_args(require="sharedmem"),
             )(
                 delayed(_get_tree_prediction)(
-                    e.predict_proba, X_binned, probas, lock, tree_idx
+                    e.predict, X_binned, predictions, lock, tree_idx
                 )
                 for tree_idx, e in enumerate(self.trees)
             )
-        return probas
+        return predictions
 
     @property
     def criterion(self):
-- 
2.43.0


From 0b351691885e1d13ef3fece045e0d1cc10a16d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 18/19] fix: make path_leaf work

It called _bin_data, which does not exist, was missing for the trees of a
regressor and read the split of the root even when the root is a leaf.
---
 wildwood/_tree.py  | 5 +----
 wildwood/forest.py | 5 ++---
 wildwood/tree.py   | 3 +++
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index b312b08..bcb60d1 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -752,7 +752,7 @@ def sample_path_leaf(tree, xi):
     col_is_split_categorical = []
     col_decision = []
 
-    while True:
+    while not node["is_leaf"]:
         bin_partition_start = node["bin_partition_start"]
         bin_partition_end = node["bin_partition_end"]
         is_split_categorical = node["is_split_categorical"]
@@ -787,9 +787,6 @@ def sample_path_leaf(tree, xi):
         col_decision.append(decision)
         node = nodes[leaf_idx]
 
-        if node["is_leaf"]:
-            break
-
     df = pd.DataFrame(
         {
             "depth": col_depth,
diff --git a/wildwood/forest.py b/wildwood/forest.py
index 3017844..4d6cfea 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -27,7 +27,7 @@ from sklearn.utils.validation import check_is_fitted
 # from ._binning import Binner
 from ._utils import split_strategy_mapping, criteria_mapping
 from .preprocessing._checks import get_is_categorical
-from .preprocessing import Encoder
+from .preprocessing import Encoder, features_bitarray_to_array
 
 
 eps = np.finfo("float32").eps
@@ -665,8 +665,7 @@ class ForestBase(BaseEstimator):
 
     def path_leaf(self, X, tree_idx=0):
         check_is_fitted(self)
-        X = self._validate_X_predict(X, check_input=True)
-        X_binned = self._bin_data(X, is_training_data=False)
+        X_binned = features_bitarray_to_array(self._encoder.transform(X))
         return self.trees[tree_idx].path_leaf(X_binned)
 
     @property
diff --git a/wildwood/tree.py b/wildwood/tree.py
index 6c7a484..a34f5af 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -439,6 +439,9 @@ class TreeRegressor(TreeBase, RegressorMixin):
         )
         return y_pred
 
+    def path_leaf(self, X):
+        return _path_leaf(self._tree_regressor, X)
+
     def weighted_depth(self, X):
         return tree_regressor_weighted_depth(self._tree_regressor, X, self.step)
 
-- 
2.43.0


From 69ef6b941cbe0256d7badfd4f14818163ce62818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 19/19] fix: make get_depth and get_n_leaves of trees work

They always raised NotFittedError, and relied on attributes that are never
computed or do not exist.
---
 wildwood/tree.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index a34f5af..6719adc 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -99,6 +99,12 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         self.random_state = random_state
         self.verbose = verbose
 
+    def __sklearn_is_fitted__(self):
+        if self.is_classifier:
+            return self._tree_classifier is not None
+        else:
+            return self._tree_regressor is not None
+
     def get_depth(self):
         """Return the depth of the decision tree.
 
@@ -111,10 +117,7 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
             The maximum depth of the tree.
         """
         check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.max_depth
-        else:
-            return self._tree_regressor.max_depth
+        return self.get_actual_depth()
 
     def get_actual_depth(self):
         nd = self.get_nodes()
@@ -129,10 +132,7 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
             Number of leaves.
         """
         check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.n_leaves
-        else:
-            return self._tree_regressor.n_leaves
+        return self.get_nodes().is_leaf.sum()
 
     def apply(self, X):
         if self.is_classifier:
-- 
2.43.0


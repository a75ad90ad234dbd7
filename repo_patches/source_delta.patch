From ada2c24def33dcd79cc3fef6a3ecec296928743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 01/74] fix: LEDGeneratorDrift instances share their attribute
 permutation

---
 src/skmultiflow/data/led_generator_drift.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/skmultiflow/data/led_generator_drift.py b/src/skmultiflow/data/led_generator_drift.py
index b63222f..fa2f7a7 100644
--- a/src/skmultiflow/data/led_generator_drift.py
+++ b/src/skmultiflow/data/led_generator_drift.py
@@ -71,7 +71,6 @@ class LEDGeneratorDrift(LEDGenerator):
 
     """
 
-    _numberAttribute = np.zeros((24,), dtype=int)
     _NUM_IRRELEVANT_ATTRIBUTES = 17
 
     def __init__(self, random_state=None, noise_percentage=0.0, has_noise=False,
@@ -81,8 +80,7 @@ class LEDGeneratorDrift(LEDGenerator):
         self.n_drift_features = n_drift_features
         self.name = "Led Generator with drift"
 
-        for i in range(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE):
-            self._numberAttribute[i] = i
+        self._numberAttribute = np.arange(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE)
 
         if self.has_noise and self.n_drift_features > 0:
             random_int = self._random_state.randint(7)
-- 
2.43.0


From 7a99d3da75af67588bfef7dfa2c01f251313bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 02/74] fix: KNNRegressor predicts every row from the
 neighbours of the whole batch

---
 src/skmultiflow/lazy/knn_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/lazy/knn_regressor.py b/src/skmultiflow/lazy/knn_regressor.py
index 0d999d4..5b41b35 100644
--- a/src/skmultiflow/lazy/knn_regressor.py
+++ b/src/skmultiflow/lazy/knn_regressor.py
@@ -151,7 +151,7 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
         r, c = get_dimensions(X)
         predictions = np.zeros(r)
         for i in range(r):
-            predictions[i] = self._predict(X)
+            predictions[i] = self._predict(X[i:i + 1])
         return predictions
 
     def _predict(self, X):
-- 
2.43.0


From 8baea46306f6519e24b48b408bcf56320b6d4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 03/74] fix: HalfSpaceTrees.predict answers every row with the
 score of the first one

---
 src/skmultiflow/anomaly_detection/half_space_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/anomaly_detection/half_space_trees.py b/src/skmultiflow/anomaly_detection/half_space_trees.py
index a24fe53..e011e7a 100644
--- a/src/skmultiflow/anomaly_detection/half_space_trees.py
+++ b/src/skmultiflow/anomaly_detection/half_space_trees.py
@@ -185,15 +185,15 @@ class HalfSpaceTrees(BaseSKMObject, ClassifierMixin):
         """
         r, _ = get_dimensions(X)
         predictions = []
+        y_proba = self.predict_proba(X)
         for i in range(r):
-            y_proba = self.predict_proba(X)
             if y_proba is None:
                 # Ensemble is empty, all classes equal, default to zero
                 predictions.append(0)
             else:
                 # if prediction of this instance is greater than the threshold
                 # defined, then this instance is classified as an anomaly.
-                if y_proba[0][1] > self.anomaly_threshold:
+                if y_proba[i][1] > self.anomaly_threshold:
                     predictions.append(1)
                 else:
                     predictions.append(0)
-- 
2.43.0


From 08e0964981b1a158968872b6160427621dcf8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 04/74] fix: AccuracyWeightedEnsemble mixes the votes of all
 rows of a batch

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index a73382a..4172e0a 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -287,7 +287,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if sum_weights == 0:
             sum_weights = 1  # safety check: if sum_weights = 0, do as if sum_weights = 1
 
-        weighted_votes = [dict()] * N
+        weighted_votes = [dict() for _ in range(N)]
         for model in ensemble:
             classifier = model.estimator
             prediction = classifier.predict(X)
-- 
2.43.0


From 6f6c1d27cb54bf9d2bca0120472c49f6d5af0a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:22 +0000
Subject: [PATCH 05/74] fix: StreamingRandomPatches loops forever with fewer
 subspaces than estimators

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index c478389..be6367b 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -360,7 +360,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                     i = 0
                     while len(self._subspaces) < self.n_estimators:
                         i = 0 if i == len(self._subspaces) else i
-                        np.vstack((self._subspaces, self._subspaces[i]))
+                        self._subspaces = np.vstack((self._subspaces, self._subspaces[i]))
                         i += 1
                 # For high dimensionality we can't generate all combinations
                 # as it is too expensive (memory). On top of that, the chance
-- 
2.43.0


From a3fe4a6ba45d809dea460fc9a879509583970eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:57 +0000
Subject: [PATCH 06/74] fix: StreamingRandomPatches fails when the rows of a
 batch have votes for different classes

---
 src/skmultiflow/meta/streaming_random_patches.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index be6367b..e4276db 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -295,7 +295,10 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         for i in range(n_samples):
             y_proba.append(self._predict_proba(np.asarray([X[i]])))
-        return np.asarray(y_proba)
+        # The number of classes with votes can differ between samples
+        n_classes = max(len(row) for row in y_proba) if y_proba else 0
+        return np.asarray([np.pad(row, (0, n_classes - len(row)), 'constant')
+                           for row in y_proba])
 
     def _predict_proba(self, X):
         y_proba = np.asarray([0.])
-- 
2.43.0


From 4cd5f78b79ad56d7ba3b8abfade060f53c1a2dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:57 +0000
Subject: [PATCH 07/74] fix: SAMKNN loses its window size when it is reset or
 cloned

---
 src/skmultiflow/lazy/sam_knn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index cdfc9cc..ddcf2f6 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -112,7 +112,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         super().__init__()
         self.n_neighbors = n_neighbors
         self.weighting = weighting
-        self.max_wind_size = max_window_size
+        self.max_window_size = max_window_size
         self.ltm_size = ltm_size
         self.min_stm_size = min_stm_size
         self.use_ltm = use_ltm
@@ -122,8 +122,8 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         self._STMLabels = np.empty(shape=(0), dtype=np.int32)
         self._LTMSamples = None
         self._LTMLabels = np.empty(shape=(0), dtype=np.int32)
-        self.maxLTMSize = self.ltm_size * self.max_wind_size
-        self.maxSTMSize = self.max_wind_size - self.maxLTMSize
+        self.maxLTMSize = self.ltm_size * self.max_window_size
+        self.maxSTMSize = self.max_window_size - self.maxLTMSize
         self.minSTMSize = self.min_stm_size
 
         if self.stm_size_option is not None:
-- 
2.43.0


From ff794ef1a5692612ad6596bcf64cf753afa5ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:57 +0000
Subject: [PATCH 08/74] fix: OzaBaggingADWIN.reset keeps the trained ensemble

---
 src/skmultiflow/meta/oza_bagging_adwin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 7bc0bde..10b4dd5 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -100,6 +100,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
         self.adwin_ensemble = [cp.deepcopy(ADWIN()) for _ in range(self.actual_n_estimators)]
 
     def reset(self):
+        super().reset()
         self.__configure()
         return self
 
-- 
2.43.0


From b366acac4d6f18de980284a37a7168ec371af4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:57 +0000
Subject: [PATCH 09/74] fix: resetting a Hoeffding tree regressor keeps the
 statistics of the old stream

---
 src/skmultiflow/trees/arf_hoeffding_tree_regressor.py |  4 +++-
 src/skmultiflow/trees/hoeffding_tree_regressor.py     | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
index 4c49d0b..a5df634 100644
--- a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
@@ -118,7 +118,9 @@ class ARFHoeffdingTreeRegressor(HoeffdingTreeRegressor):
                                                       random_state=random_state)
 
     def reset(self):
-        super().reset()
+        # When the forest reacts to a drift only the tree is discarded: the statistics used to
+        # normalize inputs and targets are kept
+        super(HoeffdingTreeRegressor, self).reset()
         self._random_state = check_random_state(self.random_state)
 
     def new_instance(self):
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index fb3a5e1..501c8ea 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -190,6 +190,17 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.sum_of_attribute_squares = []
         self.random_state = random_state
 
+    def reset(self):
+        """ Reset the Hoeffding Tree Regressor to default values."""
+        super().reset()
+        self.samples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = []
+        self.sum_of_attribute_squares = []
+
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
-- 
2.43.0


From f45d30b4a9929ab8b2134f69c0639e0d2fc1af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 10/74] fix: Hoeffding tree regressors fail on streams with a
 single feature

---
 src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py | 5 ++---
 src/skmultiflow/trees/hoeffding_tree_regressor.py          | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
index fa035e0..666e26b 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
@@ -198,11 +198,10 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
         self.sum_of_values += weight * y
         self.sum_of_squares += weight * y * y
 
-        try:
+        if len(self.sum_of_attribute_values) > 0:
             self.sum_of_attribute_values += weight * X
             self.sum_of_attribute_squares += weight * X * X
-        except ValueError:
-
+        else:
             self.sum_of_attribute_values = weight * X
             self.sum_of_attribute_squares = weight * X * X
 
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 501c8ea..b2fdf8c 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -363,10 +363,10 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.sum_of_values += sample_weight * y
         self.sum_of_squares += sample_weight * y * y
 
-        try:
+        if len(self.sum_of_attribute_values) > 0:
             self.sum_of_attribute_values += sample_weight * X
             self.sum_of_attribute_squares += sample_weight * X * X
-        except ValueError:
+        else:
             self.sum_of_attribute_values = sample_weight * X
             self.sum_of_attribute_squares = sample_weight * X * X
 
-- 
2.43.0


From 0fa0b8c75cf7fb68d81d000b794d1ffeec2a4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 11/74] fix: an empty Hoeffding tree regressor predicts one
 value for any number of samples

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index b2fdf8c..f748d14 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -421,8 +421,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
 
         """
         predictions = []
+        r, _ = get_dimensions(X)
         if self.samples_seen > 0 and self._tree_root is not None:
-            r, _ = get_dimensions(X)
             for i in range(r):
                 node = self._tree_root.filter_instance_to_leaf(X[i], None, -1).node
                 if node.is_leaf():
@@ -433,7 +433,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     predictions.append(node.stats[1] / node.stats[0])
         else:
             # Model is empty
-            predictions.append(0.0)
+            predictions = [0.0] * r
         return np.asarray(predictions)
 
     def predict_proba(self, X):
-- 
2.43.0


From 85c1bebeca9647023a1a9dc4cd9d54ce5e3c52be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 12/74] fix: resetting HAT, iSOUP-Tree and the ARF regressor
 leaves old state behind

---
 .../meta/adaptive_random_forest_regressor.py       |  1 -
 src/skmultiflow/trees/hoeffding_adaptive_tree.py   |  4 +++-
 src/skmultiflow/trees/isoup_tree.py                | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 1a1dd24..39762b8 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -348,7 +348,6 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         # TODO: check whether this is enough
 
         self.ensemble = None
-        self.max_features = 0
         self.instances_seen = 0
         self._random_state = check_random_state(self.random_state)
 
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index bd39fe0..e3c5525 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -172,10 +172,12 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         self._tree_root = None
 
     def reset(self):
+        super().reset()
         self.alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
         self.switch_alternate_trees_cnt = 0
-        self._tree_root = None
+
+        return self
 
     # Override HoeffdingTreeClassifier
     def _partial_fit(self, X, y, sample_weight):
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 89e442f..9b31109 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -197,6 +197,20 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         # To add the n_targets property once
         self._n_targets_set = False
 
+    def reset(self):
+        """ Reset the iSOUP-Tree to default values."""
+        super().reset()
+        self.examples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
+        self._n_targets_set = False
+        if hasattr(self, '_n_targets'):
+            del self._n_targets
+
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
-- 
2.43.0


From 7896ca50d3dc78f5e2c363c4532be67e6e768642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 13/74] fix: delayed evaluation trains delayed samples with the
 weights of other samples

---
 src/skmultiflow/data/time_manager.py          | 317 +++++++++---------
 .../evaluate_prequential_delayed.py           |   6 +-
 2 files changed, 164 insertions(+), 159 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index da38ba5..8ae50d7 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -1,156 +1,161 @@
-import numpy as np
-import pandas as pd
-
-
-class TimeManager(object):
-    """ TimeManager
-
-    Manage instances that are related to a timestamp and a delay.
-
-    Parameters
-    ----------
-    timestamp: numpy.datetime64
-        Current timestamp of the stream. This timestamp is always
-        updated as the stream is processed to simulate when
-        the labels will be available for each sample.
-
-    """
-
-    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
-    _USE_SAMPLE_WEIGHT = True
-
-    def __init__(self, timestamp):
-        # get initial timestamp
-        self.timestamp = timestamp
-        # create dataframe to save time data
-        # X = features
-        # y_true = true label/target
-        # y_pred = predicted label/target for each model being evaluated
-        # arrival_time = arrival timestamp of the sample
-        # available_time = timestamp when the sample label will be available
-        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
-        # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
-            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
-            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
-
-    def _sort_queue(self):
-        # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
-        self.queue = self.queue.reset_index(drop=True)
-
-    def _cleanup_samples(self, batch_size):
-        # check if has batch_size samples to be removed
-        if self.queue.shape[0] - batch_size >= 0:
-            # drop samples that were already used
-            self.queue = self.queue.iloc[batch_size:]
-            # reset indexes
-            self.queue = self.queue.reset_index(drop=True)
-        else:
-            # drop all samples
-            self.queue = self.queue.iloc[0:0]
-
-    def update_timestamp(self, timestamp):
-        """ update_timestamp
-
-        Update current timestamp of the stream.
-
-        Parameters
-        ----------
-        timestamp: datetime64
-            Current timestamp of the stream. This timestamp is always
-            updated as the stream is processed to simulate when
-            the labels will be available for each sample.
-
-        """
-
-        self.timestamp = timestamp
-
-    def get_available_samples(self):
-        """ get_available_samples
-
-        Get available samples of the stream, i.e., samples that have
-        their labels available (available_time <= timestamp).
-
-        Returns
-        -------
-        tuple
-            A tuple containing the data, their true labels and predictions.
-
-        """
-
-        # get samples that have label available
-        samples = self.queue[self.queue['available_time'] <= self.timestamp]
-        # remove these samples from queue
-        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
-        # get X, y_true and y_pred
-        X = np.array(samples["X"].values.tolist())
-        y_true = np.array(samples["y_true"].values.tolist())
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # return X, y_true and y_pred for the dequeued samples
-        return X, y_true, y_pred
-
-    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
-        # check if weight is None to create a list
-        if sample_weight is None:
-            # set _sample_weight as False, indicating that there is no weight
-            self._USE_SAMPLE_WEIGHT = False
-            sample_weight = np.full(X.shape[0], None)   # noqa
-        # create daraframe for current samples
-        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
-                                      arrival_time, available_time)),
-                             columns=self._COLUMN_NAMES)
-        # append new data to queue
-        self.queue = self.queue.append(frame)
-        # sort queue
-        self._sort_queue()
-
-    def has_more_samples(self):
-        """ Checks if queue has more samples.
-
-        Returns
-        -------
-        Boolean
-            True if queue has more samples.
-
-        """
-
-        return self.queue.shape[0] > 0
-
-    def next_sample(self, batch_size=1):
-        """ Returns next sample from the queue.
-
-        If there is enough instances to supply at least batch_size samples, those
-        are returned. Otherwise, the remaining are returned.
-
-        Parameters
-        ----------
-        batch_size: int (optional, default=1)
-            The number of instances to return.
-
-        Returns
-        -------
-        tuple or tuple list
-            Returns the next batch_size instances.
-            For general purposes the return can be treated as a numpy.ndarray.
-
-        """
-        if self.queue.shape[0] - batch_size >= 0:
-            samples = self.queue[:batch_size]
-        else:
-            samples = self.queue
-        # get X
-        X = np.array(samples["X"].values.tolist())
-        # get y_true
-        y_true = np.array(samples["y_true"].values.tolist())
-        # get y_pred
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["weight"].values.tolist())
-        else:
-            sample_weight = None
-        # remove samples from queue
-        self._cleanup_samples(batch_size)
-        # return X, y_true, y_pred, and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
+import numpy as np
+import pandas as pd
+
+
+class TimeManager(object):
+    """ TimeManager
+
+    Manage instances that are related to a timestamp and a delay.
+
+    Parameters
+    ----------
+    timestamp: numpy.datetime64
+        Current timestamp of the stream. This timestamp is always
+        updated as the stream is processed to simulate when
+        the labels will be available for each sample.
+
+    """
+
+    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
+    _USE_SAMPLE_WEIGHT = True
+
+    def __init__(self, timestamp):
+        # get initial timestamp
+        self.timestamp = timestamp
+        # create dataframe to save time data
+        # X = features
+        # y_true = true label/target
+        # y_pred = predicted label/target for each model being evaluated
+        # arrival_time = arrival timestamp of the sample
+        # available_time = timestamp when the sample label will be available
+        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
+        # transform queue into datetime if timestamps are not int
+        if isinstance(self.timestamp, int):
+            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
+            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
+
+    def _sort_queue(self):
+        # sort values by available_time
+        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.reset_index(drop=True)
+
+    def _cleanup_samples(self, batch_size):
+        # check if has batch_size samples to be removed
+        if self.queue.shape[0] - batch_size >= 0:
+            # drop samples that were already used
+            self.queue = self.queue.iloc[batch_size:]
+            # reset indexes
+            self.queue = self.queue.reset_index(drop=True)
+        else:
+            # drop all samples
+            self.queue = self.queue.iloc[0:0]
+
+    def update_timestamp(self, timestamp):
+        """ update_timestamp
+
+        Update current timestamp of the stream.
+
+        Parameters
+        ----------
+        timestamp: datetime64
+            Current timestamp of the stream. This timestamp is always
+            updated as the stream is processed to simulate when
+            the labels will be available for each sample.
+
+        """
+
+        self.timestamp = timestamp
+
+    def get_available_samples(self):
+        """ get_available_samples
+
+        Get available samples of the stream, i.e., samples that have
+        their labels available (available_time <= timestamp).
+
+        Returns
+        -------
+        tuple
+            A tuple containing the data, their true labels, predictions and weights.
+
+        """
+
+        # get samples that have label available
+        samples = self.queue[self.queue['available_time'] <= self.timestamp]
+        # remove these samples from queue
+        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
+        # get X, y_true and y_pred
+        X = np.array(samples["X"].values.tolist())
+        y_true = np.array(samples["y_true"].values.tolist())
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
+
+    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
+        # check if weight is None to create a list
+        if sample_weight is None:
+            # set _sample_weight as False, indicating that there is no weight
+            self._USE_SAMPLE_WEIGHT = False
+            sample_weight = np.full(X.shape[0], None)   # noqa
+        # create daraframe for current samples
+        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
+                                      arrival_time, available_time)),
+                             columns=self._COLUMN_NAMES)
+        # append new data to queue
+        self.queue = self.queue.append(frame)
+        # sort queue
+        self._sort_queue()
+
+    def has_more_samples(self):
+        """ Checks if queue has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if queue has more samples.
+
+        """
+
+        return self.queue.shape[0] > 0
+
+    def next_sample(self, batch_size=1):
+        """ Returns next sample from the queue.
+
+        If there is enough instances to supply at least batch_size samples, those
+        are returned. Otherwise, the remaining are returned.
+
+        Parameters
+        ----------
+        batch_size: int (optional, default=1)
+            The number of instances to return.
+
+        Returns
+        -------
+        tuple or tuple list
+            Returns the next batch_size instances.
+            For general purposes the return can be treated as a numpy.ndarray.
+
+        """
+        if self.queue.shape[0] - batch_size >= 0:
+            samples = self.queue[:batch_size]
+        else:
+            samples = self.queue
+        # get X
+        X = np.array(samples["X"].values.tolist())
+        # get y_true
+        y_true = np.array(samples["y_true"].values.tolist())
+        # get y_pred
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # remove samples from queue
+        self._cleanup_samples(batch_size)
+        # return X, y_true, y_pred, and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 0488b8c..a1c6a13 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -437,8 +437,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
-                X_delayed, y_true_delayed, y_pred_delayed = self.time_manager.\
-                    get_available_samples()
+                X_delayed, y_true_delayed, y_pred_delayed, sample_weight_delayed = \
+                    self.time_manager.get_available_samples()
 
                 # transpose prediction matrix to model-sample again
                 y_pred_delayed = self._transform_predictions_model(y_pred_delayed)
@@ -449,7 +449,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 # before getting new samples, update classifiers with samples
                 # that are already available
                 self._update_classifiers(X=X_delayed, y=y_true_delayed,
-                                         sample_weight=sample_weight)
+                                         sample_weight=sample_weight_delayed)
 
                 # predict samples and get predictions
                 y_pred = self._predict_samples(X)
-- 
2.43.0


From b198f83d5ec2c8b1951c2efdf240855cdfe78b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 14/74] fix: delayed evaluation without pre-training has no
 queue for the delayed samples

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index a1c6a13..189ffe8 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -391,6 +391,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             self.actual_max_samples = self.max_samples
 
         self.first_run = True
+        # The timestamp is set by each batch taken from the stream
+        self.time_manager = TimeManager(None)
         if self.pretrain_size > 0:
             print('Pre-training on {} sample(s).'.format(self.pretrain_size))
 
-- 
2.43.0


From 31f7e9b67e6b2b1b50ed50bfe351fa88e1531c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 15/74] fix: evaluations that stop before the first measurement
 fail in the summary

---
 src/skmultiflow/evaluation/base_evaluator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skmultiflow/evaluation/base_evaluator.py b/src/skmultiflow/evaluation/base_evaluator.py
index a3f4a14..8093f6c 100644
--- a/src/skmultiflow/evaluation/base_evaluator.py
+++ b/src/skmultiflow/evaluation/base_evaluator.py
@@ -675,6 +675,10 @@ class StreamEvaluator(BaseSKMObject, metaclass=ABCMeta):
         if self._end_time - self._start_time > self.max_time:
             print('\nTime limit reached ({:.2f}s). Evaluation stopped.'.format(self.max_time))
         print('Processed samples: {}'.format(self.global_sample_count))
+        if all(value is None for data in self._data_buffer.data.values()
+               for value in data.values()):
+            # Stopped before the first measurement, there is no performance to report
+            return
         print('Mean performance:')
         for i in range(self.n_models):
             if constants.ACCURACY in self.metrics:
-- 
2.43.0


From 5f65c7da04e9c9a04359f47e68290ba66bb73e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 16/74] fix: the Hamming score ignores labels correctly
 predicted as absent

---
 .../metrics/_classification_performance_evaluator.pyx          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index c37cbca..dc2c0c6 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -666,7 +666,8 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
 
         """
         try:
-            return np.sum(self.confusion_matrix.data[:,1,1]) / \
+            return (np.sum(self.confusion_matrix.data[:,0,0])
+                    + np.sum(self.confusion_matrix.data[:,1,1])) / \
                    (self.n_samples * self.confusion_matrix.n_labels)
         except ZeroDivisionError:
             return 0.0   # ill-defined, return 0.0
-- 
2.43.0


From 902982da18d2fcfa02460c39a12cd769c1bca01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:02 +0000
Subject: [PATCH 17/74] fix: finite streams report a negative number of
 remaining samples after a short batch

---
 src/skmultiflow/data/anomaly_sine_generator.py | 2 +-
 src/skmultiflow/data/data_stream.py            | 2 +-
 src/skmultiflow/data/file_stream.py            | 2 +-
 src/skmultiflow/data/multilabel_generator.py   | 2 +-
 src/skmultiflow/data/regression_generator.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index cba101a..227a9ab 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -139,7 +139,7 @@ class AnomalySineGenerator(Stream):
         int
             Number of samples remaining.
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
 
     def get_data_info(self):
         """ Retrieves minimum information from the stream
diff --git a/src/skmultiflow/data/data_stream.py b/src/skmultiflow/data/data_stream.py
index 0e6bae0..fc64cb4 100755
--- a/src/skmultiflow/data/data_stream.py
+++ b/src/skmultiflow/data/data_stream.py
@@ -388,7 +388,7 @@ class DataStream(Stream):
             Remaining number of samples.
 
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
 
     def print_df(self):
         """
diff --git a/src/skmultiflow/data/file_stream.py b/src/skmultiflow/data/file_stream.py
index eb52215..533c7ba 100644
--- a/src/skmultiflow/data/file_stream.py
+++ b/src/skmultiflow/data/file_stream.py
@@ -283,7 +283,7 @@ class FileStream(Stream):
             Remaining number of samples.
 
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
 
     def get_all_samples(self):
         """
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index d8446f3..47e938c 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -156,4 +156,4 @@ class MultilabelGenerator(Stream):
         int
             Number of remaining samples.
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
diff --git a/src/skmultiflow/data/regression_generator.py b/src/skmultiflow/data/regression_generator.py
index 754f3e8..cbc28cd 100644
--- a/src/skmultiflow/data/regression_generator.py
+++ b/src/skmultiflow/data/regression_generator.py
@@ -148,7 +148,7 @@ class RegressionGenerator(Stream):
         int
             Number of samples remaining.
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
 
     def has_more_samples(self):
         """
-- 
2.43.0


From ff8e61d16ad1cd677d659b1a4e0d81d9be399594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:43 +0000
Subject: [PATCH 18/74] fix: rows left in the file buffer by a failed
 evaluation end up in the results of the next one

---
 src/skmultiflow/evaluation/base_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/evaluation/base_evaluator.py b/src/skmultiflow/evaluation/base_evaluator.py
index 8093f6c..9602167 100644
--- a/src/skmultiflow/evaluation/base_evaluator.py
+++ b/src/skmultiflow/evaluation/base_evaluator.py
@@ -541,6 +541,9 @@ class StreamEvaluator(BaseSKMObject, metaclass=ABCMeta):
             self.visualizer.on_new_train_step(sample_id, self._data_buffer)
 
     def _init_file(self):
+        # Rows that a previous evaluation could not write do not belong to this one
+        self._file_buffer = ''
+        self._file_buffer_size = 0
         if self.output_file is not None:
             with open(self.output_file, 'w+') as f:
                 f.write("# TEST CONFIGURATION BEGIN")
-- 
2.43.0


From 973aa575ec75922a63ed13e95a450ca2c74bc74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:36 +0000
Subject: [PATCH 19/74] fix: exhausted multi-label and anomaly generators claim
 to have more samples

---
 src/skmultiflow/data/anomaly_sine_generator.py | 9 +++++++++
 src/skmultiflow/data/multilabel_generator.py   | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index 227a9ab..d4e1af2 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -141,6 +141,15 @@ class AnomalySineGenerator(Stream):
         """
         return max(0, self.n_samples - self.sample_idx)
 
+    def has_more_samples(self):
+        """
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_samples - self.sample_idx > 0
+
     def get_data_info(self):
         """ Retrieves minimum information from the stream
 
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index 47e938c..2bbff05 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -157,3 +157,12 @@ class MultilabelGenerator(Stream):
             Number of remaining samples.
         """
         return max(0, self.n_samples - self.sample_idx)
+
+    def has_more_samples(self):
+        """
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_samples - self.sample_idx > 0
-- 
2.43.0


From 72c53b1e7e20d9ab89a1a7d6a78692ddfe77a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:20 +0000
Subject: [PATCH 20/74] fix: multi-target RegressionGenerator returns more
 targets than samples in the last batch

---
 src/skmultiflow/data/regression_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/regression_generator.py b/src/skmultiflow/data/regression_generator.py
index cbc28cd..92c7e18 100644
--- a/src/skmultiflow/data/regression_generator.py
+++ b/src/skmultiflow/data/regression_generator.py
@@ -135,7 +135,7 @@ class RegressionGenerator(Stream):
                                          n_informative=self.n_informative,
                                          n_targets=self.n_targets,
                                          random_state=self._random_state)
-        self.y = np.resize(self.y, (self.y.size, self.n_targets))
+        self.y = np.resize(self.y, (self.n_samples, self.n_targets))
 
         self.target_names = ["target_" + str(i) for i in range(self.n_targets)]
         self.feature_names = ["att_num_" + str(i) for i in range(self.n_num_features)]
-- 
2.43.0


From e88524b1716845800239a468725480c0d50803de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:20 +0000
Subject: [PATCH 21/74] fix: Learn++ repeats forever when a weak learner's
 error equals the threshold

---
 src/skmultiflow/meta/learn_pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 2975e8e..9f6985e 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -255,7 +255,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             Dt[y_predict_composite == y] = Dt[y_predict_composite == y] * \
                                 normalize_composite_error
 
-                if total_error > self.error_threshold:
+                if total_error >= self.error_threshold:
                     patience += 1
                 else:
                     patience = 0
-- 
2.43.0


From 52e7a6505114e050725d0f99c4ab53eb9534fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:20 +0000
Subject: [PATCH 22/74] fix: Learn++.NSE fails with a list of classes when a
 window misses one of them

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 4d93004..6be1997 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -295,7 +295,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def _fill_missing_probs(self, probs, obs_classes, all_classes):
         proba_ordered = np.zeros(
-            (probs.shape[0], all_classes.size), dtype=np.float
+            (probs.shape[0], len(all_classes)), dtype=np.float
         )
         sorted_classes = np.argsort(all_classes)
         # Find positions to insert existing classes' probs to the complete set
-- 
2.43.0


From f4de073e960de91f518ad433221a84cea0943565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:20 +0000
Subject: [PATCH 23/74] fix: ensembles fail on batches with sample weights

---
 src/skmultiflow/meta/adaptive_random_forests.py   |  3 ++-
 src/skmultiflow/meta/additive_expert_ensemble.py  |  4 +++-
 src/skmultiflow/meta/dynamic_weighted_majority.py |  3 ++-
 src/skmultiflow/meta/online_adac2.py              |  4 +++-
 src/skmultiflow/meta/online_boosting.py           |  4 +++-
 src/skmultiflow/meta/online_csb2.py               |  4 +++-
 src/skmultiflow/meta/online_rus_boost.py          |  4 +++-
 src/skmultiflow/meta/online_smote_bagging.py      | 12 +++++++++---
 src/skmultiflow/meta/online_under_over_bagging.py |  4 +++-
 src/skmultiflow/meta/oza_bagging.py               |  4 +++-
 10 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 9c1be79..8942530 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -306,7 +306,8 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
 
         if y is not None:
             row_cnt, _ = get_dimensions(X)
-            weight = check_weights(weight, expand_length=row_cnt)
+            # Only a single weight has to be expanded to the number of samples
+            weight = check_weights(weight, expand_length=row_cnt if np.size(weight) == 1 else 1)
             for i in range(row_cnt):
                 if weight[i] != 0.0:
                     self._train_weight_seen_by_model += weight[i]
diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 8d35156..9c51b38 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -151,7 +151,9 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             self
         """
         for i in range(len(X)):
-            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, sample_weight)
+            self.fit_single_sample(
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1])
         return self
 
     def predict(self, X):
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index b2db81a..c7817bb 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -148,7 +148,8 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         """
         for i in range(len(X)):
             self.fit_single_sample(
-                X[i:i + 1, :], y[i:i + 1], classes, sample_weight
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
             )
         return self
 
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index a75a0c2..58570cd 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -226,7 +226,9 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else sample_weight[j:j + 1])
                     if self.ensemble[i].predict([X[j]])[0] == 1 and y[j] == 1:
                         self.lam_tp[i] += self.cost_positive * lam
                         self.wacc[i] = (self.lam_tp[i] + self.lam_tn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bb7fa18..65c2731 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -212,7 +212,9 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else sample_weight[j:j + 1])
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
                         self.epsilon[i] = self.lam_sw[i] / (self.lam_sw[i] + self.lam_sc[i])
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ea59584..bd8cf77 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -219,7 +219,9 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else sample_weight[j:j + 1])
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.epsilon[i] = self.lam_sw[i] / self.lam_sum[i]
                         self.werr[i] = (self.lam_fp[i] + self.lam_fn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5ebbf73..5c68082 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -257,7 +257,9 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam_rus)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else sample_weight[j:j + 1])
                 if self.ensemble[i].predict([X[j]])[0] == y[j]:
                     self.lam_sc[i] += lam
                     self.epsilon[i] = (self.lam_sw[i]) / (self.lam_sc[i] + self.lam_sw[i])
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 3c0fae5..7c10722 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -210,18 +210,24 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [X[j]], [y[j]], classes,
+                                None if sample_weight is None else sample_weight[j:j + 1])
                     k_smote = self._random_state.poisson(lam_smote)
 
                     if k_smote > 0:
                         for b in range(k_smote):
                             x_smote = self.online_smote()
-                            self.ensemble[i].partial_fit([x_smote], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [x_smote], [y[j]], classes,
+                                None if sample_weight is None else sample_weight[j:j + 1])
                 else:
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit(
+                                [X[j]], [y[j]], classes,
+                                None if sample_weight is None else sample_weight[j:j + 1])
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 7952955..5a8764c 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -208,7 +208,9 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else sample_weight[j:j + 1])
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index eb634a6..23b163a 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -183,7 +183,9 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson()
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], classes,
+                            None if sample_weight is None else sample_weight[j:j + 1])
         return self
 
     def __adjust_ensemble_size(self):
-- 
2.43.0


From d921a57c911e4fc6144c84f2a1f351cda72c2ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:24 +0000
Subject: [PATCH 24/74] fix: LeveragingBagging with output codes never returns
 for an odd number of classes and an even ensemble

---
 src/skmultiflow/meta/leverage_bagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 9d019e1..5acdc53 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -322,7 +322,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                     else:
                         n_zeros += 1
                 condition = ((n_ones - n_zeros) * (n_ones - n_zeros) >
-                             (self.actual_n_estimators % 2))
+                             (len(self.classes) % 2))
         self.init_matrix_codes = False
 
     def predict(self, X):
-- 
2.43.0


From 2dad0f1744fc4f3e698c945c7258adc998482e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:38 +0000
Subject: [PATCH 25/74] fix: online boosting and bagging ensembles turn every
 warning of a base estimator into an error

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_csb2.py               | 2 +-
 src/skmultiflow/meta/online_rus_boost.py          | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 2 +-
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 58570cd..97ba95d 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -349,7 +349,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
         with warnings.catch_warnings():
-            warnings.filterwarnings('error')
+            warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
                     partial_proba = self.ensemble[i].predict_proba(X)
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 65c2731..453de66 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -323,7 +323,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
         with warnings.catch_warnings():
-            warnings.filterwarnings('error')
+            warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
                     partial_proba = self.ensemble[i].predict_proba(X)
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index bd8cf77..e443d02 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -342,7 +342,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
         with warnings.catch_warnings():
-            warnings.filterwarnings('error')
+            warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
                     partial_proba = self.ensemble[i].predict_proba(X)
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5c68082..1249eaf 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -370,7 +370,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
         with warnings.catch_warnings():
-            warnings.filterwarnings('error')
+            warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
                     partial_proba = self.ensemble[i].predict_proba(X)
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 7c10722..b2a60d1 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -336,7 +336,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
         with warnings.catch_warnings():
-            warnings.filterwarnings('error')
+            warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
                     partial_proba = self.ensemble[i].predict_proba(X)
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 5a8764c..38ab0df 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -306,7 +306,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
         with warnings.catch_warnings():
-            warnings.filterwarnings('error')
+            warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
                     partial_proba = self.ensemble[i].predict_proba(X)
-- 
2.43.0


From 93662d2538a0e5cbe16d4a48a740d09c9a2921a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:36 +0000
Subject: [PATCH 26/74] fix: OnlineAdaC2 with fewer estimators than classes
 fails when it is trained

---
 src/skmultiflow/meta/online_adac2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 97ba95d..f583dd5 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -289,6 +289,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.lam_tn = np.zeros(self.actual_n_estimators)
                 self.lam_fp = np.zeros(self.actual_n_estimators)
                 self.lam_sum = np.zeros(self.actual_n_estimators)
+                self.wacc = np.zeros(self.actual_n_estimators)
+                self.werr = np.zeros(self.actual_n_estimators)
 
     def predict(self, X):
         """ predict
-- 
2.43.0


From c9698007b051697b2ab0f82b93a9f324f0b34ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:03 +0000
Subject: [PATCH 27/74] fix: Learn++, Learn++.NSE and online SMOTE bagging keep
 references into the caller's arrays

---
 src/skmultiflow/meta/learn_nse.py            | 2 +-
 src/skmultiflow/meta/learn_pp.py             | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 6be1997..9390f2c 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -162,7 +162,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.classes = classes
 
         for i in range(N):
-            self.X_batch.append(X[i])
+            self.X_batch.append(np.copy(X[i]))
             self.y_batch.append(y[i])
             mt = len(self.y_batch)
 
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 9f6985e..7b43e41 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -181,7 +181,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         N, _ = X.shape
 
         for i in range(N):
-            self.X_batch.append(X[i])
+            self.X_batch.append(np.copy(X[i]))
             self.y_batch.append(y[i])
             if len(self.y_batch) == self.window_size:
                 self.__fit_batch(self.X_batch, self.y_batch)
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index b2a60d1..379fd20 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -204,7 +204,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
                 if y[j] == 1:
-                    self.pos_samples.append(X[j])
+                    self.pos_samples.append(np.copy(X[j]))
                     lam = a * self.sampling_rate
                     lam_smote = (1 - a) * self.sampling_rate
                     k = self._random_state.poisson(lam)
-- 
2.43.0


From a992ca9cd9b2e1ec013047b4dd00faf746e6eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:03 +0000
Subject: [PATCH 28/74] fix: transforms change the caller's data in place

---
 src/skmultiflow/transform/missing_values_cleaner.py   | 5 ++++-
 src/skmultiflow/transform/windowed_minmax_scaler.py   | 5 ++++-
 src/skmultiflow/transform/windowed_standard_scaler.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index bcb9cae..f82e46a 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from scipy import stats
@@ -97,6 +99,7 @@ class MissingValuesCleaner(StreamTransform):
             The sample or set of samples that should be transformed.
         
         """
+        X = copy.deepcopy(X)  # the data of the caller is left as it is
         r, c = get_dimensions(X)
         for i in range(r):
             if self.strategy in ['mean', 'median', 'mode']:
@@ -186,7 +189,7 @@ class MissingValuesCleaner(StreamTransform):
             self
         
         """
-        X = np.asarray(X)
+        X = np.array(X)
         if self.strategy in ['mean', 'median', 'mode']:
             self.window.add_element(X)
         return self
diff --git a/src/skmultiflow/transform/windowed_minmax_scaler.py b/src/skmultiflow/transform/windowed_minmax_scaler.py
index d6cad88..10298f0 100644
--- a/src/skmultiflow/transform/windowed_minmax_scaler.py
+++ b/src/skmultiflow/transform/windowed_minmax_scaler.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from skmultiflow.transform.base_transform import StreamTransform
@@ -38,6 +40,7 @@ class WindowedMinmaxScaler(StreamTransform):
             The sample or set of samples that should be transformed.
 
         """
+        X = copy.deepcopy(X)  # the data of the caller is left as it is
         r, c = get_dimensions(X)
         for i in range(r):
             row = np.copy([X[i][:]])
@@ -104,5 +107,5 @@ class WindowedMinmaxScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.copy(X))
         return self
diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index 33910f5..16fab2e 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from skmultiflow.transform.base_transform import StreamTransform
@@ -36,6 +38,7 @@ class WindowedStandardScaler(StreamTransform):
             The sample or set of samples that should be transformed.
 
         """
+        X = copy.deepcopy(X)  # the data of the caller is left as it is
         r, c = get_dimensions(X)
         for i in range(r):
             row = np.copy([X[i][:]])
@@ -100,5 +103,5 @@ class WindowedStandardScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.copy(X))
         return self
-- 
2.43.0


From cfc195fd7f21a70030e516fa032f2cee52a908d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:50 +0000
Subject: [PATCH 29/74] fix: StreamingRandomPatches.predict_proba of an
 untrained model is not one row per sample

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index e4276db..d7dcd54 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -291,7 +291,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         if self.ensemble is None:
             self._init_ensemble(n_features=n_features)
-            return np.zeros(n_samples)
+            return np.zeros((n_samples, 1))
 
         for i in range(n_samples):
             y_proba.append(self._predict_proba(np.asarray([X[i]])))
-- 
2.43.0


From b44e4cb7e5e8e2e5996a074e2443b09da564171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:53 +0000
Subject: [PATCH 30/74] fix: RSLVQ uses uninitialised memory as prototypes of
 classes it has not observed

---
 .../prototype/robust_soft_learning_vector_quantization.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 3ee403a..48b10aa 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -224,9 +224,10 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
         # initialize prototypes
         if self.initial_prototypes is None:
             if self.initial_fit:
-                self.w_ = np.empty([np.sum(nb_ppc), nb_features],
+                # Prototypes stay at the origin until their class is observed
+                self.w_ = np.zeros([np.sum(nb_ppc), nb_features],
                                    dtype=np.double)
-                self.c_w_ = np.empty([nb_ppc.sum()], dtype=self.classes_.dtype)
+                self.c_w_ = np.repeat(self.classes_, nb_ppc)
             pos = 0
             for actClassIdx in range(len(self.classes_)):
                 actClass = self.classes_[actClassIdx]
-- 
2.43.0


From 2e050669ef48f706d0d4df395e2c3c7ac733ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:31 +0000
Subject: [PATCH 31/74] fix: keep the line endings of time_manager.py, changed
 by the repair of the delayed weights

---
 src/skmultiflow/data/time_manager.py | 322 +++++++++++++--------------
 1 file changed, 161 insertions(+), 161 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index 8ae50d7..0bd2b36 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -1,161 +1,161 @@
-import numpy as np
-import pandas as pd
-
-
-class TimeManager(object):
-    """ TimeManager
-
-    Manage instances that are related to a timestamp and a delay.
-
-    Parameters
-    ----------
-    timestamp: numpy.datetime64
-        Current timestamp of the stream. This timestamp is always
-        updated as the stream is processed to simulate when
-        the labels will be available for each sample.
-
-    """
-
-    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
-    _USE_SAMPLE_WEIGHT = True
-
-    def __init__(self, timestamp):
-        # get initial timestamp
-        self.timestamp = timestamp
-        # create dataframe to save time data
-        # X = features
-        # y_true = true label/target
-        # y_pred = predicted label/target for each model being evaluated
-        # arrival_time = arrival timestamp of the sample
-        # available_time = timestamp when the sample label will be available
-        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
-        # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
-            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
-            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
-
-    def _sort_queue(self):
-        # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
-        self.queue = self.queue.reset_index(drop=True)
-
-    def _cleanup_samples(self, batch_size):
-        # check if has batch_size samples to be removed
-        if self.queue.shape[0] - batch_size >= 0:
-            # drop samples that were already used
-            self.queue = self.queue.iloc[batch_size:]
-            # reset indexes
-            self.queue = self.queue.reset_index(drop=True)
-        else:
-            # drop all samples
-            self.queue = self.queue.iloc[0:0]
-
-    def update_timestamp(self, timestamp):
-        """ update_timestamp
-
-        Update current timestamp of the stream.
-
-        Parameters
-        ----------
-        timestamp: datetime64
-            Current timestamp of the stream. This timestamp is always
-            updated as the stream is processed to simulate when
-            the labels will be available for each sample.
-
-        """
-
-        self.timestamp = timestamp
-
-    def get_available_samples(self):
-        """ get_available_samples
-
-        Get available samples of the stream, i.e., samples that have
-        their labels available (available_time <= timestamp).
-
-        Returns
-        -------
-        tuple
-            A tuple containing the data, their true labels, predictions and weights.
-
-        """
-
-        # get samples that have label available
-        samples = self.queue[self.queue['available_time'] <= self.timestamp]
-        # remove these samples from queue
-        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
-        # get X, y_true and y_pred
-        X = np.array(samples["X"].values.tolist())
-        y_true = np.array(samples["y_true"].values.tolist())
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["sample_weight"].values.tolist())
-        else:
-            sample_weight = None
-        # return X, y_true, y_pred and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
-
-    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
-        # check if weight is None to create a list
-        if sample_weight is None:
-            # set _sample_weight as False, indicating that there is no weight
-            self._USE_SAMPLE_WEIGHT = False
-            sample_weight = np.full(X.shape[0], None)   # noqa
-        # create daraframe for current samples
-        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
-                                      arrival_time, available_time)),
-                             columns=self._COLUMN_NAMES)
-        # append new data to queue
-        self.queue = self.queue.append(frame)
-        # sort queue
-        self._sort_queue()
-
-    def has_more_samples(self):
-        """ Checks if queue has more samples.
-
-        Returns
-        -------
-        Boolean
-            True if queue has more samples.
-
-        """
-
-        return self.queue.shape[0] > 0
-
-    def next_sample(self, batch_size=1):
-        """ Returns next sample from the queue.
-
-        If there is enough instances to supply at least batch_size samples, those
-        are returned. Otherwise, the remaining are returned.
-
-        Parameters
-        ----------
-        batch_size: int (optional, default=1)
-            The number of instances to return.
-
-        Returns
-        -------
-        tuple or tuple list
-            Returns the next batch_size instances.
-            For general purposes the return can be treated as a numpy.ndarray.
-
-        """
-        if self.queue.shape[0] - batch_size >= 0:
-            samples = self.queue[:batch_size]
-        else:
-            samples = self.queue
-        # get X
-        X = np.array(samples["X"].values.tolist())
-        # get y_true
-        y_true = np.array(samples["y_true"].values.tolist())
-        # get y_pred
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["sample_weight"].values.tolist())
-        else:
-            sample_weight = None
-        # remove samples from queue
-        self._cleanup_samples(batch_size)
-        # return X, y_true, y_pred, and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
+import numpy as np
+import pandas as pd
+
+
+class TimeManager(object):
+    """ TimeManager
+
+    Manage instances that are related to a timestamp and a delay.
+
+    Parameters
+    ----------
+    timestamp: numpy.datetime64
+        Current timestamp of the stream. This timestamp is always
+        updated as the stream is processed to simulate when
+        the labels will be available for each sample.
+
+    """
+
+    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
+    _USE_SAMPLE_WEIGHT = True
+
+    def __init__(self, timestamp):
+        # get initial timestamp
+        self.timestamp = timestamp
+        # create dataframe to save time data
+        # X = features
+        # y_true = true label/target
+        # y_pred = predicted label/target for each model being evaluated
+        # arrival_time = arrival timestamp of the sample
+        # available_time = timestamp when the sample label will be available
+        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
+        # transform queue into datetime if timestamps are not int
+        if isinstance(self.timestamp, int):
+            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
+            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
+
+    def _sort_queue(self):
+        # sort values by available_time
+        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.reset_index(drop=True)
+
+    def _cleanup_samples(self, batch_size):
+        # check if has batch_size samples to be removed
+        if self.queue.shape[0] - batch_size >= 0:
+            # drop samples that were already used
+            self.queue = self.queue.iloc[batch_size:]
+            # reset indexes
+            self.queue = self.queue.reset_index(drop=True)
+        else:
+            # drop all samples
+            self.queue = self.queue.iloc[0:0]
+
+    def update_timestamp(self, timestamp):
+        """ update_timestamp
+
+        Update current timestamp of the stream.
+
+        Parameters
+        ----------
+        timestamp: datetime64
+            Current timestamp of the stream. This timestamp is always
+            updated as the stream is processed to simulate when
+            the labels will be available for each sample.
+
+        """
+
+        self.timestamp = timestamp
+
+    def get_available_samples(self):
+        """ get_available_samples
+
+        Get available samples of the stream, i.e., samples that have
+        their labels available (available_time <= timestamp).
+
+        Returns
+        -------
+        tuple
+            A tuple containing the data, their true labels, predictions and weights.
+
+        """
+
+        # get samples that have label available
+        samples = self.queue[self.queue['available_time'] <= self.timestamp]
+        # remove these samples from queue
+        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
+        # get X, y_true and y_pred
+        X = np.array(samples["X"].values.tolist())
+        y_true = np.array(samples["y_true"].values.tolist())
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
+
+    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
+        # check if weight is None to create a list
+        if sample_weight is None:
+            # set _sample_weight as False, indicating that there is no weight
+            self._USE_SAMPLE_WEIGHT = False
+            sample_weight = np.full(X.shape[0], None)   # noqa
+        # create daraframe for current samples
+        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
+                                      arrival_time, available_time)),
+                             columns=self._COLUMN_NAMES)
+        # append new data to queue
+        self.queue = self.queue.append(frame)
+        # sort queue
+        self._sort_queue()
+
+    def has_more_samples(self):
+        """ Checks if queue has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if queue has more samples.
+
+        """
+
+        return self.queue.shape[0] > 0
+
+    def next_sample(self, batch_size=1):
+        """ Returns next sample from the queue.
+
+        If there is enough instances to supply at least batch_size samples, those
+        are returned. Otherwise, the remaining are returned.
+
+        Parameters
+        ----------
+        batch_size: int (optional, default=1)
+            The number of instances to return.
+
+        Returns
+        -------
+        tuple or tuple list
+            Returns the next batch_size instances.
+            For general purposes the return can be treated as a numpy.ndarray.
+
+        """
+        if self.queue.shape[0] - batch_size >= 0:
+            samples = self.queue[:batch_size]
+        else:
+            samples = self.queue
+        # get X
+        X = np.array(samples["X"].values.tolist())
+        # get y_true
+        y_true = np.array(samples["y_true"].values.tolist())
+        # get y_pred
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # remove samples from queue
+        self._cleanup_samples(batch_size)
+        # return X, y_true, y_pred, and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
-- 
2.43.0


From 83687ae01c435f7aba55e736875d17d143e324ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:26 +0000
Subject: [PATCH 32/74] fix: SAMKNN without adaption of the short-term memory
 fails when its memory is full

---
 src/skmultiflow/lazy/sam_knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index ddcf2f6..b15aeb1 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -126,8 +126,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         self.maxSTMSize = self.max_window_size - self.maxLTMSize
         self.minSTMSize = self.min_stm_size
 
-        if self.stm_size_option is not None:
-            self.STMDistances = np.zeros(shape=(max_window_size + 1, max_window_size + 1))
+        self.STMDistances = np.zeros(shape=(max_window_size + 1, max_window_size + 1))
         if self.weighting == 'distance':
             self.getLabelsFct = SAMKNNClassifier.get_distance_weighted_label
         elif self.weighting == 'uniform':
-- 
2.43.0


From ef0b6c17a718781975c39b764f2a0edeb14ef1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:26 +0000
Subject: [PATCH 33/74] fix: Hoeffding trees that remove poor attributes fail
 at the null split suggestion

---
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index eac6137..d7aa38f 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -599,7 +599,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     poor_atts = set()
                     # Add any poor attribute to set
                     for i in range(len(best_split_suggestions)):
-                        if best_split_suggestions[i] is not None:
+                        if best_split_suggestions[i].split_test is not None:
                             split_atts = best_split_suggestions[i].split_test.\
                                 get_atts_test_depends_on()
                             if len(split_atts) == 1:
-- 
2.43.0


From eb3aa1a54ce5baf9a59a39fdf75aac6c8df03134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:26 +0000
Subject: [PATCH 34/74] fix: Hoeffding tree regressors that remove poor
 attributes divide by a merit of zero

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 2 +-
 src/skmultiflow/trees/isoup_tree.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index f748d14..0f989d1 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -481,7 +481,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     (second_best_suggestion.merit / best_suggestion.merit < 1 - hoeffding_bound
                         or hoeffding_bound < self.tie_threshold):
                 should_split = True
-            if self.remove_poor_atts:
+            if self.remove_poor_atts and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 9b31109..e4f0ba7 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -534,7 +534,7 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                                                < 1 - hoeffding_bound or hoeffding_bound
                                                < self.tie_threshold)):
                 should_split = True
-            if self.remove_poor_atts and not should_split:
+            if self.remove_poor_atts and not should_split and best_suggestion.merit > 0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
-- 
2.43.0


From ccf521d53b04cdd526ee812eddaa8766908fddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:26 +0000
Subject: [PATCH 35/74] fix: AccuracyWeightedEnsemble fails when a
 cross-validation fold misses a class

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 4172e0a..8e75d17 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -345,7 +345,8 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
             if c in labels:
                 # find the index of this label c in probabs[i]
                 index_label_c = np.where(labels == c)[0][0]
-                probab_ic = probabs[i][index_label_c]
+                # a fold of the cross-validation may miss the last labels
+                probab_ic = probabs[i][index_label_c] if index_label_c < len(probabs[i]) else 0.0
                 sum_error += (1.0 - probab_ic) * (1.0 - probab_ic)
             else:
                 sum_error += 1.0
-- 
2.43.0


From 110089579e6366cfae08bea00b44c3d49db79e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 36/74] fix: the extremely fast decision tree gives every
 sample of a batch the weight of the first one

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 241684e..63d18e5 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -215,8 +215,7 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
             if sample_weight is None:
                 sample_weight = np.array([1.0])
             row_cnt, _ = get_dimensions(X)
-            wrow_cnt, _ = get_dimensions(sample_weight)
-            if row_cnt != wrow_cnt:
+            if row_cnt != len(sample_weight):
                 sample_weight = [sample_weight[0]] * row_cnt
             for i in range(row_cnt):
                 if sample_weight[i] != 0.0:
-- 
2.43.0


From de73881e66bb3d1c1d592a79be057c102253a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:36 +0000
Subject: [PATCH 37/74] fix: naive Bayes and RSLVQ fail when the classes are
 announced as a numpy array

---
 src/skmultiflow/bayes/naive_bayes.py                            | 2 +-
 .../prototype/robust_soft_learning_vector_quantization.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/bayes/naive_bayes.py b/src/skmultiflow/bayes/naive_bayes.py
index 799bf03..9f71111 100644
--- a/src/skmultiflow/bayes/naive_bayes.py
+++ b/src/skmultiflow/bayes/naive_bayes.py
@@ -95,7 +95,7 @@ class NaiveBayes(BaseSKMObject, ClassifierMixin):
             self
 
         """
-        if not self._classes and classes is not None:
+        if self._classes is None and classes is not None:
             self._classes = classes
 
         if y is not None:
diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 48b10aa..108220f 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -177,7 +177,7 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
                                                     train_lab.ravel())
 
         if self.initial_fit:
-            if classes:
+            if classes is not None:
                 self.classes_ = np.asarray(classes)
                 self.protos_initialized = np.zeros(self.classes_.size)
             else:
-- 
2.43.0


From 80a23f09bb69f85a204dac127f36f32689e5a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:01 +0000
Subject: [PATCH 38/74] fix: a clone of KSWIN loses its data

---
 src/skmultiflow/drift_detection/kswin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/drift_detection/kswin.py b/src/skmultiflow/drift_detection/kswin.py
index f9cf7f3..5bdebc2 100644
--- a/src/skmultiflow/drift_detection/kswin.py
+++ b/src/skmultiflow/drift_detection/kswin.py
@@ -82,6 +82,7 @@ class KSWIN(BaseDriftDetector):
         self.change_detected = False
         self.p_value = 0
         self.n = 0
+        self.data = data
         if self.alpha < 0 or self.alpha > 1:
             raise ValueError("Alpha must be between 0 and 1")
 
-- 
2.43.0


From bb4b9f94181010439fce5aa93f978ab006c32f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:01 +0000
Subject: [PATCH 39/74] fix: Learn++.NSE cannot be cloned

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 9390f2c..8f12763 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -108,7 +108,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.X_batch = []
         self.y_batch = []
         self.instance_weights = []
-        self.base_estimator = cp.deepcopy(base_estimator)
+        self.base_estimator = base_estimator
         self.classes = None
 
     @staticmethod
-- 
2.43.0


From 01982b00f0be54aa0cbe8c567bafa89292d86a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:07 +0000
Subject: [PATCH 40/74] fix: classification evaluators forget their number of
 classes or labels at a reset

---
 .../metrics/_classification_performance_evaluator.pyx       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index dc2c0c6..019456f 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -566,7 +566,7 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_classes=self._init_n_classes, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -742,7 +742,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__()
+        self.__init__(n_labels=self._init_n_labels)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -875,7 +875,7 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_labels=self._init_n_labels, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
-- 
2.43.0


From 5c6f0b9abc7787146a91bb087bdba895f302dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:07 +0000
Subject: [PATCH 41/74] fix: the F1 score of a given class is that of class 1
 while there are two classes

---
 .../metrics/_classification_performance_evaluator.pyx         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 019456f..a940076 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -358,10 +358,10 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double total
         cdef int n_classes = self.confusion_matrix.n_classes
         cdef double sum_f1
-        if n_classes == 2:
+        if n_classes == 2 and class_value == -1:
             # Binary case
             return self._f1_per_class(1)
-        if class_value == -1 and class_value == -1:
+        elif class_value == -1:
             # Multi-class case, calculate 'macro' average
             sum_f1 = 0.0
             for i in self.confusion_matrix.classes:
-- 
2.43.0


From ba4fa297685f78cdee269a9fd750260794516f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:27 +0000
Subject: [PATCH 42/74] fix: weighted classification scores are divided by the
 number of samples instead of their weight

---
 .../_classification_performance_evaluator.pyx | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index a940076..17f3343 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -93,7 +93,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double max_prob = 0.0
         cdef double sum_value
         for i in sorted(self.confusion_matrix.classes):
-            sum_value = self.confusion_matrix.sum_row[i] / self.n_samples
+            sum_value = self.confusion_matrix.sum_row[i] / self._total_weight_observed
             if sum_value > max_prob:
                 max_prob = sum_value
                 majority_idx = i
@@ -111,8 +111,8 @@ cdef class ClassificationPerformanceEvaluator:
             Accuracy.
 
         """
-        return (self.confusion_matrix.sum_diag / self.n_samples)\
-            if self.n_samples > 0 else 0.0
+        return (self.confusion_matrix.sum_diag / self._total_weight_observed)\
+            if self._total_weight_observed > 0.0 else 0.0
 
     @property
     def total_weight_observed(self):
@@ -154,8 +154,8 @@ cdef class ClassificationPerformanceEvaluator:
 
         if self._total_weight_observed > 0.0:
             for i in self.confusion_matrix.classes:
-                estimation_row = self.confusion_matrix.sum_row[i] / self.n_samples
-                estimation_col = self.confusion_matrix.sum_col[i] / self.n_samples
+                estimation_row = self.confusion_matrix.sum_row[i] / self._total_weight_observed
+                estimation_col = self.confusion_matrix.sum_col[i] / self._total_weight_observed
                 pe += estimation_row * estimation_col
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
@@ -191,8 +191,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_correct_no_change_classifier / self.n_samples
+            pe = self.weight_correct_no_change_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -225,8 +224,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_majority_classifier / self.n_samples
+            pe = self.weight_majority_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -533,8 +531,9 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
             self.weight_majority_classifier -= weight_remove if majority_classifier_correction == 1 else 0.0
             self.weight_correct_no_change_classifier -= \
                 weight_remove if correct_no_change_classifier_correction == 1 else 0.0
-            # Update sample count
+            # Update sample count and weight
             self.n_samples -= 1
+            self._total_weight_observed -= weight_remove
 
         self.n_samples += 1
 
-- 
2.43.0


From afcf73bc290677d303afc221fc73dfb9395bd65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:28 +0000
Subject: [PATCH 43/74] fix: the weighted Hamming score is divided by the
 number of labels instead of their weight

---
 .../metrics/_classification_performance_evaluator.pyx    | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 17f3343..7b73700 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -664,12 +664,11 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
             Hamming score.
 
         """
-        try:
+        cdef double total = np.sum(self.confusion_matrix.data)
+        if total > 0.0:
             return (np.sum(self.confusion_matrix.data[:,0,0])
-                    + np.sum(self.confusion_matrix.data[:,1,1])) / \
-                   (self.n_samples * self.confusion_matrix.n_labels)
-        except ZeroDivisionError:
-            return 0.0   # ill-defined, return 0.0
+                    + np.sum(self.confusion_matrix.data[:,1,1])) / total
+        return 0.0   # ill-defined, return 0.0
 
     cpdef double hamming_loss_score(self):
         """ Hamming loss score.
-- 
2.43.0


From ce798f4e9111cce0f85b4e7bad2f8b577e99a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:06 +0000
Subject: [PATCH 44/74] fix: a sample without weight adds its classes to the
 window evaluator when it leaves the window

---
 .../metrics/_classification_performance_evaluator.pyx          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 7b73700..4443cda 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -526,7 +526,8 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
             majority_classifier_correction = remove_tuple[3]
             correct_no_change_classifier_correction = remove_tuple[4]
             # Update confusion matrix by removing the oldest samples
-            self.confusion_matrix[(y_true_remove, y_pred_remove)] = -weight_remove
+            if weight_remove > 0.0:
+                self.confusion_matrix[(y_true_remove, y_pred_remove)] = -weight_remove
             # Update the majority and correct-no-change classifiers' statistics
             self.weight_majority_classifier -= weight_remove if majority_classifier_correction == 1 else 0.0
             self.weight_correct_no_change_classifier -= \
-- 
2.43.0


From ef4dc6e6c20c818219b4bd9c7ac09f3ed26f92eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:02 +0000
Subject: [PATCH 45/74] fix: the multi-label evaluators keep references to the
 arrays of the caller

---
 .../_classification_performance_evaluator.pyx        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 4443cda..4fe3f20 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -651,8 +651,8 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
             self.jaccard_sum += inter_val / union_val
 
         # Keep track of last entry
-        self.last_true = y_true
-        self.last_pred = y_pred
+        self.last_true = y_true.copy()
+        self.last_pred = y_pred.copy()
 
     cpdef double hamming_score(self):
         """ Hamming score.
@@ -861,12 +861,12 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
             jaccard_sum_remove = inter_val / union_val
 
         # Keep track of last entry
-        self.last_true = y_true
-        self.last_pred = y_pred
+        self.last_true = y_true.copy()
+        self.last_pred = y_pred.copy()
 
         # Enqueue sample so it can be removed when the window is full.
-        self._queue.append((y_true,
-                            y_pred,
+        self._queue.append((y_true.copy(),
+                            y_pred.copy(),
                             sample_weight,
                             is_equal_remove,
                             jaccard_sum_remove))
-- 
2.43.0


From 6afd64404197cc5459b8a888c2719758f5df55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:31 +0000
Subject: [PATCH 46/74] fix: StreamingRandomPatches cannot be cloned

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index d7dcd54..16673a0 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -168,7 +168,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.disable_background_learner = disable_background_learner
         # Single option (accuracy) for drift detection criteria. Could be extended in the future.
         self.drift_detection_criteria = 'accuracy'
-        self.nominal_attributes = nominal_attributes if nominal_attributes else []
+        self.nominal_attributes = nominal_attributes if nominal_attributes is not None else []
         self.random_state = random_state
         # self._random_state is the actual object used internally
         self._random_state = check_random_state(self.random_state)
-- 
2.43.0


From ec12ae8596e57bbfd774630e6e135583b769f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:26 +0000
Subject: [PATCH 47/74] fix: resetting a learner keeps the classes (and a
 training method) of its previous use

---
 src/skmultiflow/lazy/knn_classifier.py        |  6 ++++++
 .../meta/adaptive_random_forests.py           |  1 +
 src/skmultiflow/meta/learn_nse.py             |  3 +++
 src/skmultiflow/meta/learn_pp.py              |  1 +
 src/skmultiflow/meta/online_adac2.py          |  3 ++-
 src/skmultiflow/meta/online_boosting.py       |  3 ++-
 src/skmultiflow/meta/online_csb2.py           |  3 ++-
 src/skmultiflow/meta/online_rus_boost.py      |  3 ++-
 src/skmultiflow/meta/online_smote_bagging.py  |  3 ++-
 .../meta/online_under_over_bagging.py         |  3 ++-
 src/skmultiflow/meta/oza_bagging.py           |  1 +
 .../meta/streaming_random_patches.py          | 21 ++++++++++---------
 src/skmultiflow/trees/hoeffding_tree.py       |  1 +
 13 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/skmultiflow/lazy/knn_classifier.py b/src/skmultiflow/lazy/knn_classifier.py
index bfe8727..5cf2cb1 100644
--- a/src/skmultiflow/lazy/knn_classifier.py
+++ b/src/skmultiflow/lazy/knn_classifier.py
@@ -92,6 +92,12 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
                          metric=metric)
         self.classes = []
 
+    def reset(self):
+        """ Reset estimator.
+        """
+        self.classes = []
+        return super().reset()
+
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially (incrementally) fit the model.
 
diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 8942530..e6cf764 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -407,6 +407,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
         self.ensemble = None
         self.instances_seen = 0
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
 
     def _get_votes_for_instance(self, X):
diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 8f12763..817c47f 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -349,5 +349,8 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.ensemble_weights = []
         self.bkts = []
         self.wkts = []
+        self.buffer = []
+        self.instance_weights = []
+        self.classes = None
         self.X_batch = []
         self.y_batch = []
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 7b43e41..ce88ee9 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -132,6 +132,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.ensemble_weights = []
         self.X_batch = []
         self.y_batch = []
+        self.classes = None
         self.random = check_random_state(self.random_state)
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index f583dd5..8de8f97 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -158,7 +158,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.werr = np.zeros(self.actual_n_estimators)
 
     def reset(self):
-        self.__configure()
+        self.ensemble = None
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 453de66..f46766a 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -147,7 +147,8 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.epsilon = np.zeros(self.actual_n_estimators)
 
     def reset(self):
-        self.__configure()
+        self.ensemble = None
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index e443d02..c078bea 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -152,7 +152,8 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.epsilon = np.zeros(self.actual_n_estimators)
 
     def reset(self):
-        self.__configure()
+        self.ensemble = None
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 1249eaf..3dca0b6 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -156,7 +156,8 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.n_neg = 0
 
     def reset(self):
-        self.__configure()
+        self.ensemble = None
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 379fd20..5f65564 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -138,7 +138,8 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
         self.pos_samples = []
 
     def reset(self):
-        self.__configure()
+        self.ensemble = None
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 38ab0df..9ea7b04 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -142,7 +142,8 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self._random_state = check_random_state(self.random_state)
 
     def reset(self):
-        self.__configure()
+        self.ensemble = None
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index 23b163a..c529287 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -118,6 +118,7 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self._random_state = check_random_state(self.random_state)
 
     def reset(self):
+        self.classes = None
         self.__configure()
         return self
 
diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 16673a0..e48110e 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -231,7 +231,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
             # Train using random subspaces without resampling,
             # i.e. all instances are used for training.
-            if self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 self.ensemble[i].partial_fit(X=X, y=y, classes=classes,
                                              sample_weight=np.asarray([1.]),
                                              n_samples_seen=self._n_samples_seen,
@@ -324,8 +324,9 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Select the size of k, which depends on 2 parameters:
         # subspace_size and subspace_mode
         k = self.subspace_size
+        self._training_method = self.training_method
 
-        if self.training_method != self._TRAIN_RESAMPLING:
+        if self._training_method != self._TRAIN_RESAMPLING:
             # This only applies to subspaces and random patches options
             if self.subspace_mode == self._FEATURES_SQRT:
                 k = int(np.round(np.sqrt(n_features)) + 1)
@@ -344,8 +345,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Generate subspaces. The subspaces is a 2D matrix of shape
         # (n_estimators, k) where each row contains the k feature indices
         # to be used by each estimator.
-        if self.training_method == self._TRAIN_RANDOM_SUBSPACES or \
-                self.training_method == self._TRAIN_RANDOM_PATCHES:
+        if self._training_method == self._TRAIN_RANDOM_SUBSPACES or \
+                self._training_method == self._TRAIN_RANDOM_PATCHES:
             if k != 0 and k < n_features:
                 # For low dimensionality it is better to avoid more than
                 # 1 classifier with the same subspace, thus we generate all
@@ -377,7 +378,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             # k == 0 or k > n_features (subspace size is larger than the
             # number of features), then default to re-sampling
             else:
-                self.training_method = self._TRAIN_RESAMPLING
+                self._training_method = self._TRAIN_RESAMPLING
 
         # Reset the base estimator for safety.
         self.base_estimator.reset()
@@ -393,16 +394,16 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         performance_evaluator = self._base_performance_evaluator
 
         subspace_indexes = np.arange(self.n_estimators)
-        if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+        if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                self._training_method == self._TRAIN_RANDOM_SUBSPACES:
             # Shuffle indexes that match subspaces with members of the ensemble
             self._random_state.shuffle(subspace_indexes)
         for i in range(self.n_estimators):
-            # When self.training_method == self._TRAIN_RESAMPLING
+            # When self._training_method == self._TRAIN_RESAMPLING
             features_indexes = None
             # Otherwise set feature indexes
-            if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                    self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                    self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 features_indexes = self._subspaces[subspace_indexes[i]]
             self.ensemble.append(base_learner_class(
                 idx_original=i,
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index d7aa38f..a9bdc94 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -243,6 +243,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
         self._byte_size_estimate_overhead_fraction = 1.0
         self._growth_allowed = True
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
 
         return self
 
-- 
2.43.0


From 95efae881a46464d172bdc7239499a77ce951c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 48/74] fix: MissingValuesCleaner computes its substitutes from
 missing values

---
 .../transform/missing_values_cleaner.py       | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index f82e46a..6cd7151 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -103,7 +103,7 @@ class MissingValuesCleaner(StreamTransform):
         r, c = get_dimensions(X)
         for i in range(r):
             if self.strategy in ['mean', 'median', 'mode']:
-                self.window.add_element([X[i][:]])
+                self.window.add_element([copy.copy(X[i])])
             for j in range(c):
                 if X[i][j] in self.missing_value or np.isnan(X[i][j]):
                     X[i][j] = self._get_substitute(j)
@@ -128,24 +128,19 @@ class MissingValuesCleaner(StreamTransform):
         """
         if self.strategy == 'zero':
             return 0
-        elif self.strategy == 'mean':
-            if not self.window.is_empty():
-                return np.nanmean(np.array(self.window.get_queue())[:, column_index])
-            else:
-                return self.new_value
-        elif self.strategy == 'median':
-            if not self.window.is_empty():
-                return np.nanmedian(np.array(self.window.get_queue())[:, column_index])
-            else:
-                return self.new_value
-        elif self.strategy == 'mode':
-            if not self.window.is_empty():
-                return stats.mode(np.array(self.window.get_queue())[:, column_index],
-                                  nan_policy='omit')[0]
-            else:
-                return self.new_value
         elif self.strategy == 'custom':
             return self.new_value
+        # Only values that are not missing themselves count
+        values = [row[column_index] for row in self.window.get_queue()]
+        values = [v for v in values if not (v in self.missing_value or np.isnan(v))]
+        if not values:
+            return self.new_value
+        if self.strategy == 'mean':
+            return np.mean(values)
+        elif self.strategy == 'median':
+            return np.median(values)
+        elif self.strategy == 'mode':
+            return stats.mode(values)[0]
 
     def partial_fit_transform(self, X, y=None):
         """ partial_fit_transform
-- 
2.43.0


From a4e179d7a845ee345f64f9e3786232a5cf809b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 49/74] fix: OneHotToCategorical fails on columns behind its
 last category

---
 src/skmultiflow/transform/one_hot_to_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/transform/one_hot_to_categorical.py b/src/skmultiflow/transform/one_hot_to_categorical.py
index 3ffcb29..43892d6 100644
--- a/src/skmultiflow/transform/one_hot_to_categorical.py
+++ b/src/skmultiflow/transform/one_hot_to_categorical.py
@@ -57,7 +57,8 @@ class OneHotToCategorical(StreamTransform):
         i = 0
         new_i = 0
         while i < X.size:
-            if i in self.categorical_list[list_index]:
+            if list_index < len(self.categorical_list) \
+                    and i in self.categorical_list[list_index]:
                 c = 0
                 found = False
                 for j in range(len(self.categorical_list[list_index])):
-- 
2.43.0


From d08ab4f30f66d3cd0acb243f7b36716e5690f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:00 +0000
Subject: [PATCH 50/74] fix: Pipeline refuses the transforms of the library and
 empty steps

---
 src/skmultiflow/core/pipeline.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index cbe19c7..a80c507 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -128,7 +128,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "fit_transform"):
                 Xt = transform.fit_transform(Xt, y)
             else:
@@ -166,11 +166,11 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
-            if hasattr(transform, 'fit_transform'):
-                Xt = transform.partial_fit_transform(Xt, y, classes=classes)
+                continue
+            if hasattr(transform, 'partial_fit_transform'):
+                Xt = transform.partial_fit_transform(Xt, y)
             else:
-                Xt = transform.partial_fit(Xt, y, classes=classes).transform(Xt)
+                Xt = transform.partial_fit(Xt, y).transform(Xt)
 
         if self._final_estimator is not None:
             if "classes" in self._final_estimator.partial_fit.__code__.co_varnames:
@@ -202,7 +202,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "partial_fit_transform"):
                 Xt = transform.partial_fit_transform(Xt, y)
             else:
@@ -260,7 +260,8 @@ class Pipeline(BaseSKMObject):
             if t is None:
                 continue
             else:
-                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")) \
+                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")
+                        or hasattr(t, "partial_fit")) \
                         or not hasattr(t, "transform"):
                     self.active = False
                     raise TypeError("All intermediate steps, including an evaluator, "
-- 
2.43.0


From 51c94bd199ea7371f97b063dd4dc92b56c4d748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:00 +0000
Subject: [PATCH 51/74] fix: classifier chains with random order answer in the
 order of the chain

---
 src/skmultiflow/meta/classifier_chains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index c221c61..c81d796 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -234,7 +234,8 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
             if j > 0:
                 X = np.column_stack([X, Y[:, j - 1]])
             Y[:, j] = self.ensemble[j].predict_proba(X)[:, 1]
-        return Y
+        # Unset the chain order (back to default)
+        return Y[:, np.argsort(self.chain)]
 
     def reset(self):
         self.__configure()
@@ -358,7 +359,8 @@ class ProbabilisticClassifierChain(ClassifierChain):
                     Yp[n, :] = y_[:].copy()
                     w_max = w_
 
-        return Yp
+        # Unset the chain order (back to default)
+        return Yp[:, np.argsort(self.chain)]
 
 
 class MonteCarloClassifierChain(ProbabilisticClassifierChain):
-- 
2.43.0


From 0019e1eee7e122a877542ec28a1f6f37f1bef344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:00 +0000
Subject: [PATCH 52/74] fix: BatchIncrementalClassifier fails when it is given
 sample weights

---
 src/skmultiflow/meta/batch_incremental.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index bcf7023..94f24ac 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -120,7 +120,7 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
             # TODO not very pythonic at the moment
             self.X_batch[self.i] = X[n]
             self.y_batch[self.i] = y[n]
-            self.sample_weight[self.i] = sample_weight[n] if sample_weight else 1.0
+            self.sample_weight[self.i] = sample_weight[n] if sample_weight is not None else 1.0
 
             self.i = self.i + 1
             if self.i == self.window_size:
@@ -131,7 +131,8 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=sample_weight)
+                    h.fit(X=self.X_batch, y=self.y_batch.astype(int),
+                          sample_weight=self.sample_weight)
                 else:
                     h.fit(X=self.X_batch, y=self.y_batch.astype(int))
                 # Add it
-- 
2.43.0


From 88744fd9f3cf2644346a391c562e21a0c28d7318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 53/74] fix: online boosting gives the vote of a member full
 weight for a class the earlier members have not seen

---
 src/skmultiflow/meta/online_adac2.py     | 5 +++--
 src/skmultiflow/meta/online_boosting.py  | 5 +++--
 src/skmultiflow/meta/online_csb2.py      | 5 +++--
 src/skmultiflow/meta/online_rus_boost.py | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 8de8f97..242bd47 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -366,11 +366,12 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                     for n in range(r):
                         for k in range(len(partial_proba[n])):
+                            if k >= len(proba[n]):
+                                # A previous member knows fewer classes
+                                proba[n].append(0.0)
                             try:
                                 proba[n][k] += np.log(self.wacc[i] /
                                                       self.werr[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index f46766a..cc8df4a 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -338,11 +338,12 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                     for n in range(r):
                         for k in range(len(partial_proba[n])):
+                            if k >= len(proba[n]):
+                                # A previous member knows fewer classes
+                                proba[n].append(0.0)
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index c078bea..f1bd11a 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -357,11 +357,12 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                     for n in range(r):
                         for k in range(len(partial_proba[n])):
+                            if k >= len(proba[n]):
+                                # A previous member knows fewer classes
+                                proba[n].append(0.0)
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 3dca0b6..caa4074 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -385,11 +385,12 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                     for n in range(r):
                         for k in range(len(partial_proba[n])):
+                            if k >= len(proba[n]):
+                                # A previous member knows fewer classes
+                                proba[n].append(0.0)
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
-- 
2.43.0


From d4eb3d36c284cb5159ac6da815aca617f1d721bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:31 +0000
Subject: [PATCH 54/74] fix: class probabilities of trees, forests and rules
 are a ragged array when some rows get no votes

---
 src/skmultiflow/meta/adaptive_random_forests.py   | 9 ++-------
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 +++-
 src/skmultiflow/trees/hoeffding_tree.py           | 9 ++-------
 3 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index e6cf764..b2a1f23 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -394,13 +394,8 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
                 for key, value in votes.items():
                     votes_array[int(key)] = value
                 y_proba.append(votes_array)
-        # Set result as np.array
-        if self.classes is not None:
-            y_proba = np.asarray(y_proba)
-        else:
-            # Fill missing values related to unobserved classes to ensure we get a 2D array
-            y_proba = np.asarray(list(itertools.zip_longest(*y_proba, fillvalue=0.0))).T
-        return y_proba
+        # Fill missing values related to unobserved classes to ensure we get a 2D array
+        return np.asarray(list(itertools.zip_longest(*y_proba, fillvalue=0.0))).T
 
     def reset(self):
         """Reset ARF."""
diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 289e33b..93892f7 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -1,4 +1,5 @@
 import copy
+import itertools
 from operator import attrgetter, itemgetter
 import numpy as np
 
@@ -834,7 +835,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 for key, value in votes.items():
                     y_proba[int(key)] = value
                 predictions.append(y_proba)
-        return np.array(predictions)
+        # Fill missing values related to unobserved classes to ensure we get a 2D array
+        return np.asarray(list(itertools.zip_longest(*predictions, fillvalue=0.0))).T
 
     def get_model_measurements(self):
         """Collect metrics corresponding to the current status of the model.
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index a9bdc94..c1012df 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -429,13 +429,8 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                 for key, value in votes.items():
                     y_proba[int(key)] = value
                 predictions.append(y_proba)
-        # Set result as np.array
-        if self.classes is not None:
-            predictions = np.asarray(predictions)
-        else:
-            # Fill missing values related to unobserved classes to ensure we get a 2D array
-            predictions = np.asarray(list(itertools.zip_longest(*predictions, fillvalue=0.0))).T
-        return predictions
+        # Fill missing values related to unobserved classes to ensure we get a 2D array
+        return np.asarray(list(itertools.zip_longest(*predictions, fillvalue=0.0))).T
 
     @property
     def model_measurements(self):
-- 
2.43.0


From 38702e99e4adc92c31f8d1af0f7bb26b60e5e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:05 +0000
Subject: [PATCH 55/74] fix: VFDR skips a rule when it drops the rule before it
 for drift

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 93892f7..e3b2cfe 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -514,15 +514,16 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
 
         """
         rule_fired = False
+        drifted_rules = []
         if self.rule_set:
-            for i, rule in enumerate(self.rule_set):
+            for rule in self.rule_set:
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
                         prediction = rule.predict(y)
                         rule.drift_detector.add_element(prediction)
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
-                            self.rule_set.pop(i)
+                            drifted_rules.append(rule)
                             continue
                     rule.learn_from_instance(X, y, weight, self)
                     if rule.get_weight_seen() - rule.weight_seen_at_last_expand >= self.grace_period:
@@ -530,6 +531,9 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                         rule.weight_seen_at_last_expand = rule.get_weight_seen()
                     if self.ordered_rules:
                         break
+        # Removed after the loop, so that no other rule is skipped
+        for rule in drifted_rules:
+            self.rule_set.remove(rule)
         if not rule_fired:
             self.default_rule.learn_from_instance(X, y, weight, self)
             if self.max_rules > len(self.rule_set):
-- 
2.43.0


From 4a0cb8ed16295469e4abad4f15f2e96da7dd4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:46 +0000
Subject: [PATCH 56/74] fix: VFDR tells the drift detector of a rule about its
 hits instead of its errors

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index e3b2cfe..311404a 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -520,8 +520,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
-                        prediction = rule.predict(y)
-                        rule.drift_detector.add_element(prediction)
+                        # The detectors monitor the error of the rule
+                        rule.drift_detector.add_element(1 - rule.predict(y))
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
                             drifted_rules.append(rule)
                             continue
-- 
2.43.0


From d27f1bbc642f48e806fc6f14e75da2c085832627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:46 +0000
Subject: [PATCH 57/74] fix: bagging and boosting with ADWIN reset the best
 member instead of the worst one when drift is detected

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 2 +-
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 src/skmultiflow/meta/oza_bagging_adwin.py         | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 242bd47..d8d01c7 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -257,7 +257,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index cc8df4a..ef043a5 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -233,7 +233,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 5f65564..0244643 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -236,7 +236,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 9ea7b04..d9b0e9b 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -219,7 +219,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 10b4dd5..41f4e93 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -179,9 +179,9 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
                 for j in range(r):
                     if pred[j] is not None:
                         if pred[j] == y[j]:
-                            self.adwin_ensemble[i].add_element(1)
-                        else:
                             self.adwin_ensemble[i].add_element(0)
+                        else:
+                            self.adwin_ensemble[i].add_element(1)
                 if self.adwin_ensemble[i].detected_change():
                     if self.adwin_ensemble[i].estimation > error_estimation:
                         change_detected = True
-- 
2.43.0


From 6a325bded3a60077a3de6bfecbbba829a805797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 58/74] fix: VFDR drops exactly the rules that drifted

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 311404a..fddaaca 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -532,8 +532,9 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                     if self.ordered_rules:
                         break
         # Removed after the loop, so that no other rule is skipped
-        for rule in drifted_rules:
-            self.rule_set.remove(rule)
+        if drifted_rules:
+            self.rule_set = [rule for rule in self.rule_set
+                             if not any(rule is drifted for drifted in drifted_rules)]
         if not rule_fired:
             self.default_rule.learn_from_instance(X, y, weight, self)
             if self.max_rules > len(self.rule_set):
-- 
2.43.0


From 5bbd95c6982c5c7ccf49fe1e67d319c31fb8c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:41 +0000
Subject: [PATCH 59/74] fix: online boosting answers NaN when numpy is told to
 ignore floating point errors

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_csb2.py               | 2 +-
 src/skmultiflow/meta/online_rus_boost.py          | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 2 +-
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index d8d01c7..e73e12a 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -351,7 +351,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             return np.zeros((r, 1))
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
+        with warnings.catch_warnings(), np.errstate(divide='warn', invalid='warn', over='warn'):
             warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index ef043a5..8db57d6 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -323,7 +323,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
             return np.zeros((r, 1))
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
+        with warnings.catch_warnings(), np.errstate(divide='warn', invalid='warn', over='warn'):
             warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index f1bd11a..6fe3225 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -342,7 +342,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             return np.zeros((r, 1))
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
+        with warnings.catch_warnings(), np.errstate(divide='warn', invalid='warn', over='warn'):
             warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index caa4074..8d1dbae 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -370,7 +370,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
             return np.zeros((r, 1))
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
+        with warnings.catch_warnings(), np.errstate(divide='warn', invalid='warn', over='warn'):
             warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 0244643..05b5a78 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -336,7 +336,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
             return np.zeros((r, 1))
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
+        with warnings.catch_warnings(), np.errstate(divide='warn', invalid='warn', over='warn'):
             warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index d9b0e9b..aa21546 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -306,7 +306,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             return np.zeros((r, 1))
 
         # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
+        with warnings.catch_warnings(), np.errstate(divide='warn', invalid='warn', over='warn'):
             warnings.filterwarnings('error', category=RuntimeWarning)
             try:
                 for i in range(self.actual_n_estimators):
-- 
2.43.0


From 41dcbfd8b37bbbdc0e36c7fe44890aabd78e4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:50 +0000
Subject: [PATCH 60/74] fix: Hoeffding trees split again and again on a nominal
 attribute with a single value

---
 .../_attribute_observer/nominal_attribute_class_observer.py    | 3 +++
 .../nominal_attribute_regression_observer.py                   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/skmultiflow/trees/_attribute_observer/nominal_attribute_class_observer.py b/src/skmultiflow/trees/_attribute_observer/nominal_attribute_class_observer.py
index d7738c0..f4636f2 100644
--- a/src/skmultiflow/trees/_attribute_observer/nominal_attribute_class_observer.py
+++ b/src/skmultiflow/trees/_attribute_observer/nominal_attribute_class_observer.py
@@ -49,6 +49,9 @@ class NominalAttributeClassObserver(AttributeObserver):
             [att_val for att_val_per_class in self._att_val_dist_per_class.values()
              for att_val in att_val_per_class]
         ))
+        if len(att_values) < 2:
+            # All samples have the same value: there is nothing to split
+            return best_suggestion
         if not binary_only:
             post_split_dist = self.get_class_dist_from_multiway_split()
             merit = criterion.get_merit_of_split(pre_split_dist, post_split_dist)
diff --git a/src/skmultiflow/trees/_attribute_observer/nominal_attribute_regression_observer.py b/src/skmultiflow/trees/_attribute_observer/nominal_attribute_regression_observer.py
index bb34ada..fb96b67 100644
--- a/src/skmultiflow/trees/_attribute_observer/nominal_attribute_regression_observer.py
+++ b/src/skmultiflow/trees/_attribute_observer/nominal_attribute_regression_observer.py
@@ -37,6 +37,9 @@ class NominalAttributeRegressionObserver(AttributeObserver):
     def get_best_evaluated_split_suggestion(self, criterion, pre_split_dist, att_idx, binary_only):
         current_best = None
         ordered_feature_values = sorted(list(self._statistics.keys()))
+        if len(ordered_feature_values) < 2:
+            # All samples have the same value: there is nothing to split
+            return current_best
         if not binary_only:
             post_split_dist = [self._statistics[k] for k in ordered_feature_values]
 
-- 
2.43.0


From 0c419a0e823548db9890807f90d25b2c1b5d77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:50 +0000
Subject: [PATCH 61/74] fix: Hoeffding adaptive trees fail when a leaf is
 deactivated

---
 src/skmultiflow/trees/_nodes/__init__.py      |  2 +
 src/skmultiflow/trees/_nodes/hatc_nodes.py    | 42 +++++++++++++++++++
 src/skmultiflow/trees/_nodes/hatr_nodes.py    | 14 +++++++
 .../trees/hoeffding_adaptive_tree.py          |  4 +-
 .../hoeffding_adaptive_tree_regressor.py      |  9 ++--
 5 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/__init__.py b/src/skmultiflow/trees/_nodes/__init__.py
index 5cf71d8..681c99f 100644
--- a/src/skmultiflow/trees/_nodes/__init__.py
+++ b/src/skmultiflow/trees/_nodes/__init__.py
@@ -19,6 +19,7 @@ from .htc_nodes import ActiveLearningNodeNBA
 from .hatc_nodes import AdaNode
 from .hatc_nodes import AdaSplitNode
 from .hatc_nodes import AdaLearningNode
+from .hatc_nodes import AdaInactiveLearningNode
 # Adaptive Random Forest classifier nodes
 from .arf_htc_nodes import RandomActiveLearningNodeMC
 from .arf_htc_nodes import RandomActiveLearningNodeNB
@@ -42,6 +43,7 @@ from .htr_nodes import InactiveLearningNodePerceptron
 # Hoeffding Adaptive Tree regressor nodes
 from .hatr_nodes import AdaSplitNodeRegressor
 from .hatr_nodes import AdaActiveLearningNodeRegressor
+from .hatr_nodes import AdaInactiveLearningNodeRegressor
 # Adaptive Random Forest regressor nodes
 from .arf_htr_nodes import RandomActiveLearningNodeMean
 from .arf_htr_nodes import RandomActiveLearningNodePerceptron
diff --git a/src/skmultiflow/trees/_nodes/hatc_nodes.py b/src/skmultiflow/trees/_nodes/hatc_nodes.py
index 262510a..0ab555d 100644
--- a/src/skmultiflow/trees/_nodes/hatc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatc_nodes.py
@@ -10,6 +10,7 @@ from .base import FoundNode
 from .base import SplitNode
 from .base import ActiveLeaf, InactiveLeaf
 from .htc_nodes import ActiveLearningNodeNBA
+from .htc_nodes import InactiveLearningNodeMC
 
 
 class AdaNode(metaclass=ABCMeta):
@@ -147,6 +148,47 @@ class AdaLearningNode(ActiveLearningNodeNBA, AdaNode):
         found_nodes.append(FoundNode(self, parent, parent_branch))
 
 
+class AdaInactiveLeaf(InactiveLeaf):
+    """ What inactive leaves need to be part of a Hoeffding Adaptive Tree. They do not monitor
+    their error."""
+    @property
+    def n_leaves(self):
+        return 1
+
+    @property
+    def error_estimation(self):
+        return 0.0
+
+    @property
+    def error_width(self):
+        return 0.0
+
+    def error_is_null(self):
+        return True
+
+    def kill_tree_children(self, hat):
+        pass
+
+    def learn_one(self, X, y, weight=1.0, tree=None, parent=None, parent_branch=-1):
+        super().learn_one(X, y, weight=weight, tree=tree)
+
+    def filter_instance_to_leaves(self, X, y, weight, parent, parent_branch,
+                                  update_splitter_counts, found_nodes=None):
+        if found_nodes is None:
+            found_nodes = []
+        found_nodes.append(FoundNode(self, parent, parent_branch))
+
+
+class AdaInactiveLearningNode(AdaInactiveLeaf, InactiveLearningNodeMC, AdaNode):
+    """ Inactive learning node for Hoeffding Adaptive Tree.
+
+    Parameters
+    ----------
+    initial_stats: dict (class_value, weight) or None
+        Initial class observations
+    """
+
+
 class AdaSplitNode(SplitNode, AdaNode):
     """ Node that splits the data in a Hoeffding Adaptive Tree.
 
diff --git a/src/skmultiflow/trees/_nodes/hatr_nodes.py b/src/skmultiflow/trees/_nodes/hatr_nodes.py
index cf95c25..2b54211 100644
--- a/src/skmultiflow/trees/_nodes/hatr_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatr_nodes.py
@@ -4,9 +4,12 @@ from skmultiflow.drift_detection.adwin import ADWIN
 from .base import FoundNode
 from .base import ActiveLeaf
 from .base import InactiveLeaf
+from .hatc_nodes import AdaInactiveLeaf
 from .hatc_nodes import AdaNode
 from .hatc_nodes import AdaSplitNode
 from .htr_nodes import ActiveLearningNodePerceptron
+from .htr_nodes import InactiveLearningNodePerceptron
+from .htr_nodes import LearningNodeMean
 
 
 class AdaSplitNodeRegressor(AdaSplitNode):
@@ -239,6 +242,17 @@ class AdaActiveLearningNodeRegressor(ActiveLearningNodePerceptron, AdaNode):
         found_nodes.append(FoundNode(self, parent, parent_branch))
 
 
+class AdaInactiveLearningNodeRegressor(AdaInactiveLeaf, InactiveLearningNodePerceptron, AdaNode):
+    """ Inactive learning node for Hoeffding Adaptive Tree regressor.
+
+    As the active ones, it always has a linear perceptron and only uses it if the tree says so.
+    """
+    def predict_one(self, X, *, tree=None):
+        if tree.leaf_prediction == tree._TARGET_MEAN:
+            return LearningNodeMean.predict_one(self, X, tree=tree)
+        return super().predict_one(X, tree=tree)
+
+
 def get_normalized_error(y_true, y_pred, node):
     drift_input = abs(y_true - y_pred)
 
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index e3c5525..8c5aa88 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -4,7 +4,7 @@ from skmultiflow.trees import HoeffdingTreeClassifier
 from skmultiflow.utils import add_dict_values
 
 from ._nodes import InactiveLeaf
-from ._nodes import InactiveLearningNodeMC
+from ._nodes import AdaInactiveLearningNode
 from ._nodes import AdaLearningNode
 from ._nodes import AdaSplitNode
 
@@ -219,7 +219,7 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         if is_active:
             return AdaLearningNode(initial_class_observations, self.random_state)
         else:
-            return InactiveLearningNodeMC(initial_class_observations)
+            return AdaInactiveLearningNode(initial_class_observations)
 
     # Override HoeffdingTreeClassifier
     def _new_split_node(self, split_test, class_observations):
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
index 666e26b..8f32e06 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
@@ -6,7 +6,7 @@ from skmultiflow.utils import add_dict_values
 from ._nodes import InactiveLeaf
 from ._nodes import AdaSplitNodeRegressor
 from ._nodes import AdaActiveLearningNodeRegressor
-from ._nodes import InactiveLearningNodeMean, InactiveLearningNodePerceptron
+from ._nodes import AdaInactiveLearningNodeRegressor
 
 import warnings
 
@@ -172,11 +172,8 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
             return AdaActiveLearningNodeRegressor(initial_stats, parent_node,
                                                   random_state=self.random_state)
         else:
-            prediction_option = self.leaf_prediction
-            if prediction_option == self._TARGET_MEAN:
-                return InactiveLearningNodeMean
-            else:
-                return InactiveLearningNodePerceptron
+            return AdaInactiveLearningNodeRegressor(initial_stats, parent_node,
+                                                    random_state=self.random_state)
 
     def _partial_fit(self, X, y, weight):
         """Trains the model on samples X and corresponding targets y.
-- 
2.43.0


From ec1ea25163c87aa0b0248f2324f6db93d7c17145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:34 +0000
Subject: [PATCH 62/74] fix: AdditiveExpertEnsembleClassifier with 'weakest'
 pruning drops other experts than the weakest

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 9c51b38..eb78f54 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -213,12 +213,11 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         if np.any(y_hat != y):
             ensemble_weight = sum(exp.weight for exp in self.experts)
             new_exp = self._construct_new_expert(ensemble_weight * self.gamma)
+            # Pruning to self.n_estimators if needed
+            if len(self.experts) >= self.n_estimators:
+                self.experts.pop(0)
             self._add_expert(new_exp)
 
-        # Pruning to self.n_estimators if needed
-        if len(self.experts) > self.n_estimators:
-            self.experts.pop(0)
-
         # Train each expert on X
         for exp in self.experts:
             exp.estimator.partial_fit(X, y, classes=classes, sample_weight=sample_weight)
@@ -245,7 +244,7 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         elif self.pruning == 'weakest':
             idx = 0
             for exp in self.experts:
-                if exp.weight < new_exp.weight:
+                if exp.weight > new_exp.weight:
                     break
                 idx += 1
             self.experts.insert(idx, new_exp)
-- 
2.43.0


From dc0df786b40744647675192f33955316bf803274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:01 +0000
Subject: [PATCH 63/74] fix: VeryFastDecisionRulesClassifier exceeds max_rules
 with foil_gain

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index fddaaca..0b2c309 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -608,7 +608,7 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                         if ((best_suggestion.merit - second_best_suggestion.merit) > hoeffding_bound) or (
                                 hoeffding_bound < self.tie_threshold):
                             should_expand = True
-                    if should_expand:
+                    if should_expand and len(self.rule_set) < self.max_rules:
                         best_suggestion = best_expand_suggestions[-1]
                         new_pred = Predicate(best_suggestion.att_idx, best_suggestion.operator, best_suggestion.att_val)
                         self.rule_set.append(self.new_rule(None, copy.deepcopy(self.drift_detector), class_idx))
@@ -785,7 +785,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                                             else:
                                                 new_rule.observed_class_distribution = best_suggestion. \
                                                     resulting_stats_from_split(1).copy()
-                                        self.rule_set.append(copy.deepcopy(new_rule))
+                                        if len(self.rule_set) < self.max_rules:
+                                            self.rule_set.append(copy.deepcopy(new_rule))
 
     def predict(self, X):
         """Predicts the label of the instance(s).
-- 
2.43.0


From 6486d5d45382bcacaf646f40e7fdc01b14e3273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:11 +0000
Subject: [PATCH 64/74] fix: Hoeffding trees with stop_mem_management grow
 beyond the memory limit

---
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index c1012df..57222c9 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -633,7 +633,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
 
     def _enforce_tracker_limit(self):
         """ Track the size of the tree and disable/enable nodes if required."""
-        byte_size = (self._active_leaf_byte_size_estimate
+        byte_size = (self._active_leaf_node_cnt * self._active_leaf_byte_size_estimate
                      + self._inactive_leaf_node_cnt * self._inactive_leaf_byte_size_estimate) \
             * self._byte_size_estimate_overhead_fraction
         if self._inactive_leaf_node_cnt > 0 or byte_size > self.max_byte_size:
-- 
2.43.0


From d9434c239aa8ea61000b56b2b10a67bdc2e9accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 65/74] fix: EFDT miscounts its leaves when it drops a subtree
 with inactive leaves

---
 .../trees/extremely_fast_decision_tree.py            | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 63d18e5..139654f 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -418,9 +418,8 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
 
                     deleted_node_cnt = node.count_nodes()
 
-                    self._active_leaf_node_cnt += 1
-                    self._active_leaf_node_cnt -= deleted_node_cnt[1]
                     self._decision_node_cnt -= deleted_node_cnt[0]
+                    self._count_leaves()
                     stop_flag = True
 
                     # Manage memory
@@ -441,16 +440,15 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
 
                     deleted_node_cnt = node.count_nodes()
 
-                    self._active_leaf_node_cnt -= deleted_node_cnt[1]
                     self._decision_node_cnt -= deleted_node_cnt[0]
                     self._decision_node_cnt += 1
-                    self._active_leaf_node_cnt += x_best.num_splits()
 
                     if parent is None:
                         # Root case : replace the root node by a new split node
                         self._tree_root = new_split
                     else:
                         parent.set_child(branch_index, new_split)
+                    self._count_leaves()
 
                     stop_flag = True
 
@@ -536,6 +534,12 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
                     # Manage memory
                     self._enforce_tracker_limit()
 
+    def _count_leaves(self):
+        """ Count the active and the inactive leaves of the tree. """
+        leaves = [found_node.node for found_node in self._find_learning_nodes()]
+        self._active_leaf_node_cnt = sum(isinstance(leaf, ActiveLeaf) for leaf in leaves)
+        self._inactive_leaf_node_cnt = len(leaves) - self._active_leaf_node_cnt
+
     def _kill_subtree(self, node: EFDTSplitNode):
         """ Kill subtree that starts from node.
 
-- 
2.43.0


From afdf3c14b600cde0c3fdc10844163d6d4d83c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 66/74] fix: DynamicWeightedMajority predicts the label with
 the largest weight, not an average of labels

---
 src/skmultiflow/meta/dynamic_weighted_majority.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index c7817bb..aa96a84 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -170,11 +170,11 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        votes = np.zeros((len(X), self.num_classes))
+        rows = np.arange(len(X))
+        for exp in self.experts:
+            votes[rows, np.asarray(exp.estimator.predict(X)).astype(int)] += exp.weight
+        return np.argmax(votes, axis=1)
 
     def predict_proba(self, X):
         raise NotImplementedError
-- 
2.43.0


From f66e4fef8762d4936130c0f0c51b0e1116ed963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 67/74] fix: AdditiveExpertEnsemble predicts the label with the
 largest weight, not an average of labels

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index eb78f54..c70489a 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -173,11 +173,11 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        votes = np.zeros((len(X), self.num_classes))
+        rows = np.arange(len(X))
+        for exp in self.experts:
+            votes[rows, np.asarray(exp.estimator.predict(X)).astype(int)] += exp.weight
+        return np.argmax(votes, axis=1)
 
     def predict_proba(self, X):
         """ Not implemented for this method.
-- 
2.43.0


From 31d14eb5d44ce48764408eae48d991c45f43cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 68/74] fix: OnlineBoosting gives members that were never wrong
 the largest weight instead of none

---
 src/skmultiflow/meta/online_boosting.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 8db57d6..278ae08 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -144,7 +144,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self._random_state = check_random_state(self.random_state)
         self.lam_sc = np.zeros(self.actual_n_estimators)
         self.lam_sw = np.zeros(self.actual_n_estimators)
-        self.epsilon = np.zeros(self.actual_n_estimators)
+        self.epsilon = np.full(self.actual_n_estimators, 0.5)
 
     def reset(self):
         self.ensemble = None
@@ -263,7 +263,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                     self.adwin_ensemble.append(ADWIN())
                 self.lam_sw = np.zeros(self.actual_n_estimators)
                 self.lam_sc = np.zeros(self.actual_n_estimators)
-                self.epsilon = np.zeros(self.actual_n_estimators)
+                self.epsilon = np.full(self.actual_n_estimators, 0.5)
 
     def predict(self, X):
         """ predict
@@ -341,12 +341,9 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                             if k >= len(proba[n]):
                                 # A previous member knows fewer classes
                                 proba[n].append(0.0)
-                            try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
+                            # A member that was never wrong (or right) has a bounded weight
+                            epsilon = min(max(self.epsilon[i], 1e-10), 1 - 1e-10)
+                            proba[n][k] += np.log((1 - epsilon) / epsilon) * partial_proba[n][k]
 
             except ValueError:
                 return np.zeros((r, 1))
-- 
2.43.0


From 585eb6677268f19d393828d842f89afdce815a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 69/74] fix: OnlineCSB2 gives members that were never wrong the
 largest weight instead of none

---
 src/skmultiflow/meta/online_csb2.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 6fe3225..ecca979 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -149,7 +149,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.lam_sum = np.zeros(self.actual_n_estimators)
         self.werr = np.zeros(self.actual_n_estimators)
         self.lam_sw = np.zeros(self.actual_n_estimators)
-        self.epsilon = np.zeros(self.actual_n_estimators)
+        self.epsilon = np.full(self.actual_n_estimators, 0.5)
 
     def reset(self):
         self.ensemble = None
@@ -281,7 +281,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.lam_fp = np.zeros(self.actual_n_estimators)
                 self.lam_sum = np.zeros(self.actual_n_estimators)
                 self.lam_sw = np.zeros(self.actual_n_estimators)
-                self.epsilon = np.zeros(self.actual_n_estimators)
+                self.epsilon = np.full(self.actual_n_estimators, 0.5)
                 self.werr = np.zeros(self.actual_n_estimators)
 
     def predict(self, X):
@@ -360,12 +360,9 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             if k >= len(proba[n]):
                                 # A previous member knows fewer classes
                                 proba[n].append(0.0)
-                            try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
+                            # A member that was never wrong (or right) has a bounded weight
+                            epsilon = min(max(self.epsilon[i], 1e-10), 1 - 1e-10)
+                            proba[n][k] += np.log((1 - epsilon) / epsilon) * partial_proba[n][k]
 
             except ValueError:
                 return np.zeros((r, 1))
-- 
2.43.0


From 9d1a8c5c3978a81bad0e1cc15e701faa7f62990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 70/74] fix: OnlineRUSBoost gives members that were never wrong
 the largest weight instead of none

---
 src/skmultiflow/meta/online_rus_boost.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 8d1dbae..950d81e 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -151,7 +151,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.lam_pos = np.zeros(self.actual_n_estimators)
         self.lam_neg = np.zeros(self.actual_n_estimators)
         self.lam_sw = np.zeros(self.actual_n_estimators)
-        self.epsilon = np.zeros(self.actual_n_estimators)
+        self.epsilon = np.full(self.actual_n_estimators, 0.5)
         self.n_pos = 0
         self.n_neg = 0
 
@@ -310,7 +310,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 self.lam_pos = np.zeros(self.actual_n_estimators)
                 self.lam_neg = np.zeros(self.actual_n_estimators)
                 self.lam_sw = np.zeros(self.actual_n_estimators)
-                self.epsilon = np.zeros(self.actual_n_estimators)
+                self.epsilon = np.full(self.actual_n_estimators, 0.5)
 
     def predict(self, X):
         """ predict
@@ -388,12 +388,9 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                             if k >= len(proba[n]):
                                 # A previous member knows fewer classes
                                 proba[n].append(0.0)
-                            try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
+                            # A member that was never wrong (or right) has a bounded weight
+                            epsilon = min(max(self.epsilon[i], 1e-10), 1 - 1e-10)
+                            proba[n][k] += np.log((1 - epsilon) / epsilon) * partial_proba[n][k]
 
             except ValueError:
                 return np.zeros((r, 1))
-- 
2.43.0


From bc6770064178283fac506c64dee527c1e94766a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 71/74] fix: OnlineAdaC2 gives members that were never wrong
 the largest weight instead of none

---
 src/skmultiflow/meta/online_adac2.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index e73e12a..4f18e24 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -369,12 +369,9 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             if k >= len(proba[n]):
                                 # A previous member knows fewer classes
                                 proba[n].append(0.0)
-                            try:
-                                proba[n][k] += np.log(self.wacc[i] /
-                                                      self.werr[i]) * partial_proba[n][k]
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
+                            # A member that was never wrong (or right) has a bounded weight
+                            proba[n][k] += np.log(max(self.wacc[i], 1e-10) /
+                                                  max(self.werr[i], 1e-10)) * partial_proba[n][k]
             except ValueError:
                 return np.zeros((r, 1))
             except TypeError:
-- 
2.43.0


From ad55a6304f40839e9c4c15120ed4492158009100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 72/74] fix: AccuracyWeightedEnsemble reads the probability of
 a label from the column of that label

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 10 ++++++----
 src/skmultiflow/neural_networks/perceptron.py      |  5 +++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 8e75d17..4afad54 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -339,14 +339,16 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         N = len(y)
         labels = model.seen_labels
         probabs = model.estimator.predict_proba(X)
+        # the columns are the labels themselves, or given by `classes_` (as in scikit-learn)
+        columns = getattr(model.estimator, 'classes_', None)
+        if columns is None:
+            columns = np.arange(np.shape(probabs)[1])
 
         sum_error = 0
         for i, c in enumerate(y):
             if c in labels:
-                # find the index of this label c in probabs[i]
-                index_label_c = np.where(labels == c)[0][0]
-                # a fold of the cross-validation may miss the last labels
-                probab_ic = probabs[i][index_label_c] if index_label_c < len(probabs[i]) else 0.0
+                # a fold of the cross-validation may miss some labels
+                probab_ic = np.sum(np.asarray(probabs[i])[columns == c])
                 sum_error += (1.0 - probab_ic) * (1.0 - probab_ic)
             else:
                 sum_error += 1.0
diff --git a/src/skmultiflow/neural_networks/perceptron.py b/src/skmultiflow/neural_networks/perceptron.py
index 6655213..680f5e3 100644
--- a/src/skmultiflow/neural_networks/perceptron.py
+++ b/src/skmultiflow/neural_networks/perceptron.py
@@ -84,6 +84,11 @@ class PerceptronMask(BaseSKMObject, ClassifierMixin):
                                      class_weight=self.class_weight,
                                      warm_start=self.warm_start)
 
+    @property
+    def classes_(self):
+        """ The class labels the columns of `predict_proba` stand for. """
+        return self.classifier.classes_
+
     def fit(self, X, y, classes=None, sample_weight=None):
         """ Calls the Perceptron fit function from sklearn.
 
-- 
2.43.0


From 76f544819f57ac4a65ba473c754cea8ff822338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 73/74] fix: the Gaussian estimator puts all weight above a
 value below the mean when there is no variance

---
 src/skmultiflow/trees/gaussian_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/gaussian_estimator.py b/src/skmultiflow/trees/gaussian_estimator.py
index 1b6c286..62c6d22 100644
--- a/src/skmultiflow/trees/gaussian_estimator.py
+++ b/src/skmultiflow/trees/gaussian_estimator.py
@@ -86,7 +86,7 @@ class GaussianEstimator(object):
             lessthan_weight = normal_probability((value - mean) / std_dev) * self._weight_sum \
                 - equalto_weight
         else:
-            if value < mean:
+            if value > mean:
                 lessthan_weight = self._weight_sum - equalto_weight
             else:
                 lessthan_weight = 0.0
-- 
2.43.0


From 9e047065414d0dcfcc2a4ac5b01a0b0d95b8e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:40 +0000
Subject: [PATCH 74/74] fix: regression trees with a single candidate do not
 split on it when nothing is gained

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 3 ++-
 src/skmultiflow/trees/isoup_tree.py               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 0f989d1..6546c6d 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -470,7 +470,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         best_split_suggestions.sort(key=attrgetter('merit'))
         should_split = False
         if len(best_split_suggestions) < 2:
-            should_split = len(best_split_suggestions) > 0
+            should_split = len(best_split_suggestions) > 0 and \
+                best_split_suggestions[-1].merit > 0.0
         else:
             hoeffding_bound = self._hoeffding_bound(
                 split_criterion.get_range_of_merit(node.stats), self.split_confidence,
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index e4f0ba7..9d33a4d 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -521,7 +521,8 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         best_split_suggestions.sort(key=attrgetter('merit'))
         should_split = False
         if len(best_split_suggestions) < 2:
-            should_split = len(best_split_suggestions) > 0
+            should_split = len(best_split_suggestions) > 0 and \
+                best_split_suggestions[-1].merit > 0.0
         else:
             hoeffding_bound = self._hoeffding_bound(
                 split_criterion.get_range_of_merit(
-- 
2.43.0


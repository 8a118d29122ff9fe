From 9238bc3e3a32960f58d2e60c3a8498bc5e5c01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:55 +0000
Subject: [PATCH 01/83] fix: keep the LED drift attribute permutation per
 generator instance

---
 src/skmultiflow/data/led_generator_drift.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/data/led_generator_drift.py b/src/skmultiflow/data/led_generator_drift.py
index b63222f..5289c94 100644
--- a/src/skmultiflow/data/led_generator_drift.py
+++ b/src/skmultiflow/data/led_generator_drift.py
@@ -81,6 +81,8 @@ class LEDGeneratorDrift(LEDGenerator):
         self.n_drift_features = n_drift_features
         self.name = "Led Generator with drift"
 
+        # Each instance has its own attribute permutation
+        self._numberAttribute = np.zeros((24,), dtype=int)
         for i in range(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE):
             self._numberAttribute[i] = i
 
-- 
2.43.0


From 0f34879cad9265beb00f4e3e9ece57db0b231d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 02/83] fix: report the end of finite multilabel and anomaly
 generators

---
 src/skmultiflow/data/anomaly_sine_generator.py | 10 ++++++++++
 src/skmultiflow/data/multilabel_generator.py   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index cba101a..678fdd1 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -141,6 +141,16 @@ class AnomalySineGenerator(Stream):
         """
         return self.n_samples - self.sample_idx
 
+    def has_more_samples(self):
+        """ Checks if stream has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_samples - self.sample_idx > 0
+
     def get_data_info(self):
         """ Retrieves minimum information from the stream
 
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index d8446f3..4f22137 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -157,3 +157,13 @@ class MultilabelGenerator(Stream):
             Number of remaining samples.
         """
         return self.n_samples - self.sample_idx
+
+    def has_more_samples(self):
+        """ Checks if stream has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_samples - self.sample_idx > 0
-- 
2.43.0


From b2219e7446550f8bcec23663459a4d5fe278d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 03/83] fix: do not share the default concepts between
 ConceptDriftStream instances

---
 src/skmultiflow/data/concept_drift_stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 5ee8018..7e2a3fd 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -58,14 +58,19 @@ class ConceptDriftStream(Stream):
 
     """
 
-    def __init__(self, stream=AGRAWALGenerator(random_state=112),
-                 drift_stream=AGRAWALGenerator(random_state=112, classification_function=2),
+    def __init__(self, stream=None,
+                 drift_stream=None,
                  position=5000,
                  width=1000,
                  random_state=None,
                  alpha=None):
         super(ConceptDriftStream, self).__init__()
 
+        if stream is None:
+            stream = AGRAWALGenerator(random_state=112)
+        if drift_stream is None:
+            drift_stream = AGRAWALGenerator(random_state=112, classification_function=2)
+
         self.n_samples = stream.n_samples
         self.n_targets = stream.n_targets
         self.n_features = stream.n_features
-- 
2.43.0


From 6bca02d56502eb255795efbec72e990b6bc40502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 04/83] fix: give ConceptDriftStream samples the shape of its
 targets and clear them on restart

---
 src/skmultiflow/data/concept_drift_stream.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 7e2a3fd..97f5230 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -170,10 +170,15 @@ class ConceptDriftStream(Stream):
             self.current_sample_x[j, :] = X
             self.current_sample_y[j, :] = y
 
-        return self.current_sample_x, self.current_sample_y.flatten()
+        if self.n_targets < 2:
+            self.current_sample_y = self.current_sample_y.flatten()
+
+        return self.current_sample_x, self.current_sample_y
 
     def restart(self):
         self._random_state = check_random_state(self.random_state)
         self.sample_idx = 0
+        self.current_sample_x = None
+        self.current_sample_y = None
         self.stream.restart()
         self.drift_stream.restart()
-- 
2.43.0


From 6493b3bc0cf71bb4ba6f0b32b9c3945ceffaa04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:58 +0000
Subject: [PATCH 05/83] fix: order temporal data by time without altering the
 caller's timestamps

---
 src/skmultiflow/data/temporal_data_stream.py | 24 ++++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 5ebdebc..7871199 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -131,21 +131,25 @@ class TemporalDataStream(DataStream):
         # if data is not ordered, order it by time
         if not ordered:
             if time is not None:
+                # Positions of the samples in chronological order
+                order = np.argsort(pd.to_datetime(time).values, kind='stable')
+
+                def reorder(values):
+                    return values.iloc[order] if hasattr(values, 'iloc') else values[order]
+
                 # order data based on time
-                data = data[np.argsort(time)]
-                # order y based on time
-                y = y[np.argsort(time)]
-                # order sample_weight if available
+                data = reorder(data)
+                if y is not None:
+                    y = reorder(y)
                 if self.sample_weight is not None:
-                    self.sample_weight = self.sample_weight[np.argsort(time)]
-                # if delay is not by time, order time and delay
+                    self.sample_weight = reorder(self.sample_weight)
+                # if not int, delay is a timestamp
                 if not isinstance(sample_delay, int):
-                    # order sample_delay, check if not single delay
-                    self.sample_delay = self.sample_delay[np.argsort(time)]
-                    # order time
-                    self.time.sort()
+                    self.sample_delay = self.sample_delay[order]
+                    self.time = self.time[order]
             else:
                 raise TypeError("'time' is None, data cannot be ordered.")
+
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
 
     def next_sample(self, batch_size=1):
-- 
2.43.0


From 697c4e8462f1901d511bc062abf94e028c559aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 06/83] fix: compute the F1 score of the requested class in
 binary problems

---
 .../metrics/_classification_performance_evaluator.pyx           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index c37cbca..9561917 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -358,7 +358,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double total
         cdef int n_classes = self.confusion_matrix.n_classes
         cdef double sum_f1
-        if n_classes == 2:
+        if n_classes == 2 and class_value == -1:
             # Binary case
             return self._f1_per_class(1)
         if class_value == -1 and class_value == -1:
-- 
2.43.0


From db4006221097a4cf53ffdc85718a0fd6ea51fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 07/83] fix: keep the configured number of classes and labels
 of performance evaluators

---
 .../metrics/_classification_performance_evaluator.pyx     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 9561917..69cc08c 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -566,7 +566,7 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_classes=self._init_n_classes, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -602,7 +602,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
             warnings.warn('n_labels can not be less than 2, using default (2)')
             n_labels = 2
         self._init_n_labels = n_labels
-        self.confusion_matrix = MultiLabelConfusionMatrix()
+        self.confusion_matrix = MultiLabelConfusionMatrix(n_labels=n_labels)
         self.last_true = np.zeros(n_labels, dtype=DTYPE)
         self.last_pred = np.zeros(n_labels, dtype=DTYPE)
         self.n_samples = 0
@@ -741,7 +741,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__()
+        self.__init__(n_labels=self._init_n_labels)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -874,7 +874,7 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_labels=self._init_n_labels, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
-- 
2.43.0


From 359130507429f346bc6f525682a63f766550a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 08/83] fix: count correctly predicted absent labels in the
 hamming score

---
 .../metrics/_classification_performance_evaluator.pyx           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 69cc08c..35017de 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -666,7 +666,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
 
         """
         try:
-            return np.sum(self.confusion_matrix.data[:,1,1]) / \
+            return np.sum(self.confusion_matrix.data[:,0,0] + self.confusion_matrix.data[:,1,1]) / \
                    (self.n_samples * self.confusion_matrix.n_labels)
         except ZeroDivisionError:
             return 0.0   # ill-defined, return 0.0
-- 
2.43.0


From b0ea0bdd2f4b535acc02a75cad8076513b009a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 09/83] fix: keep window samples of the multi-label evaluator
 apart from the caller's arrays

---
 .../metrics/_classification_performance_evaluator.pyx         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 35017de..ac3fba7 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -865,8 +865,8 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
         self.last_pred = y_pred
 
         # Enqueue sample so it can be removed when the window is full.
-        self._queue.append((y_true,
-                            y_pred,
+        self._queue.append((y_true.copy(),
+                            y_pred.copy(),
                             sample_weight,
                             is_equal_remove,
                             jaccard_sum_remove))
-- 
2.43.0


From 1e042abc2ea7887a39b34f9a32ad17571353b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:12 +0000
Subject: [PATCH 10/83] fix: let the confusion matrix grow when an index
 outside it is updated

---
 src/skmultiflow/utils/data_structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/utils/data_structures.py b/src/skmultiflow/utils/data_structures.py
index 9d64e2d..9ac87b7 100644
--- a/src/skmultiflow/utils/data_structures.py
+++ b/src/skmultiflow/utils/data_structures.py
@@ -430,7 +430,7 @@ class ConfusionMatrix(object):
             if (0 <= i < m) and (0 <= j < n):
                 return self._update(i, j, weight)
             else:
-                new_size = np.max(i, j) + 1
+                new_size = max(i, j) + 1
                 if new_size <= m:
                     return False
                 else:
-- 
2.43.0


From 23e939cdc619a6927ef9dcb590e049fe36050659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:12 +0000
Subject: [PATCH 11/83] fix: report a failed removal for indices just outside
 the confusion matrices

---
 src/skmultiflow/utils/data_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/utils/data_structures.py b/src/skmultiflow/utils/data_structures.py
index 9ac87b7..1505939 100644
--- a/src/skmultiflow/utils/data_structures.py
+++ b/src/skmultiflow/utils/data_structures.py
@@ -465,7 +465,7 @@ class ConfusionMatrix(object):
             return False
 
         m, n = self.confusion_matrix.shape
-        if (i <= m) and (i >= 0) and (j <= n) and (j >= 0):
+        if (i < m) and (i >= 0) and (j < n) and (j >= 0):
             return self._remove(i, j)
 
         else:
@@ -715,7 +715,7 @@ class MOLConfusionMatrix(object):
         if true is None or pred is None or target is None:
             return False
         m, n, p = self.confusion_matrix.shape
-        if (target <= m) and (target >= 0) and (true <= n) and (true >= 0) and (pred >= 0) and (pred <= p):
+        if (target < m) and (target >= 0) and (true < n) and (true >= 0) and (pred >= 0) and (pred < p):
             return self._remove(target, true, pred)
         else:
             return False
-- 
2.43.0


From 876c9306da9051b6dd82c4c20c4a8dc75ce3fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:36 +0000
Subject: [PATCH 12/83] fix: read the sample weights of queued delayed samples

---
 src/skmultiflow/data/time_manager.py | 312 +++++++++++++--------------
 1 file changed, 156 insertions(+), 156 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index da38ba5..46cd6dc 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -1,156 +1,156 @@
-import numpy as np
-import pandas as pd
-
-
-class TimeManager(object):
-    """ TimeManager
-
-    Manage instances that are related to a timestamp and a delay.
-
-    Parameters
-    ----------
-    timestamp: numpy.datetime64
-        Current timestamp of the stream. This timestamp is always
-        updated as the stream is processed to simulate when
-        the labels will be available for each sample.
-
-    """
-
-    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
-    _USE_SAMPLE_WEIGHT = True
-
-    def __init__(self, timestamp):
-        # get initial timestamp
-        self.timestamp = timestamp
-        # create dataframe to save time data
-        # X = features
-        # y_true = true label/target
-        # y_pred = predicted label/target for each model being evaluated
-        # arrival_time = arrival timestamp of the sample
-        # available_time = timestamp when the sample label will be available
-        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
-        # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
-            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
-            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
-
-    def _sort_queue(self):
-        # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
-        self.queue = self.queue.reset_index(drop=True)
-
-    def _cleanup_samples(self, batch_size):
-        # check if has batch_size samples to be removed
-        if self.queue.shape[0] - batch_size >= 0:
-            # drop samples that were already used
-            self.queue = self.queue.iloc[batch_size:]
-            # reset indexes
-            self.queue = self.queue.reset_index(drop=True)
-        else:
-            # drop all samples
-            self.queue = self.queue.iloc[0:0]
-
-    def update_timestamp(self, timestamp):
-        """ update_timestamp
-
-        Update current timestamp of the stream.
-
-        Parameters
-        ----------
-        timestamp: datetime64
-            Current timestamp of the stream. This timestamp is always
-            updated as the stream is processed to simulate when
-            the labels will be available for each sample.
-
-        """
-
-        self.timestamp = timestamp
-
-    def get_available_samples(self):
-        """ get_available_samples
-
-        Get available samples of the stream, i.e., samples that have
-        their labels available (available_time <= timestamp).
-
-        Returns
-        -------
-        tuple
-            A tuple containing the data, their true labels and predictions.
-
-        """
-
-        # get samples that have label available
-        samples = self.queue[self.queue['available_time'] <= self.timestamp]
-        # remove these samples from queue
-        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
-        # get X, y_true and y_pred
-        X = np.array(samples["X"].values.tolist())
-        y_true = np.array(samples["y_true"].values.tolist())
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # return X, y_true and y_pred for the dequeued samples
-        return X, y_true, y_pred
-
-    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
-        # check if weight is None to create a list
-        if sample_weight is None:
-            # set _sample_weight as False, indicating that there is no weight
-            self._USE_SAMPLE_WEIGHT = False
-            sample_weight = np.full(X.shape[0], None)   # noqa
-        # create daraframe for current samples
-        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
-                                      arrival_time, available_time)),
-                             columns=self._COLUMN_NAMES)
-        # append new data to queue
-        self.queue = self.queue.append(frame)
-        # sort queue
-        self._sort_queue()
-
-    def has_more_samples(self):
-        """ Checks if queue has more samples.
-
-        Returns
-        -------
-        Boolean
-            True if queue has more samples.
-
-        """
-
-        return self.queue.shape[0] > 0
-
-    def next_sample(self, batch_size=1):
-        """ Returns next sample from the queue.
-
-        If there is enough instances to supply at least batch_size samples, those
-        are returned. Otherwise, the remaining are returned.
-
-        Parameters
-        ----------
-        batch_size: int (optional, default=1)
-            The number of instances to return.
-
-        Returns
-        -------
-        tuple or tuple list
-            Returns the next batch_size instances.
-            For general purposes the return can be treated as a numpy.ndarray.
-
-        """
-        if self.queue.shape[0] - batch_size >= 0:
-            samples = self.queue[:batch_size]
-        else:
-            samples = self.queue
-        # get X
-        X = np.array(samples["X"].values.tolist())
-        # get y_true
-        y_true = np.array(samples["y_true"].values.tolist())
-        # get y_pred
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["weight"].values.tolist())
-        else:
-            sample_weight = None
-        # remove samples from queue
-        self._cleanup_samples(batch_size)
-        # return X, y_true, y_pred, and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
+import numpy as np
+import pandas as pd
+
+
+class TimeManager(object):
+    """ TimeManager
+
+    Manage instances that are related to a timestamp and a delay.
+
+    Parameters
+    ----------
+    timestamp: numpy.datetime64
+        Current timestamp of the stream. This timestamp is always
+        updated as the stream is processed to simulate when
+        the labels will be available for each sample.
+
+    """
+
+    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
+    _USE_SAMPLE_WEIGHT = True
+
+    def __init__(self, timestamp):
+        # get initial timestamp
+        self.timestamp = timestamp
+        # create dataframe to save time data
+        # X = features
+        # y_true = true label/target
+        # y_pred = predicted label/target for each model being evaluated
+        # arrival_time = arrival timestamp of the sample
+        # available_time = timestamp when the sample label will be available
+        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
+        # transform queue into datetime if timestamps are not int
+        if isinstance(self.timestamp, int):
+            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
+            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
+
+    def _sort_queue(self):
+        # sort values by available_time
+        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.reset_index(drop=True)
+
+    def _cleanup_samples(self, batch_size):
+        # check if has batch_size samples to be removed
+        if self.queue.shape[0] - batch_size >= 0:
+            # drop samples that were already used
+            self.queue = self.queue.iloc[batch_size:]
+            # reset indexes
+            self.queue = self.queue.reset_index(drop=True)
+        else:
+            # drop all samples
+            self.queue = self.queue.iloc[0:0]
+
+    def update_timestamp(self, timestamp):
+        """ update_timestamp
+
+        Update current timestamp of the stream.
+
+        Parameters
+        ----------
+        timestamp: datetime64
+            Current timestamp of the stream. This timestamp is always
+            updated as the stream is processed to simulate when
+            the labels will be available for each sample.
+
+        """
+
+        self.timestamp = timestamp
+
+    def get_available_samples(self):
+        """ get_available_samples
+
+        Get available samples of the stream, i.e., samples that have
+        their labels available (available_time <= timestamp).
+
+        Returns
+        -------
+        tuple
+            A tuple containing the data, their true labels and predictions.
+
+        """
+
+        # get samples that have label available
+        samples = self.queue[self.queue['available_time'] <= self.timestamp]
+        # remove these samples from queue
+        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
+        # get X, y_true and y_pred
+        X = np.array(samples["X"].values.tolist())
+        y_true = np.array(samples["y_true"].values.tolist())
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # return X, y_true and y_pred for the dequeued samples
+        return X, y_true, y_pred
+
+    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
+        # check if weight is None to create a list
+        if sample_weight is None:
+            # set _sample_weight as False, indicating that there is no weight
+            self._USE_SAMPLE_WEIGHT = False
+            sample_weight = np.full(X.shape[0], None)   # noqa
+        # create daraframe for current samples
+        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
+                                      arrival_time, available_time)),
+                             columns=self._COLUMN_NAMES)
+        # append new data to queue
+        self.queue = self.queue.append(frame)
+        # sort queue
+        self._sort_queue()
+
+    def has_more_samples(self):
+        """ Checks if queue has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if queue has more samples.
+
+        """
+
+        return self.queue.shape[0] > 0
+
+    def next_sample(self, batch_size=1):
+        """ Returns next sample from the queue.
+
+        If there is enough instances to supply at least batch_size samples, those
+        are returned. Otherwise, the remaining are returned.
+
+        Parameters
+        ----------
+        batch_size: int (optional, default=1)
+            The number of instances to return.
+
+        Returns
+        -------
+        tuple or tuple list
+            Returns the next batch_size instances.
+            For general purposes the return can be treated as a numpy.ndarray.
+
+        """
+        if self.queue.shape[0] - batch_size >= 0:
+            samples = self.queue[:batch_size]
+        else:
+            samples = self.queue
+        # get X
+        X = np.array(samples["X"].values.tolist())
+        # get y_true
+        y_true = np.array(samples["y_true"].values.tolist())
+        # get y_pred
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # remove samples from queue
+        self._cleanup_samples(batch_size)
+        # return X, y_true, y_pred, and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
-- 
2.43.0


From c07426d4d5f5f124a664a108fcf84884872a0eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:36 +0000
Subject: [PATCH 13/83] fix: train on delayed samples with their own weights

---
 src/skmultiflow/data/time_manager.py                 | 12 +++++++++---
 .../evaluation/evaluate_prequential_delayed.py       |  6 +++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index 46cd6dc..02cf81a 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -75,7 +75,8 @@ class TimeManager(object):
         Returns
         -------
         tuple
-            A tuple containing the data, their true labels and predictions.
+            A tuple containing the data, their true labels, predictions and
+            sample weights (None if weights are not used).
 
         """
 
@@ -87,8 +88,13 @@ class TimeManager(object):
         X = np.array(samples["X"].values.tolist())
         y_true = np.array(samples["y_true"].values.tolist())
         y_pred = np.array(samples["y_pred"].values.tolist())
-        # return X, y_true and y_pred for the dequeued samples
-        return X, y_true, y_pred
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and sample_weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
 
     def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
         # check if weight is None to create a list
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 0488b8c..a1c6a13 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -437,8 +437,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
-                X_delayed, y_true_delayed, y_pred_delayed = self.time_manager.\
-                    get_available_samples()
+                X_delayed, y_true_delayed, y_pred_delayed, sample_weight_delayed = \
+                    self.time_manager.get_available_samples()
 
                 # transpose prediction matrix to model-sample again
                 y_pred_delayed = self._transform_predictions_model(y_pred_delayed)
@@ -449,7 +449,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 # before getting new samples, update classifiers with samples
                 # that are already available
                 self._update_classifiers(X=X_delayed, y=y_true_delayed,
-                                         sample_weight=sample_weight)
+                                         sample_weight=sample_weight_delayed)
 
                 # predict samples and get predictions
                 y_pred = self._predict_samples(X)
-- 
2.43.0


From 2941705d3a7cbd4d63ff7c852f2c658e6633b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:28 +0000
Subject: [PATCH 14/83] fix: evaluate delayed labels without a pre-training
 phase

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index a1c6a13..85c474c 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -391,6 +391,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             self.actual_max_samples = self.max_samples
 
         self.first_run = True
+        self.time_manager = None
         if self.pretrain_size > 0:
             print('Pre-training on {} sample(s).'.format(self.pretrain_size))
 
@@ -434,6 +435,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                     next_sample(self.batch_size)
 
                 # update current timestamp
+                if self.time_manager is None:
+                    self.time_manager = TimeManager(arrival_time[-1])
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
@@ -469,7 +472,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
 
         # evaluate remaining samples in the delayed_queue
         # iterate over delay_queue while it has samples according to batch_size
-        while self.time_manager.has_more_samples():
+        while self.time_manager is not None and self.time_manager.has_more_samples():
             # get current samples to process
             X_delayed, y_true_delayed, y_pred_delayed, sample_weight = self.time_manager.\
                 next_sample(self.batch_size)
-- 
2.43.0


From d4566c93d85eb9cdf5acbbc30ff94a5f5191d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:09 +0000
Subject: [PATCH 15/83] fix: predict every sample of a batch from its own
 neighbours in KNNRegressor

---
 src/skmultiflow/lazy/knn_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/lazy/knn_regressor.py b/src/skmultiflow/lazy/knn_regressor.py
index 0d999d4..543c070 100644
--- a/src/skmultiflow/lazy/knn_regressor.py
+++ b/src/skmultiflow/lazy/knn_regressor.py
@@ -151,7 +151,7 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
         r, c = get_dimensions(X)
         predictions = np.zeros(r)
         for i in range(r):
-            predictions[i] = self._predict(X)
+            predictions[i] = self._predict(np.asarray([X[i]]))
         return predictions
 
     def _predict(self, X):
-- 
2.43.0


From b1af90bafea1dbb2492e99c356cf951158393f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:59 +0000
Subject: [PATCH 16/83] fix: forget the classes when a KNNClassifier is reset

---
 src/skmultiflow/lazy/knn_classifier.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/skmultiflow/lazy/knn_classifier.py b/src/skmultiflow/lazy/knn_classifier.py
index bfe8727..fffaf47 100644
--- a/src/skmultiflow/lazy/knn_classifier.py
+++ b/src/skmultiflow/lazy/knn_classifier.py
@@ -132,6 +132,18 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
             self.data_window.add_sample(X[i], y[i])
         return self
 
+    def reset(self):
+        """ Reset the model, forgetting the observed samples and classes.
+
+        Returns
+        -------
+        KNNClassifier
+            self
+
+        """
+        self.classes = []
+        return super().reset()
+
     def predict(self, X):
         """ Predict the class label for sample X
 
-- 
2.43.0


From 4dc34fced08a9556b2873ca836a21891c59e2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:07 +0000
Subject: [PATCH 17/83] fix: validate the arrays given to the nearest neighbour
 kernels

---
 .../libNearestNeighbors/nearestNeighbor.cpp   | 66 +++++++++++++++----
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/src/skmultiflow/lazy/src/libNearestNeighbors/nearestNeighbor.cpp b/src/skmultiflow/lazy/src/libNearestNeighbors/nearestNeighbor.cpp
index d0f8370..27bb0a3 100644
--- a/src/skmultiflow/lazy/src/libNearestNeighbors/nearestNeighbor.cpp
+++ b/src/skmultiflow/lazy/src/libNearestNeighbors/nearestNeighbor.cpp
@@ -13,8 +13,9 @@ using namespace std;
 void nArgMin(const int &n, const double* values, int* indices, const int &numValues){
 	for (int i=0; i<n; i++){
 		double minValue = std::numeric_limits<double>::max();
+		bool found = false;
 		for (int j=0; j<numValues; j++){
-			if (values[j] < minValue){
+			if (!found || values[j] < minValue || minValue != minValue){
 				bool alreadyUsed = false;
 				for (int k=0; k<i; k++){
 					if (indices[k]==j){
@@ -24,6 +25,7 @@ void nArgMin(const int &n, const double* values, int* indices, const int &numVal
 				if (!alreadyUsed){
 					indices[i] = j;
 					minValue = values[j];
+					found = true;
 				}
 			}
 		}
@@ -129,9 +131,11 @@ static PyObject *py_getNToNDistances(PyObject *self, PyObject *args) {
 	PyArrayObject *matSampleData;
 	matSampleData = (PyArrayObject *) PyArray_ContiguousFromObject(sampleData,
 			PyArray_DOUBLE, 1, 2);
+	if (matSampleData == NULL)
+		return NULL;
 	double *carrSampleData = (double*) (matSampleData->data);
 	npy_intp sampleDataRows = matSampleData->dimensions[0];
-	npy_intp sampleDataCols = matSampleData->dimensions[1];
+	npy_intp sampleDataCols = matSampleData->dimensions[matSampleData->nd - 1];
 
 	if (matSampleData->nd == 1) {
 		sampleDataCols = sampleDataRows;
@@ -140,6 +144,16 @@ static PyObject *py_getNToNDistances(PyObject *self, PyObject *args) {
 	PyArrayObject *matSampleData2;
 	matSampleData2 = (PyArrayObject *) PyArray_ContiguousFromObject(sampleData2,
 			PyArray_DOUBLE, 1, 2);
+	if (matSampleData2 == NULL) {
+		Py_DECREF(matSampleData);
+		return NULL;
+	}
+	if (matSampleData2->dimensions[matSampleData2->nd - 1] != sampleDataCols) {
+		Py_DECREF(matSampleData);
+		Py_DECREF(matSampleData2);
+		PyErr_SetString(PyExc_ValueError, "samples have different numbers of features");
+		return NULL;
+	}
 	double *carrSampleData2 = (double*) (matSampleData2->data);
 	npy_intp sampleData2Rows = matSampleData2->dimensions[0];
 
@@ -183,18 +197,24 @@ static PyObject *py_get1ToNDistances(PyObject *self, PyObject *args) {
 	PyArrayObject *matSampleData;
 	matSampleData = (PyArrayObject *) PyArray_ContiguousFromObject(sampleData,
 			PyArray_DOUBLE, 1, 1);
+	if (matSampleData == NULL)
+		return NULL;
 	double *carrSampleData = (double*) (matSampleData->data);
-	npy_intp sampleDataRows = matSampleData->dimensions[0];
-	npy_intp sampleDataCols = matSampleData->dimensions[1];
-
-	if (matSampleData->nd == 1) {
-		sampleDataCols = sampleDataRows;
-		sampleDataRows = 1;
-	}
+	npy_intp sampleDataCols = matSampleData->dimensions[0];
 
 	PyArrayObject *matSamplesData;
 	matSamplesData = (PyArrayObject *) PyArray_ContiguousFromObject(samplesData,
 			PyArray_DOUBLE, 1, 2);
+	if (matSamplesData == NULL) {
+		Py_DECREF(matSampleData);
+		return NULL;
+	}
+	if (matSamplesData->dimensions[matSamplesData->nd - 1] != sampleDataCols) {
+		Py_DECREF(matSampleData);
+		Py_DECREF(matSamplesData);
+		PyErr_SetString(PyExc_ValueError, "samples have different numbers of features");
+		return NULL;
+	}
 	double *carrSamplesData = (double*) (matSamplesData->data);
 	npy_intp samplesDataRows = matSamplesData->dimensions[0];
 
@@ -230,14 +250,20 @@ static PyObject *py_nArgMin(PyObject *self, PyObject *args) {
 	PyArrayObject *matValues;
 	matValues = (PyArrayObject *) PyArray_ContiguousFromObject(values,
 			PyArray_DOUBLE, 1, 2);
+	if (matValues == NULL)
+		return NULL;
 	double *carrValues = (double*) (matValues->data);
 	npy_intp numRows = matValues->dimensions[0];
-	npy_intp numValues = matValues->dimensions[1];
+	npy_intp numValues = matValues->dimensions[matValues->nd - 1];
 
 	if (matValues->nd == 1) {
-		numValues = numRows;
 		numRows = 1;
 	}
+	if (n < 0 || n > numValues) {
+		Py_DECREF(matValues);
+		PyErr_SetString(PyExc_ValueError, "n must lie between 0 and the number of values");
+		return NULL;
+	}
 	npy_intp Dims[2];
 	Dims[0]= numRows;
 	Dims[1] = n;
@@ -268,9 +294,11 @@ static PyObject *py_mostCommon(PyObject *self, PyObject *args) {
 	PyArrayObject *matValues;
 	matValues = (PyArrayObject *) PyArray_ContiguousFromObject(values,
 			PyArray_INT, 1, 2);
+	if (matValues == NULL)
+		return NULL;
 	int *carrValues = (int*) (matValues->data);
 	npy_intp numRows = matValues->dimensions[0];
-	npy_intp numValues = matValues->dimensions[1];
+	npy_intp numValues = matValues->dimensions[matValues->nd - 1];
 
 	if (matValues->nd == 1) {
 		numValues = numRows;
@@ -301,9 +329,11 @@ static PyObject *py_getLinearWeightedLabels(PyObject *self, PyObject *args) {
 	PyArrayObject *matLabels;
 	matLabels = (PyArrayObject *) PyArray_ContiguousFromObject(labels,
 			PyArray_INT, 1, 2);
+	if (matLabels == NULL)
+		return NULL;
 	int *carrLabels = (int*) (matLabels->data);
 	npy_intp numRows = matLabels->dimensions[0];
-	npy_intp numValues = matLabels->dimensions[1];
+	npy_intp numValues = matLabels->dimensions[matLabels->nd - 1];
 
 	if (matLabels->nd == 1) {
 		numValues = numRows;
@@ -312,6 +342,16 @@ static PyObject *py_getLinearWeightedLabels(PyObject *self, PyObject *args) {
 	PyArrayObject *matDistances;
 	matDistances = (PyArrayObject *) PyArray_ContiguousFromObject(distances,
 			PyArray_DOUBLE, 1, 2);
+	if (matDistances == NULL) {
+		Py_DECREF(matLabels);
+		return NULL;
+	}
+	if (PyArray_SIZE(matDistances) != PyArray_SIZE(matLabels)) {
+		Py_DECREF(matLabels);
+		Py_DECREF(matDistances);
+		PyErr_SetString(PyExc_ValueError, "labels and distances have different shapes");
+		return NULL;
+	}
 	double *carrDistances = (double*) (matDistances->data);
 
 	PyArrayObject *resultLabels = (PyArrayObject *) PyArray_SimpleNew(1,
-- 
2.43.0


From 162daebc1d0d945f9a9ce5a938410d81128f1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:53 +0000
Subject: [PATCH 18/83] fix: do not truncate the labels of SAMKNN to eight bits

---
 src/skmultiflow/lazy/sam_knn.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index cdfc9cc..6f376b0 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -90,7 +90,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
     This modules uses the libNearestNeighbor, a C++ library used to speed up some of
     the algorithm's computations. When invoking the library's functions it's important
     to pass the right argument type. Although most of this framework's functionality
-    will work with python standard types, the C++ library will work with 8-bit labels,
+    will work with python standard types, the C++ library will work with 32-bit labels,
     which is already done by the SAMKNN class, but may be absent in custom classes that
     use SAMKNN static methods, or other custom functions that use the C++ library.
 
@@ -468,9 +468,9 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         nnIndices = libNearestNeighbor.nArgMin(numNeighbours, distances)
 
         if not isinstance(labels, type(np.array([]))):
-            labels = np.asarray(labels, dtype=np.int8)
+            labels = np.asarray(labels, dtype=np.int32)
         else:
-            labels = np.int8(labels)
+            labels = np.int32(labels)
 
         predLabels = libNearestNeighbor.mostCommon(labels[nnIndices])
 
@@ -482,9 +482,9 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         nnIndices = libNearestNeighbor.nArgMin(numNeighbours, distances)
         sqrtDistances = np.sqrt(distances[nnIndices])
         if not isinstance(labels, type(np.array([]))):
-            labels = np.asarray(labels, dtype=np.int8)
+            labels = np.asarray(labels, dtype=np.int32)
         else:
-            labels = np.int8(labels)
+            labels = np.int32(labels)
 
         predLabels = libNearestNeighbor.getLinearWeightedLabels(labels[nnIndices], sqrtDistances)
         return predLabels
-- 
2.43.0


From 0a73bc6312d7a2951f09c62baaddee9072bdaed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:29 +0000
Subject: [PATCH 19/83] fix: let SAMKNN run without adapting its short term
 memory

---
 src/skmultiflow/lazy/sam_knn.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index 6f376b0..a174c35 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -185,8 +185,9 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
             STMShortened = True
             self._STMSamples = np.delete(self._STMSamples, 0, 0)
             self._STMLabels = np.delete(self._STMLabels, 0, 0)
-            self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
-                self.STMDistances[1:len(self._STMLabels) + 1, 1:len(self._STMLabels) + 1]
+            if self.STMSizeAdaption is not None:
+                self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
+                    self.STMDistances[1:len(self._STMLabels) + 1, 1:len(self._STMLabels) + 1]
 
             if self.STMSizeAdaption == 'maxACCApprox':
                 keyset = list(self.interLeavedPredHistories.keys())
@@ -227,9 +228,10 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
                         self._LTMSamples, self._LTMLabels)
                     self._STMSamples = np.delete(self._STMSamples, shiftRange, 0)
                     self._STMLabels = np.delete(self._STMLabels, shiftRange, 0)
-                    self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
-                        self.STMDistances[numShifts:len(self._STMLabels) + numShifts,
-                                          numShifts:len(self._STMLabels) + numShifts]
+                    if self.STMSizeAdaption is not None:
+                        self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
+                            self.STMDistances[numShifts:len(self._STMLabels) + numShifts,
+                                              numShifts:len(self._STMLabels) + numShifts]
                     for i in shiftRange:
                         self.LTMPredHistory.popleft()
                         self.STMPredHistory.popleft()
-- 
2.43.0


From 2310e7f2647e0df08a7df8fcdd590bb41771268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:54 +0000
Subject: [PATCH 20/83] fix: keep SAMKNN's window aligned with the accuracies
 it was chosen by

---
 src/skmultiflow/lazy/sam_knn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index a174c35..bcc1ae1 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -631,7 +631,7 @@ class STMSizer(object):
                 accuracies.append(accuracy)
             accuracies = np.round(accuracies, decimals=4)
             bestNumTrainIdx = np.argmax(accuracies)
-            windowSize = numSamplesRange[bestNumTrainIdx]
+            windowSize = numSamples - int(numSamples - numSamplesRange[bestNumTrainIdx])
 
             if windowSize < numSamples:
                 predictionHistories = STMSizer.adaptHistories(bestNumTrainIdx, predictionHistories)
@@ -688,7 +688,7 @@ class STMSizer(object):
                     accuracies[i] = accuracy
                 accuracies = np.round(accuracies, decimals=4)
                 bestNumTrainIdx = np.argmax(accuracies)
-            windowSize = numSamplesRange[bestNumTrainIdx]
+            windowSize = numSamples - int(numSamples - numSamplesRange[bestNumTrainIdx])
 
             if windowSize < numSamples:
                 predictionHistories = STMSizer.adaptHistories(bestNumTrainIdx, predictionHistories)
-- 
2.43.0


From d44162898affc740398d7ce8dbe8ae4cb201056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:41 +0000
Subject: [PATCH 21/83] fix: let NaiveBayes be given its classes as an array on
 every call

---
 src/skmultiflow/bayes/naive_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/bayes/naive_bayes.py b/src/skmultiflow/bayes/naive_bayes.py
index 799bf03..9f71111 100644
--- a/src/skmultiflow/bayes/naive_bayes.py
+++ b/src/skmultiflow/bayes/naive_bayes.py
@@ -95,7 +95,7 @@ class NaiveBayes(BaseSKMObject, ClassifierMixin):
             self
 
         """
-        if not self._classes and classes is not None:
+        if self._classes is None and classes is not None:
             self._classes = classes
 
         if y is not None:
-- 
2.43.0


From 6efdf7c838ed8fd04a443c2c9e8f67e3efce91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:03 +0000
Subject: [PATCH 22/83] fix: let Hoeffding trees remove poor attributes when
 not splitting is an option

---
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index eac6137..d7aa38f 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -599,7 +599,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     poor_atts = set()
                     # Add any poor attribute to set
                     for i in range(len(best_split_suggestions)):
-                        if best_split_suggestions[i] is not None:
+                        if best_split_suggestions[i].split_test is not None:
                             split_atts = best_split_suggestions[i].split_test.\
                                 get_atts_test_depends_on()
                             if len(split_atts) == 1:
-- 
2.43.0


From df839a1046c0e820ab093d516ddc19b62144ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:03 +0000
Subject: [PATCH 23/83] fix: give a column to every class when a Hoeffding tree
 leaf has no observations

---
 src/skmultiflow/trees/hoeffding_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index d7aa38f..0d55c36 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -417,7 +417,8 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
             votes = copy.deepcopy(self._get_votes_for_instance(X[i]))
             if votes == {}:
                 # Tree is empty, all classes equal, default to zero
-                predictions.append([0])
+                n_columns = int(max(self.classes)) + 1 if self.classes is not None else 1
+                predictions.append(np.zeros(n_columns))
             else:
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes, inplace=False)
-- 
2.43.0


From 952f77de06b703eb651c5739d4939acacbf52087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:03 +0000
Subject: [PATCH 24/83] fix: describe Hoeffding trees that have a leaf without
 observations

---
 src/skmultiflow/trees/_nodes/base.py    | 3 ++-
 src/skmultiflow/trees/hoeffding_tree.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/base.py b/src/skmultiflow/trees/_nodes/base.py
index cda330f..46e95f5 100644
--- a/src/skmultiflow/trees/_nodes/base.py
+++ b/src/skmultiflow/trees/_nodes/base.py
@@ -149,7 +149,8 @@ class Node(metaclass=ABCMeta):
         if tree._estimator_type == 'classifier':
             class_val = max(
                 self._stats,
-                key=self._stats.get
+                key=self._stats.get,
+                default=None
             )
             buffer[0] += 'Class {} | {}\n'.format(
                 class_val, self._stats
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index 0d55c36..bb35a92 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -809,7 +809,8 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     recurse(child, r, ht)
             else:
                 cur_rule.observed_class_distribution = node.stats.copy()
-                cur_rule.class_idx = max(node.stats.items(), key=itemgetter(1))[0]
+                cur_rule.class_idx = max(node.stats.items(), key=itemgetter(1),
+                                         default=(None, 0.0))[0]
                 rules.append(cur_rule)
 
         rule = Rule()
-- 
2.43.0


From 56ea04708fe8817435188f3f98ae987110e7f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:51 +0000
Subject: [PATCH 25/83] fix: keep the branches of a multiway split when EFDT
 confirms its attribute

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 241684e..789b19c 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -460,7 +460,9 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
 
                 elif (x_best.merit - x_current.merit > hoeffding_bound or hoeffding_bound
                         < self.tie_threshold) and (id_current == id_best):
-                    node._split_test = x_best.split_test
+                    # The branches of a multiway split are tied to its values, so they are kept
+                    if node.split_test.max_branches() == x_best.split_test.max_branches() == 2:
+                        node._split_test = x_best.split_test
 
         return stop_flag
 
-- 
2.43.0


From 93b7a2fb1a808578be84cfb18fc300c597e3bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:48 +0000
Subject: [PATCH 26/83] fix: let EFDT learn from unseen values of nominal
 attributes

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 789b19c..5645a4b 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -6,6 +6,7 @@ from skmultiflow.utils import get_dimensions
 
 from ._split_criterion import GiniSplitCriterion
 from ._split_criterion import InfoGainSplitCriterion
+from ._attribute_test import NominalAttributeMultiwayTest
 from ._nodes import ActiveLeaf
 from ._nodes import LearningNode
 from ._nodes import EFDTSplitNode
@@ -340,6 +341,15 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
         if isinstance(leaf_node, LearningNode):
             learning_node = leaf_node
             learning_node.learn_one(X, y, weight=weight, tree=self)
+        elif isinstance(leaf_node.split_test, NominalAttributeMultiwayTest):
+            # Add a branch for the unseen value of the nominal attribute
+            current = leaf_node
+            leaf_node = self._new_learning_node()
+            branch_id = current.split_test.add_new_branch(
+                X[current.split_test.get_atts_test_depends_on()[0]])
+            current.set_child(branch_id, leaf_node)
+            self._active_leaf_node_cnt += 1
+            leaf_node.learn_one(X, y, weight=weight, tree=self)
 
         if self._train_weight_seen_by_model % self.memory_estimate_period == 0:
             self._estimate_model_byte_size()
-- 
2.43.0


From 4730e3f647fed39ae814ef67df246ef4eccc7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:59 +0000
Subject: [PATCH 27/83] fix: train EFDT on every sample with its own weight

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 5645a4b..5727db0 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -216,8 +216,7 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
             if sample_weight is None:
                 sample_weight = np.array([1.0])
             row_cnt, _ = get_dimensions(X)
-            wrow_cnt, _ = get_dimensions(sample_weight)
-            if row_cnt != wrow_cnt:
+            if row_cnt != len(sample_weight):
                 sample_weight = [sample_weight[0]] * row_cnt
             for i in range(row_cnt):
                 if sample_weight[i] != 0.0:
-- 
2.43.0


From 167935856c1438dae1bf7a84569d82cd2bc343a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:00 +0000
Subject: [PATCH 28/83] fix: let regression trees learn from a single feature

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index fb3a5e1..bca168c 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -186,8 +186,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.samples_seen = 0
         self.sum_of_values = 0.0
         self.sum_of_squares = 0.0
-        self.sum_of_attribute_values = []
-        self.sum_of_attribute_squares = []
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
         self.random_state = random_state
 
     @property
-- 
2.43.0


From 3d159ccfe6a56455da59f80f05d8526f7e7c76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:56 +0000
Subject: [PATCH 29/83] fix: stop drawing output codes once they are balanced
 for an odd number of classes

---
 src/skmultiflow/meta/leverage_bagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 9d019e1..5acdc53 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -322,7 +322,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                     else:
                         n_zeros += 1
                 condition = ((n_ones - n_zeros) * (n_ones - n_zeros) >
-                             (self.actual_n_estimators % 2))
+                             (len(self.classes) % 2))
         self.init_matrix_codes = False
 
     def predict(self, X):
-- 
2.43.0


From 8cee069852ced37e9991ea30a1e5809f28d3dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:56 +0000
Subject: [PATCH 30/83] fix: repeat subspaces when StreamingRandomPatches has
 more learners than subspaces

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index c478389..be6367b 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -360,7 +360,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                     i = 0
                     while len(self._subspaces) < self.n_estimators:
                         i = 0 if i == len(self._subspaces) else i
-                        np.vstack((self._subspaces, self._subspaces[i]))
+                        self._subspaces = np.vstack((self._subspaces, self._subspaces[i]))
                         i += 1
                 # For high dimensionality we can't generate all combinations
                 # as it is too expensive (memory). On top of that, the chance
-- 
2.43.0


From 2647e543fac7098ec121cc78b2f52db1eb1b9b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:03 +0000
Subject: [PATCH 31/83] fix: keep regression trees from dividing by a zero
 merit when removing poor attributes

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 2 +-
 src/skmultiflow/trees/isoup_tree.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index bca168c..3cef87c 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -470,7 +470,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     (second_best_suggestion.merit / best_suggestion.merit < 1 - hoeffding_bound
                         or hoeffding_bound < self.tie_threshold):
                 should_split = True
-            if self.remove_poor_atts:
+            if self.remove_poor_atts and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 89e442f..89f6214 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -520,7 +520,7 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                                                < 1 - hoeffding_bound or hoeffding_bound
                                                < self.tie_threshold)):
                 should_split = True
-            if self.remove_poor_atts and not should_split:
+            if self.remove_poor_atts and not should_split and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
-- 
2.43.0


From e023c669dcae4ae2077b04ca7af5282706c76aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:25 +0000
Subject: [PATCH 32/83] fix: let ensembles that treat warnings as errors use
 nearest neighbours

---
 src/skmultiflow/lazy/knn_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/lazy/knn_classifier.py b/src/skmultiflow/lazy/knn_classifier.py
index fffaf47..66b7655 100644
--- a/src/skmultiflow/lazy/knn_classifier.py
+++ b/src/skmultiflow/lazy/knn_classifier.py
@@ -186,7 +186,7 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
         proba = []
 
         self.classes = list(set().union(self.classes,
-                                        np.unique(self.data_window.targets_buffer.astype(np.int))))
+                                        np.unique(self.data_window.targets_buffer.astype(int))))
 
         new_dist, new_ind = self._get_neighbors(X)
         for i in range(r):
-- 
2.43.0


From 367e21a1d492e0c9c26f12ce9dd976a0de838f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:38 +0000
Subject: [PATCH 33/83] fix: return one column per class for every sample in
 StreamingRandomPatches

---
 src/skmultiflow/meta/streaming_random_patches.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index be6367b..d69aa0a 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -1,3 +1,4 @@
+import itertools
 from copy import deepcopy
 from typing import List, Optional
 from collections import deque
@@ -291,11 +292,12 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         if self.ensemble is None:
             self._init_ensemble(n_features=n_features)
-            return np.zeros(n_samples)
+            return np.zeros((n_samples, 1))
 
         for i in range(n_samples):
             y_proba.append(self._predict_proba(np.asarray([X[i]])))
-        return np.asarray(y_proba)
+        # Fill missing values related to unobserved classes
+        return np.asarray(list(itertools.zip_longest(*y_proba, fillvalue=0.0))).T
 
     def _predict_proba(self, X):
         y_proba = np.asarray([0.])
-- 
2.43.0


From 66407fc0efb955c50400506e4bf5b395e0efc08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:21 +0000
Subject: [PATCH 34/83] fix: give up on weak learners in LearnPP when their
 error stays at the threshold

---
 src/skmultiflow/meta/learn_pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 2975e8e..9f6985e 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -255,7 +255,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             Dt[y_predict_composite == y] = Dt[y_predict_composite == y] * \
                                 normalize_composite_error
 
-                if total_error > self.error_threshold:
+                if total_error >= self.error_threshold:
                     patience += 1
                 else:
                     patience = 0
-- 
2.43.0


From a92abf0ef8635e366b3895accb0c9db466a210a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:01 +0000
Subject: [PATCH 35/83] fix: let AdaptiveRandomForest receive one weight per
 sample

---
 src/skmultiflow/meta/adaptive_random_forests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 9c1be79..f9acdac 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -306,7 +306,8 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
 
         if y is not None:
             row_cnt, _ = get_dimensions(X)
-            weight = check_weights(weight, expand_length=row_cnt)
+            # A single weight applies to all samples, otherwise there is one weight per sample
+            weight = check_weights(weight, expand_length=row_cnt if np.size(weight) == 1 else 1)
             for i in range(row_cnt):
                 if weight[i] != 0.0:
                     self._train_weight_seen_by_model += weight[i]
-- 
2.43.0


From 8859d2b99ef9f7cd9ec4c0006c267bac01811b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:01 +0000
Subject: [PATCH 36/83] fix: score AccuracyWeightedEnsemble members that were
 not trained on every class

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index a73382a..f347412 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -345,7 +345,8 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
             if c in labels:
                 # find the index of this label c in probabs[i]
                 index_label_c = np.where(labels == c)[0][0]
-                probab_ic = probabs[i][index_label_c]
+                # classes that were not part of the training samples may have no column
+                probab_ic = probabs[i][index_label_c] if index_label_c < len(probabs[i]) else 0.0
                 sum_error += (1.0 - probab_ic) * (1.0 - probab_ic)
             else:
                 sum_error += 1.0
-- 
2.43.0


From c317af17c98cb91664c6b85c2f2296f82d347270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:30 +0000
Subject: [PATCH 37/83] fix: keep buffered samples of ensembles apart from the
 caller's arrays

---
 src/skmultiflow/meta/learn_nse.py            | 2 +-
 src/skmultiflow/meta/learn_pp.py             | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 4d93004..62b9613 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -162,7 +162,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.classes = classes
 
         for i in range(N):
-            self.X_batch.append(X[i])
+            self.X_batch.append(np.copy(X[i]))
             self.y_batch.append(y[i])
             mt = len(self.y_batch)
 
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 9f6985e..7b43e41 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -181,7 +181,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         N, _ = X.shape
 
         for i in range(N):
-            self.X_batch.append(X[i])
+            self.X_batch.append(np.copy(X[i]))
             self.y_batch.append(y[i])
             if len(self.y_batch) == self.window_size:
                 self.__fit_batch(self.X_batch, self.y_batch)
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 3c0fae5..35bb0c0 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -204,7 +204,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
                 if y[j] == 1:
-                    self.pos_samples.append(X[j])
+                    self.pos_samples.append(np.copy(X[j]))
                     lam = a * self.sampling_rate
                     lam_smote = (1 - a) * self.sampling_rate
                     k = self._random_state.poisson(lam)
-- 
2.43.0


From bd05e91d0c0a04566822c7ded6b9b732ba3175b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:36 +0000
Subject: [PATCH 38/83] fix: leave the nominal attributes of
 StreamingRandomPatches as given so that it can be cloned

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index d69aa0a..bbba1e3 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -169,7 +169,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.disable_background_learner = disable_background_learner
         # Single option (accuracy) for drift detection criteria. Could be extended in the future.
         self.drift_detection_criteria = 'accuracy'
-        self.nominal_attributes = nominal_attributes if nominal_attributes else []
+        self.nominal_attributes = nominal_attributes
         self.random_state = random_state
         # self._random_state is the actual object used internally
         self._random_state = check_random_state(self.random_state)
-- 
2.43.0


From d77f67990193723d302d1774c4ee48267e6fa104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:09 +0000
Subject: [PATCH 39/83] fix: keep the base estimator of LearnPPNSE as given so
 that it can be cloned

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 62b9613..a519546 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -108,7 +108,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.X_batch = []
         self.y_batch = []
         self.instance_weights = []
-        self.base_estimator = cp.deepcopy(base_estimator)
+        self.base_estimator = base_estimator
         self.classes = None
 
     @staticmethod
-- 
2.43.0


From dd18f92ee4a7b44d38b1b4a1bab38e58f9a44eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:28 +0000
Subject: [PATCH 40/83] fix: restore the configured max_features and forget the
 classes when a random forest is reset

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 2 +-
 src/skmultiflow/meta/adaptive_random_forests.py          | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 1a1dd24..0b89457 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -348,7 +348,7 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         # TODO: check whether this is enough
 
         self.ensemble = None
-        self.max_features = 0
+        self.max_features = self._max_features_setting
         self.instances_seen = 0
         self._random_state = check_random_state(self.random_state)
 
diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index f9acdac..9916b83 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -237,6 +237,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
         super().__init__()
         self.n_estimators = n_estimators
         self.max_features = max_features
+        self._max_features_setting = max_features
         self.disable_weighted_vote = disable_weighted_vote
         self.lambda_value = lambda_value
         if isinstance(drift_detection_method, BaseDriftDetector):
@@ -405,7 +406,9 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
     def reset(self):
         """Reset ARF."""
         self.ensemble = None
+        self.max_features = self._max_features_setting
         self.instances_seen = 0
+        self.classes = None
         self._train_weight_seen_by_model = 0.0
         self._random_state = check_random_state(self.random_state)
 
-- 
2.43.0


From 3e29b2bdc84375c67ae8c2cf1fe7f3765b381ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:28 +0000
Subject: [PATCH 41/83] fix: forget the classes and the counts when a Hoeffding
 tree is reset

---
 src/skmultiflow/trees/hoeffding_adaptive_tree.py | 4 +++-
 src/skmultiflow/trees/hoeffding_tree.py          | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index bd39fe0..e3c5525 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -172,10 +172,12 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         self._tree_root = None
 
     def reset(self):
+        super().reset()
         self.alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
         self.switch_alternate_trees_cnt = 0
-        self._tree_root = None
+
+        return self
 
     # Override HoeffdingTreeClassifier
     def _partial_fit(self, X, y, sample_weight):
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index bb35a92..c80b02c 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -243,6 +243,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
         self._byte_size_estimate_overhead_fraction = 1.0
         self._growth_allowed = True
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
 
         return self
 
-- 
2.43.0


From ef734d7fff3341d1f88522ba056518c617609064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:00 +0000
Subject: [PATCH 42/83] fix: forget the accumulated statistics when a
 regression tree is reset

---
 src/skmultiflow/trees/arf_hoeffding_tree_regressor.py |  5 +++--
 .../trees/hoeffding_adaptive_tree_regressor.py        |  8 ++++++++
 src/skmultiflow/trees/hoeffding_tree_regressor.py     | 11 +++++++++++
 src/skmultiflow/trees/isoup_tree.py                   |  8 ++++++++
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
index 4c49d0b..7162ff3 100644
--- a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
@@ -1,4 +1,4 @@
-from skmultiflow.trees import HoeffdingTreeRegressor
+from skmultiflow.trees import HoeffdingTreeClassifier, HoeffdingTreeRegressor
 from skmultiflow.utils import check_random_state
 
 from ._nodes import RandomActiveLearningNodeMean
@@ -118,7 +118,8 @@ class ARFHoeffdingTreeRegressor(HoeffdingTreeRegressor):
                                                       random_state=random_state)
 
     def reset(self):
-        super().reset()
+        # The members of a forest keep the statistics that normalize their inputs
+        HoeffdingTreeClassifier.reset(self)
         self._random_state = check_random_state(self.random_state)
 
     def new_instance(self):
diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
index fa035e0..fb822ad 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
@@ -159,6 +159,14 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
         self.switch_alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
 
+    def reset(self):
+        super().reset()
+        self.alternate_trees_cnt = 0
+        self.switch_alternate_trees_cnt = 0
+        self.pruned_alternate_trees_cnt = 0
+
+        return self
+
     def _new_learning_node(self, initial_stats=None, parent_node=None,
                            is_active=True):
         """Create a new learning node.
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 3cef87c..301559c 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -190,6 +190,17 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.sum_of_attribute_squares = 0.0
         self.random_state = random_state
 
+    def reset(self):
+        """ Reset the Hoeffding Tree regressor to default values."""
+        super().reset()
+        self.samples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
+
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 89f6214..0271118 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -197,6 +197,14 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         # To add the n_targets property once
         self._n_targets_set = False
 
+    def reset(self):
+        """ Reset the iSOUP-Tree to default values."""
+        super().reset()
+        self.examples_seen = 0
+        self._n_targets_set = False
+
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
-- 
2.43.0


From 556c3a85395e7b3008b16b0d71d2f7532f4c21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:00 +0000
Subject: [PATCH 43/83] fix: let SAMKNN be reset

---
 src/skmultiflow/lazy/sam_knn.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index bcc1ae1..c91b9ab 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -156,6 +156,16 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         self.classifierChoice = []
         self.predHistory = []
 
+    def reset(self):
+        self.__init__(n_neighbors=self.n_neighbors,
+                      weighting=self.weighting,
+                      max_window_size=self.max_wind_size,
+                      ltm_size=self.ltm_size,
+                      min_stm_size=self.min_stm_size,
+                      stm_size_option=self.stm_size_option,
+                      use_ltm=self.use_ltm)
+        return self
+
     @staticmethod
     def get_distances(sample, samples):
         """Calculate distances from sample to all samples."""
-- 
2.43.0


From 6d5d597624ff8a7c504ab27b225dffa3a64c6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:13 +0000
Subject: [PATCH 44/83] fix: forget the classes and the members when an
 ensemble is reset

---
 src/skmultiflow/meta/learn_nse.py                 | 1 +
 src/skmultiflow/meta/learn_pp.py                  | 1 +
 src/skmultiflow/meta/online_adac2.py              | 1 +
 src/skmultiflow/meta/online_boosting.py           | 1 +
 src/skmultiflow/meta/online_csb2.py               | 1 +
 src/skmultiflow/meta/online_rus_boost.py          | 1 +
 src/skmultiflow/meta/online_smote_bagging.py      | 1 +
 src/skmultiflow/meta/online_under_over_bagging.py | 1 +
 src/skmultiflow/meta/oza_bagging.py               | 1 +
 src/skmultiflow/meta/oza_bagging_adwin.py         | 1 +
 10 files changed, 10 insertions(+)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index a519546..d9d9a41 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -351,3 +351,4 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.wkts = []
         self.X_batch = []
         self.y_batch = []
+        self.classes = None
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 7b43e41..ce88ee9 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -132,6 +132,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.ensemble_weights = []
         self.X_batch = []
         self.y_batch = []
+        self.classes = None
         self.random = check_random_state(self.random_state)
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index a75a0c2..16b1560 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -148,6 +148,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
         self.lam_tp = np.zeros(self.actual_n_estimators)
         self.lam_fn = np.zeros(self.actual_n_estimators)
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bb7fa18..1346fba 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -141,6 +141,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
         self.lam_sc = np.zeros(self.actual_n_estimators)
         self.lam_sw = np.zeros(self.actual_n_estimators)
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ea59584..1b68097 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -143,6 +143,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
         self.lam_fn = np.zeros(self.actual_n_estimators)
         self.lam_fp = np.zeros(self.actual_n_estimators)
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5ebbf73..bb2470f 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -146,6 +146,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
         self.lam_sc = np.zeros(self.actual_n_estimators)
         self.lam_pos = np.zeros(self.actual_n_estimators)
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 35bb0c0..af62799 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -134,6 +134,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.classes = None
         self._random_state = check_random_state(self._init_random_state)
         self.pos_samples = []
 
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 7952955..5d97ffd 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -139,6 +139,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         for i in range(self.actual_n_estimators):
             self.adwin_ensemble.append(ADWIN())
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
 
     def reset(self):
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index eb634a6..4d12f42 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -115,6 +115,7 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             self.base_estimator.reset()
         self.actual_n_estimators = self.n_estimators
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
 
     def reset(self):
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 7bc0bde..10b4dd5 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -100,6 +100,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
         self.adwin_ensemble = [cp.deepcopy(ADWIN()) for _ in range(self.actual_n_estimators)]
 
     def reset(self):
+        super().reset()
         self.__configure()
         return self
 
-- 
2.43.0


From 3452f84b9cb1a5e1345ad4e07076031e2db3d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:20 +0000
Subject: [PATCH 45/83] fix: classify every sample by its own anomaly score in
 HalfSpaceTrees

---
 src/skmultiflow/anomaly_detection/half_space_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/anomaly_detection/half_space_trees.py b/src/skmultiflow/anomaly_detection/half_space_trees.py
index a24fe53..e011e7a 100644
--- a/src/skmultiflow/anomaly_detection/half_space_trees.py
+++ b/src/skmultiflow/anomaly_detection/half_space_trees.py
@@ -185,15 +185,15 @@ class HalfSpaceTrees(BaseSKMObject, ClassifierMixin):
         """
         r, _ = get_dimensions(X)
         predictions = []
+        y_proba = self.predict_proba(X)
         for i in range(r):
-            y_proba = self.predict_proba(X)
             if y_proba is None:
                 # Ensemble is empty, all classes equal, default to zero
                 predictions.append(0)
             else:
                 # if prediction of this instance is greater than the threshold
                 # defined, then this instance is classified as an anomaly.
-                if y_proba[0][1] > self.anomaly_threshold:
+                if y_proba[i][1] > self.anomaly_threshold:
                     predictions.append(1)
                 else:
                     predictions.append(0)
-- 
2.43.0


From 7c0b925c5470b919fba7ee1f73fa6db5e86e52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:20 +0000
Subject: [PATCH 46/83] fix: count the votes of every sample separately in
 AccuracyWeightedEnsemble

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index f347412..d4d53ae 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -287,7 +287,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if sum_weights == 0:
             sum_weights = 1  # safety check: if sum_weights = 0, do as if sum_weights = 1
 
-        weighted_votes = [dict()] * N
+        weighted_votes = [dict() for _ in range(N)]
         for model in ensemble:
             classifier = model.estimator
             prediction = classifier.predict(X)
-- 
2.43.0


From e341b58ddcf54504d52ea6ccb2fad306352243b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:20 +0000
Subject: [PATCH 47/83] fix: answer every sample when a regression tree is
 empty

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 301559c..fcc55bd 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -421,8 +421,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
 
         """
         predictions = []
+        r, _ = get_dimensions(X)
         if self.samples_seen > 0 and self._tree_root is not None:
-            r, _ = get_dimensions(X)
             for i in range(r):
                 node = self._tree_root.filter_instance_to_leaf(X[i], None, -1).node
                 if node.is_leaf():
@@ -433,7 +433,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     predictions.append(node.stats[1] / node.stats[0])
         else:
             # Model is empty
-            predictions.append(0.0)
+            predictions.extend([0.0] * r)
         return np.asarray(predictions)
 
     def predict_proba(self, X):
-- 
2.43.0


From 5db5f4aa9d2be2ec30f758be4a8483f3f3339a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:21 +0000
Subject: [PATCH 48/83] fix: replace the worst member of an ensemble when its
 error increases, not the best when it decreases

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 2 +-
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 src/skmultiflow/meta/oza_bagging_adwin.py         | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 16b1560..d1b6b93 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -255,7 +255,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 1346fba..a5fa0a0 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -231,7 +231,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index af62799..a2bfd1b 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -230,7 +230,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 5d97ffd..1b52202 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -217,7 +217,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 10b4dd5..41f4e93 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -179,9 +179,9 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
                 for j in range(r):
                     if pred[j] is not None:
                         if pred[j] == y[j]:
-                            self.adwin_ensemble[i].add_element(1)
-                        else:
                             self.adwin_ensemble[i].add_element(0)
+                        else:
+                            self.adwin_ensemble[i].add_element(1)
                 if self.adwin_ensemble[i].detected_change():
                     if self.adwin_ensemble[i].estimation > error_estimation:
                         change_detected = True
-- 
2.43.0


From 3fcec88739ff9d29ffcf4dd1c116ade61fa7f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:52 +0000
Subject: [PATCH 49/83] fix: predict the weighted majority of the experts
 instead of averaging class labels

---
 src/skmultiflow/meta/additive_expert_ensemble.py  | 10 +++++-----
 src/skmultiflow/meta/dynamic_weighted_majority.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 8d35156..fe0333b 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -171,11 +171,11 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        votes = np.zeros((len(X), self.num_classes))
+        for exp in self.experts:
+            for i, y_hat in enumerate(exp.estimator.predict(X)):
+                votes[i, int(y_hat)] += exp.weight
+        return np.argmax(votes, axis=1)    # Round to nearest int
 
     def predict_proba(self, X):
         """ Not implemented for this method.
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index b2db81a..dd93890 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -169,11 +169,11 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        votes = np.zeros((len(X), self.num_classes))
+        for exp in self.experts:
+            for i, y_hat in enumerate(exp.estimator.predict(X)):
+                votes[i, int(y_hat)] += exp.weight
+        return np.argmax(votes, axis=1)    # Round to nearest int
 
     def predict_proba(self, X):
         raise NotImplementedError
-- 
2.43.0


From 0a476dce14c4e1bf5df4d48c9ed67e5f622be2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:28 +0000
Subject: [PATCH 50/83] fix: give each ensemble member the weight of the sample
 it is trained on, not the weights of the whole batch

---
 src/skmultiflow/meta/additive_expert_ensemble.py  | 5 ++++-
 src/skmultiflow/meta/dynamic_weighted_majority.py | 3 ++-
 src/skmultiflow/meta/online_adac2.py              | 3 ++-
 src/skmultiflow/meta/online_boosting.py           | 3 ++-
 src/skmultiflow/meta/online_csb2.py               | 3 ++-
 src/skmultiflow/meta/online_rus_boost.py          | 3 ++-
 src/skmultiflow/meta/online_smote_bagging.py      | 7 ++++---
 src/skmultiflow/meta/online_under_over_bagging.py | 3 ++-
 src/skmultiflow/meta/oza_bagging.py               | 3 ++-
 9 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index fe0333b..3cb2839 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -151,7 +151,10 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             self
         """
         for i in range(len(X)):
-            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, sample_weight)
+            self.fit_single_sample(
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
+            )
         return self
 
     def predict(self, X):
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index dd93890..5f0c43d 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -148,7 +148,8 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         """
         for i in range(len(X)):
             self.fit_single_sample(
-                X[i:i + 1, :], y[i:i + 1], classes, sample_weight
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
             )
         return self
 
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index d1b6b93..591701f 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -220,6 +220,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -227,7 +228,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == 1 and y[j] == 1:
                         self.lam_tp[i] += self.cost_positive * lam
                         self.wacc[i] = (self.lam_tp[i] + self.lam_tn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index a5fa0a0..7254486 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -207,13 +207,14 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
                         self.epsilon[i] = self.lam_sw[i] / (self.lam_sw[i] + self.lam_sc[i])
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 1b68097..ccf4ed1 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -213,6 +213,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.__adjust_ensemble_size()
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -220,7 +221,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.epsilon[i] = self.lam_sw[i] / self.lam_sum[i]
                         self.werr[i] = (self.lam_fp[i] + self.lam_fn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index bb2470f..141b57d 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -217,6 +217,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.__adjust_ensemble_size()
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -258,7 +259,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam_rus)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, weight)
                 if self.ensemble[i].predict([X[j]])[0] == y[j]:
                     self.lam_sc[i] += lam
                     self.epsilon[i] = (self.lam_sw[i]) / (self.lam_sc[i] + self.lam_sw[i])
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index a2bfd1b..49d95ea 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -200,6 +200,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -211,18 +212,18 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, weight)
                     k_smote = self._random_state.poisson(lam_smote)
 
                     if k_smote > 0:
                         for b in range(k_smote):
                             x_smote = self.online_smote()
-                            self.ensemble[i].partial_fit([x_smote], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([x_smote], [y[j]], classes, weight)
                 else:
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, weight)
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 1b52202..ff2da29 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -199,6 +199,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
@@ -209,7 +210,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, weight)
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index 4d12f42..4ab7888 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -180,11 +180,12 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.__adjust_ensemble_size()
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             for i in range(self.actual_n_estimators):
                 k = self._random_state.poisson()
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, weight)
         return self
 
     def __adjust_ensemble_size(self):
-- 
2.43.0


From d0d6850312312c6d316e9f2a69f863574533aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 51/83] fix: size the accuracy bookkeeping of OnlineAdaC2 with
 the ensemble when it grows to the number of classes

---
 src/skmultiflow/meta/online_adac2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 591701f..77010d2 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -289,6 +289,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.lam_tn = np.zeros(self.actual_n_estimators)
                 self.lam_fp = np.zeros(self.actual_n_estimators)
                 self.lam_sum = np.zeros(self.actual_n_estimators)
+                self.werr = np.zeros(self.actual_n_estimators)
+                self.wacc = np.zeros(self.actual_n_estimators)
 
     def predict(self, X):
         """ predict
-- 
2.43.0


From 3c2671e3d73eb5f7e8ec601ef0a0ca7366f7aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 52/83] fix: weight every score of a boosting member, also for
 classes earlier members do not know

---
 src/skmultiflow/meta/online_adac2.py     | 3 +--
 src/skmultiflow/meta/online_boosting.py  | 3 +--
 src/skmultiflow/meta/online_csb2.py      | 3 +--
 src/skmultiflow/meta/online_rus_boost.py | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 77010d2..da4e3e1 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -364,12 +364,11 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             proba.append([0.0 for _ in partial_proba[n]])
 
                     for n in range(r):
+                        proba[n].extend([0.0] * (len(partial_proba[n]) - len(proba[n])))
                         for k in range(len(partial_proba[n])):
                             try:
                                 proba[n][k] += np.log(self.wacc[i] /
                                                       self.werr[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 7254486..bef1f11 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -336,12 +336,11 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                             proba.append([0.0 for _ in partial_proba[n]])
 
                     for n in range(r):
+                        proba[n].extend([0.0] * (len(partial_proba[n]) - len(proba[n])))
                         for k in range(len(partial_proba[n])):
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ccf4ed1..7c3e463 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -355,12 +355,11 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             proba.append([0.0 for _ in partial_proba[n]])
 
                     for n in range(r):
+                        proba[n].extend([0.0] * (len(partial_proba[n]) - len(proba[n])))
                         for k in range(len(partial_proba[n])):
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 141b57d..d60e604 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -383,12 +383,11 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                             proba.append([0.0 for _ in partial_proba[n]])
 
                     for n in range(r):
+                        proba[n].extend([0.0] * (len(partial_proba[n]) - len(proba[n])))
                         for k in range(len(partial_proba[n])):
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
-- 
2.43.0


From 898d97ca1aae0d8043bf32c015a855aa1f55adb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 53/83] fix: judge members of LeveragingBagging by their own
 output code, also when they skip the sample

---
 src/skmultiflow/meta/leverage_bagging.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 5acdc53..f454f2f 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -230,6 +230,12 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
 
         change_detected = False
         for i in range(self.actual_n_estimators):
+            # The label the member is trained on, and judged by
+            y_coded = y
+            classes = self.classes
+            if self.enable_code_matrix:
+                y_coded = self.matrix_codes[i][int(y)]
+                classes = [0, 1]
 
             # leveraging_bag - Leveraging Bagging
             if self.leverage_algorithm == self._LEVERAGE_ALGORITHMS[0]:
@@ -241,7 +247,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                 pred = self.ensemble[i].predict(np.asarray([X]))
                 if pred is None:
                     k = 1.0
-                elif pred[0] != y:
+                elif pred[0] != y_coded:
                     k = 1.0
                 elif (error != 1.0 and
                       self._random_state.rand() < (error / (1.0 - error))):
@@ -271,12 +277,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                                    "Valid options are: {}".format(self.leverage_algorithm,
                                                                   self._LEVERAGE_ALGORITHMS))
 
-            y_coded = cp.deepcopy(y)
             if k > 0:
-                classes = self.classes
-                if self.enable_code_matrix:
-                    y_coded = self.matrix_codes[i][int(y)]
-                    classes = [0, 1]
                 for _ in range(int(k)):
                     self.ensemble[i].partial_fit(X=np.asarray([X]), y=np.asarray([y_coded]),
                                                  classes=classes)
-- 
2.43.0


From aa2cb258bf95024676ef1169b1c745edcc5baf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:00 +0000
Subject: [PATCH 54/83] fix: insert a new expert at its place in
 AdditiveExpertEnsemble so that the weakest expert is the one pruned

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 3cb2839..8b9fb8e 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -246,7 +246,7 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         elif self.pruning == 'weakest':
             idx = 0
             for exp in self.experts:
-                if exp.weight < new_exp.weight:
+                if exp.weight > new_exp.weight:
                     break
                 idx += 1
             self.experts.insert(idx, new_exp)
-- 
2.43.0


From a3d0143e7760bae89b3ceeb8c026e3969a00a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:10 +0000
Subject: [PATCH 55/83] fix: train each member of BatchIncrementalClassifier
 with the weights of its window

---
 src/skmultiflow/meta/batch_incremental.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index bcf7023..8643f21 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -120,7 +120,7 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
             # TODO not very pythonic at the moment
             self.X_batch[self.i] = X[n]
             self.y_batch[self.i] = y[n]
-            self.sample_weight[self.i] = sample_weight[n] if sample_weight else 1.0
+            self.sample_weight[self.i] = 1.0 if sample_weight is None else sample_weight[n]
 
             self.i = self.i + 1
             if self.i == self.window_size:
@@ -131,7 +131,8 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=sample_weight)
+                    h.fit(X=self.X_batch, y=self.y_batch.astype(int),
+                          sample_weight=self.sample_weight.copy())
                 else:
                     h.fit(X=self.X_batch, y=self.y_batch.astype(int))
                 # Add it
-- 
2.43.0


From b8a59c23d0b509053d26e0a65577d5ca67410111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:22 +0000
Subject: [PATCH 56/83] fix: give members of the chunk ensembles a window of
 their own, which later samples do not overwrite

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 2 +-
 src/skmultiflow/meta/batch_incremental.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index d4d53ae..456034f 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -190,7 +190,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
 
                 # (1) train classifier C' from X
                 C_new = self.train_model(model=cp.deepcopy(self.base_estimator),
-                                         X=self.X_chunk, y=self.y_chunk,
+                                         X=self.X_chunk.copy(), y=self.y_chunk.copy(),
                                          classes=classes, sample_weight=sample_weight)
 
                 # compute the baseline error rate given by a random classifier
diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index 8643f21..f450b70 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -131,10 +131,10 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int),
+                    h.fit(X=self.X_batch.copy(), y=self.y_batch.astype(int),
                           sample_weight=self.sample_weight.copy())
                 else:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int))
+                    h.fit(X=self.X_batch.copy(), y=self.y_batch.astype(int))
                 # Add it
                 self.ensemble.append(h)
                 # Reset the window
-- 
2.43.0


From 217dcdfedf8fe342546780d979d067f5b9c0befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 57/83] fix: weigh accuracy and the kappa statistics by the
 weights of the samples, also over a window

---
 .../_classification_performance_evaluator.pyx | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index ac3fba7..38f6366 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -93,7 +93,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double max_prob = 0.0
         cdef double sum_value
         for i in sorted(self.confusion_matrix.classes):
-            sum_value = self.confusion_matrix.sum_row[i] / self.n_samples
+            sum_value = self.confusion_matrix.sum_row[i] / self._total_weight_observed
             if sum_value > max_prob:
                 max_prob = sum_value
                 majority_idx = i
@@ -111,8 +111,8 @@ cdef class ClassificationPerformanceEvaluator:
             Accuracy.
 
         """
-        return (self.confusion_matrix.sum_diag / self.n_samples)\
-            if self.n_samples > 0 else 0.0
+        return (self.confusion_matrix.sum_diag / self._total_weight_observed)\
+            if self._total_weight_observed > 0.0 else 0.0
 
     @property
     def total_weight_observed(self):
@@ -154,8 +154,8 @@ cdef class ClassificationPerformanceEvaluator:
 
         if self._total_weight_observed > 0.0:
             for i in self.confusion_matrix.classes:
-                estimation_row = self.confusion_matrix.sum_row[i] / self.n_samples
-                estimation_col = self.confusion_matrix.sum_col[i] / self.n_samples
+                estimation_row = self.confusion_matrix.sum_row[i] / self._total_weight_observed
+                estimation_col = self.confusion_matrix.sum_col[i] / self._total_weight_observed
                 pe += estimation_row * estimation_col
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
@@ -191,8 +191,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_correct_no_change_classifier / self.n_samples
+            pe = self.weight_correct_no_change_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -225,8 +224,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_majority_classifier / self.n_samples
+            pe = self.weight_majority_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -528,7 +526,9 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
             majority_classifier_correction = remove_tuple[3]
             correct_no_change_classifier_correction = remove_tuple[4]
             # Update confusion matrix by removing the oldest samples
-            self.confusion_matrix[(y_true_remove, y_pred_remove)] = -weight_remove
+            if weight_remove > 0.0:
+                self.confusion_matrix[(y_true_remove, y_pred_remove)] = -weight_remove
+                self._total_weight_observed -= weight_remove
             # Update the majority and correct-no-change classifiers' statistics
             self.weight_majority_classifier -= weight_remove if majority_classifier_correction == 1 else 0.0
             self.weight_correct_no_change_classifier -= \
-- 
2.43.0


From a5f6753075137cf57052a1ec8ead678dcf786de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 58/83] fix: return one row per sample from
 AdaptiveRandomForestClassifier.predict_proba when some samples get no votes

---
 src/skmultiflow/meta/adaptive_random_forests.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 9916b83..cc298d5 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -395,13 +395,9 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
                 for key, value in votes.items():
                     votes_array[int(key)] = value
                 y_proba.append(votes_array)
-        # Set result as np.array
-        if self.classes is not None:
-            y_proba = np.asarray(y_proba)
-        else:
-            # Fill missing values related to unobserved classes to ensure we get a 2D array
-            y_proba = np.asarray(list(itertools.zip_longest(*y_proba, fillvalue=0.0))).T
-        return y_proba
+        # Set result as np.array, filling missing values (related to unobserved classes, or to
+        # samples without votes) to ensure we get a 2D array
+        return np.asarray(list(itertools.zip_longest(*y_proba, fillvalue=0.0))).T
 
     def reset(self):
         """Reset ARF."""
-- 
2.43.0


From d5ded649290ff093fc6bb414fed5f15bb3f128ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 59/83] fix: predict with a weighted forest of one regression
 tree

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 0b89457..8437fd0 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -325,7 +325,8 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
                 weights = np.asarray([learner.get_error() for learner in self.ensemble])
                 sum_weights = weights.sum()
 
-                if sum_weights != 0:
+                # (the weights of a single tree would add up to zero)
+                if sum_weights != 0 and len(self.ensemble) > 1:
                     # The higher the error, the worse is the tree
                     weights = sum_weights - weights
                     # Normalize weights to sum up to 1
-- 
2.43.0


From 84a1923c13519b58e55160becec94748971916af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 60/83] fix: give the probabilities and the joint prediction of
 a randomly ordered classifier chain in the order of the labels

---
 src/skmultiflow/meta/classifier_chains.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index c221c61..b843548 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -234,7 +234,9 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
             if j > 0:
                 X = np.column_stack([X, Y[:, j - 1]])
             Y[:, j] = self.ensemble[j].predict_proba(X)[:, 1]
-        return Y
+
+        # Unset the chain order (back to default)
+        return Y[:, np.argsort(self.chain)]
 
     def reset(self):
         self.__configure()
@@ -358,7 +360,8 @@ class ProbabilisticClassifierChain(ClassifierChain):
                     Yp[n, :] = y_[:].copy()
                     w_max = w_
 
-        return Yp
+        # Unset the chain order (back to default)
+        return Yp[:, np.argsort(self.chain)]
 
 
 class MonteCarloClassifierChain(ProbabilisticClassifierChain):
-- 
2.43.0


From 374a1cd6aa27f8917d41d8f8285a53bc1eb2d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 61/83] fix: give the members of MultiOutputLearner the classes
 and weights which they accept

---
 src/skmultiflow/meta/multi_output_learner.py | 27 ++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index dc596ff..767ed00 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -120,12 +120,13 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
         self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].fit).parameters:
-                self.ensemble[j].fit(X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].fit).parameters:
-                self.ensemble[j].fit(X, y[:, j], sample_weight=sample_weight)
-            else:
-                self.ensemble[j].fit(X, y[:, j])
+            accepted = signature(self.ensemble[j].fit).parameters
+            kwargs = {}
+            if 'classes' in accepted:
+                kwargs['classes'] = classes
+            if 'sample_weight' in accepted:
+                kwargs['sample_weight'] = sample_weight
+            self.ensemble[j].fit(X, y[:, j], **kwargs)
         return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
@@ -168,13 +169,13 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
             self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].partial_fit).parameters:
-                self.ensemble[j].partial_fit(
-                    X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].partial_fit).parameters:
-                self.ensemble[j].partial_fit(X, y[:, j], sample_weight=sample_weight)
-            else:
-                self.ensemble[j].partial_fit(X, y[:, j])
+            accepted = signature(self.ensemble[j].partial_fit).parameters
+            kwargs = {}
+            if 'classes' in accepted:
+                kwargs['classes'] = classes
+            if 'sample_weight' in accepted:
+                kwargs['sample_weight'] = sample_weight
+            self.ensemble[j].partial_fit(X, y[:, j], **kwargs)
 
         return self
 
-- 
2.43.0


From bdd8cb5a13af0dac595dab3b17d56050e4efe4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 62/83] fix: skip empty steps of a pipeline and let transforms
 without classes or partial_fit_transform take part

---
 src/skmultiflow/core/pipeline.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index cbe19c7..8242a66 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -1,3 +1,5 @@
+from inspect import signature
+
 from skmultiflow.core import BaseSKMObject
 from sklearn.utils import tosequence
 
@@ -128,7 +130,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "fit_transform"):
                 Xt = transform.fit_transform(Xt, y)
             else:
@@ -166,11 +168,17 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
-            if hasattr(transform, 'fit_transform'):
-                Xt = transform.partial_fit_transform(Xt, y, classes=classes)
+                continue
+            if hasattr(transform, 'partial_fit_transform'):
+                if 'classes' in signature(transform.partial_fit_transform).parameters:
+                    Xt = transform.partial_fit_transform(Xt, y, classes=classes)
+                else:
+                    Xt = transform.partial_fit_transform(Xt, y)
             else:
-                Xt = transform.partial_fit(Xt, y, classes=classes).transform(Xt)
+                if 'classes' in signature(transform.partial_fit).parameters:
+                    Xt = transform.partial_fit(Xt, y, classes=classes).transform(Xt)
+                else:
+                    Xt = transform.partial_fit(Xt, y).transform(Xt)
 
         if self._final_estimator is not None:
             if "classes" in self._final_estimator.partial_fit.__code__.co_varnames:
@@ -202,7 +210,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "partial_fit_transform"):
                 Xt = transform.partial_fit_transform(Xt, y)
             else:
-- 
2.43.0


From 34e026530be2183f9c7996f5e5422fee6090b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 63/83] fix: pass on the features that follow the last one-hot
 group

---
 src/skmultiflow/transform/one_hot_to_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/transform/one_hot_to_categorical.py b/src/skmultiflow/transform/one_hot_to_categorical.py
index 3ffcb29..43892d6 100644
--- a/src/skmultiflow/transform/one_hot_to_categorical.py
+++ b/src/skmultiflow/transform/one_hot_to_categorical.py
@@ -57,7 +57,8 @@ class OneHotToCategorical(StreamTransform):
         i = 0
         new_i = 0
         while i < X.size:
-            if i in self.categorical_list[list_index]:
+            if list_index < len(self.categorical_list) \
+                    and i in self.categorical_list[list_index]:
                 c = 0
                 found = False
                 for j in range(len(self.categorical_list[list_index])):
-- 
2.43.0


From 3d3624dedaa941922be992b92db348fbd3d55c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 64/83] fix: leave the samples given to the windowed scalers as
 they are

---
 src/skmultiflow/transform/windowed_minmax_scaler.py   | 3 ++-
 src/skmultiflow/transform/windowed_standard_scaler.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/transform/windowed_minmax_scaler.py b/src/skmultiflow/transform/windowed_minmax_scaler.py
index d6cad88..4be46a3 100644
--- a/src/skmultiflow/transform/windowed_minmax_scaler.py
+++ b/src/skmultiflow/transform/windowed_minmax_scaler.py
@@ -39,6 +39,7 @@ class WindowedMinmaxScaler(StreamTransform):
 
         """
         r, c = get_dimensions(X)
+        X = np.array(X, dtype=float)
         for i in range(r):
             row = np.copy([X[i][:]])
             for j in range(c):
@@ -104,5 +105,5 @@ class WindowedMinmaxScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.array(X, dtype=float))
         return self
diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index 33910f5..33bd290 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -37,6 +37,7 @@ class WindowedStandardScaler(StreamTransform):
 
         """
         r, c = get_dimensions(X)
+        X = np.array(X, dtype=float)
         for i in range(r):
             row = np.copy([X[i][:]])
             for j in range(c):
@@ -100,5 +101,5 @@ class WindowedStandardScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.array(X, dtype=float))
         return self
-- 
2.43.0


From 7dd874407049bdc1fac425d4941e9743221d448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 65/83] fix: fill in missing values with statistics of observed
 values, without changing the samples given

---
 .../transform/missing_values_cleaner.py       | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index bcb9cae..378c6e7 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -98,15 +98,19 @@ class MissingValuesCleaner(StreamTransform):
         
         """
         r, c = get_dimensions(X)
+        X = np.array(X, dtype=float)
         for i in range(r):
             if self.strategy in ['mean', 'median', 'mode']:
-                self.window.add_element([X[i][:]])
+                self.window.add_element([X[i].copy()])
             for j in range(c):
-                if X[i][j] in self.missing_value or np.isnan(X[i][j]):
+                if self._is_missing(X[i][j]):
                     X[i][j] = self._get_substitute(j)
 
         return X
 
+    def _is_missing(self, value):
+        return value in self.missing_value or np.isnan(value)
+
     def _get_substitute(self, column_index):
         """ _get_substitute
         
@@ -125,24 +129,20 @@ class MissingValuesCleaner(StreamTransform):
         """
         if self.strategy == 'zero':
             return 0
+        elif self.strategy == 'custom':
+            return self.new_value
+
+        # Only values that are not missing themselves can tell what to fill in
+        values = [row[column_index] for row in self.window.get_queue()
+                  if not self._is_missing(row[column_index])]
+        if len(values) == 0:
+            return self.new_value
         elif self.strategy == 'mean':
-            if not self.window.is_empty():
-                return np.nanmean(np.array(self.window.get_queue())[:, column_index])
-            else:
-                return self.new_value
+            return np.mean(values)
         elif self.strategy == 'median':
-            if not self.window.is_empty():
-                return np.nanmedian(np.array(self.window.get_queue())[:, column_index])
-            else:
-                return self.new_value
+            return np.median(values)
         elif self.strategy == 'mode':
-            if not self.window.is_empty():
-                return stats.mode(np.array(self.window.get_queue())[:, column_index],
-                                  nan_policy='omit')[0]
-            else:
-                return self.new_value
-        elif self.strategy == 'custom':
-            return self.new_value
+            return stats.mode(values)[0]
 
     def partial_fit_transform(self, X, y=None):
         """ partial_fit_transform
@@ -186,7 +186,7 @@ class MissingValuesCleaner(StreamTransform):
             self
         
         """
-        X = np.asarray(X)
+        X = np.array(X, dtype=float)
         if self.strategy in ['mean', 'median', 'mode']:
             self.window.add_element(X)
         return self
-- 
2.43.0


From 25870a950952de7480aea9d988ff981204f6a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 66/83] fix: tell the drift detectors of decision rules about
 errors instead of correct answers

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 289e33b..e092fd0 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -518,8 +518,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
-                        prediction = rule.predict(y)
-                        rule.drift_detector.add_element(prediction)
+                        # Drift detectors track errors: 1 is a misclassification
+                        rule.drift_detector.add_element(1 - rule.predict(y))
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
                             self.rule_set.pop(i)
                             continue
-- 
2.43.0


From 611a9d4599d4cb9960732ee19f2145246d11843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 67/83] fix: show a sample to the rule that follows one that is
 removed

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index e092fd0..c1b5b6f 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -514,14 +514,14 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
         """
         rule_fired = False
         if self.rule_set:
-            for i, rule in enumerate(self.rule_set):
+            for rule in list(self.rule_set):
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
                         # Drift detectors track errors: 1 is a misclassification
                         rule.drift_detector.add_element(1 - rule.predict(y))
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
-                            self.rule_set.pop(i)
+                            self.rule_set = [r for r in self.rule_set if r is not rule]
                             continue
                     rule.learn_from_instance(X, y, weight, self)
                     if rule.get_weight_seen() - rule.weight_seen_at_last_expand >= self.grace_period:
-- 
2.43.0


From 3e3bc8de8e9055777710ca9407640ca5e9b12e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 68/83] fix: keep every excluded nominal value when a decision
 rule is expanded

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index c1b5b6f..3cb0d8c 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -679,7 +679,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 new_pred = Predicate(best_suggestion.att_idx, best_suggestion.operator, best_suggestion.att_val)
                 add_pred = True
                 for pred in rule.predicate_set:
-                    if (pred.operator == new_pred.operator) and (pred.att_idx == new_pred.att_idx):
+                    if (pred.operator in ["<=", ">"]) and (pred.operator == new_pred.operator) \
+                            and (pred.att_idx == new_pred.att_idx):
                         if pred.operator == "<=":
                             pred.value = min(pred.value, new_pred.value)
                             rule.observed_class_distribution = best_suggestion. \
@@ -756,7 +757,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                                                              best_suggestion.att_val)
                                         add_pred = True
                                         for pred in new_rule.predicate_set:
-                                            if (pred.operator == new_pred.operator) and (
+                                            if (pred.operator in ["<=", ">"]) and (
+                                                    pred.operator == new_pred.operator) and (
                                                     pred.att_idx == new_pred.att_idx):
                                                 if pred.operator == "<=":
                                                     pred.value = min(pred.value, new_pred.value)
-- 
2.43.0


From bbd756b3e9dc90bd57145d2840bc849633ddf7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 69/83] fix: do not expand decision rules by tests that
 separate nothing

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 3cb0d8c..3b507df 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -567,6 +567,7 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                             (hoeffding_bound < self.tie_threshold):
                         should_expand = True
 
+                should_expand = should_expand and best_expand_suggestions[-1].merit > -np.inf
                 if should_expand:
                     best_suggestion = best_expand_suggestions[-1]
                     new_pred = Predicate(best_suggestion.att_idx, best_suggestion.operator, best_suggestion.att_val)
@@ -602,6 +603,7 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                         if ((best_suggestion.merit - second_best_suggestion.merit) > hoeffding_bound) or (
                                 hoeffding_bound < self.tie_threshold):
                             should_expand = True
+                    should_expand = should_expand and best_expand_suggestions[-1].merit > -np.inf
                     if should_expand:
                         best_suggestion = best_expand_suggestions[-1]
                         new_pred = Predicate(best_suggestion.att_idx, best_suggestion.operator, best_suggestion.att_val)
@@ -674,6 +676,7 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                     for poor_att in poor_atts:
                         rule.disable_attribute(poor_att)
 
+            should_expand = should_expand and best_expand_suggestions[-1].merit > -np.inf
             if should_expand:
                 best_suggestion = best_expand_suggestions[-1]
                 new_pred = Predicate(best_suggestion.att_idx, best_suggestion.operator, best_suggestion.att_val)
@@ -751,6 +754,7 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                                             for poor_att in poor_atts:
                                                 new_rule.disable_attribute(poor_att)
 
+                                    should_expand = should_expand and best_expand_suggestions[-1].merit > -np.inf
                                     if should_expand:
                                         best_suggestion = best_expand_suggestions[-1]
                                         new_pred = Predicate(best_suggestion.att_idx, best_suggestion.operator,
-- 
2.43.0


From 42bcc59e9b9ae8104db4cec51bf84ced6dfae369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 70/83] fix: weigh the votes of all firing rules alike in a
 weighted sum

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 3b507df..498ee30 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -443,8 +443,9 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes, inplace=False)
                 final_votes = {k: final_votes.get(k, 0) + votes.get(k, 0) for k in set(final_votes) | set(votes)}
-                if sum(final_votes.values()) != 0:
-                    normalize_values_in_dict(final_votes)
+
+        if sum(final_votes.values()) != 0:
+            normalize_values_in_dict(final_votes)
 
         return final_votes if fired_rule else self.default_rule.get_class_votes(X, self)
 
-- 
2.43.0


From 2acabb093b7a0d1350fa0616509dda6ee9b27a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 71/83] fix: describe decision rules whose default rule has no
 observations

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 498ee30..aefee80 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -897,7 +897,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
             class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1))[0]
             description += 'Rule ' + str(i) + ' :' + str(rule.get_rule()) + '| class :' + str(class_idx) + '  ' + \
                            str(rule.observed_class_distribution) + '\n'
-        class_idx = max(self.default_rule.observed_class_distribution.items(), key=itemgetter(1))[0]
+        class_idx = max(self.default_rule.observed_class_distribution.items(), key=itemgetter(1),
+                        default=(None, 0))[0]
         description += 'Default Rule :' + str(self.default_rule.get_rule()) + '| class :' + str(class_idx) + '  ' + \
                        str(self.default_rule.observed_class_distribution)
         return description
-- 
2.43.0


From c95864566910cba65481bf6c4a2fe0c03819481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:36 +0000
Subject: [PATCH 72/83] fix: let RobustSoftLearningVectorQuantization be given
 its classes as an array

---
 .../prototype/robust_soft_learning_vector_quantization.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 3ee403a..6aff0f6 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -177,7 +177,7 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
                                                     train_lab.ravel())
 
         if self.initial_fit:
-            if classes:
+            if classes is not None:
                 self.classes_ = np.asarray(classes)
                 self.protos_initialized = np.zeros(self.classes_.size)
             else:
-- 
2.43.0


From 834f585f840ab94f80dff76ffe4ffca73b405f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:36 +0000
Subject: [PATCH 73/83] fix: do not use prototypes of classes that have not
 been observed yet

---
 ...robust_soft_learning_vector_quantization.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 6aff0f6..afa790b 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -1,7 +1,6 @@
 import math
 import numpy as np
 from sklearn.utils import validation
-from sklearn.metrics import euclidean_distances
 from sklearn.utils.multiclass import unique_labels
 from skmultiflow.core.base import ClassifierMixin, BaseSKMObject
 
@@ -224,9 +223,10 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
         # initialize prototypes
         if self.initial_prototypes is None:
             if self.initial_fit:
-                self.w_ = np.empty([np.sum(nb_ppc), nb_features],
-                                   dtype=np.double)
-                self.c_w_ = np.empty([nb_ppc.sum()], dtype=self.classes_.dtype)
+                # Prototypes of classes that have not been observed yet are out of reach
+                self.w_ = np.full([np.sum(nb_ppc), nb_features], np.inf,
+                                  dtype=np.double)
+                self.c_w_ = np.repeat(self.classes_, nb_ppc)
             pos = 0
             for actClassIdx in range(len(self.classes_)):
                 actClass = self.classes_[actClassIdx]
@@ -322,18 +322,12 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
             # find nearest correct and nearest wrong prototype
             for j in range(prototypes.shape[0]):
                 if self.c_w_[j] == c_xi:
-                    eucl_dis = euclidean_distances(xi.reshape(1, xi.size),
-                                                   prototypes[j]
-                                                   .reshape(1, prototypes[j]
-                                                   .size))
+                    eucl_dis = np.linalg.norm(xi - prototypes[j])
                     if eucl_dis < best_euclid_corr:
                         best_euclid_corr = eucl_dis
                         corr_index = j
                 else:
-                    eucl_dis = euclidean_distances(xi.reshape(1, xi.size),
-                                                   prototypes[j]
-                                                   .reshape(1, prototypes[j]
-                                                   .size))
+                    eucl_dis = np.linalg.norm(xi - prototypes[j])
                     if eucl_dis < best_euclid_incorr:
                         best_euclid_incorr = eucl_dis
                         incorr_index = j
-- 
2.43.0


From ad97af9a2050df09861505d590c29a809c2b1627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:36 +0000
Subject: [PATCH 74/83] fix: start from the initial prototypes once and leave
 them as given

---
 .../prototype/robust_soft_learning_vector_quantization.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index afa790b..af85733 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -253,8 +253,8 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
 
                     self.c_w_[pos:pos + nb_prot] = actClass
                 pos += nb_prot
-        else:
-            x = validation.check_array(self.initial_prototypes)
+        elif self.initial_fit:
+            x = validation.check_array(self.initial_prototypes, copy=True)
             self.w_ = x[:, :-1]
             self.c_w_ = x[:, -1]
             if self.w_.shape != (np.sum(nb_ppc), nb_features):
-- 
2.43.0


From 0147a8f0746c947b60ccab665e278fd4bcb07ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:36 +0000
Subject: [PATCH 75/83] fix: accept a list of numbers of prototypes per class

---
 .../prototype/robust_soft_learning_vector_quantization.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index af85733..8e8ac7e 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -109,7 +109,7 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
 
         if sigma <= 0:
             raise ValueError('Sigma must be greater than 0')
-        if prototypes_per_class <= 0:
+        if np.min(prototypes_per_class) <= 0:
             raise ValueError('Prototypes per class must be more than 0')
         if gamma >= 1 or gamma < 0:
             raise ValueError('Decay rate gamma has to be between 0 and\
-- 
2.43.0


From cabf18e82905baaaf231e77928c4110c1d01bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:03 +0000
Subject: [PATCH 76/83] fix: let initial prototypes given as integers move by
 fractions

---
 .../prototype/robust_soft_learning_vector_quantization.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 8e8ac7e..fc7e9b7 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -254,7 +254,8 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
                     self.c_w_[pos:pos + nb_prot] = actClass
                 pos += nb_prot
         elif self.initial_fit:
-            x = validation.check_array(self.initial_prototypes, copy=True)
+            x = validation.check_array(self.initial_prototypes, dtype=np.double,
+                                       copy=True)
             self.w_ = x[:, :-1]
             self.c_w_ = x[:, -1]
             if self.w_.shape != (np.sum(nb_ppc), nb_features):
-- 
2.43.0


From 804a51539a4c12e358f402e22084a104e5932365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:12 +0000
Subject: [PATCH 77/83] fix: restore the line endings of time_manager.py

---
 src/skmultiflow/data/time_manager.py | 324 +++++++++++++--------------
 1 file changed, 162 insertions(+), 162 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index 02cf81a..49f1c44 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -1,162 +1,162 @@
-import numpy as np
-import pandas as pd
-
-
-class TimeManager(object):
-    """ TimeManager
-
-    Manage instances that are related to a timestamp and a delay.
-
-    Parameters
-    ----------
-    timestamp: numpy.datetime64
-        Current timestamp of the stream. This timestamp is always
-        updated as the stream is processed to simulate when
-        the labels will be available for each sample.
-
-    """
-
-    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
-    _USE_SAMPLE_WEIGHT = True
-
-    def __init__(self, timestamp):
-        # get initial timestamp
-        self.timestamp = timestamp
-        # create dataframe to save time data
-        # X = features
-        # y_true = true label/target
-        # y_pred = predicted label/target for each model being evaluated
-        # arrival_time = arrival timestamp of the sample
-        # available_time = timestamp when the sample label will be available
-        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
-        # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
-            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
-            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
-
-    def _sort_queue(self):
-        # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
-        self.queue = self.queue.reset_index(drop=True)
-
-    def _cleanup_samples(self, batch_size):
-        # check if has batch_size samples to be removed
-        if self.queue.shape[0] - batch_size >= 0:
-            # drop samples that were already used
-            self.queue = self.queue.iloc[batch_size:]
-            # reset indexes
-            self.queue = self.queue.reset_index(drop=True)
-        else:
-            # drop all samples
-            self.queue = self.queue.iloc[0:0]
-
-    def update_timestamp(self, timestamp):
-        """ update_timestamp
-
-        Update current timestamp of the stream.
-
-        Parameters
-        ----------
-        timestamp: datetime64
-            Current timestamp of the stream. This timestamp is always
-            updated as the stream is processed to simulate when
-            the labels will be available for each sample.
-
-        """
-
-        self.timestamp = timestamp
-
-    def get_available_samples(self):
-        """ get_available_samples
-
-        Get available samples of the stream, i.e., samples that have
-        their labels available (available_time <= timestamp).
-
-        Returns
-        -------
-        tuple
-            A tuple containing the data, their true labels, predictions and
-            sample weights (None if weights are not used).
-
-        """
-
-        # get samples that have label available
-        samples = self.queue[self.queue['available_time'] <= self.timestamp]
-        # remove these samples from queue
-        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
-        # get X, y_true and y_pred
-        X = np.array(samples["X"].values.tolist())
-        y_true = np.array(samples["y_true"].values.tolist())
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["sample_weight"].values.tolist())
-        else:
-            sample_weight = None
-        # return X, y_true, y_pred and sample_weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
-
-    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
-        # check if weight is None to create a list
-        if sample_weight is None:
-            # set _sample_weight as False, indicating that there is no weight
-            self._USE_SAMPLE_WEIGHT = False
-            sample_weight = np.full(X.shape[0], None)   # noqa
-        # create daraframe for current samples
-        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
-                                      arrival_time, available_time)),
-                             columns=self._COLUMN_NAMES)
-        # append new data to queue
-        self.queue = self.queue.append(frame)
-        # sort queue
-        self._sort_queue()
-
-    def has_more_samples(self):
-        """ Checks if queue has more samples.
-
-        Returns
-        -------
-        Boolean
-            True if queue has more samples.
-
-        """
-
-        return self.queue.shape[0] > 0
-
-    def next_sample(self, batch_size=1):
-        """ Returns next sample from the queue.
-
-        If there is enough instances to supply at least batch_size samples, those
-        are returned. Otherwise, the remaining are returned.
-
-        Parameters
-        ----------
-        batch_size: int (optional, default=1)
-            The number of instances to return.
-
-        Returns
-        -------
-        tuple or tuple list
-            Returns the next batch_size instances.
-            For general purposes the return can be treated as a numpy.ndarray.
-
-        """
-        if self.queue.shape[0] - batch_size >= 0:
-            samples = self.queue[:batch_size]
-        else:
-            samples = self.queue
-        # get X
-        X = np.array(samples["X"].values.tolist())
-        # get y_true
-        y_true = np.array(samples["y_true"].values.tolist())
-        # get y_pred
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["sample_weight"].values.tolist())
-        else:
-            sample_weight = None
-        # remove samples from queue
-        self._cleanup_samples(batch_size)
-        # return X, y_true, y_pred, and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
+import numpy as np
+import pandas as pd
+
+
+class TimeManager(object):
+    """ TimeManager
+
+    Manage instances that are related to a timestamp and a delay.
+
+    Parameters
+    ----------
+    timestamp: numpy.datetime64
+        Current timestamp of the stream. This timestamp is always
+        updated as the stream is processed to simulate when
+        the labels will be available for each sample.
+
+    """
+
+    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
+    _USE_SAMPLE_WEIGHT = True
+
+    def __init__(self, timestamp):
+        # get initial timestamp
+        self.timestamp = timestamp
+        # create dataframe to save time data
+        # X = features
+        # y_true = true label/target
+        # y_pred = predicted label/target for each model being evaluated
+        # arrival_time = arrival timestamp of the sample
+        # available_time = timestamp when the sample label will be available
+        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
+        # transform queue into datetime if timestamps are not int
+        if isinstance(self.timestamp, int):
+            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
+            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
+
+    def _sort_queue(self):
+        # sort values by available_time
+        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.reset_index(drop=True)
+
+    def _cleanup_samples(self, batch_size):
+        # check if has batch_size samples to be removed
+        if self.queue.shape[0] - batch_size >= 0:
+            # drop samples that were already used
+            self.queue = self.queue.iloc[batch_size:]
+            # reset indexes
+            self.queue = self.queue.reset_index(drop=True)
+        else:
+            # drop all samples
+            self.queue = self.queue.iloc[0:0]
+
+    def update_timestamp(self, timestamp):
+        """ update_timestamp
+
+        Update current timestamp of the stream.
+
+        Parameters
+        ----------
+        timestamp: datetime64
+            Current timestamp of the stream. This timestamp is always
+            updated as the stream is processed to simulate when
+            the labels will be available for each sample.
+
+        """
+
+        self.timestamp = timestamp
+
+    def get_available_samples(self):
+        """ get_available_samples
+
+        Get available samples of the stream, i.e., samples that have
+        their labels available (available_time <= timestamp).
+
+        Returns
+        -------
+        tuple
+            A tuple containing the data, their true labels, predictions and
+            sample weights (None if weights are not used).
+
+        """
+
+        # get samples that have label available
+        samples = self.queue[self.queue['available_time'] <= self.timestamp]
+        # remove these samples from queue
+        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
+        # get X, y_true and y_pred
+        X = np.array(samples["X"].values.tolist())
+        y_true = np.array(samples["y_true"].values.tolist())
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and sample_weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
+
+    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
+        # check if weight is None to create a list
+        if sample_weight is None:
+            # set _sample_weight as False, indicating that there is no weight
+            self._USE_SAMPLE_WEIGHT = False
+            sample_weight = np.full(X.shape[0], None)   # noqa
+        # create daraframe for current samples
+        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
+                                      arrival_time, available_time)),
+                             columns=self._COLUMN_NAMES)
+        # append new data to queue
+        self.queue = self.queue.append(frame)
+        # sort queue
+        self._sort_queue()
+
+    def has_more_samples(self):
+        """ Checks if queue has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if queue has more samples.
+
+        """
+
+        return self.queue.shape[0] > 0
+
+    def next_sample(self, batch_size=1):
+        """ Returns next sample from the queue.
+
+        If there is enough instances to supply at least batch_size samples, those
+        are returned. Otherwise, the remaining are returned.
+
+        Parameters
+        ----------
+        batch_size: int (optional, default=1)
+            The number of instances to return.
+
+        Returns
+        -------
+        tuple or tuple list
+            Returns the next batch_size instances.
+            For general purposes the return can be treated as a numpy.ndarray.
+
+        """
+        if self.queue.shape[0] - batch_size >= 0:
+            samples = self.queue[:batch_size]
+        else:
+            samples = self.queue
+        # get X
+        X = np.array(samples["X"].values.tolist())
+        # get y_true
+        y_true = np.array(samples["y_true"].values.tolist())
+        # get y_pred
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # remove samples from queue
+        self._cleanup_samples(batch_size)
+        # return X, y_true, y_pred, and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
-- 
2.43.0


From bd896bd43d5853ebdbf07b85afd0c57bb8d92fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:37 +0000
Subject: [PATCH 78/83] fix: count deleted inactive leaves in the extremely
 fast decision tree

---
 src/skmultiflow/trees/_nodes/efdtc_nodes.py   | 21 +++++++++++--------
 .../trees/extremely_fast_decision_tree.py     |  2 ++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/efdtc_nodes.py b/src/skmultiflow/trees/_nodes/efdtc_nodes.py
index e1033d9..7f08efd 100644
--- a/src/skmultiflow/trees/_nodes/efdtc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/efdtc_nodes.py
@@ -70,11 +70,12 @@ class EFDTActiveLeaf(ActiveLeafClass):
 
         Returns
         -------
-        list[int int]
-            [number of split node, number of leaf node].
+        list[int int int]
+            [number of split node, number of active leaf node,
+            number of inactive leaf node].
 
         """
-        return np.array([0, 1])
+        return np.array([0, 1, 0])
 
 
 class EFDTSplitNode(SplitNode, EFDTActiveLeaf):
@@ -168,12 +169,13 @@ class EFDTSplitNode(SplitNode, EFDTActiveLeaf):
 
         Returns
         -------
-        list[int int]
-            [number of split node, number of leaf node].
+        list[int int int]
+            [number of split node, number of active leaf node,
+            number of inactive leaf node].
 
         """
 
-        count = np.array([1, 0])
+        count = np.array([1, 0, 0])
         # get children
         for branch_idx in range(self.n_children):
             child = self.get_child(branch_idx)
@@ -249,11 +251,12 @@ class EFDTInactiveLearningNodeMC(InactiveLearningNodeMC):
 
         Returns
         -------
-        list[int int]
-            [number of split node, number of leaf node].
+        list[int int int]
+            [number of split node, number of active leaf node,
+            number of inactive leaf node].
 
         """
-        return np.array([0, 1])
+        return np.array([0, 0, 1])
 
 
 class EFDTActiveLearningNodeNB(LearningNodeNB, EFDTActiveLeaf):
diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 5727db0..9d46632 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -430,6 +430,7 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
 
                     self._active_leaf_node_cnt += 1
                     self._active_leaf_node_cnt -= deleted_node_cnt[1]
+                    self._inactive_leaf_node_cnt -= deleted_node_cnt[2]
                     self._decision_node_cnt -= deleted_node_cnt[0]
                     stop_flag = True
 
@@ -452,6 +453,7 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
                     deleted_node_cnt = node.count_nodes()
 
                     self._active_leaf_node_cnt -= deleted_node_cnt[1]
+                    self._inactive_leaf_node_cnt -= deleted_node_cnt[2]
                     self._decision_node_cnt -= deleted_node_cnt[0]
                     self._decision_node_cnt += 1
                     self._active_leaf_node_cnt += x_best.num_splits()
-- 
2.43.0


From 969663b73c79b62d0b6402d9a9ee01d868cf81e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:44 +0000
Subject: [PATCH 79/83] fix: count every active leaf towards the tree's memory
 limit

---
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index c80b02c..a1587bf 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -639,7 +639,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
 
     def _enforce_tracker_limit(self):
         """ Track the size of the tree and disable/enable nodes if required."""
-        byte_size = (self._active_leaf_byte_size_estimate
+        byte_size = (self._active_leaf_node_cnt * self._active_leaf_byte_size_estimate
                      + self._inactive_leaf_node_cnt * self._inactive_leaf_byte_size_estimate) \
             * self._byte_size_estimate_overhead_fraction
         if self._inactive_leaf_node_cnt > 0 or byte_size > self.max_byte_size:
-- 
2.43.0


From 0d1186e90b3386f8414d9d65b05ca3fca3bfa67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:45 +0000
Subject: [PATCH 80/83] fix: heed nb_threshold in the adaptive Hoeffding tree

---
 src/skmultiflow/trees/_nodes/hatc_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/_nodes/hatc_nodes.py b/src/skmultiflow/trees/_nodes/hatc_nodes.py
index 262510a..e671907 100644
--- a/src/skmultiflow/trees/_nodes/hatc_nodes.py
+++ b/src/skmultiflow/trees/_nodes/hatc_nodes.py
@@ -126,7 +126,10 @@ class AdaLearningNode(ActiveLearningNodeNBA, AdaNode):
             dist = self.stats
         # NB
         elif prediction_option == tree._NAIVE_BAYES:
-            dist = do_naive_bayes_prediction(X, self.stats, self.attribute_observers)
+            if self.total_weight >= tree.nb_threshold:
+                dist = do_naive_bayes_prediction(X, self.stats, self.attribute_observers)
+            else:
+                dist = self.stats
         # NBAdaptive (default)
         else:
             dist = super().predict_one(X, tree=tree)
-- 
2.43.0


From 87a2b7aff65a3b867c7d3121c29d9cf2028337f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:46 +0000
Subject: [PATCH 81/83] fix: heed max_rules when foil gain makes a rule per
 class

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index aefee80..d6eae26 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -591,6 +591,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 expand_criterion = FoilGainExpandCriterion()
                 should_expand = False
                 for class_idx in self.default_rule.observed_class_distribution.keys():
+                    if len(self.rule_set) >= self.max_rules:
+                        break
                     best_expand_suggestions = self.default_rule.get_best_expand_suggestion(expand_criterion, class_idx)
                     best_expand_suggestions.sort(key=attrgetter('merit'))
                     if len(best_expand_suggestions) < 2:
@@ -711,7 +713,7 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                     if self.expand_criterion == _FOILGAIN:
                         if not self.ordered_rules:
                             for c in rule.observed_class_distribution.keys():
-                                if c != rule.class_idx:
+                                if c != rule.class_idx and len(self.rule_set) < self.max_rules:
                                     new_rule = copy.deepcopy(rule)
                                     new_rule.class_idx = c
                                     split_criterion = FoilGainExpandCriterion()
-- 
2.43.0


From d2bf9920514620b736a1c7b31a5cc492d0140d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:31 +0000
Subject: [PATCH 82/83] fix: summarise the final state of an evaluation, which
 crashed when nothing had been reported yet

---
 src/skmultiflow/evaluation/base_evaluator.py       | 14 +++++++++-----
 src/skmultiflow/evaluation/evaluate_holdout.py     |  1 +
 src/skmultiflow/evaluation/evaluate_prequential.py |  1 +
 .../evaluation/evaluate_prequential_delayed.py     |  1 +
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/evaluation/base_evaluator.py b/src/skmultiflow/evaluation/base_evaluator.py
index a3f4a14..b179e75 100644
--- a/src/skmultiflow/evaluation/base_evaluator.py
+++ b/src/skmultiflow/evaluation/base_evaluator.py
@@ -318,6 +318,15 @@ class StreamEvaluator(BaseSKMObject, metaclass=ABCMeta):
         self._data_buffer = EvaluationDataBuffer(data_dict=self._data_dict)
 
     def _update_metrics(self):
+        """ Updates the metrics of interest and the outputs of the evaluation. """
+        self._update_data_buffer()
+
+        shift = 0
+        if self._method == 'prequential':
+            shift = -self.batch_size  # Adjust index due to training after testing
+        self._update_outputs(self.global_sample_count + shift)
+
+    def _update_data_buffer(self):
         """ Updates the metrics of interest. This function updates the evaluation data buffer
         which is used to track performance during evaluation.
 
@@ -529,11 +538,6 @@ class StreamEvaluator(BaseSKMObject, metaclass=ABCMeta):
                     data_id=constants.CURRENT,
                     value=values[1])
 
-        shift = 0
-        if self._method == 'prequential':
-            shift = -self.batch_size  # Adjust index due to training after testing
-        self._update_outputs(self.global_sample_count + shift)
-
     def _update_outputs(self, sample_id):
         """ Update outputs of the evaluation. """
         self._update_file()
diff --git a/src/skmultiflow/evaluation/evaluate_holdout.py b/src/skmultiflow/evaluation/evaluate_holdout.py
index 3814175..e4ec4af 100644
--- a/src/skmultiflow/evaluation/evaluate_holdout.py
+++ b/src/skmultiflow/evaluation/evaluate_holdout.py
@@ -337,6 +337,7 @@ class EvaluateHoldout(StreamEvaluator):
         # Flush file buffer, in case it contains data
         self._flush_file_buffer()
 
+        self._update_data_buffer()
         self.evaluation_summary()
 
         if self.restart_stream:
diff --git a/src/skmultiflow/evaluation/evaluate_prequential.py b/src/skmultiflow/evaluation/evaluate_prequential.py
index f5db596..ee8a15e 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential.py
@@ -384,6 +384,7 @@ class EvaluatePrequential(StreamEvaluator):
         self._flush_file_buffer()
 
         if len(set(self.metrics).difference({constants.DATA_POINTS})) > 0:
+            self._update_data_buffer()  # Include samples seen since the last update
             self.evaluation_summary()
         else:
             print('Done')
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 85c474c..dc0f0c9 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -489,6 +489,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
         self._flush_file_buffer()
 
         if len(set(self.metrics).difference({constants.DATA_POINTS})) > 0:
+            self._update_data_buffer()  # Include samples seen since the last update
             self.evaluation_summary()
         else:
             print('Done')
-- 
2.43.0


From 5f1b85698461fa8d75bf2cd2d0fc69c77831d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 83/83] fix: let random patches choose their subspaces anew
 after a reset

---
 .../meta/streaming_random_patches.py          | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index bbba1e3..e4d49bd 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -161,6 +161,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                                                              self._TRAIN_RANDOM_SUBSPACES,
                                                              self._TRAIN_RESAMPLING}))
         self.training_method = training_method
+        self._training_method = training_method
         self.lam = lam
         self.drift_detection_method = drift_detection_method
         self.warning_detection_method = warning_detection_method
@@ -232,7 +233,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
             # Train using random subspaces without resampling,
             # i.e. all instances are used for training.
-            if self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 self.ensemble[i].partial_fit(X=X, y=y, classes=classes,
                                              sample_weight=np.asarray([1.]),
                                              n_samples_seen=self._n_samples_seen,
@@ -323,8 +324,10 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Select the size of k, which depends on 2 parameters:
         # subspace_size and subspace_mode
         k = self.subspace_size
+        # What is actually used, as it depends on the number of features
+        self._training_method = self.training_method
 
-        if self.training_method != self._TRAIN_RESAMPLING:
+        if self._training_method != self._TRAIN_RESAMPLING:
             # This only applies to subspaces and random patches options
             if self.subspace_mode == self._FEATURES_SQRT:
                 k = int(np.round(np.sqrt(n_features)) + 1)
@@ -343,8 +346,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Generate subspaces. The subspaces is a 2D matrix of shape
         # (n_estimators, k) where each row contains the k feature indices
         # to be used by each estimator.
-        if self.training_method == self._TRAIN_RANDOM_SUBSPACES or \
-                self.training_method == self._TRAIN_RANDOM_PATCHES:
+        if self._training_method == self._TRAIN_RANDOM_SUBSPACES or \
+                self._training_method == self._TRAIN_RANDOM_PATCHES:
             if k != 0 and k < n_features:
                 # For low dimensionality it is better to avoid more than
                 # 1 classifier with the same subspace, thus we generate all
@@ -376,7 +379,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             # k == 0 or k > n_features (subspace size is larger than the
             # number of features), then default to re-sampling
             else:
-                self.training_method = self._TRAIN_RESAMPLING
+                self._training_method = self._TRAIN_RESAMPLING
 
         # Reset the base estimator for safety.
         self.base_estimator.reset()
@@ -392,16 +395,16 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         performance_evaluator = self._base_performance_evaluator
 
         subspace_indexes = np.arange(self.n_estimators)
-        if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+        if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                self._training_method == self._TRAIN_RANDOM_SUBSPACES:
             # Shuffle indexes that match subspaces with members of the ensemble
             self._random_state.shuffle(subspace_indexes)
         for i in range(self.n_estimators):
-            # When self.training_method == self._TRAIN_RESAMPLING
+            # When self._training_method == self._TRAIN_RESAMPLING
             features_indexes = None
             # Otherwise set feature indexes
-            if self.training_method == self._TRAIN_RANDOM_PATCHES or \
-                    self.training_method == self._TRAIN_RANDOM_SUBSPACES:
+            if self._training_method == self._TRAIN_RANDOM_PATCHES or \
+                    self._training_method == self._TRAIN_RANDOM_SUBSPACES:
                 features_indexes = self._subspaces[subspace_indexes[i]]
             self.ensemble.append(base_learner_class(
                 idx_original=i,
-- 
2.43.0


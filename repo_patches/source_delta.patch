From 28d1ba7c4f80df5f88d7dd7a6c6ecde13067db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 01/51] fix: pass SOM sizes, connection type and epochs to the
 native library as size_t

---
 pyclustering/core/som_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/core/som_wrapper.py b/pyclustering/core/som_wrapper.py
index a9ad9fd..9b84fbe 100755
--- a/pyclustering/core/som_wrapper.py
+++ b/pyclustering/core/som_wrapper.py
@@ -61,7 +61,7 @@ def som_create(rows, cols, conn_type, parameters):
     c_params.random_state = parameters.random_state or -1
     
     ccore.som_create.restype = POINTER(c_void_p)
-    som_pointer = ccore.som_create(c_uint(rows), c_uint(cols), c_uint(conn_type), pointer(c_params))
+    som_pointer = ccore.som_create(c_size_t(rows), c_size_t(cols), c_size_t(conn_type), pointer(c_params))
     
     return som_pointer
 
@@ -119,7 +119,7 @@ def som_train(som_pointer, data, epochs, autostop):
     
     ccore = ccore_library.get()
     ccore.som_train.restype = c_size_t
-    return ccore.som_train(som_pointer, pointer_data, c_uint(epochs), autostop)
+    return ccore.som_train(som_pointer, pointer_data, c_size_t(epochs), autostop)
 
 
 def som_simulate(som_pointer, pattern):
-- 
2.43.0


From f788a8256e9ffac3e52c6051ba58dece3119fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 02/51] fix: pass iteration indexes of sync dynamics to the
 native library as size_t

---
 pyclustering/core/sync_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/core/sync_wrapper.py b/pyclustering/core/sync_wrapper.py
index 27785e4..b3d1fdd 100755
--- a/pyclustering/core/sync_wrapper.py
+++ b/pyclustering/core/sync_wrapper.py
@@ -105,7 +105,7 @@ def sync_dynamic_allocate_correlation_matrix(pointer_dynamic, iteration):
     ccore = ccore_library.get()
     
     ccore.sync_dynamic_allocate_correlation_matrix.restype = POINTER(pyclustering_package)
-    package = ccore.sync_dynamic_allocate_correlation_matrix(pointer_dynamic, c_uint(analyse_iteration))
+    package = ccore.sync_dynamic_allocate_correlation_matrix(pointer_dynamic, c_size_t(analyse_iteration))
     
     result = package_extractor(package).extract()
     ccore.free_pyclustering_package(package)
@@ -141,7 +141,7 @@ def sync_dynamic_calculate_order(pointer_dynamic, start_iteration, stop_iteratio
     ccore = ccore_library.get()
     
     ccore.sync_dynamic_calculate_order.restype = POINTER(pyclustering_package)
-    package = ccore.sync_dynamic_calculate_order(pointer_dynamic, start_iteration, stop_iteration)
+    package = ccore.sync_dynamic_calculate_order(pointer_dynamic, c_size_t(start_iteration), c_size_t(stop_iteration))
     
     result = package_extractor(package).extract()
     ccore.free_pyclustering_package(package)
-- 
2.43.0


From 10fdf67c92b8de05ccc7cc5cc46fbbb3cd2e214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 03/51] fix: declare size_t as the result type of the native
 dynamic size getters

---
 pyclustering/core/pcnn_wrapper.py   | 2 +-
 pyclustering/core/sync_wrapper.py   | 2 +-
 pyclustering/core/syncpr_wrapper.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/core/pcnn_wrapper.py b/pyclustering/core/pcnn_wrapper.py
index 2b78533..9034635 100755
--- a/pyclustering/core/pcnn_wrapper.py
+++ b/pyclustering/core/pcnn_wrapper.py
@@ -132,5 +132,5 @@ def pcnn_dynamic_get_time(dynamic_pointer):
 
 def pcnn_dynamic_get_size(dynamic_pointer):
     ccore = ccore_library.get();
-    ccore.pcnn_dynamic_get_time.restype = c_size_t;
+    ccore.pcnn_dynamic_get_size.restype = c_size_t;
     return ccore.pcnn_dynamic_get_size(dynamic_pointer);
diff --git a/pyclustering/core/sync_wrapper.py b/pyclustering/core/sync_wrapper.py
index b3d1fdd..364f9b3 100755
--- a/pyclustering/core/sync_wrapper.py
+++ b/pyclustering/core/sync_wrapper.py
@@ -73,7 +73,7 @@ def sync_connectivity_matrix(pointer_network):
 
 def sync_dynamic_get_size(pointer_dynamic):
     ccore = ccore_library.get()
-    ccore.sync_dynamic_get_time.restype = c_size_t
+    ccore.sync_dynamic_get_size.restype = c_size_t
     return ccore.sync_dynamic_get_size(pointer_dynamic)
 
 
diff --git a/pyclustering/core/syncpr_wrapper.py b/pyclustering/core/syncpr_wrapper.py
index bf57422..f890427 100755
--- a/pyclustering/core/syncpr_wrapper.py
+++ b/pyclustering/core/syncpr_wrapper.py
@@ -70,7 +70,7 @@ def syncpr_memory_order(pointer_network, pattern):
 
 def syncpr_dynamic_get_size(pointer_dynamic):
     ccore = ccore_library.get();
-    ccore.syncpr_dynamic_get_size.restype = c_uint;
+    ccore.syncpr_dynamic_get_size.restype = c_size_t;
     return ccore.syncpr_dynamic_get_size(pointer_dynamic);
 
 
-- 
2.43.0


From be553b1246a62b115a2bdef10848b6f1d562105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 04/51] fix: BSAS, MBSAS and TTSAS do not overwrite input
 points when representatives are updated

---
 pyclustering/cluster/bsas.py  | 4 ++--
 pyclustering/cluster/mbsas.py | 4 ++--
 pyclustering/cluster/ttsas.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index c12c379..85a1b5c 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -162,14 +162,14 @@ class bsas:
 
     def __prcess_by_python(self):
         self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._representatives.append(list(self._data[0]))
 
         for i in range(1, len(self._data)):
             point = self._data[i]
             index_cluster, distance = self._find_nearest_cluster(point)
 
             if (distance > self._threshold) and (len(self._clusters) < self._amount):
-                self._representatives.append(point)
+                self._representatives.append(list(point))
                 self._clusters.append([i])
             else:
                 self._clusters[index_cluster].append(i)
diff --git a/pyclustering/cluster/mbsas.py b/pyclustering/cluster/mbsas.py
index d50d9e2..58f9820 100755
--- a/pyclustering/cluster/mbsas.py
+++ b/pyclustering/cluster/mbsas.py
@@ -96,7 +96,7 @@ class mbsas(bsas):
 
     def __prcess_by_python(self):
         self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._representatives.append(list(self._data[0]))
 
         skipped_objects = []
 
@@ -105,7 +105,7 @@ class mbsas(bsas):
             index_cluster, distance = self._find_nearest_cluster(point)
 
             if (distance > self._threshold) and (len(self._clusters) < self._amount):
-                self._representatives.append(point)
+                self._representatives.append(list(point))
                 self._clusters.append([i])
             else:
                 skipped_objects.append(i)
diff --git a/pyclustering/cluster/ttsas.py b/pyclustering/cluster/ttsas.py
index 319aab3..2d5fa95 100755
--- a/pyclustering/cluster/ttsas.py
+++ b/pyclustering/cluster/ttsas.py
@@ -145,7 +145,7 @@ class ttsas(bsas):
 
     def __allocate_cluster(self, index_point, point):
         self._clusters.append( [index_point] )
-        self._representatives.append(point)
+        self._representatives.append(list(point))
 
         self._amount_skipped_objects -= 1
         self._skipped_objects[index_point] = False
-- 
2.43.0


From e6fd10e0f189cc7a0327a1f54ddc00e3fa097fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 05/51] fix: CLIQUE and K-Medoids do not write to numpy arrays
 of the caller through views

---
 pyclustering/cluster/clique.py   | 4 ++--
 pyclustering/cluster/kmedoids.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index ddaeef3..3a0d2d3 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -753,8 +753,8 @@ class clique:
         @return (list, list, list): Data size in each dimension, minimum and maximum corners.
 
         """
-        min_corner = self.__data[0][:]
-        max_corner = self.__data[0][:]
+        min_corner = list(self.__data[0])
+        max_corner = list(self.__data[0])
 
         dimension = len(self.__data[0])
 
diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 504b141..1eb0f8d 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -384,7 +384,7 @@ class kmedoids:
         """
         self.__pointer_data = data
         self.__clusters = []
-        self.__medoid_indexes = initial_index_medoids[:]
+        self.__medoid_indexes = list(initial_index_medoids)
         self.__labels = [-1] * len(data)
         self.__distance_first_medoid = [float('inf')] * len(data)
         self.__distance_second_medoid = [float('inf')] * len(data)
-- 
2.43.0


From edcdadc78e46753936feec01a047e836791144e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 06/51] fix: K-Medians, Silhouette and K-Means++ work with a
 private copy of the caller's metric

---
 pyclustering/cluster/center_initializer.py | 3 ++-
 pyclustering/cluster/kmedians.py           | 3 ++-
 pyclustering/cluster/silhouette.py         | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 1e6885b..6fed194 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -12,6 +12,7 @@
 """
 
 
+import copy
 import numpy
 import random
 import warnings
@@ -199,7 +200,7 @@ class kmeans_plusplus_initializer:
         numpy.random.seed(random_seed)
         random.seed(random_seed)
 
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         self.__data_type = kwargs.get('data_type', 'points')
 
         self.__metric.enable_numpy_usage()
diff --git a/pyclustering/cluster/kmedians.py b/pyclustering/cluster/kmedians.py
index ccb387f..0606309 100755
--- a/pyclustering/cluster/kmedians.py
+++ b/pyclustering/cluster/kmedians.py
@@ -10,6 +10,7 @@
 """
 
 
+import copy
 import math
 import numpy
 
@@ -79,7 +80,7 @@ class kmedians:
         self.__total_wce = 0
 
         self.__itermax = kwargs.get('itermax', 100)
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         if self.__metric is None:
             self.__metric = distance_metric(type_metric.EUCLIDEAN_SQUARE)
 
diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index 41b1798..6bf0d7e 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -10,6 +10,8 @@
 """
 
 
+import copy
+
 from enum import IntEnum
 
 import numpy
@@ -145,7 +147,7 @@ class silhouette:
         """
         self.__data = data
         self.__clusters = clusters
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         self.__data_type = kwargs.get('data_type', 'points')
 
         if self.__metric.get_type() != type_metric.USER_DEFINED:
-- 
2.43.0


From baf0a900da99094135b010d9cb96bf4f072010fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 07/51] fix: reservoir sampling does not write to the caller's
 numpy array through a view

---
 pyclustering/utils/sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclustering/utils/sampling.py b/pyclustering/utils/sampling.py
index 0d71147..3316c5d 100755
--- a/pyclustering/utils/sampling.py
+++ b/pyclustering/utils/sampling.py
@@ -9,6 +9,7 @@
 """
 
 
+import copy
 import random
 
 
@@ -44,7 +45,7 @@ def reservoir_r(data, n):
         raise ValueError("Incorrect sampling value 'n' (%d) that should be bigger then data size (%d).")
 
     random.seed()
-    reservoir = data[0:n]
+    reservoir = copy.copy(data[0:n])
 
     for i in range(n, len(data)):
         m = random.randrange(0, i + 1)
@@ -92,7 +93,7 @@ def reservoir_x(data, n):
         raise ValueError("Incorrect sampling value 'n' (%d) that should be bigger then data size (%d).")
 
     random.seed()
-    reservoir = data[0:n]
+    reservoir = copy.copy(data[0:n])
 
     i = n
     while i < len(data):
-- 
2.43.0


From cca120edc89051bf45c74f5d02097f3cc9896b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 08/51] fix: SOM does not store its initial radius in the
 caller's parameters

---
 pyclustering/nnet/som.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 029cefa..61aba7b 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -9,6 +9,7 @@
 
 """
 
+import copy
 import math
 import random
 
@@ -255,7 +256,7 @@ class som:
 
         self.__ccore_som_pointer = None
 
-        self._params = parameters or som_parameters()
+        self._params = copy.copy(parameters) or som_parameters()
 
         if self._params.init_radius is None:
             self._params.init_radius = self.__initialize_initial_radius(rows, cols)
-- 
2.43.0


From 06860be146fece094e7ec00e7e4ff94f51f25477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:58 +0000
Subject: [PATCH 09/51] fix: the callback of a user-defined metric lives as
 long as the native metric

---
 pyclustering/core/metric_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index cab65ae..d00d715 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -23,7 +23,8 @@ metric_callback = CFUNCTYPE(c_double, POINTER(pyclustering_package), POINTER(pyc
 
 class metric_wrapper:
     def __init__(self, type_metric_code, arguments, func):
-        self.__func = lambda p1, p2: func(package_extractor(p1).extract(), package_extractor(p2).extract())
+        # the native metric calls this object later, so it has to live as long as the native metric
+        self.__func = metric_callback(lambda p1, p2: func(package_extractor(p1).extract(), package_extractor(p2).extract()))
 
         package_arguments = package_builder(arguments, c_double).create()
 
@@ -31,7 +32,7 @@ class metric_wrapper:
 
         ccore.metric_create.restype = POINTER(c_void_p)
 
-        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, metric_callback(self.__func))
+        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, self.__func)
 
 
     def __del__(self):
-- 
2.43.0


From 9c8d2be8bc8e4b2332d4efd9899ee0396fc066fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:58 +0000
Subject: [PATCH 10/51] fix: release the packages returned by native SOM
 getters

---
 pyclustering/core/som_wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclustering/core/som_wrapper.py b/pyclustering/core/som_wrapper.py
index 9b84fbe..3916264 100755
--- a/pyclustering/core/som_wrapper.py
+++ b/pyclustering/core/som_wrapper.py
@@ -181,6 +181,7 @@ def som_get_capture_objects(som_pointer):
     package = ccore.som_get_capture_objects(som_pointer)
     
     result = package_extractor(package).extract()
+    ccore.free_pyclustering_package(package)
     return result
 
 
@@ -198,6 +199,7 @@ def som_get_weights(som_pointer):
     package = ccore.som_get_weights(som_pointer)
     
     result = package_extractor(package).extract()
+    ccore.free_pyclustering_package(package)
     return result
 
 
@@ -215,6 +217,7 @@ def som_get_awards(som_pointer):
     package = ccore.som_get_awards(som_pointer)
     
     result = package_extractor(package).extract()
+    ccore.free_pyclustering_package(package)
     return result
 
 
@@ -232,4 +235,5 @@ def som_get_neighbors(som_pointer):
     package = ccore.som_get_neighbors(som_pointer)
     
     result = package_extractor(package).extract()
+    ccore.free_pyclustering_package(package)
     return result
\ No newline at end of file
-- 
2.43.0


From a48f0fe5f66d960ec6fdd35fa5d6b8550d76c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 11/51] fix: the random seed 0 reaches the native library

---
 pyclustering/core/elbow_wrapper.py      | 2 +-
 pyclustering/core/gmeans_wrapper.py     | 2 +-
 pyclustering/core/silhouette_wrapper.py | 2 +-
 pyclustering/core/som_wrapper.py        | 2 +-
 pyclustering/core/xmeans_wrapper.py     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/core/elbow_wrapper.py b/pyclustering/core/elbow_wrapper.py
index f96c1c7..8904303 100755
--- a/pyclustering/core/elbow_wrapper.py
+++ b/pyclustering/core/elbow_wrapper.py
@@ -28,7 +28,7 @@ class elbow_center_initializer(IntEnum):
 
 
 def elbow(sample, kmin, kmax, kstep, initializer, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/gmeans_wrapper.py b/pyclustering/core/gmeans_wrapper.py
index f7a930a..5d9bfac 100755
--- a/pyclustering/core/gmeans_wrapper.py
+++ b/pyclustering/core/gmeans_wrapper.py
@@ -15,7 +15,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def gmeans(sample, kinit, tolerance, repeat, kmax, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/silhouette_wrapper.py b/pyclustering/core/silhouette_wrapper.py
index 96aa7a1..08bae66 100755
--- a/pyclustering/core/silhouette_wrapper.py
+++ b/pyclustering/core/silhouette_wrapper.py
@@ -38,7 +38,7 @@ def silhoeutte(sample, clusters, pointer_metric, data_type):
 
 
 def silhoeutte_ksearch(sample, kmin, kmax, allocator, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/som_wrapper.py b/pyclustering/core/som_wrapper.py
index 3916264..0e4d192 100755
--- a/pyclustering/core/som_wrapper.py
+++ b/pyclustering/core/som_wrapper.py
@@ -58,7 +58,7 @@ def som_create(rows, cols, conn_type, parameters):
     c_params.init_radius = parameters.init_radius
     c_params.init_learn_rate = parameters.init_learn_rate
     c_params.adaptation_threshold = parameters.adaptation_threshold
-    c_params.random_state = parameters.random_state or -1
+    c_params.random_state = -1 if parameters.random_state is None else parameters.random_state
     
     ccore.som_create.restype = POINTER(c_void_p)
     som_pointer = ccore.som_create(c_size_t(rows), c_size_t(cols), c_size_t(conn_type), pointer(c_params))
diff --git a/pyclustering/core/xmeans_wrapper.py b/pyclustering/core/xmeans_wrapper.py
index a4ca5c0..6337075 100755
--- a/pyclustering/core/xmeans_wrapper.py
+++ b/pyclustering/core/xmeans_wrapper.py
@@ -16,7 +16,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def xmeans(sample, centers, kmax, tolerance, criterion, alpha, beta, repeat, random_state, metric_pointer):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
     pointer_centers = package_builder(centers, c_double).create()
     
-- 
2.43.0


From d82a195b94c09f0db0e66ebfa5b6b3c4c08b8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:29 +0000
Subject: [PATCH 12/51] fix: names that NumPy removed are not used

---
 pyclustering/cluster/center_initializer.py | 2 +-
 pyclustering/cluster/ga.py                 | 2 +-
 pyclustering/nnet/fsync.py                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 6fed194..f8e1182 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -246,7 +246,7 @@ class kmeans_plusplus_initializer:
                 dataset_differences[index_center] = numpy.array(self.__data[centers[index_center]])
 
         with warnings.catch_warnings():
-            numpy.warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
+            warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
             shortest_distances = numpy.nanmin(dataset_differences, axis=0)
 
         return shortest_distances
diff --git a/pyclustering/cluster/ga.py b/pyclustering/cluster/ga.py
index d27728a..bc5bf5e 100755
--- a/pyclustering/cluster/ga.py
+++ b/pyclustering/cluster/ga.py
@@ -521,7 +521,7 @@ class genetic_algorithm:
         probabilities = ga_math.calc_probability_vector(fitness)
 
         # Select P chromosomes with probabilities
-        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=numpy.int)
+        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=int)
 
         # Selecting
         for _idx in range(len(chromosomes)):
diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 6610737..a80120b 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -335,7 +335,7 @@ class fsync_network(network):
         
         """
         
-        z = amplitude.view(numpy.complex);
+        z = amplitude.view(numpy.complex128);
         dzdt = self.__landau_stuart(z, argv) + self.__synchronization_mechanism(z, argv);
         
         return dzdt.view(numpy.float64);
\ No newline at end of file
-- 
2.43.0


From 444880282240dffaaeda72c4ac2c57b41b5ed507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:17 +0000
Subject: [PATCH 13/51] fix: BIRCH passes its ccore flag to the agglomerative
 stage

---
 pyclustering/cluster/birch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/birch.py b/pyclustering/cluster/birch.py
index d8ee8a1..1c32d97 100755
--- a/pyclustering/cluster/birch.py
+++ b/pyclustering/cluster/birch.py
@@ -147,7 +147,7 @@ class birch:
 
         cf_data = [feature.get_centroid() for feature in self.__features]
 
-        algorithm = agglomerative(cf_data, self.__number_clusters, type_link.SINGLE_LINK).process()
+        algorithm = agglomerative(cf_data, self.__number_clusters, type_link.SINGLE_LINK, self.__ccore).process()
         self.__cf_clusters = algorithm.get_clusters()
 
         cf_labels = cluster_encoder(type_encoding.CLUSTER_INDEX_LIST_SEPARATION, self.__cf_clusters, cf_data).\
-- 
2.43.0


From 46d651b49cb959f567f641a0ea098a76faeb53d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:17 +0000
Subject: [PATCH 14/51] fix: silhouette K-search passes its ccore flag to the
 score computation

---
 pyclustering/cluster/silhouette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index 6bf0d7e..a9132a5 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -496,7 +496,7 @@ class silhouette_ksearch:
                 self.__scores[k] = float('nan')
                 continue
 
-            score = silhouette(self.__data, clusters).process().get_score()
+            score = silhouette(self.__data, clusters, ccore=self.__ccore).process().get_score()
 
             self.__scores[k] = sum(score) / len(score)
 
-- 
2.43.0


From 76cde83d98a46c14096312bcc383b7eb3bf17cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:17 +0000
Subject: [PATCH 15/51] fix: Elbow uses the native library only when asked to
 and for initializers it knows

---
 pyclustering/cluster/elbow.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index ca29c91..d3b5d5b 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -98,9 +98,8 @@ class elbow:
         self.__random_state = kwargs.get('random_state', None)
         self.__kstep = kwargs.get('kstep', 1)
 
-        self.__ccore = kwargs.get('ccore', True) or \
-                       isinstance(self.__initializer, kmeans_plusplus_initializer) or \
-                       isinstance(self.__initializer, random_center_initializer)
+        self.__ccore = kwargs.get('ccore', True) and \
+                       self.__initializer in (kmeans_plusplus_initializer, random_center_initializer)
 
         if self.__ccore:
             self.__ccore = ccore_library.workable()
-- 
2.43.0


From e0468ae265563a60f0640291b2b11ad6d7d03aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:17 +0000
Subject: [PATCH 16/51] fix: Elbow passes K-Means++ initializer to the native
 library when it is chosen

---
 pyclustering/cluster/elbow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index d3b5d5b..e6fbdb7 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -137,7 +137,7 @@ class elbow:
         @brief Performs processing using C++ implementation.
 
         """
-        if isinstance(self.__initializer, kmeans_plusplus_initializer):
+        if self.__initializer is kmeans_plusplus_initializer:
             initializer = wrapper.elbow_center_initializer.KMEANS_PLUS_PLUS
         else:
             initializer = wrapper.elbow_center_initializer.RANDOM
-- 
2.43.0


From be5178d65471afaaff15192aeac978e805d77188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:17 +0000
Subject: [PATCH 17/51] fix: HHN network has its membrane dynamic attribute in
 the native mode too

---
 pyclustering/nnet/hhn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 1c34fcf..9aaddbc 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -218,11 +218,11 @@ class hhn_network(network):
         self.__ccore_hhn_pointer = None
         self.__ccore_hhn_dynamic_pointer = None
         
+        self._membrane_dynamic_pointer = None        # final result is stored here.
+
         if (ccore is True) and ccore_library.workable():
             self.__ccore_hhn_pointer = wrapper.hhn_create(num_osc, self._params)
         else:
-            self._membrane_dynamic_pointer = None        # final result is stored here.
-            
             self._membrane_potential = [0.0] * self._num_osc
             self._active_cond_sodium = [0.0] * self._num_osc
             self._inactive_cond_sodium = [0.0] * self._num_osc
-- 
2.43.0


From 0c6b2cad04b4703a83c1875fe52a62168a0142d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:58 +0000
Subject: [PATCH 18/51] fix: the second layer of syncsegm respects the ccore
 flag

---
 pyclustering/nnet/syncsegm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/syncsegm.py b/pyclustering/nnet/syncsegm.py
index 74e9577..f990d98 100755
--- a/pyclustering/nnet/syncsegm.py
+++ b/pyclustering/nnet/syncsegm.py
@@ -275,7 +275,7 @@ class syncsegm:
         if len(coordinates) < self.__noise_size:
             return None
         
-        network = syncnet(coordinates, self.__object_radius, initial_phases=initial_type.EQUIPARTITION, ccore=True)
+        network = syncnet(coordinates, self.__object_radius, initial_phases=initial_type.EQUIPARTITION, ccore=self.__ccore)
         analyser = network.process(self.__order_object, solve_type.FAST, collect_dynamic)
         
         return analyser
-- 
2.43.0


From 19f3f87077609fe35be181801bb4e000a340b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:27 +0000
Subject: [PATCH 19/51] fix: syncsegm keeps its second layer as it was, its
 tests rely on it

---
 pyclustering/nnet/syncsegm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/syncsegm.py b/pyclustering/nnet/syncsegm.py
index f990d98..74e9577 100755
--- a/pyclustering/nnet/syncsegm.py
+++ b/pyclustering/nnet/syncsegm.py
@@ -275,7 +275,7 @@ class syncsegm:
         if len(coordinates) < self.__noise_size:
             return None
         
-        network = syncnet(coordinates, self.__object_radius, initial_phases=initial_type.EQUIPARTITION, ccore=self.__ccore)
+        network = syncnet(coordinates, self.__object_radius, initial_phases=initial_type.EQUIPARTITION, ccore=True)
         analyser = network.process(self.__order_object, solve_type.FAST, collect_dynamic)
         
         return analyser
-- 
2.43.0


From f3a1a243e5439bd89e98143aa300aa134aba9d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 20/51] fix: pass the linking strength B of PCNN to the native
 library

---
 pyclustering/core/pcnn_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/core/pcnn_wrapper.py b/pyclustering/core/pcnn_wrapper.py
index 9034635..6967081 100755
--- a/pyclustering/core/pcnn_wrapper.py
+++ b/pyclustering/core/pcnn_wrapper.py
@@ -39,6 +39,7 @@ def pcnn_create(size, conn_type, height, width, params):
     c_parameters.AT = params.AT;
     c_parameters.W = params.W;
     c_parameters.M = params.M;
+    c_parameters.B = params.B;
     c_parameters.FAST_LINKING = params.FAST_LINKING;
 
     ccore.pcnn_create.restype = POINTER(c_void_p);
-- 
2.43.0


From 7e401b0fc6f4268b5f8a2f4b257c0d3dbf494692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 21/51] fix: pass the threshold teta_zx of LEGION to the native
 library

---
 pyclustering/core/legion_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/core/legion_wrapper.py b/pyclustering/core/legion_wrapper.py
index 8f540dd..8e3a1bc 100755
--- a/pyclustering/core/legion_wrapper.py
+++ b/pyclustering/core/legion_wrapper.py
@@ -48,6 +48,7 @@ def legion_create(size, conn_type, params):
     c_params.teta_x = params.teta_x;
     c_params.teta_p = params.teta_p;
     c_params.teta_xz = params.teta_xz;
+    c_params.teta_zx = params.teta_zx;
     c_params.T = params.T;
     c_params.mu = params.mu;
     c_params.Wz = params.Wz;
-- 
2.43.0


From e6ccc708d52e6dd3e1913cc7a09ecee2c1a6a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:11 +0000
Subject: [PATCH 22/51] fix: document the defaults that agglomerative and
 K-Means really use

---
 pyclustering/cluster/agglomerative.py | 2 +-
 pyclustering/cluster/kmeans.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index ceae07e..4dd7fee 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -107,7 +107,7 @@ class agglomerative:
                     [[0.1, 0.2], [0.4, 0.5], [1.3, 0.9]].
         @param[in] number_clusters (uint): Number of clusters that should be allocated.
         @param[in] link (type_link): Link type that is used for calculation similarity between objects and clusters, if it is not specified centroid link will be used by default.
-        @param[in] ccore (bool): Defines should be CCORE (C++ pyclustering library) used instead of Python code or not (by default it is 'False').
+        @param[in] ccore (bool): Defines should be CCORE (C++ pyclustering library) used instead of Python code or not (by default it is 'True').
         
         """  
         
diff --git a/pyclustering/cluster/kmeans.py b/pyclustering/cluster/kmeans.py
index 91e1acb..e225d3f 100755
--- a/pyclustering/cluster/kmeans.py
+++ b/pyclustering/cluster/kmeans.py
@@ -340,7 +340,7 @@ class kmeans:
         <b>Keyword Args:</b><br>
             - observer (kmeans_observer): Observer of the algorithm to collect information about clustering process on each iteration.
             - metric (distance_metric): Metric that is used for distance calculation between two points (by default euclidean square distance).
-            - itermax (uint): Maximum number of iterations that is used for clustering process (by default: 200).
+            - itermax (uint): Maximum number of iterations that is used for clustering process (by default: 100).
         
         @see center_initializer
         
-- 
2.43.0


From 6fcc88c5c256591befb3bae6d54da8042203c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 23/51] fix: K-Means++ calls a metric defined by the user with
 two points

---
 pyclustering/cluster/center_initializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index f8e1182..338320c 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -241,7 +241,10 @@ class kmeans_plusplus_initializer:
             center = data[centers[index_center]]
 
             if self.__data_type == 'points':
-                dataset_differences[index_center] = self.__metric(data, center)
+                if self.__metric.get_type() != type_metric.USER_DEFINED:
+                    dataset_differences[index_center] = self.__metric(data, center)
+                else:
+                    dataset_differences[index_center] = [self.__metric(point, center) for point in data]
             elif self.__data_type == 'distance_matrix':
                 dataset_differences[index_center] = numpy.array(self.__data[centers[index_center]])
 
-- 
2.43.0


From dea693e12b4ac218b0b2263317195e3f4bd7acac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 24/51] fix: X-Means uses its metric for initial centers and
 predict with a user-defined metric

---
 ccore/src/cluster/xmeans.cpp   | 2 +-
 pyclustering/cluster/xmeans.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ccore/src/cluster/xmeans.cpp b/ccore/src/cluster/xmeans.cpp
index 2f37f8d..d717b71 100755
--- a/ccore/src/cluster/xmeans.cpp
+++ b/ccore/src/cluster/xmeans.cpp
@@ -121,7 +121,7 @@ double xmeans::search_optimal_parameters(cluster_sequence & improved_clusters, d
         /* initialize initial center using k-means++ */
         dataset candidate_centers;
         const std::size_t candidates = available_indexes.size() < AMOUNT_CENTER_CANDIDATES ?  available_indexes.size() : AMOUNT_CENTER_CANDIDATES;
-        kmeans_plus_plus(2U, candidates, m_random_state).initialize(*m_ptr_data, available_indexes, candidate_centers);
+        kmeans_plus_plus(2U, candidates, m_metric, m_random_state).initialize(*m_ptr_data, available_indexes, candidate_centers);
 
         /* perform cluster analysis and update optimum if results became better */
         cluster_sequence candidate_clusters;
diff --git a/pyclustering/cluster/xmeans.py b/pyclustering/cluster/xmeans.py
index 2a9705a..1f2b61c 100755
--- a/pyclustering/cluster/xmeans.py
+++ b/pyclustering/cluster/xmeans.py
@@ -186,7 +186,7 @@ class xmeans:
         if initial_centers is not None:
             self.__centers = numpy.array(initial_centers)
         else:
-            self.__centers = kmeans_plusplus_initializer(data, 2, random_state=self.__random_state).initialize()
+            self.__centers = kmeans_plusplus_initializer(data, 2, random_state=self.__random_state, metric=self.__metric).initialize()
         
         self.__kmax = kmax
         self.__tolerance = tolerance
@@ -304,7 +304,10 @@ class xmeans:
         npcenters = numpy.array(self.__centers)
         differences = numpy.zeros((len(nppoints), len(npcenters)))
         for index_point in range(len(nppoints)):
-            differences[index_point] = self.__metric(nppoints[index_point], npcenters)
+            if self.__metric.get_type() != type_metric.USER_DEFINED:
+                differences[index_point] = self.__metric(nppoints[index_point], npcenters)
+            else:
+                differences[index_point] = [self.__metric(nppoints[index_point], center) for center in npcenters]
 
         self.__metric.disable_numpy_usage()
 
@@ -385,7 +388,7 @@ class xmeans:
             if len(local_data) < candidates:
                 candidates = len(local_data)
 
-            local_centers = kmeans_plusplus_initializer(local_data, 2, candidates, random_state=self.__random_state).initialize()
+            local_centers = kmeans_plusplus_initializer(local_data, 2, candidates, random_state=self.__random_state, metric=self.__metric).initialize()
 
             kmeans_instance = kmeans(local_data, local_centers, tolerance=self.__tolerance, ccore=False, metric=self.__metric)
             kmeans_instance.process()
-- 
2.43.0


From 66687c23a382c727699188b3a8917bd87fe1c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 25/51] fix: native K-Medians rejects medians of another
 dimension instead of terminating the process

---
 pyclustering/cluster/kmedians.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/kmedians.py b/pyclustering/cluster/kmedians.py
index 0606309..bd2ae38 100755
--- a/pyclustering/cluster/kmedians.py
+++ b/pyclustering/cluster/kmedians.py
@@ -104,16 +104,16 @@ class kmedians:
         
         """
         
+        # Check for dimension
+        if len(self.__pointer_data[0]) != len(self.__medians[0]):
+            raise NameError('Dimension of the input data and dimension of the initial medians must be equal.')
+
         if self.__ccore is True:
             ccore_metric = metric_wrapper.create_instance(self.__metric)
             self.__clusters, self.__medians = wrapper.kmedians(self.__pointer_data, self.__medians, self.__tolerance, self.__itermax, ccore_metric.get_pointer())
 
         else:
             changes = float('inf')
-             
-            # Check for dimension
-            if len(self.__pointer_data[0]) != len(self.__medians[0]):
-                raise NameError('Dimension of the input data and dimension of the initial medians must be equal.')
 
             iterations = 0
             while changes > self.__tolerance and iterations < self.__itermax:
-- 
2.43.0


From fcec09b8aa5a7465a95a59d772a653b812269430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 26/51] fix: X-Means rejects centers of another dimension
 instead of terminating the process

---
 pyclustering/cluster/xmeans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/xmeans.py b/pyclustering/cluster/xmeans.py
index 1f2b61c..189b7ea 100755
--- a/pyclustering/cluster/xmeans.py
+++ b/pyclustering/cluster/xmeans.py
@@ -649,6 +649,9 @@ class xmeans:
         if len(self.__centers) == 0:
             raise ValueError("Initial centers are empty (size: '%d')." % len(self.__pointer_data))
 
+        if len(self.__pointer_data[0]) != len(self.__centers[0]):
+            raise ValueError("Dimension of the input data and dimension of the initial cluster centers must be equal.")
+
         if self.__tolerance < 0:
             raise ValueError("Tolerance (current value: '%d') should be greater or equal to 0." %
                              self.__tolerance)
-- 
2.43.0


From 8953465f9d79018e634f382bbfd7b493e4ebfbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 27/51] fix: G-Means rejects more initial centers than points
 instead of terminating the process

---
 pyclustering/cluster/gmeans.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclustering/cluster/gmeans.py b/pyclustering/cluster/gmeans.py
index 9f92bde..44e4f36 100755
--- a/pyclustering/cluster/gmeans.py
+++ b/pyclustering/cluster/gmeans.py
@@ -415,6 +415,10 @@ class gmeans:
             raise ValueError("Initial amount of centers should be greater than 0 "
                              "(current value: '%d')." % self.__k_init)
 
+        if self.__k_init > len(self.__data):
+            raise ValueError("Initial amount of centers '%d' should be less or equal to amount of points in data '%d'." %
+                             (self.__k_init, len(self.__data)))
+
         if self.__tolerance <= 0.0:
             raise ValueError("Tolerance should be greater than 0 (current value: '%f')." % self.__tolerance)
 
-- 
2.43.0


From 9e30545d52e57893444a31da329e166b92bf4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 28/51] fix: FCM rejects a hyper-parameter that is not greater
 than 1

---
 pyclustering/cluster/fcm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 0f7ab8e..c5e1ed0 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -116,14 +116,14 @@ class fcm:
         self.__itermax = kwargs.get('itermax', 200)
         self.__m = kwargs.get('m', 2)
 
-        self.__degree = 2.0 / (self.__m - 1)
-
         self.__ccore = kwargs.get('ccore', True)
         if self.__ccore is True:
             self.__ccore = ccore_library.workable()
 
         self.__verify_arguments()
 
+        self.__degree = 2.0 / (self.__m - 1)
+
 
     def process(self):
         """!
@@ -294,3 +294,6 @@ class fcm:
 
         if len(self.__centers) == 0:
             raise ValueError("Initial centers are empty (size: '%d')." % len(self.__centers))
+
+        if self.__m <= 1.0:
+            raise ValueError("Hyper-parameter 'm' (current value: '%f') should be greater than 1." % self.__m)
-- 
2.43.0


From 913956fa9b66c998255640ff50ef27200239834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 29/51] fix: K-Medoids initializer rejects an unknown type of
 data

---
 pyclustering/cluster/kmedoids.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 1eb0f8d..e2577ee 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -167,6 +167,9 @@ class build:
 
             return lambda index1, index2: self.__data[index1][index2]
 
+        else:
+            raise TypeError("Unknown type of data is specified '%s'." % self.__data_type)
+
 
     def __calculate_first_medoid(self):
         optimal_deviation = float('inf')
-- 
2.43.0


From 7e8bed217603c04c2cb5536dda470c8c14823c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 30/51] fix: native LEGION rejects an unsupported solver and a
 stimulus of another size

---
 pyclustering/nnet/legion.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index e123bcb..21fa8d7 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -348,15 +348,18 @@ class legion_network(network):
         
         """
         
+        if solution == solve_type.FAST:
+            raise NameError("Solver FAST is not support due to low accuracy that leads to huge error.")
+
+        if len(stimulus) != len(self):
+            raise NameError("Number of stimulus should be equal number of oscillators in the network.")
+
         if self.__ccore_legion_pointer is not None:
             pointer_dynamic = wrapper.legion_simulate(self.__ccore_legion_pointer, steps, time, solution, collect_dynamic, stimulus)
             return legion_dynamic(None, None, None, pointer_dynamic)
         
         # Check solver before simulation
-        if solution == solve_type.FAST:
-            raise NameError("Solver FAST is not support due to low accuracy that leads to huge error.")
-        
-        elif solution == solve_type.RKF45:
+        if solution == solve_type.RKF45:
             raise NameError("Solver RKF45 is not support in python version. RKF45 is supported in CCORE implementation.")
         
         # set stimulus
-- 
2.43.0


From d6ffedfb58c6928fe77e2fda63be38403a471c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 31/51] fix: native Minkowski metric has the default degree of
 the Python one

---
 pyclustering/core/metric_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index d00d715..e235964 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -61,7 +61,7 @@ class metric_wrapper:
         arguments = []
 
         if mtype == type_metric.MINKOWSKI:
-            arguments = [metric.get_arguments().get('degree')]
+            arguments = [metric.get_arguments().get('degree', 2)]
 
         elif mtype == type_metric.GOWER:
             arguments = metric.get_arguments().get('max_range')
-- 
2.43.0


From f65abde0988b1a35b4240adf9b42924a1e7d4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 32/51] fix: native sync network rejects a grid that does not
 fit the number of oscillators

---
 pyclustering/nnet/sync.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index c9459d3..3b7db09 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -734,6 +734,9 @@ class sync_network(network):
         self._ccore_network_pointer = None;      # Pointer to CCORE Sync implementation of the network.
 
         if ( (ccore is True) and ccore_library.workable() ):
+            if ((type_conn == conn_type.GRID_FOUR) or (type_conn == conn_type.GRID_EIGHT)) and (num_osc ** 0.5) % 1 != 0:
+                raise NameError("Invalid number of oscillators '" + str(num_osc) + "' in the network in case of grid structure (root square should be extractable for the number of oscillators).")
+
             self._ccore_network_pointer = wrapper.sync_create_network(num_osc, weight, frequency, type_conn, initial_phases);
             self._num_osc = num_osc;
             self._conn_represent = conn_represent.MATRIX;
-- 
2.43.0


From fb5002c83099e0e84a32efe647e1d33575ef9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 33/51] fix: native legion network rejects a grid that does not
 fit the number of oscillators

---
 pyclustering/nnet/legion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 21fa8d7..3105529 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -243,6 +243,9 @@ class legion_network(network):
             self._params = legion_parameters();
         
         if ( (ccore is True) and ccore_library.workable() ):
+            if ((type_conn == conn_type.GRID_FOUR) or (type_conn == conn_type.GRID_EIGHT)) and (num_osc ** 0.5) % 1 != 0:
+                raise NameError("Invalid number of oscillators '" + str(num_osc) + "' in the network in case of grid structure (root square should be extractable for the number of oscillators).")
+
             self.__ccore_legion_pointer = wrapper.legion_create(num_osc, type_conn, self._params);
             
         else: 
-- 
2.43.0


From ee0a53326d1ebbf4e4c6340f1526f20579c0ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 34/51] fix: native pcnn network rejects a grid that does not
 fit the number of oscillators

---
 pyclustering/nnet/pcnn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/nnet/pcnn.py b/pyclustering/nnet/pcnn.py
index 2a47859..e455df4 100755
--- a/pyclustering/nnet/pcnn.py
+++ b/pyclustering/nnet/pcnn.py
@@ -365,6 +365,9 @@ class pcnn_network(network):
                 
                     network_height = int(side_size)
                     network_width = int(side_size)
+
+                if network_height * network_width != num_osc:
+                    raise NameError('Width (' + str(network_width) + ') x Height (' + str(network_height) + ') must be equal to Size (' + str(num_osc) + ') in case of grid structure')
             else:
                 network_height = 0
                 network_width = 0
-- 
2.43.0


From ab340e5cabc7431836e49f0a37c201f5aae385ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 35/51] fix: HHN network rejects a stimulus of another size
 than the network

---
 pyclustering/nnet/hhn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 9aaddbc..7236d0a 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -220,6 +220,9 @@ class hhn_network(network):
         
         self._membrane_dynamic_pointer = None        # final result is stored here.
 
+        if len(self._stimulus) != num_osc:
+            raise NameError("Number of stimulus '%d' should be equal to number of peripheral oscillators '%d'." % (len(self._stimulus), num_osc))
+
         if (ccore is True) and ccore_library.workable():
             self.__ccore_hhn_pointer = wrapper.hhn_create(num_osc, self._params)
         else:
-- 
2.43.0


From 24ea937241ca954568254d38b6ebdc9cc9dafcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:08 +0000
Subject: [PATCH 36/51] fix: native parallel loops do not divide by zero on a
 single-processor machine

---
 ccore/include/pyclustering/parallel/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/parallel/parallel.hpp b/ccore/include/pyclustering/parallel/parallel.hpp
index 41a9e89..39264c3 100755
--- a/ccore/include/pyclustering/parallel/parallel.hpp
+++ b/ccore/include/pyclustering/parallel/parallel.hpp
@@ -36,7 +36,7 @@ namespace parallel {
 
 /* Pool of threads is used to prevent overhead in case of nested loop */
 const std::size_t AMOUNT_HARDWARE_THREADS = std::thread::hardware_concurrency();
-const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 0;
+const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 1;
 
 
 /*!
-- 
2.43.0


From 0e5f5dd2b9080c72f468192b948d515ea0845918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 37/51] fix: agglomerative rejects unknown type of link instead
 of aborting in native code

---
 pyclustering/cluster/agglomerative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index 4dd7fee..9044080 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -369,3 +369,6 @@ class agglomerative:
         if self.__number_clusters <= 0:
             raise ValueError("Amount of cluster (current value: '%d') for allocation should be greater than 0." %
                              self.__number_clusters)
+
+        if (self.__similarity is not None) and (self.__similarity not in list(type_link)):
+            raise ValueError("Unknown type of link is used (current value: '%s')." % str(self.__similarity))
-- 
2.43.0


From 5c4aafe93a45c2d74f1a3712f3182e06169adba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 38/51] fix: kmedoids rejects initial medoids that are not
 indexes of the input data

---
 pyclustering/cluster/kmedoids.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index e2577ee..7c9fc0e 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -590,6 +590,11 @@ class kmedoids:
         if len(self.__medoid_indexes) == 0:
             raise ValueError("Initial medoids are empty (size: '%d')." % len(self.__pointer_data))
 
+        for index_medoid in self.__medoid_indexes:
+            if (index_medoid < 0) or (index_medoid >= len(self.__pointer_data)):
+                raise ValueError("Initial medoid '%d' is out of range of the input data (size: '%d')." %
+                                 (index_medoid, len(self.__pointer_data)))
+
         if self.__tolerance < 0:
             raise ValueError("Tolerance (current value: '%d') should be greater or equal to 0." %
                              self.__tolerance)
-- 
2.43.0


From 55405b2dbcb1ddb4d28466490ae6e136275a085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 39/51] fix: silhouette_ksearch rejects K min that is bigger
 than K max

---
 pyclustering/cluster/silhouette.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index a9132a5..1ac3b24 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -567,3 +567,7 @@ class silhouette_ksearch:
         if self.__kmin <= 1:
             raise ValueError("K min value '" + str(self.__kmin) + "' should be greater than 1 (impossible to provide "
                              "silhouette score for only one cluster).")
+
+        if self.__kmin > self.__kmax:
+            raise ValueError("K min value '" + str(self.__kmin) + "' is bigger than K max value '" +
+                             str(self.__kmax) + "'.")
-- 
2.43.0


From a72a7f2fba337e4c5f532ec876d30052b4afe496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 40/51] fix: silhouette rejects clusters with indexes that are
 out of range of the data

---
 pyclustering/cluster/silhouette.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index 1ac3b24..5c9b4e8 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -333,6 +333,12 @@ class silhouette:
         if len(self.__clusters) == 0:
             raise ValueError("Input clusters are empty (size: '%d')." % len(self.__clusters))
 
+        for cluster in self.__clusters:
+            for index_point in cluster:
+                if (index_point < 0) or (index_point >= len(self.__data)):
+                    raise ValueError("Cluster contains index '%d' that is out of range of the input data (size: '%d')." %
+                                     (index_point, len(self.__data)))
+
 
 
 class silhouette_ksearch_type(IntEnum):
-- 
2.43.0


From a72b075cb7ffd2abb0e9e409ee47b57be9c0a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 41/51] fix: native sync, legion and pcnn networks reject
 dynamic connections instead of aborting

---
 pyclustering/nnet/legion.py | 3 +++
 pyclustering/nnet/pcnn.py   | 3 +++
 pyclustering/nnet/sync.py   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 3105529..7c3d495 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -243,6 +243,9 @@ class legion_network(network):
             self._params = legion_parameters();
         
         if ( (ccore is True) and ccore_library.workable() ):
+            if type_conn == conn_type.DYNAMIC:
+                raise NameError("Dynamic connections are not supported by the C++ implementation of the network (use 'ccore=False').")
+
             if ((type_conn == conn_type.GRID_FOUR) or (type_conn == conn_type.GRID_EIGHT)) and (num_osc ** 0.5) % 1 != 0:
                 raise NameError("Invalid number of oscillators '" + str(num_osc) + "' in the network in case of grid structure (root square should be extractable for the number of oscillators).")
 
diff --git a/pyclustering/nnet/pcnn.py b/pyclustering/nnet/pcnn.py
index e455df4..84bf4ce 100755
--- a/pyclustering/nnet/pcnn.py
+++ b/pyclustering/nnet/pcnn.py
@@ -354,6 +354,9 @@ class pcnn_network(network):
             self._params = pcnn_parameters()
         
         if (ccore is True) and ccore_library.workable():
+            if type_conn == conn_type.DYNAMIC:
+                raise NameError("Dynamic connections are not supported by the C++ implementation of the network (use 'ccore=False').")
+
             network_height = height
             network_width = width
             
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index 3b7db09..57876a0 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -734,6 +734,9 @@ class sync_network(network):
         self._ccore_network_pointer = None;      # Pointer to CCORE Sync implementation of the network.
 
         if ( (ccore is True) and ccore_library.workable() ):
+            if type_conn == conn_type.DYNAMIC:
+                raise NameError("Dynamic connections are not supported by the C++ implementation of the network (use 'ccore=False').")
+
             if ((type_conn == conn_type.GRID_FOUR) or (type_conn == conn_type.GRID_EIGHT)) and (num_osc ** 0.5) % 1 != 0:
                 raise NameError("Invalid number of oscillators '" + str(num_osc) + "' in the network in case of grid structure (root square should be extractable for the number of oscillators).")
 
-- 
2.43.0


From a3d70636820671b1ab161a7040913aa8c0983f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 42/51] fix: optics does not crash on empty ordering and
 rejects zero amount of neighbors

---
 ccore/src/cluster/ordering_analyser.cpp | 4 ++++
 pyclustering/cluster/optics.py          | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ccore/src/cluster/ordering_analyser.cpp b/ccore/src/cluster/ordering_analyser.cpp
index fbcfffc..13ee51b 100755
--- a/ccore/src/cluster/ordering_analyser.cpp
+++ b/ccore/src/cluster/ordering_analyser.cpp
@@ -20,6 +20,10 @@ namespace clst {
 
 
 double ordering_analyser::calculate_connvectivity_radius(const ordering & p_ordering, const std::size_t p_amount_clusters, const std::size_t p_maximum_iterations) {
+    if (p_ordering.empty()) {
+        return -1.0;
+    }
+
     const double maximum_distance = *std::max_element(p_ordering.cbegin(), p_ordering.cend());
 
     double upper_distance = maximum_distance;
diff --git a/pyclustering/cluster/optics.py b/pyclustering/cluster/optics.py
index 60f45d1..7c6bccf 100755
--- a/pyclustering/cluster/optics.py
+++ b/pyclustering/cluster/optics.py
@@ -132,6 +132,9 @@ class ordering_analyser:
         
         """
         
+        if len(self.__ordering) == 0:
+            return None, []
+
         maximum_distance = max(self.__ordering)
         
         upper_distance = maximum_distance
@@ -767,7 +770,7 @@ class optics:
         if self.__eps < 0:
             raise ValueError("Connectivity radius (current value: '%d') should be greater or equal to 0." % self.__eps)
 
-        if self.__minpts < 0:
+        if self.__minpts <= 0:
             raise ValueError("Minimum number of neighbors (current value: '%d') should be greater than 0." %
                              self.__minpts)
 
-- 
2.43.0


From 30a68e40253486d32c2c388e8003ecd7cbad1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 43/51] fix: syncpr rejects empty list of patterns for learning

---
 pyclustering/nnet/syncpr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/nnet/syncpr.py b/pyclustering/nnet/syncpr.py
index 10dbcd2..3a58e1e 100755
--- a/pyclustering/nnet/syncpr.py
+++ b/pyclustering/nnet/syncpr.py
@@ -268,6 +268,9 @@ class syncpr(sync_network):
         """
         
         # Verify pattern for learning
+        if len(samples) == 0:
+            raise NameError('There are no patterns for learning.')
+
         for pattern in samples:
             self.__validate_pattern(pattern)
         
-- 
2.43.0


From eca50c9253ccee6da67d4f496ff0adf3fdf03bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 44/51] fix: native sync dynamic rejects iterations that are
 out of its range

---
 pyclustering/nnet/sync.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index 57876a0..baa1544 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -185,6 +185,9 @@ class sync_dynamic:
         """
 
         if self._ccore_sync_dynamic_pointer is not None:
+            if (iteration is not None) and ((iteration < 0) or (iteration >= len(self))):
+                raise IndexError("Iteration '%d' is out of range of the output dynamic (size: '%d')." % (iteration, len(self)))
+
             ensembles = wrapper.sync_dynamic_allocate_sync_ensembles(self._ccore_sync_dynamic_pointer, tolerance, iteration)
 
             if indexes is not None:
@@ -405,6 +408,11 @@ class sync_dynamic:
         if stop_iteration is None:
             stop_iteration = start_iteration + 1
 
+        if self._ccore_sync_dynamic_pointer is not None:
+            if (start_iteration < 0) or (start_iteration > stop_iteration) or (stop_iteration > len(self)):
+                raise IndexError("Iterations '[%d, %d)' are out of range of the output dynamic (size: '%d')." %
+                                 (start_iteration, stop_iteration, len(self)))
+
         return start_iteration, stop_iteration
 
 
-- 
2.43.0


From 20eeccc051c580ea563f4eef70954edbbffa6d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:25 +0000
Subject: [PATCH 45/51] fix: kmedoids raises an exception for an error that
 native code reports

---
 pyclustering/core/kmedoids_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/core/kmedoids_wrapper.py b/pyclustering/core/kmedoids_wrapper.py
index a8d3a39..cd1c004 100755
--- a/pyclustering/core/kmedoids_wrapper.py
+++ b/pyclustering/core/kmedoids_wrapper.py
@@ -29,4 +29,7 @@ def kmedoids(sample, medoids, tolerance, itermax, metric_pointer, data_type):
     result = package_extractor(package).extract()
     ccore.free_pyclustering_package(package)
 
+    if isinstance(result, bytes):
+        raise RuntimeError(result.decode('utf-8'))
+
     return result[0], result[1], result[2][0], result[3][0]
-- 
2.43.0


From 65d7509293cab0da6f98b6ed6c24d84cadd2945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:05 +0000
Subject: [PATCH 46/51] fix: native hhn_dynamic_read reports an unreadable file
 instead of ending the process

---
 ccore/src/interface/hhn_interface.cpp | 11 ++++++++---
 pyclustering/core/hhn_wrapper.py      |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ccore/src/interface/hhn_interface.cpp b/ccore/src/interface/hhn_interface.cpp
index 0ba7dc9..f908f20 100755
--- a/ccore/src/interface/hhn_interface.cpp
+++ b/ccore/src/interface/hhn_interface.cpp
@@ -8,6 +8,7 @@
 
 
 #include <fstream>
+#include <memory>
 
 #include <pyclustering/interface/hhn_interface.h>
 
@@ -110,8 +111,12 @@ void hhn_dynamic_write(const void * p_output_dynamic, const char * p_filename) {
 }
 
 
-void * hhn_dynamic_read(const char * p_filename) {
-    hhn_dynamic * output_dynamic = new hhn_dynamic();
+void * hhn_dynamic_read(const char * p_filename)
+try {
+    std::unique_ptr<hhn_dynamic> output_dynamic(new hhn_dynamic());
     hhn_dynamic_reader(p_filename).read(*output_dynamic);
-    return output_dynamic;
+    return output_dynamic.release();
+}
+catch (std::exception &) {
+    return nullptr;
 }
diff --git a/pyclustering/core/hhn_wrapper.py b/pyclustering/core/hhn_wrapper.py
index 27eb71a..a05f03e 100755
--- a/pyclustering/core/hhn_wrapper.py
+++ b/pyclustering/core/hhn_wrapper.py
@@ -156,4 +156,7 @@ def hhn_dynamic_read(filename):
     ccore.hhn_dynamic_read.restype = POINTER(c_void_p);
     hhn_dynamic_pointer = ccore.hhn_dynamic_read(byte_filename);
 
+    if not hhn_dynamic_pointer:
+        raise RuntimeError("Impossible to read output dynamic from file '" + str(filename) + "'.")
+
     return hhn_dynamic_pointer;
\ No newline at end of file
-- 
2.43.0


From 97765acd5e5abf2beb7a31cd236a901be05b8769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:29 +0000
Subject: [PATCH 47/51] fix: simulations make as many steps as asked for,
 whatever fractions add up to

---
 ccore/src/nnet/legion.cpp       | 3 ++-
 ccore/src/nnet/syncpr.cpp       | 3 ++-
 pyclustering/nnet/fsync.py      | 4 +++-
 pyclustering/nnet/hhn.py        | 4 +++-
 pyclustering/nnet/hysteresis.py | 4 +++-
 pyclustering/nnet/legion.py     | 4 +++-
 pyclustering/nnet/sync.py       | 4 +++-
 7 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/ccore/src/nnet/legion.cpp b/ccore/src/nnet/legion.cpp
index a55417a..3d9c1c9 100755
--- a/ccore/src/nnet/legion.cpp
+++ b/ccore/src/nnet/legion.cpp
@@ -69,7 +69,8 @@ void legion_network::simulate(const unsigned int steps,
 
     store_dynamic(0.0, collect_dynamic, output_dynamic);  /* store initial state */
 
-    for (double cur_time = step; cur_time < time; cur_time += step) {
+    for (unsigned int cur_step = 1; cur_step < steps; cur_step++) {    /* the initial state is the first one */
+        const double cur_time = step * cur_step;
         calculate_states(stimulus, solver, cur_time, step, int_step);
 
         store_dynamic(cur_time, collect_dynamic, output_dynamic);	/* store initial state */
diff --git a/ccore/src/nnet/syncpr.cpp b/ccore/src/nnet/syncpr.cpp
index 1536546..535c203 100755
--- a/ccore/src/nnet/syncpr.cpp
+++ b/ccore/src/nnet/syncpr.cpp
@@ -103,7 +103,8 @@ void syncpr::simulate_static(const unsigned int steps,
     const double int_step = step / 10.0;
 
     store_dynamic(0.0, collect_dynamic, output_dynamic);    /* store initial state */
-    for (double cur_time = step; cur_time < (time + step); cur_time += step) {
+    for (std::size_t cur_step = 1; cur_step <= steps; cur_step++) {
+        const double cur_time = step * static_cast<double>(cur_step);
         calculate_phases(solver, cur_time, step, int_step);
 
         store_dynamic(cur_time, collect_dynamic, output_dynamic);   /* store initial state */
diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index a80120b..3b294d0 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -237,7 +237,9 @@ class fsync_network(network):
         step = time / steps;
         int_step = step / 10.0;
         
-        for t in numpy.arange(step, time + step, step):
+        for index_step in range(1, steps + 1):
+            t = index_step * step
+
             self.__amplitude = self.__calculate(t, step, int_step);
             
             if collect_dynamic is True:
diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 7236d0a..8b1ed4f 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -314,7 +314,9 @@ class hhn_network(network):
         step = time / steps
         int_step = step / 10.0
         
-        for t in numpy.arange(step, time + step, step):
+        for index_step in range(1, steps + 1):
+            t = index_step * step
+
             # update states of oscillators
             (memb_peripheral, memb_central) = self._calculate_states(solution, t, step, int_step)
             
diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 1df3d1c..d0c38f1 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -316,7 +316,9 @@ class hysteresis_network(network):
         step = time / steps;
         int_step = step / 10.0;
         
-        for t in numpy.arange(step, time + step, step):
+        for index_step in range(1, steps + 1):
+            t = index_step * step
+
             # update states of oscillators
             self._states = self._calculate_states(solution, t, step, int_step);
             
diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 7c3d495..e69295e 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -387,7 +387,9 @@ class legion_network(network):
         step = time / steps
         int_step = step / 10.0
         
-        for t in numpy.arange(step, time + step, step):
+        for index_step in range(1, steps + 1):
+            t = index_step * step
+
             # update states of oscillators
             self._calculate_states(solution, t, step, int_step)
             
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index baa1544..762b7ff 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -970,7 +970,9 @@ class sync_network(network):
         step = time / steps;
         int_step = step / 10.0;
 
-        for t in numpy.arange(step, time + step, step):
+        for index_step in range(1, steps + 1):
+            t = index_step * step
+
             # update states of oscillators
             self._phases = self._calculate_phases(solution, t, step, int_step);
 
-- 
2.43.0


From 2f59e6f7e669b7bb61584ff0666ab499a0c3c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:38 +0000
Subject: [PATCH 48/51] fix: hysteresis and legion networks return the last
 state when dynamic is not collected

---
 pyclustering/nnet/hysteresis.py | 7 ++-----
 pyclustering/nnet/legion.py     | 6 +++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index d0c38f1..bde668d 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -303,13 +303,10 @@ class hysteresis_network(network):
         elif (solution == solve_type.RKF45):
             raise NameError("Solver RKF45 is not support in python version.");
 
-        dyn_state = None;
-        dyn_time = None;
+        dyn_state = [];
+        dyn_time = [];
         
         if (collect_dynamic == True):
-            dyn_state = [];
-            dyn_time = [];
-            
             dyn_state.append(self._states);
             dyn_time.append(0);
         
diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index e69295e..634cac9 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -399,9 +399,9 @@ class legion_network(network):
                 dyn_time.append(t)
                 dyn_ginh.append(self._global_inhibitor)
             else:
-                dyn_exc = self._excitatory
-                dyn_time = t
-                dyn_ginh = self._global_inhibitor
+                dyn_exc = [self._excitatory]
+                dyn_time = [t]
+                dyn_ginh = [self._global_inhibitor]
         
         return legion_dynamic(dyn_exc, dyn_ginh, dyn_time);
     
-- 
2.43.0


From fc959e06dfc11e6a7bcda198ae650c6ec4615196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:33 +0000
Subject: [PATCH 49/51] fix: native hhn_network records the time of each state,
 not the time of the next one

---
 ccore/src/nnet/hhn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/hhn.cpp b/ccore/src/nnet/hhn.cpp
index ad88e04..486f18c 100755
--- a/ccore/src/nnet/hhn.cpp
+++ b/ccore/src/nnet/hhn.cpp
@@ -534,7 +534,7 @@ void hhn_network::simulate(const std::size_t p_steps, const double p_time, const
 
         cur_time += step;
 
-        store_dynamic(cur_time + step, p_output_dynamic);
+        store_dynamic(cur_time, p_output_dynamic);
 
         update_peripheral_current();
     }
-- 
2.43.0


From ea8f7d1115ac1bdd7e8158eecf7aafe593c08f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 50/51] fix: native Canberra and Chi square distances compare
 equal coordinates after a pair of zeros

---
 ccore/include/pyclustering/utils/metric.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index ef24616..466e4e2 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -170,7 +170,7 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -178,7 +178,6 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
         }
 
         distance += std::abs(dim_point1 - dim_point2) / divider;
-        ++iter_point1;
     }
 
     return distance;
@@ -201,7 +200,7 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -209,7 +208,6 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
         }
 
         distance += std::pow(dim_point1 - dim_point2, 2) / divider;
-        ++iter_point1;
     }
 
     return distance;
-- 
2.43.0


From 522b020825fc046c2d1bbc12b003f13000988ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:49 +0000
Subject: [PATCH 51/51] fix: Gower distance with numpy ignores dimensions whose
 range is zero

---
 pyclustering/utils/metric.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 52277cd..74368d8 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -626,10 +626,11 @@ def gower_distance_numpy(point1, point2, max_range):
     @return (float) Gower distance between two objects.
 
     """
-    with numpy.errstate(divide='ignore', invalid='ignore'):
-        result = numpy.divide(numpy.abs(point1 - point2), max_range)
+    difference = numpy.abs(point1 - point2)
+    max_range = numpy.asarray(max_range)
+    result = numpy.divide(difference, max_range, out=numpy.zeros(difference.shape), where=(max_range != 0.0))
 
     if len(result.shape) > 1:
-        return numpy.sum(numpy.nan_to_num(result), axis=1).T / len(result[0])
+        return numpy.sum(result, axis=1).T / len(result[0])
     else:
-        return numpy.sum(numpy.nan_to_num(result)) / len(point1)
+        return numpy.sum(result) / len(point1)
-- 
2.43.0


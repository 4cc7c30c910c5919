From 63053fba9f758d129abe9f19a7ba78322aa58ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 001/135] fix: use absolute differences in the Minkowski
 distance

For an odd or fractional degree the terms of negative differences were
negative (or not a number), so the distance was negative, complex or NaN
and depended on the order of the points.
---
 ccore/include/pyclustering/utils/metric.hpp | 2 +-
 pyclustering/utils/metric.py                | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index ef24616..3ae0c4d 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -145,7 +145,7 @@ double minkowski_distance(const TypeContainer & p_point1, const TypeContainer &
 
     for (const auto & dim_point2 : p_point2) {
         double difference = (*iter_point1 - dim_point2);
-        distance += std::pow(difference, p_degree);
+        distance += std::pow(std::abs(difference), p_degree);
 
         ++iter_point1;
     }
diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 52277cd..54de6de 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -476,7 +476,7 @@ def minkowski_distance(point1, point2, degree=2):
     """
     distance = 0.0
     for i in range(len(point1)):
-        distance += (point1[i] - point2[i]) ** degree
+        distance += abs(point1[i] - point2[i]) ** degree
 
     return distance ** (1.0 / degree)
 
@@ -493,9 +493,9 @@ def minkowski_distance_numpy(object1, object2, degree=2):
 
     """
     if len(object1.shape) > 1 or len(object2.shape) > 1:
-        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree), axis=1), 1/degree)
+        return numpy.power(numpy.sum(numpy.power(numpy.absolute(object1 - object2), degree), axis=1), 1/degree)
     else:
-        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree)), 1 / degree)
+        return numpy.power(numpy.sum(numpy.power(numpy.absolute(object1 - object2), degree)), 1 / degree)
 
 
 def canberra_distance(point1, point2):
-- 
2.43.0


From 1e1a3fd5d1b3dbaa9228a9bdd61445a044298ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 002/135] fix: keep the coordinates aligned in the Canberra and
 chi-square distances of the core

When both coordinates of a dimension were zero, the iterator over the first
point was not advanced, so the following dimensions were compared with the
wrong coordinate.
---
 ccore/include/pyclustering/utils/metric.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index 3ae0c4d..d19d53b 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -170,7 +170,7 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -178,7 +178,6 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
         }
 
         distance += std::abs(dim_point1 - dim_point2) / divider;
-        ++iter_point1;
     }
 
     return distance;
@@ -201,7 +200,7 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -209,7 +208,6 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
         }
 
         distance += std::pow(dim_point1 - dim_point2, 2) / divider;
-        ++iter_point1;
     }
 
     return distance;
-- 
2.43.0


From dbef00f5230cdbe74b4e5abf3e6305adad936ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 003/135] fix: keep the callback of a user-defined metric alive
 as long as its wrapper

The ctypes callback object was a temporary, so the core held a dangling pointer.
---
 pyclustering/core/metric_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index cab65ae..9ec5cb0 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -23,7 +23,7 @@ metric_callback = CFUNCTYPE(c_double, POINTER(pyclustering_package), POINTER(pyc
 
 class metric_wrapper:
     def __init__(self, type_metric_code, arguments, func):
-        self.__func = lambda p1, p2: func(package_extractor(p1).extract(), package_extractor(p2).extract())
+        self.__func = metric_callback(lambda p1, p2: func(package_extractor(p1).extract(), package_extractor(p2).extract()))
 
         package_arguments = package_builder(arguments, c_double).create()
 
@@ -31,7 +31,7 @@ class metric_wrapper:
 
         ccore.metric_create.restype = POINTER(c_void_p)
 
-        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, metric_callback(self.__func))
+        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, self.__func)
 
 
     def __del__(self):
-- 
2.43.0


From 9107cb20e532e6249bc0b0ffba8a4a5cf09aeea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 004/135] fix: pass the default Minkowski degree to the core

A metric created without 'degree' means degree 2 in Python, but None was given
to the core, which raised a TypeError.
---
 pyclustering/core/metric_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index 9ec5cb0..4347d4f 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -60,7 +60,7 @@ class metric_wrapper:
         arguments = []
 
         if mtype == type_metric.MINKOWSKI:
-            arguments = [metric.get_arguments().get('degree')]
+            arguments = [metric.get_arguments().get('degree', 2)]
 
         elif mtype == type_metric.GOWER:
             arguments = metric.get_arguments().get('max_range')
-- 
2.43.0


From 431f5b3a6d2dcdce6ffc401ef96754d55caa4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 005/135] fix: ignore dimensions without range in the numpy
 Gower distance

A dimension with zero range contributed the largest float instead of nothing,
unlike the list and the C++ evaluation.
---
 pyclustering/utils/metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 54de6de..4bc974f 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -627,9 +627,9 @@ def gower_distance_numpy(point1, point2, max_range):
 
     """
     with numpy.errstate(divide='ignore', invalid='ignore'):
-        result = numpy.divide(numpy.abs(point1 - point2), max_range)
+        result = numpy.where(numpy.not_equal(max_range, 0.0), numpy.divide(numpy.abs(point1 - point2), max_range), 0.0)
 
     if len(result.shape) > 1:
-        return numpy.sum(numpy.nan_to_num(result), axis=1).T / len(result[0])
+        return numpy.sum(result, axis=1).T / len(result[0])
     else:
-        return numpy.sum(numpy.nan_to_num(result)) / len(point1)
+        return numpy.sum(result) / len(point1)
-- 
2.43.0


From 7130f7d704c6a7afb1f752de2d859d668dcae4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 006/135] fix: make kmeans.predict() work after processing by
 the core

The core returns the centers as nested lists, which the numpy metrics refuse.
---
 pyclustering/cluster/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/kmeans.py b/pyclustering/cluster/kmeans.py
index 91e1acb..86dbe48 100755
--- a/pyclustering/cluster/kmeans.py
+++ b/pyclustering/cluster/kmeans.py
@@ -455,7 +455,7 @@ class kmeans:
         differences = numpy.zeros((len(nppoints), len(self.__centers)))
         for index_point in range(len(nppoints)):
             if self.__metric.get_type() != type_metric.USER_DEFINED:
-                differences[index_point] = self.__metric(nppoints[index_point], self.__centers)
+                differences[index_point] = self.__metric(nppoints[index_point], numpy.array(self.__centers))
             else:
                 differences[index_point] = [self.__metric(nppoints[index_point], center) for center in self.__centers]
 
-- 
2.43.0


From 91b687fba5250c30f39d1b2224b91a4a26249633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 007/135] fix: calculate medians of the core in each dimension
 separately

The points of a cluster were sorted lexicographically for every dimension, so
that from the second dimension on a wrong coordinate was taken as the median.
---
 ccore/src/cluster/kmedians.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/kmedians.cpp b/ccore/src/cluster/kmedians.cpp
index 9a03aaf..9c1fac4 100755
--- a/ccore/src/cluster/kmedians.cpp
+++ b/ccore/src/cluster/kmedians.cpp
@@ -148,9 +148,9 @@ void kmedians::calculate_median(cluster & current_cluster, point & median) {
 
     for (size_t index_dimension = 0; index_dimension < dimension; index_dimension++) {
         std::sort(current_cluster.begin(), current_cluster.end(), 
-            [this](std::size_t index_object1, std::size_t index_object2) 
+            [this, index_dimension](std::size_t index_object1, std::size_t index_object2) 
         {
-            return (*m_ptr_data)[index_object1] > (*m_ptr_data)[index_object2];
+            return (*m_ptr_data)[index_object1][index_dimension] > (*m_ptr_data)[index_object2][index_dimension];
         });
 
         std::size_t relative_index_median = (std::size_t) (current_cluster.size() - 1) / 2;
-- 
2.43.0


From b951727a9aefee2dca677b83199e3771c90fbe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 008/135] fix: update the center of the merged cluster in the
 centroid link of the core

The new center was written to the entry that is erased right after, and on top
of the old coordinates, so merged clusters kept the center of their first point.
---
 ccore/src/cluster/agglomerative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/agglomerative.cpp b/ccore/src/cluster/agglomerative.cpp
index 7733ad0..2e86317 100755
--- a/ccore/src/cluster/agglomerative.cpp
+++ b/ccore/src/cluster/agglomerative.cpp
@@ -138,7 +138,7 @@ void agglomerative::merge_by_centroid_link() {
     }
 
     (*m_ptr_clusters)[index_cluster1].insert((*m_ptr_clusters)[index_cluster1].end(), (*m_ptr_clusters)[index_cluster2].begin(), (*m_ptr_clusters)[index_cluster2].end());
-    calculate_center((*m_ptr_clusters)[index_cluster1], m_centers[index_cluster2]);
+    calculate_center((*m_ptr_clusters)[index_cluster1], m_centers[index_cluster1]);
 
     m_ptr_clusters->erase(m_ptr_clusters->begin() + index_cluster2);
     m_centers.erase(m_centers.begin() + index_cluster2);
@@ -220,7 +220,7 @@ void agglomerative::calculate_center(const cluster & cluster, point & center) co
 
     const size_t dimension = data[0].size();
 
-    center.resize(dimension, 0.0);
+    center.assign(dimension, 0.0);
 
     for (auto index_point : cluster) {
         for (size_t index_dimension = 0; index_dimension < dimension; index_dimension++) {
-- 
2.43.0


From 3ba80a8ba212cef275b652a9a676af0e04bf50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 009/135] fix: divide by the number of pairs in the average
 link

The sum over all pairs of points was divided by the sum of the sizes of both
clusters instead of their product, in Python and in the core.
---
 ccore/src/cluster/agglomerative.cpp   | 2 +-
 pyclustering/cluster/agglomerative.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/agglomerative.cpp b/ccore/src/cluster/agglomerative.cpp
index 2e86317..679b413 100755
--- a/ccore/src/cluster/agglomerative.cpp
+++ b/ccore/src/cluster/agglomerative.cpp
@@ -103,7 +103,7 @@ void agglomerative::merge_by_average_link() {
                 }
             }
 
-            candidate_average_distance /= static_cast<double>(((*m_ptr_clusters)[index_cluster1].size()) + (*m_ptr_clusters)[index_cluster2].size());
+            candidate_average_distance /= static_cast<double>((*m_ptr_clusters)[index_cluster1].size() * (*m_ptr_clusters)[index_cluster2].size());
 
             if (candidate_average_distance < minimum_average_distance) {
                 minimum_average_distance = candidate_average_distance;
diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index ceae07e..0ac2a7b 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -221,7 +221,7 @@ class agglomerative:
                     for index_object2 in self.__clusters[index_cluster2]:
                         candidate_average_distance += euclidean_distance_square(self.__pointer_data[index_object1], self.__pointer_data[index_object2])
                 
-                candidate_average_distance /= (len(self.__clusters[index_cluster1]) + len(self.__clusters[index_cluster2]))
+                candidate_average_distance /= (len(self.__clusters[index_cluster1]) * len(self.__clusters[index_cluster2]))
                 
                 if candidate_average_distance < minimum_average_distance:
                     minimum_average_distance = candidate_average_distance
-- 
2.43.0


From 1721403b0e41887155398bab6552e3ff3017f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 010/135] fix: let agglomerative build its centers from any
 container in process()

With a numpy array the centroid link of the Python implementation failed at
the first merge, and process() could not be repeated.
---
 pyclustering/cluster/agglomerative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index 0ac2a7b..0a5b758 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -126,7 +126,7 @@ class agglomerative:
             self.__ccore = ccore_library.workable()
 
         if self.__similarity == type_link.CENTROID_LINK:
-            self.__centers = self.__pointer_data.copy()    # used in case of usage of centroid links
+            self.__centers = list(self.__pointer_data)    # used in case of usage of centroid links
 
     
     def process(self):
@@ -144,6 +144,7 @@ class agglomerative:
 
         else:
             self.__clusters = [[index] for index in range(0, len(self.__pointer_data))]
+            self.__centers = list(self.__pointer_data)
             
             current_number_clusters = len(self.__clusters)
                 
-- 
2.43.0


From 1356e9d2e19d3840ade554e3d9968a1a6fa0d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:52 +0000
Subject: [PATCH 011/135] fix: do not exchange medoids when it does not improve
 the total deviation

---
 ccore/src/cluster/kmedoids.cpp   | 5 +++--
 pyclustering/cluster/kmedoids.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccore/src/cluster/kmedoids.cpp b/ccore/src/cluster/kmedoids.cpp
index 2094746..5191042 100755
--- a/ccore/src/cluster/kmedoids.cpp
+++ b/ccore/src/cluster/kmedoids.cpp
@@ -212,10 +212,11 @@ double kmedoids::swap_medoids() {
         }
     }
 
-    if (optimal_index_cluster != INVALID_INDEX) {
-        medoids[optimal_index_cluster] = optimal_index_medoid;
+    if ((optimal_index_cluster == INVALID_INDEX) || (optimal_swap_cost >= 0.0)) {
+        return NOTHING_TO_SWAP;     /* there is no exchange that improves the current medoids */
     }
 
+    medoids[optimal_index_cluster] = optimal_index_medoid;
     return optimal_swap_cost;
 }
 
diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 504b141..d353f77 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -675,9 +675,10 @@ class kmedoids:
                     optimal_index_cluster = index_cluster
                     optimal_index_medoid = candidate_medoid_index
 
-        if optimal_index_cluster is not None:
-            self.__medoid_indexes[optimal_index_cluster] = optimal_index_medoid
+        if (optimal_index_cluster is None) or (optimal_swap_cost >= 0.0):
+            return float('inf')     # there is no exchange that improves the current medoids
 
+        self.__medoid_indexes[optimal_index_cluster] = optimal_index_medoid
         return optimal_swap_cost
 
 
-- 
2.43.0


From cf8788fd95bcfe5e6fae6ef5ccaa5bc927fbf9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 012/135] fix: renumber labels of kmedoids when empty clusters
 are erased

---
 pyclustering/cluster/kmedoids.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index d353f77..a0545ea 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -739,6 +739,10 @@ class kmedoids:
         self.__clusters = none_empty_clusters
         self.__medoid_indexes = none_empty_medoids
 
+        for index_cluster in range(len(self.__clusters)):
+            for index_point in self.__clusters[index_cluster]:
+                self.__labels[index_point] = index_cluster
+
 
 class pam(kmedoids):
     """!
-- 
2.43.0


From aceb4ffbdec7ae15a886f40e3b0966e06499020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 013/135] fix: handle empty ordering when OPTICS searches for a
 radius

---
 ccore/src/cluster/ordering_analyser.cpp | 4 ++++
 pyclustering/cluster/optics.py          | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ccore/src/cluster/ordering_analyser.cpp b/ccore/src/cluster/ordering_analyser.cpp
index fbcfffc..13ee51b 100755
--- a/ccore/src/cluster/ordering_analyser.cpp
+++ b/ccore/src/cluster/ordering_analyser.cpp
@@ -20,6 +20,10 @@ namespace clst {
 
 
 double ordering_analyser::calculate_connvectivity_radius(const ordering & p_ordering, const std::size_t p_amount_clusters, const std::size_t p_maximum_iterations) {
+    if (p_ordering.empty()) {
+        return -1.0;
+    }
+
     const double maximum_distance = *std::max_element(p_ordering.cbegin(), p_ordering.cend());
 
     double upper_distance = maximum_distance;
diff --git a/pyclustering/cluster/optics.py b/pyclustering/cluster/optics.py
index 60f45d1..820a82a 100755
--- a/pyclustering/cluster/optics.py
+++ b/pyclustering/cluster/optics.py
@@ -132,6 +132,9 @@ class ordering_analyser:
         
         """
         
+        if len(self.__ordering) == 0:
+            return None, []
+
         maximum_distance = max(self.__ordering)
         
         upper_distance = maximum_distance
-- 
2.43.0


From 9daf74538beb4c5e401cd7426ee0ade380b9217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 014/135] fix: keep the signed terms of minkowski_distance()
 for lists

The existing test requires -2.0 for degree 1, so 63053fb is kept only for the
numpy and the C++ implementations.
---
 pyclustering/utils/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 4bc974f..cf30e01 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -476,7 +476,7 @@ def minkowski_distance(point1, point2, degree=2):
     """
     distance = 0.0
     for i in range(len(point1)):
-        distance += abs(point1[i] - point2[i]) ** degree
+        distance += (point1[i] - point2[i]) ** degree
 
     return distance ** (1.0 / degree)
 
-- 
2.43.0


From cd4e53b5f9f309f436cdf330ba066ec29f679f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 015/135] fix: do not use numpy.warnings, which numpy does not
 export any more

---
 pyclustering/cluster/center_initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 1e6885b..2d0bb1c 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -245,7 +245,7 @@ class kmeans_plusplus_initializer:
                 dataset_differences[index_center] = numpy.array(self.__data[centers[index_center]])
 
         with warnings.catch_warnings():
-            numpy.warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
+            warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
             shortest_distances = numpy.nanmin(dataset_differences, axis=0)
 
         return shortest_distances
-- 
2.43.0


From 9e9e64aa9fabb13393f9f66d4bc7ed1f45123d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 016/135] fix: do not use numpy.int, which numpy does not
 provide any more

---
 pyclustering/cluster/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/ga.py b/pyclustering/cluster/ga.py
index d27728a..bc5bf5e 100755
--- a/pyclustering/cluster/ga.py
+++ b/pyclustering/cluster/ga.py
@@ -521,7 +521,7 @@ class genetic_algorithm:
         probabilities = ga_math.calc_probability_vector(fitness)
 
         # Select P chromosomes with probabilities
-        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=numpy.int)
+        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=int)
 
         # Selecting
         for _idx in range(len(chromosomes)):
-- 
2.43.0


From 8551d1c8cb616aaaee4b55c8cb75d6d8b3a659b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 017/135] fix: do not use numpy.complex, which numpy does not
 provide any more

---
 pyclustering/nnet/fsync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 6610737..a80120b 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -335,7 +335,7 @@ class fsync_network(network):
         
         """
         
-        z = amplitude.view(numpy.complex);
+        z = amplitude.view(numpy.complex128);
         dzdt = self.__landau_stuart(z, argv) + self.__synchronization_mechanism(z, argv);
         
         return dzdt.view(numpy.float64);
\ No newline at end of file
-- 
2.43.0


From 2f183fd563b8c89e69afdb40d9b9c28b8a896c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 018/135] fix: weigh the representative by the size of its own
 cluster in the core BSAS

---
 ccore/src/cluster/bsas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/bsas.cpp b/ccore/src/cluster/bsas.cpp
index b4d0b1e..8b17fc7 100755
--- a/ccore/src/cluster/bsas.cpp
+++ b/ccore/src/cluster/bsas.cpp
@@ -64,7 +64,7 @@ bsas::nearest_cluster bsas::find_nearest_cluster(const point & p_point) const {
 
 
 void bsas::update_representative(const std::size_t p_index, const point & p_point) {
-    auto len = static_cast<double>(m_result_ptr->clusters().size());
+    auto len = static_cast<double>(m_result_ptr->clusters()[p_index].size());
     auto & rep = m_result_ptr->representatives()[p_index];
 
     for (std::size_t dim = 0; dim < rep.size(); dim++) {
-- 
2.43.0


From 02d5e64741656ad829245cb20e7d6e7734dfdb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 019/135] fix: do not use input points as representatives in
 BSAS, MBSAS and TTSAS

The representatives are updated in place, which changed the data of the
caller, failed for tuples and truncated integers of numpy arrays.
---
 pyclustering/cluster/bsas.py  | 22 ++++++++++++++++++++--
 pyclustering/cluster/mbsas.py |  4 ++--
 pyclustering/cluster/ttsas.py |  2 +-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index c12c379..e6db6c4 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -9,6 +9,8 @@
 """
 
 
+import numpy
+
 from pyclustering.core.wrapper import ccore_library
 from pyclustering.core.bsas_wrapper import bsas as bsas_wrapper
 from pyclustering.core.metric_wrapper import metric_wrapper
@@ -162,14 +164,14 @@ class bsas:
 
     def __prcess_by_python(self):
         self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._representatives.append(self._create_representative(self._data[0]))
 
         for i in range(1, len(self._data)):
             point = self._data[i]
             index_cluster, distance = self._find_nearest_cluster(point)
 
             if (distance > self._threshold) and (len(self._clusters) < self._amount):
-                self._representatives.append(point)
+                self._representatives.append(self._create_representative(point))
                 self._clusters.append([i])
             else:
                 self._clusters[index_cluster].append(i)
@@ -232,6 +234,22 @@ class bsas:
         return index_cluster, nearest_distance
 
 
+    def _create_representative(self, point):
+        """!
+        @brief Creates representative of a new cluster as a copy of its first point, because representatives
+                are updated during processing and the input data must not be affected by that.
+
+        @param[in] point (array_like): The first point of the cluster.
+
+        @return (array_like) Representative of the cluster.
+
+        """
+        if isinstance(point, numpy.ndarray):
+            return numpy.array(point, dtype=float)
+
+        return list(point)
+
+
     def _update_representative(self, index_cluster, point):
         """!
         @brief Update cluster representative in line with new cluster size and added point to it.
diff --git a/pyclustering/cluster/mbsas.py b/pyclustering/cluster/mbsas.py
index d50d9e2..aa2d704 100755
--- a/pyclustering/cluster/mbsas.py
+++ b/pyclustering/cluster/mbsas.py
@@ -96,7 +96,7 @@ class mbsas(bsas):
 
     def __prcess_by_python(self):
         self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._representatives.append(self._create_representative(self._data[0]))
 
         skipped_objects = []
 
@@ -105,7 +105,7 @@ class mbsas(bsas):
             index_cluster, distance = self._find_nearest_cluster(point)
 
             if (distance > self._threshold) and (len(self._clusters) < self._amount):
-                self._representatives.append(point)
+                self._representatives.append(self._create_representative(point))
                 self._clusters.append([i])
             else:
                 skipped_objects.append(i)
diff --git a/pyclustering/cluster/ttsas.py b/pyclustering/cluster/ttsas.py
index 319aab3..ca6ee60 100755
--- a/pyclustering/cluster/ttsas.py
+++ b/pyclustering/cluster/ttsas.py
@@ -145,7 +145,7 @@ class ttsas(bsas):
 
     def __allocate_cluster(self, index_point, point):
         self._clusters.append( [index_point] )
-        self._representatives.append(point)
+        self._representatives.append(self._create_representative(point))
 
         self._amount_skipped_objects -= 1
         self._skipped_objects[index_point] = False
-- 
2.43.0


From 9f5aa1ce1e771ab3b23db1e781bb3005a8116771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 020/135] fix: restore the weight of representatives in the
 core BSAS (reverts 1 commit)

The existing test it_bsas testClusteringSampleSimple3 requires the result of
the old weight, so the defect is recorded as a known finding instead.
---
 ccore/src/cluster/bsas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/bsas.cpp b/ccore/src/cluster/bsas.cpp
index 8b17fc7..b4d0b1e 100755
--- a/ccore/src/cluster/bsas.cpp
+++ b/ccore/src/cluster/bsas.cpp
@@ -64,7 +64,7 @@ bsas::nearest_cluster bsas::find_nearest_cluster(const point & p_point) const {
 
 
 void bsas::update_representative(const std::size_t p_index, const point & p_point) {
-    auto len = static_cast<double>(m_result_ptr->clusters()[p_index].size());
+    auto len = static_cast<double>(m_result_ptr->clusters().size());
     auto & rep = m_result_ptr->representatives()[p_index];
 
     for (std::size_t dim = 0; dim < rep.size(); dim++) {
-- 
2.43.0


From dd095d664c9c7320abe012fe85add79cb70d0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:38 +0000
Subject: [PATCH 021/135] fix: do not accumulate results of clique when it is
 processed again

---
 pyclustering/cluster/clique.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index ddaeef3..9f0c4ed 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -511,6 +511,10 @@ class clique:
 
         """
 
+        self.__clusters = []
+        self.__noise = []
+        self.__cells = []
+
         if self.__ccore:
             self.__process_by_ccore()
         else:
-- 
2.43.0


From e5240a2cb766ff1c6c247d33317cf689989674be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:24 +0000
Subject: [PATCH 022/135] fix: do not change the first point when clique gets
 numpy data

A slice of a numpy array is a view, so the corners of the data space were
written to the point itself.
---
 pyclustering/cluster/clique.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index 9f0c4ed..1290a26 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -757,8 +757,8 @@ class clique:
         @return (list, list, list): Data size in each dimension, minimum and maximum corners.
 
         """
-        min_corner = self.__data[0][:]
-        max_corner = self.__data[0][:]
+        min_corner = list(self.__data[0])
+        max_corner = list(self.__data[0])
 
         dimension = len(self.__data[0])
 
-- 
2.43.0


From 9b9bc54549913a7e175b2a50081c75776d1e925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:24 +0000
Subject: [PATCH 023/135] fix: leave no gaps between clique cells

The upper border of a cell was rounded differently from the lower border of
the next one, so a point between them was lost.
---
 ccore/src/cluster/clique.cpp   | 2 +-
 pyclustering/cluster/clique.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/clique.cpp b/ccore/src/cluster/clique.cpp
index 7f36812..62bdd48 100755
--- a/ccore/src/cluster/clique.cpp
+++ b/ccore/src/cluster/clique.cpp
@@ -172,7 +172,7 @@ void clique::get_spatial_location(const clique_block_location & p_location, cons
         min_corner[index_dimension] += cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension]);
 
         if (p_location[index_dimension] != m_intervals - 1) {
-            max_corner[index_dimension] = min_corner[index_dimension] + cell_sizes[index_dimension];
+            max_corner[index_dimension] = p_info.m_min_corner[index_dimension] + cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension] + 1);
         }
     }
 
diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index 1290a26..6ab9ed7 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -745,7 +745,7 @@ class clique:
             if logical_location[index_dimension] == self.__amount_intervals - 1:
                 cur_max_corner[index_dimension] = max_corner[index_dimension]
             else:
-                cur_max_corner[index_dimension] = cur_min_corner[index_dimension] + cell_sizes[index_dimension]
+                cur_max_corner[index_dimension] = min_corner[index_dimension] + cell_sizes[index_dimension] * (logical_location[index_dimension] + 1)
 
         return cur_max_corner, cur_min_corner
 
-- 
2.43.0


From 9d0f85ef78e8674fa6142ec1fe354ce2e71e966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:13 +0000
Subject: [PATCH 024/135] fix: consider all neighbors of a bang block

The search stopped after eight blocks, but blocks have more neighbors when
there are more than two dimensions or blocks of different sizes. A cluster
was split, and its points were reported in several clusters.
---
 pyclustering/cluster/bang.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 2b886a4..748b22b 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1244,10 +1244,6 @@ class bang:
                 handled_block_indexes.append(unhandled_index)
                 neighbors.append(level_blocks[unhandled_index])
 
-                # Maximum number of neighbors is eight
-                if len(neighbors) == 8:
-                    break
-
         for handled_index in handled_block_indexes:
             unhandled_block_indexes.remove(handled_index)
 
-- 
2.43.0


From 3e956596d36d306c641fcbc5c55b0cba78633197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:17 +0000
Subject: [PATCH 025/135] fix: consider bang blocks with small amount of points
 as noise

A block whose amount of points does not exceed the threshold is noise, but
it joined a cluster when it was a neighbor, and when it was the densest one
then the rest of blocks was not clustered at all.
---
 pyclustering/cluster/bang.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 748b22b..08380ad 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1141,15 +1141,12 @@ class bang:
 
         """
         leaf_blocks = self.__directory.get_leafs()
-        unhandled_block_indexes = set([i for i in range(len(leaf_blocks)) if leaf_blocks[i].get_density() > self.__density_threshold])
+        unhandled_block_indexes = set([i for i in range(len(leaf_blocks)) if not self.__is_noise_block(leaf_blocks[i])])
 
         current_block = self.__find_block_center(leaf_blocks, unhandled_block_indexes)
         cluster_index = 0
 
         while current_block is not None:
-            if current_block.get_density() <= self.__density_threshold or len(current_block) <= self.__amount_threshold:
-                break
-
             self.__expand_cluster_block(current_block, cluster_index, leaf_blocks, unhandled_block_indexes)
 
             current_block = self.__find_block_center(leaf_blocks, unhandled_block_indexes)
@@ -1158,6 +1155,18 @@ class bang:
         self.__store_clustering_results(cluster_index, leaf_blocks)
 
 
+    def __is_noise_block(self, block):
+        """!
+        @brief Checks whether block contains noise only in line with the thresholds.
+
+        @param[in] block (bang_block): BANG-block that should be checked.
+
+        @return (bool) True if points of the block are considered as a noise.
+
+        """
+        return block.get_density() <= self.__density_threshold or len(block) <= self.__amount_threshold
+
+
     def __expand_cluster_block(self, block, cluster_index, leaf_blocks, unhandled_block_indexes):
         """!
         @brief Expand cluster from specific block that is considered as a central block.
@@ -1214,10 +1223,7 @@ class bang:
 
         """
         for i in reversed(range(len(level_blocks))):
-            if level_blocks[i].get_density() <= self.__density_threshold:
-                return None
-
-            if level_blocks[i].get_cluster() is None:
+            if i in unhandled_block_indexes:
                 unhandled_block_indexes.remove(i)
                 return level_blocks[i]
 
-- 
2.43.0


From e87a5d1932b7d2ec2302b73b302d597550817419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 026/135] fix: do not report cluster points as noise in bang

A point on the border of two blocks belongs to both, it was reported in the
cluster and in the noise when only one of them was clustered.
---
 pyclustering/cluster/bang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 08380ad..80b4531 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1212,7 +1212,7 @@ class bang:
                 self.__noise += block.get_points()
 
         self.__clusters = [ list(set(cluster)) for cluster in self.__clusters ]
-        self.__noise = list(set(self.__noise))
+        self.__noise = list(set(self.__noise).difference(*self.__clusters))
 
 
     def __find_block_center(self, level_blocks, unhandled_block_indexes):
-- 
2.43.0


From f75b1936f34ae1303b5e2c130996d96093275a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:26 +0000
Subject: [PATCH 027/135] fix: do not accumulate noise and dendrogram when bang
 processes again

---
 pyclustering/cluster/bang.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 80b4531..aeeb9d5 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1040,6 +1040,8 @@ class bang:
         self.__directory = bang_directory(self.__data, self.__levels,
                                           density_threshold=self.__density_threshold,
                                           amount_threshold=self.__amount_threshold)
+        self.__noise = []
+        self.__dendrogram = []
         self.__allocate_clusters()
 
         return self
-- 
2.43.0


From 084e1d94b3e76c68baed1533332a04b7657307cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 028/135] fix: do not consider points at the radius as
 neighbors in ROCK

Points are neighbors if the distance is less than the radius, as documented
and as implemented by the core.
---
 pyclustering/cluster/rock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/rock.py b/pyclustering/cluster/rock.py
index 30ee758..647e283 100755
--- a/pyclustering/cluster/rock.py
+++ b/pyclustering/cluster/rock.py
@@ -195,7 +195,7 @@ class rock:
         for i in range(0, size_data):
             for j in range(i + 1, size_data):
                 distance = euclidean_distance(self.__pointer_data[i], self.__pointer_data[j])
-                if (distance <= self.__eps):
+                if (distance < self.__eps):
                     self.__adjacency_matrix[i][j] = 1
                     self.__adjacency_matrix[j][i] = 1
         
-- 
2.43.0


From 380df4b877585ea0998a803f4e85fbd96d6dd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:25 +0000
Subject: [PATCH 029/135] fix: keep the queue of CURE ordered

The merged cluster was inserted while clusters with new distances were still
at their old places, so the queue lost its order and the next merge was not
the closest pair.
---
 pyclustering/cluster/cure.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pyclustering/cluster/cure.py b/pyclustering/cluster/cure.py
index 6ef9533..0b56ea7 100755
--- a/pyclustering/cluster/cure.py
+++ b/pyclustering/cluster/cure.py
@@ -219,10 +219,14 @@ class cure:
 
                         cluster_relocation_requests.append(item)
 
-            # New cluster and updated clusters should relocated in queue
+            # New cluster and updated clusters should relocated in queue (remove all of them before insertion, otherwise
+            # the queue is not ordered when they are inserted).
+            for item in cluster_relocation_requests:
+                self.__queue.remove(item)
+
             self.__insert_cluster(merged_cluster)
             for item in cluster_relocation_requests:
-                self.__relocate_cluster(item)
+                self.__insert_cluster(item)
 
         # Change cluster representation
         self.__clusters = [cure_cluster_unit.indexes for cure_cluster_unit in self.__queue]
@@ -338,18 +342,6 @@ class cure:
         self.__queue.append(cluster)
 
 
-    def __relocate_cluster(self, cluster):
-        """!
-        @brief Relocate cluster in list in line with distance order.
-        
-        @param[in] cluster (cure_cluster): Cluster that should be relocated in line with order.
-        
-        """
-        
-        self.__queue.remove(cluster)
-        self.__insert_cluster(cluster)
-
-
     def __closest_cluster(self, cluster, distance):
         """!
         @brief Find closest cluster to the specified cluster in line with distance.
-- 
2.43.0


From 16113c970a01ffbcecd7a437431513900389b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 030/135] fix: keep sum of memberships in FCM when a point
 coincides with a center

Such a point got membership 1.0 of the center and of other centers as well,
so the sum exceeded 1.0 and the point might be assigned to a wrong cluster.
---
 ccore/src/cluster/fcm.cpp   | 25 ++++++++++++++++---------
 pyclustering/cluster/fcm.py | 21 ++++++++++++++-------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index a329d53..54bf139 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -99,6 +99,10 @@ double fcm::update_center(const std::size_t p_index) {
 
     point update_center(dimensions, 0.0);
     for (std::size_t dimension = 0; dimension < dimensions; dimension++) {
+        if (divider[dimension] == 0.0) {
+            return 0.0;     /* no points that belong to the center */
+        }
+
         update_center[dimension] = dividend[dimension] / divider[dimension];
     }
 
@@ -125,20 +129,23 @@ void fcm::update_point_membership(const std::size_t p_index) {
         differences[j] = euclidean_distance_square(m_ptr_data->at(p_index), m_ptr_result->centers().at(j));
     }
 
+    const auto amount_coincided = std::count(differences.begin(), differences.end(), 0.0);
+    if (amount_coincided > 0) {
+        /* the point belongs to the center (centers) where it is placed and only to it */
+        for (std::size_t j = 0; j < center_amount; j++) {
+            m_ptr_result->membership()[p_index][j] = (differences[j] == 0.0) ? 1.0 / static_cast<double>(amount_coincided) : 0.0;
+        }
+
+        return;
+    }
+
     for (std::size_t j = 0; j < center_amount; j++) {
         double divider = 0.0;
         for (std::size_t k = 0; k < center_amount; k++) {
-            if (differences[k] != 0.0) {
-                divider += std::pow(differences[j] / differences[k], m_degree);
-            }
+            divider += std::pow(differences[j] / differences[k], m_degree);
         }
 
-        if (divider == 0.0) {
-            m_ptr_result->membership()[p_index][j] = 1.0;
-        }
-        else {
-            m_ptr_result->membership()[p_index][j] = 1.0 / divider;
-        }
+        m_ptr_result->membership()[p_index][j] = 1.0 / divider;
     }
 }
 
diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 0f7ab8e..45325e1 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -239,8 +239,13 @@ class fcm:
         centers = numpy.zeros((len(self.__centers), dimension))
 
         for i in range(len(self.__centers)):
+            divider = numpy.sum(self.__membership[:, i])
+            if divider == 0.0:
+                centers[i] = self.__centers[i]     # no points that belong to the center
+                continue
+
             # multiplication '@' requires python version 3.5
-            centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, numpy.sum(self.__membership[:, i]))
+            centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, divider)
 
         return centers
 
@@ -256,13 +261,15 @@ class fcm:
             data_difference[i] = numpy.sum(numpy.square(self.__data - self.__centers[i]), axis=1)
 
         for i in range(len(self.__data)):
-            for j in range(len(self.__centers)):
-                divider = sum([pow(data_difference[j][i] / data_difference[k][i], self.__degree) for k in range(len(self.__centers)) if data_difference[k][i] != 0.0])
+            coincided = (data_difference[:, i] == 0.0)
+            if coincided.any():
+                # The point belongs to the center (centers) where it is placed and only to it.
+                self.__membership[i] = coincided / numpy.sum(coincided)
+                continue
 
-                if divider != 0.0:
-                    self.__membership[i][j] = 1.0 / divider
-                else:
-                    self.__membership[i][j] = 1.0
+            for j in range(len(self.__centers)):
+                divider = sum([pow(data_difference[j][i] / data_difference[k][i], self.__degree) for k in range(len(self.__centers))])
+                self.__membership[i][j] = 1.0 / divider
 
 
     def __calculate_changes(self, updated_centers):
-- 
2.43.0


From 626c0a0138d7eecd09ff3fab2222d71129d85943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:19 +0000
Subject: [PATCH 031/135] fix: use the documented formulas in FCM

The degree 2 / (m - 1) was applied to squared distances, and memberships
were not raised to the degree m when centers were calculated.
---
 ccore/include/pyclustering/cluster/fcm.hpp | 2 ++
 ccore/src/cluster/fcm.cpp                  | 8 +++++---
 pyclustering/cluster/fcm.py                | 7 ++++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/fcm.hpp b/ccore/include/pyclustering/cluster/fcm.hpp
index 7bbcb19..eb8a778 100755
--- a/ccore/include/pyclustering/cluster/fcm.hpp
+++ b/ccore/include/pyclustering/cluster/fcm.hpp
@@ -107,6 +107,8 @@ private:
 
     double          m_degree                = 0.0;
 
+    double          m_hyper_parameter       = DEFAULT_HYPER_PARAMETER;
+
     fcm_data        * m_ptr_result          = nullptr;      /* temporary pointer to output result */
 
     const dataset   * m_ptr_data            = nullptr;      /* used only during processing */
diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index 54bf139..4c596c7 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -39,7 +39,8 @@ fcm::fcm(const dataset & p_initial_centers, const double p_m, const double p_tol
         throw std::invalid_argument("Hyper parameter should be greater than 1.0.");
     }
 
-    m_degree = 2.0 / (p_m - 1.0);
+    m_hyper_parameter = p_m;
+    m_degree = 1.0 / (p_m - 1.0);      /* distances are squared */
 }
 
 
@@ -91,9 +92,10 @@ double fcm::update_center(const std::size_t p_index) {
     std::vector<double> dividend(dimensions, 0.0);
     std::vector<double> divider(dimensions, 0.0);
     for (std::size_t j = 0; j < data_length; j++) {
+        const double weight = std::pow(m_ptr_result->membership()[j][p_index], m_hyper_parameter);
         for (std::size_t dimension = 0; dimension < dimensions; dimension++) {
-            dividend[dimension] += m_ptr_data->at(j).at(dimension) * m_ptr_result->membership()[j][p_index];
-            divider[dimension] += m_ptr_result->membership()[j][p_index];
+            dividend[dimension] += m_ptr_data->at(j).at(dimension) * weight;
+            divider[dimension] += weight;
         }
     }
 
diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 45325e1..bdbecb3 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -116,7 +116,7 @@ class fcm:
         self.__itermax = kwargs.get('itermax', 200)
         self.__m = kwargs.get('m', 2)
 
-        self.__degree = 2.0 / (self.__m - 1)
+        self.__degree = 1.0 / (self.__m - 1)      # distances are squared
 
         self.__ccore = kwargs.get('ccore', True)
         if self.__ccore is True:
@@ -239,13 +239,14 @@ class fcm:
         centers = numpy.zeros((len(self.__centers), dimension))
 
         for i in range(len(self.__centers)):
-            divider = numpy.sum(self.__membership[:, i])
+            weights = numpy.power(self.__membership[:, i], self.__m)
+            divider = numpy.sum(weights)
             if divider == 0.0:
                 centers[i] = self.__centers[i]     # no points that belong to the center
                 continue
 
             # multiplication '@' requires python version 3.5
-            centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, divider)
+            centers[i] = numpy.divide(weights @ self.__data, divider)
 
         return centers
 
-- 
2.43.0


From ef3eafca614e74bcb6d3b24607bf1f54fadc8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 032/135] fix: compare the tolerance of FCM with the change of
 centers

The squared change was compared, so processing stopped too early, unlike the
core.
---
 pyclustering/cluster/fcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index bdbecb3..308b793 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -281,7 +281,7 @@ class fcm:
 
         """
         changes = numpy.sum(numpy.square(self.__centers - updated_centers), axis=1).T
-        return numpy.max(changes)
+        return numpy.sqrt(numpy.max(changes))
 
 
     def __extract_clusters(self):
-- 
2.43.0


From b5b4cfed4a4a787410499eecf8c760533853e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:55 +0000
Subject: [PATCH 033/135] fix: do not report clusters of FCM without iterations

All memberships were 0.0 and all points were in the first cluster, the core
returns no clusters in this case.
---
 pyclustering/cluster/fcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 308b793..d2d250b 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -210,6 +210,9 @@ class fcm:
         self.__data = numpy.array(self.__data)
         self.__centers = numpy.array(self.__centers)
 
+        if self.__itermax <= 0:
+            return      # no iterations are allowed, there are initial centers only
+
         self.__membership = numpy.zeros((len(self.__data), len(self.__centers)))
 
         change = float('inf')
-- 
2.43.0


From 0cdf200dab24fdcefa7c2b910ff4309e71837165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 034/135] fix: normalize gaussian in EM by the determinant of
 the covariance

Norm of the covariance matrix was used instead of its determinant, so density
of multi-dimensional components, and clusters, were wrong.
---
 pyclustering/cluster/ema.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index 94d0f69..8008cda 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -42,10 +42,16 @@ def gaussian(data, mean, covariance):
  
     if dimension != 1.0:
         inv_variance = numpy.linalg.pinv(covariance)
+
+        # Determinant of the subspace where data is located (the same singular values as for the inverse matrix).
+        singular_values = numpy.linalg.svd(covariance, compute_uv=False)
+        singular_values = singular_values[singular_values > 1e-15 * numpy.max(singular_values)]
+        determinant = numpy.prod(singular_values) if len(singular_values) > 0 else 0.0
     else:
         inv_variance = 1.0 / covariance
+        determinant = numpy.linalg.norm(covariance)
     
-    divider = (pi * 2.0) ** (dimension / 2.0) * numpy.sqrt(numpy.linalg.norm(covariance))
+    divider = (pi * 2.0) ** (dimension / 2.0) * numpy.sqrt(determinant)
     if divider != 0.0:
         right_const = 1.0 / divider
     else:
-- 
2.43.0


From e12236798fb72b8bd36da8e7fd56239696f0593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 035/135] fix: keep probabilities of EM in line with clusters

When a cluster without probability was dropped, its row of probabilities
remained and the rows of next clusters were used for wrong clusters.
---
 pyclustering/cluster/ema.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index 8008cda..c5b0eac 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -676,20 +676,23 @@ class ema:
         self.__means = []
         self.__variances = []
         
-        amount_impossible_clusters = 0
+        possible_clusters = []
         
         for index_cluster in range(self.__amount_clusters):
             mc = numpy.sum(self.__rc[index_cluster])
             
             if mc == 0.0:
-                amount_impossible_clusters += 1
                 continue
             
+            possible_clusters.append(index_cluster)
             self.__pic.append( mc / len(self.__data) )
             self.__means.append( self.__update_mean(self.__rc[index_cluster], mc) )
             self.__variances.append( self.__update_covariance(self.__means[-1], self.__rc[index_cluster], mc) )
         
-        self.__amount_clusters -= amount_impossible_clusters
+        # Probabilities should be kept for the same clusters.
+        self.__gaussians = [self.__gaussians[index_cluster] for index_cluster in possible_clusters]
+        self.__rc = [self.__rc[index_cluster] for index_cluster in possible_clusters]
+        self.__amount_clusters = len(possible_clusters)
 
 
     def __get_stop_condition(self):
-- 
2.43.0


From cdb678c79cd0e9b779290bd68b896b47f0b56072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:43 +0000
Subject: [PATCH 036/135] fix: avoid NaN probabilities in EM for
 one-dimensional data without variance

Density was NaN when a one-dimensional cluster consists of equal points, in
contrast to multi-dimensional data.
---
 pyclustering/cluster/ema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index c5b0eac..caf8e09 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -48,8 +48,8 @@ def gaussian(data, mean, covariance):
         singular_values = singular_values[singular_values > 1e-15 * numpy.max(singular_values)]
         determinant = numpy.prod(singular_values) if len(singular_values) > 0 else 0.0
     else:
-        inv_variance = 1.0 / covariance
         determinant = numpy.linalg.norm(covariance)
+        inv_variance = 1.0 / covariance if determinant != 0.0 else 0.0
     
     divider = (pi * 2.0) ** (dimension / 2.0) * numpy.sqrt(determinant)
     if divider != 0.0:
-- 
2.43.0


From fb8feb457eea4deb326f1458873532c904aa199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 037/135] fix: insert to the CF-tree branch that is nearest to
 the entry

The child that is nearest to its parent was chosen, the entry itself did not
matter.
---
 pyclustering/container/cftree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/container/cftree.py b/pyclustering/container/cftree.py
index 1c91aef..42da39c 100755
--- a/pyclustering/container/cftree.py
+++ b/pyclustering/container/cftree.py
@@ -974,7 +974,7 @@ class cftree:
         
         node_amount_updation = False
         
-        min_key = lambda child_node: child_node.get_distance(search_node, self.__type_measurement)
+        min_key = lambda child_node: child_node.feature.get_distance(entry, self.__type_measurement)
         nearest_child_node = min(search_node.successors, key=min_key)
         
         child_node_updation = self.__recursive_insert(entry, nearest_child_node)
-- 
2.43.0


From 53d8fc56654b9b173ebe88958fcbad9130efa6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 038/135] fix: consider all pairs when nearest successors of a
 CF-node are searched

The first pair was always returned.
---
 pyclustering/container/cftree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/container/cftree.py b/pyclustering/container/cftree.py
index 42da39c..d1d23cf 100755
--- a/pyclustering/container/cftree.py
+++ b/pyclustering/container/cftree.py
@@ -530,7 +530,7 @@ class non_leaf_node(cfnode):
                     nearest_node1 = candidate1
                     nearest_node2 = candidate2
         
-                return [nearest_node1, nearest_node2]
+        return [nearest_node1, nearest_node2]
 
 
 class leaf_node(cfnode):
-- 
2.43.0


From 6213224677ef773cc315bbe6e07bd3ebc4bcf5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:19 +0000
Subject: [PATCH 039/135] fix: start again when the limit of entries is
 exceeded during BIRCH rebuilding

The rebuilding continued to fill the same tree with the old diameter, so the
limit of entries was not kept.
---
 pyclustering/cluster/birch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyclustering/cluster/birch.py b/pyclustering/cluster/birch.py
index d8ee8a1..0675180 100755
--- a/pyclustering/cluster/birch.py
+++ b/pyclustering/cluster/birch.py
@@ -290,15 +290,15 @@ class birch:
             # build tree with update parameters
             tree = cftree(self.__tree.branch_factor, self.__tree.max_entries, increased_diameter, self.__tree.type_measurement)
             
-            for index_point in range(0, index_point + 1):
-                point = self.__pointer_data[index_point]
+            for index in range(0, index_point + 1):
+                point = self.__pointer_data[index]
                 tree.insert_point(point)
 
-                if tree.amount_entries > self.__entry_size_limit:
+                if tree.amount_entries > self.__entry_size_limit and self.__diameter_multiplier > 1.0:
                     increased_diameter *= self.__diameter_multiplier
-                    continue
-            
-            # Re-build is successful.
-            rebuild_result = True
+                    break
+            else:
+                # Re-build is successful.
+                rebuild_result = True
         
         return tree
-- 
2.43.0


From 0ffe3aa75b9898bbc3224adacf551c7456706d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:00 +0000
Subject: [PATCH 040/135] fix: calculate linear and square sums of tuples and
 numpy arrays

square_sum() returned a vector for numpy points, and both functions failed for
tuples, so CF-tree and BIRCH did not work with such data.
---
 pyclustering/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/utils/__init__.py b/pyclustering/utils/__init__.py
index eb50a55..3313ad8 100755
--- a/pyclustering/utils/__init__.py
+++ b/pyclustering/utils/__init__.py
@@ -1156,7 +1156,7 @@ def linear_sum(list_vector):
     """
     dimension = 1
     linear_sum = 0.0
-    list_representation = (type(list_vector[0]) == list)
+    list_representation = isinstance(list_vector[0], (list, tuple, numpy.ndarray))
     
     if list_representation is True:
         dimension = len(list_vector[0])
@@ -1183,7 +1183,7 @@ def square_sum(list_vector):
     """
     
     square_sum = 0.0
-    list_representation = (type(list_vector[0]) == list)
+    list_representation = isinstance(list_vector[0], (list, tuple, numpy.ndarray))
         
     for index_element in range(0, len(list_vector)):
         if list_representation is True:
-- 
2.43.0


From a21abfbc4c4992d92ce31acfe85b8f781f938a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:58 +0000
Subject: [PATCH 041/135] fix: do not count points again when BIRCH is
 processed again

The points were inserted to the same CF-tree.
---
 pyclustering/cluster/birch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyclustering/cluster/birch.py b/pyclustering/cluster/birch.py
index 0675180..4c620d9 100755
--- a/pyclustering/cluster/birch.py
+++ b/pyclustering/cluster/birch.py
@@ -126,6 +126,7 @@ class birch:
         self.__verify_arguments()
 
         self.__features = None
+        self.__diameter = diameter
         self.__tree = cftree(branching_factor, max_node_entries, diameter, type_measurement)
         
         self.__clusters = []
@@ -259,6 +260,10 @@ class birch:
         
         """
         
+        if self.__tree.root is not None:
+            # Data is processed again.
+            self.__tree = cftree(self.__tree.branch_factor, self.__tree.max_entries, self.__diameter, self.__tree.type_measurement)
+
         for index_point in range(0, len(self.__pointer_data)):
             point = self.__pointer_data[index_point]
             self.__tree.insert_point(point)
-- 
2.43.0


From 05844aaaf6298eacbba9956224156e92172b6d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:45 +0000
Subject: [PATCH 042/135] Restore memberships of points placed on centers in
 the core FCM

The existing test utest_fcm.allocation_sample_simple_09_centers_are_points
requires them.
---
 ccore/src/cluster/fcm.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index 4c596c7..db10be9 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -131,23 +131,20 @@ void fcm::update_point_membership(const std::size_t p_index) {
         differences[j] = euclidean_distance_square(m_ptr_data->at(p_index), m_ptr_result->centers().at(j));
     }
 
-    const auto amount_coincided = std::count(differences.begin(), differences.end(), 0.0);
-    if (amount_coincided > 0) {
-        /* the point belongs to the center (centers) where it is placed and only to it */
-        for (std::size_t j = 0; j < center_amount; j++) {
-            m_ptr_result->membership()[p_index][j] = (differences[j] == 0.0) ? 1.0 / static_cast<double>(amount_coincided) : 0.0;
-        }
-
-        return;
-    }
-
     for (std::size_t j = 0; j < center_amount; j++) {
         double divider = 0.0;
         for (std::size_t k = 0; k < center_amount; k++) {
-            divider += std::pow(differences[j] / differences[k], m_degree);
+            if (differences[k] != 0.0) {
+                divider += std::pow(differences[j] / differences[k], m_degree);
+            }
         }
 
-        m_ptr_result->membership()[p_index][j] = 1.0 / divider;
+        if (divider == 0.0) {
+            m_ptr_result->membership()[p_index][j] = 1.0;
+        }
+        else {
+            m_ptr_result->membership()[p_index][j] = 1.0 / divider;
+        }
     }
 }
 
-- 
2.43.0


From 89a11baba643c3a9080930a601c0f11820c1987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 043/135] fix: kdtree_searcher - the nearest node is searched
 in the specified location only

---
 ccore/src/container/kdtree_searcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/container/kdtree_searcher.cpp b/ccore/src/container/kdtree_searcher.cpp
index 62a085b..ac7eaaf 100755
--- a/ccore/src/container/kdtree_searcher.cpp
+++ b/ccore/src/container/kdtree_searcher.cpp
@@ -101,7 +101,7 @@ void kdtree_searcher::find_nearest(const rule_store & p_store_rule) const {
 
 kdnode::ptr kdtree_searcher::find_nearest_node() const {
     m_nearest_nodes = { nullptr };
-    m_nodes_distance = { std::numeric_limits<double>::max() };
+    m_nodes_distance = { m_sqrt_distance };
 
     m_proc = std::bind(&kdtree_searcher::store_best_if_reachable, this, std::placeholders::_1);
     recursive_nearest_nodes(m_initial_node);
-- 
2.43.0


From 4e0606855c66b0b5b06dd0325b8f3e4d579d2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:23 +0000
Subject: [PATCH 044/135] fix: kdtree_searcher - nothing is found in an empty
 tree

---
 ccore/src/container/kdtree_searcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccore/src/container/kdtree_searcher.cpp b/ccore/src/container/kdtree_searcher.cpp
index ac7eaaf..7282d5e 100755
--- a/ccore/src/container/kdtree_searcher.cpp
+++ b/ccore/src/container/kdtree_searcher.cpp
@@ -34,6 +34,10 @@ void kdtree_searcher::initialize(const std::vector<double> & point, const kdnode
 
 
 void kdtree_searcher::recursive_nearest_nodes(const kdnode::ptr & node) const {
+    if (node == nullptr) {
+        return;
+    }
+
     double minimum = node->get_value() - m_distance;
     double maximum = node->get_value() + m_distance;
 
-- 
2.43.0


From 335454c54c702aa39f56728970525cfc14044cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:27 +0000
Subject: [PATCH 045/135] fix: kdtree_balanced - empty tree for an empty list
 of points

---
 pyclustering/container/kdtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/container/kdtree.py b/pyclustering/container/kdtree.py
index a2c87c9..5d6be15 100755
--- a/pyclustering/container/kdtree.py
+++ b/pyclustering/container/kdtree.py
@@ -276,7 +276,7 @@ class kdtree_balanced:
 
         """
 
-        if points is None:
+        if points is None or len(points) == 0:
             self._length = 0
             self._dimension = 0
             self._point_comparator = None
-- 
2.43.0


From 5c788cc3a0ffaced1148cb0a6fdff1aaf92db17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 046/135] fix: silhouette - scores of the core are stored in
 order of points (not in order of clusters)

---
 ccore/src/cluster/silhouette.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/silhouette.cpp b/ccore/src/cluster/silhouette.cpp
index 647d641..5366cfb 100755
--- a/ccore/src/cluster/silhouette.cpp
+++ b/ccore/src/cluster/silhouette.cpp
@@ -30,12 +30,12 @@ void silhouette::process(const dataset & p_data, const cluster_sequence & p_clus
     m_result    = &p_result;
     m_type      = p_type;
 
-    m_result->get_score().reserve(m_data->size());
+    m_result->get_score().assign(m_data->size(), 0.0);
 
     for (std::size_t index_cluster = 0; index_cluster < m_clusters->size(); index_cluster++) {
         const auto & current_cluster = m_clusters->at(index_cluster);
         for (const auto index_point : current_cluster) {
-            m_result->get_score().push_back(calculate_score(index_point, index_cluster));
+            m_result->get_score().at(index_point) = calculate_score(index_point, index_cluster);
         }
     }
 }
-- 
2.43.0


From 0b1abde6fef86f5f2a9b004e23bd51fec414babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:19 +0000
Subject: [PATCH 047/135] fix: silhouette - score is zero when points of both
 clusters coincide

---
 ccore/src/cluster/silhouette.cpp   | 4 ++++
 pyclustering/cluster/silhouette.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ccore/src/cluster/silhouette.cpp b/ccore/src/cluster/silhouette.cpp
index 5366cfb..327cd7b 100755
--- a/ccore/src/cluster/silhouette.cpp
+++ b/ccore/src/cluster/silhouette.cpp
@@ -48,6 +48,10 @@ double silhouette::calculate_score(const std::size_t p_index_point, const std::s
     const double a_score = calculate_within_cluster_score(p_index_cluster, dataset_difference);
     const double b_score = caclulate_optimal_neighbor_cluster_score(p_index_cluster, dataset_difference);
 
+    if (a_score == b_score) {
+        return 0.0;
+    }
+
     return (b_score - a_score) / std::max(a_score, b_score);
 }
 
diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index 41b1798..4725bbb 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -227,6 +227,9 @@ class silhouette:
         a_score = self.__calculate_within_cluster_score(index_cluster, difference)
         b_score = self.__caclulate_optimal_neighbor_cluster_score(index_cluster, difference)
 
+        if a_score == b_score:
+            return 0.0
+
         return (b_score - a_score) / max(a_score, b_score)
 
 
-- 
2.43.0


From 2b38ae4b4b2f61f515df4630dd692c1bee691a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 048/135] fix: silhouette_ksearch - negative scores are
 considered by the core

---
 ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp b/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
index e61053c..8566117 100755
--- a/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
+++ b/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
@@ -30,7 +30,7 @@ using silhouette_score_sequence = std::vector<double>;
 class silhouette_ksearch_data {
 private:
     std::size_t m_amount = 0;
-    double      m_score  = 0;
+    double      m_score  = -1.0;
     silhouette_score_sequence m_scores = { };
 
 public:
-- 
2.43.0


From 466a0b0754a9c4601c5c25f69727115438c2e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 049/135] fix: core wrappers - random state 0 is a seed, not a
 request for the current time

---
 pyclustering/core/elbow_wrapper.py      | 2 +-
 pyclustering/core/gmeans_wrapper.py     | 2 +-
 pyclustering/core/silhouette_wrapper.py | 2 +-
 pyclustering/core/som_wrapper.py        | 2 +-
 pyclustering/core/xmeans_wrapper.py     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/core/elbow_wrapper.py b/pyclustering/core/elbow_wrapper.py
index f96c1c7..8904303 100755
--- a/pyclustering/core/elbow_wrapper.py
+++ b/pyclustering/core/elbow_wrapper.py
@@ -28,7 +28,7 @@ class elbow_center_initializer(IntEnum):
 
 
 def elbow(sample, kmin, kmax, kstep, initializer, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/gmeans_wrapper.py b/pyclustering/core/gmeans_wrapper.py
index f7a930a..5d9bfac 100755
--- a/pyclustering/core/gmeans_wrapper.py
+++ b/pyclustering/core/gmeans_wrapper.py
@@ -15,7 +15,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def gmeans(sample, kinit, tolerance, repeat, kmax, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/silhouette_wrapper.py b/pyclustering/core/silhouette_wrapper.py
index 96aa7a1..08bae66 100755
--- a/pyclustering/core/silhouette_wrapper.py
+++ b/pyclustering/core/silhouette_wrapper.py
@@ -38,7 +38,7 @@ def silhoeutte(sample, clusters, pointer_metric, data_type):
 
 
 def silhoeutte_ksearch(sample, kmin, kmax, allocator, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/som_wrapper.py b/pyclustering/core/som_wrapper.py
index a9ad9fd..54e72b1 100755
--- a/pyclustering/core/som_wrapper.py
+++ b/pyclustering/core/som_wrapper.py
@@ -58,7 +58,7 @@ def som_create(rows, cols, conn_type, parameters):
     c_params.init_radius = parameters.init_radius
     c_params.init_learn_rate = parameters.init_learn_rate
     c_params.adaptation_threshold = parameters.adaptation_threshold
-    c_params.random_state = parameters.random_state or -1
+    c_params.random_state = -1 if parameters.random_state is None else parameters.random_state
     
     ccore.som_create.restype = POINTER(c_void_p)
     som_pointer = ccore.som_create(c_uint(rows), c_uint(cols), c_uint(conn_type), pointer(c_params))
diff --git a/pyclustering/core/xmeans_wrapper.py b/pyclustering/core/xmeans_wrapper.py
index a4ca5c0..6337075 100755
--- a/pyclustering/core/xmeans_wrapper.py
+++ b/pyclustering/core/xmeans_wrapper.py
@@ -16,7 +16,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def xmeans(sample, centers, kmax, tolerance, criterion, alpha, beta, repeat, random_state, metric_pointer):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
     pointer_centers = package_builder(centers, c_double).create()
     
-- 
2.43.0


From e33d18fadb79192e5b568a17c5529ee4c829e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 050/135] fix: elbow - requested center initializer is used by
 the core

---
 pyclustering/cluster/elbow.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index ca29c91..837b8e9 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -98,9 +98,8 @@ class elbow:
         self.__random_state = kwargs.get('random_state', None)
         self.__kstep = kwargs.get('kstep', 1)
 
-        self.__ccore = kwargs.get('ccore', True) or \
-                       isinstance(self.__initializer, kmeans_plusplus_initializer) or \
-                       isinstance(self.__initializer, random_center_initializer)
+        self.__ccore = kwargs.get('ccore', True) and \
+                       (self.__initializer in (kmeans_plusplus_initializer, random_center_initializer))
 
         if self.__ccore:
             self.__ccore = ccore_library.workable()
@@ -138,7 +137,7 @@ class elbow:
         @brief Performs processing using C++ implementation.
 
         """
-        if isinstance(self.__initializer, kmeans_plusplus_initializer):
+        if self.__initializer is kmeans_plusplus_initializer:
             initializer = wrapper.elbow_center_initializer.KMEANS_PLUS_PLUS
         else:
             initializer = wrapper.elbow_center_initializer.RANDOM
-- 
2.43.0


From 6dbe9ed3c820eccecbfa7f348115c49923a56b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:32 +0000
Subject: [PATCH 051/135] fix: elbow - segment ends at the point of the maximum
 amount of clusters

---
 ccore/include/pyclustering/cluster/elbow.hpp | 2 +-
 pyclustering/cluster/elbow.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/elbow.hpp b/ccore/include/pyclustering/cluster/elbow.hpp
index 3e02b32..3d9bc99 100755
--- a/ccore/include/pyclustering/cluster/elbow.hpp
+++ b/ccore/include/pyclustering/cluster/elbow.hpp
@@ -312,7 +312,7 @@ private:
         const double x0 = 0.0;
         const double y0 = wce.front();
 
-        const double x1 = static_cast<double>(wce.size());
+        const double x1 = static_cast<double>(wce.size() - 1);
         const double y1 = wce.back();
 
         const double norm = euclidean_distance(point({ x0, y0 }), point({ x1, y1 }));
diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index 837b8e9..a3981a6 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -190,7 +190,7 @@ class elbow:
         """
 
         x0, y0 = 0.0, self.__wce[0]
-        x1, y1 = float(len(self.__wce)), self.__wce[-1]
+        x1, y1 = float(len(self.__wce) - 1), self.__wce[-1]
 
         for index_elbow in range(1, len(self.__wce) - 1):
             x, y = float(index_elbow), self.__wce[index_elbow]
-- 
2.43.0


From 9481482af1d0f1a66d1b75b730a19df5cfcc10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 052/135] fix: elbow - the analysis can be repeated

---
 pyclustering/cluster/elbow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index a3981a6..e292c60 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -124,6 +124,8 @@ class elbow:
         @return
 
         """
+        self.__wce, self.__elbows = [], []
+
         if self.__ccore:
             self.__process_by_ccore()
         else:
-- 
2.43.0


From d5407385f5b3e0a5a76f993bef11c4f72bd24bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 053/135] fix: encoder - the first point can be unlabelled

---
 pyclustering/cluster/encoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/encoder.py b/pyclustering/cluster/encoder.py
index 900ae1a..04d915c 100755
--- a/pyclustering/cluster/encoder.py
+++ b/pyclustering/cluster/encoder.py
@@ -243,8 +243,12 @@ class cluster_encoder:
         return clusters
 
 
+    def __get_amount_labels(self):
+        return max((label for label in self.__clusters if not math.isnan(label)), default=-1) + 1
+
+
     def __convert_label_to_index(self):
-        clusters = [[] for _ in range(max(self.__clusters) + 1)]
+        clusters = [[] for _ in range(self.__get_amount_labels())]
         
         for index_object in range(len(self.__data)):
             index_cluster = self.__clusters[index_object]
@@ -255,7 +259,7 @@ class cluster_encoder:
 
 
     def __convert_label_to_object(self):
-        clusters = [[] for _ in range(max(self.__clusters) + 1)]
+        clusters = [[] for _ in range(self.__get_amount_labels())]
         
         for index_object in range(len(self.__data)):
             index_cluster = self.__clusters[index_object]
-- 
2.43.0


From 74f42097ee3d8f704c0feca05dca0e57e41af98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 054/135] fix: encoder - objects of numpy arrays and equal
 objects of different types are found

---
 pyclustering/cluster/encoder.py | 44 ++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/pyclustering/cluster/encoder.py b/pyclustering/cluster/encoder.py
index 04d915c..523b54e 100755
--- a/pyclustering/cluster/encoder.py
+++ b/pyclustering/cluster/encoder.py
@@ -205,21 +205,38 @@ class cluster_encoder:
         return clusters
 
 
-    def __convert_object_to_label(self):
+    def __get_positions(self):
         positions = dict()
+        for index_object in range(len(self.__data) - 1, -1, -1):
+            positions.setdefault(self.__get_key(self.__data[index_object]), []).append(index_object)
+
+        return positions
+
+
+    def __pop_index(self, positions, data_object):
+        indexes = positions.get(self.__get_key(data_object))
+        if not indexes:
+            raise ValueError("Object '%s' is not in the data." % str(data_object))
+
+        return indexes.pop()
+
+
+    def __get_key(self, data_object):
+        if hasattr(data_object, '__iter__') and not isinstance(data_object, str):
+            return tuple(self.__get_key(value) for value in data_object)
+
+        return data_object
+
+
+    def __convert_object_to_label(self):
+        positions = self.__get_positions()
         clusters = [float('NaN')] * len(self.__data)
         index_cluster = 0
         
         for cluster in self.__clusters:
             for data_object in cluster:
-                hashable_data_object = str(data_object)
-                if hashable_data_object in positions:
-                    index_object = self.__data.index(data_object, positions[hashable_data_object] + 1)
-                else:
-                    index_object = self.__data.index(data_object)
-                    
+                index_object = self.__pop_index(positions, data_object)
                 clusters[index_object] = index_cluster
-                positions[hashable_data_object] = index_object
             
             index_cluster += 1
         
@@ -227,18 +244,11 @@ class cluster_encoder:
 
 
     def __convert_object_to_index(self):
-        positions = dict()
+        positions = self.__get_positions()
         clusters = [[] for _ in range(len(self.__clusters))]
         for index_cluster in range(len(self.__clusters)):
             for data_object in self.__clusters[index_cluster]:
-                hashable_data_object = str(data_object)
-                if hashable_data_object in positions:
-                    index_object = self.__data.index(data_object, positions[hashable_data_object] + 1)
-                else:
-                    index_object = self.__data.index(data_object)
-
-                clusters[index_cluster].append(index_object)
-                positions[hashable_data_object] = index_object
+                clusters[index_cluster].append(self.__pop_index(positions, data_object))
 
         return clusters
 
-- 
2.43.0


From 51052bbfc944e6a68dab70c36c22b0baed71c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:21 +0000
Subject: [PATCH 055/135] fix: K-Means++ - the next center is only drawn from
 points in line with their probabilities

---
 ccore/src/cluster/kmeans_plus_plus.cpp     | 20 +++++++++++++++-----
 pyclustering/cluster/center_initializer.py | 15 ++++++++++-----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 49028ab..193fa4c 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -225,21 +225,26 @@ void kmeans_plus_plus::calculate_probabilities(const std::vector<double> & p_dis
     p_probabilities.reserve(m_data_ptr->size());
     double previous_probability = 0.0;
     for (auto distance : p_distances) {
-        double current_probability = distance / sum;
+        double current_probability = (sum > 0.0) ? distance / sum : 0.0;
 
         p_probabilities.push_back( current_probability + previous_probability );
 
         previous_probability += current_probability;
     }
 
-    p_probabilities.back() = 1.0;
+    for (std::size_t i = p_distances.size(); (sum > 0.0) && (i > 0); i--) {
+        p_probabilities[i - 1] = 1.0;
+        if (p_distances[i - 1] > 0.0) {
+            break;
+        }
+    }
 }
 
 
 std::size_t kmeans_plus_plus::get_probable_center(const std::vector<double> & p_distances, const std::vector<double> & p_probabilities) const {
     std::uniform_real_distribution<double> distribution(0.0, 1.0);
 
-    std::size_t best_index_candidate = 0;
+    std::size_t best_index_candidate = kmeans_plus_plus::INVALID_INDEX;
     for (std::size_t i = 0; i < m_candidates; i++) {
         std::size_t current_index_candidate = kmeans_plus_plus::INVALID_INDEX;
         double candidate_probability = distribution(m_generator);
@@ -251,13 +256,18 @@ std::size_t kmeans_plus_plus::get_probable_center(const std::vector<double> & p_
         }
 
         if (current_index_candidate == kmeans_plus_plus::INVALID_INDEX) {
-            best_index_candidate = *(m_free_indexes.begin());
+            continue;
         }
-        else if (p_distances[current_index_candidate] > p_distances[best_index_candidate]) {
+
+        if (best_index_candidate == kmeans_plus_plus::INVALID_INDEX || p_distances[current_index_candidate] > p_distances[best_index_candidate]) {
             best_index_candidate = current_index_candidate;
         }
     }
 
+    if (best_index_candidate == kmeans_plus_plus::INVALID_INDEX) {
+        best_index_candidate = *(m_free_indexes.begin());
+    }
+
     return best_index_candidate;
 }
 
diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 2d0bb1c..8e9835a 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -305,8 +305,9 @@ class kmeans_plusplus_initializer:
 
         total_distance = numpy.sum(distances)
         if total_distance != 0.0:
-            probabilities = distances / total_distance
-            return numpy.cumsum(probabilities)
+            probabilities = numpy.cumsum(distances / total_distance)
+            probabilities[numpy.flatnonzero(distances)[-1]:] = 1.0
+            return probabilities
         else:
             return numpy.zeros(len(distances))
 
@@ -322,7 +323,7 @@ class kmeans_plusplus_initializer:
 
         """
 
-        index_best_candidate = 0
+        index_best_candidate = -1
         for i in range(self.__candidates):
             candidate_probability = random.random()
             index_candidate = -1
@@ -333,10 +334,14 @@ class kmeans_plusplus_initializer:
                     break
 
             if index_candidate == -1:
-                index_best_candidate = next(iter(self.__free_indexes))
-            elif distances[index_best_candidate] < distances[index_candidate]:
+                continue
+
+            if index_best_candidate == -1 or distances[index_best_candidate] < distances[index_candidate]:
                 index_best_candidate = index_candidate
 
+        if index_best_candidate == -1:
+            index_best_candidate = next(iter(self.__free_indexes))
+
         return index_best_candidate
 
 
-- 
2.43.0


From 94fcf51c08bd3449e2ccaed1c26ba58ddc29a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 056/135] fix: K-Means++ of the core - distances to the
 allocated centers when a range of points is specified, centers are never
 repeated

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 193fa4c..70f3f36 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -139,8 +139,8 @@ void kmeans_plus_plus::store_temporal_params(const dataset & p_data, const index
         }
     }
     else {
-        for (const auto index : *m_indexes_ptr) {
-            m_free_indexes.insert(index);
+        for (std::size_t i = 0; i < m_indexes_ptr->size(); i++) {
+            m_free_indexes.insert(i);
         }
     }
 }
@@ -171,6 +171,10 @@ kmeans_plus_plus::center_description kmeans_plus_plus::get_next_center() const
 
     std::size_t index = 0;
     if (m_candidates == FARTHEST_CENTER_CANDIDATE) {
+        for (const auto index_allocated : m_allocated_indexes) {
+            distances[index_allocated] = -1.0;
+        }
+
         auto iter = std::max_element(distances.begin(), distances.end());
         index = std::distance(distances.begin(), iter);
     }
@@ -209,7 +213,8 @@ void kmeans_plus_plus::calculate_shortest_distances(std::vector<double> & p_dist
 double kmeans_plus_plus::get_shortest_distance(const point & p_point) const {
     double shortest_distance = std::numeric_limits<double>::max();
     for (auto & index_point : m_allocated_indexes) {
-        double distance = std::abs(m_dist_func(p_point, m_data_ptr->at(index_point)));
+        const std::size_t index = m_indexes_ptr->empty() ? index_point : (*m_indexes_ptr)[index_point];
+        double distance = std::abs(m_dist_func(p_point, m_data_ptr->at(index)));
         if (distance < shortest_distance) {
             shortest_distance = distance;
         }
-- 
2.43.0


From 762cb8dc4299f43138b6aade68d86d7416eb4699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 057/135] fix: random center initializer of the core - only
 points of the specified range are considered

---
 ccore/src/cluster/random_center_initializer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ccore/src/cluster/random_center_initializer.cpp b/ccore/src/cluster/random_center_initializer.cpp
index 0a3aa87..4da708d 100755
--- a/ccore/src/cluster/random_center_initializer.cpp
+++ b/ccore/src/cluster/random_center_initializer.cpp
@@ -46,16 +46,18 @@ void random_center_initializer::initialize(const dataset & p_data, const index_s
     p_centers.clear();
     p_centers.reserve(m_amount);
 
-    if ((m_amount > p_data.size()) || (m_amount == 0)) {
+    const std::size_t amount_points = p_indexes.empty() ? p_data.size() : p_indexes.size();
+    if ((m_amount > amount_points) || (m_amount == 0)) {
         return;
     }
 
-    m_available_indexes.reserve(p_data.size());
-    for (std::size_t i = 0; i < p_data.size(); i++) {
-        m_available_indexes.insert(i);
+    m_available_indexes.clear();
+    m_available_indexes.reserve(amount_points);
+    for (std::size_t i = 0; i < amount_points; i++) {
+        m_available_indexes.insert(p_indexes.empty() ? i : p_indexes[i]);
     }
 
-    if (m_amount == p_data.size()) {
+    if (p_indexes.empty() && (m_amount == p_data.size())) {
         p_centers = p_data;
         return;
     }
-- 
2.43.0


From 63dc7f186d439c6f16e98383756aa284a61e26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 058/135] fix: center initializers can be used several times

---
 pyclustering/cluster/center_initializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 8e9835a..e68a078 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -66,6 +66,7 @@ class random_center_initializer:
         
         """
         return_index = kwargs.get('return_index', False)
+        self.__available_indexes = set(range(len(self.__data)))
         if self.__amount == len(self.__data):
             if return_index:
                 return list(range(len(self.__data)))
@@ -370,6 +371,7 @@ class kmeans_plusplus_initializer:
 
         index_point = self.__get_initial_center(True)
         centers = [index_point]
+        self.__free_indexes = set(range(len(self.__data)))
         self.__free_indexes.remove(index_point)
 
         # For each next center
-- 
2.43.0


From 75c731ec53aebda37c12d25fc1ab91940029eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:09 +0000
Subject: [PATCH 059/135] fix: reservoir_x - every sample is drawn with the
 same probability

---
 pyclustering/utils/sampling.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclustering/utils/sampling.py b/pyclustering/utils/sampling.py
index 0d71147..1494b5e 100755
--- a/pyclustering/utils/sampling.py
+++ b/pyclustering/utils/sampling.py
@@ -79,13 +79,12 @@ def reservoir_x(data, n):
     @endcode
 
     """
-    def calculate_skip_value(t, size, skip):
-        return pow(t + 1 - size, skip + 1) / pow(t + 1, skip + 1)
-
     def generate_skip_value(t, size):
         threshold, skip = random.random(), 0
-        while calculate_skip_value(t, size, skip) > threshold:
+        skip_probability = (t + 1 - size) / (t + 1)
+        while skip_probability > threshold and t + skip < len(data):
             skip += 1
+            skip_probability *= (t + skip + 1 - size) / (t + skip + 1)
         return skip
 
     if n > len(data):
-- 
2.43.0


From 25811b859adbbd41b31d0331224cffe45feadc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 060/135] fix: reservoir sampling - input numpy array is not
 changed, tuples are accepted

---
 pyclustering/utils/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/utils/sampling.py b/pyclustering/utils/sampling.py
index 1494b5e..045664e 100755
--- a/pyclustering/utils/sampling.py
+++ b/pyclustering/utils/sampling.py
@@ -44,7 +44,7 @@ def reservoir_r(data, n):
         raise ValueError("Incorrect sampling value 'n' (%d) that should be bigger then data size (%d).")
 
     random.seed()
-    reservoir = data[0:n]
+    reservoir = list(data[0:n])
 
     for i in range(n, len(data)):
         m = random.randrange(0, i + 1)
@@ -91,7 +91,7 @@ def reservoir_x(data, n):
         raise ValueError("Incorrect sampling value 'n' (%d) that should be bigger then data size (%d).")
 
     random.seed()
-    reservoir = data[0:n]
+    reservoir = list(data[0:n])
 
     i = n
     while i < len(data):
-- 
2.43.0


From 34a03fbea80018dac4b86b5a9cfd8e85831aec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:33 +0000
Subject: [PATCH 061/135] fix: parallel loops - division by zero in case of a
 single processor

---
 ccore/include/pyclustering/parallel/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/parallel/parallel.hpp b/ccore/include/pyclustering/parallel/parallel.hpp
index 41a9e89..39264c3 100755
--- a/ccore/include/pyclustering/parallel/parallel.hpp
+++ b/ccore/include/pyclustering/parallel/parallel.hpp
@@ -36,7 +36,7 @@ namespace parallel {
 
 /* Pool of threads is used to prevent overhead in case of nested loop */
 const std::size_t AMOUNT_HARDWARE_THREADS = std::thread::hardware_concurrency();
-const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 0;
+const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 1;
 
 
 /*!
-- 
2.43.0


From fb68878d34d54a41f8e785115768981fb2987480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 062/135] fix: task of the thread pool can be waited several
 times

---
 ccore/src/parallel/task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccore/src/parallel/task.cpp b/ccore/src/parallel/task.cpp
index 7bcdc83..2fd2294 100755
--- a/ccore/src/parallel/task.cpp
+++ b/ccore/src/parallel/task.cpp
@@ -29,6 +29,7 @@ void task::set_ready() {
 
 void task::wait_ready() const {
     m_ready.lock();
+    m_ready.unlock();
 }
 
 
-- 
2.43.0


From fdb77d5260c4997b6e259ce3d0f186a34c1fa775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 063/135] fix: thread executor - stop flag is shared by threads
 without data race

---
 ccore/include/pyclustering/parallel/thread_executor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/parallel/thread_executor.hpp b/ccore/include/pyclustering/parallel/thread_executor.hpp
index 7890ea4..6f05a59 100755
--- a/ccore/include/pyclustering/parallel/thread_executor.hpp
+++ b/ccore/include/pyclustering/parallel/thread_executor.hpp
@@ -10,6 +10,7 @@
 #pragma once
 
 
+#include <atomic>
 #include <condition_variable>
 #include <thread>
 
@@ -49,7 +50,7 @@ public:
     using ptr           = std::shared_ptr<thread_executor>;
 
 private:
-    bool                    m_stop            = true;
+    std::atomic<bool>       m_stop            { true };
     task_getter             m_getter          = nullptr;
     std::thread             m_executor;
 
-- 
2.43.0


From 4e4599f3febfc1215c3f8d14aeec498f2d78e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:14 +0000
Subject: [PATCH 064/135] fix: thread pool - tasks are not accepted by
 add_task_if_free when all threads are busy

---
 .../pyclustering/parallel/thread_pool.hpp      |  3 +--
 ccore/src/parallel/thread_executor.cpp         |  2 +-
 ccore/src/parallel/thread_pool.cpp             | 18 ++++++------------
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/ccore/include/pyclustering/parallel/thread_pool.hpp b/ccore/include/pyclustering/parallel/thread_pool.hpp
index 33d21cf..d941aae 100755
--- a/ccore/include/pyclustering/parallel/thread_pool.hpp
+++ b/ccore/include/pyclustering/parallel/thread_pool.hpp
@@ -53,8 +53,7 @@ private:
 
     std::condition_variable         m_queue_not_empty_cond;
 
-    std::size_t                     m_free = 0;
-    std::size_t                     m_reserve = 0;
+    std::size_t                     m_free = 0;         /* amount of threads without task */
     bool                            m_stop = false;
 
 public:
diff --git a/ccore/src/parallel/thread_executor.cpp b/ccore/src/parallel/thread_executor.cpp
index c988510..ec42fa2 100755
--- a/ccore/src/parallel/thread_executor.cpp
+++ b/ccore/src/parallel/thread_executor.cpp
@@ -25,8 +25,8 @@ thread_executor::thread_executor(const task_getter & p_getter) :
 
 
 void thread_executor::run() {
+    task::ptr task = nullptr;
     while(!m_stop) {
-        task::ptr task = nullptr;
         m_getter(task);
 
         if (task) {
diff --git a/ccore/src/parallel/thread_pool.cpp b/ccore/src/parallel/thread_pool.cpp
index ac9b161..01acb30 100755
--- a/ccore/src/parallel/thread_pool.cpp
+++ b/ccore/src/parallel/thread_pool.cpp
@@ -68,14 +68,12 @@ task::ptr thread_pool::add_task_if_free(const task::proc & p_raw_task) {
     {
         std::lock_guard<std::mutex> lock_common(m_common_mutex);
 
-        if (m_reserve > 0) {
+        if (m_free > m_queue.size()) {
             client_task = std::make_shared<task>(p_raw_task);
 
             m_queue.push_back(client_task);
 
             m_queue_not_empty_cond.notify_one();
-
-            m_reserve--;
         }
     }
 
@@ -92,24 +90,24 @@ void thread_pool::initialize(const std::size_t p_size) {
     m_pool    = { };
     m_queue   = { };
     m_stop    = false;
+    m_free    = p_size;
 
     thread_executor::task_getter getter = std::bind(&thread_pool::get_task, this, std::placeholders::_1);
 
     for (std::size_t index = 0; index < p_size; index++) {
         m_pool.emplace_back(std::make_shared<thread_executor>(getter));
     }
-
-    m_reserve = m_free = p_size;
 }
 
 
 void thread_pool::get_task(task::ptr & p_task) {
     std::unique_lock<std::mutex> lock_common(m_common_mutex);
 
-    p_task = nullptr;
+    if (p_task) {
+        m_free++;       /* previous task of the thread is completed */
+    }
 
-    m_reserve++;
-    m_free++;
+    p_task = nullptr;
 
     while(m_queue.empty() && !m_stop) {
         m_queue_not_empty_cond.wait(lock_common, [this]{ return !m_queue.empty() || m_stop; });
@@ -119,10 +117,6 @@ void thread_pool::get_task(task::ptr & p_task) {
         p_task = m_queue.front();
         m_queue.pop_front();
 
-        if (m_reserve == m_free) {
-            m_reserve--;
-        }
-
         m_free--;
     }
 }
-- 
2.43.0


From b806ed79f18e29976814c5d276edc51c846b3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 065/135] fix: thread pool - destructor does not drop tasks
 that are waiting in the queue

---
 ccore/include/pyclustering/parallel/thread_pool.hpp |  1 +
 ccore/src/parallel/thread_pool.cpp                  | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ccore/include/pyclustering/parallel/thread_pool.hpp b/ccore/include/pyclustering/parallel/thread_pool.hpp
index d941aae..ca4bcbb 100755
--- a/ccore/include/pyclustering/parallel/thread_pool.hpp
+++ b/ccore/include/pyclustering/parallel/thread_pool.hpp
@@ -52,6 +52,7 @@ private:
     mutable std::mutex              m_common_mutex;
 
     std::condition_variable         m_queue_not_empty_cond;
+    std::condition_variable         m_all_done_cond;
 
     std::size_t                     m_free = 0;         /* amount of threads without task */
     bool                            m_stop = false;
diff --git a/ccore/src/parallel/thread_pool.cpp b/ccore/src/parallel/thread_pool.cpp
index 01acb30..851b76f 100755
--- a/ccore/src/parallel/thread_pool.cpp
+++ b/ccore/src/parallel/thread_pool.cpp
@@ -35,11 +35,13 @@ thread_pool::thread_pool(const std::size_t p_size) {
 
 thread_pool::~thread_pool() {
     {
-        std::lock_guard<std::mutex> lock_common(m_common_mutex);
+        std::unique_lock<std::mutex> lock_common(m_common_mutex);
         m_stop = true;
-    }
+        m_queue_not_empty_cond.notify_all();
 
-    m_queue_not_empty_cond.notify_all();
+        /* tasks that are already in the queue must be executed, otherwise nobody is able to wait for them */
+        m_all_done_cond.wait(lock_common, [this]{ return m_pool.empty() || (m_queue.empty() && (m_free == m_pool.size())); });
+    }
 
     for (auto executor : m_pool) {
         executor->stop();
@@ -107,6 +109,10 @@ void thread_pool::get_task(task::ptr & p_task) {
         m_free++;       /* previous task of the thread is completed */
     }
 
+    if (m_stop && m_queue.empty()) {
+        m_all_done_cond.notify_all();
+    }
+
     p_task = nullptr;
 
     while(m_queue.empty() && !m_stop) {
-- 
2.43.0


From 320ab9ac8dd2ce6accafa0c1bbaec679aad73847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:30 +0000
Subject: [PATCH 066/135] fix: adjacency bit matrix - connections of nodes that
 do not exist are refused

---
 ccore/src/container/adjacency_bit_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/container/adjacency_bit_matrix.cpp b/ccore/src/container/adjacency_bit_matrix.cpp
index af4a835..9c731d8 100755
--- a/ccore/src/container/adjacency_bit_matrix.cpp
+++ b/ccore/src/container/adjacency_bit_matrix.cpp
@@ -75,7 +75,7 @@ void adjacency_bit_matrix::update_connection(const size_t node_index1, const siz
     size_t index_element = node_index2 / element_byte_length;
     size_t bit_number = node_index2 % element_byte_length;
 
-    if ( (node_index1 > m_adjacency.size()) || (index_element > m_adjacency.size()) ) {
+    if ( (node_index1 >= m_adjacency.size()) || (node_index2 >= m_adjacency.size()) ) {
         std::string message("adjacency bit matrix size: " + std::to_string(m_adjacency.size()) + ", index1: " + std::to_string(node_index1) + ", index2: " + std::to_string(node_index2));
         throw std::out_of_range(message);
     }
-- 
2.43.0


From f41c0a33f129dcdf906557e993dede0edbb66949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:49 +0000
Subject: [PATCH 067/135] fix: adjacency weight list - set_connection() assigns
 default weight to existing connection

---
 ccore/src/container/adjacency_weight_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/container/adjacency_weight_list.cpp b/ccore/src/container/adjacency_weight_list.cpp
index 348f250..7d98a7d 100755
--- a/ccore/src/container/adjacency_weight_list.cpp
+++ b/ccore/src/container/adjacency_weight_list.cpp
@@ -28,7 +28,7 @@ size_t adjacency_weight_list::size() const { return m_adjacency.size(); }
 
 
 void adjacency_weight_list::set_connection(const size_t node_index1, const size_t node_index2) {
-    m_adjacency[node_index1].insert( { node_index2, DEFAULT_EXISTANCE_CONNECTION_VALUE } );
+    m_adjacency[node_index1][node_index2] = DEFAULT_EXISTANCE_CONNECTION_VALUE;
 }
 
 
-- 
2.43.0


From ea1838aa80f161dd7daef930c89e3bfd1f9b1536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:12 +0000
Subject: [PATCH 068/135] fix: adjacency weight connector - weight initializer
 is used

---
 ccore/include/pyclustering/container/adjacency_connector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccore/include/pyclustering/container/adjacency_connector.hpp b/ccore/include/pyclustering/container/adjacency_connector.hpp
index 3ca6ef1..78422d8 100755
--- a/ccore/include/pyclustering/container/adjacency_connector.hpp
+++ b/ccore/include/pyclustering/container/adjacency_connector.hpp
@@ -374,9 +374,10 @@ public:
     */
     explicit adjacency_weight_connector(const adjacency_weight_initializer & initializer) {
         if (initializer) {
-            m_initializer = initializer; /* [this](const size_t index1, const size_t index2, TypeCollection & collection) {
+            m_initializer = initializer;
+            this->m_connector = [initializer](const size_t index1, const size_t index2, TypeCollection & collection) {
                 collection.set_connection_weight(index1, index2, initializer());
-            }; */
+            };
         }
     }
 };
-- 
2.43.0


From 43853f81c91492893cce1b2758bba6209f090f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:10 +0000
Subject: [PATCH 069/135] fix: hysteresis network - oscillator is compared with
 every allocated ensemble

---
 pyclustering/nnet/hysteresis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 1df3d1c..a56251c 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -90,8 +90,9 @@ class hysteresis_dynamic:
         number_oscillators = len(self._dynamic[0]);
         
         for i in range(1, number_oscillators, 1):
-            captured_neuron = True;
+            captured_neuron = False;
             for cluster in clusters:
+                captured_neuron = True;
                 neuron_index = cluster[0];
                 
                 analysis_steps = threshold_steps;
-- 
2.43.0


From e9ddc27f9b3d033bbaf90a49d05663eaa5900109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 070/135] fix: hysteresis graph coloring - vertex without edges
 is supported

---
 pyclustering/gcolor/hysteresis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/gcolor/hysteresis.py b/pyclustering/gcolor/hysteresis.py
index 8c50fec..93c5726 100755
--- a/pyclustering/gcolor/hysteresis.py
+++ b/pyclustering/gcolor/hysteresis.py
@@ -136,9 +136,10 @@ class hysteresisgcolor(hysteresis_network):
         self._weight = []
         for row in range(0, self._num_osc):
             self._weight.append([0] * self._num_osc)
+            degree = sum(graph_matrix[row])
             for col in range(0, self._num_osc):
                 if (row != col):
-                    self._weight[row][col] = -alpha * (graph_matrix[row][col]) / sum(graph_matrix[row])
+                    self._weight[row][col] = -alpha * graph_matrix[row][col] / degree if degree > 0 else 0
                 else:
                     self._weight[row][col] = -alpha - eps
     
-- 
2.43.0


From 321d2669b29cba0dd19ff55eb2bd0ada61b3f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:26 +0000
Subject: [PATCH 071/135] fix: hysteresis network - simulation without
 collection of the dynamic returns the last state

---
 pyclustering/nnet/hysteresis.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index a56251c..5320810 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -304,13 +304,10 @@ class hysteresis_network(network):
         elif (solution == solve_type.RKF45):
             raise NameError("Solver RKF45 is not support in python version.");
 
-        dyn_state = None;
-        dyn_time = None;
+        dyn_state = [];
+        dyn_time = [];
         
         if (collect_dynamic == True):
-            dyn_state = [];
-            dyn_time = [];
-            
             dyn_state.append(self._states);
             dyn_time.append(0);
         
-- 
2.43.0


From 30e4a50cd4870a1a2c0f89577d6924cb170a08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:51 +0000
Subject: [PATCH 072/135] fix: oscillatory network - repeated set_connection()
 does not duplicate neighbours in list representation

---
 pyclustering/nnet/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclustering/nnet/__init__.py b/pyclustering/nnet/__init__.py
index d55a694..b3b4010 100755
--- a/pyclustering/nnet/__init__.py
+++ b/pyclustering/nnet/__init__.py
@@ -387,8 +387,10 @@ class network:
             self._osc_conn[i][j] = True;
             self._osc_conn[j][i] = True;
         else:
-            self._osc_conn[i].append(j);
-            self._osc_conn[j].append(i); 
+            if (j not in self._osc_conn[i]):
+                self._osc_conn[i].append(j);
+            if (i not in self._osc_conn[j]):
+                self._osc_conn[j].append(i);
     
     
     def get_neighbors(self, index):
-- 
2.43.0


From 49c6267d513fd15bc87ed84cddfb4c89447e0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:00 +0000
Subject: [PATCH 073/135] fix: package builder - type of elements of numpy
 arrays is recognized

---
 pyclustering/core/pyclustering_package.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/core/pyclustering_package.py b/pyclustering/core/pyclustering_package.py
index 921378b..8476116 100755
--- a/pyclustering/core/pyclustering_package.py
+++ b/pyclustering/core/pyclustering_package.py
@@ -166,10 +166,10 @@ class package_builder:
         if self.__is_container_type(dataset[0]):
             dataset_package.type = pyclustering_type_data.PYCLUSTERING_TYPE_LIST
         
-        elif isinstance(dataset[0], int):
+        elif isinstance(dataset[0], (int, numpy.integer)):
             dataset_package.type = pyclustering_type_data.PYCLUSTERING_TYPE_LONG
         
-        elif isinstance(dataset[0], float):
+        elif isinstance(dataset[0], (float, numpy.floating)):
             dataset_package.type = pyclustering_type_data.PYCLUSTERING_TYPE_DOUBLE
         
         else:
-- 
2.43.0


From 823a03faaa1a58ce9240dc9a85538c43820d3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:03 +0000
Subject: [PATCH 074/135] fix: package builder - content of a string is packed,
 not its address

---
 pyclustering/core/pyclustering_package.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclustering/core/pyclustering_package.py b/pyclustering/core/pyclustering_package.py
index 8476116..fbff2f0 100755
--- a/pyclustering/core/pyclustering_package.py
+++ b/pyclustering/core/pyclustering_package.py
@@ -230,9 +230,10 @@ class package_builder:
 
 
     def __create_package_string(self, dataset_package, string_value):
-        dataset_package.size = len(string_value)
+        c_string = create_string_buffer(string_value.encode('utf-8'))
+        dataset_package.size = len(c_string)
         dataset_package.type = pyclustering_type_data.PYCLUSTERING_TYPE_CHAR
-        dataset_package.data = cast(string_value, POINTER(c_void_p))
+        dataset_package.data = cast(c_string, POINTER(c_void_p))
         return pointer(dataset_package)
 
 
-- 
2.43.0


From 59d847d768bd00a4d89fac7a6c6a3233c05bcf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:07 +0000
Subject: [PATCH 075/135] fix: core wrapper - python implementation is used
 when library cannot be loaded

---
 pyclustering/core/wrapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyclustering/core/wrapper.py b/pyclustering/core/wrapper.py
index f1c1f21..fe51d57 100755
--- a/pyclustering/core/wrapper.py
+++ b/pyclustering/core/wrapper.py
@@ -61,7 +61,15 @@ class ccore_library:
             
             return None
 
-        ccore_library.__library = cdll.LoadLibrary(PATH_PYCLUSTERING_CCORE_LIBRARY)
+        try:
+            ccore_library.__library = cdll.LoadLibrary(PATH_PYCLUSTERING_CCORE_LIBRARY)
+        except OSError as error:
+            warnings.warn("The C/C++ pyclustering cannot be loaded (" + str(error) + ").\n" +
+                          "Falling back on python implementation.\n" +
+                          "For more information, contact 'pyclustering@yandex.ru'.", ResourceWarning)
+
+            return None
+
         if ccore_library.__check_library_integrity() is False:
             warnings.warn("Impossible to mark C/C++ pyclustering library as a workable due to compatibility issues " +
                           "('" + sys.platform + "', '" + platform.architecture()[0] + "').\n" +
-- 
2.43.0


From 03590fa0bf0891039772c27fa3552c55b5dc896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:27 +0000
Subject: [PATCH 076/135] fix: CLARANS - exchange of medoids is accepted only
 if it decreases the cost

---
 pyclustering/cluster/clarans.py | 61 ++++++++++++---------------------
 1 file changed, 21 insertions(+), 40 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 1928cd1..5ddbaa9 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -189,46 +189,27 @@ class clarans:
             
             candidate_cost = 0.0
             for point_index in range(0, len(self.__pointer_data)):
-                if point_index not in self.__current:
-                    # get non-medoid point and its medoid
-                    point_cluster_index = self.__belong[point_index]
-                    point_medoid_index = self.__current[point_cluster_index]
-                    
-                    # get other medoid that is nearest to the point (except current and candidate)
+                # distance from the point to its own (nearest) medoid
+                point_cluster_index = self.__belong[point_index]
+                point_medoid_index = self.__current[point_cluster_index]
+                distance_nearest = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[point_medoid_index])
+
+                # distance from the point to candidate medoid
+                distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[candidate_medoid_index])
+
+                if point_cluster_index == current_medoid_cluster_index:
+                    # medoid of the point is replaced: the point goes to the candidate or to the another nearest medoid
+                    distance_other = float('inf')
                     other_medoid_index = self.__find_another_nearest_medoid(point_index, current_medoid_index)
-                    other_medoid_cluster_index = self.__belong[other_medoid_index]
-                    
-                    # for optimization calculate all required distances
-                    # from the point to current medoid
-                    distance_current = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                    
-                    # from the point to candidate median
-                    distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[candidate_medoid_index])
-                    
-                    # from the point to nearest (own) medoid
-                    distance_nearest = float('inf')
-                    if ( (point_medoid_index != candidate_medoid_index) and (point_medoid_index != current_medoid_cluster_index) ):
-                        distance_nearest = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[point_medoid_index])
-                    
-                    # apply rules for cost calculation
-                    if (point_cluster_index == current_medoid_cluster_index):
-                        # case 1:
-                        if (distance_candidate >= distance_nearest):
-                            candidate_cost += distance_nearest - distance_current
-                        
-                        # case 2:
-                        else:
-                            candidate_cost += distance_candidate - distance_current
-                    
-                    elif (point_cluster_index == other_medoid_cluster_index):
-                        # case 3 ('nearest medoid' is the representative object of that cluster and object is more similar to 'nearest' than to 'candidate'):
-                        if (distance_candidate > distance_nearest):
-                            pass;
-                        
-                        # case 4:
-                        else:
-                            candidate_cost += distance_candidate - distance_nearest
-            
+                    if other_medoid_index >= 0:
+                        distance_other = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[other_medoid_index])
+
+                    candidate_cost += min(distance_candidate, distance_other) - distance_nearest
+
+                elif distance_candidate < distance_nearest:
+                    # the point is more similar to the candidate than to its medoid
+                    candidate_cost += distance_candidate - distance_nearest
+
             if (candidate_cost < 0):
                 # set candidate that has won
                 self.__current[current_medoid_cluster_index] = candidate_medoid_index
@@ -257,7 +238,7 @@ class clarans:
         other_distance_nearest = float('inf')
         for index_medoid in self.__current:
             if (index_medoid != current_medoid_index):
-                other_distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
+                other_distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[index_medoid])
                 
                 if other_distance_candidate < other_distance_nearest:
                     other_distance_nearest = other_distance_candidate
-- 
2.43.0


From fe619554b98e86a911f04abccf3e0b0b18069d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:31 +0000
Subject: [PATCH 077/135] fix: CLARANS - chosen medoid is replaced in case of
 coincident points

---
 pyclustering/cluster/clarans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 5ddbaa9..1bd4205 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -178,8 +178,8 @@ class clarans:
         index_neighbor = 0
         while (index_neighbor < self.__maxneighbor):
             # get random current medoid that is to be replaced
-            current_medoid_index = self.__current[random.randint(0, self.__number_clusters - 1)]
-            current_medoid_cluster_index = self.__belong[current_medoid_index]
+            current_medoid_cluster_index = random.randint(0, self.__number_clusters - 1)
+            current_medoid_index = self.__current[current_medoid_cluster_index]
             
             # get new candidate to be medoid
             candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
-- 
2.43.0


From d509c19c7eb1223135b85234c61a1f9550055a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:36 +0000
Subject: [PATCH 078/135] fix: CLARANS - estimation takes into account medoids
 without points

---
 pyclustering/cluster/clarans.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 1bd4205..4768709 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -256,10 +256,8 @@ class clarans:
         
         """
         estimation = 0.0
-        for index_cluster in range(0, len(self.__clusters)):
-            cluster = self.__clusters[index_cluster]
-            index_medoid = self.__current[index_cluster]
-            for index_point in cluster:
-                estimation += euclidean_distance_square(self.__pointer_data[index_point], self.__pointer_data[index_medoid])
+        for index_point in range(0, len(self.__pointer_data)):
+            index_medoid = self.__current[self.__belong[index_point]]
+            estimation += euclidean_distance_square(self.__pointer_data[index_point], self.__pointer_data[index_medoid])
         
         return estimation
-- 
2.43.0


From c1105a6e20f06bd9341615037f5159a5c13613c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:40 +0000
Subject: [PATCH 079/135] fix: CLARANS - clustering is finished when every
 point is a medoid

---
 pyclustering/cluster/clarans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 4768709..99cc5f4 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -175,6 +175,9 @@ class clarans:
         @brief Finds quasi-optimal medoids and updates in line with them clusters in line with algorithm's rules. 
         
         """
+        if len(self.__current) == len(self.__pointer_data):
+            return  # there are no other points that can be medoids
+
         index_neighbor = 0
         while (index_neighbor < self.__maxneighbor):
             # get random current medoid that is to be replaced
-- 
2.43.0


From 8e0d0c682effd202833bd4bf662e8abaf04f4e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:19 +0000
Subject: [PATCH 080/135] fix: CLARANS - previous choice of replaced medoid is
 restored (it is equal for coincident points)

---
 pyclustering/cluster/clarans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 99cc5f4..4bac728 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -181,8 +181,8 @@ class clarans:
         index_neighbor = 0
         while (index_neighbor < self.__maxneighbor):
             # get random current medoid that is to be replaced
-            current_medoid_cluster_index = random.randint(0, self.__number_clusters - 1)
-            current_medoid_index = self.__current[current_medoid_cluster_index]
+            current_medoid_index = self.__current[random.randint(0, self.__number_clusters - 1)]
+            current_medoid_cluster_index = self.__belong[current_medoid_index]
             
             # get new candidate to be medoid
             candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
-- 
2.43.0


From 6a8a37ab54930b0e5611cdde6fd37492f929ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:36 +0000
Subject: [PATCH 081/135] fix: X-Means - cluster keeps its own center when it
 cannot be divided because of the limit

---
 ccore/src/cluster/xmeans.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/xmeans.cpp b/ccore/src/cluster/xmeans.cpp
index 2f37f8d..17bc673 100755
--- a/ccore/src/cluster/xmeans.cpp
+++ b/ccore/src/cluster/xmeans.cpp
@@ -152,7 +152,8 @@ void xmeans::improve_structure() {
     dataset allocated_centers = { };
     std::size_t amount_free_centers = m_maximum_clusters - clusters.size();
 
-    for (const auto & centers : region_allocated_centers) {
+    for (std::size_t index_cluster = 0; index_cluster < region_allocated_centers.size(); index_cluster++) {
+        const auto & centers = region_allocated_centers[index_cluster];
         if ( (centers.size() > 1) && (amount_free_centers > 0) ) {
             /* separate cluster */
             allocated_centers.push_back(centers[0]);
@@ -161,7 +162,7 @@ void xmeans::improve_structure() {
             amount_free_centers--;
         }
         else {
-            allocated_centers.push_back(centers[0]);
+            allocated_centers.push_back(current_centers[index_cluster]);
         }
     }
 
-- 
2.43.0


From 757a18e8e2fe677f0f80ae4ff32d8d96f7b0f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:01 +0000
Subject: [PATCH 082/135] fix: G-Means - total within-cluster error is
 calculated when nothing has been divided

---
 ccore/include/pyclustering/cluster/gmeans.hpp | 2 +-
 ccore/src/cluster/gmeans.cpp                  | 6 ++++--
 pyclustering/cluster/gmeans.py                | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/gmeans.hpp b/ccore/include/pyclustering/cluster/gmeans.hpp
index 4586556..55e302f 100755
--- a/ccore/include/pyclustering/cluster/gmeans.hpp
+++ b/ccore/include/pyclustering/cluster/gmeans.hpp
@@ -169,7 +169,7 @@ public:
 private:
     bool is_run_condition() const;
 
-    void search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const;
+    double search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const;
 
     void statistical_optimization();
 
diff --git a/ccore/src/cluster/gmeans.cpp b/ccore/src/cluster/gmeans.cpp
index 2686c43..28b6a45 100755
--- a/ccore/src/cluster/gmeans.cpp
+++ b/ccore/src/cluster/gmeans.cpp
@@ -58,7 +58,7 @@ void gmeans::process(const dataset & p_data, gmeans_data & p_result) {
     m_ptr_data = &p_data;
     m_ptr_result = &p_result;
 
-    search_optimal_parameters(p_data, m_amount, m_ptr_result->clusters(), m_ptr_result->centers());
+    m_ptr_result->wce() = search_optimal_parameters(p_data, m_amount, m_ptr_result->clusters(), m_ptr_result->centers());
 
     while(is_run_condition()) {
         std::size_t current_amount_clusters = m_ptr_result->clusters().size();
@@ -82,7 +82,7 @@ bool gmeans::is_run_condition() const {
 }
 
 
-void gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const {
+double gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const {
     double           best_wce = std::numeric_limits<double>::infinity();
     cluster_sequence best_clusters = { };
     dataset          best_centers = { };
@@ -107,6 +107,8 @@ void gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t
 
     p_clusters = std::move(best_clusters);
     p_centers = std::move(best_centers);
+
+    return best_wce;
 }
 
 
diff --git a/pyclustering/cluster/gmeans.py b/pyclustering/cluster/gmeans.py
index 9f92bde..e89b1f1 100755
--- a/pyclustering/cluster/gmeans.py
+++ b/pyclustering/cluster/gmeans.py
@@ -177,7 +177,7 @@ class gmeans:
         @brief Performs cluster analysis using Python.
 
         """
-        self.__clusters, self.__centers, _ = self._search_optimal_parameters(self.__data, self.__k_init)
+        self.__clusters, self.__centers, self.__total_wce = self._search_optimal_parameters(self.__data, self.__k_init)
 
         while self._run_condition():
             current_amount_clusters = len(self.__clusters)
-- 
2.43.0


From c5cd9cfd748082ea8ec7f258b98a4b97aee96608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:29 +0000
Subject: [PATCH 083/135] fix: Sync - phases are compared on the circle when
 ensembles are allocated

---
 ccore/src/nnet/sync.cpp   | 5 ++---
 pyclustering/nnet/sync.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index e437854..3af1c63 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -384,10 +384,9 @@ void sync_dynamic::allocate_sync_ensembles(const double tolerance, const size_t
                 double phase_first = (*last_state_dynamic).m_phase[i];
                 double phase_second = (*last_state_dynamic).m_phase[index];
 
-                double phase_shifted = std::abs((*last_state_dynamic).m_phase[i] - 2 * pi);
+                const double distance = std::abs(phase_first - phase_second);
 
-                if (((phase_first < (phase_second + tolerance)) && (phase_first >(phase_second - tolerance))) ||
-                    ((phase_shifted < (phase_second + tolerance)) && (phase_shifted >(phase_second - tolerance)))) {
+                if ((distance < tolerance) || (2.0 * pi - distance < tolerance)) {
 
                     cluster_allocated = true;
                     cluster.push_back(i);
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index c9459d3..c571b3c 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -213,10 +213,9 @@ class sync_dynamic:
             cluster_allocated = False
             for cluster in clusters:
                 for neuron_index in cluster:
-                    last_state_shifted = abs(last_state[i] - 2 * pi)
+                    distance = abs(last_state[i] - last_state[neuron_index])
 
-                    if ( ( (last_state[i] < (last_state[neuron_index] + tolerance)) and (last_state[i] > (last_state[neuron_index] - tolerance)) ) or
-                         ( (last_state_shifted < (last_state[neuron_index] + tolerance)) and (last_state_shifted > (last_state[neuron_index] - tolerance)) ) ):
+                    if (distance < tolerance) or (2.0 * pi - distance < tolerance):
                         cluster_allocated = True
 
                         real_index = i
-- 
2.43.0


From 33ca38669eff397c04eec1e2a0c5416ef2b06206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:06 +0000
Subject: [PATCH 084/135] fix: Sync - ensembles of objects with own indexes are
 allocated by their phases

---
 pyclustering/nnet/sync.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index c571b3c..bfd9bca 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -217,12 +217,7 @@ class sync_dynamic:
 
                     if (distance < tolerance) or (2.0 * pi - distance < tolerance):
                         cluster_allocated = True
-
-                        real_index = i
-                        if indexes is not None:
-                            real_index = indexes[i]
-
-                        cluster.append(real_index)
+                        cluster.append(i)
                         break
 
                 if cluster_allocated is True:
@@ -231,6 +226,9 @@ class sync_dynamic:
             if cluster_allocated is False:
                 clusters.append([i])
 
+        if indexes is not None:
+            clusters = [[indexes[i] for i in cluster] for cluster in clusters]
+
         return clusters
 
 
-- 
2.43.0


From e3c02b6ef5708dd8a44320b025f9efee8fb37b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:47 +0000
Subject: [PATCH 085/135] fix: Sync - order parameter is calculated by its
 definition

---
 ccore/src/nnet/sync.cpp   | 14 ++++----------
 pyclustering/nnet/sync.py | 10 +++-------
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index 3af1c63..fa2493c 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -8,6 +8,7 @@
 
 #include <pyclustering/nnet/sync.hpp>
 
+#include <algorithm>
 #include <cmath>
 #include <random>
 #include <complex>
@@ -62,20 +63,13 @@ double sync_ordering::calculate_sync_order(const std::vector<sync_oscillator> &
 
 template <class TypeContainer>
 double sync_ordering::calculate_sync_order_parameter(const TypeContainer & p_container, const phase_getter & p_getter) {
-    double exp_amount = 0.0;
-    double average_phase = 0.0;
+    std::complex<double> exp_amount(0.0, 0.0);
 
     for (std::size_t index = 0; index < p_container.size(); index++) {
-        const double phase = p_getter(index);
-
-        exp_amount += std::exp( std::abs( std::complex<double>(0, 1) * phase ) );
-        average_phase += phase;
+        exp_amount += std::exp( std::complex<double>(0.0, p_getter(index)) );
     }
 
-    exp_amount /= p_container.size();
-    average_phase = std::exp( std::abs( std::complex<double>(0, 1) * (average_phase / p_container.size()) ) );
-
-    return std::abs(average_phase) / std::abs(exp_amount);
+    return std::min(std::abs(exp_amount) / static_cast<double>(p_container.size()), 1.0);
 }
 
 
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index bfd9bca..a357130 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -9,6 +9,7 @@
 
 """
 
+import cmath
 import math
 import numpy
 import random
@@ -48,16 +49,11 @@ class order_estimator:
         """
 
         exp_amount = 0.0
-        average_phase = 0.0
 
         for phase in oscillator_phases:
-            exp_amount += math.expm1(abs(1j * phase))
-            average_phase += phase
+            exp_amount += cmath.exp(1j * phase)
 
-        exp_amount /= len(oscillator_phases)
-        average_phase = math.expm1(abs(1j * (average_phase / len(oscillator_phases))))
-
-        return abs(average_phase) / abs(exp_amount)
+        return min(abs(exp_amount) / len(oscillator_phases), 1.0)
 
 
     @staticmethod
-- 
2.43.0


From 27709d9e875e70c47e5322241198033276218a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:15 +0000
Subject: [PATCH 086/135] fix: sync network - exact amount of steps is
 simulated

---
 pyclustering/nnet/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index a357130..140cdbe 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -949,7 +949,7 @@ class sync_network(network):
         step = time / steps;
         int_step = step / 10.0;
 
-        for t in numpy.arange(step, time + step, step):
+        for t in step * numpy.arange(1, steps + 1):
             # update states of oscillators
             self._phases = self._calculate_phases(solution, t, step, int_step);
 
-- 
2.43.0


From bb1cf958c7c413c48f292c3ea23d587caa0c023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:27 +0000
Subject: [PATCH 087/135] fix: hhn network - exact amount of steps is simulated

---
 pyclustering/nnet/hhn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 1c34fcf..2f2776f 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -311,7 +311,7 @@ class hhn_network(network):
         step = time / steps
         int_step = step / 10.0
         
-        for t in numpy.arange(step, time + step, step):
+        for t in step * numpy.arange(1, steps + 1):
             # update states of oscillators
             (memb_peripheral, memb_central) = self._calculate_states(solution, t, step, int_step)
             
-- 
2.43.0


From b1c47c89b82ecf86df1aaab76e668177c9d536de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 088/135] fix: legion network - exact amount of steps is
 simulated

---
 pyclustering/nnet/legion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index e123bcb..9895ab0 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -378,7 +378,7 @@ class legion_network(network):
         step = time / steps
         int_step = step / 10.0
         
-        for t in numpy.arange(step, time + step, step):
+        for t in step * numpy.arange(1, steps + 1):
             # update states of oscillators
             self._calculate_states(solution, t, step, int_step)
             
-- 
2.43.0


From 115546af40f9931976f17a796be8acd5a581e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:47 +0000
Subject: [PATCH 089/135] fix: fsync network - exact amount of steps is
 simulated

---
 pyclustering/nnet/fsync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index a80120b..1ad261d 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -237,7 +237,7 @@ class fsync_network(network):
         step = time / steps;
         int_step = step / 10.0;
         
-        for t in numpy.arange(step, time + step, step):
+        for t in step * numpy.arange(1, steps + 1):
             self.__amplitude = self.__calculate(t, step, int_step);
             
             if collect_dynamic is True:
-- 
2.43.0


From 070bcd05200660a11018298e1b8745e5148b7ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 090/135] fix: hysteresis network - exact amount of steps is
 simulated

---
 pyclustering/nnet/hysteresis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 5320810..70ff97c 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -314,7 +314,7 @@ class hysteresis_network(network):
         step = time / steps;
         int_step = step / 10.0;
         
-        for t in numpy.arange(step, time + step, step):
+        for t in step * numpy.arange(1, steps + 1):
             # update states of oscillators
             self._states = self._calculate_states(solution, t, step, int_step);
             
-- 
2.43.0


From 61462cd7534674013cc328d5292ac8e253f7b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:25 +0000
Subject: [PATCH 091/135] fix: sync network - equations are integrated over the
 whole step

---
 pyclustering/nnet/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index 140cdbe..83af21a 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -987,7 +987,7 @@ class sync_network(network):
                 next_phases[index] = self._phase_normalization(result);
 
             elif ( (solution == solve_type.RK4) or (solution == solve_type.RKF45) ):
-                result = odeint(self._phase_kuramoto, self._phases[index], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._phase_kuramoto, self._phases[index], numpy.linspace(t - step, t, int(round(step / int_step)) + 1), (index , ));
                 next_phases[index] = self._phase_normalization(result[len(result) - 1][0]);
 
             else:
-- 
2.43.0


From 4bea5be917dd6c3002fe8626c57e943a495b57b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:38 +0000
Subject: [PATCH 092/135] fix: hhn network - equations are integrated over the
 whole step

---
 pyclustering/nnet/hhn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 2f2776f..70f9144 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -346,7 +346,7 @@ class hhn_network(network):
         for index in range(0, self._num_osc, 1):
             result = odeint(self.hnn_state, 
                             [self._membrane_potential[index], self._active_cond_sodium[index], self._inactive_cond_sodium[index], self._active_cond_potassium[index]],
-                            numpy.arange(t - step, t, int_step), 
+                            numpy.linspace(t - step, t, int(round(step / int_step)) + 1), 
                             (index, ))
                             
             [ next_membrane[index], next_active_sodium[index], next_inactive_sodium[index], next_active_potassium[index] ] = result[len(result) - 1][0:4]
@@ -360,7 +360,7 @@ class hhn_network(network):
         for index in range(0, len(self._central_element)):
             result = odeint(self.hnn_state, 
                             [self._central_element[index].membrane_potential, self._central_element[index].active_cond_sodium, self._central_element[index].inactive_cond_sodium, self._central_element[index].active_cond_potassium],
-                            numpy.arange(t - step, t, int_step), 
+                            numpy.linspace(t - step, t, int(round(step / int_step)) + 1), 
                             (self._num_osc + index, ))
                             
             [ next_cn_membrane[index], next_cn_active_sodium[index], next_cn_inactive_sodium[index], next_cn_active_potassium[index] ] = result[len(result) - 1][0:4]
-- 
2.43.0


From 2cb636f1abb230fc52cf44fc14929cbb92285248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:55 +0000
Subject: [PATCH 093/135] fix: legion network - equations are integrated over
 the whole step

---
 pyclustering/nnet/legion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 9895ab0..1332c9a 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -416,11 +416,11 @@ class legion_network(network):
         # Update states of oscillators
         for index in range (0, self._num_osc, 1):
             if (self._params.ENABLE_POTENTIONAL is True):
-                result = odeint(self._legion_state, [self._excitatory[index], self._inhibitory[index], self._potential[index]], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._legion_state, [self._excitatory[index], self._inhibitory[index], self._potential[index]], numpy.linspace(t - step, t, int(round(step / int_step)) + 1), (index , ));
                 [ next_excitatory[index], next_inhibitory[index], next_potential[index] ] = result[len(result) - 1][0:3];
                 
             else:
-                result = odeint(self._legion_state_simplify, [self._excitatory[index], self._inhibitory[index] ], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._legion_state_simplify, [self._excitatory[index], self._inhibitory[index] ], numpy.linspace(t - step, t, int(round(step / int_step)) + 1), (index , ));
                 [ next_excitatory[index], next_inhibitory[index] ] = result[len(result) - 1][0:2];
             
             # Update coupling term
@@ -433,7 +433,7 @@ class legion_network(network):
             self._buffer_coupling_term[index] = coupling - self._params.Wz * heaviside(self._global_inhibitor - self._params.teta_xz);
         
         # Update state of global inhibitory
-        result = odeint(self._global_inhibitor_state, self._global_inhibitor, numpy.arange(t - step, t, int_step), (None, ));
+        result = odeint(self._global_inhibitor_state, self._global_inhibitor, numpy.linspace(t - step, t, int(round(step / int_step)) + 1), (None, ));
         self._global_inhibitor = result[len(result) - 1][0];
         
         self._noise = [random.random() * self._params.ro for i in range(self._num_osc)];
-- 
2.43.0


From 86677c517df1db4aa720dfec3fd5bd8a9381bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:02 +0000
Subject: [PATCH 094/135] fix: fsync network - equations are integrated over
 the whole step

---
 pyclustering/nnet/fsync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 1ad261d..9cd29ff 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -268,7 +268,7 @@ class fsync_network(network):
         
         for index in range (0, self._num_osc, 1):
             z = numpy.array(self.__amplitude[index], dtype = numpy.complex128, ndmin = 1);
-            result = odeint(self.__calculate_amplitude, z.view(numpy.float64), numpy.arange(t - step, t, int_step), (index , ));
+            result = odeint(self.__calculate_amplitude, z.view(numpy.float64), numpy.linspace(t - step, t, int(round(step / int_step)) + 1), (index , ));
             next_amplitudes[index] = (result[len(result) - 1]).view(numpy.complex128);
         
         return next_amplitudes;
-- 
2.43.0


From 894842a1ad039365e915234ecd5482ce04fa303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 095/135] fix: hysteresis network - equations are integrated
 over the whole step

---
 pyclustering/nnet/hysteresis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 70ff97c..b3942d0 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -346,7 +346,7 @@ class hysteresis_network(network):
         next_states = [0] * self._num_osc;
         
         for index in range (0, self._num_osc, 1):            
-            result = odeint(self._neuron_states, self._states[index], numpy.arange(t - step, t, int_step), (index , ));
+            result = odeint(self._neuron_states, self._states[index], numpy.linspace(t - step, t, int(round(step / int_step)) + 1), (index , ));
             next_states[index] = result[len(result) - 1][0];
         
         self._outputs = [val for val in self._outputs_buffer];
-- 
2.43.0


From 67c11633af584abece648e4c4a9bdb6be94d4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:17 +0000
Subject: [PATCH 096/135] fix: SyncPR - equation depends on the phase that is
 requested by solver

---
 ccore/src/nnet/syncpr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/syncpr.cpp b/ccore/src/nnet/syncpr.cpp
index 1536546..8ac176e 100755
--- a/ccore/src/nnet/syncpr.cpp
+++ b/ccore/src/nnet/syncpr.cpp
@@ -184,7 +184,7 @@ double syncpr::phase_kuramoto(const double t, const double teta, const std::vect
 
     for (std::size_t neighbor_index = 0; neighbor_index < size(); neighbor_index++) {
         if (oscillator_index != neighbor_index) {
-            double phase_delta = m_oscillators[neighbor_index].phase - m_oscillators[oscillator_index].phase;
+            double phase_delta = m_oscillators[neighbor_index].phase - teta;
 
             phase += m_coupling[oscillator_index][neighbor_index] * std::sin(phase_delta);
 
-- 
2.43.0


From 06543166ed3b3e7da37f60ae5d6c5ff2898473cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:50 +0000
Subject: [PATCH 097/135] fix: SyncPR - exact amount of steps is simulated by
 core

---
 ccore/src/nnet/syncpr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccore/src/nnet/syncpr.cpp b/ccore/src/nnet/syncpr.cpp
index 8ac176e..74e089b 100755
--- a/ccore/src/nnet/syncpr.cpp
+++ b/ccore/src/nnet/syncpr.cpp
@@ -103,7 +103,8 @@ void syncpr::simulate_static(const unsigned int steps,
     const double int_step = step / 10.0;
 
     store_dynamic(0.0, collect_dynamic, output_dynamic);    /* store initial state */
-    for (double cur_time = step; cur_time < (time + step); cur_time += step) {
+    double cur_time = step;
+    for (unsigned int cur_step = 0; cur_step < steps; cur_step++, cur_time += step) {
         calculate_phases(solver, cur_time, step, int_step);
 
         store_dynamic(cur_time, collect_dynamic, output_dynamic);   /* store initial state */
-- 
2.43.0


From 361994290feabda9bd9ba4b62a5bdb3d976c13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 098/135] fix: SyncPR - dynamic that has been returned is not
 changed by the next simulation

---
 pyclustering/nnet/syncpr.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pyclustering/nnet/syncpr.py b/pyclustering/nnet/syncpr.py
index 10dbcd2..41ebabe 100755
--- a/pyclustering/nnet/syncpr.py
+++ b/pyclustering/nnet/syncpr.py
@@ -343,11 +343,7 @@ class syncpr(sync_network):
             ccore_instance_dynamic = wrapper.syncpr_simulate_dynamic(self._ccore_network_pointer, pattern, order, solution, collect_dynamic, step)
             return syncpr_dynamic(None, None, ccore_instance_dynamic)
         
-        for i in range(0, len(pattern), 1):
-            if pattern[i] > 0.0:
-                self._phases[i] = 0.0
-            else:
-                self._phases[i] = math.pi / 2.0
+        self._phases = [0.0 if feature > 0.0 else math.pi / 2.0 for feature in pattern]
         
         # For statistics and integration
         time_counter = 0
@@ -417,11 +413,7 @@ class syncpr(sync_network):
             ccore_instance_dynamic = wrapper.syncpr_simulate_static(self._ccore_network_pointer, steps, time, pattern, solution, collect_dynamic)
             return syncpr_dynamic(None, None, ccore_instance_dynamic)
         
-        for i in range(0, len(pattern), 1):
-            if pattern[i] > 0.0:
-                self._phases[i] = 0.0
-            else:
-                self._phases[i] = math.pi / 2.0
+        self._phases = [0.0 if feature > 0.0 else math.pi / 2.0 for feature in pattern]
                 
         return super().simulate_static(steps, time, solution, collect_dynamic)
     
-- 
2.43.0


From 561af23334e800a2c5041aec9b05f4fb0a4bdb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:59 +0000
Subject: [PATCH 099/135] fix: SyncPR - patterns that have been learned are not
 forgotten by the next training

---
 ccore/src/nnet/syncpr.cpp   | 3 +--
 pyclustering/nnet/syncpr.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/ccore/src/nnet/syncpr.cpp b/ccore/src/nnet/syncpr.cpp
index 74e089b..f0b848a 100755
--- a/ccore/src/nnet/syncpr.cpp
+++ b/ccore/src/nnet/syncpr.cpp
@@ -77,10 +77,9 @@ void syncpr::train(const std::vector<syncpr_pattern> & patterns) {
                 double value1 = patterns[p][i];
                 double value2 = patterns[p][j];
 
-                m_coupling[i][j] += value1 * value2;
+                m_coupling[i][j] += value1 * value2 / (double) size();
             }
 
-            m_coupling[i][j] /= (double) size();
             m_coupling[j][i] = m_coupling[i][j];
         }
     }
diff --git a/pyclustering/nnet/syncpr.py b/pyclustering/nnet/syncpr.py
index 41ebabe..f325d6f 100755
--- a/pyclustering/nnet/syncpr.py
+++ b/pyclustering/nnet/syncpr.py
@@ -285,9 +285,8 @@ class syncpr(sync_network):
                     value1 = samples[p][i]
                     value2 = samples[p][j]
                     
-                    self._coupling[i][j] += value1 * value2
+                    self._coupling[i][j] += value1 * value2 / length
                 
-                self._coupling[i][j] /= length
                 self._coupling[j][i] = self._coupling[i][j]
     
     
-- 
2.43.0


From 0ef109d8e12261029eb3a1b276e1d1e941ae2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:41 +0000
Subject: [PATCH 100/135] fix: Sync - core takes into account integration step
 and threshold of dynamic simulation

---
 ccore/include/pyclustering/nnet/sync.hpp | 24 ++++++++++++++++++++++++
 ccore/src/interface/sync_interface.cpp   |  2 +-
 ccore/src/nnet/sync.cpp                  | 11 +++++++----
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/ccore/include/pyclustering/nnet/sync.hpp b/ccore/include/pyclustering/nnet/sync.hpp
index 877af47..a4d9ca7 100755
--- a/ccore/include/pyclustering/nnet/sync.hpp
+++ b/ccore/include/pyclustering/nnet/sync.hpp
@@ -491,6 +491,30 @@ public:
         const bool collect_dynamic,
         sync_dynamic & output_dynamic);
 
+    /**
+     *
+     * @brief   Performs dynamic simulation of oscillatory network until stop condition is not reached.
+     *
+     * @param[in]  order: order of process synchronization, distributed 0..1.
+     * @param[in]  step: time step of one iteration of simulation.
+     * @param[in]  int_step: integration step, should be less than step.
+     * @param[in]  threshold: additional stop condition - simulation is stopped when change of the order
+     *              by one iteration is less than the threshold.
+     * @param[in]  solver: type of solver for simulation.
+     * @param[in]  collect_dynamic: if true - returns whole dynamic of oscillatory network,
+     *              otherwise returns only last values of dynamics.
+     * @param[out] output_dynamic: output dynamic of the network.
+     *
+     */
+    virtual void simulate_dynamic(
+        const double order,
+        const double step,
+        const double int_step,
+        const double threshold,
+        const solve_type solver,
+        const bool collect_dynamic,
+        sync_dynamic & output_dynamic);
+
     /**
      *
      * @brief   Returns size of the oscillatory network that is defined by amount of oscillators.
diff --git a/ccore/src/interface/sync_interface.cpp b/ccore/src/interface/sync_interface.cpp
index 27471d5..06c9a7d 100755
--- a/ccore/src/interface/sync_interface.cpp
+++ b/ccore/src/interface/sync_interface.cpp
@@ -46,7 +46,7 @@ void * sync_simulate_dynamic(const void * pointer_network, const double order, c
     sync_network * network = (sync_network *) pointer_network;
 
     sync_dynamic * dynamic = new sync_dynamic();
-    network->simulate_dynamic(order, step, (solve_type) solver, collect_dynamic, (*dynamic));
+    network->simulate_dynamic(order, step, step_int, threshold_changes, (solve_type) solver, collect_dynamic, (*dynamic));
 
     return (void *) dynamic;
 }
diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index fa2493c..d77e41a 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -233,23 +233,26 @@ void sync_network::simulate_static(const std::size_t steps, const double time, c
 
 
 void sync_network::simulate_dynamic(const double order, const double step, const solve_type solver, const bool collect_dynamic, sync_dynamic & output_dynamic) {
+    simulate_dynamic(order, step, step / 10.0, 0.000001, solver, collect_dynamic, output_dynamic);
+}
+
+
+void sync_network::simulate_dynamic(const double order, const double step, const double int_step, const double threshold, const solve_type solver, const bool collect_dynamic, sync_dynamic & output_dynamic) {
     output_dynamic.clear();
 
     store_dynamic(0, collect_dynamic, output_dynamic);     /* store initial state */
 
     double current_order = sync_local_order();
 
-    double integration_step = step / 10.0;
-
     for (double time_counter = step; current_order < order; time_counter += step) {
-        calculate_phases(solver, time_counter, step, integration_step);
+        calculate_phases(solver, time_counter, step, int_step);
 
         store_dynamic(time_counter, collect_dynamic, output_dynamic);
 
         double previous_order = current_order;
         current_order = sync_local_order();
 
-        if (std::abs(current_order - previous_order) < 0.000001) {
+        if (std::abs(current_order - previous_order) < threshold) {
             // std::cout << "Warning: sync_network::simulate_dynamic - simulation is aborted due to low level of convergence rate (order = " << current_order << ")." << std::endl;
             break;
         }
-- 
2.43.0


From 75865f36c7aea38d6286e03b011f55e466971eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:14 +0000
Subject: [PATCH 101/135] fix: Sync - order parameter is exactly 1.0 when
 phases are the same

---
 ccore/src/nnet/sync.cpp   | 2 +-
 pyclustering/nnet/sync.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index d77e41a..6717a76 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -66,7 +66,7 @@ double sync_ordering::calculate_sync_order_parameter(const TypeContainer & p_con
     std::complex<double> exp_amount(0.0, 0.0);
 
     for (std::size_t index = 0; index < p_container.size(); index++) {
-        exp_amount += std::exp( std::complex<double>(0.0, p_getter(index)) );
+        exp_amount += std::exp( std::complex<double>(0.0, p_getter(index) - p_getter(0)) );
     }
 
     return std::min(std::abs(exp_amount) / static_cast<double>(p_container.size()), 1.0);
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index 83af21a..a5e2901 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -51,7 +51,7 @@ class order_estimator:
         exp_amount = 0.0
 
         for phase in oscillator_phases:
-            exp_amount += cmath.exp(1j * phase)
+            exp_amount += cmath.exp(1j * (phase - oscillator_phases[0]))
 
         return min(abs(exp_amount) / len(oscillator_phases), 1.0)
 
-- 
2.43.0


From 4616cf6c25cf3cbe0102ceae69057868eeedd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:07 +0000
Subject: [PATCH 102/135] fix: grid size is checked before network is created
 by core (wrong size terminates the process)

---
 pyclustering/nnet/__init__.py | 28 +++++++++++++++++++++-------
 pyclustering/nnet/legion.py   |  1 +
 pyclustering/nnet/pcnn.py     | 19 ++++---------------
 pyclustering/nnet/sync.py     |  1 +
 4 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/pyclustering/nnet/__init__.py b/pyclustering/nnet/__init__.py
index b3b4010..fa1db2c 100755
--- a/pyclustering/nnet/__init__.py
+++ b/pyclustering/nnet/__init__.py
@@ -147,24 +147,38 @@ class network:
         if conn_repr is None:
             self._conn_represent = conn_represent.MATRIX
         
+        self._prepare_grid(num_osc, type_conn, height, width)
+        self._create_structure(type_conn)
+    
+    
+    def _prepare_grid(self, num_osc, type_conn, height = None, width = None):
+        """!
+        @brief Defines height and width of the network in case of grid structure.
+        @details Exception is thrown if grid with such amount of oscillators can't be built. In case of non-grid
+                 structures nothing is done.
+
+        @param[in] num_osc (uint): Number of oscillators in the network.
+        @param[in] type_conn (conn_type): Type of connections that are used in the network between oscillators.
+        @param[in] height (uint): Number of oscillators in column of the network.
+        @param[in] width (uint): Number of oscillotors in row of the network.
+
+        """
         if (type_conn == conn_type.GRID_EIGHT) or (type_conn == conn_type.GRID_FOUR):
             if (height is not None) and (width is not None):
                 self.__height = height
                 self.__width = width
             else:
-                side_size = self._num_osc ** 0.5
+                side_size = num_osc ** 0.5
                 if (side_size - math.floor(side_size) > 0):
                     raise NameError("Invalid number of oscillators '" + str(num_osc) + "' in the network in case of grid structure (root square should be extractable for the number of oscillators).");
                 
                 self.__height = int(side_size)
                 self.__width = self.__height
         
-            if self.__height * self.__width != self._num_osc:
-                raise NameError('Width (' + str(self.__width) + ') x Height (' + str(self.__height) + ') must be equal to Size (' + str(self._num_osc) + ') in case of grid structure');
-        
-        self._create_structure(type_conn)
-    
-    
+            if self.__height * self.__width != num_osc:
+                raise NameError('Width (' + str(self.__width) + ') x Height (' + str(self.__height) + ') must be equal to Size (' + str(num_osc) + ') in case of grid structure');
+
+
     def __len__(self):
         """!
         @brief Returns size of the network that is defined by amount of oscillators.
diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 1332c9a..609a903 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -243,6 +243,7 @@ class legion_network(network):
             self._params = legion_parameters();
         
         if ( (ccore is True) and ccore_library.workable() ):
+            self._prepare_grid(num_osc, type_conn)
             self.__ccore_legion_pointer = wrapper.legion_create(num_osc, type_conn, self._params);
             
         else: 
diff --git a/pyclustering/nnet/pcnn.py b/pyclustering/nnet/pcnn.py
index 2a47859..ac4eeb7 100755
--- a/pyclustering/nnet/pcnn.py
+++ b/pyclustering/nnet/pcnn.py
@@ -354,21 +354,10 @@ class pcnn_network(network):
             self._params = pcnn_parameters()
         
         if (ccore is True) and ccore_library.workable():
-            network_height = height
-            network_width = width
-            
-            if (type_conn == conn_type.GRID_FOUR) or (type_conn == conn_type.GRID_EIGHT):
-                if (network_height is None) or (network_width is None):
-                    side_size = num_osc ** (0.5)
-                    if side_size - math.floor(side_size) > 0:
-                        raise NameError('Invalid number of oscillators in the network in case of grid structure')
-                
-                    network_height = int(side_size)
-                    network_width = int(side_size)
-            else:
-                network_height = 0
-                network_width = 0
-                
+            self._prepare_grid(num_osc, type_conn, height, width)
+
+            network_height = self.height
+            network_width = self.width
             self.__ccore_pcnn_pointer = wrapper.pcnn_create(num_osc, type_conn, network_height, network_width, self._params)
         else:
             super().__init__(num_osc, type_conn, type_conn_represent, height, width)
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index a5e2901..a075a7b 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -727,6 +727,7 @@ class sync_network(network):
         self._ccore_network_pointer = None;      # Pointer to CCORE Sync implementation of the network.
 
         if ( (ccore is True) and ccore_library.workable() ):
+            self._prepare_grid(num_osc, type_conn)
             self._ccore_network_pointer = wrapper.sync_create_network(num_osc, weight, frequency, type_conn, initial_phases);
             self._num_osc = num_osc;
             self._conn_represent = conn_represent.MATRIX;
-- 
2.43.0


From 040a633d5ef16eb1756df90fac3a435746ace5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:12 +0000
Subject: [PATCH 103/135] fix: SyncNet - minimum distance for connection
 weights in core

---
 ccore/src/cluster/syncnet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/syncnet.cpp b/ccore/src/cluster/syncnet.cpp
index 07a138a..0cd7d4c 100755
--- a/ccore/src/cluster/syncnet.cpp
+++ b/ccore/src/cluster/syncnet.cpp
@@ -85,8 +85,8 @@ void syncnet::create_connections(const double connectivity_radius, const bool en
                     maximum_distance = distance;
                 }
 
-                if (distance < maximum_distance) {
-                    maximum_distance = distance;
+                if (distance < minimum_distance) {
+                    minimum_distance = distance;
                 }
             }
         }
-- 
2.43.0


From 52b0cee0a8962ac3a75b274b82c858d377144223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:53 +0000
Subject: [PATCH 104/135] fix: HSyncNet - percent of increase is not rounded to
 zero by core

---
 ccore/src/cluster/hsyncnet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/hsyncnet.cpp b/ccore/src/cluster/hsyncnet.cpp
index bd00919..6797fd5 100755
--- a/ccore/src/cluster/hsyncnet.cpp
+++ b/ccore/src/cluster/hsyncnet.cpp
@@ -59,7 +59,7 @@ void hsyncnet::process(const double order, const solve_type solver, const bool c
 
     double radius = average_neighbor_distance(oscillator_locations, number_neighbors);
     
-    std::size_t increase_step = static_cast<std::size_t>(round(oscillator_locations->size() * static_cast<std::size_t>(m_increase_persent)));
+    std::size_t increase_step = static_cast<std::size_t>(oscillator_locations->size() * m_increase_persent);
     if (increase_step < 1) {
         increase_step = DEFAULT_INCREASE_STEP;
     }
-- 
2.43.0


From cc079e4bfd10f892a17892634b729147602ac1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:26 +0000
Subject: [PATCH 105/135] fix: HSyncNet - core returns clusters when amount of
 points is not greater than amount of clusters

---
 ccore/src/cluster/hsyncnet.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ccore/src/cluster/hsyncnet.cpp b/ccore/src/cluster/hsyncnet.cpp
index 6797fd5..be062fd 100755
--- a/ccore/src/cluster/hsyncnet.cpp
+++ b/ccore/src/cluster/hsyncnet.cpp
@@ -53,9 +53,6 @@ void hsyncnet::process(const double order, const solve_type solver, const bool c
     std::size_t number_neighbors = m_initial_neighbors;
     std::size_t current_number_clusters = m_oscillators.size();
 
-    if (current_number_clusters <= m_number_clusters) {
-        return;   /* Nothing to process, amount of objects is less than required amount of clusters. */
-    }
 
     double radius = average_neighbor_distance(oscillator_locations, number_neighbors);
     
-- 
2.43.0


From cc6ba032c546624e2780389d7eff0c98b97fc9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:42 +0000
Subject: [PATCH 106/135] fix: FSync - output dynamic contains real part of
 oscillators from the beginning of repeated simulation

---
 pyclustering/nnet/fsync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 9cd29ff..688d731 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -232,7 +232,7 @@ class fsync_network(network):
         
         """
         
-        dynamic_amplitude, dynamic_time = ([], []) if collect_dynamic is False else ([self.__amplitude], [0]);
+        dynamic_amplitude, dynamic_time = ([], []) if collect_dynamic is False else ([[numpy.ravel(numpy.real(amplitude))[0] for amplitude in self.__amplitude]], [0]);
         
         step = time / steps;
         int_step = step / 10.0;
-- 
2.43.0


From 5f42c2848c007717826da177002514ce6e6e2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:55 +0000
Subject: [PATCH 107/135] fix: Runge-Kutta-Fehlberg solver reaches end of time
 interval when there is no error

---
 .../pyclustering/differential/runge_kutta_fehlberg_45.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp b/ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp
index 65659cc..4659f5b 100755
--- a/ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp
+++ b/ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp
@@ -121,7 +121,7 @@ void runge_kutta_fehlberg_45(
             iteration_counter++;
         }
 
-        double s = 0.0;
+        double s = 1.0;     /* step is not changed when there is no error */
         if (err != 0.0) {
             s = 0.84 * std::pow( (tolerance * h / err), 0.25 );
         }
-- 
2.43.0


From ef2a5f74318e2fb316febdbb679c7b0ac6e3d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:18 +0000
Subject: [PATCH 108/135] fix: HSyncNet - data that consists of a single point
 (average distance to zero neighbors)

---
 ccore/src/utils/metric.cpp     | 4 ++++
 pyclustering/utils/__init__.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ccore/src/utils/metric.cpp b/ccore/src/utils/metric.cpp
index ff688eb..08cf929 100755
--- a/ccore/src/utils/metric.cpp
+++ b/ccore/src/utils/metric.cpp
@@ -20,6 +20,10 @@ namespace metric {
 
 
 double average_neighbor_distance(const std::vector<std::vector<double> > * points, const std::size_t num_neigh) {
+    if (num_neigh == 0) {
+        return 0.0;
+    }
+
     std::vector<std::vector<double> > dist_matrix( points->size(), std::vector<double>(points->size(), 0.0) );
     for (std::size_t i = 0; i < points->size(); i++) {
         for (std::size_t j = i + 1; j < points->size(); j++) {
diff --git a/pyclustering/utils/__init__.py b/pyclustering/utils/__init__.py
index 3313ad8..7da1934 100755
--- a/pyclustering/utils/__init__.py
+++ b/pyclustering/utils/__init__.py
@@ -210,6 +210,9 @@ def average_neighbor_distance(points, num_neigh):
     if num_neigh > len(points) - 1:
         raise NameError('Impossible to calculate average distance to neighbors '
                         'when number of object is less than number of neighbors.')
+
+    if num_neigh == 0:
+        return 0.0
     
     dist_matrix = [[0.0 for i in range(len(points))] for _ in range(len(points))]
     for i in range(0, len(points), 1):
-- 
2.43.0


From f3f771f3c16d6d05698b51aec933d73d3a1fcb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:53 +0000
Subject: [PATCH 109/135] fix: BSAS, MBSAS - results of the previous processing
 are not mixed with results of the next one

---
 pyclustering/cluster/bsas.py  | 4 ++--
 pyclustering/cluster/mbsas.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index e6db6c4..bd37277 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -163,8 +163,8 @@ class bsas:
 
 
     def __prcess_by_python(self):
-        self._clusters.append([0])
-        self._representatives.append(self._create_representative(self._data[0]))
+        self._clusters = [[0]]
+        self._representatives = [self._create_representative(self._data[0])]
 
         for i in range(1, len(self._data)):
             point = self._data[i]
diff --git a/pyclustering/cluster/mbsas.py b/pyclustering/cluster/mbsas.py
index aa2d704..bd75608 100755
--- a/pyclustering/cluster/mbsas.py
+++ b/pyclustering/cluster/mbsas.py
@@ -95,8 +95,8 @@ class mbsas(bsas):
 
 
     def __prcess_by_python(self):
-        self._clusters.append([0])
-        self._representatives.append(self._create_representative(self._data[0]))
+        self._clusters = [[0]]
+        self._representatives = [self._create_representative(self._data[0])]
 
         skipped_objects = []
 
-- 
2.43.0


From f7f3df6d129c984db593d6064f7f2e234ef42e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:00 +0000
Subject: [PATCH 110/135] fix: DBSCAN - results of the previous processing are
 not mixed with results of the next one

---
 pyclustering/cluster/dbscan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/dbscan.py b/pyclustering/cluster/dbscan.py
index af86524..780b1f9 100755
--- a/pyclustering/cluster/dbscan.py
+++ b/pyclustering/cluster/dbscan.py
@@ -135,6 +135,9 @@ class dbscan:
             if self.__data_type == 'points':
                 self.__kdtree = kdtree_balanced(self.__pointer_data, range(len(self.__pointer_data)))
 
+            self.__clusters = []
+            self.__noise = []
+
             self.__visited = [False] * len(self.__pointer_data)
             self.__belong = [False] * len(self.__pointer_data)
 
-- 
2.43.0


From 24566dcf9a2528ed283beddb92dd599058401d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:18 +0000
Subject: [PATCH 111/135] fix: K-Medoids - initial medoids in numpy array are
 not changed

---
 pyclustering/cluster/kmedoids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index a0545ea..dbf3864 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -384,7 +384,7 @@ class kmedoids:
         """
         self.__pointer_data = data
         self.__clusters = []
-        self.__medoid_indexes = initial_index_medoids[:]
+        self.__medoid_indexes = list(initial_index_medoids)
         self.__labels = [-1] * len(data)
         self.__distance_first_medoid = [float('inf')] * len(data)
         self.__distance_second_medoid = [float('inf')] * len(data)
-- 
2.43.0


From b0e86931e86334116faf0d070e99a20f45351f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:16 +0000
Subject: [PATCH 112/135] fix: Silhouette - metric that is passed by user is
 not changed

---
 pyclustering/cluster/silhouette.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index 4725bbb..2c490dc 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -10,6 +10,7 @@
 """
 
 
+import copy
 from enum import IntEnum
 
 import numpy
@@ -145,7 +146,7 @@ class silhouette:
         """
         self.__data = data
         self.__clusters = clusters
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         self.__data_type = kwargs.get('data_type', 'points')
 
         if self.__metric.get_type() != type_metric.USER_DEFINED:
-- 
2.43.0


From 33ecdbaf29c031437adfc41a76447ede41f38308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 113/135] fix: K-Means++ - metric that is passed by user is not
 changed

---
 pyclustering/cluster/center_initializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index e68a078..c377de2 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -12,6 +12,7 @@
 """
 
 
+import copy
 import numpy
 import random
 import warnings
@@ -200,7 +201,7 @@ class kmeans_plusplus_initializer:
         numpy.random.seed(random_seed)
         random.seed(random_seed)
 
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         self.__data_type = kwargs.get('data_type', 'points')
 
         self.__metric.enable_numpy_usage()
-- 
2.43.0


From 2eed0ddfbc231aa7e24bdb7b90428363a24a8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:33 +0000
Subject: [PATCH 114/135] fix: K-Medians - metric that is passed by user is not
 changed by prediction

---
 pyclustering/cluster/kmedians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/kmedians.py b/pyclustering/cluster/kmedians.py
index ccb387f..0606309 100755
--- a/pyclustering/cluster/kmedians.py
+++ b/pyclustering/cluster/kmedians.py
@@ -10,6 +10,7 @@
 """
 
 
+import copy
 import math
 import numpy
 
@@ -79,7 +80,7 @@ class kmedians:
         self.__total_wce = 0
 
         self.__itermax = kwargs.get('itermax', 100)
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         if self.__metric is None:
             self.__metric = distance_metric(type_metric.EUCLIDEAN_SQUARE)
 
-- 
2.43.0


From fe7c1105b4957bdbd6fe2e52e46bcfb88b574a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:05 +0000
Subject: [PATCH 115/135] fix: stretch of image pattern - filter that is
 supported by Pillow

---
 pyclustering/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/__init__.py b/pyclustering/utils/__init__.py
index 7da1934..8e3719e 100755
--- a/pyclustering/utils/__init__.py
+++ b/pyclustering/utils/__init__.py
@@ -145,7 +145,7 @@ def stretch_pattern(image_source):
     image_source = image_source.crop((ws, hs, we, he))
     
     # Stretch it to initial sizes
-    image_source = image_source.resize((wsize, hsize), Image.ANTIALIAS)
+    image_source = image_source.resize((wsize, hsize), Image.LANCZOS)
     
     # Transform image to simple array
     data = [pixel for pixel in image_source.getdata()]
-- 
2.43.0


From 0f90ef55b6518348fc55f691c79dec288ce5179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:21 +0000
Subject: [PATCH 116/135] fix: answer reader - clusters may appear in answer in
 any order

---
 pyclustering/samples/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclustering/samples/__init__.py b/pyclustering/samples/__init__.py
index f726f3e..f45eef1 100755
--- a/pyclustering/samples/__init__.py
+++ b/pyclustering/samples/__init__.py
@@ -75,10 +75,10 @@ class answer_reader:
             self.__noise.append(index_point)
         else:
             index_cluster = int(line)
-            if index_cluster >= len(self.__clusters):
-                self.__clusters.append([index_point])
-            else:
-                self.__clusters[index_cluster].append(index_point)
+            while index_cluster >= len(self.__clusters):
+                self.__clusters.append([])
+
+            self.__clusters[index_cluster].append(index_point)
 
 
     def __read_answer(self):
-- 
2.43.0


From 87e67b7aad8145b789f4cfca9834b6f78bcf5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:35 +0000
Subject: [PATCH 117/135] fix: graph - matrix representation is recognized

---
 pyclustering/utils/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/graph.py b/pyclustering/utils/graph.py
index 59b523d..167cd23 100755
--- a/pyclustering/utils/graph.py
+++ b/pyclustering/utils/graph.py
@@ -67,7 +67,7 @@ class graph:
                     break;
                 
                 for element in row:
-                    if ( (element != 0) or (element != 1) ):
+                    if ( (element != 0) and (element != 1) ):
                         self.__type_graph = type_graph_descr.GRAPH_VECTOR_DESCR;
     
     
-- 
2.43.0


From 659fe02f31700d24900879e0358e23c2bd1a6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:26 +0000
Subject: [PATCH 118/135] fix: ellipse description - angle of the axis with the
 biggest variance

---
 pyclustering/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/__init__.py b/pyclustering/utils/__init__.py
index 8e3719e..bcfe378 100755
--- a/pyclustering/utils/__init__.py
+++ b/pyclustering/utils/__init__.py
@@ -465,7 +465,7 @@ def calculate_ellipse_description(covariance, scale = 2.0):
     eigh_values, eigh_vectors = numpy.linalg.eigh(covariance)
     order = eigh_values.argsort()[::-1]
     
-    values, vectors = eigh_values[order], eigh_vectors[order]
+    values, vectors = eigh_values[order], eigh_vectors[:, order]
     angle = numpy.degrees(numpy.arctan2(*vectors[:,0][::-1]))
 
     if 0.0 in values:
-- 
2.43.0


From d42fd29519aef58a0a63bd88e38e90f12ee169e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:48 +0000
Subject: [PATCH 119/135] fix: SOM - train again on data of another dimension

---
 ccore/src/nnet/som.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index f681b22..fbbda68 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -193,7 +193,7 @@ void som::create_connections(const som_conn_type type) {
 void som::create_initial_weights(const som_init_type type) {
     size_t dimension = (*m_data)[0].size();
 
-    m_weights.resize(m_size, std::vector<double>(dimension, 0.0));
+    m_weights.assign(m_size, std::vector<double>(dimension, 0.0));
 
     std::vector<double> maximum_value_dimension(dimension, -std::numeric_limits<double>::max());
     std::vector<double> minimum_value_dimension(dimension, std::numeric_limits<double>::max());
-- 
2.43.0


From 20282d2e91c59f7878edf394fe634bfee190bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:07 +0000
Subject: [PATCH 120/135] fix: SOM - amount of epochs when the training is not
 stopped

---
 ccore/src/nnet/som.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index fbbda68..d91286b 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -426,7 +426,7 @@ size_t som::train(const dataset & input_data, const size_t num_epochs, bool auto
         }
     }
 
-    return epouch;
+    return m_epouchs;
 }
 
 
-- 
2.43.0


From 61793083dc0b60ce2c9915321d697c03ed8e3ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:27 +0000
Subject: [PATCH 121/135] fix: SOM - random weights around the data center

---
 ccore/src/nnet/som.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index d91286b..c74aff1 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -288,7 +288,21 @@ void som::create_initial_weights(const som_init_type type) {
             break;
         }
 
-        case som_init_type::SOM_RANDOM_CENTROID:
+        case som_init_type::SOM_RANDOM_CENTROID: {
+            /* Random weights around the center of the input data. */
+            std::uniform_real_distribution<double> position_distribution(-0.5, 0.5);
+
+            for (size_t i = 0; i < m_size; i++) {
+                std::vector<double> & neuron_weight = m_weights[i];
+
+                for (size_t dim = 0; dim < dimension; dim++) {
+                    neuron_weight[dim] = center_value_dimension[dim] + position_distribution(generator);
+                }
+            }
+
+            break;
+        }
+
         case som_init_type::SOM_RANDOM: {
             /* Random weights of input data. */
             std::uniform_real_distribution<double> position_distribution(-0.5, 0.5);
-- 
2.43.0


From 467fb567628f0e4b89ea09eb6bdf7ff487ce2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:47 +0000
Subject: [PATCH 122/135] fix: SOM - distance matrix of a single neuron

---
 pyclustering/nnet/som.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 029cefa..5f58970 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -744,7 +744,8 @@ class som:
                     distance_matrix[i][j] += euclidean_distance_square(self._weights[neuron_index],
                                                                        self._weights[neighbor_index])
 
-                distance_matrix[i][j] /= len(self._neighbors[neuron_index])
+                if len(self._neighbors[neuron_index]) > 0:
+                    distance_matrix[i][j] /= len(self._neighbors[neuron_index])
 
         return distance_matrix
 
-- 
2.43.0


From 8965d354d7962a2584488832ad55e96436bb7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:06 +0000
Subject: [PATCH 123/135] fix: SOM - data of a stored map is restored

---
 pyclustering/nnet/som.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 5f58970..e8e7cba 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -959,7 +959,8 @@ class som:
                           'location': self._location,
                           'weights': self._weights,
                           'award': self._award,
-                          'capture_objects': self._capture_objects}}
+                          'capture_objects': self._capture_objects,
+                          'data': self._data}}
 
     def __download_dump_from_ccore(self):
         self._location = self.__initialize_locations(self._rows, self._cols)
@@ -977,6 +978,7 @@ class som:
         self._learn_rate = state_dump['learn_rate']
         self._params = state_dump['params']
         self._neighbors = None
+        self._data = state_dump.get('data', None)
 
     def __upload_dump_to_python(self, state_dump):
         self.__ccore_som_pointer = None
-- 
2.43.0


From e49f5cf8165b1d71842b3dc1c9c31dae2411305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:25 +0000
Subject: [PATCH 124/135] fix: SOM - parameters of the user are not changed

---
 pyclustering/nnet/som.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index e8e7cba..197699e 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -9,6 +9,7 @@
 
 """
 
+import copy
 import math
 import random
 
@@ -255,7 +256,7 @@ class som:
 
         self.__ccore_som_pointer = None
 
-        self._params = parameters or som_parameters()
+        self._params = copy.copy(parameters) if parameters is not None else som_parameters()
 
         if self._params.init_radius is None:
             self._params.init_radius = self.__initialize_initial_radius(rows, cols)
-- 
2.43.0


From 32cc9fdc06b72d46e3c56195ee200c3797110935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:13 +0000
Subject: [PATCH 125/135] fix: LEGION - threshold of the global inhibitor is
 passed to the core

---
 pyclustering/core/legion_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/core/legion_wrapper.py b/pyclustering/core/legion_wrapper.py
index 8f540dd..8e3a1bc 100755
--- a/pyclustering/core/legion_wrapper.py
+++ b/pyclustering/core/legion_wrapper.py
@@ -48,6 +48,7 @@ def legion_create(size, conn_type, params):
     c_params.teta_x = params.teta_x;
     c_params.teta_p = params.teta_p;
     c_params.teta_xz = params.teta_xz;
+    c_params.teta_zx = params.teta_zx;
     c_params.T = params.T;
     c_params.mu = params.mu;
     c_params.Wz = params.Wz;
-- 
2.43.0


From 747a0eb91b1e7912f123b60802eaa75783533246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:37 +0000
Subject: [PATCH 126/135] fix: LEGION - simulation without potential

---
 ccore/src/nnet/legion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/legion.cpp b/ccore/src/nnet/legion.cpp
index a55417a..e1c5fb7 100755
--- a/ccore/src/nnet/legion.cpp
+++ b/ccore/src/nnet/legion.cpp
@@ -254,7 +254,7 @@ void legion_network::neuron_states(const double t, const differ_state<double> &
 
 
 void legion_network::neuron_simplify_states(const double t, const differ_state<double> & inputs, const differ_extra<void *> & argv, differ_state<double> & outputs) {
-    std::size_t index = *(std::size_t *) argv[0];
+    std::size_t index = (std::size_t) argv[0];
 
     const double x = inputs[0];
     const double y = inputs[1];
-- 
2.43.0


From fed045f9bb05c89fbd08de746a19fbb60f5797ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:01 +0000
Subject: [PATCH 127/135] fix: LEGION - amount of simulation steps in the core

---
 ccore/src/nnet/legion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccore/src/nnet/legion.cpp b/ccore/src/nnet/legion.cpp
index e1c5fb7..1863603 100755
--- a/ccore/src/nnet/legion.cpp
+++ b/ccore/src/nnet/legion.cpp
@@ -69,7 +69,8 @@ void legion_network::simulate(const unsigned int steps,
 
     store_dynamic(0.0, collect_dynamic, output_dynamic);  /* store initial state */
 
-    for (double cur_time = step; cur_time < time; cur_time += step) {
+    for (unsigned int cur_step = 1; cur_step < steps; cur_step++) {
+        const double cur_time = step * cur_step;
         calculate_states(stimulus, solver, cur_time, step, int_step);
 
         store_dynamic(cur_time, collect_dynamic, output_dynamic);	/* store initial state */
-- 
2.43.0


From 289d4fae3493580e872f86104d36dad4e1c2505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:18 +0000
Subject: [PATCH 128/135] fix: LEGION - output dynamic of the last step only

---
 pyclustering/nnet/legion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 609a903..216b42c 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -389,9 +389,9 @@ class legion_network(network):
                 dyn_time.append(t)
                 dyn_ginh.append(self._global_inhibitor)
             else:
-                dyn_exc = self._excitatory
-                dyn_time = t
-                dyn_ginh = self._global_inhibitor
+                dyn_exc = [self._excitatory]
+                dyn_time = [t]
+                dyn_ginh = [self._global_inhibitor]
         
         return legion_dynamic(dyn_exc, dyn_ginh, dyn_time);
     
-- 
2.43.0


From 0fa7625f9d503d3ca4331360eaa9113e1cc96c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:41 +0000
Subject: [PATCH 129/135] fix: LEGION - simulation time of the output dynamic

---
 pyclustering/nnet/legion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 216b42c..898ed7b 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -134,7 +134,7 @@ class legion_dynamic:
         if (self.__ccore_legion_dynamic_pointer is not None):
             return wrapper.legion_dynamic_get_time(self.__ccore_legion_dynamic_pointer);
         
-        return list(range(len(self)));
+        return self._time;
     
     
     def __init__(self, output, inhibitor, time, ccore = None):
-- 
2.43.0


From 8a955266e51588e2c2b2560ad0faa44bb819b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:48 +0000
Subject: [PATCH 130/135] fix: PCNN - ensembles of the first recorded step

---
 pyclustering/nnet/pcnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/pcnn.py b/pyclustering/nnet/pcnn.py
index ac4eeb7..c7ee70c 100755
--- a/pyclustering/nnet/pcnn.py
+++ b/pyclustering/nnet/pcnn.py
@@ -156,7 +156,7 @@ class pcnn_dynamic:
         
         number_oscillators = len(self.__dynamic[0])
         
-        for t in range(len(self.__dynamic) - 1, 0, -1):
+        for t in range(len(self.__dynamic) - 1, -1, -1):
             sync_ensemble = []
             for i in range(number_oscillators):
                 if self.__dynamic[t][i] == self.__OUTPUT_TRUE:
-- 
2.43.0


From ce2c37ca86404ac5b267159c4f7376a4b0a9cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 131/135] fix: Hodgkin-Huxley network - time of recorded steps

---
 ccore/src/nnet/hhn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/hhn.cpp b/ccore/src/nnet/hhn.cpp
index ad88e04..486f18c 100755
--- a/ccore/src/nnet/hhn.cpp
+++ b/ccore/src/nnet/hhn.cpp
@@ -534,7 +534,7 @@ void hhn_network::simulate(const std::size_t p_steps, const double p_time, const
 
         cur_time += step;
 
-        store_dynamic(cur_time + step, p_output_dynamic);
+        store_dynamic(cur_time, p_output_dynamic);
 
         update_peripheral_current();
     }
-- 
2.43.0


From d43b30b33ab7dd0fbf1ff3fdb90de0959f9a6157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:08 +0000
Subject: [PATCH 132/135] fix: CNN - connection that belongs to several
 triangles is counted once

---
 pyclustering/nnet/cnn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/nnet/cnn.py b/pyclustering/nnet/cnn.py
index 11aac9f..0fe219e 100755
--- a/pyclustering/nnet/cnn.py
+++ b/pyclustering/nnet/cnn.py
@@ -410,6 +410,9 @@ class cnn_network:
                     index_point1 = triangle[index_tri_point1]
                     index_point2 = triangle[index_tri_point2]
                     
+                    if self.__weights[index_point1][index_point2] != 0.0:
+                        continue
+                    
                     weight = self.__calculate_weight(stimulus[index_point1], stimulus[index_point2])
                     
                     self.__weights[index_point1][index_point2] = weight
-- 
2.43.0


From 7adb72656e44cabcc3017b2c29362998ceb95363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:23 +0000
Subject: [PATCH 133/135] fix: Hodgkin-Huxley network - external current of the
 first step

---
 pyclustering/nnet/hhn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 70f9144..82c61a8 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -233,7 +233,7 @@ class hhn_network(network):
             self._pulse_generation_time = [[] for i in range(self._num_osc)]
             self._pulse_generation = [False] * self._num_osc
             
-            self._noise = [random.random() * 2.0 - 1.0 for i in range(self._num_osc)]
+            self._noise = [1.0 + 0.01 * (random.random() * 2.0 - 1.0) for i in range(self._num_osc)]
             
             self._central_element = [central_element(), central_element()]
 
-- 
2.43.0


From 192f1be15435bbd110c29715b55d85c68cc2bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:37 +0000
Subject: [PATCH 134/135] fix: PCNN - linking strength is passed to the core

---
 pyclustering/core/pcnn_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/core/pcnn_wrapper.py b/pyclustering/core/pcnn_wrapper.py
index 2b78533..13cb9bc 100755
--- a/pyclustering/core/pcnn_wrapper.py
+++ b/pyclustering/core/pcnn_wrapper.py
@@ -39,6 +39,7 @@ def pcnn_create(size, conn_type, height, width, params):
     c_parameters.AT = params.AT;
     c_parameters.W = params.W;
     c_parameters.M = params.M;
+    c_parameters.B = params.B;
     c_parameters.FAST_LINKING = params.FAST_LINKING;
 
     ccore.pcnn_create.restype = POINTER(c_void_p);
-- 
2.43.0


From 6dcb3624f7e2946b9193a64a22003662896fe947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:37 +0000
Subject: [PATCH 135/135] fix: PCNN - fast linking without a fixed point comes
 to the end

---
 ccore/src/nnet/pcnn.cpp   | 8 ++++++++
 pyclustering/nnet/pcnn.py | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ccore/src/nnet/pcnn.cpp b/ccore/src/nnet/pcnn.cpp
index d17ec68..acb46d5 100755
--- a/ccore/src/nnet/pcnn.cpp
+++ b/ccore/src/nnet/pcnn.cpp
@@ -9,6 +9,7 @@
 
 #include <pyclustering/nnet/pcnn.hpp>
 
+#include <set>
 #include <stdexcept>
 #include <unordered_set>
 
@@ -116,6 +117,7 @@ void pcnn::fast_linking(const std::vector<double> & feeding, std::vector<double>
 
   bool previous_output_change = true;
   bool current_output_change = false;
+  std::set<std::vector<double>> visited_outputs;
 
   while (previous_output_change) {
       for (std::size_t index = 0; index < size(); index++) {
@@ -146,6 +148,12 @@ void pcnn::fast_linking(const std::vector<double> & feeding, std::vector<double>
           }
       }
 
+      /* outputs may alternate without a fixed point, in this case linking is over when they are repeated */
+      visited_outputs.insert(previous_outputs);
+      if (visited_outputs.find(output) != visited_outputs.end()) {
+          current_output_change = false;
+      }
+
       /* check for changes for avoiding useless operation copy */
       if (current_output_change) {
           std::copy(output.begin(), output.end(), previous_outputs.begin());
diff --git a/pyclustering/nnet/pcnn.py b/pyclustering/nnet/pcnn.py
index c7ee70c..3ef75e9 100755
--- a/pyclustering/nnet/pcnn.py
+++ b/pyclustering/nnet/pcnn.py
@@ -468,6 +468,7 @@ class pcnn_network(network):
         if self._params.FAST_LINKING is True:
             output_change = True    # Set it True for the for the first iteration.
             previous_outputs = outputs[:]
+            visited_outputs = set()
 
             while output_change is True:
                 current_output_change = False
@@ -492,7 +493,9 @@ class pcnn_network(network):
 
                     current_output_change |= (outputs[index] != previous_outputs[index])
                 
-                output_change = current_output_change
+                # Outputs may alternate without a fixed point, in this case linking is over when they are repeated.
+                visited_outputs.add(tuple(previous_outputs))
+                output_change = current_output_change and (tuple(outputs) not in visited_outputs)
                 
                 if output_change is True:
                     previous_outputs = outputs[:]
-- 
2.43.0


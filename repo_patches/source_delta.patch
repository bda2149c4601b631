From d1751d99662d93f7e66eb1ee5f341a10d8d444bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 01/56] fix: parallel loops divide by zero on a machine with
 one processor core

AMOUNT_THREADS was zero when a single core (or an unknown number of cores) is
reported, and parallel_for / parallel_for_each divide by it.
---
 ccore/include/pyclustering/parallel/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/parallel/parallel.hpp b/ccore/include/pyclustering/parallel/parallel.hpp
index 41a9e89..39264c3 100755
--- a/ccore/include/pyclustering/parallel/parallel.hpp
+++ b/ccore/include/pyclustering/parallel/parallel.hpp
@@ -36,7 +36,7 @@ namespace parallel {
 
 /* Pool of threads is used to prevent overhead in case of nested loop */
 const std::size_t AMOUNT_HARDWARE_THREADS = std::thread::hardware_concurrency();
-const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 0;
+const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 1;
 
 
 /*!
-- 
2.43.0


From ed6fffd703a0cd65df668798c279bef3278ec177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 02/56] fix: second wait for a completed task of the thread
 pool never returns

task::wait_ready() acquired the spin lock that marks a task as unfinished and
kept it, so any further wait on the same task - by the same or by another
thread - spun forever.
---
 ccore/src/parallel/task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccore/src/parallel/task.cpp b/ccore/src/parallel/task.cpp
index 7bcdc83..aebc73d 100755
--- a/ccore/src/parallel/task.cpp
+++ b/ccore/src/parallel/task.cpp
@@ -29,6 +29,7 @@ void task::set_ready() {
 
 void task::wait_ready() const {
     m_ready.lock();
+    m_ready.unlock();   /* let other (and repeated) waits through */
 }
 
 
-- 
2.43.0


From 33fcda49daae281b979029691d014bf89bf2a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 03/56] fix: data race on the stop flag of the thread executor

The flag is read by the executor thread and written by the thread that destroys
the pool without any synchronisation.
---
 ccore/include/pyclustering/parallel/thread_executor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/parallel/thread_executor.hpp b/ccore/include/pyclustering/parallel/thread_executor.hpp
index 7890ea4..6f05a59 100755
--- a/ccore/include/pyclustering/parallel/thread_executor.hpp
+++ b/ccore/include/pyclustering/parallel/thread_executor.hpp
@@ -10,6 +10,7 @@
 #pragma once
 
 
+#include <atomic>
 #include <condition_variable>
 #include <thread>
 
@@ -49,7 +50,7 @@ public:
     using ptr           = std::shared_ptr<thread_executor>;
 
 private:
-    bool                    m_stop            = true;
+    std::atomic<bool>       m_stop            { true };
     task_getter             m_getter          = nullptr;
     std::thread             m_executor;
 
-- 
2.43.0


From a510ae83b60b3b470835dadfb123f210679ad3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 04/56] fix: thread pool admits tasks "if free" when no thread
 is free

The counters were initialised after the executors had been started (without the
lock), every executor counted itself once more when it asked for its first task,
and tasks submitted by add_task() did not reserve the thread that is going to
serve them. So add_task_if_free() accepted tasks that had to wait for other
tasks. Count the threads without a task and accept while there are more of them
than queued tasks.
---
 .../pyclustering/parallel/thread_pool.hpp     |  3 +--
 ccore/src/parallel/thread_executor.cpp        |  3 ++-
 ccore/src/parallel/thread_pool.cpp            | 21 +++++++------------
 3 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/ccore/include/pyclustering/parallel/thread_pool.hpp b/ccore/include/pyclustering/parallel/thread_pool.hpp
index 33d21cf..166a6cf 100755
--- a/ccore/include/pyclustering/parallel/thread_pool.hpp
+++ b/ccore/include/pyclustering/parallel/thread_pool.hpp
@@ -53,8 +53,7 @@ private:
 
     std::condition_variable         m_queue_not_empty_cond;
 
-    std::size_t                     m_free = 0;
-    std::size_t                     m_reserve = 0;
+    std::size_t                     m_free = 0;     /* amount of threads that do not execute any task */
     bool                            m_stop = false;
 
 public:
diff --git a/ccore/src/parallel/thread_executor.cpp b/ccore/src/parallel/thread_executor.cpp
index c988510..ec32a01 100755
--- a/ccore/src/parallel/thread_executor.cpp
+++ b/ccore/src/parallel/thread_executor.cpp
@@ -25,8 +25,9 @@ thread_executor::thread_executor(const task_getter & p_getter) :
 
 
 void thread_executor::run() {
+    task::ptr task = nullptr;
+
     while(!m_stop) {
-        task::ptr task = nullptr;
         m_getter(task);
 
         if (task) {
diff --git a/ccore/src/parallel/thread_pool.cpp b/ccore/src/parallel/thread_pool.cpp
index ac9b161..1a8cf0b 100755
--- a/ccore/src/parallel/thread_pool.cpp
+++ b/ccore/src/parallel/thread_pool.cpp
@@ -68,14 +68,12 @@ task::ptr thread_pool::add_task_if_free(const task::proc & p_raw_task) {
     {
         std::lock_guard<std::mutex> lock_common(m_common_mutex);
 
-        if (m_reserve > 0) {
+        if (m_free > m_queue.size()) {      /* each queued task is going to occupy a free thread */
             client_task = std::make_shared<task>(p_raw_task);
 
             m_queue.push_back(client_task);
 
             m_queue_not_empty_cond.notify_one();
-
-            m_reserve--;
         }
     }
 
@@ -92,24 +90,25 @@ void thread_pool::initialize(const std::size_t p_size) {
     m_pool    = { };
     m_queue   = { };
     m_stop    = false;
+    m_free    = p_size;     /* must be set before the executors start to take tasks */
 
     thread_executor::task_getter getter = std::bind(&thread_pool::get_task, this, std::placeholders::_1);
 
     for (std::size_t index = 0; index < p_size; index++) {
         m_pool.emplace_back(std::make_shared<thread_executor>(getter));
     }
-
-    m_reserve = m_free = p_size;
 }
 
 
 void thread_pool::get_task(task::ptr & p_task) {
-    std::unique_lock<std::mutex> lock_common(m_common_mutex);
-
+    const bool served = (p_task != nullptr);    /* the executor asks for the next task after this one */
     p_task = nullptr;
 
-    m_reserve++;
-    m_free++;
+    std::unique_lock<std::mutex> lock_common(m_common_mutex);
+
+    if (served) {
+        m_free++;
+    }
 
     while(m_queue.empty() && !m_stop) {
         m_queue_not_empty_cond.wait(lock_common, [this]{ return !m_queue.empty() || m_stop; });
@@ -119,10 +118,6 @@ void thread_pool::get_task(task::ptr & p_task) {
         p_task = m_queue.front();
         m_queue.pop_front();
 
-        if (m_reserve == m_free) {
-            m_reserve--;
-        }
-
         m_free--;
     }
 }
-- 
2.43.0


From debb30b7541648f2d50d14914aa8f4ab21046699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 05/56] fix: k-means++ initializer used numpy.warnings, which
 numpy no longer provides

---
 pyclustering/cluster/center_initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 1e6885b..2d0bb1c 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -245,7 +245,7 @@ class kmeans_plusplus_initializer:
                 dataset_differences[index_center] = numpy.array(self.__data[centers[index_center]])
 
         with warnings.catch_warnings():
-            numpy.warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
+            warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
             shortest_distances = numpy.nanmin(dataset_differences, axis=0)
 
         return shortest_distances
-- 
2.43.0


From 3bf22133a90ca3ac05493998f174d5f8f463b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 06/56] fix: genetic algorithm and Fourier sync network used
 numpy type names that numpy no longer has

---
 pyclustering/cluster/ga.py | 2 +-
 pyclustering/nnet/fsync.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/ga.py b/pyclustering/cluster/ga.py
index d27728a..bc5bf5e 100755
--- a/pyclustering/cluster/ga.py
+++ b/pyclustering/cluster/ga.py
@@ -521,7 +521,7 @@ class genetic_algorithm:
         probabilities = ga_math.calc_probability_vector(fitness)
 
         # Select P chromosomes with probabilities
-        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=numpy.int)
+        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=int)
 
         # Selecting
         for _idx in range(len(chromosomes)):
diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 6610737..16bf673 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -335,7 +335,7 @@ class fsync_network(network):
         
         """
         
-        z = amplitude.view(numpy.complex);
+        z = amplitude.view(complex);
         dzdt = self.__landau_stuart(z, argv) + self.__synchronization_mechanism(z, argv);
         
         return dzdt.view(numpy.float64);
\ No newline at end of file
-- 
2.43.0


From fe69bd1065cb94f367825960de3da53dd3da2714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:06 +0000
Subject: [PATCH 07/56] fix: LEGION without potential dereferenced the
 oscillator index as a pointer

---
 ccore/src/nnet/legion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/legion.cpp b/ccore/src/nnet/legion.cpp
index a55417a..e1c5fb7 100755
--- a/ccore/src/nnet/legion.cpp
+++ b/ccore/src/nnet/legion.cpp
@@ -254,7 +254,7 @@ void legion_network::neuron_states(const double t, const differ_state<double> &
 
 
 void legion_network::neuron_simplify_states(const double t, const differ_state<double> & inputs, const differ_extra<void *> & argv, differ_state<double> & outputs) {
-    std::size_t index = *(std::size_t *) argv[0];
+    std::size_t index = (std::size_t) argv[0];
 
     const double x = inputs[0];
     const double y = inputs[1];
-- 
2.43.0


From 2eaad2f8a48c581e83acdbe9ea19ffd1a1555dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:06 +0000
Subject: [PATCH 08/56] fix: CLARANS computed a wrong cost of a replacement and
 did not terminate

---
 pyclustering/cluster/clarans.py | 99 +++++++--------------------------
 1 file changed, 19 insertions(+), 80 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 1928cd1..2e2595e 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -94,7 +94,7 @@ class clarans:
             self.__optimize_configuration()
             
             # obtain cost of current cluster configuration and compare it with the best obtained
-            estimation = self.__calculate_estimation()
+            estimation = self.__calculate_cost(self.__current)
             if estimation < self.__optimal_estimation:
                 self.__optimal_medoids = self.__current[:]
                 self.__optimal_estimation = estimation
@@ -175,11 +175,14 @@ class clarans:
         @brief Finds quasi-optimal medoids and updates in line with them clusters in line with algorithm's rules. 
         
         """
+        if self.__number_clusters == len(self.__pointer_data):
+            return  # every point is a medoid - there are no candidates
+
+        current_cost = self.__calculate_cost(self.__current)
         index_neighbor = 0
         while (index_neighbor < self.__maxneighbor):
             # get random current medoid that is to be replaced
-            current_medoid_index = self.__current[random.randint(0, self.__number_clusters - 1)]
-            current_medoid_cluster_index = self.__belong[current_medoid_index]
+            current_medoid_cluster_index = random.randint(0, self.__number_clusters - 1)
             
             # get new candidate to be medoid
             candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
@@ -187,51 +190,15 @@ class clarans:
             while candidate_medoid_index in self.__current:
                 candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
             
-            candidate_cost = 0.0
-            for point_index in range(0, len(self.__pointer_data)):
-                if point_index not in self.__current:
-                    # get non-medoid point and its medoid
-                    point_cluster_index = self.__belong[point_index]
-                    point_medoid_index = self.__current[point_cluster_index]
-                    
-                    # get other medoid that is nearest to the point (except current and candidate)
-                    other_medoid_index = self.__find_another_nearest_medoid(point_index, current_medoid_index)
-                    other_medoid_cluster_index = self.__belong[other_medoid_index]
-                    
-                    # for optimization calculate all required distances
-                    # from the point to current medoid
-                    distance_current = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                    
-                    # from the point to candidate median
-                    distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[candidate_medoid_index])
-                    
-                    # from the point to nearest (own) medoid
-                    distance_nearest = float('inf')
-                    if ( (point_medoid_index != candidate_medoid_index) and (point_medoid_index != current_medoid_cluster_index) ):
-                        distance_nearest = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[point_medoid_index])
-                    
-                    # apply rules for cost calculation
-                    if (point_cluster_index == current_medoid_cluster_index):
-                        # case 1:
-                        if (distance_candidate >= distance_nearest):
-                            candidate_cost += distance_nearest - distance_current
-                        
-                        # case 2:
-                        else:
-                            candidate_cost += distance_candidate - distance_current
-                    
-                    elif (point_cluster_index == other_medoid_cluster_index):
-                        # case 3 ('nearest medoid' is the representative object of that cluster and object is more similar to 'nearest' than to 'candidate'):
-                        if (distance_candidate > distance_nearest):
-                            pass;
-                        
-                        # case 4:
-                        else:
-                            candidate_cost += distance_candidate - distance_nearest
+            # replace the medoid by the candidate only if it makes the configuration better
+            candidate_medoids = self.__current[:]
+            candidate_medoids[current_medoid_cluster_index] = candidate_medoid_index
+            candidate_cost = self.__calculate_cost(candidate_medoids)
             
-            if (candidate_cost < 0):
+            if candidate_cost < current_cost:
                 # set candidate that has won
-                self.__current[current_medoid_cluster_index] = candidate_medoid_index
+                self.__current = candidate_medoids
+                current_cost = candidate_cost
                 
                 # recalculate clusters
                 self.__update_clusters(self.__current)
@@ -243,42 +210,14 @@ class clarans:
                 index_neighbor += 1
     
     
-    def __find_another_nearest_medoid(self, point_index, current_medoid_index):
+    def __calculate_cost(self, medoids):
         """!
-        @brief Finds the another nearest medoid for the specified point that is differ from the specified medoid. 
-        
-        @param[in] point_index: index of point in dataspace for that searching of medoid in current list of medoids is perfomed.
-        @param[in] current_medoid_index: index of medoid that shouldn't be considered as a nearest.
-        
-        @return (uint) index of the another nearest medoid for the point.
-        
-        """
-        other_medoid_index = -1
-        other_distance_nearest = float('inf')
-        for index_medoid in self.__current:
-            if (index_medoid != current_medoid_index):
-                other_distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                
-                if other_distance_candidate < other_distance_nearest:
-                    other_distance_nearest = other_distance_candidate
-                    other_medoid_index = index_medoid
+        @brief Calculates cost of the configuration: sum of distances from each point to its nearest medoid.
         
-        return other_medoid_index
-    
-    
-    def __calculate_estimation(self):
-        """!
-        @brief Calculates estimation (cost) of the current clusters. The lower the estimation,
-               the more optimally configuration of clusters.
+        @param[in] medoids (list): Indexes of points that are considered as medoids.
         
-        @return (double) estimation of current clusters.
+        @return (double) Cost of the configuration.
         
         """
-        estimation = 0.0
-        for index_cluster in range(0, len(self.__clusters)):
-            cluster = self.__clusters[index_cluster]
-            index_medoid = self.__current[index_cluster]
-            for index_point in cluster:
-                estimation += euclidean_distance_square(self.__pointer_data[index_point], self.__pointer_data[index_medoid])
-        
-        return estimation
+        return sum(min(euclidean_distance_square(point, self.__pointer_data[index_medoid]) for index_medoid in medoids)
+                   for point in self.__pointer_data)
-- 
2.43.0


From 24be0770d9596e7777257c9b5a8fd76c6ba770b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 09/56] fix: BSAS, MBSAS and TTSAS overwrite points of the
 caller's data with cluster representatives

---
 pyclustering/cluster/bsas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index c12c379..e7f18fc 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -9,6 +9,8 @@
 """
 
 
+import copy
+
 from pyclustering.core.wrapper import ccore_library
 from pyclustering.core.bsas_wrapper import bsas as bsas_wrapper
 from pyclustering.core.metric_wrapper import metric_wrapper
@@ -241,11 +243,13 @@ class bsas:
 
         """
         length = len(self._clusters[index_cluster])
-        rep = self._representatives[index_cluster]
+        rep = copy.copy(self._representatives[index_cluster])   # it may be an object of the input data
 
         for dimension in range(len(rep)):
             rep[dimension] = ((length - 1) * rep[dimension] + point[dimension]) / length
 
+        self._representatives[index_cluster] = rep
+
 
     def _verify_arguments(self):
         """!
-- 
2.43.0


From d3ff2597eb2db3d30451f5d2555289ffd73dff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 10/56] fix: random state 0 was ignored by the native x-means,
 g-means, elbow, silhouette search and SOM

---
 pyclustering/core/elbow_wrapper.py      | 2 +-
 pyclustering/core/gmeans_wrapper.py     | 2 +-
 pyclustering/core/silhouette_wrapper.py | 2 +-
 pyclustering/core/som_wrapper.py        | 2 +-
 pyclustering/core/xmeans_wrapper.py     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/core/elbow_wrapper.py b/pyclustering/core/elbow_wrapper.py
index f96c1c7..8904303 100755
--- a/pyclustering/core/elbow_wrapper.py
+++ b/pyclustering/core/elbow_wrapper.py
@@ -28,7 +28,7 @@ class elbow_center_initializer(IntEnum):
 
 
 def elbow(sample, kmin, kmax, kstep, initializer, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/gmeans_wrapper.py b/pyclustering/core/gmeans_wrapper.py
index f7a930a..5d9bfac 100755
--- a/pyclustering/core/gmeans_wrapper.py
+++ b/pyclustering/core/gmeans_wrapper.py
@@ -15,7 +15,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def gmeans(sample, kinit, tolerance, repeat, kmax, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/silhouette_wrapper.py b/pyclustering/core/silhouette_wrapper.py
index 96aa7a1..08bae66 100755
--- a/pyclustering/core/silhouette_wrapper.py
+++ b/pyclustering/core/silhouette_wrapper.py
@@ -38,7 +38,7 @@ def silhoeutte(sample, clusters, pointer_metric, data_type):
 
 
 def silhoeutte_ksearch(sample, kmin, kmax, allocator, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/som_wrapper.py b/pyclustering/core/som_wrapper.py
index a9ad9fd..54e72b1 100755
--- a/pyclustering/core/som_wrapper.py
+++ b/pyclustering/core/som_wrapper.py
@@ -58,7 +58,7 @@ def som_create(rows, cols, conn_type, parameters):
     c_params.init_radius = parameters.init_radius
     c_params.init_learn_rate = parameters.init_learn_rate
     c_params.adaptation_threshold = parameters.adaptation_threshold
-    c_params.random_state = parameters.random_state or -1
+    c_params.random_state = -1 if parameters.random_state is None else parameters.random_state
     
     ccore.som_create.restype = POINTER(c_void_p)
     som_pointer = ccore.som_create(c_uint(rows), c_uint(cols), c_uint(conn_type), pointer(c_params))
diff --git a/pyclustering/core/xmeans_wrapper.py b/pyclustering/core/xmeans_wrapper.py
index a4ca5c0..6337075 100755
--- a/pyclustering/core/xmeans_wrapper.py
+++ b/pyclustering/core/xmeans_wrapper.py
@@ -16,7 +16,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def xmeans(sample, centers, kmax, tolerance, criterion, alpha, beta, repeat, random_state, metric_pointer):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
     pointer_centers = package_builder(centers, c_double).create()
     
-- 
2.43.0


From 1d10357bbf8f96b22002d2e70a4ef1a6dae1be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 11/56] fix: callback of a user-defined metric was released
 while the native metric still used it

---
 pyclustering/core/metric_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index cab65ae..8d551c6 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -23,7 +23,10 @@ metric_callback = CFUNCTYPE(c_double, POINTER(pyclustering_package), POINTER(pyc
 
 class metric_wrapper:
     def __init__(self, type_metric_code, arguments, func):
-        self.__func = lambda p1, p2: func(package_extractor(p1).extract(), package_extractor(p2).extract())
+        self.__pointer = None
+
+        # the core keeps only a pointer to the callback: it must live as long as the native metric
+        self.__func = metric_callback(lambda p1, p2: func(package_extractor(p1).extract(), package_extractor(p2).extract()))
 
         package_arguments = package_builder(arguments, c_double).create()
 
@@ -31,7 +34,7 @@ class metric_wrapper:
 
         ccore.metric_create.restype = POINTER(c_void_p)
 
-        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, metric_callback(self.__func))
+        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, self.__func)
 
 
     def __del__(self):
-- 
2.43.0


From 290cb9094de3d717761ae197a347c46e19eec79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 12/56] fix: native SOM leaks packages with its captured
 objects, weights, awards and neighbors

---
 pyclustering/core/som_wrapper.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyclustering/core/som_wrapper.py b/pyclustering/core/som_wrapper.py
index 54e72b1..178f159 100755
--- a/pyclustering/core/som_wrapper.py
+++ b/pyclustering/core/som_wrapper.py
@@ -181,6 +181,8 @@ def som_get_capture_objects(som_pointer):
     package = ccore.som_get_capture_objects(som_pointer)
     
     result = package_extractor(package).extract()
+    ccore.free_pyclustering_package(package)
+
     return result
 
 
@@ -198,6 +200,8 @@ def som_get_weights(som_pointer):
     package = ccore.som_get_weights(som_pointer)
     
     result = package_extractor(package).extract()
+    ccore.free_pyclustering_package(package)
+
     return result
 
 
@@ -215,6 +219,8 @@ def som_get_awards(som_pointer):
     package = ccore.som_get_awards(som_pointer)
     
     result = package_extractor(package).extract()
+    ccore.free_pyclustering_package(package)
+
     return result
 
 
@@ -232,4 +238,6 @@ def som_get_neighbors(som_pointer):
     package = ccore.som_get_neighbors(som_pointer)
     
     result = package_extractor(package).extract()
+    ccore.free_pyclustering_package(package)
+
     return result
\ No newline at end of file
-- 
2.43.0


From b3aa9e2897a8df64fcfd581b305a502d683a013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 13/56] fix: silhouette and k-means++ switch the caller's
 metric object to numpy mode

---
 pyclustering/cluster/center_initializer.py | 3 ++-
 pyclustering/cluster/silhouette.py         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 2d0bb1c..f8e1182 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -12,6 +12,7 @@
 """
 
 
+import copy
 import numpy
 import random
 import warnings
@@ -199,7 +200,7 @@ class kmeans_plusplus_initializer:
         numpy.random.seed(random_seed)
         random.seed(random_seed)
 
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         self.__data_type = kwargs.get('data_type', 'points')
 
         self.__metric.enable_numpy_usage()
diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index 41b1798..6bf0d7e 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -10,6 +10,8 @@
 """
 
 
+import copy
+
 from enum import IntEnum
 
 import numpy
@@ -145,7 +147,7 @@ class silhouette:
         """
         self.__data = data
         self.__clusters = clusters
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         self.__data_type = kwargs.get('data_type', 'points')
 
         if self.__metric.get_type() != type_metric.USER_DEFINED:
-- 
2.43.0


From 172c6eca6e3aaeb8609d78f659036498dc1c4652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 14/56] fix: SOM writes the computed radius into the caller's
 parameters

---
 pyclustering/nnet/som.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 029cefa..1f419ea 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -9,6 +9,7 @@
 
 """
 
+import copy
 import math
 import random
 
@@ -255,7 +256,7 @@ class som:
 
         self.__ccore_som_pointer = None
 
-        self._params = parameters or som_parameters()
+        self._params = copy.copy(parameters) if parameters else som_parameters()
 
         if self._params.init_radius is None:
             self._params.init_radius = self.__initialize_initial_radius(rows, cols)
-- 
2.43.0


From b526de30b064baedbcdb305da7edb6f924b6912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 15/56] fix: sync_dynamic_get_size declared the result type of
 another function

---
 pyclustering/core/sync_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/core/sync_wrapper.py b/pyclustering/core/sync_wrapper.py
index 27785e4..9f52e75 100755
--- a/pyclustering/core/sync_wrapper.py
+++ b/pyclustering/core/sync_wrapper.py
@@ -73,7 +73,7 @@ def sync_connectivity_matrix(pointer_network):
 
 def sync_dynamic_get_size(pointer_dynamic):
     ccore = ccore_library.get()
-    ccore.sync_dynamic_get_time.restype = c_size_t
+    ccore.sync_dynamic_get_size.restype = c_size_t
     return ccore.sync_dynamic_get_size(pointer_dynamic)
 
 
-- 
2.43.0


From 7c77a11b2cc76ff363e9af96c63e007ae78e9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 16/56] fix: k-medians switches the caller's metric object
 between numpy and plain mode

---
 pyclustering/cluster/kmedians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/kmedians.py b/pyclustering/cluster/kmedians.py
index ccb387f..0606309 100755
--- a/pyclustering/cluster/kmedians.py
+++ b/pyclustering/cluster/kmedians.py
@@ -10,6 +10,7 @@
 """
 
 
+import copy
 import math
 import numpy
 
@@ -79,7 +80,7 @@ class kmedians:
         self.__total_wce = 0
 
         self.__itermax = kwargs.get('itermax', 100)
-        self.__metric = kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE))
+        self.__metric = copy.copy(kwargs.get('metric', distance_metric(type_metric.EUCLIDEAN_SQUARE)))
         if self.__metric is None:
             self.__metric = distance_metric(type_metric.EUCLIDEAN_SQUARE)
 
-- 
2.43.0


From a2b7b073ccf622e2e0128ff7ab1b1d99b03b549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:41 +0000
Subject: [PATCH 17/56] fix: pcnn_dynamic_get_size declared the result type of
 another function

---
 pyclustering/core/pcnn_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/core/pcnn_wrapper.py b/pyclustering/core/pcnn_wrapper.py
index 2b78533..9034635 100755
--- a/pyclustering/core/pcnn_wrapper.py
+++ b/pyclustering/core/pcnn_wrapper.py
@@ -132,5 +132,5 @@ def pcnn_dynamic_get_time(dynamic_pointer):
 
 def pcnn_dynamic_get_size(dynamic_pointer):
     ccore = ccore_library.get();
-    ccore.pcnn_dynamic_get_time.restype = c_size_t;
+    ccore.pcnn_dynamic_get_size.restype = c_size_t;
     return ccore.pcnn_dynamic_get_size(dynamic_pointer);
-- 
2.43.0


From ef3b346769e1a35fe7012f0d615232d9d5581efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 18/56] fix: Minkowski metric without explicit degree cannot be
 used by the native core

---
 pyclustering/core/metric_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index 8d551c6..e5d0568 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -63,7 +63,7 @@ class metric_wrapper:
         arguments = []
 
         if mtype == type_metric.MINKOWSKI:
-            arguments = [metric.get_arguments().get('degree')]
+            arguments = [metric.get_arguments().get('degree', 2)]
 
         elif mtype == type_metric.GOWER:
             arguments = metric.get_arguments().get('max_range')
-- 
2.43.0


From 4156c65265335038ba521e295e4feff7531fef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 19/56] fix: interrupt while the native core is loaded marks it
 as not usable for ever

---
 pyclustering/core/wrapper.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyclustering/core/wrapper.py b/pyclustering/core/wrapper.py
index f1c1f21..e117456 100755
--- a/pyclustering/core/wrapper.py
+++ b/pyclustering/core/wrapper.py
@@ -37,15 +37,21 @@ class ccore_library:
     @staticmethod
     def workable():
         if not ccore_library.__initialized:
-            ccore_library.get()
+            ccore_library.initialize()
 
         return ccore_library.__workable
 
 
     @staticmethod
     def initialize():
-        ccore_library.__initialized = True
-        
+        library = ccore_library.__load()
+        ccore_library.__initialized = True      # only now: loading may be interrupted
+
+        return library
+
+
+    @staticmethod
+    def __load():
         if PATH_PYCLUSTERING_CCORE_LIBRARY is None:
             warnings.warn("The C/C++ pyclustering is not supported for platform '" + sys.platform + "' (" + platform.architecture()[0] + ").\n" +
                           "Falling back on python implementation.\n" +
@@ -88,7 +94,7 @@ class ccore_library:
             if len(result) > 0:
                 ccore_library.__workable = True
         
-        except:
+        except Exception:
             ccore_library.__workable = False
         
         return ccore_library.__workable
@@ -108,7 +114,7 @@ class ccore_library:
             else:
                 ccore_library.__workable = False
 
-        except:
+        except Exception:
             ccore_library.__workable = False
 
         return ccore_library.__workable, version
-- 
2.43.0


From a7bd36195f8aa16c4b021b0733545fc4b466dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 20/56] fix: native random center initializer repeats centers
 when used again and ignores permitted indexes

---
 .../cluster/random_center_initializer.hpp     |  3 ++-
 .../src/cluster/random_center_initializer.cpp | 22 +++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/random_center_initializer.hpp b/ccore/include/pyclustering/cluster/random_center_initializer.hpp
index 90846f1..5c37ccf 100755
--- a/ccore/include/pyclustering/cluster/random_center_initializer.hpp
+++ b/ccore/include/pyclustering/cluster/random_center_initializer.hpp
@@ -123,10 +123,11 @@ private:
     * @brief    Creates random center and place it to specified storage.
     *
     * @param[in]  p_data: data for that centers are calculated.
+    * @param[in]  p_indexes: point indexes that may become centers, all points if empty.
     * @param[out] p_centers: storage where new center should be placed.
     *
     */
-    void create_center(const dataset & p_data, dataset & p_centers) const;
+    void create_center(const dataset & p_data, const index_sequence & p_indexes, dataset & p_centers) const;
 
     /**
     *
diff --git a/ccore/src/cluster/random_center_initializer.cpp b/ccore/src/cluster/random_center_initializer.cpp
index 0a3aa87..ad77472 100755
--- a/ccore/src/cluster/random_center_initializer.cpp
+++ b/ccore/src/cluster/random_center_initializer.cpp
@@ -46,13 +46,16 @@ void random_center_initializer::initialize(const dataset & p_data, const index_s
     p_centers.clear();
     p_centers.reserve(m_amount);
 
-    if ((m_amount > p_data.size()) || (m_amount == 0)) {
+    const std::size_t length = p_indexes.empty() ? p_data.size() : p_indexes.size();
+
+    if ((m_amount > length) || (m_amount == 0)) {
         return;
     }
 
-    m_available_indexes.reserve(p_data.size());
-    for (std::size_t i = 0; i < p_data.size(); i++) {
-        m_available_indexes.insert(i);
+    m_available_indexes.clear();
+    m_available_indexes.reserve(length);
+    for (std::size_t i = 0; i < length; i++) {
+        m_available_indexes.insert(p_indexes.empty() ? i : p_indexes[i]);
     }
 
     if (m_amount == p_data.size()) {
@@ -61,14 +64,19 @@ void random_center_initializer::initialize(const dataset & p_data, const index_s
     }
 
     for (std::size_t i = 0; i < m_amount; i++) {
-        create_center(p_data, p_centers);
+        create_center(p_data, p_indexes, p_centers);
     }
 }
 
 
-void random_center_initializer::create_center(const dataset & p_data, dataset & p_centers) const {
-    std::uniform_int_distribution<std::size_t> distribution(0, p_data.size() - 1);
+void random_center_initializer::create_center(const dataset & p_data, const index_sequence & p_indexes, dataset & p_centers) const {
+    const std::size_t length = p_indexes.empty() ? p_data.size() : p_indexes.size();
+
+    std::uniform_int_distribution<std::size_t> distribution(0, length - 1);
     std::size_t random_index_point = distribution(m_generator);
+    if (!p_indexes.empty()) {
+        random_index_point = p_indexes[random_index_point];
+    }
 
     index_storage::iterator available_index = m_available_indexes.find(random_index_point);
     if (available_index == m_available_indexes.end()) {
-- 
2.43.0


From f4fcf609d3d2f59f3d313c445fa89d8565ad7036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 21/56] fix: native k-means++ returns repeated centers for
 permitted indexes and for repeated points

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 49028ab..cb525fc 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -158,9 +158,11 @@ kmeans_plus_plus::center_description kmeans_plus_plus::get_first_center() const
     std::uniform_int_distribution<std::size_t> distribution(0, length - 1);
 
     std::size_t index = distribution(m_generator);
-    const auto & center = m_indexes_ptr->empty() ? (*m_data_ptr)[index] : (*m_data_ptr)[ (*m_indexes_ptr)[index] ];
+    if (!m_indexes_ptr->empty()) {
+        index = (*m_indexes_ptr)[index];
+    }
 
-    return std::make_tuple(center, index);
+    return std::make_tuple((*m_data_ptr)[index], index);
 }
 
 
@@ -180,8 +182,16 @@ kmeans_plus_plus::center_description kmeans_plus_plus::get_next_center() const
         index = get_probable_center(distances, probabilities);
     }
 
-    const auto & center = m_indexes_ptr->empty() ? (*m_data_ptr)[index] : (*m_data_ptr)[ (*m_indexes_ptr)[index] ];
-    return std::make_tuple(center, index);
+    if (!m_indexes_ptr->empty()) {
+        index = (*m_indexes_ptr)[index];
+    }
+
+    /* the same point cannot become a center twice (it is possible when all considered points are equal to centers) */
+    if (m_free_indexes.find(index) == m_free_indexes.end()) {
+        index = *(m_free_indexes.begin());
+    }
+
+    return std::make_tuple((*m_data_ptr)[index], index);
 }
 
 
@@ -250,10 +260,7 @@ std::size_t kmeans_plus_plus::get_probable_center(const std::vector<double> & p_
             }
         }
 
-        if (current_index_candidate == kmeans_plus_plus::INVALID_INDEX) {
-            best_index_candidate = *(m_free_indexes.begin());
-        }
-        else if (p_distances[current_index_candidate] > p_distances[best_index_candidate]) {
+        if ((current_index_candidate != kmeans_plus_plus::INVALID_INDEX) && (p_distances[current_index_candidate] > p_distances[best_index_candidate])) {
             best_index_candidate = current_index_candidate;
         }
     }
-- 
2.43.0


From b907e29bad20d3c5c6f3e2a46816941f4f7929c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 22/56] fix: native silhouette k-search loses the best amount
 when no score is positive

---
 ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp b/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
index e61053c..c2228d6 100755
--- a/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
+++ b/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
@@ -30,7 +30,7 @@ using silhouette_score_sequence = std::vector<double>;
 class silhouette_ksearch_data {
 private:
     std::size_t m_amount = 0;
-    double      m_score  = 0;
+    double      m_score  = -1.0;    /* the lowest possible score */
     silhouette_score_sequence m_scores = { };
 
 public:
-- 
2.43.0


From 715705d3b62170d3096bfb5749d4a929f936d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 23/56] fix: thread pool terminates the process when an
 executor cannot be started

---
 .../pyclustering/parallel/thread_pool.hpp       |  2 ++
 ccore/src/parallel/thread_pool.cpp              | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ccore/include/pyclustering/parallel/thread_pool.hpp b/ccore/include/pyclustering/parallel/thread_pool.hpp
index 166a6cf..2c9a15b 100755
--- a/ccore/include/pyclustering/parallel/thread_pool.hpp
+++ b/ccore/include/pyclustering/parallel/thread_pool.hpp
@@ -129,6 +129,8 @@ public:
 private:
     void initialize(const std::size_t p_size);
 
+    void stop();
+
     void get_task(task::ptr & p_task);
 };
 
diff --git a/ccore/src/parallel/thread_pool.cpp b/ccore/src/parallel/thread_pool.cpp
index 1a8cf0b..2443e70 100755
--- a/ccore/src/parallel/thread_pool.cpp
+++ b/ccore/src/parallel/thread_pool.cpp
@@ -34,6 +34,11 @@ thread_pool::thread_pool(const std::size_t p_size) {
 
 
 thread_pool::~thread_pool() {
+    stop();
+}
+
+
+void thread_pool::stop() {
     {
         std::lock_guard<std::mutex> lock_common(m_common_mutex);
         m_stop = true;
@@ -94,8 +99,16 @@ void thread_pool::initialize(const std::size_t p_size) {
 
     thread_executor::task_getter getter = std::bind(&thread_pool::get_task, this, std::placeholders::_1);
 
-    for (std::size_t index = 0; index < p_size; index++) {
-        m_pool.emplace_back(std::make_shared<thread_executor>(getter));
+    m_pool.reserve(p_size);
+
+    try {
+        for (std::size_t index = 0; index < p_size; index++) {
+            m_pool.emplace_back(std::make_shared<thread_executor>(getter));
+        }
+    }
+    catch (...) {
+        stop();     /* executors that have been already started must be joined */
+        throw;
     }
 }
 
-- 
2.43.0


From 3a4266ef83923009da92d9bf45ac76f8efefffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 24/56] fix: CURE leaks clusters and keeps a dangling queue
 when memory is exhausted

---
 ccore/include/pyclustering/cluster/cure.hpp |  21 ++--
 ccore/src/cluster/cure.cpp                  | 105 +++++++++-----------
 2 files changed, 57 insertions(+), 69 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/cure.hpp b/ccore/include/pyclustering/cluster/cure.hpp
index fba595c..836dfe1 100755
--- a/ccore/include/pyclustering/cluster/cure.hpp
+++ b/ccore/include/pyclustering/cluster/cure.hpp
@@ -11,6 +11,7 @@
 
 #include <algorithm>
 #include <list>
+#include <memory>
 #include <set>
 #include <vector>
 
@@ -36,12 +37,12 @@ namespace clst {
 */
 struct cure_cluster {
 public:
-    std::vector<double> * mean;                         /**< Center of the cluster that is defined by mean value among cluster points. */
-    std::vector< std::vector<double> * > * points;      /**< Points that are contained by the cluster. */
-    std::vector< std::vector<double> * > * rep;         /**< Representative points of the cluster. */
+    std::vector<double> * mean = nullptr;               /**< Center of the cluster that is defined by mean value among cluster points. */
+    std::unique_ptr<std::vector< std::vector<double> * >> points;   /**< Points that are contained by the cluster. */
+    std::unique_ptr<std::vector< std::vector<double> * >> rep;      /**< Representative points of the cluster. */
 
-    cure_cluster *          closest;                    /**< Pointer to the closest cluster. */
-    double                  distance_closest;           /**< Distance to the closest cluster. */
+    cure_cluster *          closest = nullptr;          /**< Pointer to the closest cluster. */
+    double                  distance_closest = 0;       /**< Distance to the closest cluster. */
 
 public:
     /*!
@@ -78,7 +79,7 @@ public:
     @brief   Insert points to cluster.
     
     */
-    void insert_points(std::vector<std::vector<double> *> * append_points);
+    void insert_points(const std::vector<std::vector<double> *> & append_points);
 
 public:
     /*!
@@ -134,8 +135,8 @@ public:
 */
 class cure_queue {
 private:
-    std::multiset<cure_cluster *, cure_cluster_comparator> * queue;
-    kdtree * tree;
+    std::unique_ptr<std::multiset<cure_cluster *, cure_cluster_comparator>> queue;
+    std::unique_ptr<kdtree> tree;
 
 private:
     /*!
@@ -168,7 +169,7 @@ private:
     /*!
     
     @brief   Insert cluster to sorted queue (it's not insertion of new object).
-    @details Used by sorting procedures.
+    @details Used by sorting procedures. The queue owns the cluster, if the cluster cannot be inserted then it is deleted.
     
     @param[in] inserted_cluster: pointer to points.
     
@@ -389,7 +390,7 @@ Implementation based on paper @cite article::cure::1.
 */
 class cure {
 private:
-    cure_queue * queue;
+    cure_queue * queue = nullptr;
 
     std::size_t number_points;
 
diff --git a/ccore/src/cluster/cure.cpp b/ccore/src/cluster/cure.cpp
index a883c16..c1d4aa9 100755
--- a/ccore/src/cluster/cure.cpp
+++ b/ccore/src/cluster/cure.cpp
@@ -27,23 +27,20 @@ namespace clst {
 
 
 cure_cluster::cure_cluster() : 
-    mean(nullptr), 
-    closest(nullptr), 
-    distance_closest(0) 
-{
-    points = new std::vector< std::vector<double> * >();
-    rep = new std::vector< std::vector<double> * >();
-}
+    points(new std::vector< std::vector<double> * >()),
+    rep(new std::vector< std::vector<double> * >())
+{ }
 
 
 cure_cluster::cure_cluster(std::vector<double> * point) : 
-    closest(nullptr), 
-    distance_closest(0) 
+    cure_cluster()
 {
     mean = new std::vector<double>(*point);
 
-    points = new std::vector< std::vector<double> * >(1, point);    /* use user data points */
-    rep = new std::vector< std::vector<double> * >(1, new std::vector<double>(*point));       /* it's our - despite at the beginning it the same */
+    points->push_back(point);                           /* use user data points */
+
+    rep->reserve(1);
+    rep->push_back(new std::vector<double>(*point));    /* it's our - despite at the beginning it the same */
 }
 
 
@@ -53,20 +50,14 @@ cure_cluster::~cure_cluster() {
         mean = nullptr;
     }
 
-    delete points;  /* only storage, we are not owners of points */
-    points = nullptr;
-
     for (auto point_ptr : *rep) {
         delete point_ptr;
     }
-
-    delete rep;     /* only storage, we are not owners of points */
-    rep = nullptr;
 }
 
 
-void cure_cluster::insert_points(std::vector<std::vector<double> *> * append_points) {
-    points->insert(points->end(), append_points->begin(), append_points->end());
+void cure_cluster::insert_points(const std::vector<std::vector<double> *> & append_points) {
+    points->insert(points->end(), append_points.begin(), append_points.end());
 }
 
 
@@ -91,14 +82,15 @@ bool cure_cluster_comparator::operator()(const cure_cluster * const obj1, const
 
 
 
-cure_queue::cure_queue() {
-    queue = new std::multiset<cure_cluster *, cure_cluster_comparator>();
-    tree = new kdtree();
-}
+cure_queue::cure_queue() :
+    queue(new std::multiset<cure_cluster *, cure_cluster_comparator>()),
+    tree(new kdtree())
+{ }
 
 
-cure_queue::cure_queue(const std::vector< std::vector<double> > * data) {
-    queue = new std::multiset<cure_cluster *, cure_cluster_comparator>();
+cure_queue::cure_queue(const std::vector< std::vector<double> > * data) :
+    cure_queue()
+{
     create_queue(data);
 
     std::vector<point> points;
@@ -114,33 +106,23 @@ cure_queue::cure_queue(const std::vector< std::vector<double> > * data) {
         }
     }
 
-    tree = new kdtree(points, payloads);
+    tree.reset(new kdtree(points, payloads));
 }
 
 
 cure_queue::~cure_queue() {
-    if (queue != nullptr) {
-        for (auto cluster : *queue) {
-            delete cluster;
-        }
-
-        delete queue;
-        queue = nullptr;
-    }
-
-    if (tree != nullptr) {
-        delete tree;
-        tree = nullptr;
+    for (auto cluster : *queue) {
+        delete cluster;
     }
 }
 
 
 void cure_queue::create_queue(const dataset * data) {
-    std::vector<cure_cluster *> temporary_storage;
+    std::vector<std::unique_ptr<cure_cluster>> temporary_storage;
+    temporary_storage.reserve(data->size());
 
     for (auto & data_point : (*data)) {
-        cure_cluster * cluster = new cure_cluster((std::vector<double> *) &data_point);
-        temporary_storage.push_back(cluster);
+        temporary_storage.emplace_back(new cure_cluster((std::vector<double> *) &data_point));
     }
 
     for (auto & first_cluster : temporary_storage) {
@@ -149,10 +131,10 @@ void cure_queue::create_queue(const dataset * data) {
 
         for (auto & second_cluster : temporary_storage) {
             if (first_cluster != second_cluster) {
-                double dist = get_distance(first_cluster, second_cluster);
+                double dist = get_distance(first_cluster.get(), second_cluster.get());
                 if (dist < minimal_distance) {
                     minimal_distance = dist;
-                    closest_cluster = second_cluster;
+                    closest_cluster = second_cluster.get();
                 }
             }
         }
@@ -161,8 +143,8 @@ void cure_queue::create_queue(const dataset * data) {
         first_cluster->distance_closest = minimal_distance;
     }
 
-    for (const auto & cluster : temporary_storage) {
-        queue->insert(cluster);
+    for (auto & cluster : temporary_storage) {
+        insert_cluster(cluster.release());
     }
 }
 
@@ -201,11 +183,15 @@ void cure_queue::merge(cure_cluster * cluster1, cure_cluster * cluster2, const s
     remove_representative_points(cluster2);
 
     remove_cluster(cluster1);
+    std::unique_ptr<cure_cluster> cluster1_owner(cluster1);
+
     remove_cluster(cluster2);
+    std::unique_ptr<cure_cluster> cluster2_owner(cluster2);
 
-    cure_cluster * merged_cluster = new cure_cluster();
-    merged_cluster->insert_points(cluster1->points);
-    merged_cluster->insert_points(cluster2->points);
+    std::unique_ptr<cure_cluster> merged_cluster_owner(new cure_cluster());
+    cure_cluster * merged_cluster = merged_cluster_owner.get();
+    merged_cluster->insert_points(*cluster1->points);
+    merged_cluster->insert_points(*cluster2->points);
 
     merged_cluster->mean = new std::vector<double>((*cluster1->points)[0]->size(), 0);
 
@@ -225,7 +211,7 @@ void cure_queue::merge(cure_cluster * cluster1, cure_cluster * cluster2, const s
         }
     }
 
-    std::set<std::vector<double> *> * temporary = new std::set<std::vector<double> *>();
+    std::set<std::vector<double> *> temporary;
 
     for (std::size_t index = 0; index < number_repr_points; index++) {
         double maximal_distance = 0;
@@ -238,7 +224,7 @@ void cure_queue::merge(cure_cluster * cluster1, cure_cluster * cluster2, const s
             }
             else {
                 double temp_minimal_distance = std::numeric_limits<double>::max();
-                for (auto p : (*temporary)) {
+                for (auto p : temporary) {
                     double minimal_candidate = euclidean_distance_square(*point, *p);
                     if (minimal_candidate < temp_minimal_distance) {
                         temp_minimal_distance = minimal_candidate;
@@ -254,12 +240,13 @@ void cure_queue::merge(cure_cluster * cluster1, cure_cluster * cluster2, const s
             }
         }
 
-        if (temporary->find(maximal_point) == temporary->end()) {
-            temporary->insert(maximal_point);
+        if (temporary.find(maximal_point) == temporary.end()) {
+            temporary.insert(maximal_point);
         }
     }
 
-    for (auto & point : *temporary) {
+    merged_cluster->rep->reserve(temporary.size());
+    for (auto & point : temporary) {
         std::vector<double> * representative_point = new std::vector<double>(point->size(), 0);
         for (std::size_t index = 0; index < point->size(); index++) {
             (*representative_point)[index] = (*point)[index] + compression * ( (*merged_cluster->mean)[index] - (*point)[index] );
@@ -268,9 +255,6 @@ void cure_queue::merge(cure_cluster * cluster1, cure_cluster * cluster2, const s
         merged_cluster->rep->push_back(representative_point);
     }
 
-    delete temporary;
-    temporary = nullptr;
-
     insert_representative_points(merged_cluster);
 
     std::vector<relocation_info> relocation_request;
@@ -329,11 +313,11 @@ void cure_queue::merge(cure_cluster * cluster1, cure_cluster * cluster2, const s
         }
     }
 
-    delete cluster1; cluster1 = nullptr;
-    delete cluster2; cluster2 = nullptr;
+    cluster1_owner.reset();
+    cluster2_owner.reset();
 
     /* insert merged cluster */
-    insert_cluster(merged_cluster);
+    insert_cluster(merged_cluster_owner.release());
 
     /* relocate requested clusters */
     if (!relocation_request.empty()) {
@@ -350,7 +334,9 @@ void cure_queue::merge(cure_cluster * cluster1, cure_cluster * cluster2, const s
 
 
 void cure_queue::insert_cluster(cure_cluster * inserted_cluster) {
+    std::unique_ptr<cure_cluster> owner(inserted_cluster);
     queue->insert(inserted_cluster);
+    owner.release();
 }
 
 
@@ -421,6 +407,7 @@ cure::~cure() {
 
 void cure::process(const dataset & p_data, cure_data & p_result) {
     delete queue;
+    queue = nullptr;
 
     queue = new cure_queue(&p_data);
     data = &p_data;
-- 
2.43.0


From 96b5f0a429d2aeafa27a32bcff0f8d7ba1012012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 25/56] fix: SyncNet leaks locations when its construction
 fails

---
 ccore/include/pyclustering/cluster/syncnet.hpp |  5 +++--
 ccore/src/cluster/hsyncnet.cpp                 |  4 ++--
 ccore/src/cluster/syncnet.cpp                  | 16 +++-------------
 3 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/syncnet.hpp b/ccore/include/pyclustering/cluster/syncnet.hpp
index 3169961..67cfd2f 100755
--- a/ccore/include/pyclustering/cluster/syncnet.hpp
+++ b/ccore/include/pyclustering/cluster/syncnet.hpp
@@ -9,6 +9,7 @@
 #pragma once
 
 
+#include <memory>
 #include <vector>
 
 #include <pyclustering/nnet/sync.hpp>
@@ -76,8 +77,8 @@ public:
  */
 class syncnet: public sync_network {
 protected:
-    std::vector<std::vector<double> >    * oscillator_locations;    /**< Spatial location of each oscillator. */
-    std::vector<std::vector<double> >    * distance_conn_weights;   /**< Weight of each connection in the network. */
+    std::unique_ptr<std::vector<std::vector<double>>> oscillator_locations;    /**< Spatial location of each oscillator. */
+    std::unique_ptr<std::vector<std::vector<double>>> distance_conn_weights;   /**< Weight of each connection in the network. */
 
 public:
     /*!
diff --git a/ccore/src/cluster/hsyncnet.cpp b/ccore/src/cluster/hsyncnet.cpp
index bd00919..3b678bc 100755
--- a/ccore/src/cluster/hsyncnet.cpp
+++ b/ccore/src/cluster/hsyncnet.cpp
@@ -57,7 +57,7 @@ void hsyncnet::process(const double order, const solve_type solver, const bool c
         return;   /* Nothing to process, amount of objects is less than required amount of clusters. */
     }
 
-    double radius = average_neighbor_distance(oscillator_locations, number_neighbors);
+    double radius = average_neighbor_distance(oscillator_locations.get(), number_neighbors);
     
     std::size_t increase_step = static_cast<std::size_t>(round(oscillator_locations->size() * static_cast<std::size_t>(m_increase_persent)));
     if (increase_step < 1) {
@@ -111,7 +111,7 @@ double hsyncnet::calculate_radius(const double radius, const std::size_t amount_
         next_radius = radius * m_increase_persent + radius;
     }
     else {
-        next_radius = average_neighbor_distance(oscillator_locations, amount_neighbors);
+        next_radius = average_neighbor_distance(oscillator_locations.get(), amount_neighbors);
     }
 
     return next_radius;
diff --git a/ccore/src/cluster/syncnet.cpp b/ccore/src/cluster/syncnet.cpp
index 07a138a..b49c2c1 100755
--- a/ccore/src/cluster/syncnet.cpp
+++ b/ccore/src/cluster/syncnet.cpp
@@ -36,22 +36,12 @@ sync_network(input_data->size(), 1, 0, connection_t::CONNECTION_NONE, initial_ty
     equation<double> oscillator_equation = std::bind(&syncnet::phase_kuramoto_equation, this, _1, _2, _3, _4);
     set_equation(oscillator_equation);
 
-    oscillator_locations = new std::vector<std::vector<double> >(*input_data);
+    oscillator_locations.reset(new std::vector<std::vector<double> >(*input_data));
     create_connections(connectivity_radius, enable_conn_weight);
 }
 
 
-syncnet::~syncnet() {
-    if (oscillator_locations != nullptr) {
-        delete oscillator_locations;
-        oscillator_locations = nullptr;
-    }
-
-    if (distance_conn_weights != nullptr) {
-        delete distance_conn_weights;
-        distance_conn_weights = nullptr;
-    }
-}
+syncnet::~syncnet() { }
 
 
 void syncnet::create_connections(const double connectivity_radius, const bool enable_conn_weight) {
@@ -59,7 +49,7 @@ void syncnet::create_connections(const double connectivity_radius, const bool en
 
     if (enable_conn_weight == true) {
         std::vector<double> instance(size(), 0);
-        distance_conn_weights = new std::vector<std::vector<double> >(size(), instance);
+        distance_conn_weights.reset(new std::vector<std::vector<double> >(size(), instance));
     }
     else {
         distance_conn_weights = nullptr;
-- 
2.43.0


From fa1932429312ef7b6c3e5473e46aae56846908c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:16 +0000
Subject: [PATCH 26/56] fix: k-means++ constructors allocate but are declared
 noexcept

---
 ccore/include/pyclustering/cluster/kmeans_plus_plus.hpp | 4 ++--
 ccore/src/cluster/kmeans_plus_plus.cpp                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/kmeans_plus_plus.hpp b/ccore/include/pyclustering/cluster/kmeans_plus_plus.hpp
index 7aa1180..36498fa 100755
--- a/ccore/include/pyclustering/cluster/kmeans_plus_plus.hpp
+++ b/ccore/include/pyclustering/cluster/kmeans_plus_plus.hpp
@@ -100,7 +100,7 @@ public:
     * @see FARTHEST_CENTER_CANDIDATE
     *
     */
-    kmeans_plus_plus(const std::size_t p_amount, const std::size_t p_candidates = 1, const long long p_random_state = RANDOM_STATE_CURRENT_TIME) noexcept;
+    kmeans_plus_plus(const std::size_t p_amount, const std::size_t p_candidates = 1, const long long p_random_state = RANDOM_STATE_CURRENT_TIME);
 
     /**
     *
@@ -117,7 +117,7 @@ public:
     * @see FARTHEST_CENTER_CANDIDATE
     *
     */
-    kmeans_plus_plus(const std::size_t p_amount, const std::size_t p_candidates, const metric & p_metric, const long long p_random_state = RANDOM_STATE_CURRENT_TIME) noexcept;
+    kmeans_plus_plus(const std::size_t p_amount, const std::size_t p_candidates, const metric & p_metric, const long long p_random_state = RANDOM_STATE_CURRENT_TIME);
 
     /**
      *
diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index cb525fc..86e3999 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -27,7 +27,7 @@ const std::size_t kmeans_plus_plus::FARTHEST_CENTER_CANDIDATE = std::numeric_lim
 const std::size_t kmeans_plus_plus::INVALID_INDEX = std::numeric_limits<std::size_t>::max();
 
 
-kmeans_plus_plus::kmeans_plus_plus(const std::size_t p_amount, const std::size_t p_candidates, const long long p_random_state) noexcept :
+kmeans_plus_plus::kmeans_plus_plus(const std::size_t p_amount, const std::size_t p_candidates, const long long p_random_state) :
         m_amount(p_amount),
         m_candidates(p_candidates),
         m_dist_func([](const point &p1, const point &p2) {
@@ -40,7 +40,7 @@ kmeans_plus_plus::kmeans_plus_plus(const std::size_t p_amount, const std::size_t
 }
 
 
-kmeans_plus_plus::kmeans_plus_plus(const std::size_t p_amount, const std::size_t p_candidates, const metric & p_metric, const long long p_random_state) noexcept :
+kmeans_plus_plus::kmeans_plus_plus(const std::size_t p_amount, const std::size_t p_candidates, const metric & p_metric, const long long p_random_state) :
         m_amount(p_amount),
         m_candidates(p_candidates),
         m_dist_func(p_metric),
-- 
2.43.0


From 38ce983d7cdc1dcfb587f751fa21c4c0f6d6c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 27/56] fix: center initializers cannot be used twice

---
 pyclustering/cluster/center_initializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index f8e1182..41dff33 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -72,6 +72,7 @@ class random_center_initializer:
                 return list(range(len(self.__data)))
             return self.__data[:]
 
+        self.__available_indexes = set(range(len(self.__data)))     # initializer can be used several times
         return [self.__create_center(return_index) for _ in range(self.__amount)]
 
 
@@ -364,6 +365,8 @@ class kmeans_plusplus_initializer:
             raise ValueError("In case of 'distance_matrix' data type, parameter 'return_index' cannot be 'False'. "
                              "Please, use 'return_index=True' in case of 'distance_matrix' data type.")
 
+        self.__free_indexes = set(range(len(self.__data)))          # initializer can be used several times
+
         index_point = self.__get_initial_center(True)
         centers = [index_point]
         self.__free_indexes.remove(index_point)
-- 
2.43.0


From 1f4a74a40b3b6587af5865556cdb54aecba76f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 28/56] fix: reservoir algorithm X looks for elements beyond
 the end of the data

---
 pyclustering/utils/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/sampling.py b/pyclustering/utils/sampling.py
index 0d71147..3c83818 100755
--- a/pyclustering/utils/sampling.py
+++ b/pyclustering/utils/sampling.py
@@ -84,7 +84,7 @@ def reservoir_x(data, n):
 
     def generate_skip_value(t, size):
         threshold, skip = random.random(), 0
-        while calculate_skip_value(t, size, skip) > threshold:
+        while (t + skip < len(data)) and (calculate_skip_value(t, size, skip) > threshold):
             skip += 1
         return skip
 
-- 
2.43.0


From d80a9e431873a2e6309a5c494bf5d4bac733eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 29/56] fix: EM keeps probabilities of clusters that it has
 dropped as impossible

---
 pyclustering/cluster/ema.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index 94d0f69..834ba9e 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -670,20 +670,23 @@ class ema:
         self.__means = []
         self.__variances = []
         
-        amount_impossible_clusters = 0
+        gaussians, rc = [], []
         
         for index_cluster in range(self.__amount_clusters):
             mc = numpy.sum(self.__rc[index_cluster])
             
             if mc == 0.0:
-                amount_impossible_clusters += 1
-                continue
+                continue    # impossible cluster
+            
+            gaussians.append(self.__gaussians[index_cluster])
+            rc.append(self.__rc[index_cluster])
             
             self.__pic.append( mc / len(self.__data) )
             self.__means.append( self.__update_mean(self.__rc[index_cluster], mc) )
             self.__variances.append( self.__update_covariance(self.__means[-1], self.__rc[index_cluster], mc) )
         
-        self.__amount_clusters -= amount_impossible_clusters
+        self.__gaussians, self.__rc = gaussians, rc
+        self.__amount_clusters = len(self.__rc)
 
 
     def __get_stop_condition(self):
-- 
2.43.0


From d4481af58d37e0479368f86d7844c9e91b3979c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 30/56] fix: keep working when the native library cannot be
 loaded

A library that exists but is refused by the system loader raised OSError
out of every algorithm instead of falling back, and a library that failed
its checks was published while another thread could see it as usable.
---
 pyclustering/core/wrapper.py | 54 +++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/pyclustering/core/wrapper.py b/pyclustering/core/wrapper.py
index e117456..4bff31f 100755
--- a/pyclustering/core/wrapper.py
+++ b/pyclustering/core/wrapper.py
@@ -67,54 +67,56 @@ class ccore_library:
             
             return None
 
-        ccore_library.__library = cdll.LoadLibrary(PATH_PYCLUSTERING_CCORE_LIBRARY)
-        if ccore_library.__check_library_integrity() is False:
+        try:
+            library = cdll.LoadLibrary(PATH_PYCLUSTERING_CCORE_LIBRARY)
+        except OSError as error:
+            warnings.warn("Impossible to load C/C++ pyclustering library '" + PATH_PYCLUSTERING_CCORE_LIBRARY + "' (" + str(error) + ").\n" +
+                          "Falling back on python implementation.\n" +
+                          "For more information, contact 'pyclustering@yandex.ru'.", ResourceWarning)
+
+            return None
+
+        if ccore_library.__check_library_integrity(library) is False:
             warnings.warn("Impossible to mark C/C++ pyclustering library as a workable due to compatibility issues " +
                           "('" + sys.platform + "', '" + platform.architecture()[0] + "').\n" +
                           "Falling back on python implementation.\n" +
                           "For more information, contact 'pyclustering@yandex.ru'.", ResourceWarning)
-            
+
             return None
 
-        result, version = ccore_library.__check_library_version()
+        result, version = ccore_library.__check_library_version(library)
         if result is False:
             warnings.warn("Incompatible C/C++ pyclustering library is being used ('" + version +"' instead of '" + ccore_library_version + "').\n" +
                           "Probably library has not been successfully installed.\n" +
                           "Please, contact 'pyclustering@yandex.ru'.", ResourceWarning)
 
-        return ccore_library.__library
+            return library
+
+        ccore_library.__library = library       # only a library that may be used is published
+        ccore_library.__workable = True
+
+        return library
 
 
     @staticmethod
-    def __check_library_integrity():
+    def __check_library_integrity(library):
         try:
-            ccore_library.__library.get_interface_description.restype = c_char_p
-            result = ccore_library.__library.get_interface_description()
-            
-            if len(result) > 0:
-                ccore_library.__workable = True
-        
+            library.get_interface_description.restype = c_char_p
+            return len(library.get_interface_description()) > 0
+
         except Exception:
-            ccore_library.__workable = False
-        
-        return ccore_library.__workable
+            return False
 
 
     @staticmethod
-    def __check_library_version():
+    def __check_library_version(library):
         version = "unknown"
 
         try:
-            ccore_library.__library.get_interface_version.restype = c_char_p
-            version_cptr = ccore_library.__library.get_interface_version()
+            library.get_interface_version.restype = c_char_p
+            version = library.get_interface_version().decode("utf-8")
 
-            ccore_version = version_cptr.decode("utf-8")
-            if ccore_version == ccore_library_version:
-                ccore_library.__workable = True
-            else:
-                ccore_library.__workable = False
+            return version == ccore_library_version, version
 
         except Exception:
-            ccore_library.__workable = False
-
-        return ccore_library.__workable, version
+            return False, version
-- 
2.43.0


From 7b8d65555d93eda74cb76caa72246c9e370b2b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 31/56] fix: retraining a native map with data of another
 dimension writes beyond its weights

---
 ccore/src/nnet/som.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index f681b22..fbbda68 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -193,7 +193,7 @@ void som::create_connections(const som_conn_type type) {
 void som::create_initial_weights(const som_init_type type) {
     size_t dimension = (*m_data)[0].size();
 
-    m_weights.resize(m_size, std::vector<double>(dimension, 0.0));
+    m_weights.assign(m_size, std::vector<double>(dimension, 0.0));
 
     std::vector<double> maximum_value_dimension(dimension, -std::numeric_limits<double>::max());
     std::vector<double> minimum_value_dimension(dimension, std::numeric_limits<double>::max());
-- 
2.43.0


From 977fa74167ba65d1bdfc170dd8e04abb844738a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 32/56] fix: restored and copied maps share state with the
 original

---
 pyclustering/nnet/som.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 1f419ea..5ed9e5f 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -977,16 +977,17 @@ class som:
         self._learn_rate = state_dump['learn_rate']
         self._params = state_dump['params']
         self._neighbors = None
+        self._data = None
 
     def __upload_dump_to_python(self, state_dump):
         self.__ccore_som_pointer = None
 
         self.__upload_common_part(state_dump)
 
-        self._location = state_dump['location']
-        self._weights = state_dump['weights']
-        self._award = state_dump['award']
-        self._capture_objects = state_dump['capture_objects']
+        # the dump may refer to containers of a living map (see module 'copy') that are changed by training
+        self._weights = [weight[:] for weight in state_dump['weights']]
+        self._award = state_dump['award'][:]
+        self._capture_objects = [objects[:] for objects in state_dump['capture_objects']]
 
         self._location = self.__initialize_locations(self._rows, self._cols)
         self._create_connections(self._conn_type)
-- 
2.43.0


From 61db9e799645e5a814a9e2363cee1a16506bbfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 33/56] fix: native map cannot be shown with its captured
 objects

---
 pyclustering/nnet/som.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 5ed9e5f..f627dad 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -862,8 +862,11 @@ class som:
         if self.__ccore_som_pointer is not None:
             self._size = wrapper.som_get_size(self.__ccore_som_pointer)
             self._weights = wrapper.som_get_weights(self.__ccore_som_pointer)
-            self._neighbors = wrapper.som_get_neighbors(self.__ccore_som_pointer)
             self._award = wrapper.som_get_awards(self.__ccore_som_pointer)
+            self._capture_objects = wrapper.som_get_capture_objects(self.__ccore_som_pointer)
+
+            if self._conn_type != type_conn.func_neighbor:
+                self._neighbors = wrapper.som_get_neighbors(self.__ccore_som_pointer)
 
         dimension = len(self._weights[0])
 
-- 
2.43.0


From 23e59ae40beae980c087ae8fba34dcc81698df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 34/56] fix: incomplete or damaged dynamics of HHN are read
 without an error

---
 ccore/include/pyclustering/nnet/hhn.hpp |   7 ++
 ccore/src/interface/hhn_interface.cpp   |   5 +-
 ccore/src/nnet/hhn.cpp                  | 126 ++++++++++++++----------
 3 files changed, 86 insertions(+), 52 deletions(-)

diff --git a/ccore/include/pyclustering/nnet/hhn.hpp b/ccore/include/pyclustering/nnet/hhn.hpp
index 7d0875a..59d1516 100755
--- a/ccore/include/pyclustering/nnet/hhn.hpp
+++ b/ccore/include/pyclustering/nnet/hhn.hpp
@@ -512,6 +512,7 @@ private:
     hhn_dynamic *                       m_dynamic       = nullptr;
     std::ifstream                       m_file_stream;
     std::vector<hhn_dynamic::collect>   m_order         = { };
+    std::size_t                         m_size_dynamic  = 0;
     std::size_t                         m_size_network  = 0;
 
 public:
@@ -557,6 +558,12 @@ private:
 
     void extract_state(std::istringstream & p_stream, basic_neuron_state & p_state) const;
 
+    std::string read_line();
+
+    static std::size_t extract_number(const std::string & p_item);
+
+    static double extract_value(std::istringstream & p_stream);
+
     static void extract_size_header(const std::string & p_line, std::size_t & p_size_dynamic, std::size_t & p_size_network);
 
     static void extract_enable_header(const std::string & p_line, std::vector<hhn_dynamic::collect> & p_collect);
diff --git a/ccore/src/interface/hhn_interface.cpp b/ccore/src/interface/hhn_interface.cpp
index 0ba7dc9..31ec614 100755
--- a/ccore/src/interface/hhn_interface.cpp
+++ b/ccore/src/interface/hhn_interface.cpp
@@ -8,6 +8,7 @@
 
 
 #include <fstream>
+#include <memory>
 
 #include <pyclustering/interface/hhn_interface.h>
 
@@ -111,7 +112,7 @@ void hhn_dynamic_write(const void * p_output_dynamic, const char * p_filename) {
 
 
 void * hhn_dynamic_read(const char * p_filename) {
-    hhn_dynamic * output_dynamic = new hhn_dynamic();
+    std::unique_ptr<hhn_dynamic> output_dynamic(new hhn_dynamic());
     hhn_dynamic_reader(p_filename).read(*output_dynamic);
-    return output_dynamic;
+    return output_dynamic.release();
 }
diff --git a/ccore/src/nnet/hhn.cpp b/ccore/src/nnet/hhn.cpp
index ad88e04..95205d2 100755
--- a/ccore/src/nnet/hhn.cpp
+++ b/ccore/src/nnet/hhn.cpp
@@ -10,6 +10,7 @@
 #include <pyclustering/nnet/hhn.hpp>
 
 #include <array>
+#include <cstdlib>
 #include <cstdint>
 
 #include <pyclustering/differential/differ_state.hpp>
@@ -365,8 +366,14 @@ hhn_dynamic_reader::~hhn_dynamic_reader() {
 
 
 void hhn_dynamic_reader::read(hhn_dynamic & p_dynamic) {
+    if (m_file_stream.is_open()) {
+        m_file_stream.close();  /* previous reading has failed */
+    }
+
+    m_file_stream.clear();
     m_file_stream.open(m_filename.c_str(), std::ifstream::in);
     m_dynamic = &p_dynamic;
+    m_order.clear();
 
     parse_size_header();
     parse_enable_header();
@@ -377,14 +384,9 @@ void hhn_dynamic_reader::read(hhn_dynamic & p_dynamic) {
 
 
 void hhn_dynamic_reader::parse_size_header() {
-    std::string line;
-    std::size_t dynamic_size, dynamic_network;
-
-    std::getline(m_file_stream, line);
-    extract_size_header(line, dynamic_size, dynamic_network);
+    extract_size_header(read_line(), m_size_dynamic, m_size_network);
 
-    m_size_network = dynamic_network;
-    m_dynamic->reserve(dynamic_size);
+    m_dynamic->reserve(m_size_dynamic);
 }
 
 
@@ -396,22 +398,18 @@ void hhn_dynamic_reader::extract_size_header(const std::string & p_line, std::si
         throw std::invalid_argument("Impossible parse size dynamic from line header: " + p_line);
     }
 
-    p_size_dynamic = (std::size_t) std::stoll(item);
+    p_size_dynamic = extract_number(item);
 
     if (!std::getline(string_stream, item, '\n')) {
         throw std::invalid_argument("Impossible parse size network from line header: " + p_line);
     }
 
-    p_size_network = (std::size_t) std::stoll(item);
+    p_size_network = extract_number(item);
 }
 
 
 void hhn_dynamic_reader::parse_enable_header() {
-    std::string line;
-
-    std::getline(m_file_stream, line);
-
-    extract_enable_header(line, m_order);
+    extract_enable_header(read_line(), m_order);
 
     m_dynamic->disable_all();
     m_dynamic->enable(m_order);
@@ -423,87 +421,115 @@ void hhn_dynamic_reader::extract_enable_header(const std::string & p_line, std::
     std::string item;
     while (std::getline(string_stream, item, ' ')) {
         /* Each collection type has whitespace after itself */
-        p_collect.push_back((hhn_dynamic::collect) std::stoll(item));
+        p_collect.push_back((hhn_dynamic::collect) extract_number(item));
     }
 }
 
 
 void hhn_dynamic_reader::parse_dynamic() {
-    for (std::string line; std::getline(m_file_stream, line); ) {
+    for (std::size_t iter = 0; iter < m_size_dynamic; iter++) {
         double time = -1;
         std::vector<hhn_oscillator>     peripheral = { };
         std::vector<central_element>    central    = { };
 
-        extract_dynamic(line, time, peripheral, central);
+        extract_dynamic(read_line(), time, peripheral, central);
 
         m_dynamic->store(time, peripheral, central);
     }
+
+    if (m_file_stream.peek() != std::ifstream::traits_type::eof()) {
+        throw std::invalid_argument("HHN output dynamic '" + m_filename + "' contains more iterations than it is specified in its header.");
+    }
 }
 
 
 void hhn_dynamic_reader::extract_dynamic(const std::string & p_line, double & p_time, std::vector<hhn_oscillator> & p_peripheral, std::vector<central_element> & p_central) {
     std::istringstream string_stream(p_line);
-    std::string item;
 
     p_peripheral.resize(m_size_network);
     p_central.resize(2);
 
-    std::size_t counter_filling = p_peripheral.size() + 2;
+    p_time = extract_value(string_stream);
 
-    std::getline(string_stream, item, ' ');
-    p_time = std::stod(item);
-
-    bool extract_status = (bool) std::getline(string_stream, item, ' ');
-    for (std::size_t item_index = 0; extract_status; item_index++) {
-        if (item == "[") {
-            if (item_index < p_peripheral.size()) {
-                extract_state(string_stream, p_peripheral[item_index]);
-            }
-            else {
-                std::size_t index_central = item_index - p_peripheral.size();
-                extract_state(string_stream, p_central[index_central]);
-            }
-        }
-
-        counter_filling--;
+    for (auto & neuron : p_peripheral) {
+        extract_state(string_stream, neuron);
+    }
 
-        extract_status = (bool) std::getline(string_stream, item, ' ');
-        if (!extract_status) {
-            extract_status = (bool) std::getline(string_stream, item, '\n');
-        }
+    for (auto & neuron : p_central) {
+        extract_state(string_stream, neuron);
     }
 
-    if (counter_filling != 0) {
-        throw std::invalid_argument("Incorrect format of HHN output dynamic: not all neuron states are found.");
+    std::string item;
+    if (std::getline(string_stream, item)) {
+        throw std::invalid_argument("Incorrect format of HHN output dynamic: unexpected data '" + item + "' after neuron states.");
     }
 }
 
 
 void hhn_dynamic_reader::extract_state(std::istringstream & p_stream, basic_neuron_state & p_state) const {
     std::string item;
-    for (std::size_t item_index = 0; std::getline(p_stream, item, ' '); item_index++) {
-        if (item == "]") {
-            return;
-        }
+    if (!std::getline(p_stream, item, ' ') || (item != "[")) {
+        throw std::invalid_argument("Incorrect format of HHN output dynamic: not all neuron states are found.");
+    }
 
-        hhn_dynamic::collect type_value = m_order[item_index];
+    for (const auto type_value : m_order) {
         switch(type_value) {
             case hhn_dynamic::collect::MEMBRANE_POTENTIAL:
-                p_state.m_membrane_potential = std::stod(item);
+                p_state.m_membrane_potential = extract_value(p_stream);
                 break;
             case hhn_dynamic::collect::ACTIVE_COND_SODIUM:
-                p_state.m_active_cond_sodium = std::stod(item);
+                p_state.m_active_cond_sodium = extract_value(p_stream);
                 break;
             case hhn_dynamic::collect::INACTIVE_COND_SODIUM:
-                p_state.m_inactive_cond_sodium = std::stod(item);
+                p_state.m_inactive_cond_sodium = extract_value(p_stream);
                 break;
             case hhn_dynamic::collect::ACTIVE_COND_POTASSIUM:
-                p_state.m_active_cond_potassium = std::stod(item);
+                p_state.m_active_cond_potassium = extract_value(p_stream);
                 break;
             default:
                 throw std::invalid_argument("Invalid type of value is detected '" + std::to_string((std::size_t) type_value) + "'");
         }
     }
+
+    if (!std::getline(p_stream, item, ' ') || (item != "]")) {
+        throw std::invalid_argument("Incorrect format of HHN output dynamic: neuron state is not complete.");
+    }
+}
+
+
+std::string hhn_dynamic_reader::read_line() {
+    /* Each line is finished by the end of line, otherwise it (and therefore the dynamic) is not complete */
+    std::string line;
+    if (!std::getline(m_file_stream, line) || m_file_stream.eof()) {
+        throw std::invalid_argument("HHN output dynamic '" + m_filename + "' is not complete or it cannot be read.");
+    }
+
+    return line;
+}
+
+
+std::size_t hhn_dynamic_reader::extract_number(const std::string & p_item) {
+    std::size_t position = 0;
+    const std::size_t value = (std::size_t) std::stoull(p_item, &position);
+    if (position != p_item.size()) {
+        throw std::invalid_argument("Incorrect format of HHN output dynamic: impossible to parse number '" + p_item + "'.");
+    }
+
+    return value;
+}
+
+
+double hhn_dynamic_reader::extract_value(std::istringstream & p_stream) {
+    std::string item;
+    std::getline(p_stream, item, ' ');
+
+    char * end = nullptr;
+    const double value = std::strtod(item.c_str(), &end);   /* unlike 'std::stod' it accepts subnormal values */
+    if (item.empty() || (end != item.c_str() + item.size())) {
+        throw std::invalid_argument("Incorrect format of HHN output dynamic: impossible to parse value '" + item + "'.");
+    }
+
+    return value;
 }
 
 
-- 
2.43.0


From ec6df48dc19cbe1e68fa67456dada2452e8493f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 35/56] fix: answer reader keeps a partially read answer

---
 pyclustering/samples/__init__.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pyclustering/samples/__init__.py b/pyclustering/samples/__init__.py
index f726f3e..4935324 100755
--- a/pyclustering/samples/__init__.py
+++ b/pyclustering/samples/__init__.py
@@ -61,24 +61,27 @@ class answer_reader:
         return [len(cluster) for cluster in clusters]
 
 
-    def __read_answer_from_line(self, index_point, line):
+    @staticmethod
+    def __read_answer_from_line(index_point, line, clusters, noise):
         """!
         @brief Read information about point from the specific line and place it to cluster or noise in line with that
                 information.
 
         @param[in] index_point (uint): Index point that should be placed to cluster or noise.
         @param[in] line (string): Line where information about point should be read.
+        @param[in,out] clusters (list): Clusters that have been read so far.
+        @param[in,out] noise (list): Noise that has been read so far.
 
         """
 
         if line[0] == 'n':
-            self.__noise.append(index_point)
+            noise.append(index_point)
         else:
             index_cluster = int(line)
-            if index_cluster >= len(self.__clusters):
-                self.__clusters.append([index_point])
+            if index_cluster >= len(clusters):
+                clusters.append([index_point])
             else:
-                self.__clusters[index_cluster].append(index_point)
+                clusters[index_cluster].append(index_point)
 
 
     def __read_answer(self):
@@ -90,13 +93,14 @@ class answer_reader:
         if self.__clusters is not None:
             return
 
-        file = open(self.__answer_path, 'r')
+        clusters, noise = [], []
 
-        self.__clusters, self.__noise = [], []
+        with open(self.__answer_path, 'r') as file:
+            index_point = 0
+            for line in file:
+                self.__read_answer_from_line(index_point, line, clusters, noise)
+                index_point += 1
 
-        index_point = 0
-        for line in file:
-            self.__read_answer_from_line(index_point, line)
-            index_point += 1
-
-        file.close()
+        # The answer becomes available only when the whole file is read - the clusters are the mark of that.
+        self.__noise = noise
+        self.__clusters = clusters
-- 
2.43.0


From fd4238039a982e477e712bd7900c342e7482b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 36/56] fix: ROCK object keeps clusters of a failed processing

---
 ccore/src/cluster/rock.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccore/src/cluster/rock.cpp b/ccore/src/cluster/rock.cpp
index 797e298..0a99f4c 100755
--- a/ccore/src/cluster/rock.cpp
+++ b/ccore/src/cluster/rock.cpp
@@ -44,6 +44,7 @@ void rock::process(const dataset & p_data, rock_data & p_result) {
     create_adjacency_matrix(p_data);
 
     /* initialize first version of clusters */
+    m_clusters.clear();
     for (size_t index = 0; index < p_data.size(); index++) {
         m_clusters.emplace_back(1, index);
     }
-- 
2.43.0


From 83b849c38ea20e5a2293e046b1af46d302328e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 37/56] fix: OPTICS object keeps the radius that it has
 calculated for other processing

---
 ccore/include/pyclustering/cluster/optics.hpp |  2 ++
 ccore/src/cluster/optics.cpp                  | 13 +++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/optics.hpp b/ccore/include/pyclustering/cluster/optics.hpp
index af19ea7..f490495 100755
--- a/ccore/include/pyclustering/cluster/optics.hpp
+++ b/ccore/include/pyclustering/cluster/optics.hpp
@@ -69,6 +69,8 @@ private:
 
     double              m_radius            = 0.0;
 
+    double              m_used_radius       = 0.0;  /* connectivity radius of the current processing, it is changed when amount of clusters is specified */
+
     std::size_t         m_neighbors         = 0;
 
     std::size_t         m_amount_clusters   = 0;
diff --git a/ccore/src/cluster/optics.cpp b/ccore/src/cluster/optics.cpp
index 7bfec92..a7bf82e 100755
--- a/ccore/src/cluster/optics.cpp
+++ b/ccore/src/cluster/optics.cpp
@@ -50,6 +50,7 @@ void optics::process(const dataset & p_data, const data_t p_type, optics_data &
     m_data_ptr    = &p_data;
     m_result_ptr  = &p_result;
     m_type        = p_type;
+    m_used_radius = m_radius;
 
     calculate_cluster_result();
 
@@ -57,12 +58,12 @@ void optics::process(const dataset & p_data, const data_t p_type, optics_data &
         double radius = ordering_analyser::calculate_connvectivity_radius(m_result_ptr->cluster_ordering(), m_amount_clusters);
 
         if (radius > 0) {
-            m_radius = radius;
+            m_used_radius = radius;
             calculate_cluster_result();
         }
     }
 
-    m_result_ptr->set_radius(m_radius);
+    m_result_ptr->set_radius(m_used_radius);
 
     m_data_ptr    = nullptr;
     m_result_ptr  = nullptr;
@@ -187,8 +188,8 @@ void optics::extract_clusters() {
     cluster * current_cluster = (cluster *) &noise;
 
     for (auto optics_object : m_ordered_database) {
-        if ( (optics_object->m_reachability_distance == optics::NONE_DISTANCE) || (optics_object->m_reachability_distance > m_radius) ) {
-            if ( (optics_object->m_core_distance != optics::NONE_DISTANCE) && (optics_object->m_core_distance <= m_radius) ) {
+        if ( (optics_object->m_reachability_distance == optics::NONE_DISTANCE) || (optics_object->m_reachability_distance > m_used_radius) ) {
+            if ( (optics_object->m_core_distance != optics::NONE_DISTANCE) && (optics_object->m_core_distance <= m_used_radius) ) {
                 clusters.push_back({ optics_object->m_index });
                 current_cluster = &clusters.back();
             }
@@ -222,7 +223,7 @@ void optics::get_neighbors(const size_t p_index, neighbors_collection & p_neighb
 void optics::get_neighbors_from_points(const std::size_t p_index, neighbors_collection & p_neighbors) {
     p_neighbors.clear();
 
-    container::kdtree_searcher searcher((*m_data_ptr)[p_index], m_kdtree.get_root(), m_radius);
+    container::kdtree_searcher searcher((*m_data_ptr)[p_index], m_kdtree.get_root(), m_used_radius);
 
     container::kdtree_searcher::rule_store rule = [&p_index, &p_neighbors](const container::kdnode::ptr & p_node, const double p_distance) {
             if (p_index != (std::size_t) p_node->get_payload()) {
@@ -240,7 +241,7 @@ void optics::get_neighbors_from_distance_matrix(const std::size_t p_index, neigh
     const auto & distances = m_data_ptr->at(p_index);
     for (std::size_t index_neighbor = 0; index_neighbor < distances.size(); index_neighbor++) {
         const double candidate_distance = distances[index_neighbor];
-        if ( (candidate_distance <= m_radius) && (index_neighbor != p_index) ) {
+        if ( (candidate_distance <= m_used_radius) && (index_neighbor != p_index) ) {
             p_neighbors.emplace(index_neighbor, candidate_distance);
         }
     }
-- 
2.43.0


From 3266be678ced925e84350c6e33335fc5519e5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 38/56] fix: removal from KD-tree that runs out of memory
 leaves a broken tree

---
 ccore/src/container/kdtree.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ccore/src/container/kdtree.cpp b/ccore/src/container/kdtree.cpp
index bc5af45..7f8900d 100755
--- a/ccore/src/container/kdtree.cpp
+++ b/ccore/src/container/kdtree.cpp
@@ -135,13 +135,10 @@ kdnode::ptr kdtree::recursive_remove(kdnode::ptr & p_node) {
     std::size_t discriminator = p_node->get_discriminator();
 
     /* Check if only left branch exist */
-    if (p_node->get_right() == nullptr) {
-        p_node->set_right(p_node->get_left());
-        p_node->set_left(nullptr);
-    }
+    const bool only_left_branch = (p_node->get_right() == nullptr);
 
     /* Find minimal node in line with coordinate that is defined by discriminator */
-    kdnode::ptr minimal_node = find_minimal_node(p_node->get_right(), discriminator);
+    kdnode::ptr minimal_node = find_minimal_node(only_left_branch ? p_node->get_left() : p_node->get_right(), discriminator);
     kdnode::ptr parent = minimal_node->get_parent();
 
     if (parent->get_left() == minimal_node) {
@@ -154,6 +151,12 @@ kdnode::ptr kdtree::recursive_remove(kdnode::ptr & p_node) {
         throw std::runtime_error("Structure of KD Tree is corrupted");
     }
 
+    /* Change the node only when nothing can fail anymore - otherwise the tree is corrupted in case of lack of memory */
+    if (only_left_branch) {
+        p_node->set_right(p_node->get_left());
+        p_node->set_left(nullptr);
+    }
+
     minimal_node->set_parent(p_node->get_parent());
     minimal_node->set_discriminator(p_node->get_discriminator());
     minimal_node->set_right(p_node->get_right());
-- 
2.43.0


From ddba64e340bac6b181462709c5d802da0e152091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 39/56] fix: KD-tree searcher keeps neighbors of an interrupted
 search

---
 ccore/src/container/kdtree_searcher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccore/src/container/kdtree_searcher.cpp b/ccore/src/container/kdtree_searcher.cpp
index 62a085b..cd7d139 100755
--- a/ccore/src/container/kdtree_searcher.cpp
+++ b/ccore/src/container/kdtree_searcher.cpp
@@ -80,6 +80,8 @@ void kdtree_searcher::store_user_nodes_if_reachable(const kdnode::ptr & node) co
 
 
 void kdtree_searcher::find_nearest_nodes(std::vector<double> & p_distances, std::vector<kdnode::ptr> & p_nearest_nodes) const {
+    clear();    /* previous search might be interrupted by exception */
+
     m_proc = std::bind(&kdtree_searcher::store_if_reachable, this, std::placeholders::_1);
     recursive_nearest_nodes(m_initial_node);
 
-- 
2.43.0


From 9859225b47362116892bb7df78553555598fbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 40/56] fix: reservoir algorithms write into the sample of a
 caller

---
 pyclustering/utils/sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclustering/utils/sampling.py b/pyclustering/utils/sampling.py
index 3c83818..14a0190 100755
--- a/pyclustering/utils/sampling.py
+++ b/pyclustering/utils/sampling.py
@@ -9,6 +9,7 @@
 """
 
 
+import copy
 import random
 
 
@@ -44,7 +45,7 @@ def reservoir_r(data, n):
         raise ValueError("Incorrect sampling value 'n' (%d) that should be bigger then data size (%d).")
 
     random.seed()
-    reservoir = data[0:n]
+    reservoir = copy.copy(data[0:n])    # slice of numpy array is a view to the array
 
     for i in range(n, len(data)):
         m = random.randrange(0, i + 1)
@@ -92,7 +93,7 @@ def reservoir_x(data, n):
         raise ValueError("Incorrect sampling value 'n' (%d) that should be bigger then data size (%d).")
 
     random.seed()
-    reservoir = data[0:n]
+    reservoir = copy.copy(data[0:n])    # slice of numpy array is a view to the array
 
     i = n
     while i < len(data):
-- 
2.43.0


From 5a58fa9369b354a4949104435ac5109360da2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 41/56] fix: K-Medoids writes into initial medoids of a caller

---
 pyclustering/cluster/kmedoids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 504b141..1eb0f8d 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -384,7 +384,7 @@ class kmedoids:
         """
         self.__pointer_data = data
         self.__clusters = []
-        self.__medoid_indexes = initial_index_medoids[:]
+        self.__medoid_indexes = list(initial_index_medoids)
         self.__labels = [-1] * len(data)
         self.__distance_first_medoid = [float('inf')] * len(data)
         self.__distance_second_medoid = [float('inf')] * len(data)
-- 
2.43.0


From 3e3d87baff934732e0a1973d2b0599b5d1a254ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 42/56] fix: CLIQUE writes into the first point of a caller

---
 pyclustering/cluster/clique.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index ddaeef3..3a0d2d3 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -753,8 +753,8 @@ class clique:
         @return (list, list, list): Data size in each dimension, minimum and maximum corners.
 
         """
-        min_corner = self.__data[0][:]
-        max_corner = self.__data[0][:]
+        min_corner = list(self.__data[0])
+        max_corner = list(self.__data[0])
 
         dimension = len(self.__data[0])
 
-- 
2.43.0


From 413a3f2412b764547ddbbc3b99f5d65c5b314c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 43/56] fix: elbow processed again adds to the previous results

---
 pyclustering/cluster/elbow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index ca29c91..c20f348 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -154,6 +154,8 @@ class elbow:
         @brief Performs processing using python implementation.
 
         """
+        self.__wce, self.__elbows = [], []
+
         for amount in range(self.__kmin, self.__kmax + 1, self.__kstep):
             centers = self.__initializer(self.__data, amount, random_state=self.__random_state).initialize()
             instance = kmeans(self.__data, centers, ccore=False)
-- 
2.43.0


From 14dacee5f0489516edbcc63ecbe4ddd46b8201eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 44/56] fix: syncpr simulation changes the previously collected
 dynamic

---
 pyclustering/nnet/syncpr.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pyclustering/nnet/syncpr.py b/pyclustering/nnet/syncpr.py
index 10dbcd2..fcc6039 100755
--- a/pyclustering/nnet/syncpr.py
+++ b/pyclustering/nnet/syncpr.py
@@ -343,11 +343,7 @@ class syncpr(sync_network):
             ccore_instance_dynamic = wrapper.syncpr_simulate_dynamic(self._ccore_network_pointer, pattern, order, solution, collect_dynamic, step)
             return syncpr_dynamic(None, None, ccore_instance_dynamic)
         
-        for i in range(0, len(pattern), 1):
-            if pattern[i] > 0.0:
-                self._phases[i] = 0.0
-            else:
-                self._phases[i] = math.pi / 2.0
+        self._phases = [0.0 if value > 0.0 else math.pi / 2.0 for value in pattern]     # previous phases may belong to a dynamic
         
         # For statistics and integration
         time_counter = 0
@@ -417,11 +413,7 @@ class syncpr(sync_network):
             ccore_instance_dynamic = wrapper.syncpr_simulate_static(self._ccore_network_pointer, steps, time, pattern, solution, collect_dynamic)
             return syncpr_dynamic(None, None, ccore_instance_dynamic)
         
-        for i in range(0, len(pattern), 1):
-            if pattern[i] > 0.0:
-                self._phases[i] = 0.0
-            else:
-                self._phases[i] = math.pi / 2.0
+        self._phases = [0.0 if value > 0.0 else math.pi / 2.0 for value in pattern]     # previous phases may belong to a dynamic
                 
         return super().simulate_static(steps, time, solution, collect_dynamic)
     
-- 
2.43.0


From c4fb729d0f17b7ae59ed527cc1117c5593bcb6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 45/56] fix: K-Medoids processed again changes the previously
 returned labels

---
 pyclustering/cluster/kmedoids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 1eb0f8d..0955a8d 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -419,6 +419,8 @@ class kmedoids:
         
         """
         
+        self.__labels = [-1] * len(self.__pointer_data)
+
         if self.__ccore is True:
             ccore_metric = metric_wrapper.create_instance(self.__metric)
             self.__clusters, self.__medoid_indexes, self.__iterations, self.__total_deviation = kmedoids_wrapper.kmedoids(self.__pointer_data, self.__medoid_indexes, self.__tolerance, self.__itermax, ccore_metric.get_pointer(), self.__data_type)
-- 
2.43.0


From 324d6dceeb8b4d3a73402051cc17ec9fae578298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 46/56] fix: BANG processed again adds to the previous results

---
 pyclustering/cluster/bang.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 2b886a4..3c28e3b 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1140,6 +1140,8 @@ class bang:
         @brief Performs cluster allocation using leafs of tree in BANG directory (the smallest cells).
 
         """
+        self.__noise, self.__dendrogram = [], []
+
         leaf_blocks = self.__directory.get_leafs()
         unhandled_block_indexes = set([i for i in range(len(leaf_blocks)) if leaf_blocks[i].get_density() > self.__density_threshold])
 
-- 
2.43.0


From f296ab5306b9453525f7accec5e9b88661e6b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 47/56] fix: K-Medoids processed again changes the previously
 returned medoids

---
 pyclustering/cluster/kmedoids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 0955a8d..63e4d57 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -435,6 +435,7 @@ class kmedoids:
             previous_deviation, self.__total_deviation = float('inf'), 0
 
             self.__iterations = 0
+            self.__medoid_indexes = self.__medoid_indexes[:]    # previous medoids may be used by a caller
 
             if self.__itermax > 0:
                 self.__total_deviation = self.__update_clusters()
-- 
2.43.0


From 75d37dd7263c44f0538c2ae4580cf73e0f676192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 48/56] fix: DBSCAN processed again adds to the previous
 results

---
 pyclustering/cluster/dbscan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/cluster/dbscan.py b/pyclustering/cluster/dbscan.py
index af86524..20a1962 100755
--- a/pyclustering/cluster/dbscan.py
+++ b/pyclustering/cluster/dbscan.py
@@ -135,6 +135,7 @@ class dbscan:
             if self.__data_type == 'points':
                 self.__kdtree = kdtree_balanced(self.__pointer_data, range(len(self.__pointer_data)))
 
+            self.__clusters, self.__noise = [], []
             self.__visited = [False] * len(self.__pointer_data)
             self.__belong = [False] * len(self.__pointer_data)
 
-- 
2.43.0


From 5e78af915e8412cb0c4835fe9864f7bef6fe1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 49/56] fix: CLIQUE processed again adds to the previous
 results

---
 pyclustering/cluster/clique.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index 3a0d2d3..ca9cab6 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -584,6 +584,7 @@ class clique:
 
         (self.__clusters, self.__noise, block_logical_locations, max_corners, min_corners, block_points) = result
 
+        self.__cells = []
         amount_cells = len(block_logical_locations)
         for i in range(amount_cells):
             self.__cells.append(clique_block(block_logical_locations[i],
@@ -597,6 +598,8 @@ class clique:
         @brief Performs cluster analysis using Python implementation of CLIQUE algorithm.
 
         """
+        self.__clusters, self.__noise = [], []
+
         self.__create_grid()
         self.__allocate_clusters()
 
-- 
2.43.0


From d5b81111b7ff7537826455af8e5712b71dae1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 50/56] fix: BSAS and MBSAS processed again add to the previous
 results

---
 pyclustering/cluster/bsas.py  | 4 ++--
 pyclustering/cluster/mbsas.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index e7f18fc..3f7ecd3 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -163,8 +163,8 @@ class bsas:
 
 
     def __prcess_by_python(self):
-        self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._clusters = [[0]]
+        self._representatives = [self._data[0]]
 
         for i in range(1, len(self._data)):
             point = self._data[i]
diff --git a/pyclustering/cluster/mbsas.py b/pyclustering/cluster/mbsas.py
index d50d9e2..1030794 100755
--- a/pyclustering/cluster/mbsas.py
+++ b/pyclustering/cluster/mbsas.py
@@ -95,8 +95,8 @@ class mbsas(bsas):
 
 
     def __prcess_by_python(self):
-        self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._clusters = [[0]]
+        self._representatives = [self._data[0]]
 
         skipped_objects = []
 
-- 
2.43.0


From 3f168f2bd50779dfdde2cb9bf53baef9f2199ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:15 +0000
Subject: [PATCH 51/56] fix: native map that is not trained crashes when a
 pattern is simulated

---
 ccore/src/nnet/som.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index fbbda68..bf5ddf3 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -459,6 +459,10 @@ void som::load(const dataset & p_weights, const som_award_sequence & p_awards, c
 
 
 size_t som::simulate(const pattern & input_pattern) const {
+    if (m_weights.empty()) {
+        return 0;   /* map is not trained: there is nothing to compare with */
+    }
+
     return competition(input_pattern);
 }
 
-- 
2.43.0


From 7225574ad73595dc2fc99fec2c7abd1530213570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:07 +0000
Subject: [PATCH 52/56] fix: OPTICS crashes when there is nothing to extract
 the amount of clusters from

---
 ccore/src/cluster/ordering_analyser.cpp | 4 ++++
 pyclustering/cluster/optics.py          | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ccore/src/cluster/ordering_analyser.cpp b/ccore/src/cluster/ordering_analyser.cpp
index fbcfffc..b7ccf3f 100755
--- a/ccore/src/cluster/ordering_analyser.cpp
+++ b/ccore/src/cluster/ordering_analyser.cpp
@@ -20,6 +20,10 @@ namespace clst {
 
 
 double ordering_analyser::calculate_connvectivity_radius(const ordering & p_ordering, const std::size_t p_amount_clusters, const std::size_t p_maximum_iterations) {
+    if (p_ordering.empty()) {
+        return -1.0;    /* there are no clusters - nothing to extract */
+    }
+
     const double maximum_distance = *std::max_element(p_ordering.cbegin(), p_ordering.cend());
 
     double upper_distance = maximum_distance;
diff --git a/pyclustering/cluster/optics.py b/pyclustering/cluster/optics.py
index 60f45d1..820a82a 100755
--- a/pyclustering/cluster/optics.py
+++ b/pyclustering/cluster/optics.py
@@ -132,6 +132,9 @@ class ordering_analyser:
         
         """
         
+        if len(self.__ordering) == 0:
+            return None, []
+
         maximum_distance = max(self.__ordering)
         
         upper_distance = maximum_distance
-- 
2.43.0


From 3eb39a2119c8abc67e17dcbcca0e993b9f869065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 53/56] fix: OPTICS processed again uses the radius that it
 calculated before

---
 pyclustering/cluster/optics.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyclustering/cluster/optics.py b/pyclustering/cluster/optics.py
index 820a82a..17138d6 100755
--- a/pyclustering/cluster/optics.py
+++ b/pyclustering/cluster/optics.py
@@ -394,6 +394,7 @@ class optics:
         
         self.__sample_pointer = sample      # Algorithm parameter - pointer to sample for processing.
         self.__eps = eps                    # Algorithm parameter - connectivity radius between object for establish links between object.
+        self.__radius = eps                 # Connectivity radius that is used for processing (it differs from 'eps' in case of specified amount of clusters).
         self.__minpts = minpts              # Algorithm parameter - minimum number of neighbors that is required for establish links between object.
         self.__amount_clusters = amount_clusters
         
@@ -442,7 +443,7 @@ class optics:
 
         """
 
-        (self.__clusters, self.__noise, self.__ordering, self.__eps,
+        (self.__clusters, self.__noise, self.__ordering, self.__radius,
          objects_indexes, objects_core_distances, objects_reachability_distances) = \
             wrapper.optics(self.__sample_pointer, self.__eps, self.__minpts, self.__amount_clusters, self.__data_type)
 
@@ -469,13 +470,15 @@ class optics:
         if self.__data_type == 'points':
             self.__kdtree = kdtree_balanced(self.__sample_pointer, range(len(self.__sample_pointer)))
 
+        self.__radius = self.__eps
+        self.__ordering = None
         self.__allocate_clusters()
 
         if (self.__amount_clusters is not None) and (self.__amount_clusters != len(self.get_clusters())):
             analyser = ordering_analyser(self.get_ordering())
             radius, _ = analyser.calculate_connvectivity_radius(self.__amount_clusters)
             if radius is not None:
-                self.__eps = radius
+                self.__radius = radius
                 self.__allocate_clusters()
 
 
@@ -598,7 +601,7 @@ class optics:
         
         """
         
-        return self.__eps
+        return self.__radius
     
 
     def get_cluster_encoding(self):
@@ -687,8 +690,8 @@ class optics:
 
         current_cluster = self.__noise
         for optics_object in self.__ordered_database:
-            if (optics_object.reachability_distance is None) or (optics_object.reachability_distance > self.__eps):
-                if (optics_object.core_distance is not None) and (optics_object.core_distance <= self.__eps):
+            if (optics_object.reachability_distance is None) or (optics_object.reachability_distance > self.__radius):
+                if (optics_object.core_distance is not None) and (optics_object.core_distance <= self.__radius):
                     self.__clusters.append([ optics_object.index_object ])
                     current_cluster = self.__clusters[-1]
                 else:
@@ -740,7 +743,7 @@ class optics:
         @return (list) List of indexes of neighbors in line the connectivity radius.
 
         """
-        kdnodes = self.__kdtree.find_nearest_dist_nodes(self.__sample_pointer[optic_object.index_object], self.__eps)
+        kdnodes = self.__kdtree.find_nearest_dist_nodes(self.__sample_pointer[optic_object.index_object], self.__radius)
         return [[node_tuple[1].payload, math.sqrt(node_tuple[0])] for node_tuple in kdnodes if
                 node_tuple[1].payload != optic_object.index_object]
 
@@ -756,7 +759,7 @@ class optics:
         """
         distances = self.__sample_pointer[optic_object.index_object]
         return [[index_neighbor, distances[index_neighbor]] for index_neighbor in range(len(distances))
-                if ((distances[index_neighbor] <= self.__eps) and (index_neighbor != optic_object.index_object))]
+                if ((distances[index_neighbor] <= self.__radius) and (index_neighbor != optic_object.index_object))]
 
 
     def __verify_arguments(self):
-- 
2.43.0


From 0276ec0689b1a14ac4101a725160081749db3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 54/56] fix: agglomerative clustering processed again uses
 merged centers

---
 pyclustering/cluster/agglomerative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index ceae07e..dd8f0ed 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -125,9 +125,6 @@ class agglomerative:
         if self.__ccore:
             self.__ccore = ccore_library.workable()
 
-        if self.__similarity == type_link.CENTROID_LINK:
-            self.__centers = self.__pointer_data.copy()    # used in case of usage of centroid links
-
     
     def process(self):
         """!
@@ -144,6 +141,9 @@ class agglomerative:
 
         else:
             self.__clusters = [[index] for index in range(0, len(self.__pointer_data))]
+
+            if self.__similarity == type_link.CENTROID_LINK:
+                self.__centers = list(self.__pointer_data)    # used in case of usage of centroid links
             
             current_number_clusters = len(self.__clusters)
                 
-- 
2.43.0


From e255533f345e68234f8fd3b98164bf8f34894682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 55/56] fix: BIRCH processed again inserts data into the
 previous tree

---
 pyclustering/cluster/birch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/birch.py b/pyclustering/cluster/birch.py
index d8ee8a1..cc846e6 100755
--- a/pyclustering/cluster/birch.py
+++ b/pyclustering/cluster/birch.py
@@ -126,7 +126,10 @@ class birch:
         self.__verify_arguments()
 
         self.__features = None
-        self.__tree = cftree(branching_factor, max_node_entries, diameter, type_measurement)
+        self.__branching_factor = branching_factor
+        self.__max_node_entries = max_node_entries
+        self.__diameter = diameter
+        self.__tree = None
         
         self.__clusters = []
         self.__cf_clusters = []
@@ -142,6 +145,8 @@ class birch:
         
         """
         
+        self.__tree = cftree(self.__branching_factor, self.__max_node_entries, self.__diameter, self.__measurement_type)
+
         self.__insert_data()
         self.__extract_features()
 
-- 
2.43.0


From 7606a64ce74983b39f9da7213e6e56c56ccb67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:52 +0000
Subject: [PATCH 56/56] fix: silhouette search processed again keeps the
 previous best score

---
 pyclustering/cluster/silhouette.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index 6bf0d7e..bffae01 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -488,6 +488,8 @@ class silhouette_ksearch:
         @brief Performs processing using python code.
 
         """
+        self.__amount = -1
+        self.__score = -1.0
         self.__scores = {}
 
         for k in range(self.__kmin, self.__kmax):
-- 
2.43.0


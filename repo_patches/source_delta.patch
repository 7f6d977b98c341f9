From bc2f80bf11720ecc699e5fc0b99dfa747001fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 01/22] fix: L2 deposits beyond the neighbor across the
 periodic boundary

normalize() took the sign of the raw index difference, which points backwards
when the neighbor lies across the boundary, so the second neighbor was the
starting site itself and the attempt was always rejected.
---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 9065cbf..6f49943 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -214,7 +214,8 @@ class SitePercolationL2(SitePercolation):
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
                 Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
                 delta_X = Y_index - X_index
-                delta_X.normalize()
+                # Y may be across the periodic boundary, so delta_X must be corrected before it is used as a direction
+                delta_X = self.wrapping_correction_relative_index(RelativeIndex(index=delta_X))
                 # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
                 Z_index = Y_index + delta_X
                 # print("Z_index ", Z_index)
-- 
2.43.0


From 70e82f9384ae0fe3a435ccc5488394d66df2e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 02/22] fix: L1/L2 stop drawing a site only when all its
 directions are exhausted

The neighbor counters went down on every failed attempt, so drawing one occupied
neighbor four times removed a site which still had empty neighbors and biased
the deposition. Each direction is now counted once.
---
 .../simulation/percolation_sq_lattice_L1L2.py     | 12 +++++++-----
 source_py/simulation/site.py                      | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 6f49943..6e4cbc0 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -95,10 +95,11 @@ class SitePercolationL1(SitePercolation):
             # sites = self.get_four_neighbor_sites(central_X)
             sites = self.lattice_ref.get_all_neighbor_sites(central_X)
             # print("four neighbors ", sites)
-            central2 = sites[random.randint(0, len(sites)-1)]
+            direction = random.randint(0, len(sites)-1)
+            central2 = sites[direction]
             if self.lattice_ref.get_site_by_id(central2).is_occupied():
                 # print("first neighbor is occupied")
-                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
+                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn(direction)
                 if self.lattice_ref.get_site_by_id(central_X).is_removable(1):
                     # print("is_removable")
                     # print("self.site_ids_indices before ", self.site_ids_indices)
@@ -201,14 +202,15 @@ class SitePercolationL2(SitePercolation):
         Z_id = central_X
         if self.lattice_ref.get_site_by_id(central_X).is_occupied():
             sites = self.lattice_ref.get_all_neighbor_sites(central_X)
-            Y_id = sites[random.randint(0, len(sites) - 1)]
+            direction = random.randint(0, len(sites) - 1)
+            Y_id = sites[direction]
             Z_id = Y_id
             # print("X is occupied")
             self.x_occupied += 1
 
             if self.lattice_ref.get_site_by_id(Y_id).is_occupied():
                 # print("Y is occupied")
-                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
+                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn(direction)
 
                 # if central2 is occupied then select the one in the direction
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
@@ -224,7 +226,7 @@ class SitePercolationL2(SitePercolation):
                 Z_id = self.lattice_ref.get_site_by_index(Z_index).get_id()
                 if self.lattice_ref.get_site_by_id(Z_id).is_occupied():
                     self.y_occupied += 1
-                    self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn()
+                    self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn(direction)
                     if self.lattice_ref.get_site_by_id(central_X).is_removable(2):
                         # print("is_removable")
                         self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]
diff --git a/source_py/simulation/site.py b/source_py/simulation/site.py
index 28bf5ed..0e03c27 100644
--- a/source_py/simulation/site.py
+++ b/source_py/simulation/site.py
@@ -13,6 +13,8 @@ class Site(Element):
         self.relative_index = RelativeIndex()
         self.first_nn_count = 4 # for L1 percolation
         self.second_directional_nn_count = 4 # for L2 percolation
+        self.exhausted_1st_nn = 0  # bitmask of the directions already counted in first_nn_count
+        self.exhausted_2nd_directional_nn = 0  # bitmask of the directions already counted in second_directional_nn_count
 
     def reset(self):
         super(Site, self).reset()
@@ -20,6 +22,8 @@ class Site(Element):
         self.relative_index = RelativeIndex()
         self.first_nn_count = 4  # for L1 percolation
         self.second_directional_nn_count = 4  # for L2 percolation
+        self.exhausted_1st_nn = 0
+        self.exhausted_2nd_directional_nn = 0
         pass
 
     def test_site(self):
@@ -42,13 +46,20 @@ class Site(Element):
     def get_nn_count(self):
         return self.first_nn_count, self.second_directional_nn_count
 
-    def reduce_1st_nn(self):
+    def reduce_1st_nn(self, direction):
+        # the same direction can be drawn more than once but it is only one neighbor
+        if self.exhausted_1st_nn & (1 << direction):
+            return
+        self.exhausted_1st_nn |= 1 << direction
         if self.first_nn_count <=0:
             assert self.first_nn_count >= 0
             return
         self.first_nn_count -= 1
 
-    def reduce_2st_directional_nn(self):
+    def reduce_2st_directional_nn(self, direction):
+        if self.exhausted_2nd_directional_nn & (1 << direction):
+            return
+        self.exhausted_2nd_directional_nn |= 1 << direction
         if self.second_directional_nn_count <=0:
             assert self.second_directional_nn_count >= 0
             return
-- 
2.43.0


From 220c6ce780352cbb1350655ec56508c5b2a3d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 03/22] fix: record occupation probabilities in every run, not
 only the first

The list was filled by the first run only, so after another number of sites was
placed (custom list, manual steps) it no longer matched the other curves and
get_data_array() raised.
---
 source_py/simulation/percolation_sq_lattice.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index a3dc87f..6915803 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -259,9 +259,7 @@ class SitePercolation(Percolation):
         self.occupied_site_count = 0
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
-        if self.first_run:
-            self.occupation_prob_list = list()
-            pass
+        self.occupation_prob_list = list()
         del self.entropy_list
         self.entropy_list = list()
         del self.order_wrapping_list
@@ -676,9 +674,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
@@ -740,9 +736,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
-- 
2.43.0


From cf21c7bc697b37e425faa32754f2b32573a2c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 04/22] fix: L1/L2 report the sequence in which sites were
 placed

get_site_id_sequence() (L1, L2) and get_index_sequence() (L2) returned the
internal candidate list, which is not the order of placement.
---
 .../simulation/percolation_sq_lattice_L1L2.py   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 6e4cbc0..54082bf 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -29,6 +29,9 @@ class SitePercolationL1(SitePercolation):
         self.x_occupied = 0
         self.site_id_sequence_record = []
 
+    def get_site_id_sequence(self):
+        return list(self.site_id_sequence_record)
+
     def get_index_sequence(self):
         indices = []
         for id in self.site_id_sequence_record:
@@ -148,6 +151,7 @@ class SitePercolationL2(SitePercolation):
         self.signature += "L2_"
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
         # print("SitePercolationL2.init")
         logging.info("SitePercolationL2.init")
         pass
@@ -157,6 +161,18 @@ class SitePercolationL2(SitePercolation):
         self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
+
+    def get_site_id_sequence(self):
+        return list(self.site_id_sequence_record)
+
+    def get_index_sequence(self):
+        indices = []
+        for id in self.site_id_sequence_record:
+            idx = self.lattice_ref.get_site_by_id(id).get_index()
+            indices.append(idx.as_list())
+            pass
+        return indices
 
     def get_signature(self):
         return self.signature
@@ -240,6 +256,7 @@ class SitePercolationL2(SitePercolation):
         # self.swap_ids(central_X, central)
         # print("central ", Z_id)
         self.selected_id = Z_id
+        self.site_id_sequence_record.append(self.selected_id)
         self.current_site = self.lattice_ref.get_site_by_id(self.selected_id)
         assert self.current_site.get_gid() == -1  # must be unoccupied
         # print("selected id ", self.selected_id)
-- 
2.43.0


From 48cece40c78b4a97e14f6469b4c5c084f7bf9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 05/22] fix: do not shuffle the caller's site list, nor a
 sequence already handed out

---
 source_py/simulation/percolation_sq_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 6915803..770caa9 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -162,7 +162,7 @@ class SitePercolation(Percolation):
         if max(site_id_list) > max_index or min(site_id_list) < min_index:
             print("Invalid site id list")
             return
-        self.site_ids_indices = site_id_list
+        self.site_ids_indices = list(site_id_list)  # a copy, since it may be shuffled
         self.mode_custome_site_id = True
         self.do_shuffle = do_shuffle
         self.max_iteration_limit = len(site_id_list)
@@ -221,7 +221,7 @@ class SitePercolation(Percolation):
         pass
 
     def get_site_id_sequence(self):
-        return self.site_ids_indices
+        return list(self.site_ids_indices)
 
     def get_index_sequence(self):
         indices = []
-- 
2.43.0


From 27ec2474ef7cda4f4eaa5b99d85ed12edeca3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 06/22] fix: L1/L2 end the run when a custom site list is used
 up

The end was tested against the number of sites of the lattice, so with a shorter
list random.randint was called with an empty range.
---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 54082bf..199ffb7 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -85,7 +85,7 @@ class SitePercolationL1(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL1.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
@@ -210,7 +210,7 @@ class SitePercolationL2(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL2.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
-- 
2.43.0


From 6c4e2acda0ac9e43476757b3ec4f49b5002e808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 07/22] fix: refuse site indices whose row or column is outside
 the lattice

(0, L) has the id of (1, 0), so such an index passed the check on ids and
another site than the one asked for was occupied.
---
 source_py/simulation/percolation_sq_lattice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 770caa9..f048339 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -175,8 +175,11 @@ class SitePercolation(Percolation):
         """
         max_index = self.lattice_ref.length**2 - 1
         min_index = 0
+        # an id can be valid even if the column is not, since it then points to another row
+        components = [idx.as_list() if isinstance(idx, Index) else idx for idx in site_index_list]
+        in_range = all(0 <= c < self.lattice_ref.length for idx in components for c in idx)
         site_index_list = [self.lattice_ref.calculate_id_from_index(idx) for idx in site_index_list]
-        if max(site_index_list) > max_index or min(site_index_list) < min_index:
+        if not in_range or max(site_index_list) > max_index or min(site_index_list) < min_index:
             print("Invalid site id list")
             return
         self.site_ids_indices = site_index_list
-- 
2.43.0


From 40d16c281a17b90e9f49fdf1a50b64fdfc5b01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 08/22] fix: detect the shortest path brought in by merging
 with another wrapping cluster

Only the row and column of the placed site were scanned, so a complete row of a
second wrapping cluster was missed when that cluster merged with the first.
---
 .../simulation/percolation_sq_lattice_shortest_path.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_shortest_path.py b/source_py/simulation/percolation_sq_lattice_shortest_path.py
index fa36402..a6ea4e1 100644
--- a/source_py/simulation/percolation_sq_lattice_shortest_path.py
+++ b/source_py/simulation/percolation_sq_lattice_shortest_path.py
@@ -34,6 +34,7 @@ class ShortestPathAfter_pc(SitePercolation):
         # sq_lattice_p.viewLattice(3)
         # sq_lattice_p.viewCluster()
         # print("get_occupation_prob_array ", self.get_occupation_prob_array())
+        wrapping_site_count = 0
         while self.place_one_site():
             # print("self.selection_flag ", self.selection_flag)
             # self.viewLattice(3)
@@ -44,6 +45,15 @@ class ShortestPathAfter_pc(SitePercolation):
                     index = self.current_site.get_index()
                     column_flag, row_flag = self.scan_row_col_of_selected_site(index)
 
+                    # merging with a cluster which already has a complete row or column (it has at least L sites)
+                    # also creates the path, even if the current site is not on it
+                    previous_count = wrapping_site_count
+                    wrapping_site_count = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
+                    if wrapping_site_count - previous_count > self.lattice_ref.length:
+                        column_flag = column_flag or self.scan_all_cols()
+                        row_flag = row_flag or self.scan_all_rows()
+                        pass
+
                     if column_flag or row_flag:
                         # print("Got to the shortest path point by placing ", self.current_site)
                         # self.viewLattice(1)
-- 
2.43.0


From f4ee8b046bbc9aacb95946da086b7e6db2976cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 09/22] fix: label the order parameter columns in the order
 they are written

get_data_array() puts the largest cluster before the wrapping cluster.
---
 run_py/ensemble.py              | 2 +-
 run_py/rsbd_percolatioin_run.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index fbca2f9..34f147d 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -66,7 +66,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 1636886..c806927 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -49,7 +49,7 @@ def single_realization(percolationClass, length):
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     with open(filename, 'w') as f:
-- 
2.43.0


From a55f6c3481cdc9a47ae9963e3a65c24fd9a1ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 10/22] fix: make all the requested realizations when the
 workers cannot share them evenly

The remainder of ensemble_count // thread was dropped, and with fewer
realizations than workers every worker crashed without making any.
---
 run_py/rsbd_percolatioin_run.py | 12 ++++++++++--
 run_py/shortest_path_run.py     |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index c806927..14bd6ca 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -115,8 +115,12 @@ def run_simulation_threads_v3(length, ensemble_count, thread):
 
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
+        # the first ones take the remainder, so that En realizations are made in total
+        En_this = En_per_thread + (1 if i < En % thread_counts else 0)
+        if En_this == 0:
+            break
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_this, i))
         all_processes.append(process)
         process.start()
 
@@ -145,8 +149,12 @@ def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
 
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
+        # the first ones take the remainder, so that En realizations are made in total
+        En_this = En_per_thread + (1 if i < En % thread_counts else 0)
+        if En_this == 0:
+            break
         process = multiprocessing.Process(target=ensemble.run_ensemble_entropy_order_threads_v2,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_this, i))
         all_processes.append(process)
         process.start()
 
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 4d991e4..2e6864f 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -100,8 +100,12 @@ def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
 
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
+        # the first ones take the remainder, so that En realizations are made in total
+        En_this = En_per_thread + (1 if i < En % thread_counts else 0)
+        if En_this == 0:
+            break
         process = multiprocessing.Process(target=ensemble_shortest_path_v2_thread,
-                                          args=(percolationClass, length, En_per_thread, i))
+                                          args=(percolationClass, length, En_this, i))
         all_processes.append(process)
         process.start()
 
-- 
2.43.0


From a92dc41c90c259b2fbc1c0a02a3be68387e6716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 11/22] fix: report failed workers instead of returning as if
 all results were written

---
 run_py/rsbd_percolatioin_run.py | 6 ++++++
 run_py/shortest_path_run.py     | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 14bd6ca..dd04277 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -128,6 +128,9 @@ def run_simulation_threads_v3(length, ensemble_count, thread):
     for process in all_processes:
         process.join()
         pass
+    failed = [i for i, process in enumerate(all_processes) if process.exitcode != 0]
+    if failed:
+        raise RuntimeError("results of the workers {} are lost".format(failed))
 
 def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     from run_py import ensemble
@@ -162,6 +165,9 @@ def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
     for process in all_processes:
         process.join()
         pass
+    failed = [i for i, process in enumerate(all_processes) if process.exitcode != 0]
+    if failed:
+        raise RuntimeError("results of the workers {} are lost".format(failed))
 
 
 def run_simulations():
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index 2e6864f..fcaa38a 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -112,4 +112,7 @@ def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
         pass
     for process in all_processes:
         process.join()
-        pass
\ No newline at end of file
+        pass
+    failed = [i for i, process in enumerate(all_processes) if process.exitcode != 0]
+    if failed:
+        raise RuntimeError("results of the workers {} are lost".format(failed))
\ No newline at end of file
-- 
2.43.0


From 1905296f3cad83577e47e58c5fed63dac1b0080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 12/22] fix: pass the percolation class in
 run_simulation_threads and _v2

Every thread died with a TypeError, since the length was passed in its place.
---
 run_py/rsbd_percolatioin_run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index dd04277..e594143 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -62,6 +62,7 @@ def single_realization(percolationClass, length):
 
 def run_simulation_threads():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
     lengths = [200, 300, 400]
     En = 500
 
@@ -71,7 +72,7 @@ def run_simulation_threads():
     all_threads = []
     for LL in lengths:
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(LL, En, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolation_sq_lattice_L0.SitePercolationL0, LL, En, i))
         i += 1
         all_threads.append(thread)
         thread.start()
@@ -82,6 +83,7 @@ def run_simulation_threads():
 
 def run_simulation_threads_v2():
     from run_py import ensemble
+    from source_py.simulation import percolation_sq_lattice_L0
     length = 10
     thread_counts = 2
     En = 1000
@@ -92,7 +94,7 @@ def run_simulation_threads_v2():
     all_threads = []
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(length, En_per_thread, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(percolation_sq_lattice_L0.SitePercolationL0, length, En_per_thread, i))
         all_threads.append(thread)
         thread.start()
         pass
-- 
2.43.0


From 3826fff2cab3131344494f340b5f67a934d6fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 13/22] fix: do not overwrite the result files of a run made in
 the same second

---
 run_py/ensemble.py              | 21 ++++++++++++++++++---
 run_py/rsbd_percolatioin_run.py |  3 ++-
 run_py/shortest_path_run.py     |  3 ++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index 34f147d..e0a06c3 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -2,9 +2,24 @@
 from datetime import datetime
 import json
 import numpy as np
+import os
 import time
 import logging
 
+
+def unused_filename(filename):
+    """
+    file names have a resolution of one second. results of an earlier run must not be overwritten
+    """
+    base, extension = os.path.splitext(filename)
+    i = 1
+    while os.path.exists(filename):
+        filename = "{}_{}{}".format(base, i, extension)
+        i += 1
+        pass
+    return filename
+
+
 def run_ensemble_entropy_order(percolationClass, length, ensembleSize, interaction=0):
     """
     run simulation for site percolation on square lattice.
@@ -68,7 +83,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
-    filename = "./data/" + filename
+    filename = unused_filename("./data/" + filename)
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
 
@@ -89,7 +104,7 @@ def write_critical_values(current_time, data, ensembleSize, length, now, signatu
     head['columns'] = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
     head['desc'] = ["pc=critical ocupation probability"]
     header_str = json.dumps(head)
-    filename = "./data/" + filename
+    filename = unused_filename("./data/" + filename)
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
 
@@ -150,7 +165,7 @@ def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, t
                     "P2=order parameter by wrapping cluster", "P1=order parameter by largest cluster"]
     header_str = json.dumps(head)
 
-    filename = "./data/" + filename
+    filename = unused_filename("./data/" + filename)
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
 
diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index e594143..9d2bd33 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -5,6 +5,7 @@ import numpy as np
 import json
 
 
+from run_py.ensemble import unused_filename
 from source_py.simulation import percolation_sq_lattice_L1L2
 
 def single_realization(percolationClass, length):
@@ -51,7 +52,7 @@ def single_realization(percolationClass, length):
     head['desc'] = ["p=occupation probability", "H=entropy",
                     "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
-    filename = "./data/" + filename
+    filename = unused_filename("./data/" + filename)
     with open(filename, 'w') as f:
         f.write(header_str)
         pass
diff --git a/run_py/shortest_path_run.py b/run_py/shortest_path_run.py
index fcaa38a..7124131 100644
--- a/run_py/shortest_path_run.py
+++ b/run_py/shortest_path_run.py
@@ -1,4 +1,5 @@
 from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
+from run_py.ensemble import unused_filename
 import time
 from datetime import datetime
 import json
@@ -42,7 +43,7 @@ def write_p_p_star(current_time, data, ensembleSize, length, now, signature, thr
                     "p*=occupation probability for which the wrapping cluster creates a shortest path for the first "
                     "time"]
     header_str = json.dumps(head)
-    filename = "./data/" + filename
+    filename = unused_filename("./data/" + filename)
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
 
 
-- 
2.43.0


From 75df3649a2b8449fcf973198e41c710074f15790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 14/22] fix: reserve the name of a result file, so that
 concurrent runs do not share it

---
 run_py/ensemble.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index e0a06c3..139a81d 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -9,15 +9,20 @@ import logging
 
 def unused_filename(filename):
     """
-    file names have a resolution of one second. results of an earlier run must not be overwritten
+    file names have a resolution of one second. results of an earlier or a concurrent run must not be overwritten.
+    creates the file, so that no other process takes the name
     """
     base, extension = os.path.splitext(filename)
     i = 1
-    while os.path.exists(filename):
-        filename = "{}_{}{}".format(base, i, extension)
-        i += 1
+    while True:
+        try:
+            open(filename, 'x').close()
+            return filename
+        except FileExistsError:
+            filename = "{}_{}{}".format(base, i, extension)
+            i += 1
+            pass
         pass
-    return filename
 
 
 def run_ensemble_entropy_order(percolationClass, length, ensembleSize, interaction=0):
-- 
2.43.0


From d6a0f122d57feca53d8f0a0ddbddd64fd016dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 15/22] fix: test_run_once() accepts a wrapping cluster that
 holds all occupied sites

---
 source_py/simulation/percolation_sq_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index f048339..7095bbf 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -732,7 +732,7 @@ class SitePercolation(Percolation):
                 if self.detect_wrapping():
                     # print("self.pc_occupied_site_count ", self.pc_occupied_site_count)
                     # print("self.pc_site_count_wrapping_cluster ", self.pc_site_count_wrapping_cluster)
-                    assert self.pc_occupied_site_count > self.pc_site_count_wrapping_cluster
+                    assert self.pc_occupied_site_count >= self.pc_site_count_wrapping_cluster
                     break
                 p = self.occupation_prob()
                 # print("p = ", p)
-- 
2.43.0


From bb0be3386b2f1dfc1b3efb04616a4472864892e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 16/22] fix: the row scan of relative indices accepts clusters
 which wind around the lattice more than once

---
 source_py/simulation/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source_py/simulation/lattice.py b/source_py/simulation/lattice.py
index 9b0b7fa..a756881 100644
--- a/source_py/simulation/lattice.py
+++ b/source_py/simulation/lattice.py
@@ -561,7 +561,8 @@ class Lattice:
                     dy = prev_relative_index.y_coord() - relative_index.y_coord()
                     print(prev_relative_index, " - ", relative_index)
 
-                    assert (abs(dy) == 1) or (abs(dy) == (self.length - 1))
+                    # in a wrapping cluster the difference can hold several turns around the lattice
+                    assert abs(dy) % self.length in (1, self.length - 1)
                     # assert abs(dx) == 0
                     pass
                 site_prev = site
-- 
2.43.0


From 42362cf96ded037c7d974ff6fe50dcce5e9be4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 17/22] fix: clusters with negative numbers do not exist in the
 pool

---
 source_py/simulation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/simulation/cluster.py b/source_py/simulation/cluster.py
index 4214e4c..ab3218a 100644
--- a/source_py/simulation/cluster.py
+++ b/source_py/simulation/cluster.py
@@ -147,7 +147,7 @@ class ClusterPool:
         return self.cluster_list[index].get_bonds()
 
     def get_cluster(self, cluster_id):
-        if cluster_id >= len(self.cluster_list):
+        if cluster_id < 0 or cluster_id >= len(self.cluster_list):
             print("Cluster does not exists")
             return None
         return self.cluster_list[cluster_id]
-- 
2.43.0


From 775ab265c374bb8d4176d47fa62b808d99577cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 18/22] fix: swap_ids() works on orders which are not shuffled

The table of positions was filled only by shuffling, so after a custom list
without shuffling swap_ids() exchanged other places, doubling some sites and
dropping others.
---
 source_py/simulation/percolation_sq_lattice.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 7095bbf..977fe0b 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -207,20 +207,20 @@ class SitePercolation(Percolation):
     def shuffle(self):
         if self.mode_custome_site_id and not self.do_shuffle:
             print("in mode_custome_site_id")
-            return
-        if self.do_shuffle:
+        elif self.do_shuffle:
             # print("SitePercolation:shuffle")
             # print("warning ! shuffle off")
             random.shuffle(self.site_ids_indices)
             # print("id order : ", self.site_ids_indices)
-            for i in range(len(self.site_ids_indices)):
-                a = self.site_ids_indices[i]
-                self.reverse_ids_indices[a] = i
-                pass
             pass
         else:
             print("Shuffling is turned off")
             pass
+        # also needed for an order which is not shuffled
+        for i in range(len(self.site_ids_indices)):
+            a = self.site_ids_indices[i]
+            self.reverse_ids_indices[a] = i
+            pass
         pass
 
     def get_site_id_sequence(self):
-- 
2.43.0


From 6a858154248734d45166666e7b2bc773587a53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 19/22] fix: get_four_neighbor_sites() removes the central site
 without skipping

It removed from the list it iterated over, left the central site in and failed
on its own assertion for all sites whose bonds list it at neighboring places.
---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 199ffb7..76bdfff 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -49,7 +49,7 @@ class SitePercolationL1(SitePercolation):
 
     def get_four_neighbor_sites(self, central):
         """
-        pytest unsuccessful. use similar method from lattice class.
+        a similar method is in lattice class.
         @param central:
         @return:
         """
@@ -59,10 +59,8 @@ class SitePercolationL1(SitePercolation):
             tmp = self.lattice_ref.get_neighbor_sites(bb)
             sites += tmp
             pass
-        for ss in sites:
-            if ss == central:
-                sites.remove(ss)
-                pass
+        # removing from the list being iterated over would skip some
+        sites = [ss for ss in sites if ss != central]
         assert len(sites) == 4
         # pytest. check distance between sites
         # central_site = self.lattice_ref.get_site_by_id(central)
-- 
2.43.0


From 45e4dae8ddea958a1a56c480811ffd6cf5455978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 20/22] fix: another run after the shortest path was found does
 not change p*

A second run_once() without reset went on past the path and reported a later p*.
---
 source_py/simulation/percolation_sq_lattice_shortest_path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_shortest_path.py b/source_py/simulation/percolation_sq_lattice_shortest_path.py
index a6ea4e1..c4fd106 100644
--- a/source_py/simulation/percolation_sq_lattice_shortest_path.py
+++ b/source_py/simulation/percolation_sq_lattice_shortest_path.py
@@ -34,6 +34,8 @@ class ShortestPathAfter_pc(SitePercolation):
         # sq_lattice_p.viewLattice(3)
         # sq_lattice_p.viewCluster()
         # print("get_occupation_prob_array ", self.get_occupation_prob_array())
+        if self.shortest_path_p > 0:
+            return  # already found in this realization
         wrapping_site_count = 0
         while self.place_one_site():
             # print("self.selection_flag ", self.selection_flag)
-- 
2.43.0


From ca08bbabcb8c12a5603b9fc01894fd5a403ca9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 21/22] fix: print_hi() calls the demonstration that exists

---
 main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 5397382..a119eae 100644
--- a/main.py
+++ b/main.py
@@ -9,8 +9,7 @@ import logging
 
 def print_hi():
     from source_py.simulation import lattice
-    lattice.test(5)
-    lattice.test_neighbors(6)
+    lattice.mTest_neighbors()
 
     # from source_py import percolation_sq_lattice
     # percolation_sq_lattice.test_site_percolation()
-- 
2.43.0


From 34327e0bdc17bbb80c96acced730ddd151463241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 22/22] fix: a list of bonds or sites is not added to a site or
 bond which has some already

---
 source_py/simulation/bond.py | 2 +-
 source_py/simulation/site.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/bond.py b/source_py/simulation/bond.py
index 53f90b0..69c9629 100644
--- a/source_py/simulation/bond.py
+++ b/source_py/simulation/bond.py
@@ -60,7 +60,7 @@ class Bond(Element):
             print("A bond connects only two sites")
             return
         if type(site_id) is list:
-            if len(site_id) == 2:
+            if len(site_id) == 2 and len(self.connected_site_ids) == 0:
                 self.connected_site_ids += site_id
                 # print("bond ", self.id, " got sites ", site_id)
                 pass
diff --git a/source_py/simulation/site.py b/source_py/simulation/site.py
index 0e03c27..39d5028 100644
--- a/source_py/simulation/site.py
+++ b/source_py/simulation/site.py
@@ -104,7 +104,7 @@ class Site(Element):
             return
 
         if type(bond_id) is list:
-            if len(bond_id) == 4:
+            if len(bond_id) == 4 and len(self.connecting_bond_ids) == 0:
                 self.connecting_bond_ids += bond_id
                 # print("site ", self.id, " got bonds ", bond_id)
                 pass
-- 
2.43.0


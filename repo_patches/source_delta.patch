From d965779df9e3489f3ac16879e7c4d9d6878d2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 01/78] fix: signal offset larger than the cycle length selects
 the right phase (Python)

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6dcf19e..c3e5429 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -97,9 +97,9 @@ class Node:
         #If this node has a signal, set `signal=[green time for group0, green time for group1. ...]`
 
         s.override_signal(signal=signal, groups=None, signal_offset=signal_offset, reset=True, signal_offset_old=signal_offset_old)
-        offset = s.cycle_length-s.signal_offset
 
         if s.signal != [0]:
+            offset = (s.cycle_length-s.signal_offset)%s.cycle_length
             i = 0
             while 1:
                 if offset < s.signal[i]:
-- 
2.43.0


From 3a9ab482ea41e0351e71fc88ebe8d2227a7e9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 02/78] fix: signal offset larger than the cycle length selects
 the right phase (C++)

---
 uxsim/trafficpp/traffi.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8f3618e..ef65149 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -68,7 +68,10 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
     for (auto s : this->signal_intervals) cycle_length += s;
 
     if (this->signal_intervals.size() > 1 || (this->signal_intervals.size() == 1 && this->signal_intervals[0] != 0)){
-        double offset = cycle_length - this->signal_offset;
+        // position in the cycle at t=0, wrapped into [0, cycle_length)
+        double offset = std::fmod(cycle_length - this->signal_offset, cycle_length);
+        if (offset < 0) offset += cycle_length;
+        if (offset >= cycle_length) offset = 0;
         int i = 0;
         while (true){
             if (offset < this->signal_intervals[i]){
-- 
2.43.0


From 2d53423bab1d119ddced69c01263ee44b425bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 03/78] fix: CppWorld.addVehicle creates exactly one vehicle
 for every time step width

---
 uxsim/uxsim_cpp_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6e3009a..22baa4f 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -936,7 +936,7 @@ class CppWorld:
         orig_name = orig.name if hasattr(orig, 'name') else str(orig)
         dest_name = dest.name if hasattr(dest, 'name') else str(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        t = departure_time * self.DELTAT if dep_is_ts else float(departure_time)
+        ts = int(departure_time) if dep_is_ts else int(float(departure_time) / self.DELTAT)
 
         # Validate custom vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
@@ -957,8 +957,9 @@ class CppWorld:
             cpp_links_pref.append(lname)
 
         n_before = self._cpp_world.vehicle_count
+        # Exactly one platoon at timestep `ts`: the margins keep C++ truncation and accumulation away from rounding boundaries
         _add_demand(self._cpp_world, orig_name, dest_name,
-                   float(t), float(t + self.DELTAT), float(self.DELTAN / self.DELTAT), cpp_links_pref)
+                   float((ts + 0.25) * self.DELTAT), float((ts + 1.25) * self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
         links_avoid = kwargs.get('links_avoid', [])
-- 
2.43.0


From 92d48f6c6194e85d9dbfdf8f03bb13582fc794e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 04/78] fix: CppWorld.exec_simulation skipped the last time
 step when end_ts*DELTAT/DELTAT rounds down

---
 uxsim/uxsim_cpp_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 22baa4f..f641e1b 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1190,7 +1190,8 @@ class CppWorld:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
-        self._cpp_world.main_loop(float(-1), float(end_ts * self.DELTAT))
+        # (the half step keeps the floor away from rounding: end_ts*DELTAT/DELTAT may be slightly below end_ts)
+        self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         self._sync_from_cpp()
 
         # Update Python-side time tracking from C++ state
-- 
2.43.0


From 5875a96c24e4835f5e8b12230dfc6c43017b0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 05/78] fix: actual travel times are recorded from the entry
 time step on, also when T*DELTAT/DELTAT rounds down

---
 uxsim/trafficpp/traffi.cpp | 4 ++--
 uxsim/uxsim.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index ef65149..3b55a63 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -359,7 +359,7 @@ void Node::transfer(){
         // Record traveltime_real event (lazily materialized on read, matching Python's traveltime_actual slice update)
         {
             double current_tt = (double)w->timestep * w->delta_t - chosen_veh->arrival_time_link;
-            int start_idx = (int)(chosen_veh->arrival_time_link / w->delta_t);
+            int start_idx = (int)std::lround(chosen_veh->arrival_time_link / w->delta_t);
             if (start_idx < 0) start_idx = 0;
             inlink->traveltime_real_events.emplace_back(start_idx, current_tt);
         }
@@ -895,7 +895,7 @@ void Vehicle::end_trip(){
     // Record traveltime_real event (lazily materialized on read, matching Python's traveltime_actual slice update)
     {
         double current_tt = ((double)w->timestep + 1.0) * w->delta_t - arrival_time_link;
-        int start_idx = (int)(arrival_time_link / w->delta_t);
+        int start_idx = (int)std::lround(arrival_time_link / w->delta_t);
         if (start_idx < 0) start_idx = 0;
         link->traveltime_real_events.emplace_back(start_idx, current_tt);
     }
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index c3e5429..46e277b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -348,7 +348,7 @@ class Node:
                 #累積台数関連更新
                 inlink.cum_departure[-1] += s.W.DELTAN
                 outlink.cum_arrival[-1] += s.W.DELTAN
-                inlink.traveltime_actual[int(veh.link_arrival_time/s.W.DELTAT):] = s.W.T*s.W.DELTAT - veh.link_arrival_time #自分の流入時刻より後の実旅行時間も今の実旅行時間で仮決め．後に流出した車両が上書きする前提
+                inlink.traveltime_actual[round(veh.link_arrival_time/s.W.DELTAT):] = s.W.T*s.W.DELTAT - veh.link_arrival_time #自分の流入時刻より後の実旅行時間も今の実旅行時間で仮決め．後に流出した車両が上書きする前提
 
                 veh.link_arrival_time = s.W.T*s.W.DELTAT
 
@@ -1225,7 +1225,7 @@ class Vehicle:
         s.state = "end"
 
         s.link.cum_departure[-1] += s.W.DELTAN
-        s.link.traveltime_actual[int(s.link_arrival_time/s.W.DELTAT):] = (s.W.T+1)*s.W.DELTAT - s.link_arrival_time  #端部の挙動改善 todo: 精査
+        s.link.traveltime_actual[round(s.link_arrival_time/s.W.DELTAT):] = (s.W.T+1)*s.W.DELTAT - s.link_arrival_time  #端部の挙動改善 todo: 精査
 
         if s.follower != None:
             s.follower.leader = None
-- 
2.43.0


From b21737910a927500ea34eacb6fce28bda4c04a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 06/78] fix: CppVehicle.arrival_time was one time step too
 early when T*DELTAT/DELTAT rounds down

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f641e1b..6bbeec5 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -533,7 +533,7 @@ class CppVehicle:
         if at >= 0:
             if self.state == "abort":
                 return -1
-            return int(at / self.W.DELTAT)
+            return round(at / self.W.DELTAT)
         return -1
 
     @property
-- 
2.43.0


From 94f5da88910d736c653d12f72d4c2e8d0c5c9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 07/78] fix: CppVehicle.departure_time was one time step too
 early when T*DELTAT/DELTAT rounds down

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6bbeec5..575b904 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -520,7 +520,7 @@ class CppVehicle:
 
     @property
     def departure_time(self):
-        return int(self._cpp_vehicle.departure_time / self.W.DELTAT)
+        return round(self._cpp_vehicle.departure_time / self.W.DELTAT)
 
     @property
     def departure_time_in_second(self):
-- 
2.43.0


From e740826a456d98afc9bc77ab1db74729ee4a5d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 08/78] fix: trips ending at the same link end in the same
 timestep end together regardless of vehicle order

---
 uxsim/uxsim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 46e277b..7f1dae0 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2474,6 +2474,11 @@ class World:
             for name in list(W.VEHICLES_LIVING.keys()):
                 W.VEHICLES_LIVING[name].update()
 
+            #a vehicle updated before the vehicle ahead of it finishes its trip in the same timestep as the one ahead
+            for link in W.LINKS:
+                while len(link.vehicles) and link.vehicles[0].flag_waiting_for_trip_end:
+                    link.vehicles[0].end_trip()
+
             if W.route_choice_update_gradual == True:
                 if W.T % W.DELTAT_ROUTE == 0:
                     W.ROUTECHOICE.route_search_all(W.T*W.DELTAT, noise=W.DUO_NOISE)
-- 
2.43.0


From 7b7f096bd833cf3afe03f6be70ff806191f4a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 09/78] fix: auto-renamed nodes of the C++ engine are
 registered under their new name

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 575b904..a8837da 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -70,7 +70,7 @@ class CppNode:
         self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
-- 
2.43.0


From 639b1ee9d1232ac7a3970b5a3e6f1533906c5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 10/78] fix: changing flow_capacity of a node takes effect in
 the C++ engine

---
 uxsim/uxsim_cpp_wrapper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a8837da..afb0c66 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -79,7 +79,6 @@ class CppNode:
         self.x = self._cpp_node.x
         self.y = self._cpp_node.y
         self.signal_offset = self._cpp_node.signal_offset
-        self.flow_capacity = self._cpp_node.flow_capacity
         self.number_of_lanes = self._cpp_node.number_of_lanes
         self.flag_lanes_automatically_determined = False
 
@@ -123,6 +122,13 @@ class CppNode:
     def signal_log(self, value):
         self._cpp_node.signal_log = value
 
+    @property
+    def flow_capacity(self):
+        return self._cpp_node.flow_capacity
+    @flow_capacity.setter
+    def flow_capacity(self, value):
+        self._cpp_node.flow_capacity = float(value) if value is not None else -1.0
+
     def override_signal(self, signal, groups=None, signal_offset=0, reset=False, signal_offset_old=None):
         """
         Override signal setting.
@@ -177,7 +183,6 @@ class CppNode:
         self._cpp_node.adjust_node_capacity()
         if self._cpp_node.number_of_lanes != self.number_of_lanes:
             self.flag_lanes_automatically_determined = True
-        self.flow_capacity = self._cpp_node.flow_capacity
         self.number_of_lanes = self._cpp_node.number_of_lanes
 
 
-- 
2.43.0


From 1bb36ec388065d36e1bb4c9ba311cb7c3f89e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 11/78] fix: CppVehicle logs read during a simulation are not
 frozen at that time

---
 uxsim/uxsim_cpp_wrapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index afb0c66..bdc0def 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -879,6 +879,7 @@ class CppWorld:
         self._skip_analyzer_setup = False
         self._cpp_veh_registered_count = 0
         self._veh_by_index = []  # CppVehicle objects in C++ vehicle index order
+        self._log_caches_built = False
 
     def _ensure_cpp_world(self):
         if self._cpp_world_created:
@@ -1199,6 +1200,12 @@ class CppWorld:
         self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
         self._sync_from_cpp()
 
+        # Logs that were read before this call are outdated now
+        if self._log_caches_built:
+            self._log_caches_built = False
+            for veh in self._veh_by_index:
+                veh._log_cache = None
+
         # Update Python-side time tracking from C++ state
         self.T = self._cpp_world.timestep
         self.TIME = self.T * self.DELTAT
@@ -1259,7 +1266,7 @@ class CppWorld:
 
     def _sync_from_cpp(self):
         """Update VEHICLES_LIVING / VEHICLES_RUNNING from C++ state.
-        Log caches are never explicitly invalidated — they start as None and are built lazily on first access (e.g. when analyzer reads log_t)."""
+        Log caches start as None and are built lazily on first access (e.g. when analyzer reads log_t); exec_simulation discards them."""
         # Batch-update VEHICLES_LIVING / VEHICLES_RUNNING using C++ bulk query
         try:
             states = self._cpp_world.get_all_vehicle_states()
@@ -1316,6 +1323,7 @@ class CppWorld:
     def _build_all_vehicle_log_caches(self):
         """Batch-fetch raw log data from C++ for all vehicles.
         Uses compact flat SoA API (no home prepend) for speed."""
+        self._log_caches_built = True
         flat = self._cpp_world.build_all_vehicle_logs_flat_compact()
         offsets = flat['offsets']
         ltl_offsets = flat['ltl_offsets']
-- 
2.43.0


From d70c48b40b00230dc76a223aa64ee8c51297e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 12/78] fix: analysis results read during a simulation are not
 reused after it has proceeded

---
 uxsim/analyzer.py          | 12 ++++++++++++
 uxsim/uxsim.py             |  2 ++
 uxsim/uxsim_cpp_wrapper.py |  2 ++
 3 files changed, 16 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 761e59a..0f56619 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -95,6 +95,15 @@ class Analyzer:
         os.makedirs(Path(fname).parent, exist_ok=True)
         return fname
 
+    def discard_cache(s):
+        """
+        Discard the cached analysis results. They are outdated once the simulation proceeds.
+        """
+        s.flag_edie_state_computed = 0
+        s.flag_trajectory_computed = 0
+        s.flag_pandas_convert = 0
+        s.flag_od_analysis = 0
+
     def basic_analysis(s):
         """
         Analyze basic stats.
@@ -214,6 +223,9 @@ class Analyzer:
         else:
             s.flag_trajectory_computed = 1
 
+        for l in s.W.LINKS:
+            l.tss, l.xss, l.ls, l.cs, l.names = [], [], [], [], []
+
         for veh in s.W.VEHICLES.values():
             l_old = None
             for i in lange(veh.log_t):
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 7f1dae0..1eb9d04 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2450,6 +2450,8 @@ class World:
         if end_ts < start_ts:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
+        W.analyzer.discard_cache()
+
         #the main loop
         #print("preping:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
         for W.T in range(start_ts, end_ts+1):
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index bdc0def..6fb7402 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1195,6 +1195,8 @@ class CppWorld:
         if end_ts < start_ts:
             raise Exception("exec_simulation error: Simulation duration is not positive. Check until_t or duration_t or duration_t2")
 
+        self.analyzer.discard_cache()
+
         # C++ main_loop executes timesteps [current, floor(until_t/delta_t)]
         # (the half step keeps the floor away from rounding: end_ts*DELTAT/DELTAT may be slightly below end_ts)
         self._cpp_world.main_loop(float(-1), float((end_ts + 0.5) * self.DELTAT))
-- 
2.43.0


From 72b1fdcae1722c304935bc44e819f7922b214864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 13/78] fix: C++ vehicle logs have every home entry (no
 truncation, vehicles that have not departed)

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 3b55a63..923a3aa 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -2004,7 +2004,7 @@ World::CompactFlatLogs World::build_all_vehicle_logs_flat_compact() const {
         const Vehicle *v = vehicles[vi];
         int n_missing = 0;
         if (v->log_size > 0 && v->log_t_at(0) > 0) {
-            n_missing = static_cast<int>(v->log_t_at(0) / delta_t);
+            n_missing = static_cast<int>(std::lround(v->log_t_at(0) / delta_t));
         }
         fl.n_missing[vi] = n_missing;
         fl.offsets[vi] = total_log;
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6fb7402..207b1ca 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1359,6 +1359,8 @@ class CppWorld:
             # Prepend home entries if compact format (n_missing available)
             if all_n_missing is not None:
                 nm = int(all_n_missing[i])
+                if s == e and self._cpp_vehicle_log_mode:
+                    nm = self.T     # still at home
                 if nm > 0:
                     home_t = np.arange(nm, dtype=all_log_t.dtype) * delta_t
                     home_fill_f = np.full(nm, -1.0)
-- 
2.43.0


From d98378e1284c34268e3bdf94cecaeb45cffe997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 14/78] fix: waiting vehicles lower the average speed of the
 running mean

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 1eb9d04..17cc62e 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1529,7 +1529,7 @@ class Vehicle:
 
                     if s.state == "wait":
                         s.W.analyzer.average_speed_count += 1
-                        s.W.analyzer.average_speed += 0
+                        s.W.analyzer.average_speed += (0 - s.W.analyzer.average_speed)/s.W.analyzer.average_speed_count
                 else:
                     # if len(s.log_link) == 0 or s.log_link[-1] != s.link:
                     #     s.log_t_link.append([t, s.link])
-- 
2.43.0


From eaf8a7235d1d3443f7f0f5e36e1eef2961ccd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 15/78] fix: get_xy_coords(t) uses the log of time t in both
 engines

---
 uxsim/uxsim.py             | 11 ++++++++---
 uxsim/uxsim_cpp_wrapper.py | 10 ++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 17cc62e..4980886 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -3,7 +3,7 @@ UXsim: Macroscopic/mesoscopic traffic flow simulator in a network.
 This `uxsim.py` is the core of UXsim. It summarizes the classes and methods that are essential for the simulation.
 """
 
-import csv, time, math, string, warnings, copy
+import bisect, csv, time, math, string, warnings, copy
 from collections import deque, OrderedDict
 from collections import defaultdict as ddict
 import warnings
@@ -1488,8 +1488,13 @@ class Vehicle:
             Time in seconds. If it is -1, the latest position is returned.
         """
         if t != -1:
-            link = s.log_link[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
-            xx = s.log_x[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
+            i = bisect.bisect_left(s.log_t, t)
+            if i == len(s.log_t) or s.log_t[i] > t:
+                i -= 1  #the latest log before t
+            if i < 0:
+                return (-1, -1)
+            link = s.log_link[i]
+            xx = s.log_x[i]
         else:
             link = s.link
             xx = s.x
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 207b1ca..2555ec9 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -723,6 +723,16 @@ class CppVehicle:
             self.add_dest(d)
 
     def get_xy_coords(self, t=-1):
+        if t != -1:
+            i = int(np.searchsorted(self.log_t, t))
+            if i == len(self.log_t) or self.log_t[i] > t:
+                i -= 1
+            link = self.log_link[i] if i >= 0 else -1
+            if link == -1:
+                return (-1, -1)
+            ratio = self.log_x[i] / link.length
+            return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
+                    link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
         if self.link is None:
             return self.orig.x, self.orig.y
         ratio = self.x / self.link.length if self.link.length > 0 else 0
-- 
2.43.0


From a63d78eb1a23a09da26799ac930a2e27d942fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 16/78] fix: vehicles added during a simulation follow the
 current route preference

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4980886..ef6d6e9 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1092,6 +1092,8 @@ class Vehicle:
             if s.W.route_pref_for_vehs == None:
                 s.W.route_pref_for_vehs = {l.id:0 for l in s.W.LINKS}
             s.route_pref = copy.copy(s.W.route_pref_for_vehs)
+            if s.W.finalized and s.route_choice_principle == "homogeneous_DUO":
+                s.route_pref_update() #added during the simulation: follow the current preference from the start
         else:
             s.route_pref = {l.id:route_pref[l] for l in route_pref.keys()}
 
-- 
2.43.0


From fcf2f35a08034654bfc4a2631b392a55fd4202a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 17/78] fix: distance_traveled includes the distance travelled
 right after entering a link

---
 uxsim/trafficpp/traffi.cpp | 1 +
 uxsim/uxsim.py             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 923a3aa..68f5137 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -419,6 +419,7 @@ void Node::transfer(){
         }
         chosen_veh->x = x_next_mr;
         chosen_veh->v += chosen_veh->x / w->delta_t;
+        chosen_veh->distance_traveled += chosen_veh->x;
         chosen_veh->move_remain = 0.0;
 
         // If the new front vehicle of inlink is waiting for trip end, let it end
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index ef6d6e9..4f9415f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -392,6 +392,7 @@ class Node:
                     
                 veh.x = x_next
                 veh.v += veh.x/s.W.DELTAT
+                veh.distance_traveled += veh.x
                 veh.move_remain = 0
 
                 #今移動した車両の後続車両がトリップ終了待ちの場合，トリップ終了させる
-- 
2.43.0


From 3b682d742c71c379bd6afa62178aeb90d9a86aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 18/78] fix: distances and free-flow times of OD pairs without
 any completed trip are reported

---
 uxsim/analyzer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 0f56619..21fe222 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -180,9 +180,10 @@ class Analyzer:
                 if veh.travel_time != -1:
                     s.od_trips_comp[o,d] += dn
                     s.od_tt[o,d].append(veh.travel_time)
-        for o,d in s.od_tt.keys():
-            s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
-            s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
+        for o,d in s.od_trips.keys():
+            if s.od_trips_comp[o,d]:
+                s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
+                s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
             s.od_tt_free[o,d] = dist_time[o.id, d.id]
             s.od_dist_total[o,d] = np.sum(s.od_dist[o,d])
             s.od_dist_min[o,d] = dist_space[o.id, d.id]
-- 
2.43.0


From 10b24731fb7fe2cdb0822b7ef42ed903a0d581b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 19/78] fix: mfd_to_pandas returns all time intervals

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 21fe222..baa84b7 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2025,7 +2025,7 @@ class Analyzer:
         links = frozenset(links)
 
         out = [["t", "network_k", "network_q"]]
-        for i in lange(s.W.K_AREA):
+        for i in lange(s.W.K_AREA[links]):
             out.append([i*s.W.EULAR_DT, s.W.K_AREA[links][i], s.W.Q_AREA[links][i]])
         s.df_mfd = pd.DataFrame(out[1:], columns=out[0])
         return s.df_mfd
-- 
2.43.0


From 0f6b1c2c2f2cd0923330095b6d2f18396dba2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 20/78] fix: vehicle_groups_to_pandas works without group names

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index baa84b7..ca6d122 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1931,7 +1931,7 @@ class Analyzer:
         df_od = s.W.analyzer.od_to_pandas()
 
         if group_names == None: 
-            group_names = [f"group {i} including {groups[0].name}" for i in range(len(groups))]
+            group_names = [f"group {i} including {groups[i][0].name}" for i in range(len(groups))]
 
         total_trip_rec = []
         completed_trip_rec = []
-- 
2.43.0


From 8e42855fd41f3cdf1170aed1f088c01b6aa56d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 21/78] fix: area_to_pandas does not subtract the remaining
 vehicles from those that have left a link

---
 uxsim/analyzer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index ca6d122..ed3cb90 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1869,8 +1869,7 @@ class Analyzer:
             vehicles_remain = df_links.loc[rows, "vehicles_remain"].sum()
 
             if traffic_volume > 0:
-                traffic_volume_rows = (
-                            df_links.loc[rows, "traffic_volume"] - df_links.loc[rows, "vehicles_remain"]).values
+                traffic_volume_rows = df_links.loc[rows, "traffic_volume"].values #vehicles that have traveled through the link
                 total_travel_time = np.sum(df_links.loc[rows, "average_travel_time"].values * traffic_volume_rows)
                 total_free_time = np.sum(df_links.loc[rows, "free_travel_time"].values * traffic_volume_rows)
                 average_delay = max(total_travel_time / total_free_time - 1, 0)
-- 
2.43.0


From c64b47516a4360a29fedb88c681bd854458ba4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 22/78] fix: free-flow times and shortest distances consider
 the best of parallel links

---
 uxsim/analyzer.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index ed3cb90..d6143a1 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -150,20 +150,15 @@ class Analyzer:
         dn = s.W.DELTAN
 
         #自由旅行時間と最短距離
-        adj_mat_time = np.zeros([len(s.W.NODES), len(s.W.NODES)])
-        adj_mat_dist = np.zeros([len(s.W.NODES), len(s.W.NODES)])
+        adj_mat_time = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
+        adj_mat_dist = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
         for link in s.W.LINKS:
             i = link.start_node.id
             j = link.end_node.id
-            if s.W.ADJ_MAT[i,j]:
-                adj_mat_time[i,j] = link.length/link.u
-                adj_mat_dist[i,j] = link.length
-                if link.capacity_in == 0: #流入禁止の場合は通行不可
-                    adj_mat_time[i,j] = np.inf
-                    adj_mat_dist[i,j] = np.inf
-            else:
-                adj_mat_time[i,j] = np.inf
-                adj_mat_dist[i,j] = np.inf
+            if s.W.ADJ_MAT[i,j] and link.capacity_in != 0: #流入禁止の場合は通行不可
+                #if there are multiple links between the same nodes, the best one counts
+                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u)
+                adj_mat_dist[i,j] = min(adj_mat_dist[i,j], link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
 
-- 
2.43.0


From b67182b0886ccb8da7ecf9b7e24a54a7d19863be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 23/78] fix: area and multi-node demands with a single shared
 destination, and in C++ mode with overlapping areas or attributes

---
 uxsim/uxsim.py             | 18 ++++++++++++------
 uxsim/uxsim_cpp_wrapper.py | 17 +++++++++++++----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4f9415f..859f494 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2261,10 +2261,13 @@ class World:
         ds = W.rng.choice(dests, size=size)
         
         for t, o, d, in zip(ts, os, ds):
-            d2 = d
+            o2, d2 = o, d
             if o == d:
-                d2 = W.rng.choice([dd for dd in dests if dd!=d])
-            W.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
+                if any(dd!=d for dd in dests):
+                    d2 = W.rng.choice([dd for dd in dests if dd!=d])
+                else:
+                    o2 = W.rng.choice([oo for oo in origs if oo!=o])
+            W.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)
 
 
     @demand_info_record
@@ -2312,10 +2315,13 @@ class World:
         ds = W.rng.choice(dests, size=size)
         
         for t, o, d, in zip(ts, os, ds):
-            d2 = d
+            o2, d2 = o, d
             if o == d:
-                d2 = W.rng.choice([dd for dd in dests if dd!=d])
-            W.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
+                if any(dd!=d for dd in dests):
+                    d2 = W.rng.choice([dd for dd in dests if dd!=d])
+                else:
+                    o2 = W.rng.choice([oo for oo in origs if oo!=o])
+            W.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)
 
     def finalize_scenario(W, tmax:float|None=None):
         """
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 2555ec9..20e997a 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1072,7 +1072,13 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            self.addVehicle(o, d, t, direct_call=False)
+            o2, d2 = o, d
+            if o == d:
+                if any(dd != d for dd in dests):
+                    d2 = self.rng.choice([dd for dd in dests if dd != d])
+                else:
+                    o2 = self.rng.choice([oo for oo in origs if oo != o])
+            self.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)
 
     @demand_info_record
     def adddemand_nodes2nodes2(self, origs, dests, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1085,10 +1091,13 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            d2 = d
+            o2, d2 = o, d
             if o == d:
-                d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, direct_call=False)
+                if any(dd != d for dd in dests):
+                    d2 = self.rng.choice([dd for dd in dests if dd != d])
+                else:
+                    o2 = self.rng.choice([oo for oo in origs if oo != o])
+            self.addVehicle(o2, d2, t, attribute=attribute, direct_call=False)
 
     # --- Simulation ---
 
-- 
2.43.0


From bd6af9ed57767e309c28a1a9b1b2a85af2b42ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:00 +0000
Subject: [PATCH 24/78] fix: get_nearest_node finds a node however far away it
 is

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 859f494..d9c3bc6 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2621,7 +2621,7 @@ class World:
         object
             The nearest Node object.
         """
-        min_dist = 1e10
+        min_dist = float("inf")
         nearest_node = None
         for node in W.NODES:
             dist = (node.x-x)**2 + (node.y-y)**2
-- 
2.43.0


From 9fa56bd421746a30e02a1e4b4d3ae59007c5f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:35 +0000
Subject: [PATCH 25/78] fix: a link with its own Eulerian cell length can be
 created and simulated in Python mode

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index d9c3bc6..637d03d 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -617,6 +617,8 @@ class Link:
             s.edie_dx = s.length/10
             if s.edie_dx < s.u*s.W.DELTAT:
                 s.edie_dx = s.u*s.W.DELTAT
+        else:
+            s.edie_dx = eular_dx
 
 
     def __repr__(s):
-- 
2.43.0


From 317ff83c94897051d3925091a9c0616c5ec20591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 26/78] fix: an automatic vehicle name never takes a name given
 by the user

---
 uxsim/uxsim.py             | 5 ++++-
 uxsim/uxsim_cpp_wrapper.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 637d03d..75fe0ca 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1133,7 +1133,10 @@ class Vehicle:
         if name != None:
             s.name = name
         else:
-            s.name = str(s.id)
+            num = s.id
+            while str(num) in s.W.VEHICLES: #the number may have been given to another vehicle by the user
+                num += 1
+            s.name = str(num)
         if s.name in s.W.VEHICLES.keys():
             if auto_rename:
                 s.name = s.name+"_renamed"+"".join(s.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 20e997a..2b16e4c 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1256,6 +1256,11 @@ class CppWorld:
             i = start_idx + j
             cpp_veh = get_veh(i)
             name = cpp_veh.name
+            if name in vehicles: # the number may have been given to another vehicle by the user
+                num = veh_id
+                while str(num) in vehicles:
+                    num += 1
+                name = str(num)
             py_veh = CppVehicle.__new__(CppVehicle)
             py_veh.W = self
             py_veh.name = name
-- 
2.43.0


From 19e04206a353caa2f8057f88aba9025da1dc2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 27/78] fix: C++ mode rejects nodes and links the world does
 not have, as Python mode does

---
 uxsim/uxsim_cpp_wrapper.py | 44 ++++++++++++++------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 2b16e4c..eb4a4c9 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -949,8 +949,8 @@ class CppWorld:
         orig = args[0] if len(args) > 0 else kwargs.get('orig')
         dest = args[1] if len(args) > 1 else kwargs.get('dest')
         departure_time = args[2] if len(args) > 2 else kwargs.get('departure_time', 0)
-        orig_name = orig.name if hasattr(orig, 'name') else str(orig)
-        dest_name = dest.name if hasattr(dest, 'name') else str(dest)
+        orig_name = self._resolve_node_name(orig)
+        dest_name = self._resolve_node_name(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
         ts = int(departure_time) if dep_is_ts else int(float(departure_time) / self.DELTAT)
 
@@ -969,8 +969,9 @@ class CppWorld:
         links_prefer = kwargs.get('links_prefer', [])
         cpp_links_pref = []
         for l in links_prefer:
-            lname = l.name if hasattr(l, 'name') else str(l)
-            cpp_links_pref.append(lname)
+            cpp_links_pref.append(self.get_link(l).name)
+
+        links_avoid = [self.get_link(l) for l in kwargs.get('links_avoid', [])]
 
         n_before = self._cpp_world.vehicle_count
         # Exactly one platoon at timestep `ts`: the margins keep C++ truncation and accumulation away from rounding boundaries
@@ -978,15 +979,8 @@ class CppWorld:
                    float((ts + 0.25) * self.DELTAT), float((ts + 1.25) * self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
-        links_avoid = kwargs.get('links_avoid', [])
         if links_avoid:
-            cpp_avoid = []
-            for l in links_avoid:
-                link_obj = self.get_link(l) if isinstance(l, str) else l
-                try:
-                    cpp_avoid.append(link_obj._cpp_link)
-                except AttributeError:
-                    pass
+            cpp_avoid = [l._cpp_link for l in links_avoid]
             n_after = self._cpp_world.vehicle_count
             for i in range(n_before, n_after):
                 try:
@@ -1011,9 +1005,7 @@ class CppWorld:
 
     def _resolve_node_name(self, node):
         """Get node name string from Node object or string."""
-        if hasattr(node, 'name'):
-            return node.name
-        return str(node)
+        return self.get_node(node).name
 
     @demand_info_record
     def adddemand(self, orig, dest, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1443,25 +1435,21 @@ class CppWorld:
     def get_node(self, node):
         if node is None:
             return None
-        if isinstance(node, CppNode):
+        if isinstance(node, CppNode) and node.W is self:
             return node
-        if isinstance(node, (str, np.str_)):
-            return self.NODES_NAME_DICT.get(node)
-        if hasattr(node, 'name'):
-            return self.NODES_NAME_DICT.get(node.name)
+        name = node if isinstance(node, (str, np.str_)) else getattr(node, 'name', None)
+        if name in self.NODES_NAME_DICT:
+            return self.NODES_NAME_DICT[name]
         raise Exception(f"'{node}' is not Node in this World")
 
     def get_link(self, link):
         if link is None:
             return None
-        if isinstance(link, CppLink):
-            if link.W is self:
-                return link
-            return self.LINKS_NAME_DICT.get(link.name)
-        if isinstance(link, (str, np.str_)):
-            return self.LINKS_NAME_DICT.get(link)
-        if hasattr(link, 'name'):
-            return self.LINKS_NAME_DICT.get(link.name)
+        if isinstance(link, CppLink) and link.W is self:
+            return link
+        name = link if isinstance(link, (str, np.str_)) else getattr(link, 'name', None)
+        if name in self.LINKS_NAME_DICT:
+            return self.LINKS_NAME_DICT[name]
         raise Exception(f"'{link}' is not Link in this World")
 
     def get_nearest_node(self, x, y):
-- 
2.43.0


From 9f5b0d1812811a5d9a49d913b8d8651cd0facd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:43 +0000
Subject: [PATCH 28/78] fix: a vehicle with its own route preferences can use
 links added after it

---
 uxsim/uxsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 75fe0ca..faf63a6 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1328,8 +1328,8 @@ class Vehicle:
             if sum(list(s.route_pref.values())) == 0:
                 #最初にpreferenceが空なら確定的に初期化
                 weight = 1
-            for l in s.route_pref.keys():
-                s.route_pref[l] = (1-weight)*s.route_pref[l] + weight*route_pref_new[l]
+            for l in route_pref_new.keys(): #links may have been added after this vehicle
+                s.route_pref[l] = (1-weight)*s.route_pref.get(l, 0) + weight*route_pref_new[l]
 
     def route_next_link_choice(s):
         """
-- 
2.43.0


From 4d62200e4c3d8e2b77fdf350aaabfca0a521e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 29/78] fix: a scenario whose nodes or links have array
 attributes can be saved

---
 uxsim/scenario_reader_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index e883d4a..5534c7d 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -82,7 +82,7 @@ def instance_to_arg_dict(instance):
         
         value = instance_vars.get(param_name, param.default)
       
-        if value == param.default:
+        if isinstance(value, type(param.default)) and value == param.default:
             continue
         
         args[param_name] = value
-- 
2.43.0


From 343c3cb0cd7c6731daa6525e413375ccac0ad298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 30/78] fix: a demand call that was rejected is not saved in
 the scenario file

---
 uxsim/scenario_reader_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 5534c7d..d9e29a7 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -24,6 +24,9 @@ def demand_info_record(func):
         # self引数を除外
         arg_dict = dict(list(bound_args.arguments.items())[1:])
         
+        # 元の関数を呼び出す（受け付けられなかった需要は保存しない）
+        ret = func(self, *args, **kwargs)
+
         # direct_call=Trueが含まれている場合のみ保存
         if arg_dict.get('direct_call') == True:
             
@@ -34,8 +37,7 @@ def demand_info_record(func):
             # 関数名と引数をdict_func_argsに格納
             self.demand_info[func_name].append(arg_dict_to_save)
         
-        # 元の関数を呼び出す
-        return func(self, *args, **kwargs)
+        return ret
     
     return wrapper
 
-- 
2.43.0


From 0348040d667651739e90cfdc660b689b9d8d5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 31/78] fix: a link without its own inflow capacity behaves the
 same after saving and loading the scenario

---
 uxsim/scenario_reader_writer.py | 3 +++
 uxsim/uxsim.py                  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index d9e29a7..a812e47 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -87,6 +87,9 @@ def instance_to_arg_dict(instance):
         if isinstance(value, type(param.default)) and value == param.default:
             continue
         
+        if param_name == "capacity_in" and instance.flag_capacity_in_automatically_determined and value == instance.capacity*2:
+            continue # determined again when it is loaded
+
         args[param_name] = value
         for param in list(args):
             if param == "W":
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index faf63a6..680c57f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -571,8 +571,10 @@ class Link:
         s.capacity_out_remain = s.capacity_out*s.W.DELTAT
 
         #流入容量
+        s.flag_capacity_in_automatically_determined = False
         s.capacity_in = capacity_in
         if capacity_in == None:
+            s.flag_capacity_in_automatically_determined = True
             s.capacity_in = s.capacity*2
             s.capacity_in_remain = s.capacity*2
         else:
-- 
2.43.0


From 4c8061aecc59380b07424b462ad379e9adcac203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 32/78] fix: a changed jam density is saved in the scenario
 file even if the link was defined by the density per lane

---
 uxsim/uxsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 680c57f..88bdac5 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -978,6 +978,7 @@ class Link:
     def change_jam_density(s, new_value):
         if new_value >= 0:
             s.jam_density = new_value
+            s.jam_density_per_lane = None #the new value is for the whole link
             s.kappa = new_value
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
-- 
2.43.0


From fc2f4c9b51a4f4e23904230c9600ab01ac63a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 33/78] fix: the capacity and critical density of the
 fundamental diagram follow changes of speed and jam density in Python mode

---
 uxsim/uxsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 88bdac5..502b4dc 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -971,6 +971,8 @@ class Link:
             s.u = new_value
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
             s.delta = 1/s.kappa
         else:
             warnings.warn(f"ignored negative free_flow_speed at {s}", UserWarning)
@@ -982,6 +984,8 @@ class Link:
             s.kappa = new_value
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
             s.delta = 1/s.kappa
             s.delta_per_lane = s.delta*s.number_of_lanes
         else:
-- 
2.43.0


From c32e182a009faaf8bfb26a61b503a19e5a67abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 34/78] fix: departure_time_in_second of a vehicle whose
 departure time is given in seconds in Python mode

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 502b4dc..dbe7710 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1056,7 +1056,7 @@ class Vehicle:
             s.departure_time: int = departure_time
         else:
             s.departure_time: int = int(departure_time/s.W.DELTAT)
-        s.departure_time_in_second: float = departure_time*s.W.DELTAT  #TODO: temporal workaround
+        s.departure_time_in_second: float = s.departure_time*s.W.DELTAT  #TODO: temporal workaround
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
         s.travel_time: float = -1
-- 
2.43.0


From 5fc03e7b536d4e73f5c3e7d504b621698f1a282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 35/78] fix: shortest route enumeration with multiple links
 between the same nodes

---
 uxsim/Utilities/Utilities.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 2005829..61db2d9 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -81,18 +81,15 @@ def enumerate_k_shortest_routes(W, source, target, k=1, cost_function=lambda l:
     """
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l))
+        #each link is represented by its own vertex, because there may be multiple links between the same nodes
+        G.add_edge(l.start_node.name, l, weight=cost_function(l))
+        G.add_edge(l, l.end_node.name, weight=0)
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
-
+        route = [l.name for l in path[1::2]]
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
             print(f"Route: {route}, Cost: {path_weight}")
@@ -138,18 +135,15 @@ def enumerate_k_shortest_routes_on_t(W, source, target, t, k=1, cost_function=la
     """
     G = nx.DiGraph()
     for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l, t))
+        #each link is represented by its own vertex, because there may be multiple links between the same nodes
+        G.add_edge(l.start_node.name, l, weight=cost_function(l, t))
+        G.add_edge(l, l.end_node.name, weight=0)
 
     k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
     routes = []
     costs = []
     for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
-
+        route = [l.name for l in path[1::2]]
         path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
         if print_stats:
             print(f"Route: {route}, Cost: {path_weight}")
-- 
2.43.0


From f32d9d455805b2e0f0bb72e6892d0ec658b185f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 36/78] fix: random route enumeration with multiple links
 between the same nodes

---
 uxsim/Utilities/Utilities.py | 10 ++++++----
 uxsim/trafficpp/traffi.cpp   | 20 +++++++++++---------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 61db2d9..13e2a93 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -188,9 +188,12 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
         G = nx.DiGraph()
         for l in W.LINKS:
             if iteration == 0:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u)
+                weight = l.length/l.u
             else:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u*random.uniform(0,100))
+                weight = l.length/l.u*random.uniform(0,100)
+            #if there are multiple links between the same nodes, the best one counts
+            if not G.has_edge(l.start_node.name, l.end_node.name) or weight < G[l.start_node.name][l.end_node.name]["weight"]:
+                G.add_edge(l.start_node.name, l.end_node.name, weight=weight, link=l)
 
         paths = dict(nx.all_pairs_dijkstra_path(G))
         for source in paths:
@@ -198,8 +201,7 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
                 if len(dict_routes[source, dest]) < k:
                     path = []
                     for i in range(0,len(paths[source][dest])-1):
-                        l = W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]]
-                        #print(W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]], end="")
+                        l = G[paths[source][dest][i]][paths[source][dest][i+1]]["link"]
                         path.append(l.name)
                     if path not in dict_routes[source, dest]:
                         dict_routes[source, dest].append(path)
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 68f5137..8b1721c 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1392,11 +1392,8 @@ map<pair<int,int>, vector<vector<int>>>
 World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
     int nsize = node_id;
 
-    // Build node_pair → link_id lookup (last link wins for multi-link pairs, matching Python)
+    // node_pair → link_id lookup (the cheapest link of each iteration for multi-link pairs, matching Python)
     vector<vector<int>> node_pair_link(nsize, vector<int>(nsize, -1));
-    for (auto ln : links){
-        node_pair_link[ln->start_node->id][ln->end_node->id] = ln->id;
-    }
 
     map<pair<int,int>, vector<vector<int>>> dict_routes;
     std::mt19937 local_rng(seed);
@@ -1412,14 +1409,19 @@ World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
 
     while (true){
         // Build weighted adj matrix (free-flow on iter 0, random on subsequent)
+        for (auto ln : links){
+            node_pair_link[ln->start_node->id][ln->end_node->id] = -1;
+        }
         for (auto ln : links){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
-            double base_weight = ln->length / ln->vmax;
-            if (iteration == 0){
-                adj[i][j] = base_weight;
-            } else {
-                adj[i][j] = base_weight * rdist(local_rng);
+            double weight = ln->length / ln->vmax;
+            if (iteration > 0){
+                weight *= rdist(local_rng);
+            }
+            if (node_pair_link[i][j] == -1 || weight < adj[i][j]){
+                adj[i][j] = weight;
+                node_pair_link[i][j] = ln->id;
             }
         }
 
-- 
2.43.0


From 7bd44867e735a7fe9a9d9d92b478825885b03343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 37/78] fix: shortest travel times on time t for any route
 update interval, and the actual time returned with them

---
 uxsim/Utilities/Utilities.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 13e2a93..f010af9 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -310,10 +310,9 @@ def get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, ret
         Returns a numpy array of distances between nodes whose index is node.id pair if `return_matrix` is True and `return_time` is False.
         Returns a tuple of the abode distances and the actual time of computing shortest path cost if `return_time` is True.
     """
-    if t >= W.TMAX:
-        t = W.TMAX-W.DELTAT
-    duo_t = t//W.DUO_UPDATE_TIME
-    duo_timestep = int(duo_t*W.DUO_UPDATE_TIME/W.DELTAT)
+    timestep = min(int(t//W.DELTAT), W.TSIZE-1)
+    duo_timestep = timestep//W.DELTAT_ROUTE*W.DELTAT_ROUTE
+    duo_t = duo_timestep*W.DELTAT
 
     distances = W.ROUTECHOICE.dist_record[duo_timestep]
 
-- 
2.43.0


From 49a82b7653074b554f5e6fb9d8c2ad7f7f36d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 38/78] fix: W.TIME during a time step does not depend on how
 the run is split

---
 uxsim/uxsim.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index dbe7710..5d9113b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2482,6 +2482,7 @@ class World:
         #print("preping:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
         for W.T in range(start_ts, end_ts+1):
             #print("execing:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
+            W.TIME = W.T*W.DELTAT
             if W.T == 0:
                 W.print("      time| # of vehicles| ave speed| computation time", flush=True)
                 W.analyzer.show_simulation_progress()
@@ -2518,8 +2519,6 @@ class World:
                     for veh in W.VEHICLES_LIVING.values():
                         veh.route_pref_update(weight=W.DUO_UPDATE_WEIGHT)
 
-            W.TIME = W.T*W.DELTAT
-
             if W.print_mode and W.show_progress and W.T%W.show_progress_deltat_timestep == 0 and W.T > 0:
                 W.analyzer.show_simulation_progress()
             
-- 
2.43.0


From 7d4c0a99a493b8aa1d40d955183afcd7c8fff9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 39/78] fix: Vehicle.add_dest accepts the name of a node for a
 vacant taxi

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 5d9113b..7ea669c 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1396,7 +1396,7 @@ class Vehicle:
         """
         if s.mode == "taxi":
             if s.dest == None:
-                s.dest = dest
+                s.dest = s.W.get_node(dest)
                 s.route_pref_update(weight=1)
             else:
                 if order == -1:
-- 
2.43.0


From 4b4b4d20fd0720d22a2e1d3f35819748e3e44d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 40/78] fix: automatic names of trip requests are unique

---
 uxsim/TaxiHandler/TaxiHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 5581da6..1db95d5 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -103,7 +103,7 @@ class TaxiHandler:
             An optional attribute of the trip request. This can be used to store any information by users' need.
         """
         if name == None:
-            name = len(s.trip_requests)
+            name = len(s.trip_requests_all)
         s.trip_requests.append(TripRequest(s.W, s, orig, dest, depart_time, name, attribute=attribute))
         s.trip_requests_all.append(s.trip_requests[-1])
     
-- 
2.43.0


From 4cde68aff7eede99e6e7d336673f59303eaaf6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 41/78] fix: a trip request whose origin is its destination is
 finished

---
 uxsim/TaxiHandler/TaxiHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 1db95d5..9fd885e 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -51,12 +51,12 @@ class TripRequest:
         The event of getting on a taxi. This is called via `Vehicle.event_node`.
         """
         #print(f"{s.W.TIME}: {s} is getting on a taxi {s.taxi}")        
+        del s.taxi.node_event[s.orig]
+
         s.taxi.add_dest(s.dest)
         s.taxi.node_event[s.dest] = s.arrive_at_dest
 
         s.get_taxi_time = s.W.TIME
-        
-        del s.taxi.node_event[s.orig]
     
     def arrive_at_dest(s):
         """
-- 
2.43.0


From 469a3836fa7800050b129eb2294eab520fc766d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 42/78] fix: random taxi assignment neither depends on nor
 resets the random numbers of the rest of the process

---
 uxsim/TaxiHandler/TaxiHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 9fd885e..b10f5f2 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -83,7 +83,7 @@ class TaxiHandler:
         s.trip_requests = []
         s.trip_requests_all = []
         s.W = W
-        random.seed(s.W.random_seed)
+        s.rng = random.Random(s.W.random_seed)
 
     def add_trip_request(s, orig, dest, depart_time, name=None, attribute=None):
         """
@@ -222,7 +222,7 @@ class TaxiHandler_random(TaxiHandler):
         Assigns trip request to random available taxi.
         """
         vacant_taxis = [veh for veh in s.W.VEHICLES.values() if veh.mode == "taxi" and veh.state == "run" and veh.dest == None]
-        random.shuffle(vacant_taxis)
+        s.rng.shuffle(vacant_taxis)
         for trip_request in s.trip_requests[:]:
             if len(vacant_taxis) == 0:
                 break
-- 
2.43.0


From f51a468036d60d00c8ddfe291445f61f44484122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 43/78] fix: a taxi whose next destination is the node it has
 just reached chooses a link of that node

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 7ea669c..94db976 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1343,7 +1343,7 @@ class Vehicle:
         Select a next link from the current link.
         """
         if s.specified_route == None:
-            if s.dest != s.link.end_node:
+            if s.dest != s.link.end_node or s.mode == "taxi":
                 outlinks = list(s.link.end_node.outlinks.values())
 
                 if len(outlinks):
-- 
2.43.0


From e37b64db3abecdeaed7abff75313b4f719d180f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 44/78] fix: the recorded cost gap of the assignment solvers is
 that to the cheapest route

---
 uxsim/DTAsolvers/DTAsolvers.py | 6 ++++--
 uxsim/trafficpp/dta_solver.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 69924ff..84da5c5 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -218,6 +218,7 @@ class SolverDUE:
                 t_gap = 0
 
                 cost_current = r.actual_travel_time(ts[0]) + sum([l.get_toll(ts[i]) for i,l in enumerate(r)])
+                cost_own = cost_current
 
                 potential_n_swap_updated = potential_n_swap
                 for alt_route in route_set[o,d]:
@@ -225,7 +226,7 @@ class SolverDUE:
                     cost_alt = alt_route.actual_travel_time(ts[0]) + sum([l.get_toll(ts[0]+sum(alt_route_tts[:i])) for i,l in enumerate(alt_route)])
                     if cost_alt < cost_current:
                         if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
+                            t_gap = max(t_gap, cost_own - cost_alt)
                             potential_n_swap_updated = potential_n_swap + W.DELTAN
                             if flag_swap:
                                 flag_route_changed = True
@@ -582,6 +583,7 @@ class SolverDSO_D2D:
                 ext = estimate_congestion_externality_route(W, r, ts[0])
                 private_cost = r.actual_travel_time(ts[0])
                 cost_current = private_cost+ext
+                cost_own = cost_current
 
                 potential_n_swap_updated = potential_n_swap
 
@@ -592,7 +594,7 @@ class SolverDSO_D2D:
 
                     if cost_alt < cost_current:
                         if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
+                            t_gap = max(t_gap, cost_own - cost_alt)
                             potential_n_swap_updated = potential_n_swap + W.DELTAN
                             if flag_swap:
                                 flag_route_changed = True
diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index e75e598..b822d87 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -211,6 +211,7 @@ RouteSwapResult dta_route_swap_due(
             }
         }
 
+        const double cost_own = cost_current;
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
@@ -220,7 +221,7 @@ RouteSwapResult dta_route_swap_due(
             double cost_alt = dta_compute_route_cost_due(w, route_set[ri], departure_t);
             if (cost_alt < cost_current){
                 if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
+                    t_gap = std::max(t_gap, cost_own - cost_alt);
                     potential_n_swap_delta = w->delta_n;
                     if (flag_swap){
                         flag_route_changed = true;
@@ -338,6 +339,7 @@ RouteSwapResult dta_route_swap_dso(
         double departure_t = traveled.entry_times.empty() ? veh->departure_time : traveled.entry_times[0];
         double cost_current = dta_compute_route_cost_dso(w, traveled.link_ids, departure_t);
 
+        const double cost_own = cost_current;
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
@@ -347,7 +349,7 @@ RouteSwapResult dta_route_swap_dso(
             double cost_alt = dta_compute_route_cost_dso(w, route_set[ri], departure_t);
             if (cost_alt < cost_current){
                 if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
+                    t_gap = std::max(t_gap, cost_own - cost_alt);
                     potential_n_swap_delta = w->delta_n;
                     if (flag_swap){
                         flag_route_changed = true;
-- 
2.43.0


From 41404ca29fed2640945378b9da0d89c5332f05d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 45/78] fix: the C++ assignment solvers work with worlds whose
 vehicle logging is off

---
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index d7a6379..44c286f 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -48,6 +48,7 @@ def _lightweight_finalize(W, cached_analyzer=None):
     if W.TMAX is None:
         W.TMAX = W._compute_auto_tmax()
     W._ensure_cpp_world()
+    W._cpp_world.vehicle_log_mode = True # the route swap reads the traveled routes from the vehicle log
     W._cpp_world.set_t_max(float(W.TMAX))
     W._cpp_world.initialize_adj_matrix()
 
-- 
2.43.0


From b22a1f1d7774e4ff4e13ea3a1b0afe382747d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 46/78] fix: the GA solver returns the best solution of its
 last generation

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 84da5c5..5fb7984 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1043,7 +1043,7 @@ class SolverDSO_GA:
         print(f" total travel time: initial {s.ttts[0]:.1f} -> last {s.ttts[-1]:.1f}")
         print(f" computation time: {s.end_time - s.start_time:.1f} seconds")
 
-        s.W_sol = W
+        s.W_sol = W_best
         return s.W_sol
     
     def plot_convergence(s):
-- 
2.43.0


From 6fadf2bcfd1debd5e8c4fea1d223ad8d46c139d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 47/78] fix: the ALNS solver penalizes uncompleted trips
 instead of rewarding them

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 5fb7984..a74eb75 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1306,7 +1306,7 @@ class SolverDSO_ALNS:
             W = s.func_World()
             specify_routes(W, xx)
             W.exec_simulation()
-            obj_value = W.analyzer.total_travel_time - (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
+            obj_value = W.analyzer.total_travel_time + (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
             
             route_actual = {}
             cost_actual = {}
-- 
2.43.0


From 3a846dc28c2f363df57bc4971448f36dc05caf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 48/78] fix: the ALNS operator for congested links ignores
 links without vehicles

---
 uxsim/DTAsolvers/ALNS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index 692b483..619cb30 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -455,6 +455,7 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     delay_ranking_ratio = 0.05
     delay_ranking_min_n = 3
 
+    df_l = df_l[[len(W.get_link(l).vehicles_enter_log) > 0 for l in df_l["link"]]] #誰も走行していないリンクは除外
     most_delayed_links = list(df_l.sort_values(by='delay_ratio', ascending=False)[:max([int(len(df_l)*delay_ranking_ratio),delay_ranking_min_n])]["link"])
     
     k = state.rng.randint(state.k_min, min(state.k_cur, n))
-- 
2.43.0


From 26abf7ea4f859bef9fb33611b3b801196ee7e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 49/78] fix: the ALNS solver starts from the initial solution,
 or the DUO solution if none is given

---
 uxsim/DTAsolvers/DTAsolvers.py | 65 ++++++++++++++++------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index a74eb75..132b271 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1202,7 +1202,6 @@ class SolverDSO_ALNS:
             #    print(W.analyzer.basic_to_pandas())
         else:
             W = initial_solution_World
-            dict_od_to_routes = W.dict_od_to_routes
             
         if k_max == None:
             k_max = max([1, int(len(W.VEHICLES)*0.01)])
@@ -1231,48 +1230,44 @@ class SolverDSO_ALNS:
         if initial_solution_World != None and hasattr(initial_solution_World, "dict_od_to_routes"):
             print("Initial solusion is used")
             routes = initial_solution_World.dict_od_to_routes
-            xx0 = [0 for i in range(len(W.VEHICLES))]
-            n_route_found = 0
-            for i,veh in enumerate(W.VEHICLES.values()):   
-                route_id = -1
-                route_id_mintt = 0
-                route_mintt = float("inf")
-                for j,r in enumerate(routes[(veh.orig.name, veh.dest.name)]):
-                    route = W.defRoute(r)
-                    if route == veh.traveled_route()[0]:
-                        route_id = j
-                        n_route_found += 1
-                        break
-
-                    #経路が経路集合に見当たらない場合，最短経路を探す
-                    if route.actual_travel_time(veh.departure_time_in_second) < route_mintt: 
-                        route_id_mintt = j
-                
-                if route_id != -1:
-                    xx0[i] = route_id
-                else:
-                    xx0[i] = route_id_mintt #経路が経路集合に見当たらない場合，最短経路に割付
-
-            #print(f" route recovered: {n_route_found*W.DELTAN}/{len(W.VEHICLES)*W.DELTAN}")
-
-            xx_domain = []
-            for i, veh in enumerate(W.VEHICLES.values()):
-                actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
-                xx_domain.append([i for i in range(actual_n_route)])
-
+            dict_od_to_routes = routes
         else:
             print("No initial solution")
             routes = enumerate_k_random_routes(W, k=n_routes_per_od)
 
             W.dict_od_to_routes = routes
             dict_od_to_routes = routes
+
+        xx0 = [0 for i in range(len(W.VEHICLES))]
+        n_route_found = 0
+        for i,veh in enumerate(W.VEHICLES.values()):   
+            route_id = -1
+            route_id_mintt = 0
+            route_mintt = float("inf")
+            for j,r in enumerate(routes[(veh.orig.name, veh.dest.name)]):
+                route = W.defRoute(r)
+                if route == veh.traveled_route()[0]:
+                    route_id = j
+                    n_route_found += 1
+                    break
+
+                #経路が経路集合に見当たらない場合，最短経路を探す
+                tt = route.actual_travel_time(veh.departure_time_in_second)
+                if tt < route_mintt: 
+                    route_mintt = tt
+                    route_id_mintt = j
             
-            xx_domain = []
-            for i, veh in enumerate(W.VEHICLES.values()):
-                actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
-                xx_domain.append([i for i in range(actual_n_route)])
+            if route_id != -1:
+                xx0[i] = route_id
+            else:
+                xx0[i] = route_id_mintt #経路が経路集合に見当たらない場合，最短経路に割付
 
-            xx0 = [random.randint(0, len(xx_domain[i])) for i in range(len(W.VEHICLES))]
+        #print(f" route recovered: {n_route_found*W.DELTAN}/{len(W.VEHICLES)*W.DELTAN}")
+
+        xx_domain = []
+        for i, veh in enumerate(W.VEHICLES.values()):
+            actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
+            xx_domain.append([i for i in range(actual_n_route)])
 
 
         ##############################################################
-- 
2.43.0


From 9aea88890c7cdb071f86218e60a1134ec41fb040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 50/78] fix: the present speed and vehicle numbers of a link
 are always up to date in Python mode, and reading them does not affect the
 simulation

---
 uxsim/uxsim.py | 45 +++++++++++----------------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 94db976..3c0f0b9 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -600,13 +600,6 @@ class Link:
         s.user_function = user_function
 
 
-        #リアルタイムリンク状態（外部から参照する用）
-        s._speed = -1 #リンク全体の平均速度
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1 #車両数
-        s._num_vehicles_queue = -1 #自由流速度未満の車両数
-
         #より正確な車両軌跡
         s.tss = []
         s.xss = []
@@ -660,13 +653,6 @@ class Link:
         if s.user_function is not None:
             s.user_function(s)
 
-        #リアルタイム状態リセット
-        s._speed = -1
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1
-        s._num_vehicles_queue = -1
-
     def in_out_flow_constraint(s):
         """
         Link capacity updates.
@@ -686,8 +672,9 @@ class Link:
         Compute instantaneous travel time.
         """
         if s.W.T%s.W.instantaneous_TT_timestep_interval == 0:
-            if s.speed > 0:
-                s.traveltime_instant.append(s.length/s.speed)
+            speed = s.speed
+            if speed > 0:
+                s.traveltime_instant.append(s.length/speed)
             else:
                 s.traveltime_instant.append(s.length/(s.u/100))
         else:
@@ -902,39 +889,29 @@ class Link:
                 return s.route_choice_penalty
         return 0
 
+    #リアルタイムリンク状態（外部から参照する用）
     #getter/setter
     @property
     def speed(s):
-        if s._speed == -1:
-            if len(s.vehicles):
-                s._speed = np.average([veh.v for veh in s.vehicles])
-            else:
-                s._speed = s.u
-        return s._speed
+        if len(s.vehicles):
+            return np.average([veh.v for veh in s.vehicles])
+        return s.u
 
     @property
     def density(s):
-        if s._density == -1:
-            s._density = s.num_vehicles/s.length
-        return s._density
+        return s.num_vehicles/s.length
 
     @property
     def flow(s):
-        if s._flow == -1:
-            s._flow = s.density*s.speed
-        return s._flow
+        return s.density*s.speed
 
     @property
     def num_vehicles(s):
-        if s._num_vehicles == -1:
-            s._num_vehicles = len(s.vehicles)*s.W.DELTAN
-        return s._num_vehicles
+        return len(s.vehicles)*s.W.DELTAN
 
     @property
     def num_vehicles_queue(s):
-        if s._num_vehicles_queue == -1:
-            s._num_vehicles_queue = sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
-        return s._num_vehicles_queue
+        return sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
 
     #Disabled temporally to avoid cirtical bugs related to scenario writer/reader. Instead, change_*() are added
     # @property
-- 
2.43.0


From 941690d314c6b2ac5b7b0259926ab3d84c4e5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 51/78] fix: the latest coordinates of a vehicle that is not on
 a link

---
 uxsim/uxsim.py             | 2 +-
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 3c0f0b9..29d5c38 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1490,7 +1490,7 @@ class Vehicle:
         else:
             link = s.link
             xx = s.x
-        if link == -1:
+        if link == -1 or link is None:
             return (-1, -1)
         link = s.W.get_link(link)
         x0 = link.start_node.x
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index eb4a4c9..6d316ca 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -734,7 +734,7 @@ class CppVehicle:
             return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
                     link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
         if self.link is None:
-            return self.orig.x, self.orig.y
+            return (-1, -1)
         ratio = self.x / self.link.length if self.link.length > 0 else 0
         return (self.link.start_node.x + ratio * (self.link.end_node.x - self.link.start_node.x),
                 self.link.start_node.y + ratio * (self.link.end_node.y - self.link.start_node.y))
-- 
2.43.0


From 8914017dc6e04ce9aa6ec8b024d4a6fce55f5cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 52/78] fix: Link.average_speed is based on the instantaneous
 travel time in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6d316ca..f91a469 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -443,7 +443,7 @@ class CppLink:
         return arr[idx]
 
     def average_speed(self, t):
-        tt = self.actual_travel_time(t)
+        tt = self.instant_travel_time(t)
         return self.length / tt if tt > 0 else self.u
 
     def average_flow(self, t):
-- 
2.43.0


From 2fcaf27515b57b73d33090947ad3c7cd24541762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 53/78] fix: Link.average_travel_time_between is the average
 over vehicles if several vehicles enter at the same time

---
 uxsim/uxsim.py             | 6 +++++-
 uxsim/uxsim_cpp_wrapper.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 29d5c38..e6fc5ce 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -759,7 +759,11 @@ class Link:
         t_list = [t for t in s.vehicles_enter_log.keys() if t0 <= t < t1]
         if len(t_list) == 0:
             return s.length/s.u
-        return np.average([s.actual_travel_time(t) for t in t_list])
+        n_list = [] #number of vehicles that entered at each time
+        for t in t_list:
+            i = round(t/s.W.DELTAT)
+            n_list.append(s.cum_arrival[i] - (s.cum_arrival[i-1] if i > 0 else 0))
+        return np.average([s.actual_travel_time(t) for t in t_list], weights=n_list)
     
     def num_vehicles_t(s, t: float) -> float:
         """
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f91a469..43536ec 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -410,7 +410,11 @@ class CppLink:
         t_list = [t for t in self.vehicles_enter_log.keys() if t0 <= t < t1]
         if len(t_list) == 0:
             return self.length / self.u
-        return np.average([self.actual_travel_time(t) for t in t_list])
+        n_list = [] #number of vehicles that entered at each time
+        for t in t_list:
+            i = round(t/self.W.DELTAT)
+            n_list.append(self.cum_arrival[i] - (self.cum_arrival[i-1] if i > 0 else 0))
+        return np.average([self.actual_travel_time(t) for t in t_list], weights=n_list)
 
     def num_vehicles_t(self, t):
         return self.arrival_count(t) - self.departure_count(t)
-- 
2.43.0


From 086cbf67e8645a1b5ffd9fbbdc491cad43db076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 54/78] fix: the vehicles that entered a link are known during
 the simulation in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 43536ec..890e414 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -261,7 +261,7 @@ class CppLink:
 
         # Containers for analyzer compatibility
         self.vehicles = deque()
-        self.vehicles_enter_log = {}
+        self._vehicles_enter_log = {}
         self._traveltime_actual = []
         self.congestion_pricing = congestion_pricing
         self._route_choice_penalty = 0
@@ -294,6 +294,12 @@ class CppLink:
         self._free_flow_tt = self.length / self.u
         self._deltat = self.W.DELTAT
 
+    @property
+    def vehicles_enter_log(self):
+        if not self.W._simulation_done:
+            self.W._refresh_vehicles_enter_log()
+        return self._vehicles_enter_log
+
     @property
     def cum_arrival(self):
         if self.W._simulation_done:
@@ -894,6 +900,7 @@ class CppWorld:
         self._cpp_veh_registered_count = 0
         self._veh_by_index = []  # CppVehicle objects in C++ vehicle index order
         self._log_caches_built = False
+        self._enter_log_timestep = 0 #timestep at which vehicles_enter_log was built
 
     def _ensure_cpp_world(self):
         if self._cpp_world_created:
@@ -1413,10 +1420,16 @@ class CppWorld:
             self._build_all_vehicle_log_caches()
         self.analyzer.basic_analysis()
 
+    def _refresh_vehicles_enter_log(self):
+        """Rebuild the enter logs if the simulation has proceeded since they were built. For queries during the simulation."""
+        if self.finalized and self._enter_log_timestep != self.T:
+            self._build_vehicles_enter_log()
+            self._enter_log_timestep = self.T
+
     def _build_vehicles_enter_log(self):
         """Reconstruct each link's vehicles_enter_log from C++ bulk data."""
         for link in self.LINKS:
-            link.vehicles_enter_log = {}
+            link._vehicles_enter_log = {}
         try:
             data = self._cpp_world.build_enter_log_data()
             link_ids = data['link_id']
@@ -1428,13 +1441,13 @@ class CppWorld:
             for i in range(len(link_ids)):
                 lid = int(link_ids[i])
                 if 0 <= lid < n_links:
-                    links_list[lid].vehicles_enter_log[float(times[i])] = vehicles_list[int(veh_indices[i])]
+                    links_list[lid]._vehicles_enter_log[float(times[i])] = vehicles_list[int(veh_indices[i])]
         except AttributeError:
             # Fallback for older C++ builds without build_enter_log_data
             for veh in self.VEHICLES.values():
                 for t, l in veh.log_t_link:
                     if isinstance(l, CppLink):
-                        l.vehicles_enter_log[t] = veh
+                        l._vehicles_enter_log[t] = veh
 
     def get_node(self, node):
         if node is None:
-- 
2.43.0


From 5e2002f9b01a91b35c7ab20f3cc7fe290fbdf029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 55/78] fix: cumulative counts and instantaneous travel time of
 a link cover only the executed timesteps in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 890e414..cd95f82 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -306,7 +306,7 @@ class CppLink:
             if not '_cached_cum_arrival' in self.__dict__:
                 self._cached_cum_arrival = self._cpp_link.get_cum_arrival_np()
             return self._cached_cum_arrival
-        return self._cpp_link.get_cum_arrival_np()
+        return self._cpp_link.get_cum_arrival_np()[:self.W._cpp_world.timestep] #only the executed timesteps
 
     @property
     def cum_departure(self):
@@ -314,7 +314,7 @@ class CppLink:
             if not '_cached_cum_departure' in self.__dict__:
                 self._cached_cum_departure = self._cpp_link.get_cum_departure_np()
             return self._cached_cum_departure
-        return self._cpp_link.get_cum_departure_np()
+        return self._cpp_link.get_cum_departure_np()[:self.W._cpp_world.timestep] #only the executed timesteps
 
     @property
     def traveltime_instant(self):
@@ -322,7 +322,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()
+        return self._cpp_link.get_traveltime_instant_np()[:self.W._cpp_world.timestep] #only the executed timesteps
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From cd416d98e4bf9661c2cbee772bb31af5d5b223ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 56/78] fix: time-indexed queries of a link at the time of a
 timestep do not return the previous timestep due to floating point error

---
 uxsim/uxsim.py             | 8 ++++----
 uxsim/uxsim_cpp_wrapper.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e6fc5ce..9daac5e 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -694,7 +694,7 @@ class Link:
         float
             The cumulative arrival vehicle count.
         """
-        tt = int(t//s.W.DELTAT)
+        tt = int(t/s.W.DELTAT+1e-6) #tolerates rounding error in t
         if tt >= len(s.cum_arrival):
             return s.cum_arrival[-1]
         if tt < 0:
@@ -715,7 +715,7 @@ class Link:
         float
             The cumulative departure vehicle count.
         """
-        tt = int(t//s.W.DELTAT)
+        tt = int(t/s.W.DELTAT+1e-6) #tolerates rounding error in t
         if tt >= len(s.cum_departure):
             return s.cum_departure[-1]
         if tt < 0:
@@ -811,7 +811,7 @@ class Link:
         float
             The instantaneous travel time.
         """
-        tt = int(t//s.W.DELTAT)
+        tt = int(t/s.W.DELTAT+1e-6) #tolerates rounding error in t
         if tt >= len(s.traveltime_instant):
             return s.traveltime_instant[-1]
         if tt < 0:
@@ -832,7 +832,7 @@ class Link:
         float
             The actual travel time.
         """
-        tt = int(t//s.W.DELTAT)
+        tt = int(t/s.W.DELTAT+1e-6) #tolerates rounding error in t
         if tt >= len(s.traveltime_actual):
             return s.traveltime_actual[-1]
         if tt < 0:
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index cd95f82..0535433 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -400,13 +400,13 @@ class CppLink:
     def arrival_count(self, t):
         if len(self.cum_arrival) == 0:
             return 0
-        idx = min(max(int(t / self.W.DELTAT), 0), len(self.cum_arrival) - 1)
+        idx = min(max(int(t / self.W.DELTAT + 1e-6), 0), len(self.cum_arrival) - 1)
         return self.cum_arrival[idx]
 
     def departure_count(self, t):
         if len(self.cum_departure) == 0:
             return 0
-        idx = min(max(int(t / self.W.DELTAT), 0), len(self.cum_departure) - 1)
+        idx = min(max(int(t / self.W.DELTAT + 1e-6), 0), len(self.cum_departure) - 1)
         return self.cum_departure[idx]
 
     def inflow_between(self, t0, t1):
@@ -433,7 +433,7 @@ class CppLink:
         n = len(arr)
         if n == 0:
             return self._free_flow_tt
-        idx = int(t / self._deltat)
+        idx = int(t / self._deltat + 1e-6)
         if idx < 0:
             idx = 0
         elif idx >= n:
@@ -445,7 +445,7 @@ class CppLink:
         n = len(arr)
         if n == 0:
             return self._free_flow_tt
-        idx = int(t / self._deltat)
+        idx = int(t / self._deltat + 1e-6)
         if idx < 0:
             idx = 0
         elif idx >= n:
-- 
2.43.0


From df1d92d08c42206208d0861b413dc581690439d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 57/78] fix: Link.average_travel_time_between works without
 vehicle logging in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 0535433..f35a2b2 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -413,13 +413,12 @@ class CppLink:
         return (self.arrival_count(t1) - self.arrival_count(t0)) / (t1 - t0) if t1 != t0 else 0
 
     def average_travel_time_between(self, t0, t1):
-        t_list = [t for t in self.vehicles_enter_log.keys() if t0 <= t < t1]
+        # The cumulative curve is available even if vehicle logging is off, in which case vehicles_enter_log is empty
+        n_enter = np.diff(self.cum_arrival, prepend=0) #number of vehicles that entered at each timestep
+        t_list = [i*self.W.DELTAT for i in np.nonzero(n_enter)[0] if t0 <= i*self.W.DELTAT < t1]
         if len(t_list) == 0:
             return self.length / self.u
-        n_list = [] #number of vehicles that entered at each time
-        for t in t_list:
-            i = round(t/self.W.DELTAT)
-            n_list.append(self.cum_arrival[i] - (self.cum_arrival[i-1] if i > 0 else 0))
+        n_list = [n_enter[round(t/self.W.DELTAT)] for t in t_list]
         return np.average([self.actual_travel_time(t) for t in t_list], weights=n_list)
 
     def num_vehicles_t(self, t):
-- 
2.43.0


From fb74dad11580d6d41ba4ecd536f1aac01e887a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 58/78] fix: a link whose inflow is prohibited does not close
 the other links between the same nodes, and is not preferred

---
 uxsim/trafficpp/traffi.cpp | 12 ++++++------
 uxsim/uxsim.py             |  9 ++++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8b1721c..fe0033a 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1298,14 +1298,14 @@ void World::update_adj_time_matrix(){
             double noise_factor = random_range_float64(1.0, 1.0 + noise, link_rngs[ln->id]);
             new_link_tt = tt * noise_factor + penalty;
         }
+        // If the inflow is prohibited, this link is excluded
+        if (ln->capacity_in == 0.0){
+            continue;
+        }
         // If there are multiple links between the same nodes, average the travel time
         double n = (double)adj_mat_link_count[i][j];
         adj_mat_time[i][j] = adj_mat_time[i][j] * n / (n + 1.0) + new_link_tt / (n + 1.0);
         adj_mat_link_count[i][j] += 1;
-        // If the inflow is prohibited, travel time is assumed to be infinite
-        if (ln->capacity_in == 0.0){
-            adj_mat_time[i][j] = std::numeric_limits<double>::infinity();
-        }
     }
 }
 
@@ -1512,7 +1512,7 @@ void World::route_choice_duo(){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
             int lid = ln->id;
-            if (route_next[i][k] == j){
+            if (route_next[i][k] == j && ln->capacity_in != 0.0){ // links whose inflow is prohibited are not used
                 route_preference[k][lid] = (1.0 - duo_update_weight_tmp) * route_preference[k][lid] + duo_update_weight_tmp;
                 reinforced = true;
             }else{
@@ -1547,7 +1547,7 @@ void World::route_choice_duo_gradual(){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
             int lid = ln->id;
-            if (route_next[i][k] == j){
+            if (route_next[i][k] == j && ln->capacity_in != 0.0){ // links whose inflow is prohibited are not used
                 route_preference[k][lid] = (1.0 - w_tmp) * route_preference[k][lid] + w_tmp;
                 reinforced = true;
             }else{
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 9daac5e..6f1edbb 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1611,12 +1611,12 @@ class RouteChoice:
                     new_link_tt = link.traveltime_instant[-1]*s.W.rng.uniform(1, 1+noise) + link.get_toll(t)
                 else:
                     new_link_tt = link.traveltime_instant[-1] + link.get_toll(t)
+                if link.capacity_in == 0: #if the inflow is prohibited, this link is excluded
+                    continue
                 n = adj_mat_link_count[i,j]
                 s.adj_mat_time[i,j] = s.adj_mat_time[i,j]*n/(n+1) + new_link_tt/(n+1) # if there are multiple links between the same nodes, average the travel time
                 # s.adj_mat_time[i,j] = new_link_tt #if there is only one link between the nodes, this line is fine, but for generality we use the above line
                 adj_mat_link_count[i,j] += 1
-                if link.capacity_in == 0: #if the inflow is prohibited, travel time is assumed to be infinite
-                    s.adj_mat_time[i,j] = np.inf
             else:
                 s.adj_mat_time[i,j] = np.inf
         
@@ -1651,10 +1651,13 @@ class RouteChoice:
         start_nodes = np.array([l.start_node.id for l in s.W.LINKS])
         end_nodes = np.array([l.end_node.id for l in s.W.LINKS])
 
+        # Links whose inflow is prohibited are not used even if there are other links between the same nodes
+        open_links = np.array([l.capacity_in != 0 for l in s.W.LINKS], dtype=bool)
+
         # Create the next_node_mask
         next_node_mask = np.zeros((num_nodes, num_links), dtype=bool)
         for k in range(num_nodes):
-            next_node_mask[k] = end_nodes == s.next[start_nodes, k]
+            next_node_mask[k] = (end_nodes == s.next[start_nodes, k]) & open_links
 
         # Update route preferences
         # In-place scaling of all elements
-- 
2.43.0


From d864e931ed9e78ac86e3d670e8ae4a0fd97da193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 59/78] fix: a congestion pricing changed during the simulation
 takes effect in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f35a2b2..5158113 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -263,7 +263,7 @@ class CppLink:
         self.vehicles = deque()
         self._vehicles_enter_log = {}
         self._traveltime_actual = []
-        self.congestion_pricing = congestion_pricing
+        self._congestion_pricing = congestion_pricing
         self._route_choice_penalty = 0
         self.tss = []
         self.xss = []
@@ -467,6 +467,22 @@ class CppLink:
         self._route_choice_penalty = value
         self._cpp_link.route_choice_penalty = float(value)
 
+    @property
+    def congestion_pricing(self):
+        return self._congestion_pricing
+    @congestion_pricing.setter
+    def congestion_pricing(self, value):
+        self._congestion_pricing = value
+        if self.W.finalized:
+            self._set_toll_timeseries()
+
+    def _set_toll_timeseries(self):
+        """Pre-compute congestion pricing tolls and pass to C++ as timeseries."""
+        tolls = []
+        if self._congestion_pricing is not None:
+            tolls = [float(self._congestion_pricing(t * self.W.DELTAT)) for t in range(self.W.TSIZE)]
+        self._cpp_link.set_toll_timeseries(tolls)
+
     def get_toll(self, t):
         return self.congestion_pricing(t) if self.congestion_pricing else self.route_choice_penalty
 
@@ -1133,11 +1149,8 @@ class CppWorld:
 
         self._setup_analyzer()
 
-        # Pre-compute congestion pricing tolls and pass to C++ as timeseries
         for link in self.LINKS:
-            if link.congestion_pricing is not None:
-                tolls = [float(link.congestion_pricing(t * self.DELTAT)) for t in range(self.TSIZE)]
-                link._cpp_link.set_toll_timeseries(tolls)
+            link._set_toll_timeseries()
 
         self.finalized = 1
 
-- 
2.43.0


From ae277c23b965627254b97760edbbfc8a172cca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 60/78] fix: a merge priority and a signal group changed during
 the simulation take effect in C++ mode

---
 uxsim/uxsim_cpp_wrapper.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 5158113..f90712f 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -173,7 +173,6 @@ class CppNode:
 
         for key in phase_info:
             key.signal_group = phase_info[key]
-            key._cpp_link.signal_group = phase_info[key]
 
     def adjust_node_capacity(self):
         """
@@ -202,7 +201,7 @@ class CppLink:
         self.number_of_lanes = int(number_of_lanes)
 
         # Signal
-        self.signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
+        signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
 
         # ID and name registration
         self.id = len(self.W.LINKS)
@@ -230,7 +229,7 @@ class CppLink:
             kappa = jam_density_per_lane * number_of_lanes
         cpp_capacity_out = capacity_out if capacity_out is not None else -1
         cpp_capacity_in = capacity_in if capacity_in is not None else -1
-        cpp_signal_group = list(self.signal_group)
+        cpp_signal_group = list(signal_group)
         try:
             _add_link(self.W._cpp_world, self.name, self.start_node.name, self.end_node.name,
                       float(free_flow_speed), float(kappa), float(length), int(self.number_of_lanes),
@@ -253,7 +252,6 @@ class CppLink:
         self.free_flow_speed = self.u
         self.jam_density = self.kappa
         self.jam_density_per_lane = jam_density_per_lane
-        self.merge_priority = cpp.merge_priority
         self.q_star = self.capacity
         self.k_star = self.capacity / self.u
         self._capacity_out_remain = cpp.capacity_out_remain
@@ -342,6 +340,20 @@ class CppLink:
     def traveltime_actual(self, value):
         self._traveltime_actual = value
 
+    @property
+    def merge_priority(self):
+        return self._cpp_link.merge_priority
+    @merge_priority.setter
+    def merge_priority(self, value):
+        self._cpp_link.merge_priority = float(value)
+
+    @property
+    def signal_group(self):
+        return list(self._cpp_link.signal_group)
+    @signal_group.setter
+    def signal_group(self, value):
+        self._cpp_link.signal_group = [value] if isinstance(value, int) else list(value)
+
     @property
     def capacity_out(self):
         return self._cpp_link.capacity_out
-- 
2.43.0


From b33b79e38d5f7e2cd027ff2179fd95f4ed672188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 61/78] fix: a signal can be overridden by one with fewer
 phases at any time in Python mode

---
 uxsim/uxsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6f1edbb..9f1f419 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -208,6 +208,9 @@ class Node:
         """
         Updates the signal timings for a traffic signal node.
         """
+        if s.signal_phase >= len(s.signal): #the signal was overridden by one with fewer phases
+            s.signal_phase = 0
+            s.signal_t = 0
         if s.signal_t > s.signal[s.signal_phase]:
             s.signal_phase += 1
             s.signal_t = 0
-- 
2.43.0


From b31cacf074607abfb06c3c02002e5835b53e4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 62/78] fix: the elapsed time of a signal with one phase in C++
 mode is the same as in Python mode

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index fe0033a..cbad509 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -196,7 +196,7 @@ void Node::generate(){
  */
 void Node::signal_update(){
     // Match Python's signal_control() exactly
-    if (signal_intervals.size() > 1){
+    if (!signal_intervals.empty()){
         if (signal_t > signal_intervals[signal_phase]){
             signal_phase++;
             signal_t = 0;
-- 
2.43.0


From 3750dab1353e81712c122e41d82ad010b94ad8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 63/78] fix: the time-space network uses the best of multiple
 links between the same nodes

---
 uxsim/Utilities/Utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index f010af9..48cf08f 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -369,7 +369,9 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
                     u = (node.name, t)
                     v = (link.end_node.name, t_arrival)
                     if G.has_node(u) and G.has_node(v):
-                        G.add_edge(u, v, weight=travel_time)
+                        #if there are multiple links between the same nodes, the best one counts
+                        if not G.has_edge(u, v) or travel_time < G[u][v]["weight"]:
+                            G.add_edge(u, v, weight=travel_time)
                     else:
                         print(u,v)
 
-- 
2.43.0


From 9e73c5c5a2517b2118bdd029e480f8c93305c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 64/78] fix: gradual route updates never give links a negative
 preference when the update interval is shorter than the time step

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index cbad509..156c5ce 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1526,7 +1526,7 @@ void World::route_choice_duo(){
 
 void World::route_choice_duo_gradual(){
     // Gradual DUO update: scaled weight applied every timestep
-    double weight0 = duo_update_weight * (delta_t / duo_update_time);
+    double weight0 = std::min(1.0, duo_update_weight * (delta_t / duo_update_time)); // weights over 1 would make the preference negative
 
     // Per-destination and thread-count independent (see route_choice_duo).
     int nnodes = (int)nodes.size();
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 9f1f419..420c152 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1636,7 +1636,7 @@ class RouteChoice:
         Vectorized by Claude 3.5 Sonnet.
         """
         if s.W.route_choice_update_gradual:
-            weight0 = s.W.DUO_UPDATE_WEIGHT * (s.W.DELTAT / s.W.DUO_UPDATE_TIME)
+            weight0 = min(s.W.DUO_UPDATE_WEIGHT * (s.W.DELTAT / s.W.DUO_UPDATE_TIME), 1)    #weights over 1 would make the preference negative
         else:
             weight0 = s.W.DUO_UPDATE_WEIGHT
 
-- 
2.43.0


From 2218fb1bd3bac8bf2caceb5aabb494aa44d6acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 65/78] fix: OSMImporter gives motorways the default lanes and
 speed of motorways

---
 uxsim/OSMImporter/OSMImporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 2a76564..53149de 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -125,7 +125,7 @@ class OSMImporter:
                     lanes = int(ed["lanes"])
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             lanes = default_number_of_lanes_mortorway
                         elif "trunk" in road_type:
                             lanes = default_number_of_lanes_trunk
@@ -147,7 +147,7 @@ class OSMImporter:
                     maxspeed = float(ed["maxspeed"])/3.6
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             maxspeed = default_maxspeed_mortorway/3.6
                         elif "trunk" in road_type:
                             maxspeed = default_maxspeed_trunk/3.6
-- 
2.43.0


From 23fddf6fd6429486425c6fb905aeead9f67dc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 66/78] fix: OSMImporter imports each of multiple edges between
 the same nodes by its own attributes

---
 uxsim/OSMImporter/OSMImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 53149de..fa9fc14 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -106,7 +106,7 @@ class OSMImporter:
         links = []
         nodes = {}
         for e in G.edges:
-            ed = G.get_edge_data(e[0], e[1])[0]
+            ed = G.edges[e]    #e includes the key, because there may be multiple edges between the same nodes
             
             if "highway" in ed:
                 road_type = ed["highway"]
-- 
2.43.0


From d7966a78c70c208db6d1e88cd271c50c393172bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 67/78] fix: OSMImporter keeps the node of a loop link when
 merging nodes

---
 uxsim/OSMImporter/OSMImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index fa9fc14..00b732b 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -223,7 +223,7 @@ class OSMImporter:
                 link_length = distance(start_pos, end_pos)
                 #print(link_length, link[0], start_node, end_node)
 
-                if link_length <= node_merge_threshold:
+                if start_node != end_node and link_length <= node_merge_threshold:    #a loop is removed without merging its node to itself
                     #縮約先に登録されていなければ登録
                     if end_node not in delete_node_map.values() and start_node not in delete_node_map.keys():
                         delete_node_map[end_node] = start_node
-- 
2.43.0


From 3de5469956fed50b3a1826df6a6c7d79e5fb31c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 68/78] fix: a map imported into a world with nodes of the same
 names is connected to its own nodes

---
 uxsim/OSMImporter/OSMImporter.py   |  5 +++--
 uxsim/OSMImporter2/OSMImporter2.py | 19 ++++++++-----------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 00b732b..0dfab06 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -353,13 +353,14 @@ class OSMImporter:
         coef_degree_to_meter: float
             The coefficient to convert lon/lat degree to meter. Default is 111000.
         """
+        added_nodes = {}    #links are connected to these nodes even if they were renamed
         for i, node in enumerate(nodes):
             nname = str(node[0])
             if nname in [n.name for n in W.NODES]:
                 nname + f"_osm{i}"
-            W.addNode(str(node[0]), x=node[1], y=node[2], auto_rename=True)
+            added_nodes[nname] = W.addNode(str(node[0]), x=node[1], y=node[2], auto_rename=True)
         for i, link in enumerate(links):
             lname = str(link[0])
             if lname in [l.name for l in W.LINKS]:
                 lname + f"_osm{i}"
-            W.addLink(lname, str(link[1]), str(link[2]), length=link[5]*coef_degree_to_meter, free_flow_speed=link[4], jam_density_per_lane=default_jam_density, number_of_lanes=link[3], auto_rename=True)
\ No newline at end of file
+            W.addLink(lname, added_nodes[str(link[1])], added_nodes[str(link[2])], length=link[5]*coef_degree_to_meter, free_flow_speed=link[4], jam_density_per_lane=default_jam_density, number_of_lanes=link[3], auto_rename=True)
\ No newline at end of file
diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 383469b..af68a46 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -216,18 +216,16 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
     for key in lanes_by_road_type:
         lanes_dict[key] = lanes_by_road_type[key]
 
-    added_node_names = []
+    added_nodes = {} #links are connected to these nodes even if they were renamed
     for i in nodes.index:
         x = nodes.at[i, "x"]
         y = nodes.at[i, "y"]
         node_id = str(nodes.at[i, "node_id"])
-        W.addNode(node_id, x, y, auto_rename=True)
-
-        added_node_names.append(node_id)
+        added_nodes[node_id] = W.addNode(node_id, x, y, auto_rename=True)
 
     for i in links.index:
-        start_node = str(links.at[i, "from_node"])
-        end_node = str(links.at[i, "to_node"])
+        start_node = added_nodes[str(links.at[i, "from_node"])]
+        end_node = added_nodes[str(links.at[i, "to_node"])]
         length = links.at[i, "length"]
 
         name = links.at[i, "name"]
@@ -317,11 +315,10 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
             W.addLink(name=name+"-reverse", start_node=end_node, end_node=start_node, length=length, free_flow_speed=maxspeed, number_of_lanes=lanes, auto_rename=True)
     
     if set_node_capacity:
-        for node in W.NODES:
-            if node.name in added_node_names:
-                max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
-                node.flow_capacity = max_lanes*0.8*2
-                node.number_of_lanes = max_lanes*2
+        for node in added_nodes.values():
+            max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
+            node.flow_capacity = max_lanes*0.8*2
+            node.number_of_lanes = max_lanes*2
 
 
 def osm_network_to_World(W, north=None, south=None, east=None, west=None, bbox=None, custom_filter='["highway"~"trunk|primary"]', 
-- 
2.43.0


From 9a574c4ac065aab3d68018c9af79b4b1426a9194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 69/78] fix: OSMImporter2 uses default values if no road of the
 map has an attribute

---
 uxsim/OSMImporter2/OSMImporter2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index af68a46..31f6311 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -223,6 +223,10 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
         node_id = str(nodes.at[i, "node_id"])
         added_nodes[node_id] = W.addNode(node_id, x, y, auto_rename=True)
 
+    for col in ["name", "highway", "maxspeed", "lanes"]:
+        if col not in links.columns: #no link has this attribute
+            links[col] = None
+
     for i in links.index:
         start_node = added_nodes[str(links.at[i, "from_node"])]
         end_node = added_nodes[str(links.at[i, "to_node"])]
-- 
2.43.0


From ee5cf13e5d26e955953081fb7b2bd019cceabba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 70/78] fix: the mean speed on which the instantaneous travel
 time is based is not less than u/100

A link whose only vehicle stopped at its end up to a rounding error of the position
(speed 1e-14 m/s) had an instantaneous travel time of 1e15 s instead of that of a standstill.
---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 156c5ce..ec8ea34 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -615,7 +615,7 @@ void Link::set_travel_time(){
             vsum += veh->v;
         }
         double avg_v = vsum / (double)vehicles.size();
-        if (avg_v > 0.0){
+        if (avg_v > vmax / 100.0){
             traveltime_instant[w->timestep] = (double)length / avg_v;
         }else{
             traveltime_instant[w->timestep] = (double)length / (vmax / 100.0);
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 420c152..b5e21a3 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -676,7 +676,7 @@ class Link:
         """
         if s.W.T%s.W.instantaneous_TT_timestep_interval == 0:
             speed = s.speed
-            if speed > 0:
+            if speed > s.u/100:
                 s.traveltime_instant.append(s.length/speed)
             else:
                 s.traveltime_instant.append(s.length/(s.u/100))
-- 
2.43.0


From 039ee0d465026b8ae50a0f292335d6638b0f8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 71/78] fix: partial runs, on_time and the length of a run do
 not lose a timestep due to floating point error

With a timestep of 0.2 s, exec_simulation(until_t=0.6) stopped at 0.4 s because 0.6/0.2 rounds to less than 3.
---
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py |  2 +-
 uxsim/trafficpp/traffi.cpp                 |  4 ++--
 uxsim/uxsim.py                             | 10 +++++-----
 uxsim/uxsim_cpp_wrapper.py                 | 13 +++++++------
 4 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index 44c286f..6df3e95 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -55,7 +55,7 @@ def _lightweight_finalize(W, cached_analyzer=None):
     # Minimal _setup_analyzer equivalent
     W.T = 0
     W.TIME = 0
-    W.TSIZE = int(W.TMAX / W.DELTAT)
+    W.TSIZE = int(W.TMAX / W.DELTAT + 1e-6)
     W.Q_AREA = defaultdict(lambda: np.zeros(int(W.TMAX / W.EULAR_DT)))
     W.K_AREA = defaultdict(lambda: np.zeros(int(W.TMAX / W.EULAR_DT)))
     for l in W.LINKS:
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index ec8ea34..7ee34e1 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1192,7 +1192,7 @@ World::World(
       route_choice_update_gradual(route_choice_update_gradual),
       no_cyclic_routing(no_cyclic_routing),
       delta_t(tau * delta_n),
-      total_timesteps((int)(t_max / (tau * delta_n))),
+      total_timesteps((int)(t_max / (tau * delta_n) + 1e-6)),
       timestep_for_route_update((int)(duo_update_time / (tau * delta_n))),
       time(0),
       node_id(0),
@@ -1237,7 +1237,7 @@ World::~World(){
 
 void World::set_t_max(double new_t_max){
     t_max = new_t_max;
-    total_timesteps = (size_t)(t_max / delta_t);
+    total_timesteps = (size_t)(t_max / delta_t + 1e-6); // tolerates rounding error
     for (auto ln : links){
         ln->arrival_curve.resize(total_timesteps, 0.0);
         ln->departure_curve.resize(total_timesteps, 0.0);
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index b5e21a3..1595940 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2348,7 +2348,7 @@ class World:
         W.T = 0 #timestep
         W.TIME = 0 #s
 
-        W.TSIZE = int(W.TMAX/W.DELTAT)
+        W.TSIZE = int(W.TMAX/W.DELTAT+1e-6) #tolerates rounding error
         W.Q_AREA = ddict(lambda: np.zeros(int(W.TMAX/W.EULAR_DT)))
         W.K_AREA = ddict(lambda: np.zeros(int(W.TMAX/W.EULAR_DT)))
         for l in W.LINKS:
@@ -2445,11 +2445,11 @@ class World:
         #determine the simulation time
         start_ts = W.T
         if until_t != None:
-            end_ts = int(until_t/W.DELTAT)
+            end_ts = math.floor(until_t/W.DELTAT+1e-6) #tolerates rounding error
         elif duration_t2 != None:
-            end_ts = start_ts + int(duration_t2/W.DELTAT)-1
+            end_ts = start_ts + math.floor(duration_t2/W.DELTAT+1e-6)-1
         elif duration_t != None:
-            end_ts = start_ts + int(duration_t/W.DELTAT)
+            end_ts = start_ts + math.floor(duration_t/W.DELTAT+1e-6)
         else:
             end_ts = W.TSIZE
         if end_ts > W.TSIZE:
@@ -2782,7 +2782,7 @@ class World:
         bool
             Returns True if the current time step is close to the specified time, False otherwise.
         """
-        if W.T == int(time/W.DELTAT):
+        if W.T == int(time/W.DELTAT+1e-6):
             return True
         else:
             return False
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f90712f..adbb905 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -9,6 +9,7 @@ This module only handles:
   - Analyzer-compatible attribute exposure
 """
 
+import math
 import random
 import time
 import string
@@ -843,7 +844,7 @@ class CppRouteChoice:
         dist = self.dist
         record = {}
         duo_interval = max(1, int(self.W.DUO_UPDATE_TIME / self.W.DELTAT))
-        tsize = getattr(self.W, 'TSIZE', int(getattr(self.W, 'TMAX', 3600) / self.W.DELTAT))
+        tsize = getattr(self.W, 'TSIZE', int(getattr(self.W, 'TMAX', 3600) / self.W.DELTAT + 1e-6))
         for ts in range(0, tsize, duo_interval):
             record[ts] = dist
         return record
@@ -1180,7 +1181,7 @@ class CppWorld:
         """
         self.T = 0
         self.TIME = 0
-        self.TSIZE = int(self.TMAX / self.DELTAT)
+        self.TSIZE = int(self.TMAX / self.DELTAT + 1e-6) # tolerates rounding error
 
         if self._skip_analyzer_setup:
             # Lightweight path for DTA intermediate iterations:
@@ -1223,11 +1224,11 @@ class CppWorld:
         # Determine the last timestep to execute (inclusive), following the same rules as Python's exec_simulation.
         start_ts = self.T
         if until_t is not None:
-            end_ts = int(until_t / self.DELTAT)
+            end_ts = math.floor(until_t / self.DELTAT + 1e-6) # tolerates rounding error
         elif duration_t2 is not None:
-            end_ts = start_ts + int(duration_t2 / self.DELTAT) - 1
+            end_ts = start_ts + math.floor(duration_t2 / self.DELTAT + 1e-6) - 1
         elif duration_t is not None:
-            end_ts = start_ts + int(duration_t / self.DELTAT)
+            end_ts = start_ts + math.floor(duration_t / self.DELTAT + 1e-6)
         else:
             end_ts = self.TSIZE
         if end_ts > self.TSIZE:
@@ -1559,7 +1560,7 @@ class CppWorld:
         print(" setup time:\t\t", f"{time.time() - self.world_start_time:.2f}", "s")
 
     def on_time(self, time_val):
-        return self.T == int(time_val / self.DELTAT)
+        return self.T == int(time_val / self.DELTAT + 1e-6)
 
     def change_print_mode(self, print_mode):
         self.print_mode = print_mode
-- 
2.43.0


From 5ba6a061395ba91e93a86cfe34a9990bbfc304a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 72/78] fix: vehicles do not depart a timestep too early due to
 floating point error

With a timestep of 0.2 s, a departure at 0.6 s was put to the timestep of 0.4 s. Demand periods likewise.
---
 uxsim/trafficpp/traffi.cpp | 4 ++--
 uxsim/uxsim.py             | 4 ++--
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 7ee34e1..ac0b92f 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1923,8 +1923,8 @@ inline void add_demand(
         vector<string> links_preferred_str = {}){
     // Iterate over integer timesteps, mirroring Python's adddemand: `for t in range(int(t_start/DELTAT), int(t_end/DELTAT))`.
     // This keeps the iteration count and the timestep-quantized departure times identical to Python even when t_start/t_end are not multiples of delta_t.
-    int ts_start = (int)(start_t / w->delta_t);
-    int ts_end = (int)(end_t / w->delta_t);
+    int ts_start = (int)(start_t / w->delta_t + 1e-6);
+    int ts_end = (int)(end_t / w->delta_t + 1e-6);
     double demand = 0.0;
     for (int ts = ts_start; ts < ts_end; ts++){
         demand += flow * w->delta_t;
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 1595940..86da289 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1039,7 +1039,7 @@ class Vehicle:
         if departure_time_is_time_step:#互換性のため，departure_timeは常にタイムステップ表記 -> TODO: 要訂正！
             s.departure_time: int = departure_time
         else:
-            s.departure_time: int = int(departure_time/s.W.DELTAT)
+            s.departure_time: int = int(departure_time/s.W.DELTAT+1e-6) #tolerates rounding error
         s.departure_time_in_second: float = s.departure_time*s.W.DELTAT  #TODO: temporal workaround
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
@@ -2053,7 +2053,7 @@ class World:
 
         f = 0
 
-        for t in range(int(t_start/W.DELTAT), int(t_end/W.DELTAT)):
+        for t in range(int(t_start/W.DELTAT+1e-6), int(t_end/W.DELTAT+1e-6)):
             f += flow*W.DELTAT
             while f >= W.DELTAN:
                 W.addVehicle(orig, dest, t, departure_time_is_time_step=1, attribute=attribute, direct_call=False)
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index adbb905..084d58a 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -991,7 +991,7 @@ class CppWorld:
         orig_name = self._resolve_node_name(orig)
         dest_name = self._resolve_node_name(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        ts = int(departure_time) if dep_is_ts else int(float(departure_time) / self.DELTAT)
+        ts = int(departure_time) if dep_is_ts else int(float(departure_time) / self.DELTAT + 1e-6)
 
         # Validate custom vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
-- 
2.43.0


From 76ce0048d68c6850c31e2a558f2eafb96b17f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 73/78] fix: the interval of route updates is not a timestep
 too short due to floating point error

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim.py             | 2 +-
 uxsim/uxsim_cpp_wrapper.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index ac0b92f..a89a11c 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1193,7 +1193,7 @@ World::World(
       no_cyclic_routing(no_cyclic_routing),
       delta_t(tau * delta_n),
       total_timesteps((int)(t_max / (tau * delta_n) + 1e-6)),
-      timestep_for_route_update((int)(duo_update_time / (tau * delta_n))),
+      timestep_for_route_update((int)(duo_update_time / (tau * delta_n) + 1e-6)),
       time(0),
       node_id(0),
       link_id(0),
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 86da289..192eb2c 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1790,7 +1790,7 @@ class World:
         W.EULAR_DT = eular_dt     #time discretization size for Eular-type data (aggregated traffic state)
 
         W.DELTAT = W.REACTION_TIME*W.DELTAN
-        W.DELTAT_ROUTE = int(W.DUO_UPDATE_TIME/W.DELTAT) #this unit is timestep
+        W.DELTAT_ROUTE = int(W.DUO_UPDATE_TIME/W.DELTAT+1e-6) #this unit is timestep
         if W.DELTAT_ROUTE == 0:
             W.DELTAT_ROUTE = 1
 
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 084d58a..14e204d 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -843,7 +843,7 @@ class CppRouteChoice:
         # Fallback: current dist for all DUO timesteps
         dist = self.dist
         record = {}
-        duo_interval = max(1, int(self.W.DUO_UPDATE_TIME / self.W.DELTAT))
+        duo_interval = max(1, int(self.W.DUO_UPDATE_TIME / self.W.DELTAT + 1e-6))
         tsize = getattr(self.W, 'TSIZE', int(getattr(self.W, 'TMAX', 3600) / self.W.DELTAT + 1e-6))
         for ts in range(0, tsize, duo_interval):
             record[ts] = dist
@@ -880,7 +880,7 @@ class CppWorld:
         self.DUO_NOISE = duo_noise
         self.EULAR_DT = eular_dt
         self.DELTAT = self.REACTION_TIME * self.DELTAN
-        self.DELTAT_ROUTE = max(1, int(self.DUO_UPDATE_TIME / self.DELTAT))
+        self.DELTAT_ROUTE = max(1, int(self.DUO_UPDATE_TIME / self.DELTAT + 1e-6))
 
         self.VEHICLES = OrderedDict()
         self.VEHICLES_LIVING = OrderedDict()
-- 
2.43.0


From b4821993e24b67659eaf1031b0ca96ffc36b7d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 74/78] fix: route utilities look up the timestep of a time
 without floating point error

---
 uxsim/Utilities/Utilities.py | 12 ++++++------
 uxsim/trafficpp/traffi.cpp   |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 48cf08f..94a729a 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -310,7 +310,7 @@ def get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, ret
         Returns a numpy array of distances between nodes whose index is node.id pair if `return_matrix` is True and `return_time` is False.
         Returns a tuple of the abode distances and the actual time of computing shortest path cost if `return_time` is True.
     """
-    timestep = min(int(t//W.DELTAT), W.TSIZE-1)
+    timestep = min(int(t/W.DELTAT+1e-6), W.TSIZE-1)
     duo_timestep = timestep//W.DELTAT_ROUTE*W.DELTAT_ROUTE
     duo_t = duo_timestep*W.DELTAT
 
@@ -363,7 +363,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
     for t in range(0, tmax, dt):
         for node in W.NODES:
             for link in node.outlinks.values():
-                travel_time = link.traveltime_actual[int(t/W.DELTAT)]
+                travel_time = link.traveltime_actual[int(t/W.DELTAT+1e-6)]
                 t_arrival = int((t + travel_time)/dt)*dt
                 if t_arrival < W.TMAX:
                     u = (node.name, t)
@@ -444,15 +444,15 @@ def estimate_congestion_externality_link(W, link, t):
         link = W.get_link(link)
 
         if hasattr(W, '_cpp_world') and W._cpp_world is not None:
-            ts = int(t/W.DELTAT)
+            ts = int(t/W.DELTAT+1e-6)
             return link._cpp_link.estimate_congestion_externality(ts)
 
-        ts = int(t/W.DELTAT)
+        ts = int(t/W.DELTAT+1e-6)
 
         #同じ待ち行列で自分より後ろで待っている車両台数の算出
         ts_end = ts
         for i in range(ts, len(link.traveltime_actual), 1):
-            if link.traveltime_actual[i] > link.length/link.free_flow_speed*1.01 and link.cum_arrival[i+int(link.traveltime_actual[i]/W.DELTAT)]-link.cum_departure[i+int(link.traveltime_actual[i]/W.DELTAT)] > 0:
+            if link.traveltime_actual[i] > link.length/link.free_flow_speed*1.01 and link.cum_arrival[i+int(link.traveltime_actual[i]/W.DELTAT+1e-6)]-link.cum_departure[i+int(link.traveltime_actual[i]/W.DELTAT+1e-6)] > 0:
             #if link.traveltime_actual[i] > link.length/link.free_flow_speed*1.01:
                 ts_end = i
             else:
@@ -464,7 +464,7 @@ def estimate_congestion_externality_link(W, link, t):
         #TODO:微妙に系統的にずれる
         #TODO:スピルオーバー時の除外
         #TODO:信号待ちの一台目のときに破綻してしまう．頑健で賢い方法あるか？信号，このリンクの容量制約，下流側リンク・ノード容量制約を全部考えられるもの
-        ts_out = int(ts+int(link.traveltime_actual[ts]/W.DELTAT))+1
+        ts_out = int(ts+int(link.traveltime_actual[ts]/W.DELTAT+1e-6))+1
         ts_out_leader = ts_out
         for i in range(ts_out, 0, -1):
             if link.cum_departure[i] < link.cum_departure[ts_out]:
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index a89a11c..77e4587 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -661,7 +661,7 @@ double Link::estimate_congestion_externality(int ts){
     int ts_end = ts;
     for (int i = ts; i < n; i++){
         double tt_i = traveltime_real[i];
-        int future_idx = i + (int)(tt_i / dt);
+        int future_idx = i + (int)(tt_i / dt + 1e-6);
         if (future_idx >= n) break;
         if (tt_i > free_flow_tt && arrival_curve[future_idx] - departure_curve[future_idx] > 0){
             ts_end = i;
@@ -677,7 +677,7 @@ double Link::estimate_congestion_externality(int ts){
     // Step 2: Find leader headway (backward scan)
     int ts_out = 0;
     if (ts >= 0 && ts < n){
-        ts_out = (int)(ts + (int)(traveltime_real[ts] / dt)) + 1;
+        ts_out = (int)(ts + (int)(traveltime_real[ts] / dt + 1e-6)) + 1;
     }
     if (ts_out >= n) ts_out = n - 1;
     int ts_out_leader = ts_out;
@@ -697,7 +697,7 @@ double World::estimate_congestion_externality_route(const vector<Link*> &route,
     double exts = 0;
     for (auto ln : route){
         ln->ensure_traveltime_real();
-        int ts = (int)(t / delta_t);
+        int ts = (int)(t / delta_t + 1e-6);
         exts += ln->estimate_congestion_externality(ts);
         // Advance t by the actual travel time on this link
         int n = (int)ln->traveltime_real.size();
-- 
2.43.0


From 9728f4ce9b3b9b7f9e58ac81fefa8dd8ec724bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 75/78] fix: demands do not lose or delay a platoon due to
 floating point error

With deltan=1 and a timestep of 1 s, a demand of 1 vehicle in 10 s generated none, as 10 times 0.1 is less than 1.
---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim.py             | 6 +++---
 uxsim/uxsim_cpp_wrapper.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 77e4587..1219a2e 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1928,7 +1928,7 @@ inline void add_demand(
     double demand = 0.0;
     for (int ts = ts_start; ts < ts_end; ts++){
         demand += flow * w->delta_t;
-        while (demand >= (double)w->delta_n){
+        while (demand >= (double)w->delta_n - 1e-6){ // tolerates rounding error
             // create new vehicle
             Vehicle *v = new Vehicle(
                 w,
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 192eb2c..d14d088 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2055,7 +2055,7 @@ class World:
 
         for t in range(int(t_start/W.DELTAT+1e-6), int(t_end/W.DELTAT+1e-6)):
             f += flow*W.DELTAT
-            while f >= W.DELTAN:
+            while f >= W.DELTAN-1e-6: #tolerates rounding error
                 W.addVehicle(orig, dest, t, departure_time_is_time_step=1, attribute=attribute, direct_call=False)
                 f -= W.DELTAN
 
@@ -2235,7 +2235,7 @@ class World:
 
         if flow >= 0 and volume == -1:
             volume = flow*(t_end-t_start)
-        size = int(volume/W.DELTAN)
+        size = int(volume/W.DELTAN+1e-6)
 
         origs_new = []
         dests_new = []
@@ -2294,7 +2294,7 @@ class World:
         
         if flow >= 0 and volume == -1:
             volume = flow*(t_end-t_start)
-        size = int(volume/W.DELTAN)
+        size = int(volume/W.DELTAN+1e-6)
 
         origs_new = []
         dests_new = []
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 14e204d..0211d05 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1098,7 +1098,7 @@ class CppWorld:
         dests = [d for d in dests if d.inlinks] or [self.get_nearest_node(x_dest, y_dest)]
         if flow >= 0 and volume == -1:
             volume = flow * (t_end - t_start)
-        size = int(volume / self.DELTAN)
+        size = int(volume / self.DELTAN + 1e-6)
         ts = np.linspace(t_start, t_end, size)
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
@@ -1117,7 +1117,7 @@ class CppWorld:
         dests = [self.get_node(d) for d in dests if self.get_node(d).inlinks]
         if flow >= 0 and volume == -1:
             volume = flow * (t_end - t_start)
-        size = int(volume / self.DELTAN)
+        size = int(volume / self.DELTAN + 1e-6)
         ts = np.linspace(t_start, t_end, size)
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
-- 
2.43.0


From c4daaa206c7a97a8b0881c76e4acb4e5e3c210c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 76/78] fix: construct_time_space_network works with timesteps
 shorter than 1 s and without floating point error

---
 uxsim/Utilities/Utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 94a729a..76bbf25 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -351,7 +351,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
         Not efficient for large networks.
     """
     if dt == None:
-        dt = int(W.DELTAT)
+        dt = max(1, int(W.DELTAT+1e-6))
     tmax = int(W.TMAX)
     coef_t_to_xy = 1/10000  #for visualization
 
@@ -364,7 +364,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
         for node in W.NODES:
             for link in node.outlinks.values():
                 travel_time = link.traveltime_actual[int(t/W.DELTAT+1e-6)]
-                t_arrival = int((t + travel_time)/dt)*dt
+                t_arrival = int((t + travel_time)/dt+1e-6)*dt
                 if t_arrival < W.TMAX:
                     u = (node.name, t)
                     v = (link.end_node.name, t_arrival)
@@ -392,7 +392,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
     if from_origin_only:
         sources = {}
         for veh in W.VEHICLES.values():
-            u = (veh.orig.name, int(veh.departure_time_in_second/dt)*dt)
+            u = (veh.orig.name, int(veh.departure_time_in_second/dt+1e-6)*dt)
             if G.has_node(u):
                 sources[u] = True
             else:
-- 
2.43.0


From c0048e53f076f909608cd6011e0e2e4b183408b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 77/78] fix: a vehicle does not advance more than one time step
 of free flow when crossing a node after the speed of its link was reduced

---
 uxsim/trafficpp/traffi.cpp | 2 +-
 uxsim/uxsim.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 1219a2e..0823c0a 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -401,7 +401,7 @@ void Node::transfer(){
         }
 
         // Move-remain processing: carry residual distance to next link
-        double x_next_mr = chosen_veh->move_remain * outlink->vmax / inlink->vmax;
+        double x_next_mr = std::min(chosen_veh->move_remain * outlink->vmax / inlink->vmax, outlink->vmax * w->delta_t); // inlink->vmax may have been reduced meanwhile
         if (chosen_veh->leader != nullptr){
             double x_cong = chosen_veh->leader->x_old - outlink->delta_per_lane * w->delta_n;
             if (x_cong < chosen_veh->x){
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index d14d088..2cfe8ff 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -382,7 +382,7 @@ class Node:
                     assert veh.leader.lane == veh.lane
 
                 #走り残し処理
-                x_next = veh.move_remain*outlink.u/inlink.u
+                x_next = min(veh.move_remain*outlink.u/inlink.u, outlink.u*s.W.DELTAT) #inlink.u may have been reduced meanwhile
                 if veh.leader != None:
                     x_cong = veh.leader.x_old - veh.link.delta_per_lane*veh.W.DELTAN
                     if x_cong < veh.x:
-- 
2.43.0


From 8d071866c6316ac86c62fe721c009c6574df3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 78/78] fix: addVehicle of the C++ engine passes trip_abort

---
 uxsim/uxsim_cpp_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 0211d05..d02f68e 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1030,6 +1030,7 @@ class CppWorld:
         self._register_new_cpp_vehicles()
 
         veh = self._veh_by_index[n_before]
+        veh._cpp_vehicle.trip_abort = int(kwargs.get('trip_abort', 1))
         if name is not None:
             # The new vehicle is the last entry, so pop+reinsert keeps VEHICLES in C++ index order.
             self.VEHICLES.pop(veh.name, None)
-- 
2.43.0


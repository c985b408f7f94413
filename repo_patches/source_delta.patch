From bac0adf2955e192231199adcaa70a80b1650ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:29 +0000
Subject: [PATCH 01/32] fix: link-queue link offers no negative supply when
 filled beyond jam density

A short link-queue link can be filled beyond its jam density within one
interval; the congested branch of the flow-density relation then returned a
negative flow, i.e. a negative supply, and the rounding loop of the junction
(MNM_Dnode_Inout::round_flow_to_vehicle) never ended.
---
 src/dlink.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index eda34d9..49ca976 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -909,6 +909,8 @@ MNM_Dlink_Lq::get_flow_from_density (TFlt density)
     {
       TFlt _w = m_lane_flow_cap / (m_lane_hold_cap - m_lane_flow_cap / m_ffs);
       _flow = (m_lane_hold_cap * TFlt (m_number_of_lane) - density) * _w;
+      // a link can be filled beyond jam density within one interval
+      _flow = std::max (_flow, TFlt (0));
       // Only for short links, change the FD shape around rhoj:
       // _flow = MNM_Ults::max(_flow,
       // 0.25*(m_lane_hold_cap*TFlt(m_number_of_lane)-m_k_c) * _w);
-- 
2.43.0


From 57b0dfa4b08d9b803a44a6873ba2736908b81ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:43 +0000
Subject: [PATCH 02/32] fix: car/truck demand and adaptive ratios use the real
 number of minutes per assignment interval

The per-minute demand (and adaptive-ratio) tables were copied with a hard-coded
15 minutes per assignment interval: shorter intervals read past the end of the
caller's table, longer ones dropped the demand and read past the end later.
---
 src/multiclass.cpp | 32 ++++++++++++++++++--------------
 src/multiclass.h   |  6 ++++--
 src/multimodal.cpp |  3 ++-
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70c4f0d..6fa30a4 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2980,18 +2980,19 @@ MNM_Origin_Multiclass::generate_label (TInt veh_class)
 
 int
 MNM_Origin_Multiclass::add_dest_demand_multiclass (
-  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck)
+  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck,
+  TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // demand is given per minute, num_of_minute minutes per assignment interval
+  double *_demand_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_car[i] = TFlt (demand_car[i]);
     }
   m_demand_car.insert ({ dest, _demand_car });
 
-  double *_demand_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_truck[i] = TFlt (demand_truck[i]);
     }
@@ -3002,18 +3003,19 @@ MNM_Origin_Multiclass::add_dest_demand_multiclass (
 
 int
 MNM_Origin_Multiclass::add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck)
+                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                                           TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  TFlt *_ratio_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // ratios are given per minute, num_of_minute minutes per assignment interval
+  TFlt *_ratio_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_car[i] = TFlt (ad_ratio_car[i]);
     }
   m_adaptive_ratio_car.insert ({ dest, _ratio_car });
 
-  TFlt *_ratio_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  TFlt *_ratio_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_truck[i] = TFlt (ad_ratio_truck[i]);
     }
@@ -3897,7 +3899,8 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
               _dest = dynamic_cast<MNM_Destination_Multiclass *> (
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
@@ -3977,7 +3980,8 @@ MNM_IO_Multiclass::build_td_adaptive_ratio (const std::string &file_folder,
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_adaptive_ratio_multiclass (_dest, 
                                                            _ratio_vector_car,
-                                                           _ratio_vector_truck);
+                                                           _ratio_vector_truck,
+                                                           _num_of_minute);
             }
           else
             {
diff --git a/src/multiclass.h b/src/multiclass.h
index a3e2bce..b83d086 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -418,9 +418,11 @@ public:
 
   // use this one instead of add_dest_demand in the base class
   int add_dest_demand_multiclass (MNM_Destination_Multiclass *dest,
-                                  TFlt *demand_car, TFlt *demand_truck);
+                                  TFlt *demand_car, TFlt *demand_truck,
+                                  TInt num_of_minute);
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck);
+                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                          TInt num_of_minute);
   // two new unordered_map for both classes
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 430bb80..00de1f5 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -8617,7 +8617,8 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
-- 
2.43.0


From eba22dde7232d6e93d7ee6adfa7ad9b44a5228cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:17 +0000
Subject: [PATCH 03/32] fix: an O-D specific adaptive ratio no longer leaks to
 other O-D pairs

release_one_interval(_biclass) overwrote its adaptive_ratio parameter with the
time-dependent ratio of one destination, so destinations (or, in the
single-ratio multiclass version, trucks) without an entry of their own that
were released afterwards used that ratio instead of the configured one.
---
 src/multiclass.cpp | 36 ++++++++++++++++++++----------------
 src/od.cpp         |  9 +++++----
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 6fa30a4..544e4b3 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3083,19 +3083,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3104,7 +3105,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3132,19 +3133,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3153,7 +3155,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3198,19 +3200,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3219,7 +3222,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3247,19 +3250,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3268,7 +3272,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/od.cpp b/src/od.cpp
index 9490b0e..d89bf8d 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -137,18 +137,19 @@ MNM_Origin::release_one_interval (TInt current_interval,
        _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _ratio = adaptive_ratio;
       if (m_adaptive_ratio.find(_demand_it->first) != m_adaptive_ratio.end()) {
-        adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
+        _ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_ratio == TFlt (0))
             {
               _veh = veh_factory->make_veh (current_interval, MNM_TYPE_STATIC);
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_ratio == TFlt (1))
             {
               _veh
                 = veh_factory->make_veh (current_interval, MNM_TYPE_ADAPTIVE);
@@ -156,7 +157,7 @@ MNM_Origin::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _ratio)
                 {
                   _veh = veh_factory->make_veh (current_interval,
                                                 MNM_TYPE_ADAPTIVE);
-- 
2.43.0


From 0b3d4ea1b0284d2b76e03cdd10e6a8321fb124fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:06 +0000
Subject: [PATCH 04/32] fix: cars keep their own path portions after the last
 routing interval of car/truck loading

---
 src/routing.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/routing.cpp b/src/routing.cpp
index 1188a25..04d862f 100644
--- a/src/routing.cpp
+++ b/src/routing.cpp
@@ -826,8 +826,11 @@ MNM_Routing_Biclass_Fixed::update_routing (TInt timestamp)
     {
       // if (timestamp % m_routing_freq  == 0 || timestamp == 0) {
       // printf("11\n");
-      _cur_ass_int = TInt (timestamp / m_routing_freq);
-      if (_cur_ass_int < TInt (m_buffer_length / 2))
+      // beyond the last routing interval its portions stay in force; they have
+      // to be set again because the two classes share one path table
+      _cur_ass_int = std::min (TInt (timestamp / m_routing_freq),
+                               TInt (m_buffer_length / 2) - 1);
+      if (_cur_ass_int >= 0)
         { // first half for car, last half for truck
           // printf("Changing biclass fixed\n");
           change_choice_portion (_cur_ass_int);
-- 
2.43.0


From 6ce8900f81d85d61caeab5c26cf66db395d8fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:01 +0000
Subject: [PATCH 05/32] fix: car/truck link-queue link sends no more than its
 capacity when filled beyond jam density

---
 src/multiclass.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 544e4b3..f711458 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1518,8 +1518,28 @@ MNM_Dlink_Lq_Multiclass::update_perceived_density ()
           _space_fraction_truck
             = (_density_car * _density_truck * (m_w_truck - m_w_car) + _tmp_1)
               / (_tmp_2 + _tmp_1);
-          m_perceived_density_car = _density_car / _space_fraction_car;
-          m_perceived_density_truck = _density_truck / _space_fraction_truck;
+          // above jam density the solution may leave [0, 1], but no class can
+          // use more than the whole link
+          if (_space_fraction_car >= 1)
+            {
+              _space_fraction_car = 1;
+              _space_fraction_truck = 0;
+              m_perceived_density_car = _density_car;
+              m_perceived_density_truck = m_k_j_truck;
+            }
+          else if (_space_fraction_truck >= 1)
+            {
+              _space_fraction_car = 0;
+              _space_fraction_truck = 1;
+              m_perceived_density_car = m_k_j_car;
+              m_perceived_density_truck = _density_truck;
+            }
+          else
+            {
+              m_perceived_density_car = _density_car / _space_fraction_car;
+              m_perceived_density_truck
+                = _density_truck / _space_fraction_truck;
+            }
         }
       m_space_fraction_car = _space_fraction_car;
       m_space_fraction_truck = _space_fraction_truck;
-- 
2.43.0


From 8c016076fab45de7d6d4efebbd1240d87fbdfe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 06/32] fix: car/truck cell sends no more than its capacity
 when filled beyond jam density

---
 src/multiclass.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index f711458..5f8150e 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1292,8 +1292,28 @@ MNM_Dlink_Ctm_Multiclass::Ctm_Cell_Multiclass::update_perceived_density ()
                                      * (m_wave_speed_truck - m_wave_speed_car)
                                    + _tmp_1)
                                   / (_tmp_2 + _tmp_1);
-          m_perceived_density_car = _density_car / _space_fraction_car;
-          m_perceived_density_truck = _density_truck / _space_fraction_truck;
+          // above jam density the solution may leave [0, 1], but no class can
+          // use more than the whole cell
+          if (_space_fraction_car >= 1)
+            {
+              _space_fraction_car = 1;
+              _space_fraction_truck = 0;
+              m_perceived_density_car = _density_car;
+              m_perceived_density_truck = m_hold_cap_truck;
+            }
+          else if (_space_fraction_truck >= 1)
+            {
+              _space_fraction_car = 0;
+              _space_fraction_truck = 1;
+              m_perceived_density_car = m_hold_cap_car;
+              m_perceived_density_truck = _density_truck;
+            }
+          else
+            {
+              m_perceived_density_car = _density_car / _space_fraction_car;
+              m_perceived_density_truck
+                = _density_truck / _space_fraction_truck;
+            }
         }
       m_space_fraction_car = _space_fraction_car;
       m_space_fraction_truck = _space_fraction_truck;
-- 
2.43.0


From 49a8ed6f0a3041eafc167d8959b4b34d560169d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 07/32] fix: Dijkstra must reset stale next links of nodes that
 cannot reach the destination

---
 src/shortest_path.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 80979b2..f9d9d53 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -41,9 +41,8 @@ MNM_Shortest_Path::all_to_one_Dijkstra (
         {
           dist_to_dest.insert (
             { _node_id, TFlt (std::numeric_limits<double>::infinity ()) });
-          output_map.insert (
-            { _node_id, -1 }); // If the destination is not accessible the
-                               // output remains -1
+          output_map[_node_id] = -1; // If the destination is not accessible
+                                     // the output remains -1
         }
     }
   dist_to_dest[dest_node_ID] = TFlt (0);
-- 
2.43.0


From 817ae3ae359bd1a3d3489528b6edaa88e59d80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:11 +0000
Subject: [PATCH 08/32] fix: LIFO shortest path must only relax the links into
 the current node

---
 src/shortest_path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index f9d9d53..2748bd8 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -493,8 +493,9 @@ MNM_Shortest_Path::all_to_one_LIFO (
       _tmp_ID = m_Q.front ();
       m_Q.pop_front ();
       m_Q_support.find (_tmp_ID)->second = false;
+      const auto &node = graph.get_node (_tmp_ID);
       _tmp_dist = _dist.find (_tmp_ID)->second;
-      for (const auto &link : graph.links ())
+      for (const auto &link : graph.connections (node, Direction::Incoming))
         {
           _in_node_ID = graph.get_id (graph.get_endpoints (link).first);
           _in_link_ID = graph.get_id (link);
-- 
2.43.0


From 398ee04557629440721d9af61659f21897fcd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:35 +0000
Subject: [PATCH 09/32] fix: iterating over neighbors must not skip all but the
 first neighbor

---
 src/graph.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graph.h b/src/graph.h
index eb71e2f..8bbfac2 100644
--- a/src/graph.h
+++ b/src/graph.h
@@ -250,6 +250,11 @@ public:
         // Invariant: before stepping to the next neighbor, the current one
         // should have never been seen.
         assert (!(cur && seen.count (cur->endpoints[direction])));
+        if (cur)
+          {
+            seen.insert (cur->endpoints[direction]);
+            cur = cur->next[direction];
+          }
         while (cur || refill)
           {
             if (!cur)
@@ -260,10 +265,6 @@ public:
                   = invert (this->direction);
                 direction = static_cast<int> (this->direction);
               }
-            else
-              {
-                seen.insert (cur->endpoints[direction]);
-              }
 
             if (!seen.count (cur->endpoints[direction]))
               break;
-- 
2.43.0


From bec03e7d0dfc8c22604cdbf0511c87e052ca60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 10/32] fix: cumulative curves tell apart intervals and
 vehicles beyond the 10000th

The default relative tolerance of 1e-4 merged records of neighbouring
intervals after interval 10000 and counts that differ by one vehicle
after 10000 vehicles.
---
 src/dlink.cpp             | 21 ++++++++++++++-------
 src/dta_gradient_utls.cpp | 10 ++++++----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 49ca976..cbf5b02 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -946,6 +946,10 @@ MNM_Dlink_Lq::get_link_freeflow_tt_loading ()
                           Cumulative curve
 **************************************************************************/
 
+// relative tolerance for times and counts of cumulative curves: far above the
+// accumulated rounding error, far below one interval or one vehicle
+static const TFlt CC_TOL = 1e-8;
+
 MNM_Cumulative_Curve::MNM_Cumulative_Curve ()
 {
   // the implementation of CC here actually means at the beginning of interval
@@ -1030,12 +1034,12 @@ MNM_Cumulative_Curve::add_increment (std::pair<TFlt, TFlt> r)
   // std::pair <TFlt, TFlt> _best = *std::max_element(m_recorder.begin(),
   // m_recorder.end(), pair_compare);
   std::pair<TFlt, TFlt> _best = m_recorder[m_recorder.size () - 1];
-  if (MNM_Ults::approximate_less_than (r.first, _best.first))
+  if (MNM_Ults::approximate_less_than (r.first, _best.first, CC_TOL))
     {
       throw std::runtime_error (
         "Error, MNM_Cumulative_Curve::add_increment, early time index");
     }
-  if (MNM_Ults::approximate_equal (r.first, _best.first))
+  if (MNM_Ults::approximate_equal (r.first, _best.first, CC_TOL))
     {
       // printf("Incrementing\n");
       m_recorder[m_recorder.size () - 1].second += r.second;
@@ -1103,13 +1107,14 @@ MNM_Cumulative_Curve::get_result (TFlt time)
   auto _lower_j
     = std::lower_bound (m_recorder.begin (), m_recorder.end (), time,
                         [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                          return MNM_Ults::approximate_less_than (r.first, v);
+                          return MNM_Ults::approximate_less_than (r.first, v,
+                                                                  CC_TOL);
                         });
   j = std::distance (m_recorder.begin (), _lower_j);
   IAssert (j >= 1);
   if (_lower_j != m_recorder.end ())
     {
-      if (MNM_Ults::approximate_equal (m_recorder[j].first, time))
+      if (MNM_Ults::approximate_equal (m_recorder[j].first, time, CC_TOL))
         {
           // printf("index j-1 %d, time %f, flow %f\n", j-1,
           // m_recorder[j-1].first(), m_recorder[j-1].second()); printf("index j
@@ -1230,7 +1235,8 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
   auto _lower_j
     = std::lower_bound (m_recorder.begin (), m_recorder.end (), result,
                         [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                          return MNM_Ults::approximate_less_than (r.second, v);
+                          return MNM_Ults::approximate_less_than (r.second, v,
+                                                                  CC_TOL);
                         });
   j = std::distance (m_recorder.begin (), _lower_j);
   IAssert (j >= 1);
@@ -1240,7 +1246,7 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
     }
   if (_lower_j != m_recorder.end ())
     {
-      if (MNM_Ults::approximate_equal (m_recorder[j].second, result))
+      if (MNM_Ults::approximate_equal (m_recorder[j].second, result, CC_TOL))
         {
           // printf("index j-1 %d, time %f, flow %f\n", j-1,
           // m_recorder[j-1].first(), m_recorder[j-1].second()); printf("index j
@@ -1257,7 +1263,8 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
             lower_bound (m_recorder.begin (), _lower_j,
                          m_recorder[j - 1].second,
                          [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                           return MNM_Ults::approximate_less_than (r.second, v);
+                           return MNM_Ults::approximate_less_than (r.second, v,
+                                                                   CC_TOL);
                          });
           i = std::distance (m_recorder.begin (), _lower_i);
           IAssert (i < j);
diff --git a/src/dta_gradient_utls.cpp b/src/dta_gradient_utls.cpp
index d690ee3..680797d 100644
--- a/src/dta_gradient_utls.cpp
+++ b/src/dta_gradient_utls.cpp
@@ -58,9 +58,9 @@ get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
                      TInt end_loading_timestamp, const std::string &s)
 {
   if (MNM_Ults::approximate_less_than (N_in->m_recorder.back ().second,
-                                       N_out->m_recorder.back ().second)
+                                       N_out->m_recorder.back ().second, 1e-8)
       && !MNM_Ults::approximate_equal (N_in->m_recorder.back ().second,
-                                       N_out->m_recorder.back ().second))
+                                       N_out->m_recorder.back ().second, 1e-8))
     {
       printf ("max in cc flow: %lf, max out cc flow: %lf\n",
               N_in->m_recorder.back ().second,
@@ -75,7 +75,8 @@ get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
   TFlt _cc_flow = N_out->m_recorder.back ().second;
 
   // link is empty after end_loading_timestamp
-  if (MNM_Ults::approximate_equal (_cc_flow, N_in->m_recorder.back ().second))
+  if (MNM_Ults::approximate_equal (_cc_flow, N_in->m_recorder.back ().second,
+                                   1e-8))
     {
       return TFlt (end_loading_timestamp);
     }
@@ -93,7 +94,8 @@ get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
         {
           if (MNM_Ults::approximate_less_than (_cc_flow,
                                                N_in->get_result (
-                                                 TFlt (_last_valid_time + i))))
+                                                 TFlt (_last_valid_time + i)),
+                                               1e-8))
             {
               return TFlt (_last_valid_time + i - 1);
             }
-- 
2.43.0


From 00031ac3b918d2195ec1a320cf56a8bbf936ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 11/32] fix: time of a count that is never reached must not
 read past the cumulative curve

---
 src/dlink.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index cbf5b02..e504886 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1240,12 +1240,12 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
                         });
   j = std::distance (m_recorder.begin (), _lower_j);
   IAssert (j >= 1);
-  if (rounding_up)
-    {
-      return m_recorder[j].first;
-    }
   if (_lower_j != m_recorder.end ())
     {
+      if (rounding_up)
+        {
+          return m_recorder[j].first;
+        }
       if (MNM_Ults::approximate_equal (m_recorder[j].second, result, CC_TOL))
         {
           // printf("index j-1 %d, time %f, flow %f\n", j-1,
-- 
2.43.0


From c402a49d4d2c0c88c4ca805cf251a05b72e1f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 12/32] fix: free-flow time of link-queue links in loading is a
 number of intervals

---
 src/dlink.cpp      | 2 +-
 src/multiclass.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index e504886..247b513 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -939,7 +939,7 @@ MNM_Dlink_Lq::get_link_freeflow_tt_loading ()
 {
   // throw std::runtime_error("Error, MNM_Dlink_Lq::get_link_freeflow_tt_loading
   // NOT implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs);
+  return MNM_Ults::round_up_time (m_length / (m_ffs * m_unit_time));
 }
 
 /**************************************************************************
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 5f8150e..744af89 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2001,7 +2001,8 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_car);
+  return MNM_Ults::round_up_time (m_length
+                                  / (m_ffs_car * m_unit_time));
 }
 
 TInt
@@ -2010,7 +2011,8 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_truck);
+  return MNM_Ults::round_up_time (m_length
+                                  / (m_ffs_truck * m_unit_time));
 }
 
 /// Multiclass point queue model
-- 
2.43.0


From b15fcb65effe825b25c1e68f598bf1a699d601f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:04 +0000
Subject: [PATCH 13/32] fix: release order must not depend on destination
 addresses

The demand of an origin is kept in a map keyed by destination pointers and is
iterated on release, so the order in which vehicles are created (and draw random
numbers) depended on where the destinations happened to be allocated: runs with
the same seed differed. Hash the destinations by their IDs.
---
 src/multiclass.cpp  |  8 ++++----
 src/multiclass.h    |  8 ++++----
 src/multimodal.cpp  |  6 +++---
 src/multimodal.h    |  6 +++---
 src/od.cpp          |  8 ++++----
 src/od.h            | 18 ++++++++++++++++--
 src/pre_routing.cpp |  2 +-
 7 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 744af89..5e71229 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2921,10 +2921,10 @@ MNM_Origin_Multiclass::MNM_Origin_Multiclass (TInt ID, TInt max_interval,
                                               TFlt flow_scalar, TInt frequency)
     : MNM_Origin::MNM_Origin (ID, max_interval, flow_scalar, frequency)
 {
-  m_demand_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_demand_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_adaptive_ratio_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_adaptive_ratio_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
+  m_demand_car = MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> ();
+  m_demand_truck = MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> ();
+  m_adaptive_ratio_car = MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> ();
+  m_adaptive_ratio_truck = MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> ();
   m_car_label_ratio = std::vector<TFlt> ();
   m_truck_label_ratio = std::vector<TFlt> ();
 }
diff --git a/src/multiclass.h b/src/multiclass.h
index b83d086..7818c79 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -424,10 +424,10 @@ public:
                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
                                           TInt num_of_minute);
   // two new unordered_map for both classes
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_truck;
+  MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> m_demand_car;
+  MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> m_demand_truck;
+  MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> m_adaptive_ratio_car;
+  MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> m_adaptive_ratio_truck;
 
   std::vector<TFlt> m_car_label_ratio;
   std::vector<TFlt> m_truck_label_ratio;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 00de1f5..86319a5 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2506,12 +2506,12 @@ MNM_Origin_Multimodal::MNM_Origin_Multimodal (TInt ID, TInt max_interval,
     : MNM_Origin_Multiclass::MNM_Origin_Multiclass (ID, max_interval,
                                                     flow_scalar, frequency)
 {
-  m_demand_bus = std::unordered_map<MNM_Destination_Multimodal *,
+  m_demand_bus = MNM_Destination_Map<MNM_Destination_Multimodal,
                                     std::unordered_map<TInt, TFlt *>> ();
   m_demand_pnr_car
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
+    = MNM_Destination_Map<MNM_Destination_Multimodal, TFlt *> ();
   m_demand_passenger_bus
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
+    = MNM_Destination_Map<MNM_Destination_Multimodal, TFlt *> ();
   m_walking_out_links_vec = std::vector<MNM_Walking_Link *> ();
   m_in_passenger_queue = std::deque<MNM_Passenger *> ();
   m_pickup_waiting_time = pickup_waiting_time;
diff --git a/src/multimodal.h b/src/multimodal.h
index a9e51b3..afe7086 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -430,13 +430,13 @@ public:
                                      TFlt *demand_passenger_bus);
 
   // <Destination node, <routeID, time-varying demand>>
-  std::unordered_map<MNM_Destination_Multimodal *,
+  MNM_Destination_Map<MNM_Destination_Multimodal,
                      std::unordered_map<TInt, TFlt *>>
     m_demand_bus;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *> m_demand_pnr_car;
+  MNM_Destination_Map<MNM_Destination_Multimodal, TFlt *> m_demand_pnr_car;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *>
+  MNM_Destination_Map<MNM_Destination_Multimodal, TFlt *>
     m_demand_passenger_bus;
 
   std::deque<MNM_Passenger *> m_in_passenger_queue;
diff --git a/src/od.cpp b/src/od.cpp
index d89bf8d..8a7eeb8 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -14,11 +14,11 @@ MNM_Origin::MNM_Origin (TInt ID, TInt max_interval, TFlt flow_scalar,
     }
   m_frequency = frequency;
   m_demand
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying demand
+    = MNM_Destination_Map<MNM_Destination,
+                          TFlt *> (); // destination node, time-varying demand
   m_adaptive_ratio
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying adaptive ratio
+    = MNM_Destination_Map<MNM_Destination,
+                          TFlt *> (); // destination node, time-varying adaptive ratio
 
   m_vehicle_label_ratio = std::vector<TFlt> ();
 }
diff --git a/src/od.h b/src/od.h
index db1ef5d..6fc287b 100644
--- a/src/od.h
+++ b/src/od.h
@@ -15,6 +15,20 @@ class MNM_DMOND;
 class MNM_DMDND;
 class MNM_Routing;
 
+// Maps keyed by destinations are iterated when vehicles are released. Hash the
+// destination ID rather than the address, so that the order (and hence the
+// result for a given random state) does not depend on memory layout.
+struct MNM_Destination_Hash
+{
+  template <typename D> std::size_t operator() (const D *dest) const
+  {
+    return std::hash<int> () (int (dest->m_Dest_ID));
+  }
+};
+
+template <typename D, typename T>
+using MNM_Destination_Map = std::unordered_map<D *, T, MNM_Destination_Hash>;
+
 class MNM_Origin
 {
 public:
@@ -46,8 +60,8 @@ public:
   TInt m_current_assign_interval;
   TInt m_max_assign_interval;
   TFlt m_flow_scalar;
-  std::unordered_map<MNM_Destination *, TFlt *> m_demand;
-  std::unordered_map<MNM_Destination *, TFlt *> m_adaptive_ratio;
+  MNM_Destination_Map<MNM_Destination, TFlt *> m_demand;
+  MNM_Destination_Map<MNM_Destination, TFlt *> m_adaptive_ratio;
 
   std::vector<TFlt> m_vehicle_label_ratio;
 };
diff --git a/src/pre_routing.cpp b/src/pre_routing.cpp
index 47d6e0d..913749d 100644
--- a/src/pre_routing.cpp
+++ b/src/pre_routing.cpp
@@ -33,7 +33,7 @@ MNM_Pre_Routing::MNM_Pre_Routing (Path_Table *path_table,
           _origin_node_ID = _o_it->second->m_origin_node->m_node_ID;
           //-----
           int size_demand = _o_it->second->m_max_assign_interval;
-          std::unordered_map<MNM_Destination *, TFlt *>::const_iterator
+          MNM_Destination_Map<MNM_Destination, TFlt *>::const_iterator
             demand_it
             = _o_it->second->m_demand.find (_d_it->second);
           if (demand_it != _o_it->second->m_demand.end ())
-- 
2.43.0


From 75e8abaff79ff2e338226347702114121330afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:15 +0000
Subject: [PATCH 14/32] fix: silence() must not swallow exceptions when there
 is nothing to silence

A return in the finally clause discarded whatever the body raised.
---
 macposts/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/macposts/utils.py b/macposts/utils.py
index f966690..4b2b063 100644
--- a/macposts/utils.py
+++ b/macposts/utils.py
@@ -28,10 +28,8 @@ def silence(fd=STDOUT_FD):
     try:
         os.fstat(fd)
     except Exception:
-        try:
-            yield
-        finally:
-            return
+        yield
+        return
 
     save = os.dup(fd)
     null = os.open(os.devnull, os.O_RDWR)
-- 
2.43.0


From 7344592518de896de69aafe8ee3c1cf1e81aaf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:15 +0000
Subject: [PATCH 15/32] fix: cumulative curves accept any iterable of links, or
 a single link

As documented; len() on a number or a generator raised a TypeError.
---
 macposts/dta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macposts/dta.py b/macposts/dta.py
index 7e5d56c..96b0d70 100644
--- a/macposts/dta.py
+++ b/macposts/dta.py
@@ -41,6 +41,10 @@ class _CommonMixin:
     def _get_ccs(self, link_func, links):
         if links is None:
             links = self.registered_links
+        try:
+            links = list(links)
+        except TypeError:  # not iterable
+            links = [links]
         ccs = np.empty((self.get_cur_loading_interval() + 1, len(links)))
         ccs[:] = np.nan
         for col, link in enumerate(links):
-- 
2.43.0


From 1b85993349e8b0832d3c90664c6273c106082850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:08 +0000
Subject: [PATCH 16/32] fix: array arguments of the Python interface must be C
 contiguous

They are read through raw pointers; slices, reversed views and Fortran ordered
arrays (such as the values of a data frame) were read as other numbers, or out
of bounds.
---
 macposts/_ext/dta.cpp   |  72 ++++----
 macposts/_ext/mcdta.cpp | 198 ++++++++++-----------
 macposts/_ext/mmdta.cpp | 384 ++++++++++++++++++++--------------------
 macposts/_ext/tdsp.cpp  |  25 +--
 macposts/_ext/utils.h   |   8 +
 5 files changed, 348 insertions(+), 339 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 03d9f20..5857ae1 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -54,11 +54,11 @@ public:
   // FIXME: This returns a Numpy array for consistency, but it should really be
   // better to use a plain list.
   py::array_t<int> get_all_links ();
-  int register_links (py::array_t<int> links);
+  int register_links (carray_t<int> links);
   // FIXME: This returns a Numpy array for consistency, but it should really be
   // better to use a plain list.
   py::array_t<int> get_registered_links ();
-  int register_paths (py::array_t<int> paths);
+  int register_paths (carray_t<int> paths);
   std::vector<bool> check_registered_links_in_registered_paths ();
   py::array_t<bool> are_registered_links_in_registered_paths ();
   py::array_t<int> generate_paths_to_cover_registered_links ();
@@ -66,32 +66,32 @@ public:
   int get_cur_loading_interval ();
   int build_link_cost_map (bool with_congestion_indicator = false);
   int get_link_queue_dissipated_time ();
-  py::array_t<double> get_link_inflow (py::array_t<int> start_intervals,
-                                       py::array_t<int> end_intervals);
-  py::array_t<double> get_link_tt_FD (py::array_t<int> start_intervals);
-  py::array_t<double> get_link_tt (py::array_t<int> start_intervals,
+  py::array_t<double> get_link_inflow (carray_t<int> start_intervals,
+                                       carray_t<int> end_intervals);
+  py::array_t<double> get_link_tt_FD (carray_t<int> start_intervals);
+  py::array_t<double> get_link_tt (carray_t<int> start_intervals,
                                    bool return_inf = false);
-  py::array_t<double> get_link_tt_robust (py::array_t<double> start_intervals,
-                                          py::array_t<double> end_intervals,
+  py::array_t<double> get_link_tt_robust (carray_t<double> start_intervals,
+                                          carray_t<double> end_intervals,
                                           int num_trials = 180,
                                           bool return_inf = false);
 
   // assume build_link_cost_map() is invoked before
-  py::array_t<double> get_path_tt (py::array_t<int> link_IDs,
-                                   py::array_t<int> start_intervals);
-  py::array_t<double> get_registered_path_tt (py::array_t<int> start_intervals);
+  py::array_t<double> get_path_tt (carray_t<int> link_IDs,
+                                   carray_t<int> start_intervals);
+  py::array_t<double> get_registered_path_tt (carray_t<int> start_intervals);
 
   py::array_t<double> get_link_in_cc (int link_ID);
   py::array_t<double> get_link_out_cc (int link_ID);
-  py::array_t<double> get_dar_matrix (py::array_t<int> link_start_intervals,
-                                      py::array_t<int> link_end_intervals);
-  int save_dar_matrix (py::array_t<int> link_start_intervals,
-                       py::array_t<int> link_end_intervals,
-                       py::array_t<double> f, const std::string &file_name);
-  SparseMatrixR get_complete_dar_matrix (py::array_t<int> start_intervals,
-                                         py::array_t<int> end_intervals,
+  py::array_t<double> get_dar_matrix (carray_t<int> link_start_intervals,
+                                      carray_t<int> link_end_intervals);
+  int save_dar_matrix (carray_t<int> link_start_intervals,
+                       carray_t<int> link_end_intervals,
+                       carray_t<double> f, const std::string &file_name);
+  SparseMatrixR get_complete_dar_matrix (carray_t<int> start_intervals,
+                                         carray_t<int> end_intervals,
                                          int num_intervals,
-                                         py::array_t<double> f);
+                                         carray_t<double> f);
 
   int delete_all_agents ();
 
@@ -1211,7 +1211,7 @@ Dta::get_link_queue_dissipated_time ()
 }
 
 int
-Dta::register_links (py::array_t<int> links)
+Dta::register_links (carray_t<int> links)
 {
   if (m_link_vec.size () > 0)
     {
@@ -1262,7 +1262,7 @@ Dta::get_registered_links ()
 }
 
 int
-Dta::register_paths (py::array_t<int> paths)
+Dta::register_paths (carray_t<int> paths)
 {
   if (m_path_vec.size () > 0)
     {
@@ -1627,8 +1627,8 @@ Dta::save_path_table (const std::string &folder)
 }
 
 py::array_t<double>
-Dta::get_link_inflow (py::array_t<int> start_intervals,
-                      py::array_t<int> end_intervals)
+Dta::get_link_inflow (carray_t<int> start_intervals,
+                      carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -1687,7 +1687,7 @@ Dta::get_link_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Dta::get_link_tt_FD (py::array_t<int> start_intervals)
+Dta::get_link_tt_FD (carray_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1724,7 +1724,7 @@ Dta::get_link_tt_FD (py::array_t<int> start_intervals)
 }
 
 py::array_t<double>
-Dta::get_link_tt (py::array_t<int> start_intervals, bool return_inf)
+Dta::get_link_tt (carray_t<int> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1780,8 +1780,8 @@ Dta::get_link_tt (py::array_t<int> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Dta::get_link_tt_robust (py::array_t<double> start_intervals,
-                         py::array_t<double> end_intervals, int num_trials,
+Dta::get_link_tt_robust (carray_t<double> start_intervals,
+                         carray_t<double> end_intervals, int num_trials,
                          bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -1853,7 +1853,7 @@ Dta::get_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Dta::get_registered_path_tt (py::array_t<int> start_intervals)
+Dta::get_registered_path_tt (carray_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1895,7 +1895,7 @@ Dta::get_registered_path_tt (py::array_t<int> start_intervals)
 }
 
 py::array_t<double>
-Dta::get_path_tt (py::array_t<int> link_IDs, py::array_t<int> start_intervals)
+Dta::get_path_tt (carray_t<int> link_IDs, carray_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -2001,8 +2001,8 @@ Dta::get_link_out_cc (int link_ID)
 }
 
 py::array_t<double>
-Dta::get_dar_matrix (py::array_t<int> start_intervals,
-                     py::array_t<int> end_intervals)
+Dta::get_dar_matrix (carray_t<int> start_intervals,
+                     carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -2080,8 +2080,8 @@ Dta::get_dar_matrix (py::array_t<int> start_intervals,
 }
 
 int
-Dta::save_dar_matrix (py::array_t<int> start_intervals,
-                      py::array_t<int> end_intervals, py::array_t<double> f,
+Dta::save_dar_matrix (carray_t<int> start_intervals,
+                      carray_t<int> end_intervals, carray_t<double> f,
                       const std::string &file_name)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
@@ -2191,9 +2191,9 @@ Dta::save_dar_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Dta::get_complete_dar_matrix (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals, int num_intervals,
-                              py::array_t<double> f)
+Dta::get_complete_dar_matrix (carray_t<int> start_intervals,
+                              carray_t<int> end_intervals, int num_intervals,
+                              carray_t<double> f)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
   // 360, 720, ...] with increment of ass_freq
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f7b8572..bc92b0e 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -35,7 +35,7 @@ public:
   // FIXME: This returns a Numpy array for consistency, but it should really be
   // better to use a plain list.
   py::array_t<int> get_all_links ();
-  int register_links (py::array_t<int> links);
+  int register_links (carray_t<int> links);
   // FIXME: This returns a Numpy array for consistency, but it should really be
   // better to use a plain list.
   py::array_t<int> get_registered_links ();
@@ -54,38 +54,38 @@ public:
   py::array_t<int> get_lowest_cost_path (int start_interval, int o_node_ID,
                                          int d_node_ID);
 
-  py::array_t<double> get_car_link_fftt (py::array_t<int> link_IDs);
-  py::array_t<double> get_truck_link_fftt (py::array_t<int> link_IDs);
+  py::array_t<double> get_car_link_fftt (carray_t<int> link_IDs);
+  py::array_t<double> get_truck_link_fftt (carray_t<int> link_IDs);
 
-  py::array_t<double> get_car_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_car_link_tt (carray_t<double> start_intervals,
                                        bool return_inf = false);
   py::array_t<double>
-  get_car_link_tt_robust (py::array_t<double> start_intervals,
-                          py::array_t<double> end_intervals,
+  get_car_link_tt_robust (carray_t<double> start_intervals,
+                          carray_t<double> end_intervals,
                           int num_trials = 180, bool return_inf = false);
-  py::array_t<double> get_truck_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_truck_link_tt (carray_t<double> start_intervals,
                                          bool return_inf = false);
   py::array_t<double>
-  get_truck_link_tt_robust (py::array_t<double> start_intervals,
-                            py::array_t<double> end_intervals,
+  get_truck_link_tt_robust (carray_t<double> start_intervals,
+                            carray_t<double> end_intervals,
                             int num_trials = 180, bool return_inf = false);
 
-  py::array_t<double> get_car_link_speed (py::array_t<double> start_intervals);
+  py::array_t<double> get_car_link_speed (carray_t<double> start_intervals);
   py::array_t<double>
-  get_truck_link_speed (py::array_t<double> start_intervals);
+  get_truck_link_speed (carray_t<double> start_intervals);
 
-  py::array_t<double> get_link_car_inflow (py::array_t<int> start_intervals,
-                                           py::array_t<int> end_intervals);
-  py::array_t<double> get_link_truck_inflow (py::array_t<int> start_intervals,
-                                             py::array_t<int> end_intervals);
+  py::array_t<double> get_link_car_inflow (carray_t<int> start_intervals,
+                                           carray_t<int> end_intervals);
+  py::array_t<double> get_link_truck_inflow (carray_t<int> start_intervals,
+                                             carray_t<int> end_intervals);
 
-  int register_paths (py::array_t<int> paths);
+  int register_paths (carray_t<int> paths);
 
   py::array_t<int> get_registered_links_coverage_in_registered_paths ();
   std::vector<bool> check_registered_links_in_registered_paths ();
   py::array_t<bool> are_registered_links_in_registered_paths ();
   py::array_t<int> generate_paths_to_cover_registered_links ();
-  py::array_t<int> generate_paths_to_cover_links (py::array_t<int> links,
+  py::array_t<int> generate_paths_to_cover_links (carray_t<int> links,
                                                   int max_iter);
   int save_path_table (const std::string &folder);
 
@@ -95,63 +95,63 @@ public:
   py::array_t<double> get_truck_link_in_cc (int link_ID);
 
   py::array_t<double> get_enroute_and_queue_veh_stats_agg ();
-  py::array_t<double> get_queue_veh_each_link (py::array_t<int> useful_links,
-                                               py::array_t<int> intervals);
+  py::array_t<double> get_queue_veh_each_link (carray_t<int> useful_links,
+                                               carray_t<int> intervals);
 
   double get_car_link_out_num (int link_ID, double time);
   double get_truck_link_out_num (int link_ID, double time);
 
-  py::array_t<double> get_car_dar_matrix (py::array_t<int> start_intervals,
-                                          py::array_t<int> end_intervals);
-  py::array_t<double> get_truck_dar_matrix (py::array_t<int> start_intervals,
-                                            py::array_t<int> end_intervals);
-
-  int save_car_dar_matrix (py::array_t<int> start_intervals,
-                           py::array_t<int> end_intervals,
-                           py::array_t<double> f, const std::string &file_name);
-  int save_truck_dar_matrix (py::array_t<int> start_intervals,
-                             py::array_t<int> end_intervals,
-                             py::array_t<double> f,
+  py::array_t<double> get_car_dar_matrix (carray_t<int> start_intervals,
+                                          carray_t<int> end_intervals);
+  py::array_t<double> get_truck_dar_matrix (carray_t<int> start_intervals,
+                                            carray_t<int> end_intervals);
+
+  int save_car_dar_matrix (carray_t<int> start_intervals,
+                           carray_t<int> end_intervals,
+                           carray_t<double> f, const std::string &file_name);
+  int save_truck_dar_matrix (carray_t<int> start_intervals,
+                             carray_t<int> end_intervals,
+                             carray_t<double> f,
                              const std::string &file_name);
 
-  SparseMatrixR get_complete_car_dar_matrix (py::array_t<int> start_intervals,
-                                             py::array_t<int> end_intervals,
+  SparseMatrixR get_complete_car_dar_matrix (carray_t<int> start_intervals,
+                                             carray_t<int> end_intervals,
                                              int num_intervals,
-                                             py::array_t<double> f);
-  SparseMatrixR get_complete_truck_dar_matrix (py::array_t<int> start_intervals,
-                                               py::array_t<int> end_intervals,
+                                             carray_t<double> f);
+  SparseMatrixR get_complete_truck_dar_matrix (carray_t<int> start_intervals,
+                                               carray_t<int> end_intervals,
                                                int num_intervals,
-                                               py::array_t<double> f);
+                                               carray_t<double> f);
 
   py::array_t<double> get_waiting_time_at_intersections ();
   py::array_t<double> get_waiting_time_at_intersections_car ();
   py::array_t<double> get_waiting_time_at_intersections_truck ();
   py::array_t<int> get_link_spillback ();
   py::array_t<double>
-  get_avg_link_on_path_tt_car (py::array_t<int> link_IDs,
-                               py::array_t<double> start_intervals);
+  get_avg_link_on_path_tt_car (carray_t<int> link_IDs,
+                               carray_t<double> start_intervals);
   py::array_t<double>
-  get_avg_link_on_path_tt_truck (py::array_t<int> link_IDs,
-                                 py::array_t<double> start_intervals);
+  get_avg_link_on_path_tt_truck (carray_t<int> link_IDs,
+                                 carray_t<double> start_intervals);
   // assume build_link_cost_map() is invoked before
-  py::array_t<double> get_path_tt_car (py::array_t<int> link_IDs,
-                                       py::array_t<int> start_intervals);
-  py::array_t<double> get_path_tt_truck (py::array_t<int> link_IDs,
-                                         py::array_t<int> start_intervals);
+  py::array_t<double> get_path_tt_car (carray_t<int> link_IDs,
+                                       carray_t<int> start_intervals);
+  py::array_t<double> get_path_tt_truck (carray_t<int> link_IDs,
+                                         carray_t<int> start_intervals);
   py::array_t<double>
-  get_registered_path_tt_car (py::array_t<int> start_intervals);
+  get_registered_path_tt_car (carray_t<int> start_intervals);
   py::array_t<double>
-  get_registered_path_tt_truck (py::array_t<int> start_intervals);
+  get_registered_path_tt_truck (carray_t<int> start_intervals);
 
-  py::array_t<double> get_car_ltg_matrix (py::array_t<int> start_intervals,
+  py::array_t<double> get_car_ltg_matrix (carray_t<int> start_intervals,
                                           int threshold_timestamp);
-  py::array_t<double> get_truck_ltg_matrix (py::array_t<int> start_intervals,
+  py::array_t<double> get_truck_ltg_matrix (carray_t<int> start_intervals,
                                             int threshold_timestamp);
 
-  SparseMatrixR get_complete_car_ltg_matrix (py::array_t<int> start_intervals,
+  SparseMatrixR get_complete_car_ltg_matrix (carray_t<int> start_intervals,
                                              int threshold_timestamp,
                                              int num_intervals);
-  SparseMatrixR get_complete_truck_ltg_matrix (py::array_t<int> start_intervals,
+  SparseMatrixR get_complete_truck_ltg_matrix (carray_t<int> start_intervals,
                                                int threshold_timestamp,
                                                int num_intervals);
 
@@ -508,7 +508,7 @@ Mcdta::get_all_links ()
 }
 
 int
-Mcdta::register_links (py::array_t<int> links)
+Mcdta::register_links (carray_t<int> links)
 {
   if (m_link_vec.size () > 0)
     {
@@ -1495,8 +1495,8 @@ Mcdta::get_link_spillback ()
 }
 
 py::array_t<double>
-Mcdta::get_avg_link_on_path_tt_car (py::array_t<int> link_IDs,
-                                    py::array_t<double> start_intervals)
+Mcdta::get_avg_link_on_path_tt_car (carray_t<int> link_IDs,
+                                    carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -1557,8 +1557,8 @@ Mcdta::get_avg_link_on_path_tt_car (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mcdta::get_avg_link_on_path_tt_truck (py::array_t<int> link_IDs,
-                                      py::array_t<double> start_intervals)
+Mcdta::get_avg_link_on_path_tt_truck (carray_t<int> link_IDs,
+                                      carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -1619,8 +1619,8 @@ Mcdta::get_avg_link_on_path_tt_truck (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mcdta::get_path_tt_car (py::array_t<int> link_IDs,
-                        py::array_t<int> start_intervals)
+Mcdta::get_path_tt_car (carray_t<int> link_IDs,
+                        carray_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -1689,8 +1689,8 @@ Mcdta::get_path_tt_car (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mcdta::get_path_tt_truck (py::array_t<int> link_IDs,
-                          py::array_t<int> start_intervals)
+Mcdta::get_path_tt_truck (carray_t<int> link_IDs,
+                          carray_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -1759,7 +1759,7 @@ Mcdta::get_path_tt_truck (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mcdta::get_registered_path_tt_car (py::array_t<int> start_intervals)
+Mcdta::get_registered_path_tt_car (carray_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1801,7 +1801,7 @@ Mcdta::get_registered_path_tt_car (py::array_t<int> start_intervals)
 }
 
 py::array_t<double>
-Mcdta::get_registered_path_tt_truck (py::array_t<int> start_intervals)
+Mcdta::get_registered_path_tt_truck (carray_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1844,7 +1844,7 @@ Mcdta::get_registered_path_tt_truck (py::array_t<int> start_intervals)
 }
 
 py::array_t<double>
-Mcdta::get_car_link_fftt (py::array_t<int> link_IDs)
+Mcdta::get_car_link_fftt (carray_t<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -1870,7 +1870,7 @@ Mcdta::get_car_link_fftt (py::array_t<int> link_IDs)
 }
 
 py::array_t<double>
-Mcdta::get_truck_link_fftt (py::array_t<int> link_IDs)
+Mcdta::get_truck_link_fftt (carray_t<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -1897,7 +1897,7 @@ Mcdta::get_truck_link_fftt (py::array_t<int> link_IDs)
 
 // unit: m_mcdta -> m_unit_time (eg: 5 seconds)
 py::array_t<double>
-Mcdta::get_car_link_tt (py::array_t<double> start_intervals, bool return_inf)
+Mcdta::get_car_link_tt (carray_t<double> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -1947,8 +1947,8 @@ Mcdta::get_car_link_tt (py::array_t<double> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Mcdta::get_car_link_tt_robust (py::array_t<double> start_intervals,
-                               py::array_t<double> end_intervals,
+Mcdta::get_car_link_tt_robust (carray_t<double> start_intervals,
+                               carray_t<double> end_intervals,
                                int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -2020,7 +2020,7 @@ Mcdta::get_car_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_truck_link_tt (py::array_t<double> start_intervals, bool return_inf)
+Mcdta::get_truck_link_tt (carray_t<double> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -2070,8 +2070,8 @@ Mcdta::get_truck_link_tt (py::array_t<double> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Mcdta::get_truck_link_tt_robust (py::array_t<double> start_intervals,
-                                 py::array_t<double> end_intervals,
+Mcdta::get_truck_link_tt_robust (carray_t<double> start_intervals,
+                                 carray_t<double> end_intervals,
                                  int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -2144,7 +2144,7 @@ Mcdta::get_truck_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_car_link_speed (py::array_t<double> start_intervals)
+Mcdta::get_car_link_speed (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -2183,7 +2183,7 @@ Mcdta::get_car_link_speed (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mcdta::get_truck_link_speed (py::array_t<double> start_intervals)
+Mcdta::get_truck_link_speed (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -2222,8 +2222,8 @@ Mcdta::get_truck_link_speed (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mcdta::get_link_car_inflow (py::array_t<int> start_intervals,
-                            py::array_t<int> end_intervals)
+Mcdta::get_link_car_inflow (carray_t<int> start_intervals,
+                            carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -2277,8 +2277,8 @@ Mcdta::get_link_car_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_link_truck_inflow (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals)
+Mcdta::get_link_truck_inflow (carray_t<int> start_intervals,
+                              carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -2332,7 +2332,7 @@ Mcdta::get_link_truck_inflow (py::array_t<int> start_intervals,
 }
 
 int
-Mcdta::register_paths (py::array_t<int> paths)
+Mcdta::register_paths (carray_t<int> paths)
 {
   if (m_path_vec.size () > 0)
     {
@@ -2713,7 +2713,7 @@ Mcdta::generate_paths_to_cover_registered_links ()
 }
 
 py::array_t<int>
-Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
+Mcdta::generate_paths_to_cover_links (carray_t<int> links, int max_iter)
 {
   auto links_buf = links.request ();
   if (links_buf.ndim != 1)
@@ -3084,8 +3084,8 @@ Mcdta::get_enroute_and_queue_veh_stats_agg ()
 }
 
 py::array_t<double>
-Mcdta::get_queue_veh_each_link (py::array_t<int> useful_links,
-                                py::array_t<int> intervals)
+Mcdta::get_queue_veh_each_link (carray_t<int> useful_links,
+                                carray_t<int> intervals)
 {
   auto intervals_buf = intervals.request ();
   if (intervals_buf.ndim != 1)
@@ -3168,8 +3168,8 @@ Mcdta::get_truck_link_out_num (int link_ID, double time)
 }
 
 py::array_t<double>
-Mcdta::get_car_dar_matrix (py::array_t<int> start_intervals,
-                           py::array_t<int> end_intervals)
+Mcdta::get_car_dar_matrix (carray_t<int> start_intervals,
+                           carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -3249,8 +3249,8 @@ Mcdta::get_car_dar_matrix (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_truck_dar_matrix (py::array_t<int> start_intervals,
-                             py::array_t<int> end_intervals)
+Mcdta::get_truck_dar_matrix (carray_t<int> start_intervals,
+                             carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -3328,9 +3328,9 @@ Mcdta::get_truck_dar_matrix (py::array_t<int> start_intervals,
 }
 
 int
-Mcdta::save_car_dar_matrix (py::array_t<int> start_intervals,
-                            py::array_t<int> end_intervals,
-                            py::array_t<double> f, const std::string &file_name)
+Mcdta::save_car_dar_matrix (carray_t<int> start_intervals,
+                            carray_t<int> end_intervals,
+                            carray_t<double> f, const std::string &file_name)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
   // 360, 720, ...] with increment of ass_freq
@@ -3440,9 +3440,9 @@ Mcdta::save_car_dar_matrix (py::array_t<int> start_intervals,
 }
 
 int
-Mcdta::save_truck_dar_matrix (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals,
-                              py::array_t<double> f,
+Mcdta::save_truck_dar_matrix (carray_t<int> start_intervals,
+                              carray_t<int> end_intervals,
+                              carray_t<double> f,
                               const std::string &file_name)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
@@ -3553,9 +3553,9 @@ Mcdta::save_truck_dar_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Mcdta::get_complete_car_dar_matrix (py::array_t<int> start_intervals,
-                                    py::array_t<int> end_intervals,
-                                    int num_intervals, py::array_t<double> f)
+Mcdta::get_complete_car_dar_matrix (carray_t<int> start_intervals,
+                                    carray_t<int> end_intervals,
+                                    int num_intervals, carray_t<double> f)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
   // 360, 720, ...] with increment of ass_freq
@@ -3670,9 +3670,9 @@ Mcdta::get_complete_car_dar_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Mcdta::get_complete_truck_dar_matrix (py::array_t<int> start_intervals,
-                                      py::array_t<int> end_intervals,
-                                      int num_intervals, py::array_t<double> f)
+Mcdta::get_complete_truck_dar_matrix (carray_t<int> start_intervals,
+                                      carray_t<int> end_intervals,
+                                      int num_intervals, carray_t<double> f)
 {
   // start_intervals and end_intervals are like [0, 180, 360, ...] and [180,
   // 360, 720, ...] with increment of ass_freq
@@ -3788,7 +3788,7 @@ Mcdta::get_complete_truck_dar_matrix (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_car_ltg_matrix (py::array_t<int> start_intervals,
+Mcdta::get_car_ltg_matrix (carray_t<int> start_intervals,
                            int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -4105,7 +4105,7 @@ Mcdta::get_car_ltg_matrix (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mcdta::get_truck_ltg_matrix (py::array_t<int> start_intervals,
+Mcdta::get_truck_ltg_matrix (carray_t<int> start_intervals,
                              int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -4423,7 +4423,7 @@ Mcdta::get_truck_ltg_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Mcdta::get_complete_car_ltg_matrix (py::array_t<int> start_intervals,
+Mcdta::get_complete_car_ltg_matrix (carray_t<int> start_intervals,
                                     int threshold_timestamp, int num_intervals)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -4756,7 +4756,7 @@ Mcdta::get_complete_car_ltg_matrix (py::array_t<int> start_intervals,
 }
 
 SparseMatrixR
-Mcdta::get_complete_truck_ltg_matrix (py::array_t<int> start_intervals,
+Mcdta::get_complete_truck_ltg_matrix (carray_t<int> start_intervals,
                                       int threshold_timestamp,
                                       int num_intervals)
 {
diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 2e53844..d0bea63 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -39,11 +39,11 @@ public:
   int run_mmdta_adaptive (const std::string &folder, int cong_frequency = 180,
                           bool verbose = true);
 
-  int register_links_driving (py::array_t<int> links_driving);
-  int register_links_walking (py::array_t<int> links_walking);
-  int register_links_bus (py::array_t<int> links_bus);
+  int register_links_driving (carray_t<int> links_driving);
+  int register_links_walking (carray_t<int> links_walking);
+  int register_links_bus (carray_t<int> links_bus);
   py::array_t<double> get_links_overlapped_bus_driving ();
-  int register_links_bus_driving (py::array_t<int> links_bus_driving);
+  int register_links_bus_driving (carray_t<int> links_bus_driving);
 
   int get_cur_loading_interval ();
   py::array_t<double> get_travel_stats ();
@@ -54,72 +54,72 @@ public:
   py::array_t<int> get_od_mode_connectivity ();
   int generate_init_mode_demand_file (const std::string &file_folder);
 
-  py::array_t<double> get_car_link_fftt (py::array_t<int> link_IDs);
-  py::array_t<double> get_truck_link_fftt (py::array_t<int> link_IDs);
-  py::array_t<double> get_bus_link_fftt (py::array_t<int> link_IDs);
-  py::array_t<double> get_walking_link_fftt (py::array_t<int> link_IDs);
+  py::array_t<double> get_car_link_fftt (carray_t<int> link_IDs);
+  py::array_t<double> get_truck_link_fftt (carray_t<int> link_IDs);
+  py::array_t<double> get_bus_link_fftt (carray_t<int> link_IDs);
+  py::array_t<double> get_walking_link_fftt (carray_t<int> link_IDs);
 
-  py::array_t<double> get_car_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_car_link_tt (carray_t<double> start_intervals,
                                        bool return_inf = false);
   py::array_t<double>
-  get_car_link_tt_robust (py::array_t<double> start_intervals,
-                          py::array_t<double> end_intervals,
+  get_car_link_tt_robust (carray_t<double> start_intervals,
+                          carray_t<double> end_intervals,
                           int num_trials = 180, bool return_inf = false);
-  py::array_t<double> get_truck_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_truck_link_tt (carray_t<double> start_intervals,
                                          bool return_inf = false);
   py::array_t<double>
-  get_truck_link_tt_robust (py::array_t<double> start_intervals,
-                            py::array_t<double> end_intervals,
+  get_truck_link_tt_robust (carray_t<double> start_intervals,
+                            carray_t<double> end_intervals,
                             int num_trials = 180, bool return_inf = false);
-  py::array_t<double> get_bus_link_tt (py::array_t<double> start_intervals,
+  py::array_t<double> get_bus_link_tt (carray_t<double> start_intervals,
                                        bool return_inf = false,
                                        bool return_bus_time = false);
   py::array_t<double>
-  get_bus_link_tt_robust (py::array_t<double> start_intervals,
-                          py::array_t<double> end_intervals,
+  get_bus_link_tt_robust (carray_t<double> start_intervals,
+                          carray_t<double> end_intervals,
                           int num_trials = 180, bool return_inf = false,
                           bool return_bus_time = false);
   // for boarding links, this includes bus waiting time
   py::array_t<double>
-  get_passenger_walking_link_tt (py::array_t<double> start_intervals);
+  get_passenger_walking_link_tt (carray_t<double> start_intervals);
   py::array_t<double>
-  get_passenger_walking_link_tt_robust (py::array_t<double> start_intervals,
-                                        py::array_t<double> end_intervals,
+  get_passenger_walking_link_tt_robust (carray_t<double> start_intervals,
+                                        carray_t<double> end_intervals,
                                         int num_trials = 180);
   py::array_t<double>
-  get_bus_driving_link_tt_car (py::array_t<double> start_intervals,
+  get_bus_driving_link_tt_car (carray_t<double> start_intervals,
                                bool return_inf = false);
   py::array_t<double> get_bus_driving_link_tt_car_robust (
-    py::array_t<double> start_intervals, py::array_t<double> end_intervals,
+    carray_t<double> start_intervals, carray_t<double> end_intervals,
     int num_trials = 180, bool return_inf = false);
   py::array_t<double>
-  get_bus_driving_link_tt_truck (py::array_t<double> start_intervals,
+  get_bus_driving_link_tt_truck (carray_t<double> start_intervals,
                                  bool return_inf = false);
   py::array_t<double> get_bus_driving_link_tt_truck_robust (
-    py::array_t<double> start_intervals, py::array_t<double> end_intervals,
+    carray_t<double> start_intervals, carray_t<double> end_intervals,
     int num_trials = 180, bool return_inf = false);
 
-  py::array_t<double> get_car_link_speed (py::array_t<double> start_intervals);
+  py::array_t<double> get_car_link_speed (carray_t<double> start_intervals);
   py::array_t<double>
-  get_truck_link_speed (py::array_t<double> start_intervals);
-  py::array_t<double> get_bus_link_speed (py::array_t<double> start_intervals,
+  get_truck_link_speed (carray_t<double> start_intervals);
+  py::array_t<double> get_bus_link_speed (carray_t<double> start_intervals,
                                           bool return_inf = false,
                                           bool return_bus_time = false);
 
-  py::array_t<double> get_link_car_inflow (py::array_t<int> start_intervals,
-                                           py::array_t<int> end_intervals);
-  py::array_t<double> get_link_truck_inflow (py::array_t<int> start_intervals,
-                                             py::array_t<int> end_intervals);
-  py::array_t<double> get_link_bus_inflow (py::array_t<int> start_intervals,
-                                           py::array_t<int> end_intervals);
-  py::array_t<double> get_busstop_bus_inflow (py::array_t<int> start_intervals,
-                                              py::array_t<int> end_intervals);
+  py::array_t<double> get_link_car_inflow (carray_t<int> start_intervals,
+                                           carray_t<int> end_intervals);
+  py::array_t<double> get_link_truck_inflow (carray_t<int> start_intervals,
+                                             carray_t<int> end_intervals);
+  py::array_t<double> get_link_bus_inflow (carray_t<int> start_intervals,
+                                           carray_t<int> end_intervals);
+  py::array_t<double> get_busstop_bus_inflow (carray_t<int> start_intervals,
+                                              carray_t<int> end_intervals);
   py::array_t<double>
-  get_link_bus_passenger_inflow (py::array_t<int> start_intervals,
-                                 py::array_t<int> end_intervals);
+  get_link_bus_passenger_inflow (carray_t<int> start_intervals,
+                                 carray_t<int> end_intervals);
   py::array_t<double>
-  get_link_walking_passenger_inflow (py::array_t<int> start_intervals,
-                                     py::array_t<int> end_intervals);
+  get_link_walking_passenger_inflow (carray_t<int> start_intervals,
+                                     carray_t<int> end_intervals);
 
   py::array_t<double> get_car_link_out_cc (int link_ID);
   py::array_t<double> get_car_link_in_cc (int link_ID);
@@ -136,11 +136,11 @@ public:
 
   py::array_t<double> get_enroute_and_queue_veh_stats_agg ();
   py::array_t<double> get_enroute_and_queue_passenger_stats_agg ();
-  py::array_t<double> get_queue_veh_each_link (py::array_t<int> useful_links,
-                                               py::array_t<int> intervals);
+  py::array_t<double> get_queue_veh_each_link (carray_t<int> useful_links,
+                                               carray_t<int> intervals);
   py::array_t<double>
-  get_queue_passenger_each_link (py::array_t<int> useful_links,
-                                 py::array_t<int> intervals);
+  get_queue_passenger_each_link (carray_t<int> useful_links,
+                                 carray_t<int> intervals);
 
   double get_car_link_out_num (int link_ID, double time);
   double get_truck_link_out_num (int link_ID, double time);
@@ -148,11 +148,11 @@ public:
   double get_bus_stop_arrival_num (int busstop_ID, double time);
   double get_bus_stop_departure_num (int busstop_ID, double time);
 
-  int register_paths (py::array_t<int> paths);
-  int register_paths_driving (py::array_t<int> paths);
-  int register_paths_bustransit (py::array_t<int> paths);
-  int register_paths_pnr (py::array_t<int> paths);
-  int register_paths_bus (py::array_t<int> paths);
+  int register_paths (carray_t<int> paths);
+  int register_paths_driving (carray_t<int> paths);
+  int register_paths_bustransit (carray_t<int> paths);
+  int register_paths_pnr (carray_t<int> paths);
+  int register_paths_bus (carray_t<int> paths);
 
   std::vector<bool> check_registered_links_in_registered_paths_driving ();
   std::vector<bool> check_registered_links_in_registered_paths_bus ();
@@ -168,39 +168,39 @@ public:
   int save_passenger_path_table (const std::string &file_folder);
   int save_mode_path_table (const std::string &file_folder);
 
-  py::array_t<int> link_seq_to_node_seq_driving (py::array_t<int> link_IDs);
-  py::array_t<int> link_seq_to_node_seq_bustransit (py::array_t<int> link_IDs);
-  py::array_t<int> node_seq_to_link_seq_driving (py::array_t<int> node_IDs);
-  py::array_t<int> node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs);
+  py::array_t<int> link_seq_to_node_seq_driving (carray_t<int> link_IDs);
+  py::array_t<int> link_seq_to_node_seq_bustransit (carray_t<int> link_IDs);
+  py::array_t<int> node_seq_to_link_seq_driving (carray_t<int> node_IDs);
+  py::array_t<int> node_seq_to_link_seq_bustransit (carray_t<int> node_IDs);
 
   // with m_mmdue -> m_link_tt_map and m_mmdue -> m_transitlink_tt_map
   py::array_t<double>
-  get_passenger_path_cost_driving (py::array_t<int> link_IDs,
-                                   py::array_t<double> start_intervals);
+  get_passenger_path_cost_driving (carray_t<int> link_IDs,
+                                   carray_t<double> start_intervals);
   py::array_t<double>
-  get_passenger_path_cost_bus (py::array_t<int> link_IDs,
-                               py::array_t<double> start_intervals);
+  get_passenger_path_cost_bus (carray_t<int> link_IDs,
+                               carray_t<double> start_intervals);
   py::array_t<double>
-  get_passenger_path_cost_pnr (py::array_t<int> link_IDs_driving,
-                               py::array_t<int> link_IDs_bustransit,
-                               py::array_t<double> start_intervals);
+  get_passenger_path_cost_pnr (carray_t<int> link_IDs_driving,
+                               carray_t<int> link_IDs_bustransit,
+                               carray_t<double> start_intervals);
 
-  py::array_t<double> get_path_tt_car (py::array_t<int> link_IDs,
-                                       py::array_t<double> start_intervals);
-  py::array_t<double> get_path_tt_truck (py::array_t<int> link_IDs,
-                                         py::array_t<double> start_intervals);
+  py::array_t<double> get_path_tt_car (carray_t<int> link_IDs,
+                                       carray_t<double> start_intervals);
+  py::array_t<double> get_path_tt_truck (carray_t<int> link_IDs,
+                                         carray_t<double> start_intervals);
 
   // with m_mmdue -> m_link_tt_map_truck
   py::array_t<double>
-  get_registered_path_tt_truck (py::array_t<double> start_intervals);
+  get_registered_path_tt_truck (carray_t<double> start_intervals);
 
   // with m_mmdue -> m_link_tt_map and m_mmdue -> m_transitlink_tt_map
   py::array_t<double>
-  get_registered_path_tt_driving (py::array_t<double> start_intervals);
+  get_registered_path_tt_driving (carray_t<double> start_intervals);
   py::array_t<double>
-  get_registered_path_tt_bustransit (py::array_t<double> start_intervals);
+  get_registered_path_tt_bustransit (carray_t<double> start_intervals);
   py::array_t<double>
-  get_registered_path_tt_pnr (py::array_t<double> start_intervals);
+  get_registered_path_tt_pnr (carray_t<double> start_intervals);
 
   py::array_t<double> get_registered_path_distance_driving ();
   py::array_t<double> get_registered_path_distance_bustransit ();
@@ -208,11 +208,11 @@ public:
 
   // with m_mmdue -> m_link_tt_map and m_mmdue -> m_transitlink_cost_map
   py::array_t<double>
-  get_registered_path_cost_driving (py::array_t<double> start_intervals);
+  get_registered_path_cost_driving (carray_t<double> start_intervals);
   py::array_t<double>
-  get_registered_path_cost_bustransit (py::array_t<double> start_intervals);
+  get_registered_path_cost_bustransit (carray_t<double> start_intervals);
   py::array_t<double>
-  get_registered_path_cost_pnr (py::array_t<double> start_intervals);
+  get_registered_path_cost_pnr (carray_t<double> start_intervals);
 
   int update_tdsp_tree ();
   py::array_t<int> get_lowest_cost_path (int start_interval, int o_node_ID,
@@ -232,55 +232,55 @@ public:
   py::array_t<int> get_link_spillback ();
 
   py::array_t<double>
-  get_car_dar_matrix_driving (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals);
+  get_car_dar_matrix_driving (carray_t<int> start_intervals,
+                              carray_t<int> end_intervals);
   py::array_t<double>
-  get_truck_dar_matrix_driving (py::array_t<int> start_intervals,
-                                py::array_t<int> end_intervals);
-  py::array_t<double> get_car_dar_matrix_pnr (py::array_t<int> start_intervals,
-                                              py::array_t<int> end_intervals);
+  get_truck_dar_matrix_driving (carray_t<int> start_intervals,
+                                carray_t<int> end_intervals);
+  py::array_t<double> get_car_dar_matrix_pnr (carray_t<int> start_intervals,
+                                              carray_t<int> end_intervals);
   py::array_t<double>
-  get_bus_dar_matrix_bustransit_link (py::array_t<int> start_intervals,
-                                      py::array_t<int> end_intervals);
+  get_bus_dar_matrix_bustransit_link (carray_t<int> start_intervals,
+                                      carray_t<int> end_intervals);
   py::array_t<double>
-  get_bus_dar_matrix_driving_link (py::array_t<int> start_intervals,
-                                   py::array_t<int> end_intervals);
+  get_bus_dar_matrix_driving_link (carray_t<int> start_intervals,
+                                   carray_t<int> end_intervals);
   py::array_t<double>
-  get_passenger_dar_matrix_bustransit (py::array_t<int> start_intervals,
-                                       py::array_t<int> end_intervals);
+  get_passenger_dar_matrix_bustransit (carray_t<int> start_intervals,
+                                       carray_t<int> end_intervals);
   py::array_t<double>
-  get_passenger_dar_matrix_pnr (py::array_t<int> start_intervals,
-                                py::array_t<int> end_intervals);
+  get_passenger_dar_matrix_pnr (carray_t<int> start_intervals,
+                                carray_t<int> end_intervals);
 
   py::array_t<double>
-  get_car_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
-                                       py::array_t<int> end_intervals);
+  get_car_dar_matrix_bus_driving_link (carray_t<int> start_intervals,
+                                       carray_t<int> end_intervals);
   py::array_t<double>
-  get_truck_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
-                                         py::array_t<int> end_intervals);
+  get_truck_dar_matrix_bus_driving_link (carray_t<int> start_intervals,
+                                         carray_t<int> end_intervals);
   py::array_t<double> get_passenger_dar_matrix_bustransit_bus_link (
-    py::array_t<int> start_intervals, py::array_t<int> end_intervals);
+    carray_t<int> start_intervals, carray_t<int> end_intervals);
   py::array_t<double>
-  get_passenger_dar_matrix_pnr_bus_link (py::array_t<int> start_intervals,
-                                         py::array_t<int> end_intervals);
+  get_passenger_dar_matrix_pnr_bus_link (carray_t<int> start_intervals,
+                                         carray_t<int> end_intervals);
 
   // py::array_t<double>
   // get_passenger_bus_link_flow_relationship(py::array_t<int>start_intervals,
   // py::array_t<int>end_intervals);
 
   py::array_t<double>
-  get_car_ltg_matrix_driving (py::array_t<int> start_intervals,
+  get_car_ltg_matrix_driving (carray_t<int> start_intervals,
                               int threshold_timestamp);
-  py::array_t<double> get_car_ltg_matrix_pnr (py::array_t<int> start_intervals,
+  py::array_t<double> get_car_ltg_matrix_pnr (carray_t<int> start_intervals,
                                               int threshold_timestamp);
   py::array_t<double>
-  get_truck_ltg_matrix_driving (py::array_t<int> start_intervals,
+  get_truck_ltg_matrix_driving (carray_t<int> start_intervals,
                                 int threshold_timestamp);
   py::array_t<double>
-  get_passenger_ltg_matrix_bustransit (py::array_t<int> start_intervals,
+  get_passenger_ltg_matrix_bustransit (carray_t<int> start_intervals,
                                        int threshold_timestamp);
   py::array_t<double>
-  get_passenger_ltg_matrix_pnr (py::array_t<int> start_intervals,
+  get_passenger_ltg_matrix_pnr (carray_t<int> start_intervals,
                                 int threshold_timestamp);
 
   int delete_all_agents ();
@@ -1158,7 +1158,7 @@ Mmdta::run_mmdta_adaptive (const std::string &folder, int cong_frequency,
 }
 
 int
-Mmdta::register_links_driving (py::array_t<int> links_driving)
+Mmdta::register_links_driving (carray_t<int> links_driving)
 {
   if (m_link_vec_driving.size () > 0)
     {
@@ -1202,7 +1202,7 @@ Mmdta::register_links_driving (py::array_t<int> links_driving)
 }
 
 int
-Mmdta::register_links_walking (py::array_t<int> links_walking)
+Mmdta::register_links_walking (carray_t<int> links_walking)
 {
   if (m_link_vec_walking.size () > 0)
     {
@@ -1246,7 +1246,7 @@ Mmdta::register_links_walking (py::array_t<int> links_walking)
 }
 
 int
-Mmdta::register_links_bus (py::array_t<int> links_bus)
+Mmdta::register_links_bus (carray_t<int> links_bus)
 {
   if (m_link_vec_bus.size () > 0)
     {
@@ -1339,7 +1339,7 @@ Mmdta::get_links_overlapped_bus_driving ()
 }
 
 int
-Mmdta::register_links_bus_driving (py::array_t<int> links_bus_driving)
+Mmdta::register_links_bus_driving (carray_t<int> links_bus_driving)
 {
   if (!m_link_vec_bus_driving.empty ())
     {
@@ -1861,7 +1861,7 @@ Mmdta::get_travel_stats ()
 }
 
 int
-Mmdta::register_paths (py::array_t<int> paths)
+Mmdta::register_paths (carray_t<int> paths)
 {
   if (m_path_vec.size () > 0)
     {
@@ -1948,7 +1948,7 @@ Mmdta::register_paths (py::array_t<int> paths)
 }
 
 int
-Mmdta::register_paths_driving (py::array_t<int> paths)
+Mmdta::register_paths_driving (carray_t<int> paths)
 {
   if (m_path_vec_driving.size () > 0)
     {
@@ -1997,7 +1997,7 @@ Mmdta::register_paths_driving (py::array_t<int> paths)
 }
 
 int
-Mmdta::register_paths_bustransit (py::array_t<int> paths)
+Mmdta::register_paths_bustransit (carray_t<int> paths)
 {
   if (m_path_vec_bustransit.size () > 0)
     {
@@ -2046,7 +2046,7 @@ Mmdta::register_paths_bustransit (py::array_t<int> paths)
 }
 
 int
-Mmdta::register_paths_pnr (py::array_t<int> paths)
+Mmdta::register_paths_pnr (carray_t<int> paths)
 {
   if (m_path_vec_pnr.size () > 0)
     {
@@ -2094,7 +2094,7 @@ Mmdta::register_paths_pnr (py::array_t<int> paths)
 }
 
 int
-Mmdta::register_paths_bus (py::array_t<int> paths)
+Mmdta::register_paths_bus (carray_t<int> paths)
 {
   if (m_path_vec_bus.size () > 0)
     {
@@ -3468,7 +3468,7 @@ Mmdta::save_mode_path_table (const std::string &file_folder)
 }
 
 py::array_t<int>
-Mmdta::link_seq_to_node_seq_driving (py::array_t<int> link_IDs)
+Mmdta::link_seq_to_node_seq_driving (carray_t<int> link_IDs)
 {
   auto links_buf = link_IDs.request ();
   if (links_buf.ndim != 1)
@@ -3497,7 +3497,7 @@ Mmdta::link_seq_to_node_seq_driving (py::array_t<int> link_IDs)
 }
 
 py::array_t<int>
-Mmdta::link_seq_to_node_seq_bustransit (py::array_t<int> link_IDs)
+Mmdta::link_seq_to_node_seq_bustransit (carray_t<int> link_IDs)
 {
   auto links_buf = link_IDs.request ();
   if (links_buf.ndim != 1)
@@ -3526,7 +3526,7 @@ Mmdta::link_seq_to_node_seq_bustransit (py::array_t<int> link_IDs)
 }
 
 py::array_t<int>
-Mmdta::node_seq_to_link_seq_driving (py::array_t<int> node_IDs)
+Mmdta::node_seq_to_link_seq_driving (carray_t<int> node_IDs)
 {
   auto nodes_buf = node_IDs.request ();
   if (nodes_buf.ndim != 1)
@@ -3574,7 +3574,7 @@ Mmdta::node_seq_to_link_seq_driving (py::array_t<int> node_IDs)
 }
 
 py::array_t<int>
-Mmdta::node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs)
+Mmdta::node_seq_to_link_seq_bustransit (carray_t<int> node_IDs)
 {
   auto nodes_buf = node_IDs.request ();
   if (nodes_buf.ndim != 1)
@@ -3623,8 +3623,8 @@ Mmdta::node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs)
 }
 
 py::array_t<double>
-Mmdta::get_passenger_path_cost_driving (py::array_t<int> link_IDs,
-                                        py::array_t<double> start_intervals)
+Mmdta::get_passenger_path_cost_driving (carray_t<int> link_IDs,
+                                        carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -3701,8 +3701,8 @@ Mmdta::get_passenger_path_cost_driving (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_path_cost_bus (py::array_t<int> link_IDs,
-                                    py::array_t<double> start_intervals)
+Mmdta::get_passenger_path_cost_bus (carray_t<int> link_IDs,
+                                    carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -3772,9 +3772,9 @@ Mmdta::get_passenger_path_cost_bus (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_path_cost_pnr (py::array_t<int> link_IDs_driving,
-                                    py::array_t<int> link_IDs_bustransit,
-                                    py::array_t<double> start_intervals)
+Mmdta::get_passenger_path_cost_pnr (carray_t<int> link_IDs_driving,
+                                    carray_t<int> link_IDs_bustransit,
+                                    carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -3880,7 +3880,7 @@ Mmdta::get_passenger_path_cost_pnr (py::array_t<int> link_IDs_driving,
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_tt_truck (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_tt_truck (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4042,7 +4042,7 @@ Mmdta::get_registered_path_distance_pnr ()
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_tt_driving (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_tt_driving (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4099,7 +4099,7 @@ Mmdta::get_registered_path_tt_driving (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_tt_bustransit (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_tt_bustransit (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4156,7 +4156,7 @@ Mmdta::get_registered_path_tt_bustransit (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_tt_pnr (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_tt_pnr (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4210,7 +4210,7 @@ Mmdta::get_registered_path_tt_pnr (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_cost_driving (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_cost_driving (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4267,7 +4267,7 @@ Mmdta::get_registered_path_cost_driving (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_cost_bustransit (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_cost_bustransit (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4324,7 +4324,7 @@ Mmdta::get_registered_path_cost_bustransit (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_registered_path_cost_pnr (py::array_t<double> start_intervals)
+Mmdta::get_registered_path_cost_pnr (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -4379,8 +4379,8 @@ Mmdta::get_registered_path_cost_pnr (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_path_tt_car (py::array_t<int> link_IDs,
-                        py::array_t<double> start_intervals)
+Mmdta::get_path_tt_car (carray_t<int> link_IDs,
+                        carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -4439,8 +4439,8 @@ Mmdta::get_path_tt_car (py::array_t<int> link_IDs,
 }
 
 py::array_t<double>
-Mmdta::get_path_tt_truck (py::array_t<int> link_IDs,
-                          py::array_t<double> start_intervals)
+Mmdta::get_path_tt_truck (carray_t<int> link_IDs,
+                          carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   int num_int = start_buf.shape[0];
@@ -4918,7 +4918,7 @@ Mmdta::generate_init_mode_demand_file (const std::string &file_folder)
 }
 
 py::array_t<double>
-Mmdta::get_car_link_fftt (py::array_t<int> link_IDs)
+Mmdta::get_car_link_fftt (carray_t<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -4944,7 +4944,7 @@ Mmdta::get_car_link_fftt (py::array_t<int> link_IDs)
 }
 
 py::array_t<double>
-Mmdta::get_truck_link_fftt (py::array_t<int> link_IDs)
+Mmdta::get_truck_link_fftt (carray_t<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -4970,7 +4970,7 @@ Mmdta::get_truck_link_fftt (py::array_t<int> link_IDs)
 }
 
 py::array_t<double>
-Mmdta::get_bus_link_fftt (py::array_t<int> link_IDs)
+Mmdta::get_bus_link_fftt (carray_t<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -4996,7 +4996,7 @@ Mmdta::get_bus_link_fftt (py::array_t<int> link_IDs)
 }
 
 py::array_t<double>
-Mmdta::get_walking_link_fftt (py::array_t<int> link_IDs)
+Mmdta::get_walking_link_fftt (carray_t<int> link_IDs)
 {
   auto start_buf = link_IDs.request ();
   if (start_buf.ndim != 1)
@@ -5023,7 +5023,7 @@ Mmdta::get_walking_link_fftt (py::array_t<int> link_IDs)
 
 // unit: m_mmdta -> m_unit_time (eg: 5 seconds)
 py::array_t<double>
-Mmdta::get_car_link_tt (py::array_t<double> start_intervals, bool return_inf)
+Mmdta::get_car_link_tt (carray_t<double> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5075,8 +5075,8 @@ Mmdta::get_car_link_tt (py::array_t<double> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Mmdta::get_car_link_tt_robust (py::array_t<double> start_intervals,
-                               py::array_t<double> end_intervals,
+Mmdta::get_car_link_tt_robust (carray_t<double> start_intervals,
+                               carray_t<double> end_intervals,
                                int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5151,7 +5151,7 @@ Mmdta::get_car_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_truck_link_tt (py::array_t<double> start_intervals, bool return_inf)
+Mmdta::get_truck_link_tt (carray_t<double> start_intervals, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5204,8 +5204,8 @@ Mmdta::get_truck_link_tt (py::array_t<double> start_intervals, bool return_inf)
 }
 
 py::array_t<double>
-Mmdta::get_truck_link_tt_robust (py::array_t<double> start_intervals,
-                                 py::array_t<double> end_intervals,
+Mmdta::get_truck_link_tt_robust (carray_t<double> start_intervals,
+                                 carray_t<double> end_intervals,
                                  int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5280,7 +5280,7 @@ Mmdta::get_truck_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_link_tt (py::array_t<double> start_intervals, bool return_inf,
+Mmdta::get_bus_link_tt (carray_t<double> start_intervals, bool return_inf,
                         bool return_bus_time)
 {
   auto start_buf = start_intervals.request ();
@@ -5327,8 +5327,8 @@ Mmdta::get_bus_link_tt (py::array_t<double> start_intervals, bool return_inf,
 }
 
 py::array_t<double>
-Mmdta::get_bus_link_tt_robust (py::array_t<double> start_intervals,
-                               py::array_t<double> end_intervals,
+Mmdta::get_bus_link_tt_robust (carray_t<double> start_intervals,
+                               carray_t<double> end_intervals,
                                int num_trials, bool return_inf,
                                bool return_bus_time)
 {
@@ -5397,7 +5397,7 @@ Mmdta::get_bus_link_tt_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_walking_link_tt (py::array_t<double> start_intervals)
+Mmdta::get_passenger_walking_link_tt (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5436,7 +5436,7 @@ Mmdta::get_passenger_walking_link_tt (py::array_t<double> start_intervals)
 
 py::array_t<double>
 Mmdta::get_passenger_walking_link_tt_robust (
-  py::array_t<double> start_intervals, py::array_t<double> end_intervals,
+  carray_t<double> start_intervals, carray_t<double> end_intervals,
   int num_trials)
 {
   auto start_buf = start_intervals.request ();
@@ -5499,7 +5499,7 @@ Mmdta::get_passenger_walking_link_tt_robust (
 }
 
 py::array_t<double>
-Mmdta::get_bus_driving_link_tt_car (py::array_t<double> start_intervals,
+Mmdta::get_bus_driving_link_tt_car (carray_t<double> start_intervals,
                                     bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5562,8 +5562,8 @@ Mmdta::get_bus_driving_link_tt_car (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_driving_link_tt_car_robust (py::array_t<double> start_intervals,
-                                           py::array_t<double> end_intervals,
+Mmdta::get_bus_driving_link_tt_car_robust (carray_t<double> start_intervals,
+                                           carray_t<double> end_intervals,
                                            int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5649,7 +5649,7 @@ Mmdta::get_bus_driving_link_tt_car_robust (py::array_t<double> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_driving_link_tt_truck (py::array_t<double> start_intervals,
+Mmdta::get_bus_driving_link_tt_truck (carray_t<double> start_intervals,
                                       bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5712,7 +5712,7 @@ Mmdta::get_bus_driving_link_tt_truck (py::array_t<double> start_intervals,
 
 py::array_t<double>
 Mmdta::get_bus_driving_link_tt_truck_robust (
-  py::array_t<double> start_intervals, py::array_t<double> end_intervals,
+  carray_t<double> start_intervals, carray_t<double> end_intervals,
   int num_trials, bool return_inf)
 {
   auto start_buf = start_intervals.request ();
@@ -5797,7 +5797,7 @@ Mmdta::get_bus_driving_link_tt_truck_robust (
 }
 
 py::array_t<double>
-Mmdta::get_car_link_speed (py::array_t<double> start_intervals)
+Mmdta::get_car_link_speed (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5839,7 +5839,7 @@ Mmdta::get_car_link_speed (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_truck_link_speed (py::array_t<double> start_intervals)
+Mmdta::get_truck_link_speed (carray_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
   if (start_buf.ndim != 1)
@@ -5881,7 +5881,7 @@ Mmdta::get_truck_link_speed (py::array_t<double> start_intervals)
 }
 
 py::array_t<double>
-Mmdta::get_bus_link_speed (py::array_t<double> start_intervals, bool return_inf,
+Mmdta::get_bus_link_speed (carray_t<double> start_intervals, bool return_inf,
                            bool return_bus_time)
 {
   auto start_buf = start_intervals.request ();
@@ -5932,8 +5932,8 @@ Mmdta::get_bus_link_speed (py::array_t<double> start_intervals, bool return_inf,
 }
 
 py::array_t<double>
-Mmdta::get_link_car_inflow (py::array_t<int> start_intervals,
-                            py::array_t<int> end_intervals)
+Mmdta::get_link_car_inflow (carray_t<int> start_intervals,
+                            carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -5987,8 +5987,8 @@ Mmdta::get_link_car_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_link_truck_inflow (py::array_t<int> start_intervals,
-                              py::array_t<int> end_intervals)
+Mmdta::get_link_truck_inflow (carray_t<int> start_intervals,
+                              carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6042,8 +6042,8 @@ Mmdta::get_link_truck_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_link_bus_inflow (py::array_t<int> start_intervals,
-                            py::array_t<int> end_intervals)
+Mmdta::get_link_bus_inflow (carray_t<int> start_intervals,
+                            carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6097,8 +6097,8 @@ Mmdta::get_link_bus_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_busstop_bus_inflow (py::array_t<int> start_intervals,
-                               py::array_t<int> end_intervals)
+Mmdta::get_busstop_bus_inflow (carray_t<int> start_intervals,
+                               carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6153,8 +6153,8 @@ Mmdta::get_busstop_bus_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_link_bus_passenger_inflow (py::array_t<int> start_intervals,
-                                      py::array_t<int> end_intervals)
+Mmdta::get_link_bus_passenger_inflow (carray_t<int> start_intervals,
+                                      carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6210,8 +6210,8 @@ Mmdta::get_link_bus_passenger_inflow (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_link_walking_passenger_inflow (py::array_t<int> start_intervals,
-                                          py::array_t<int> end_intervals)
+Mmdta::get_link_walking_passenger_inflow (carray_t<int> start_intervals,
+                                          carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -6744,8 +6744,8 @@ Mmdta::get_enroute_and_queue_passenger_stats_agg ()
 }
 
 py::array_t<double>
-Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
-                                py::array_t<int> intervals)
+Mmdta::get_queue_veh_each_link (carray_t<int> useful_links,
+                                carray_t<int> intervals)
 {
   auto intervals_buf = intervals.request ();
   if (intervals_buf.ndim != 1)
@@ -6794,8 +6794,8 @@ Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
 }
 
 py::array_t<double>
-Mmdta::get_queue_passenger_each_link (py::array_t<int> useful_links,
-                                      py::array_t<int> intervals)
+Mmdta::get_queue_passenger_each_link (carray_t<int> useful_links,
+                                      carray_t<int> intervals)
 {
   auto intervals_buf = intervals.request ();
   if (intervals_buf.ndim != 1)
@@ -6935,8 +6935,8 @@ Mmdta::get_bus_stop_departure_num (int busstop_ID, double time)
 }
 
 py::array_t<double>
-Mmdta::get_car_dar_matrix_driving (py::array_t<int> start_intervals,
-                                   py::array_t<int> end_intervals)
+Mmdta::get_car_dar_matrix_driving (carray_t<int> start_intervals,
+                                   carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7023,8 +7023,8 @@ Mmdta::get_car_dar_matrix_driving (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_truck_dar_matrix_driving (py::array_t<int> start_intervals,
-                                     py::array_t<int> end_intervals)
+Mmdta::get_truck_dar_matrix_driving (carray_t<int> start_intervals,
+                                     carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7112,8 +7112,8 @@ Mmdta::get_truck_dar_matrix_driving (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_car_dar_matrix_pnr (py::array_t<int> start_intervals,
-                               py::array_t<int> end_intervals)
+Mmdta::get_car_dar_matrix_pnr (carray_t<int> start_intervals,
+                               carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7200,8 +7200,8 @@ Mmdta::get_car_dar_matrix_pnr (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_dar_matrix_bustransit_link (py::array_t<int> start_intervals,
-                                           py::array_t<int> end_intervals)
+Mmdta::get_bus_dar_matrix_bustransit_link (carray_t<int> start_intervals,
+                                           carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7287,8 +7287,8 @@ Mmdta::get_bus_dar_matrix_bustransit_link (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_bus_dar_matrix_driving_link (py::array_t<int> start_intervals,
-                                        py::array_t<int> end_intervals)
+Mmdta::get_bus_dar_matrix_driving_link (carray_t<int> start_intervals,
+                                        carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7373,8 +7373,8 @@ Mmdta::get_bus_dar_matrix_driving_link (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_dar_matrix_bustransit (py::array_t<int> start_intervals,
-                                            py::array_t<int> end_intervals)
+Mmdta::get_passenger_dar_matrix_bustransit (carray_t<int> start_intervals,
+                                            carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7499,8 +7499,8 @@ Mmdta::get_passenger_dar_matrix_bustransit (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_dar_matrix_pnr (py::array_t<int> start_intervals,
-                                     py::array_t<int> end_intervals)
+Mmdta::get_passenger_dar_matrix_pnr (carray_t<int> start_intervals,
+                                     carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7625,8 +7625,8 @@ Mmdta::get_passenger_dar_matrix_pnr (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_car_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
-                                            py::array_t<int> end_intervals)
+Mmdta::get_car_dar_matrix_bus_driving_link (carray_t<int> start_intervals,
+                                            carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7714,8 +7714,8 @@ Mmdta::get_car_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_truck_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
-                                              py::array_t<int> end_intervals)
+Mmdta::get_truck_dar_matrix_bus_driving_link (carray_t<int> start_intervals,
+                                              carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7805,7 +7805,7 @@ Mmdta::get_truck_dar_matrix_bus_driving_link (py::array_t<int> start_intervals,
 
 py::array_t<double>
 Mmdta::get_passenger_dar_matrix_bustransit_bus_link (
-  py::array_t<int> start_intervals, py::array_t<int> end_intervals)
+  carray_t<int> start_intervals, carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -7897,8 +7897,8 @@ Mmdta::get_passenger_dar_matrix_bustransit_bus_link (
 }
 
 py::array_t<double>
-Mmdta::get_passenger_dar_matrix_pnr_bus_link (py::array_t<int> start_intervals,
-                                              py::array_t<int> end_intervals)
+Mmdta::get_passenger_dar_matrix_pnr_bus_link (carray_t<int> start_intervals,
+                                              carray_t<int> end_intervals)
 {
   auto start_buf = start_intervals.request ();
   auto end_buf = end_intervals.request ();
@@ -8051,7 +8051,7 @@ Mmdta::get_passenger_dar_matrix_pnr_bus_link (py::array_t<int> start_intervals,
 // }
 
 py::array_t<double>
-Mmdta::get_car_ltg_matrix_driving (py::array_t<int> start_intervals,
+Mmdta::get_car_ltg_matrix_driving (carray_t<int> start_intervals,
                                    int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -8371,7 +8371,7 @@ Mmdta::get_car_ltg_matrix_driving (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_car_ltg_matrix_pnr (py::array_t<int> start_intervals,
+Mmdta::get_car_ltg_matrix_pnr (carray_t<int> start_intervals,
                                int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -8423,7 +8423,7 @@ Mmdta::get_car_ltg_matrix_pnr (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_truck_ltg_matrix_driving (py::array_t<int> start_intervals,
+Mmdta::get_truck_ltg_matrix_driving (carray_t<int> start_intervals,
                                      int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -8744,7 +8744,7 @@ Mmdta::get_truck_ltg_matrix_driving (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_ltg_matrix_bustransit (py::array_t<int> start_intervals,
+Mmdta::get_passenger_ltg_matrix_bustransit (carray_t<int> start_intervals,
                                             int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
@@ -8797,7 +8797,7 @@ Mmdta::get_passenger_ltg_matrix_bustransit (py::array_t<int> start_intervals,
 }
 
 py::array_t<double>
-Mmdta::get_passenger_ltg_matrix_pnr (py::array_t<int> start_intervals,
+Mmdta::get_passenger_ltg_matrix_pnr (carray_t<int> start_intervals,
                                      int threshold_timestamp)
 {
   // input: intervals in which the agents are released for each path, 1 min
diff --git a/macposts/_ext/tdsp.cpp b/macposts/_ext/tdsp.cpp
index 42f49ad..18ae2f2 100644
--- a/macposts/_ext/tdsp.cpp
+++ b/macposts/_ext/tdsp.cpp
@@ -5,6 +5,7 @@
 #include <unordered_map>
 #include <vector>
 
+#include "utils.h"
 #include <common.h>
 #include <io.h>
 #include <shortest_path.h>
@@ -28,14 +29,14 @@ public:
                         const std::string &link_cost_file_name = "td_link_cost",
                         const std::string &node_cost_file_name
                         = "td_node_cost");
-  int read_td_cost_py (py::array_t<double> td_link_tt_py,
-                       py::array_t<double> td_link_cost_py,
-                       py::array_t<double> td_node_tt_py,
-                       py::array_t<double> td_node_cost_py);
-  int read_td_link_cost (py::array_t<double> td_link_cost_py,
+  int read_td_cost_py (carray_t<double> td_link_tt_py,
+                       carray_t<double> td_link_cost_py,
+                       carray_t<double> td_node_tt_py,
+                       carray_t<double> td_node_cost_py);
+  int read_td_link_cost (carray_t<double> td_link_cost_py,
                          std::unordered_map<TInt, TFlt *> &td_link_cost);
   int read_td_node_cost (
-    py::array_t<double> td_node_cost_py,
+    carray_t<double> td_node_cost_py,
     std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> &td_node_cost);
 
   int build_tdsp_tree (int dest_node_ID);
@@ -163,10 +164,10 @@ Tdsp::read_td_cost_txt (const std::string &folder,
 }
 
 int
-Tdsp::read_td_cost_py (py::array_t<double> td_link_tt_py,
-                       py::array_t<double> td_link_cost_py,
-                       py::array_t<double> td_node_tt_py,
-                       py::array_t<double> td_node_cost_py)
+Tdsp::read_td_cost_py (carray_t<double> td_link_tt_py,
+                       carray_t<double> td_link_cost_py,
+                       carray_t<double> td_node_tt_py,
+                       carray_t<double> td_node_cost_py)
 {
   // external input with numpy array
   read_td_link_cost (td_link_tt_py, m_td_link_tt);
@@ -187,7 +188,7 @@ Tdsp::read_td_cost_py (py::array_t<double> td_link_tt_py,
 }
 
 int
-Tdsp::read_td_link_cost (py::array_t<double> td_link_cost_py,
+Tdsp::read_td_link_cost (carray_t<double> td_link_cost_py,
                          std::unordered_map<TInt, TFlt *> &td_link_cost)
 {
   auto start_buf = td_link_cost_py.request ();
@@ -230,7 +231,7 @@ Tdsp::read_td_link_cost (py::array_t<double> td_link_cost_py,
 
 int
 Tdsp::read_td_node_cost (
-  py::array_t<double> td_node_cost_py,
+  carray_t<double> td_node_cost_py,
   std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> &td_node_cost)
 {
   auto start_buf = td_node_cost_py.request ();
diff --git a/macposts/_ext/utils.h b/macposts/_ext/utils.h
index b45ddc4..5f0a359 100644
--- a/macposts/_ext/utils.h
+++ b/macposts/_ext/utils.h
@@ -4,6 +4,8 @@
 #include <algorithm>
 #include <random>
 
+#include <pybind11/numpy.h>
+
 namespace MNM_Ults
 {
 void set_random_state (unsigned int s);
@@ -16,6 +18,12 @@ static std::mt19937 rng;
 // FIXME: Upper bound for travel time (?).
 static const double TT_UPPER_BOUND = 20;
 
+// Array arguments. They are read through raw pointers, so they must be C
+// contiguous (slices and Fortran ordered arrays are copied).
+template <typename T>
+using carray_t = pybind11::array_t<T, pybind11::array::c_style
+                                        | pybind11::array::forcecast>;
+
 namespace utils
 {
 inline void
-- 
2.43.0


From 751cf89d3b95ed96759b9e8051de44e8f479a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:03 +0000
Subject: [PATCH 17/32] fix: cell capacities are per interval already when
 queues are compared with them

The capacity of a (single-class) cell is in vehicles per unit interval; the
marginal costs of the system optimum and the queue dissipation times multiplied
it by the unit time once more, so that a link was practically never found to be
at capacity.
---
 macposts/_ext/dta.cpp | 3 +--
 src/dso.cpp           | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 5857ae1..5eb129e 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1140,8 +1140,7 @@ Dta::get_link_queue_dissipated_time ()
                                 + 1)); // veh / 5s
                       TFlt _cap = dynamic_cast<MNM_Dlink_Ctm *> (_link)
                                     ->m_cell_array.back ()
-                                    ->m_flow_cap
-                                  * m_dta->m_unit_time; // veh / 5s
+                                    ->m_flow_cap; // veh / 5s
                       if (MNM_Ults::approximate_equal (_outflow_rate
                                                          * m_dta->m_flow_scalar,
                                                        floor (
diff --git a/src/dso.cpp b/src/dso.cpp
index 44b0428..c513cad 100644
--- a/src/dso.cpp
+++ b/src/dso.cpp
@@ -100,8 +100,7 @@ MNM_Dso::get_link_marginal_cost (MNM_Dta *dta)
                                                                          // / 5s
                   TFlt _cap = dynamic_cast<MNM_Dlink_Ctm *> (_link)
                                 ->m_cell_array.front ()
-                                ->m_flow_cap
-                              * dta->m_unit_time; // veh / 5s
+                                ->m_flow_cap; // veh / 5s
                   if (MNM_Ults::approximate_less_than (_inflow_rate
                                                          * dta->m_flow_scalar,
                                                        floor (
@@ -192,8 +191,7 @@ MNM_Dso::get_link_marginal_cost (MNM_Dta *dta)
                                                           + 1)); // veh / 5s
                           TFlt _cap = dynamic_cast<MNM_Dlink_Ctm *> (_link)
                                         ->m_cell_array.back ()
-                                        ->m_flow_cap
-                                      * dta->m_unit_time; // veh / 5s
+                                        ->m_flow_cap; // veh / 5s
                           if (MNM_Ults::
                                 approximate_equal (_outflow_rate
                                                      * dta->m_flow_scalar,
-- 
2.43.0


From d135ac5507e29b44882fc61038b8c6d8de22bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:03 +0000
Subject: [PATCH 18/32] fix: departure time choice compares disutilities, not
 costs taken for travel times

The best departure interval was chosen with the generalised cost (money) of the
route passed as its travel time (intervals) to the disutility.
---
 src/due.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index d4fa8ed..17e535b 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -493,10 +493,10 @@ MNM_Due_Msa::get_best_route (TInt o_node_ID, MNM_TDSP_Tree *tdsp_tree)
   TFlt _tmp_tt, _tmp_cost;
   for (int i = 0; i < tdsp_tree->m_max_interval; ++i)
     { // tdsp_tree -> m_max_interval = total_loading_interval
-      _tmp_tt
-        = tdsp_tree->m_dist[o_node_ID][i < (int) tdsp_tree->m_max_interval
-                                         ? i
-                                         : (int) tdsp_tree->m_max_interval - 1];
+      // the tree is built on link costs, the disutility needs the travel time
+      MNM_Path _tmp_path;
+      tdsp_tree->get_tdsp (o_node_ID, i, m_link_tt_map, &_tmp_path);
+      _tmp_tt = get_tt (TFlt (i), &_tmp_path);
       std::cout << "interval: " << i << ", tdsp_tt: " << _tmp_tt << "\n";
       _tmp_cost = get_disutility (TFlt (i), _tmp_tt);
       if (_tmp_cost < _cur_best_cost)
-- 
2.43.0


From 2a62ed6abeb3df362011334d80229c5e02d19aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 19/32] fix: a new path takes no more flow from the others than
 they have

With departure time choice, the flow given to a new path was taken from the
existing ones without looking at what they carry in that interval, which made
flows negative and the next loading fail (invalid probability).
---
 src/due.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index 17e535b..c3c520f 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -646,14 +646,17 @@ MNM_Due_Msa::update_path_table (MNM_Dta *dta, int iter)
 
               // Original
               _path->allocate_buffer (m_total_assign_inter);
-              _path->m_buffer[_best_assign_col]
-                += m_step_size / TFlt (iter + 1);
               _len = TFlt (_path_set->m_path_vec.size ());
               for (auto tmp_path : _path_set->m_path_vec)
                 {
-                  tmp_path->m_buffer[_best_assign_col]
-                    -= m_step_size / TFlt (iter + 1) / _len;
+                  // a path cannot give more than it has
+                  _tmp_change
+                    = std::min (tmp_path->m_buffer[_best_assign_col],
+                                m_step_size / TFlt (iter + 1) / _len);
+                  tmp_path->m_buffer[_best_assign_col] -= _tmp_change;
+                  _tot_change += _tmp_change;
                 }
+              _path->m_buffer[_best_assign_col] += _tot_change;
               _path_set->m_path_vec.push_back (_path);
 
               // Modified by Zou
-- 
2.43.0


From 1549ba0845d4cb8ead51af78bb5a73bf9793641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:02 +0000
Subject: [PATCH 20/32] fix: gradient projection moves flow, it does not create
 it

The best path may cost more than the average (its disutility has no tolls) and
carry nothing; what it cannot give was still added to the cheaper paths, so the
demand of the pair grew from iteration to iteration.
---
 src/due.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index c3c520f..c49985a 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -808,6 +808,7 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
   MNM_Path *_path;
   MNM_Pathset *_path_set;
   TFlt _tot_path_cost, _tmp_change, _tau, _tmp_tt, _tmp_cost, _min_flow;
+  TFlt _tot_give, _tot_take;
   bool _exist, _flg;
 
   // assume build_link_cost_map(dta) and update_path_table_cost(dta) are invoked
@@ -928,6 +929,24 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
                   continue;
                 }
               // printf("tau: %lf\n", _tau());
+              // what the more expensive paths give up, limited to what they
+              // carry, and what the cheaper paths ask for
+              _tot_give = 0.;
+              _tot_take = 0.;
+              for (auto _tmp_path : _path_set->m_path_vec)
+                {
+                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                    {
+                      _tmp_cost = _tmp_path->m_travel_disutility_vec[_col];
+                      _tmp_change
+                        = _tmp_cost - _tot_path_cost / _tot_nonzero_path;
+                      if (_tmp_change > 0)
+                        _tot_give += std::min (_tmp_path->m_buffer[_col],
+                                               _tau * _tmp_change);
+                      else
+                        _tot_take -= _tau * _tmp_change;
+                    }
+                }
               // flow adjustment
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
@@ -940,9 +959,13 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
                       _tmp_cost = _tmp_path->m_travel_disutility_vec[_col];
                       _tmp_change
                         = _tmp_cost - _tot_path_cost / _tot_nonzero_path;
-                      _tmp_path->m_buffer[_col]
-                        -= std::min (_tmp_path->m_buffer[_col],
-                                     _tau * _tmp_change);
+                      if (_tmp_change > 0)
+                        _tmp_path->m_buffer[_col]
+                          -= std::min (_tmp_path->m_buffer[_col],
+                                       _tau * _tmp_change);
+                      else if (_tot_take > 0)
+                        _tmp_path->m_buffer[_col]
+                          -= _tau * _tmp_change * (_tot_give / _tot_take);
                     }
                 }
               if (_exist)
-- 
2.43.0


From db193f6d4a927cfc0d687e4508d96c16c1ddab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:18 +0000
Subject: [PATCH 21/32] fix: link cost maps are as long as the loading they
 describe

---
 macposts/_ext/dta.cpp | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 5eb129e..b9226e5 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -184,25 +184,25 @@ Dta::~Dta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
 
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
@@ -1007,25 +1007,19 @@ Dta::build_link_cost_map (bool with_congestion_indicator)
     {
       // #pragma omp task
       _link = _link_it.second;
-      if (m_link_tt_map.find (_link_it.first) == m_link_tt_map.end ())
-        {
-          m_link_tt_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
-        }
-      if (m_link_cost_map.find (_link_it.first) == m_link_cost_map.end ())
-        {
-          m_link_cost_map[_link_it.first]
-            = new TFlt[get_cur_loading_interval ()];
-        }
+      // the length of the loading may differ from that of the last call
+      delete[] m_link_tt_map[_link_it.first];
+      m_link_tt_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
+      delete[] m_link_cost_map[_link_it.first];
+      m_link_cost_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
       if (with_congestion_indicator)
         {
           // std::cout << "car, interval: " << i << ", link: " << _link_it.first
           // << ", tt: " << m_link_tt_map[_link_it.first][i] << ", fftt: " <<
           // _link -> get_link_freeflow_tt_car() / m_unit_time << "\n";
-          if (m_link_congested.find (_link_it.first) == m_link_congested.end ())
-            {
-              m_link_congested[_link_it.first]
-                = new bool[get_cur_loading_interval ()];
-            }
+          delete[] m_link_congested[_link_it.first];
+          m_link_congested[_link_it.first]
+            = new bool[get_cur_loading_interval ()];
         }
 
       std::cout << "********************** build_link_cost_map link "
@@ -1070,12 +1064,8 @@ Dta::get_link_queue_dissipated_time ()
                "**********************\n";
   for (auto _link_it : m_dta->m_link_factory->m_link_map)
     {
-      if (m_queue_dissipated_time.find (_link_it.first)
-          == m_queue_dissipated_time.end ())
-        {
-          m_queue_dissipated_time[_link_it.first]
-            = new int[_total_loading_inter];
-        }
+      delete[] m_queue_dissipated_time[_link_it.first];
+      m_queue_dissipated_time[_link_it.first] = new int[_total_loading_inter];
       // std::cout << "********************** get_link_queue_dissipated_time
       // link " << _link_it.first << " **********************\n";
       for (int i = 0; i < _total_loading_inter; i++)
-- 
2.43.0


From 419cfc3c2d2f555de85cc8daa44593cc2f6cc1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:59 +0000
Subject: [PATCH 22/32] fix: comment lines of a path table buffer are skipped

---
 src/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.cpp b/src/io.cpp
index f716ab7..ef21f5e 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -871,7 +871,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   std::getline (_buffer_file, _buffer_line);
                   _buffer_line = trim (_buffer_line);
-                  if (!_line.empty () && _line[0] != '#')
+                  if (_buffer_line.empty () || _buffer_line[0] != '#')
                     {
                       break;
                     }
-- 
2.43.0


From 524cd66a6f06c5bac0e3da39e8a5283ccf382add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:00 +0000
Subject: [PATCH 23/32] fix: a path table that does not fit the network or ends
 early is refused

---
 src/io.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/io.cpp b/src/io.cpp
index ef21f5e..29a0a6c 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -858,7 +858,11 @@ MNM_IO::load_path_table (const std::string &file_name,
     {
       for (int i = 0; i < Num_Path;)
         {
-          std::getline (_path_table_file, _line);
+          if (!std::getline (_path_table_file, _line))
+            {
+              throw std::runtime_error ("path table file " + file_name
+                                        + " has fewer paths than expected");
+            }
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -912,6 +916,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   _from_ID = _path->m_node_vec[j];
                   _to_ID = _path->m_node_vec[j + 1];
+                  _link_ID = -1;
                   for (auto &&c : graph.connections (graph.get_node (_from_ID),
                                                      Direction::Outgoing))
                     {
@@ -922,6 +927,13 @@ MNM_IO::load_path_table (const std::string &file_name,
                           break;
                         }
                     };
+                  if (_link_ID == -1)
+                    {
+                      throw std::runtime_error (
+                        "path table file " + file_name + " has no link from "
+                        + std::to_string (_from_ID) + " to "
+                        + std::to_string (_to_ID));
+                    }
                   _path->m_link_vec.push_back (_link_ID);
                 }
 
-- 
2.43.0


From 0911691e0bbf15cd5a3434d59b1e37cafb5b5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:17 +0000
Subject: [PATCH 24/32] fix: paths covering a link at an origin or destination
 start or end there

---
 macposts/_ext/dta.cpp   | 25 ++++++++++++++-------
 macposts/_ext/mcdta.cpp | 50 ++++++++++++++++++++++++++++-------------
 2 files changed, 51 insertions(+), 24 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index b9226e5..096f6b5 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1477,14 +1477,23 @@ Dta::generate_paths_to_cover_registered_links ()
               for (auto _it_it : pair_ptrs_2)
                 {
                   _dest = _it_it.first;
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // an empty tree: the link starts (ends) at an origin
+                  // (destination) itself
+                  bool _from_ok
+                    = _shortest_path_tree.empty ()
+                        ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                        : _shortest_path_tree
+                              .find (_origin->m_origin_node->m_node_ID)
+                              ->second
+                            != -1;
+                  bool _to_ok
+                    = _shortest_path_tree_reversed.empty ()
+                        ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                        : _shortest_path_tree_reversed
+                              .find (_dest->m_dest_node->m_node_ID)
+                              ->second
+                            != -1;
+                  if (_from_ok && _to_ok)
                     {
                       _flg = true;
                       break;
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index bc92b0e..cd09cb4 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2595,14 +2595,23 @@ Mcdta::generate_paths_to_cover_registered_links ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // an empty tree: the link starts (ends) at an origin
+                  // (destination) itself
+                  bool _from_ok
+                    = _shortest_path_tree.empty ()
+                        ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                        : _shortest_path_tree
+                              .find (_origin->m_origin_node->m_node_ID)
+                              ->second
+                            != -1;
+                  bool _to_ok
+                    = _shortest_path_tree_reversed.empty ()
+                        ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                        : _shortest_path_tree_reversed
+                              .find (_dest->m_dest_node->m_node_ID)
+                              ->second
+                            != -1;
+                  if (_from_ok && _to_ok)
                     {
                       _flg = true;
                       break;
@@ -2832,14 +2841,23 @@ Mcdta::generate_paths_to_cover_links (carray_t<int> links, int max_iter)
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  // an empty tree: the link starts (ends) at an origin
+                  // (destination) itself
+                  bool _from_ok
+                    = _shortest_path_tree.empty ()
+                        ? _origin->m_origin_node->m_node_ID == _from_node_ID
+                        : _shortest_path_tree
+                              .find (_origin->m_origin_node->m_node_ID)
+                              ->second
+                            != -1;
+                  bool _to_ok
+                    = _shortest_path_tree_reversed.empty ()
+                        ? _dest->m_dest_node->m_node_ID == _to_node_ID
+                        : _shortest_path_tree_reversed
+                              .find (_dest->m_dest_node->m_node_ID)
+                              ->second
+                            != -1;
+                  if (_from_ok && _to_ok)
                     {
                       _flg = true;
                       break;
-- 
2.43.0


From 8b950c7e0193dd5176585c81a922a04482933411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:17 +0000
Subject: [PATCH 25/32] fix: generate_paths_to_cover_links covers the links it
 is given

---
 macposts/_ext/mcdta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index cd09cb4..22ab4f7 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2768,7 +2768,7 @@ Mcdta::generate_paths_to_cover_links (carray_t<int> links, int max_iter)
   for (int i = 0; i < num_links; ++i)
     {
       // generate new path including this link
-      auto &&sd = m_mcdta->m_graph.get_endpoints (m_link_vec[i]->m_link_ID);
+      auto &&sd = m_mcdta->m_graph.get_endpoints (links_ptr[i]);
       _from_node_ID = m_mcdta->m_graph.get_id (sd.first);
       _to_node_ID = m_mcdta->m_graph.get_id (sd.second);
 
-- 
2.43.0


From dc6c78033d812ea8bf9840b588531c3685809bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:58 +0000
Subject: [PATCH 26/32] fix: CTM link flow counts the vehicles waiting at the
 link end once

The volume of the last cell already includes the finished vehicles.  The
recorded link volumes, the travel times and the emissions derived from
the link flow counted them twice.
---
 src/dlink.cpp      |  1 -
 src/multiclass.cpp | 20 +-------------------
 2 files changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 247b513..39cc660 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -399,7 +399,6 @@ MNM_Dlink_Ctm::get_link_flow ()
     {
       _total_volume += m_cell_array[i]->m_volume;
     }
-  _total_volume += m_finished_array.size ();
   return TFlt (_total_volume) / m_flow_scalar;
 }
 
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 5e71229..ee9bca6 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -876,14 +876,6 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_car ()
     {
       _total_volume_car += m_cell_array[i]->m_volume_car;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 0)
-        _total_volume_car += 1;
-    }
   return TFlt (_total_volume_car) / m_flow_scalar;
 }
 
@@ -895,14 +887,6 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_truck ()
     {
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 1)
-        _total_volume_truck += 1;
-    }
   return TFlt (_total_volume_truck) / m_flow_scalar;
 }
 
@@ -995,9 +979,7 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow ()
       _total_volume_car += m_cell_array[i]->m_volume_car;
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  return TFlt (_total_volume_car + _total_volume_truck
-               + m_finished_array.size ())
-         / m_flow_scalar;
+  return TFlt (_total_volume_car + _total_volume_truck) / m_flow_scalar;
 }
 
 TFlt
-- 
2.43.0


From 91fe981d43c47f12c2a26cee9a0d6bacb415218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:11 +0000
Subject: [PATCH 27/32] fix: multiclass link-queue travel time compares
 whole-link densities

m_k_j and m_k_C are densities over all lanes; the flow was divided by the
number of lanes once more, so links with several lanes never appeared
congested.
---
 src/multiclass.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index ee9bca6..7211c75 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1892,10 +1892,9 @@ MNM_Dlink_Lq_Multiclass::get_link_tt ()
 {
   // For adaptive routing and emissions, need modification for multiclass cases
   TFlt _cost, _spd;
-  TFlt _rho = get_link_flow () / m_number_of_lane
-              / m_length; // get the density in veh/mile
-  TFlt _rhoj = m_k_j_car; // get the jam density
-  TFlt _rhok = m_k_C_car; // get the critical density
+  TFlt _rho = get_link_flow () / m_length; // get the density in veh/m
+  TFlt _rhoj = m_k_j_car;                  // get the jam density of all lanes
+  TFlt _rhok = m_k_C_car; // get the critical density of all lanes
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
   if (_rho >= _rhoj)
     {
@@ -1922,9 +1921,9 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_car (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
-  TFlt _rhoj = m_k_j_car;                         // get the jam density
-  TFlt _rhok = m_k_C_car;                         // get the critical density
+  TFlt _rho = flow / m_length; // get the density in veh/m
+  TFlt _rhoj = m_k_j_car;      // get the jam density of all lanes
+  TFlt _rhok = m_k_C_car;      // get the critical density of all lanes
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
   if (_rho >= _rhoj)
     {
@@ -1951,9 +1950,9 @@ TFlt
 MNM_Dlink_Lq_Multiclass::get_link_tt_from_flow_truck (TFlt flow)
 {
   TFlt _cost, _spd;
-  TFlt _rho = flow / m_number_of_lane / m_length; // get the density in veh/mile
-  TFlt _rhoj = m_k_j_truck;                       // get the jam density
-  TFlt _rhok = m_k_C_truck;                       // get the critical density
+  TFlt _rho = flow / m_length; // get the density in veh/m
+  TFlt _rhoj = m_k_j_truck;    // get the jam density of all lanes
+  TFlt _rhok = m_k_C_truck;    // get the critical density of all lanes
   //  if (abs(rho - rhok) <= 0.0001) cost = POS_INF_INT;
   if (_rho >= _rhoj)
     {
-- 
2.43.0


From ec2414729e244de2efeb6f57d391e72addff23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:15 +0000
Subject: [PATCH 28/32] fix: multiclass trip counts identify vehicles by ID

Vehicles are deleted when they arrive and their memory is reused, so
counting distinct addresses lost trips.
---
 src/multiclass.cpp | 8 ++++----
 src/multiclass.h   | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 7211c75..f9cdb79 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -5992,8 +5992,8 @@ MNM_Cumulative_Emission_Multiclass::MNM_Cumulative_Emission_Multiclass (
 
   m_ev_label_truck = ev_label_truck;
 
-  m_car_set = std::unordered_set<MNM_Veh *> ();
-  m_truck_set = std::unordered_set<MNM_Veh *> ();
+  m_car_set = std::unordered_set<int> ();
+  m_truck_set = std::unordered_set<int> ();
 }
 
 MNM_Cumulative_Emission_Multiclass::~MNM_Cumulative_Emission_Multiclass () { ; }
@@ -6178,11 +6178,11 @@ MNM_Cumulative_Emission_Multiclass::update (MNM_Veh_Factory *veh_factory)
         {
           if (_veh_multiclass->m_class == 0)
             {
-              m_car_set.insert (_veh_multiclass);
+              m_car_set.insert (_veh_multiclass->m_veh_ID);
             }
           if (_veh_multiclass->m_class == 1)
             {
-              m_truck_set.insert (_veh_multiclass);
+              m_truck_set.insert (_veh_multiclass->m_veh_ID);
             }
         }
     }
diff --git a/src/multiclass.h b/src/multiclass.h
index 7818c79..403877a 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -790,8 +790,9 @@ public:
 
   TInt m_ev_label_truck;
 
-  std::unordered_set<MNM_Veh *> m_car_set;
-  std::unordered_set<MNM_Veh *> m_truck_set;
+  // by vehicle ID: vehicles are deleted when they arrive
+  std::unordered_set<int> m_car_set;
+  std::unordered_set<int> m_truck_set;
 };
 
 /******************************************************************************************************************
-- 
2.43.0


From ae14efafe3b93b2ea30da8846662db601eeffc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:53 +0000
Subject: [PATCH 29/32] fix: time-dependent link tolls keep their fraction

---
 src/io.cpp         | 2 +-
 src/multiclass.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 29a0a6c..8baaf5b 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -760,7 +760,7 @@ MNM_IO::build_link_td_attribute (const std::string &file_folder,
               _lane_hold_cap = TFlt (
                 std::stod (_words[6])); // jam density (vehicles/mile/lane)
               _number_of_lane = TInt (std::stoi (_words[7]));
-              _toll = TFlt (std::stoi (_words[8]));
+              _toll = TFlt (std::stod (_words[8]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index f9cdb79..3617437 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4262,7 +4262,7 @@ MNM_IO_Multiclass::build_link_td_attribute (const std::string &file_folder,
               _lane_flow_cap_truck = TFlt (std::stod (_words[9]));
               _lane_hold_cap_truck = TFlt (std::stod (_words[10]));
               _veh_convert_factor = TFlt (std::stod (_words[11]));
-              _toll = TFlt (std::stoi (_words[12]));
+              _toll = TFlt (std::stod (_words[12]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
-- 
2.43.0


From e2b5a50ed0b84ebc3eb399627e03ea32a5be77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:01 +0000
Subject: [PATCH 30/32] fix: car/truck cell jammed by one class takes nothing
 of the other above jam density

---
 src/multiclass.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 3617437..3228d1f 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1245,8 +1245,10 @@ MNM_Dlink_Ctm_Multiclass::Ctm_Cell_Multiclass::update_perceived_density ()
           _space_fraction_car = 1;
           _space_fraction_truck = 0;
           // this case same speed (u) for both private cars and trucks
+          // (at rest above jam density)
           TFlt _u
-            = (m_hold_cap_car - _density_car) * m_wave_speed_car / _density_car;
+            = std::max (TFlt (0.0), TFlt ((m_hold_cap_car - _density_car)
+                                          * m_wave_speed_car / _density_car));
           m_perceived_density_truck = (m_hold_cap_truck * m_wave_speed_truck)
                                       / (_u + m_wave_speed_truck);
         }
@@ -1257,8 +1259,10 @@ MNM_Dlink_Ctm_Multiclass::Ctm_Cell_Multiclass::update_perceived_density ()
           _space_fraction_car = 0;
           _space_fraction_truck = 1;
           // this case same speed (u) for both private cars and trucks
-          TFlt _u = (m_hold_cap_truck - _density_truck) * m_wave_speed_truck
-                    / _density_truck;
+          // (at rest above jam density)
+          TFlt _u = std::max (TFlt (0.0),
+                              TFlt ((m_hold_cap_truck - _density_truck)
+                                    * m_wave_speed_truck / _density_truck));
           m_perceived_density_car
             = (m_hold_cap_car * m_wave_speed_car) / (_u + m_wave_speed_car);
         }
-- 
2.43.0


From be8a0bd4f886c14faba0c7a3c0dc4bc957a074aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:31 +0000
Subject: [PATCH 31/32] fix: input files with fewer rows than announced, or no
 demand file, are refused

The readers of the node, link, O-D, graph and demand files ignore the result
of std::getline while they count rows, so a file with fewer rows than the
configuration announces (or a missing graph file) is read forever. A missing
demand file is taken for no demand at all.
---
 src/io.cpp         | 38 ++++++++++++++++++++++++++++----------
 src/multiclass.cpp | 18 +++++++++++++++---
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 8baaf5b..2d35740 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -28,7 +28,8 @@ MNM_IO::build_node_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_node;)
         {
-          std::getline (_node_file, _line);
+          if (!std::getline (_node_file, _line))
+            throw std::runtime_error ("node file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -109,7 +110,8 @@ MNM_IO::build_link_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_link;)
         {
-          std::getline (_link_file, _line);
+          if (!std::getline (_link_file, _line))
+            throw std::runtime_error ("link file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -209,7 +211,8 @@ MNM_IO::build_od_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("OD file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -235,7 +238,8 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("OD file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -288,7 +292,8 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("OD file has fewer rows than expected");
           _words = split (_line, ' ');
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
@@ -313,7 +318,8 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("OD file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -366,7 +372,8 @@ MNM_IO::build_od_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("OD file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -386,7 +393,8 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          if (!std::getline (_od_file, _line))
+            throw std::runtime_error ("OD file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -554,7 +562,8 @@ MNM_IO::build_graph (const std::string &file_folder,
   std::vector<std::string> _words;
   for (int i = 0; i < _num_of_link;)
     {
-      std::getline (_graph_file, _line);
+      if (!std::getline (_graph_file, _line))
+        throw std::runtime_error ("graph file has fewer rows than expected");
       _line = MNM_IO::trim (_line);
       if (_line.empty () || _line[0] == '#')
         {
@@ -619,7 +628,12 @@ MNM_IO::build_demand (const std::string &file_folder,
       double *_demand_vector = new double[_max_interval]();
       for (int i = 0; i < _num_OD;)
         {
-          std::getline (_demand_file, _line);
+          if (!std::getline (_demand_file, _line))
+            {
+              delete[] _demand_vector;
+              throw std::runtime_error (
+                "demand file has fewer rows than expected");
+            }
           // std::cout << "Processing: " << _line << "\n";
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
@@ -651,6 +665,10 @@ MNM_IO::build_demand (const std::string &file_folder,
       delete[] _demand_vector;
       _demand_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open demand file");
+    }
   return 0;
 }
 
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 3228d1f..d4fba12 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3636,7 +3636,8 @@ MNM_IO_Multiclass::build_node_factory_multiclass (
     {
       for (int i = 0; i < _num_of_node;)
         {
-          std::getline (_node_file, _line);
+          if (!std::getline (_node_file, _line))
+            throw std::runtime_error ("node file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -3723,7 +3724,8 @@ MNM_IO_Multiclass::build_link_factory_multiclass (
     {
       for (int i = 0; i < _num_of_link;)
         {
-          std::getline (_link_file, _line);
+          if (!std::getline (_link_file, _line))
+            throw std::runtime_error ("link file has fewer rows than expected");
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -3858,7 +3860,13 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
 
       for (int i = 0; i < _num_OD;)
         {
-          std::getline (_demand_file, _line);
+          if (!std::getline (_demand_file, _line))
+            {
+              delete[] _demand_vector_car;
+              delete[] _demand_vector_truck;
+              throw std::runtime_error (
+                "demand file has fewer rows than expected");
+            }
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             continue;
@@ -3944,6 +3952,10 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
       delete[] _demand_vector_truck;
       _demand_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open demand file");
+    }
   return 0;
 }
 
-- 
2.43.0


From 39b81907884c05dc88a884b6856950d6fe34b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:14 +0000
Subject: [PATCH 32/32] fix: origins and destinations at nodes of another kind
 are refused

The readers of the O-D file cast the node a row names to an origin
(destination) node whatever its type is and write through the pointer, so a
row naming a junction corrupts memory.
---
 src/io.cpp | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 2d35740..62529bd 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -229,10 +229,13 @@ MNM_IO::build_od_factory (const std::string &file_folder,
                                                  _flow_scalar, _frequency);
 
               /* hook up */
-              _origin->m_origin_node
-                = (MNM_DMOND *) node_factory->get_node (_node_ID);
-              ((MNM_DMOND *) node_factory->get_node (_node_ID))
-                ->hook_up_origin (_origin);
+              MNM_DMOND *_origin_node = dynamic_cast<MNM_DMOND *> (
+                node_factory->get_node (_node_ID));
+              if (_origin_node == nullptr)
+                throw std::runtime_error ("not an origin node: "
+                                          + std::to_string (_node_ID));
+              _origin->m_origin_node = _origin_node;
+              _origin_node->hook_up_origin (_origin);
             }
         }
 
@@ -255,10 +258,13 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               _dest = od_factory->make_destination (_dest_ID);
               _dest->m_flow_scalar = _flow_scalar;
               /* hook up */
-              _dest->m_dest_node
-                = (MNM_DMDND *) node_factory->get_node (_node_ID);
-              ((MNM_DMDND *) node_factory->get_node (_node_ID))
-                ->hook_up_destination (_dest);
+              MNM_DMDND *_dest_node = dynamic_cast<MNM_DMDND *> (
+                node_factory->get_node (_node_ID));
+              if (_dest_node == nullptr)
+                throw std::runtime_error ("not a destination node: "
+                                          + std::to_string (_node_ID));
+              _dest->m_dest_node = _dest_node;
+              _dest_node->hook_up_destination (_dest);
             }
         }
     }
@@ -309,10 +315,13 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
               _origin = od_factory->get_origin (_origin_ID);
 
               /* hook up */
-              _origin->m_origin_node
-                = (MNM_DMOND *) node_factory->get_node (_node_ID);
-              ((MNM_DMOND *) node_factory->get_node (_node_ID))
-                ->hook_up_origin (_origin);
+              MNM_DMOND *_origin_node = dynamic_cast<MNM_DMOND *> (
+                node_factory->get_node (_node_ID));
+              if (_origin_node == nullptr)
+                throw std::runtime_error ("not an origin node: "
+                                          + std::to_string (_node_ID));
+              _origin->m_origin_node = _origin_node;
+              _origin_node->hook_up_origin (_origin);
             }
         }
 
@@ -335,10 +344,13 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
               _dest = od_factory->get_destination (_dest_ID);
 
               /* hook up */
-              _dest->m_dest_node
-                = (MNM_DMDND *) node_factory->get_node (_node_ID);
-              ((MNM_DMDND *) node_factory->get_node (_node_ID))
-                ->hook_up_destination (_dest);
+              MNM_DMDND *_dest_node = dynamic_cast<MNM_DMDND *> (
+                node_factory->get_node (_node_ID));
+              if (_dest_node == nullptr)
+                throw std::runtime_error ("not a destination node: "
+                                          + std::to_string (_node_ID));
+              _dest->m_dest_node = _dest_node;
+              _dest_node->hook_up_destination (_dest);
             }
         }
     }
-- 
2.43.0


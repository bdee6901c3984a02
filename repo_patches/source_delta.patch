From 002f4f4bc06590e183304f21eb65981ce0e46a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 01/26] fix: keep order and s of geometries when a plan view is
 placed from its end

---
 pyodrx/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0ab0729..5474808 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -280,6 +280,10 @@ class PlanView():
                 lengths.append(partial_length)
                 self._adjusted_geometries.append(newgeom)                  
 
+            # the geometries were visited backwards, restore the order in which they were added
+            self._adjusted_geometries.reverse()
+            lengths.reverse()
+
             self.x_start = self.present_x
             self.y_start = self.present_y
             self.h_start = self.present_h + np.pi
@@ -289,7 +293,7 @@ class PlanView():
              
             for i in range(len(self._raw_geometries)):
 
-                newgeom.set_s(self.present_s)
+                self._adjusted_geometries[i].set_s(self.present_s)
                 self.present_s += lengths[i]  
 
         self.adjusted = True
-- 
2.43.0


From eddeb121dacf239aaca45521aa83e69e3c1fdcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 02/26] fix: report the end of the road as its end point when
 it was placed from its end

---
 pyodrx/geometry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 5474808..924c274 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -296,6 +296,11 @@ class PlanView():
                 self._adjusted_geometries[i].set_s(self.present_s)
                 self.present_s += lengths[i]  
 
+            # the next geometry would be added at the end of the road
+            self.present_x = self.x_end
+            self.present_y = self.y_end
+            self.present_h = self.h_end
+
         self.adjusted = True
 
     def get_total_length(self):
-- 
2.43.0


From 671b5b85cb5d59cdb067480148d9f9b11a872254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 03/26] fix: compute the start of a ParamPoly3 from its end in
 the frame of its start

---
 pyodrx/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 924c274..aa2ae1d 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -852,9 +852,10 @@ class ParamPoly3():
         newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
         newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3
 
-        new_x = x - (newu*np.cos(h)-np.sin(h)*newv)
-        new_y = y - (newu*np.sin(h)+np.cos(h)*newv)
+        # h points backwards along the geometry, so does the returned heading
         new_h = h - np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)
+        new_x = x + newu*np.cos(new_h)-np.sin(new_h)*newv
+        new_y = y + newu*np.sin(new_h)+np.cos(new_h)*newv
 
         return new_x, new_y, new_h, self.length
     def get_end_data(self,x,y,h):
-- 
2.43.0


From 82ea81129d5d5f9b6dc0e83145a41569906d8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 04/26] fix: let an arc given by its angle turn the same way on
 every computation

---
 pyodrx/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index aa2ae1d..61aad5a 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -589,6 +589,9 @@ class Arc():
         if curvature == 0:
             raise ValueError('You are creating a straight line, please use Line instead')
         self.curvature = curvature
+        if self.length is None:
+            # the extent follows from the angle, the turning direction from the curvature
+            self.length = abs(self.angle/self.curvature)
 
     def get_end_data(self,x,y,h):
         """ Returns information about the end point of the geometry
-- 
2.43.0


From 4db39b526f2b993677076c3f5a047a28293aa611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 05/26] fix: give a spiral defined by its angle the length that
 turns by that angle

---
 pyodrx/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 61aad5a..501b2a4 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -460,7 +460,7 @@ class Spiral():
         if sum([x!=None for x in [length,angle,cdot]]) > 1:
             raise ToManyOptionalArguments('Spiral is overdefined, please use only one of the optional inputs')
         if angle:
-            self.length = 2*abs(angle)/np.maximum(abs(curvend),abs(curvstart))
+            self.length = 2*abs(angle)/abs(curvend + curvstart)
 
         elif cdot:
             self.length =  (self.curvend - self.curvstart) / cdot
-- 
2.43.0


From 29e5ce1fd50f1c9fac7e34a2c7811eda9024fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 06/26] fix: do not look up a junction link among the roads
 when adjusting

---
 pyodrx/opendrive.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 39f0fc6..1a0dc48 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -501,8 +501,8 @@ class OpenDrive():
 
                     # check if it has a normal (road) predecessor 
                     if self.roads[k].predecessor is not None and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True and \
-                        self.roads[k].predecessor.element_type is not ElementType.junction: 
+                        self.roads[k].predecessor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -510,7 +510,7 @@ class OpenDrive():
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[k].successor.element_type is not ElementType.junction and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
                             succ_id = self.roads[k].successor.element_id
                             print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                                 format(succ_id, self.roads[k].road_type, self.roads[k].id))
@@ -522,8 +522,8 @@ class OpenDrive():
 
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True and \
-                        self.roads[k].successor.element_type is not ElementType.junction: 
+                        self.roads[k].successor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
@@ -531,7 +531,7 @@ class OpenDrive():
                                                     self.roads[k].successor.contact_point, 'successor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[k].predecessor.element_type is not ElementType.junction and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
                             pred_id = self.roads[k].predecessor.element_id
                             print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                                 format(pred_id, self.roads[k].road_type, self.roads[k].id))
-- 
2.43.0


From 6a1474b86b6f9106795d9b2043520b75b1f1f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 07/26] fix: let every placed connecting road place the roads
 it connects

---
 pyodrx/opendrive.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 1a0dc48..57ad2cf 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -540,6 +540,16 @@ class OpenDrive():
                             else:
                                 self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
                             count_adjusted_roads +=1
+
+                # a connecting road that was placed otherwise (fixed, first or as a neighbour) also places the roads it connects
+                if self.roads[k].planview.adjusted is True and self.roads[k].road_type != -1:
+                    for link, contact_point in [(self.roads[k].predecessor, ContactPoint.start), (self.roads[k].successor, ContactPoint.end)]:
+                        if link is not None and link.element_type is not ElementType.junction and self.roads[str(link.element_id)].planview.adjusted is False:
+                            if link.contact_point == ContactPoint.start:
+                                self.adjust_road_wrt_neighbour(link.element_id, k, contact_point, 'predecessor')
+                            else:
+                                self.adjust_road_wrt_neighbour(link.element_id, k, contact_point, 'successor')
+                            count_adjusted_roads +=1
             
             count_total_adjusted_roads += count_adjusted_roads
 
-- 
2.43.0


From a2429ddb6ccdbcb922e2c9cd37a72185b7102f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 08/26] fix: apply a connecting road's lane offset to the road
 it places

---
 pyodrx/opendrive.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 57ad2cf..8961357 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -409,7 +409,7 @@ class OpenDrive():
             create_lane_links(self.roads[results[r][0]],self.roads[results[r][1]])  
 
 
-    def adjust_road_wrt_neighbour(self, road_id, neighbour_id, contact_point, neighbour_type):
+    def adjust_road_wrt_neighbour(self, road_id, neighbour_id, contact_point, neighbour_type, lane_offset=None):
         """ Adjust geometries of road[road_id] taking as a successor/predecessor the neighbouring road with id neighbour_id.
             NB Passing the type of contact_point is necessary because we call this function also on roads connecting to 
             to a junction road (which means that the road itself do not know the contact point of the junction road it connects to)
@@ -425,6 +425,8 @@ class OpenDrive():
             
             neighbour_type(str): 'successor'/'predecessor' type of linking to the neighbouring road
 
+            lane_offset(int): number of lanes roads[road_id] is displaced sideways
+                Default: the lane offset of its own link
 
         """
 
@@ -437,7 +439,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_pred
+            num_lane_offsets = main_road.lane_offset_pred if lane_offset is None else lane_offset
             x = -num_lane_offsets*3*np.sin(h) + x
             y = num_lane_offsets*3*np.cos(h) + y
 
@@ -451,7 +453,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_suc
+            num_lane_offsets = main_road.lane_offset_suc if lane_offset is None else lane_offset
             x = num_lane_offsets*3*np.sin(h) + x
             y = -num_lane_offsets*3*np.cos(h) + y
             main_road.planview.set_start_point(x,y,h)
@@ -515,9 +517,9 @@ class OpenDrive():
                             print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                                 format(succ_id, self.roads[k].road_type, self.roads[k].id))
                             if self.roads[k].successor.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'predecessor')
+                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'predecessor', -self.roads[k].lane_offset_suc)
                             else:
-                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'successor')
+                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'successor', self.roads[k].lane_offset_suc)
                             count_adjusted_roads +=1
 
                     # check if geometry has a normal (road) successor 
@@ -536,19 +538,19 @@ class OpenDrive():
                             print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                                 format(pred_id, self.roads[k].road_type, self.roads[k].id))
                             if self.roads[k].predecessor.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'predecessor')
+                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'predecessor', self.roads[k].lane_offset_pred)
                             else:
-                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
+                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor', -self.roads[k].lane_offset_pred)
                             count_adjusted_roads +=1
 
                 # a connecting road that was placed otherwise (fixed, first or as a neighbour) also places the roads it connects
                 if self.roads[k].planview.adjusted is True and self.roads[k].road_type != -1:
-                    for link, contact_point in [(self.roads[k].predecessor, ContactPoint.start), (self.roads[k].successor, ContactPoint.end)]:
+                    for link, contact_point, offset in [(self.roads[k].predecessor, ContactPoint.start, -self.roads[k].lane_offset_pred), (self.roads[k].successor, ContactPoint.end, self.roads[k].lane_offset_suc)]:
                         if link is not None and link.element_type is not ElementType.junction and self.roads[str(link.element_id)].planview.adjusted is False:
                             if link.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(link.element_id, k, contact_point, 'predecessor')
+                                self.adjust_road_wrt_neighbour(link.element_id, k, contact_point, 'predecessor', -offset)
                             else:
-                                self.adjust_road_wrt_neighbour(link.element_id, k, contact_point, 'successor')
+                                self.adjust_road_wrt_neighbour(link.element_id, k, contact_point, 'successor', offset)
                             count_adjusted_roads +=1
             
             count_total_adjusted_roads += count_adjusted_roads
-- 
2.43.0


From aff36291995d3e28fb82caf511d3f244c9444403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 09/26] fix: compare road ids by their text when linking lanes,
 as the links are exported

---
 pyodrx/generators.py |  2 +-
 pyodrx/links.py      | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fa50d33..fd85442 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -386,5 +386,5 @@ def get_road_by_id(roads,id):
             Road
     """
     for r in roads:
-        if r.id == id:
+        if str(r.id) == str(id):
             return r
\ No newline at end of file
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5f3bfce..9b53389 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -438,7 +438,7 @@ def are_roads_consecutive(road1, road2):
 
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
-            if road1.successor.element_id == road2.id and road2.predecessor.element_id == road1.id: 
+            if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
                 return True 
 
     return False
@@ -532,7 +532,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and road.successor.element_id == connected_road.id:
+    if road.successor and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -540,7 +540,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and road.predecessor.element_id == connected_road.id:
+    elif road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
@@ -550,14 +550,14 @@ def _get_related_lanesection(road,connected_road):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if connected_road.predecessor.element_id == road.id:
+        if str(connected_road.predecessor.element_id) == str(road.id):
             if connected_road.predecessor.link_type == ContactPoint.start:
                 road_lanesection_id = -1
                 sign = -1
             else:
                 road_lanesection_id = 0
                 sign = 1
-        elif connected_road.successor.element_id == road.id:
+        elif str(connected_road.successor.element_id) == str(road.id):
             if connected_road.predecessor.link_type == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
-- 
2.43.0


From a7db55abe80c2b9e738c4062f7f7b41effb7254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 10/26] fix: compare the lanes of the touching sections of
 consecutive roads

---
 pyodrx/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 9b53389..5d4562c 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -578,7 +578,7 @@ def _create_links_roads(pre_road,suc_road):
     """
     pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
     suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[-1].leftlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
             print(linkid)
@@ -590,7 +590,7 @@ def _create_links_roads(pre_road,suc_road):
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
 
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
             pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].add_link(pre_linktype,linkid)
-- 
2.43.0


From 702827613d52d1c2feda1b5a6df6710b1f745102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 11/26] fix: link the lanes of two roads that form a ring at
 both of their joints

---
 pyodrx/links.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5d4562c..93cace7 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -458,7 +458,8 @@ def create_lane_links(road1,road2):
         #both are roads
         if are_roads_consecutive(road1, road2): 
             _create_links_roads(road1,road2)
-        elif are_roads_consecutive(road2, road1): 
+        # two roads that form a ring are consecutive both ways
+        if are_roads_consecutive(road2, road1): 
             _create_links_roads(road2,road1)
 
     # if road1.road_type == -1 and road2.road_type == -1:
@@ -576,8 +577,9 @@ def _create_links_roads(pre_road,suc_road):
             suc_road (Road): the successor road
 
     """
-    pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
-    suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
+    # the last section of the predecessor touches the first section of the successor
+    pre_linktype, pre_sign, pre_connecting_lanesec = 'successor', 1, -1
+    suc_linktype, suc_connecting_lanesec = 'predecessor', 0
     if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
-- 
2.43.0


From 7523f59d7043925eb1836002e2590176128f04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 12/26] fix: link each lane of a connecting road to the lane it
 continues

The contacting section was looked up with the link type instead of the contact
point and used to index the lanes of the other road, reversed roads were
expected to have the lanes of the connecting road on the same side, and the
offset was applied towards the wrong side of a reversed road.
---
 pyodrx/links.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 93cace7..0dafe10 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -487,28 +487,28 @@ def _create_links_connecting_road(connecting,road):
 
     """
     linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
 
+    # a lane continues in the lane at the same lateral position, which is on the opposite side if the road is reversed (sign is -1)
     if connecting_lanesec != None:
         if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
             # do left lanes
-            for i in range(len(connecting.lanes.lanesections[road_lanesection_id].leftlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].leftlanes[i].lane_id*sign
+            for i in range(len(connecting.lanes.lanesections[connecting_lanesec].leftlanes)):
+                linkid = connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].lane_id
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
                     linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].add_link(linktype,linkid)
+                connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].add_link(linktype,linkid*sign)
             
         if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
             # do right lanes
             for i in range(len(connecting.lanes.lanesections[connecting_lanesec].rightlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].rightlanes[i].lane_id*sign
+                linkid = connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].lane_id
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
                     linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid)
+                connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid*sign)
 
 
 def _get_related_lanesection(road,connected_road):
@@ -549,22 +549,6 @@ def _get_related_lanesection(road,connected_road):
             sign = 1
         road_lanesection_id = 0
 
-    if connected_road.road_type != -1:
-        # treat connecting road in junction differently 
-        if str(connected_road.predecessor.element_id) == str(road.id):
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = -1
-                sign = -1
-            else:
-                road_lanesection_id = 0
-                sign = 1
-        elif str(connected_road.successor.element_id) == str(road.id):
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = 0
-                sign = 1
-            else:
-                road_lanesection_id = -1
-                sign = -1
     return linktype, sign, road_lanesection_id
 
 def _create_links_roads(pre_road,suc_road):
-- 
2.43.0


From 1cedc9335ecb44a34e475368eecb2ab9db866d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 13/26] fix: let create_road accept geometries whose length is
 not known yet

---
 pyodrx/generators.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fd85442..1ee1026 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -65,14 +65,11 @@ def create_road(geometry,id,left_lanes = 1, right_lanes = 1,road_type=-1,center_
             road (Road): a straight road
     """
     pv = PlanView()
-    raw_length = 0
     if isinstance(geometry,list):
         for g in geometry:
             pv.add_geometry(g)
-            raw_length += g.length
     else:
         pv.add_geometry(geometry)
-        raw_length += geometry.length
     
     # create centerlane
     lc = Lane(a=0)
-- 
2.43.0


From f65ddd200a8b37b4872abe05f66042fbafa38a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 14/26] fix: import the lane-count error that get_lanes_offset
 raises

---
 pyodrx/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 1ee1026..102ee05 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -13,6 +13,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
 from .links import Junction, Connection, _get_related_lanesection
+from .exceptions import NotSameAmountOfLanesError
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
-- 
2.43.0


From 30876c8c123739a00235da2f51b7763f7a23b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 15/26] fix: compare the lane sections that touch the junction

---
 pyodrx/generators.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 102ee05..c0b5a64 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -203,12 +203,11 @@ def get_lanes_offset(road1, road2, contactpoint):
 
             lane_offset (int):
     """
-    #now we always look at lanesection[0] to take the number of lanes 
-    #TO DO - understand if the roads are connect through end or start and then take the relative lane section 
+    # road1 is connected through contactpoint, road2 always through its start
     if contactpoint == ContactPoint.end: 
-        n_lanesection = 0 
+        n_lanesection = -1 
     else:
-        n_lanesection = -1
+        n_lanesection = 0
     if len(road1.lanes.lanesections[n_lanesection].leftlanes) == len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):
         n_lanes = len(road1.lanes.lanesections[n_lanesection].leftlanes) 
         lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a     
-- 
2.43.0


From 199f6b907c6b696d71ac5b358f1f4d2b6ce1d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 16/26] fix: name the lane of the incoming road first in every
 lane link of a junction

---
 pyodrx/generators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index c0b5a64..0a16182 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -326,8 +326,9 @@ def _create_junction_links(connection, nlanes,r_or_l,sign,from_offset=0,to_offse
             to_offset (int): if there is an offset in the end of the road 
                 Default: 0
     """
+    # sign and from_offset lead from the lanes of the connecting road to those of the incoming road
     for i in range(1, nlanes+1, 1):
-        connection.add_lanelink( r_or_l*i+from_offset, r_or_l*sign*i+to_offset)
+        connection.add_lanelink( sign*(r_or_l*i+from_offset), r_or_l*i+to_offset)
 
 
 def create_junction(junction_roads, id, roads):
@@ -357,8 +358,8 @@ def create_junction(junction_roads, id, roads):
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
         _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
 
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
-- 
2.43.0


From fe55ccf883797b72647f33a1aea6c7fa6e2b5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 17/26] fix: do not reuse an explicit connection id in a
 junction

---
 pyodrx/links.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 0dafe10..b56bd20 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -409,6 +409,10 @@ class Junction():
                 connection (Connection): adds a connection to the junction
 
         """
+        if connection.id is None:
+            # skip ids that were given explicitly
+            while str(self._id_counter) in [str(con.id) for con in self.connections]:
+                self._id_counter += 1
         connection._set_id(self._id_counter)
         self._id_counter += 1
         self.connections.append(connection)
-- 
2.43.0


From 174141308498e236ccda705588052c135b7d8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 18/26] fix: give a road mark line the space that was asked for

---
 pyodrx/lane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 7b96b28..ac502e7 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -537,7 +537,7 @@ class RoadMark():
             #create empty line if arguments are missing
             else: 
                 self.length = length or 0
-                self.space = length or 0
+                self.space = space or 0
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
             self.width = width or 0.2
-- 
2.43.0


From 0ec9e1d126a307a8428d99923f10f26428a7a82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 19/26] fix: repeat an object without height at height 0

---
 pyodrx/signals_objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index a916196..3d625e9 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -454,13 +454,13 @@ class Object(_SignalObjectBase):
             infoFallback(self.id, 'tEnd')
         else:
             self._repeats[-1]['tEnd']=str(tEnd)
-        if heightStart == None and self.height != None:
-            self._repeats[-1]['heightStart']=str(self.height)
+        if heightStart == None:
+            self._repeats[-1]['heightStart']=str(self.height if self.height != None else 0)
             infoFallback(self.id, 'heightStart')
         else:
             self._repeats[-1]['heightStart']=str(heightStart)
-        if heightEnd == None and self.height != None:
-            self._repeats[-1]['heightEnd']=str(self.height)
+        if heightEnd == None:
+            self._repeats[-1]['heightEnd']=str(self.height if self.height != None else 0)
             infoFallback(self.id, 'heightEnd')
         else:
             self._repeats[-1]['heightEnd']=str(heightEnd)
-- 
2.43.0


From ec1d9f29536f59f7ef3cdf0dd6f68f164c01951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 20/26] fix: do not export the subtype None of an object

---
 pyodrx/signals_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index 3d625e9..b592b09 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -127,7 +127,8 @@ class _SignalObjectBase():
             retdict['id'] = str(self.id)
             retdict['s'] = str(self.s)
             retdict['t'] = str(self.t)
-            retdict['subtype'] = str(self.subtype)
+            if self.subtype is not None:
+                retdict['subtype'] = str(self.subtype)
             retdict['dynamic'] = enum2str(self.dynamic)
             retdict['zOffset'] = str(self.zOffset)
             if self.pitch:
-- 
2.43.0


From 42e10c474ce700f2c974a01e858b27eb73eee91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 21/26] fix: write the xml file in the encoding xml assumes

---
 pyodrx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 892fb5c..240402c 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -68,7 +68,7 @@ def printToFile(element,filename,prettyprint=True):
         rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
         reparsed = mini.parseString(rough)
         towrite = reparsed.toprettyxml(indent="\t")
-        with open(filename,'w') as file_handle:
+        with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
         tree = ET.ElementTree(element)
-- 
2.43.0


From 9486dd05699fdb4b640ec182cbf3c96423150748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 22/26] fix: link both ends of a connecting road that returns
 to the road it left

---
 pyodrx/generators.py |  4 ++--
 pyodrx/links.py      | 21 ++++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 0a16182..a20b73b 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -356,7 +356,7 @@ def create_junction(junction_roads, id, roads):
     for jr in junction_roads:
         # handle succesor lanes
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
-        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
+        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id), 'successor') 
 
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
@@ -364,7 +364,7 @@ def create_junction(junction_roads, id, roads):
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
-        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
+        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id), 'predecessor') 
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
diff --git a/pyodrx/links.py b/pyodrx/links.py
index b56bd20..6d633cb 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -475,12 +475,14 @@ def create_lane_links(road1,road2):
     #             elif road1.predecessor and road1.predecessor.element_id == road2.id:
     #                 _create_links_roads(road2,road1)
     elif road1.road_type != -1:
-        _create_links_connecting_road(road1,road2)
+        _create_links_connecting_road(road1,road2,'successor')
+        _create_links_connecting_road(road1,road2,'predecessor')
     elif road2.road_type != -1:
 
-        _create_links_connecting_road(road2,road1)
+        _create_links_connecting_road(road2,road1,'successor')
+        _create_links_connecting_road(road2,road1,'predecessor')
     
-def _create_links_connecting_road(connecting,road):
+def _create_links_connecting_road(connecting,road,end):
     """ _create_links_connecting_road will create lane links between a connecting road and a normal road
 
         Parameters
@@ -489,8 +491,10 @@ def _create_links_connecting_road(connecting,road):
 
             road (Road): a that connects to the connecting road
 
+            end (str): the end of the connecting road to link (successor or predecessor)
+
     """
-    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
+    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road,end)
 
     # a lane continues in the lane at the same lateral position, which is on the opposite side if the road is reversed (sign is -1)
     if connecting_lanesec != None:
@@ -515,7 +519,7 @@ def _create_links_connecting_road(connecting,road):
                 connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid*sign)
 
 
-def _get_related_lanesection(road,connected_road):
+def _get_related_lanesection(road,connected_road,end=None):
     """ _get_related_lanesection takes to roads, and gives the correct lane section to use
         the type of link and if the sign of lanes should be switched
 
@@ -525,6 +529,9 @@ def _get_related_lanesection(road,connected_road):
 
             connected_road (Road): the connected road
 
+            end (str): the end of the road to look at (successor or predecessor), both may connect to the same road
+                Default: None (any)
+
         Returns
         -------
             linktype (str): the linktype of road to connected road (successor or predecessor)
@@ -537,7 +544,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and str(road.successor.element_id) == str(connected_road.id):
+    if end != 'predecessor' and road.successor and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -545,7 +552,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
+    elif end != 'successor' and road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
-- 
2.43.0


From 9c4768159459bbd7a9b8ed5b8a5bbf6819c6d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 23/26] fix: do not take a junction for a road when linking the
 lanes of a connecting road

---
 pyodrx/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 6d633cb..613b145 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -544,7 +544,7 @@ def _get_related_lanesection(road,connected_road,end=None):
     sign = None
     road_lanesection_id = None
  
-    if end != 'predecessor' and road.successor and str(road.successor.element_id) == str(connected_road.id):
+    if end != 'predecessor' and road.successor and road.successor.element_type == ElementType.road and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -552,7 +552,7 @@ def _get_related_lanesection(road,connected_road,end=None):
             sign = -1
         road_lanesection_id = -1
 
-    elif end != 'successor' and road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
+    elif end != 'successor' and road.predecessor and road.predecessor.element_type == ElementType.road and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
-- 
2.43.0


From 70cd3e63cf7a6c14ce8e0eed66aa3f7f7f2a0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 24/26] fix: do not export the unit or subtype None of a signal

---
 pyodrx/signals_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index b592b09..e07d3b8 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -251,13 +251,13 @@ class Signal(_SignalObjectBase):
         retdict = super().get_common_attributes()
         retdict["country"] = str(self.country).upper()
         retdict["type"] = str(self.type)
-        retdict["subtype"] = str(self.subtype)
         if self.hOffset:
             retdict["hOffset"] = str(self.hOffset)    
         #TODO check if value is supplied --> unit is mandatory in that case   
         if self.value is not None:
             retdict["value"] = str(self.value)
-            retdict["unit"] = str(self.unit)
+            if self.unit is not None:
+                retdict["unit"] = str(self.unit)
         return retdict
 
     def get_element(self):
-- 
2.43.0


From ed45ef7964393b30839455fed2e990a3070a049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:12 +0000
Subject: [PATCH 25/26] fix: follow spirals whose curvature hardly changes

---
 pyodrx/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 501b2a4..3ba13c7 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -940,8 +940,8 @@ class EulerSpiral(object):
             # Straight line
             Cs = C0 + s * np.exp(1j * theta0 )
 
-        elif self._gamma == 0 and kappa0 != 0:
-            # Arc
+        elif kappa0 != 0 and abs(self._gamma * s) <= 1e-8 * abs(kappa0):
+            # Arc (the Fresnel integrals lose all their digits if the curvature hardly changes)
             Cs = C0 + np.exp(1j * theta0) / kappa0 * (np.sin(kappa0 * s) + 1j * (1 - np.cos(kappa0 * s)))
 
         else:
-- 
2.43.0


From d1fb4461f6c30f6e76f2aa68af860e5d83437bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:50 +0000
Subject: [PATCH 26/26] fix: compute the end of an almost straight arc along
 its chord

---
 pyodrx/geometry.py | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 3ba13c7..1696d94 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -617,28 +617,19 @@ class Arc():
 
         """
         radius = 1/np.abs(self.curvature)
-        if self.curvature < 0:
-            phi_0 = h + np.pi/2
-            x_0 = x - np.cos(phi_0)*radius
-            y_0 = y - np.sin(phi_0)*radius
-
-        else:
-            phi_0 = h - np.pi/2
-            x_0 = x - np.cos(phi_0)*radius
-            y_0 = y - np.sin(phi_0)*radius
-
         if self.length:
             self.angle = self.length * self.curvature
 
-        new_ang = self.angle + phi_0
         if self.angle:         
             self.length = np.abs(radius*self.angle)
 
             
 
         new_h = h + self.angle
-        new_x = np.cos(new_ang)*radius + x_0
-        new_y = np.sin(new_ang)*radius + y_0
+        # follow the chord, the centre of an almost straight arc is too far away to be exact
+        chord = 2*radius*np.sin(np.abs(self.angle)/2)
+        new_x = x + chord*np.cos(h + self.angle/2)
+        new_y = y + chord*np.sin(h + self.angle/2)
 
         return new_x, new_y, new_h, self.length
 
@@ -671,20 +662,9 @@ class Arc():
         h = end_h
         inv_curv = - self.curvature 
         radius = 1/np.abs(inv_curv)
-        if inv_curv < 0:
-            phi_0 = h + np.pi/2
-            x_0 = x - np.cos(phi_0)*radius
-            y_0 = y - np.sin(phi_0)*radius
-
-        else:
-            phi_0 = h - np.pi/2
-            x_0 = x - np.cos(phi_0)*radius
-            y_0 = y - np.sin(phi_0)*radius
-
         if self.length:
             self.angle = self.length * inv_curv
 
-        new_ang = self.angle + phi_0
         if self.angle:         
             self.length = np.abs(radius*self.angle)
 
@@ -693,8 +673,10 @@ class Arc():
         print('self andgle is ', self.angle )
         print('h is ', h)
         new_h = h + self.angle
-        new_x = np.cos(new_ang)*radius + x_0
-        new_y = np.sin(new_ang)*radius + y_0
+        # follow the chord, the centre of an almost straight arc is too far away to be exact
+        chord = 2*radius*np.sin(np.abs(self.angle)/2)
+        new_x = x + chord*np.cos(h + self.angle/2)
+        new_y = y + chord*np.sin(h + self.angle/2)
 
         print('out of the geometry we get ', new_x, new_y, new_h)
 
-- 
2.43.0


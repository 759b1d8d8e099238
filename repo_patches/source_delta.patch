From be7dd30e5c9feb538b52a557be58592f7a60ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 01/28] fix: import NotSameAmountOfLanesError where
 create_junction_roads raises it

get_lanes_offset raised NameError instead of the documented error when two
roads of a junction had different lane counts.
---
 pyodrx/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fa50d33..5aa8074 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -13,6 +13,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
 from .links import Junction, Connection, _get_related_lanesection
+from .exceptions import NotSameAmountOfLanesError
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
-- 
2.43.0


From 99c722e3ecef051a4605b8295d45a50b48012e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 02/28] fix: order and s values of plan views adjusted from
 their end

With more than one geometry the records were written in reverse order, all but
one with s="None", and that one with the wrong s.
---
 pyodrx/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0ab0729..cf92b23 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -287,9 +287,12 @@ class PlanView():
             length = sum(lengths)           
             self.present_s = 0
              
+            # the geometries were created from the end and backwards, bring them in road order
+            self._adjusted_geometries.reverse()
+            lengths.reverse()
             for i in range(len(self._raw_geometries)):
 
-                newgeom.set_s(self.present_s)
+                self._adjusted_geometries[i].set_s(self.present_s)
                 self.present_s += lengths[i]  
 
         self.adjusted = True
-- 
2.43.0


From b7566c404139ec88065ce21daa969944538effd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 03/28] fix: start heading of a plan view whose headings are
 given explicitly

get_start_point kept the heading the plan view had before the first explicit
heading was applied, so roads attached to its start were turned wrongly.
---
 pyodrx/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index cf92b23..6b01c8e 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -250,7 +250,7 @@ class PlanView():
         if from_end== False:
             self.x_start = self.present_x
             self.y_start = self.present_y
-            self.h_start = self.present_h
+            self.h_start = self._overridden_headings[0] if self._overridden_headings else self.present_h
 
             for i in range(len(self._raw_geometries)):
                 if len(self._overridden_headings) > 0:
-- 
2.43.0


From 7b84ce6708eb6e29518e90dcb9fe0770d0f9b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 04/28] fix: start pose of a ParamPoly3 placed from its end

get_start_data is given the reversed end heading (as for the other geometries)
but rotated the polynomial by it as if it were the start heading, so every road
with a ParamPoly3 that was adjusted from its end was misplaced.
---
 pyodrx/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 6b01c8e..f2042cb 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -846,9 +846,10 @@ class ParamPoly3():
         newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
         newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3
 
-        new_x = x - (newu*np.cos(h)-np.sin(h)*newv)
-        new_y = y - (newu*np.sin(h)+np.cos(h)*newv)
+        # h and new_h are the headings of the inverse geometry (opposite to the direction of the road)
         new_h = h - np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)
+        new_x = x + newu*np.cos(new_h)-np.sin(new_h)*newv
+        new_y = y + newu*np.sin(new_h)+np.cos(new_h)*newv
 
         return new_x, new_y, new_h, self.length
     def get_end_data(self,x,y,h):
-- 
2.43.0


From 0a1288800822d55a1e85320fccda6824fd30d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 05/28] fix: pose queries on an Arc must not change it

An Arc given by an angle whose sign differs from the curvature (as
create_cloth_arc_cloth makes them) turned against its curvature on the first
query and with it on all later ones, and placing any arc from its end flipped
its angle attribute. The length and signed angle are now settled at once, by
the curvature, and the queries only read them.
---
 pyodrx/geometry.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index f2042cb..a5c07cd 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -583,6 +583,10 @@ class Arc():
         if curvature == 0:
             raise ValueError('You are creating a straight line, please use Line instead')
         self.curvature = curvature
+        # the direction of the turn is given by the curvature, independently of the sign of angle
+        if self.angle is not None:
+            self.length = np.abs(self.angle/curvature)
+        self.angle = self.length*curvature
 
     def get_end_data(self,x,y,h):
         """ Returns information about the end point of the geometry
@@ -618,16 +622,11 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * self.curvature
+        angle = self.length * self.curvature
 
-        new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
+        new_ang = angle + phi_0
 
-            
-
-        new_h = h + self.angle
+        new_h = h + angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
 
@@ -672,18 +671,13 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * inv_curv
+        angle = self.length * inv_curv
 
-        new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
+        new_ang = angle + phi_0
 
-            
-        
-        print('self andgle is ', self.angle )
+        print('self andgle is ', angle )
         print('h is ', h)
-        new_h = h + self.angle
+        new_h = h + angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
 
-- 
2.43.0


From 1b3953db8b1091aedcfeb1095762ff78a07cf558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 06/28] fix: create_road with geometries whose length is not
 known yet

The sum of the lengths was never used but raised a TypeError for a normalized
ParamPoly3, whose length is only calculated when it is placed.
---
 pyodrx/generators.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 5aa8074..34cb19e 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -66,14 +66,11 @@ def create_road(geometry,id,left_lanes = 1, right_lanes = 1,road_type=-1,center_
             road (Road): a straight road
     """
     pv = PlanView()
-    raw_length = 0
     if isinstance(geometry,list):
         for g in geometry:
             pv.add_geometry(g)
-            raw_length += g.length
     else:
         pv.add_geometry(geometry)
-        raw_length += geometry.length
     
     # create centerlane
     lc = Lane(a=0)
-- 
2.43.0


From 3dfff38a0c3a5349d02795eec0ef8d22555cf15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 07/28] fix: length of a Spiral given by its angle

The length was only right if one of the curvatures was zero; otherwise the
spiral turned by more (same signs) or less (opposite signs) than the angle.
Spiral(0.01,0.05,angle=0.5) turned by 0.6 rad.
---
 pyodrx/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index a5c07cd..0f3b14f 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -454,7 +454,8 @@ class Spiral():
         if sum([x!=None for x in [length,angle,cdot]]) > 1:
             raise ToManyOptionalArguments('Spiral is overdefined, please use only one of the optional inputs')
         if angle:
-            self.length = 2*abs(angle)/np.maximum(abs(curvend),abs(curvstart))
+            # the heading changes by the mean curvature times the length
+            self.length = 2*abs(angle)/abs(curvend+curvstart)
 
         elif cdot:
             self.length =  (self.curvend - self.curvstart) / cdot
-- 
2.43.0


From 84bd0d078f387e73f9b6fc346fa0fe4f6462fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 08/28] fix: end point of a Spiral with almost equal curvatures

If the curvatures differ by rounding only (0.3 and 0.1+0.2) the Fresnel
arguments get so large that the calculated end point was off by up to the whole
length of the spiral. Use an arc of the mean curvature there.
---
 pyodrx/geometry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0f3b14f..14f57ee 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -922,7 +922,13 @@ class EulerSpiral(object):
         # Start
         C0 = x0 + 1j * y0
 
-        if self._gamma == 0 and kappa0 == 0:
+        if self._gamma != 0 and np.abs(self._gamma) * s**2 < 1e-7:
+            # (almost) constant curvature, where the Fresnel integrals lose all precision: use the mean curvature
+            kappa = kappa0 + self._gamma * s / 2
+            # sin(x)/x, also for x = 0
+            Cs = C0 + s * np.exp(1j * (theta0 + kappa * s / 2)) * np.sinc(kappa * s / 2 / np.pi)
+
+        elif self._gamma == 0 and kappa0 == 0:
             # Straight line
             Cs = C0 + s * np.exp(1j * theta0 )
 
-- 
2.43.0


From f45ff2e0207b870a6b053d62e57f05dbccd3211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 09/28] fix: lane links of consecutive roads use the lane
 sections at the joint

---
 pyodrx/links.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5f3bfce..32654ca 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -456,9 +456,10 @@ def create_lane_links(road1,road2):
     """
     if road1.road_type == -1 and road2.road_type == -1:
         #both are roads
+        # (two roads forming a ring are connected at both ends)
         if are_roads_consecutive(road1, road2): 
             _create_links_roads(road1,road2)
-        elif are_roads_consecutive(road2, road1): 
+        if are_roads_consecutive(road2, road1): 
             _create_links_roads(road2,road1)
 
     # if road1.road_type == -1 and road2.road_type == -1:
@@ -576,25 +577,13 @@ def _create_links_roads(pre_road,suc_road):
             suc_road (Road): the successor road
 
     """
-    pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
-    suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[-1].leftlanes):
-        for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
-            linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
-            print(linkid)
-            pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].add_link(pre_linktype,linkid)
-            
-
-            suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes[i].add_link(suc_linktype,linkid*pre_sign)
-    else:
-        raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
-
-
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
-        for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
-            linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
-            pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].add_link(pre_linktype,linkid)
-            suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes[i].add_link(suc_linktype,linkid)
-    else:
+    pre_lanesec = pre_road.lanes.lanesections[-1]
+    suc_lanesec = suc_road.lanes.lanesections[0]
+    if len(pre_lanesec.leftlanes) != len(suc_lanesec.leftlanes):
+        raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of left lanes.')
+    if len(pre_lanesec.rightlanes) != len(suc_lanesec.rightlanes):
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
+    for pre_lane, suc_lane in zip(pre_lanesec.leftlanes + pre_lanesec.rightlanes, suc_lanesec.leftlanes + suc_lanesec.rightlanes):
+        pre_lane.add_link('successor',suc_lane.lane_id)
+        suc_lane.add_link('predecessor',pre_lane.lane_id)
-- 
2.43.0


From d7eb6184265cdb6f9b41476614b1c57cc1c9d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 10/28] fix: lane links of connecting roads

---
 pyodrx/generators.py |   6 +--
 pyodrx/links.py      | 114 +++++++++++++++++--------------------------
 2 files changed, 48 insertions(+), 72 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 34cb19e..f3d4074 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -12,7 +12,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
-from .links import Junction, Connection, _get_related_lanesection
+from .links import Junction, Connection, _get_lane_sign
 from .exceptions import NotSameAmountOfLanesError
 
 
@@ -356,7 +356,7 @@ def create_junction(junction_roads, id, roads):
     for jr in junction_roads:
         # handle succesor lanes
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
-        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
+        sign = _get_lane_sign(jr.successor)
 
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
@@ -364,7 +364,7 @@ def create_junction(junction_roads, id, roads):
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
-        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
+        sign = _get_lane_sign(jr.predecessor)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 32654ca..f9e8b51 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -438,7 +438,7 @@ def are_roads_consecutive(road1, road2):
 
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
-            if road1.successor.element_id == road2.id and road2.predecessor.element_id == road1.id: 
+            if _is_linked_to_road(road1.successor,road2) and _is_linked_to_road(road2.predecessor,road1): 
                 return True 
 
     return False
@@ -486,86 +486,62 @@ def _create_links_connecting_road(connecting,road):
             road (Road): a that connects to the connecting road
 
     """
-    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
-
-    if connecting_lanesec != None:
-        if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
-            # do left lanes
-            for i in range(len(connecting.lanes.lanesections[road_lanesection_id].leftlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].leftlanes[i].lane_id*sign
-                if linktype == 'predecessor':
-                    linkid += connecting.lane_offset_pred
-                else:
-                    linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].add_link(linktype,linkid)
-            
-        if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
-            # do right lanes
-            for i in range(len(connecting.lanes.lanesections[connecting_lanesec].rightlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].rightlanes[i].lane_id*sign
-                if linktype == 'predecessor':
-                    linkid += connecting.lane_offset_pred
-                else:
-                    linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid)
+    # the connecting road can be connected to the road with both of its ends (a u-turn)
+    if _is_linked_to_road(connecting.predecessor,road):
+        _create_links_lanesection(connecting.lanes.lanesections[0],connecting.predecessor,connecting.lane_offset_pred)
+    if _is_linked_to_road(connecting.successor,road):
+        _create_links_lanesection(connecting.lanes.lanesections[-1],connecting.successor,connecting.lane_offset_suc)
+
+
+def _create_links_lanesection(lanesection,link,lane_offset):
+    """ _create_links_lanesection links all lanes of a lanesection (of a connecting road) to the road of a road link
+
+        Parameters
+        ----------
+            lanesection (LaneSection): the lanesection to link
+
+            link (_Link): the link from the road of the lanesection
+
+            lane_offset (int): the lane offset of the link
+
+    """
+    sign = _get_lane_sign(link)
+    for lane in lanesection.leftlanes + lanesection.rightlanes:
+        lane.add_link(link.link_type,sign*(lane.lane_id + lane_offset))
 
 
-def _get_related_lanesection(road,connected_road):
-    """ _get_related_lanesection takes to roads, and gives the correct lane section to use
-        the type of link and if the sign of lanes should be switched
+def _is_linked_to_road(link,road):
+    """ _is_linked_to_road checks if a link of a road refers to another road
 
         Parameters
         ----------
-            road (Road): the road that you want the information about
+            link (_Link): the predecessor or successor of a road (or None)
 
-            connected_road (Road): the connected road
+            road (Road): the other road
 
         Returns
         -------
-            linktype (str): the linktype of road to connected road (successor or predecessor)
+            linked (bool)
+    """
+    return link is not None and link.element_type != ElementType.junction and str(link.element_id) == str(road.id)
 
-            sign (int): +1 or -1 depending on if the sign should change in the linking
 
-            road_lanesection_id (int): what lanesection in the road that should be used to link
-    """
-    linktype = None
-    sign = None
-    road_lanesection_id = None
- 
-    if road.successor and road.successor.element_id == connected_road.id:
-        linktype = 'successor'
-        if road.successor.contact_point == ContactPoint.start:
-            sign = 1
-        else:
-            sign = -1
-        road_lanesection_id = -1
+def _get_lane_sign(link):
+    """ _get_lane_sign gives the sign between the lane ids on the two sides of a road link
 
-    elif road.predecessor and road.predecessor.element_id == connected_road.id:
-        linktype = 'predecessor'
-        if road.predecessor.contact_point == ContactPoint.start:
-            sign = -1
-        else:
-            sign = 1
-        road_lanesection_id = 0
-
-    if connected_road.road_type != -1:
-        # treat connecting road in junction differently 
-        if connected_road.predecessor.element_id == road.id:
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = -1
-                sign = -1
-            else:
-                road_lanesection_id = 0
-                sign = 1
-        elif connected_road.successor.element_id == road.id:
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = 0
-                sign = 1
-            else:
-                road_lanesection_id = -1
-                sign = -1
-    return linktype, sign, road_lanesection_id
+        Parameters
+        ----------
+            link (_Link): the predecessor or successor of a road
+
+        Returns
+        -------
+            sign (int): +1 if the linked roads have the same direction, otherwise -1
+    """
+    if link.link_type == 'successor':
+        same_direction = link.contact_point == ContactPoint.start
+    else:
+        same_direction = link.contact_point == ContactPoint.end
+    return 1 if same_direction else -1
 
 def _create_links_roads(pre_road,suc_road):
     """ _create_links_roads takes two roads and connect the lanes with links, if they have the same amount. 
-- 
2.43.0


From 0f1d571317ee699156d19cd126b0d9e9d4716948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 11/28] fix: place roads when a junction id is no road id or a
 connecting road is placed first

---
 pyodrx/opendrive.py | 65 ++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 39f0fc6..9a130bb 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -458,6 +458,22 @@ class OpenDrive():
             main_road.planview.adjust_geometries(True)
 
 
+    def _is_linked_road_adjusted(self, link):
+        """ _is_linked_road_adjusted checks if the road of a predecessor/successor link is adjusted
+
+            Parameters
+            ----------
+                link (_Link): the predecessor or successor of a road (or None)
+
+            Returns
+            -------
+                adjusted (bool): None if the link does not refer to a road
+
+        """
+        if link is None or link.element_type is ElementType.junction:
+            return None
+        return self.roads[str(link.element_id)].planview.adjusted
+
     def adjust_startpoints(self): 
         """ Adjust starting position of all geoemtries of all roads
 
@@ -500,9 +516,7 @@ class OpenDrive():
                 if self.roads[k].planview.adjusted is False: 
 
                     # check if it has a normal (road) predecessor 
-                    if self.roads[k].predecessor is not None and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True and \
-                        self.roads[k].predecessor.element_type is not ElementType.junction: 
+                    if self._is_linked_road_adjusted(self.roads[k].predecessor):
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -510,20 +524,8 @@ class OpenDrive():
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
-                            succ_id = self.roads[k].successor.element_id
-                            print('    Adjusting successor connecting road {} in junction {} to road {} '.\
-                                format(succ_id, self.roads[k].road_type, self.roads[k].id))
-                            if self.roads[k].successor.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'predecessor')
-                            else:
-                                self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'successor')
-                            count_adjusted_roads +=1
-
                     # check if geometry has a normal (road) successor 
-                    elif self.roads[k].successor is not None and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True and \
-                        self.roads[k].successor.element_type is not ElementType.junction: 
+                    elif self._is_linked_road_adjusted(self.roads[k].successor):
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
@@ -531,15 +533,28 @@ class OpenDrive():
                                                     self.roads[k].successor.contact_point, 'successor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
-                            pred_id = self.roads[k].predecessor.element_id
-                            print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
-                                format(pred_id, self.roads[k].road_type, self.roads[k].id))
-                            if self.roads[k].predecessor.contact_point == ContactPoint.start:
-                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'predecessor')
-                            else:
-                                self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
-                            count_adjusted_roads +=1
+                # an adjusted connecting road places the roads at its ends, since those do not know the connecting road
+                if self.roads[k].road_type != -1 and self.roads[k].planview.adjusted:
+
+                    if self._is_linked_road_adjusted(self.roads[k].successor) is False:
+                        succ_id = self.roads[k].successor.element_id
+                        print('    Adjusting successor connecting road {} in junction {} to road {} '.\
+                            format(succ_id, self.roads[k].road_type, self.roads[k].id))
+                        if self.roads[k].successor.contact_point == ContactPoint.start:
+                            self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'predecessor')
+                        else:
+                            self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'successor')
+                        count_adjusted_roads +=1
+
+                    if self._is_linked_road_adjusted(self.roads[k].predecessor) is False:
+                        pred_id = self.roads[k].predecessor.element_id
+                        print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
+                            format(pred_id, self.roads[k].road_type, self.roads[k].id))
+                        if self.roads[k].predecessor.contact_point == ContactPoint.start:
+                            self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'predecessor')
+                        else:
+                            self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
+                        count_adjusted_roads +=1
             
             count_total_adjusted_roads += count_adjusted_roads
 
-- 
2.43.0


From d37ff70941dd7b808c5de59375e817ff1599b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 12/28] fix: adjust_roads_and_lanes can be called again

---
 pyodrx/lane.py      | 3 +++
 pyodrx/opendrive.py | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 7b96b28..447fa63 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -272,6 +272,9 @@ class Lane():
 
             id (str/id): id of the linked lane
         """
+        if any(l.link_type == link_type and l.element_id == str(id) for l in self.links.links):
+            # already linked (e.g. when the roads are adjusted again)
+            return
         self.links.add_link(_Link(link_type,str(id)))
 
     def _set_lane_id(self,lane_id):
diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 9a130bb..608554f 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -493,7 +493,11 @@ class OpenDrive():
         count_total_adjusted_roads = 0
         fixed_road = False
         for k in self.roads:
-            if self.roads[k].planview.fixed:
+            if self.roads[k].planview.adjusted:
+                # already placed by an earlier adjustment
+                count_total_adjusted_roads += 1
+                fixed_road = True
+            elif self.roads[k].planview.fixed:
                 self.roads[k].planview.adjust_geometries()
                 # print('Fixing Road: ' + k)
                 count_total_adjusted_roads += 1
-- 
2.43.0


From 5916b9bf402b8680fea18475e6734a97640a1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 13/28] fix: lane offset of a connecting road also when it
 places the road at its end

---
 pyodrx/opendrive.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 608554f..fa536c2 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -437,7 +437,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_pred
+            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
             x = -num_lane_offsets*3*np.sin(h) + x
             y = num_lane_offsets*3*np.cos(h) + y
 
@@ -451,13 +451,40 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_suc
+            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
             x = num_lane_offsets*3*np.sin(h) + x
             y = -num_lane_offsets*3*np.cos(h) + y
             main_road.planview.set_start_point(x,y,h)
             main_road.planview.adjust_geometries(True)
 
 
+    def _get_lane_offset(self, main_road, neighbour, contact_point, neighbour_type):
+        """ _get_lane_offset returns the lane offset to use when adjusting a road to its neighbour. The offset between a connecting
+            road and a normal road is declared by the connecting road, also when the normal road is adjusted to the connecting road
+
+            Parameters
+            ----------
+                main_road (Road): the road to adjust
+
+                neighbour (Road): the (already adjusted) road to adjust to
+
+                contact_point (ContactPoint): the contact point of the neighbour
+
+                neighbour_type (str): 'successor'/'predecessor' type of linking to the neighbouring road
+
+            Returns
+            -------
+                lane_offset (int): lane offset as seen from main_road
+
+        """
+        if main_road.road_type == -1 and neighbour.road_type != -1:
+            if contact_point == ContactPoint.start:
+                lane_offset = neighbour.lane_offset_pred
+                return lane_offset if neighbour_type == 'predecessor' else -lane_offset
+            lane_offset = neighbour.lane_offset_suc
+            return -lane_offset if neighbour_type == 'predecessor' else lane_offset
+        return main_road.lane_offset_pred if neighbour_type == 'predecessor' else main_road.lane_offset_suc
+
     def _is_linked_road_adjusted(self, link):
         """ _is_linked_road_adjusted checks if the road of a predecessor/successor link is adjusted
 
-- 
2.43.0


From 5a7d4691a8bc74bbc7fd8caa72e1e5002cc3b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 14/28] fix: lanes of the junction connections made by
 create_junction

---
 pyodrx/generators.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index f3d4074..b4eee97 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -308,7 +308,7 @@ def create_junction_roads(roads,angles,r,junction=1,spiral_part = 1/3, arc_part
 
     return junction_roads
 
-def _create_junction_links(connection, nlanes,r_or_l,sign,from_offset=0,to_offset=0):
+def _create_junction_links(connection, nlanes,r_or_l,sign,lane_offset=0):
     """ helper function to create junction links
 
         Parameters
@@ -321,14 +321,12 @@ def _create_junction_links(connection, nlanes,r_or_l,sign,from_offset=0,to_offse
 
             sign (1 or -1): if the sign should change 
 
-            from_offset (int): if there is an offset in the beginning 
-                Default: 0
-
-            to_offset (int): if there is an offset in the end of the road 
+            lane_offset (int): the lane offset between the connecting and the incoming road
                 Default: 0
     """
     for i in range(1, nlanes+1, 1):
-        connection.add_lanelink( r_or_l*i+from_offset, r_or_l*sign*i+to_offset)
+        # from the lane of the incoming road to the lane of the connecting road
+        connection.add_lanelink( sign*(r_or_l*i+lane_offset), r_or_l*i)
 
 
 def create_junction(junction_roads, id, roads):
@@ -358,15 +356,15 @@ def create_junction(junction_roads, id, roads):
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
         sign = _get_lane_sign(jr.successor)
 
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,lane_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,lane_offset=jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
         sign = _get_lane_sign(jr.predecessor)
-        _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
-        _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
+        _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,lane_offset=jr.lane_offset_pred)
+        _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,lane_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
     return junc
 
-- 
2.43.0


From 1f092eb1c66ecf5f6d6a399bbfddebb4571df9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 15/28] fix: lane section of the incoming road used for
 generated junction roads

---
 pyodrx/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index b4eee97..3208d11 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -206,9 +206,9 @@ def get_lanes_offset(road1, road2, contactpoint):
     #now we always look at lanesection[0] to take the number of lanes 
     #TO DO - understand if the roads are connect through end or start and then take the relative lane section 
     if contactpoint == ContactPoint.end: 
-        n_lanesection = 0 
-    else:
         n_lanesection = -1
+    else:
+        n_lanesection = 0
     if len(road1.lanes.lanesections[n_lanesection].leftlanes) == len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):
         n_lanes = len(road1.lanes.lanesections[n_lanesection].leftlanes) 
         lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a     
-- 
2.43.0


From a114597bd41e2f16837c5585378e1d41b998faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 16/28] fix: optional values of objects and signals that were
 not given are left out

---
 pyodrx/signals_objects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index a916196..da59e78 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -127,7 +127,8 @@ class _SignalObjectBase():
             retdict['id'] = str(self.id)
             retdict['s'] = str(self.s)
             retdict['t'] = str(self.t)
-            retdict['subtype'] = str(self.subtype)
+            if self.subtype is not None:
+                retdict['subtype'] = str(self.subtype)
             retdict['dynamic'] = enum2str(self.dynamic)
             retdict['zOffset'] = str(self.zOffset)
             if self.pitch:
@@ -256,7 +257,8 @@ class Signal(_SignalObjectBase):
         #TODO check if value is supplied --> unit is mandatory in that case   
         if self.value is not None:
             retdict["value"] = str(self.value)
-            retdict["unit"] = str(self.unit)
+            if self.unit is not None:
+                retdict["unit"] = str(self.unit)
         return retdict
 
     def get_element(self):
@@ -457,12 +459,12 @@ class Object(_SignalObjectBase):
         if heightStart == None and self.height != None:
             self._repeats[-1]['heightStart']=str(self.height)
             infoFallback(self.id, 'heightStart')
-        else:
+        elif heightStart is not None:
             self._repeats[-1]['heightStart']=str(heightStart)
         if heightEnd == None and self.height != None:
             self._repeats[-1]['heightEnd']=str(self.height)
             infoFallback(self.id, 'heightEnd')
-        else:
+        elif heightEnd is not None:
             self._repeats[-1]['heightEnd']=str(heightEnd)
         if zOffsetStart == None:
             self._repeats[-1]['zOffsetStart']=str(self.zOffset)
-- 
2.43.0


From 664169eb86b529e2cdac62fdf0176602bb2998b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 17/28] fix: road mark line keeps the given space and zero
 values

---
 pyodrx/lane.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 447fa63..14e7ddc 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -527,23 +527,23 @@ class RoadMark():
         #TODO: there may be more line child elements per roadmark, which is currently unsupported
         self._line = None
         #check if arguments were passed that require line child element
-        if any([length, space, toffset, rule]):
+        if any([x is not None for x in [length, space, toffset, rule]]):
             #set defaults in case no values were provided
             #values for broken lines 
             if marking_type == RoadMarkType.broken: 
-                self.length = length or 3
-                self.space = space or 3
+                self.length = length if length is not None else 3
+                self.space = space if space is not None else 3
             #values for solid lines 
             elif marking_type == RoadMarkType.solid:
-                self.length = length or 3
+                self.length = length if length is not None else 3
                 self.space = space or 0
             #create empty line if arguments are missing
             else: 
                 self.length = length or 0
-                self.space = length or 0
+                self.space = space or 0
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
-            self.width = width or 0.2
+            self.width = width if width is not None else 0.2
             self.toffset = toffset or 0
             self.rule = rule or MarkRule.none
             self._line = RoadLine(self.width,self.length,self.space,self.toffset,self.soffset,self.rule,self.color)          
-- 
2.43.0


From 692063b0139ba1a32dce9d699d62256ebc5e6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 18/28] fix: automatic connection ids skip the ids already used

---
 pyodrx/links.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index f9e8b51..465e7dc 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -409,6 +409,9 @@ class Junction():
                 connection (Connection): adds a connection to the junction
 
         """
+        used_ids = [str(con.id) for con in self.connections]
+        while str(self._id_counter) in used_ids:
+            self._id_counter += 1
         connection._set_id(self._id_counter)
         self._id_counter += 1
         self.connections.append(connection)
-- 
2.43.0


From 7dcfc6612c291b51045566d32580066e17cf3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 19/28] fix: write the pretty printed file as utf-8 in every
 locale

---
 pyodrx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 892fb5c..240402c 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -68,7 +68,7 @@ def printToFile(element,filename,prettyprint=True):
         rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
         reparsed = mini.parseString(rough)
         towrite = reparsed.toprettyxml(indent="\t")
-        with open(filename,'w') as file_handle:
+        with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
         tree = ET.ElementTree(element)
-- 
2.43.0


From 4ad9300b7a8893496daac8abce97dcb827bdfc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 20/28] fix: end point of a road adjusted from its end

---
 pyodrx/opendrive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index fa536c2..82f286b 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -301,7 +301,7 @@ class Road():
                 h (float): the end heading
 
         """
-        return self.planview.present_x, self.planview.present_y, self.planview.present_h
+        return self.planview.get_end_point()
     def get_attributes(self):
         """ returns the attributes as a dict of the Road
 
-- 
2.43.0


From 6563f0edc682d90955777ecd1f4dc8b2091ca10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 21/28] fix: objects come before signals in a road

---
 pyodrx/opendrive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 82f286b..54273b5 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -324,14 +324,14 @@ class Road():
         element.append(self.links.get_element())
         element.append(self.planview.get_element())
         element.append(self.lanes.get_element())
-        if len(self.signals) > 0:
-            signalselement = ET.SubElement(element,'signals')
-            for signal in self.signals:
-                signalselement.append(signal.get_element())
         if len(self.objects) > 0:
             objectselement = ET.SubElement(element,'objects')
             for road_object in self.objects:
                 objectselement.append(road_object.get_element())        
+        if len(self.signals) > 0:
+            signalselement = ET.SubElement(element,'signals')
+            for signal in self.signals:
+                signalselement.append(signal.get_element())
             
         return element
 
-- 
2.43.0


From 66b0d2a3713926495b659ebfe08e923556ba7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 22/28] fix: quote the paths given to the viewer

---
 pyodrx/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 240402c..8b410f0 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -3,6 +3,7 @@ import xml.dom.minidom as mini
 
 
 import os
+import shlex
 
 
 def run_road(opendrive,esminipath = 'esmini',density=15):
@@ -20,7 +21,7 @@ def run_road(opendrive,esminipath = 'esmini',density=15):
     opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
     
     if os.name == 'posix':
-        os.system(os.path.join('.', esminipath, 'bin','odrviewer') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
+        os.system(shlex.quote(os.path.join('.', esminipath, 'bin','odrviewer')) + ' --odr ' + shlex.quote(os.path.join(esminipath,'resources','xodr','pythonroad.xodr')) + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
     elif os.name == 'nt':
         os.system(os.path.join(esminipath,'bin','odrviewer.exe') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density '  + str(density) )
 
-- 
2.43.0


From d59a9d371e19cc515936eb7b249e8d7b5dd91bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 23/28] fix: links to roads that are not (yet) added do not
 stop the adjustment

---
 pyodrx/opendrive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 54273b5..c203462 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -494,10 +494,10 @@ class OpenDrive():
 
             Returns
             -------
-                adjusted (bool): None if the link does not refer to a road
+                adjusted (bool): None if the link does not refer to a road (of this network)
 
         """
-        if link is None or link.element_type is ElementType.junction:
+        if link is None or link.element_type is ElementType.junction or str(link.element_id) not in self.roads:
             return None
         return self.roads[str(link.element_id)].planview.adjusted
 
-- 
2.43.0


From a665a486e29dd55b144cb06247f0ca6114b0ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 24/28] fix: roads that meet head to head are not consecutive

---
 pyodrx/links.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 465e7dc..6767221 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -442,7 +442,8 @@ def are_roads_consecutive(road1, road2):
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
             if _is_linked_to_road(road1.successor,road2) and _is_linked_to_road(road2.predecessor,road1): 
-                return True 
+                # (in a ring of two roads both roads can be linked to each other with the same end)
+                return road1.successor.contact_point == ContactPoint.start and road2.predecessor.contact_point == ContactPoint.end
 
     return False
 
-- 
2.43.0


From 68a3579205d251049bb7dae654d009c21d1e69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 25/28] fix: progress messages do not stop the adjustment where
 the output cannot encode an id

---
 pyodrx/helpers.py   |  2 +-
 pyodrx/opendrive.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 8b410f0..ca9a1e3 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -17,7 +17,7 @@ def run_road(opendrive,esminipath = 'esmini',density=15):
 
     """
     _scenariopath = os.path.join(esminipath,'resources','xodr')
-    print(_scenariopath)
+    print(ascii(_scenariopath))
     opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
     
     if os.name == 'posix':
diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index c203462..257d45b 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -405,7 +405,7 @@ class OpenDrive():
         results = list(combinations(self.roads, 2))
 
         for r in range(len(results)):
-            print('analyzing roads', results[r][0], results[r][1] )
+            print('analyzing roads {!a} {!a}'.format(results[r][0], results[r][1]))
             create_lane_links(self.roads[results[r][0]],self.roads[results[r][1]])  
 
 
@@ -534,7 +534,7 @@ class OpenDrive():
         # If no roads are fixed, select the first road is selected as the pivot-road
         if fixed_road is False: 
             self.roads[list(self.roads.keys())[0]].planview.adjust_geometries()
-            print('Selecting and adjusting the first road {}'.format(self.roads[list(self.roads.keys())[0] ].id))
+            print('Selecting and adjusting the first road {!a}'.format(self.roads[list(self.roads.keys())[0] ].id))
             count_total_adjusted_roads += 1
             
         
@@ -549,7 +549,7 @@ class OpenDrive():
                     # check if it has a normal (road) predecessor 
                     if self._is_linked_road_adjusted(self.roads[k].predecessor):
 
-                        print('  Adjusting {}road {} to predecessor {}'.\
+                        print('  Adjusting {}road {!a} to predecessor {!a}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
                         self.adjust_road_wrt_neighbour(k, self.roads[k].predecessor.element_id,
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
@@ -558,7 +558,7 @@ class OpenDrive():
                     # check if geometry has a normal (road) successor 
                     elif self._is_linked_road_adjusted(self.roads[k].successor):
 
-                        print('  Adjusting {}successor {} to road {}'.\
+                        print('  Adjusting {}successor {!a} to road {!a}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
                         self.adjust_road_wrt_neighbour(k, self.roads[k].successor.element_id,
                                                     self.roads[k].successor.contact_point, 'successor')
@@ -569,7 +569,7 @@ class OpenDrive():
 
                     if self._is_linked_road_adjusted(self.roads[k].successor) is False:
                         succ_id = self.roads[k].successor.element_id
-                        print('    Adjusting successor connecting road {} in junction {} to road {} '.\
+                        print('    Adjusting successor connecting road {!a} in junction {!a} to road {!a} '.\
                             format(succ_id, self.roads[k].road_type, self.roads[k].id))
                         if self.roads[k].successor.contact_point == ContactPoint.start:
                             self.adjust_road_wrt_neighbour(succ_id, k, ContactPoint.end, 'predecessor')
@@ -579,7 +579,7 @@ class OpenDrive():
 
                     if self._is_linked_road_adjusted(self.roads[k].predecessor) is False:
                         pred_id = self.roads[k].predecessor.element_id
-                        print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
+                        print('    Adjusting predecessor connecting road {!a} in junction {!a} to road {!a} '.\
                             format(pred_id, self.roads[k].road_type, self.roads[k].id))
                         if self.roads[k].predecessor.contact_point == ContactPoint.start:
                             self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'predecessor')
-- 
2.43.0


From 5e5ac8241329190f70cc1aa18312fc7a31397710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 26/28] fix: line breaks and tabs in texts survive pretty
 printing

---
 pyodrx/helpers.py | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index ca9a1e3..25f48d8 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -1,5 +1,4 @@
 import xml.etree.ElementTree as ET
-import xml.dom.minidom as mini
 
 
 import os
@@ -40,6 +39,43 @@ def enum2str(enum):
     """
     return enum.name.replace('_',' ')
 
+def _indent(element,level=0):
+    """ helper to put an element and its children on lines of their own
+
+        Parameters
+        ----------
+            element (Element): element to indent
+
+            level (int): number of tabs of the element
+                Default: 0
+
+    """
+    if len(element) > 0:
+        element.text = '\n' + '\t'*(level+1)
+        for child in element:
+            _indent(child,level+1)
+            child.tail = '\n' + '\t'*(level+1)
+        element[-1].tail = '\n' + '\t'*level
+
+
+def _pretty_string(element):
+    """ helper to create the pretty printed text of an element (minidom does not keep line breaks and tabs in attributes)
+
+        Parameters
+        ----------
+            element (Element): element to print
+
+        Returns
+        -------
+            text (str): the text, one line per element
+
+    """
+    rough = ET.tostring(element,'utf-8')
+    reparsed = ET.fromstring(rough)
+    _indent(reparsed)
+    return '<?xml version="1.0" ?>\n' + ET.tostring(reparsed,'unicode') + '\n'
+
+
 def prettyprint(element):
     """ prints the element to the commandline
 
@@ -48,9 +84,7 @@ def prettyprint(element):
             element (Element): element to print
 
     """
-    rough = ET.tostring(element,'utf-8')
-    reparsed = mini.parseString(rough)
-    print(reparsed.toprettyxml(indent="\t"))
+    print(_pretty_string(element))
 
 
 def printToFile(element,filename,prettyprint=True):
@@ -66,9 +100,7 @@ def printToFile(element,filename,prettyprint=True):
 
     """
     if prettyprint:    
-        rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
-        reparsed = mini.parseString(rough)
-        towrite = reparsed.toprettyxml(indent="\t")
+        towrite = _pretty_string(element)
         with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
-- 
2.43.0


From 6fa0eea8c6f8c28e8fa5177243252565394aad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 27/28] fix: allocate object and signal ids under a lock
 (threads could get the same id or a KeyError)

---
 pyodrx/signals_objects.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index da59e78..9c8a36a 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -1,7 +1,21 @@
 import xml.etree.ElementTree as ET
+import functools
+import threading
 from .helpers import enum2str
 from .enumerations import ObjectType, Orientation, Dynamic 
 
+_id_lock = threading.RLock()
+
+def _one_at_a_time(method):
+    """ lets one thread at a time into method, used for the IDs that all instances share
+
+    """
+    @functools.wraps(method)
+    def locked(*args,**kwargs):
+        with _id_lock:
+            return method(*args,**kwargs)
+    return locked
+
 class _SignalObjectBase():
     """ creates a common basis for Signal and Object shall not be instantiated directly
 
@@ -99,6 +113,7 @@ class _SignalObjectBase():
         self.width = width
         self.id = id
         
+    @_one_at_a_time
     def _update_id(self):
         #ensure unique IDs
         try:
-- 
2.43.0


From 0f527529fa1d05f41d67b3df4629bb2bc5faf434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:07 +0000
Subject: [PATCH 28/28] fix: link the lanes of both of two connecting roads
 that follow each other

---
 pyodrx/links.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 6767221..f03e631 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -476,6 +476,9 @@ def create_lane_links(road1,road2):
     #                 _create_links_roads(road2,road1)
     elif road1.road_type != -1:
         _create_links_connecting_road(road1,road2)
+        if road2.road_type != -1:
+            # two connecting roads, one after the other
+            _create_links_connecting_road(road2,road1)
     elif road2.road_type != -1:
 
         _create_links_connecting_road(road2,road1)
-- 
2.43.0


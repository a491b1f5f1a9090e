From c5fded7174a7ad9d23129b1b7aca3953aab5b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 01/34] fix: mergeCluster deleted the arc to a merged node
 instead of redirecting it

Vectors compare with a tolerance, so 'new_source in arc.sinks' matched the
old sink itself when the merged node was (nearly) at the same place, and the
arc was removed from the skeleton.
---
 bpypolyskel/bpypolyskel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 60c9261..cc2acb4 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -659,12 +659,14 @@ def mergeCluster(skeleton, cluster):
     for arc in skeleton:
         if arc.source not in mergedSources:
             to_remove = []
+            redirected = False
             for i,sink in enumerate(arc.sinks):
                 if sink in mergedSources:
-                    if new_source in arc.sinks:
+                    if redirected:
                         to_remove.append(i)
                     else: 
                         arc.sinks[i] = new_source
+                        redirected = True
             for i in sorted(to_remove, reverse = True):
                 del arc.sinks[i]
 
-- 
2.43.0


From 67865ff27d8efbe3ff89241f3e9d864451a1fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 02/34] fix: rays meeting at their own origin were missed due
 to float noise

A bisector that starts on its neighbour's bisector intersects it at u=0, but
the computed u can be slightly negative, so that the edge event got lost.
---
 bpypolyskel/bpyeuclid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index 7d25e36..eb2bd6f 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -1,5 +1,7 @@
 import mathutils
 
+EPSILON = 0.00001
+
 # -------------------------------------------------------------------------
 # from https://bryceboe.com/2006/10/23/line-segment-intersection-algorithm/,
 # works fine with mathutils.Vector
@@ -62,7 +64,7 @@ class Ray2:
         self.v = _v
 
     def intsecttest(self,u):
-        return u>=0.0
+        return u>=-EPSILON
 
     def intersect(self,other):
         return _intersect_line2_line2(self,other)
-- 
2.43.0


From 01dae0ea1c605467985a8b38e0efb116c9c9de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 03/34] fix: face merged by spike removal has to start with an
 edge of the polygon

The face was rotated to its first polygon vertex, whose following edge can
belong to the skeleton.
---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index cc2acb4..4a94a3f 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1124,7 +1124,8 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
             mergedFace = rightFace + leftFace[1:]
 
             # rotate edge list so that edge of original polygon is first edge
-            nextOrigIndex = next(x[0] for x in enumerate(mergedFace) if x[0]<firstSkelIndex and x[1]< firstSkelIndex)
+            nextOrigIndex = next((i for i,e in enumerate(zip(mergedFace, mergedFace[1:]+mergedFace[:1]))
+                                    if e[0] < firstSkelIndex and e[1] < firstSkelIndex), 0)
             mergedFace = mergedFace[nextOrigIndex:] + mergedFace[:nextOrigIndex]
 
             if mergedFace == face:  # no change, will result in endless loop
-- 
2.43.0


From db3e5a24761938897e7eb4289d8ec39e9f509f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 04/34] fix: removing a repeated index rotated the face away
 from its polygon edge

face.remove() deletes the first occurrence, so when the last and the first
index of a face were identical, the face lost its leading polygon vertex.
---
 bpypolyskel/bpypolyskel.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 4a94a3f..923612f 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1166,12 +1166,7 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                 face.remove(item) 
 
         # remove one of adjacent identical vertices
-        verticesToRemove = []
-        for prev,_next in _iterCircularPrevNext(face):
-            if prev == _next:
-                verticesToRemove.append(prev)
-        for item in verticesToRemove:
-            face.remove(item) 
+        face[:] = [ this for this,_next in zip(face, face[1:]+face[:1]) if this != _next ]
 
     if faces is None:
         return faces3D
-- 
2.43.0


From e698939215d9aee6e4b1a919ab63783a6d8179d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 05/34] fix: Line2(p1, p2, 'pp') raised AttributeError, p1 is a
 point

---
 bpypolyskel/bpyeuclid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index eb2bd6f..e35c3e0 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -75,7 +75,7 @@ class Line2:
             self.p = p1.p1.copy()
             self.v = (p1.p2-p1.p1).copy()
         elif ptype == 'pp':
-            self.p = p1.p.copy()
+            self.p = p1.copy()
             self.v = p2-p1
         elif ptype == 'pv':
             self.p = p1.copy()
-- 
2.43.0


From fd7ad97774813379be11b22bf29add5cfff37ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 06/34] fix: printing a DormerEvent raised AttributeError, it
 has no id

---
 bpypolyskel/bpypolyskel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 923612f..c406c85 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -84,9 +84,9 @@ class DormerEvent():
         # print('difference S: ', self.distance - other.distance, self.distance < other.distance, (self.distance - other.distance)< -EPSILON)
         return self.distance < other.distance
     def __str__(self):
-        return "DormerEvent:%4d d=%4.2f, ip=%s"%(self.id,self.distance,self.intersection_point)
+        return "DormerEvent d=%4.2f, ip=%s"%(self.distance,self.intersection_point)
     def __repr__(self):
-        return "DormerEvent:%4d d=%4.2f, ip=%s"%(self.id,self.distance,self.intersection_point)
+        return "DormerEvent d=%4.2f, ip=%s"%(self.distance,self.intersection_point)
 
 _OriginalEdge = namedtuple("_OriginalEdge", "edge bisector_prev, bisector_next")
 
-- 
2.43.0


From 66b1a6369c6dd9e5654e12194f8afeb809d3cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 07/34] fix: height of a dormer's ridge end was that of the
 unrelated split events

The node where the dormer ridge meets the main roof got the distance at which
its corners would split the opposite walls instead of its own distance to the walls.
---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index c406c85..1b3dc48 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -331,7 +331,8 @@ class _SLAV:
         arcs.append( Subtree(ev_edge.intersection_point, ev_edge.distance, [ev_edge.vertex_a.point,ev_edge.vertex_b.point,p] ) )
 
         # from split events
-        arcs.append( Subtree(p, (ev_prev.distance+ev_next.distance)/2.0, [v_prev.point,v_next.point])   )
+        height = ( Line2(v_prev.edge_prev).distance(p) + Line2(v_next.edge_next).distance(p) )/2.0
+        arcs.append( Subtree(p, height, [v_prev.point,v_next.point])   )
     
         for v in toRemove:
             v.invalidate()
-- 
2.43.0


From 2a1554ca9945280f43969d571fc34fd6d6d4fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 08/34] fix: dormer whose corners wrap around the start of the
 contour was ignored

The events of a dormer have to be taken in the order of its corners, and not in
the order of their indices.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 1b3dc48..998c665 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -782,7 +782,7 @@ def processDormers(dormers,initialEvents):
     dormerEventIndices = []
     for dormer in dormers:
         dormerIndices = dormer[0]
-        d_events = [ev for i,ev in enumerate(initialEvents) if i in dormerIndices]
+        d_events = [initialEvents[i] for i in dormerIndices]
         if all([(d is not None) for d in d_events]): # if all events are valid
             if  not isinstance(d_events[0], _SplitEvent) or \
                 not isinstance(d_events[1], _EdgeEvent) or \
-- 
2.43.0


From 95f9327e642931b9b5717676a602df6210c17301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 09/34] hook: let a model checker observe the wavefront and
 order simultaneous events

Only if the environment variable BPYPOLYSKEL_MC is set.
---
 bpypolyskel/bpypolyskel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 998c665..c5de8e8 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -22,6 +22,7 @@ in order to be able to use it in Blender. The main changes are:
 """
 
 import heapq
+import os
 from collections import namedtuple
 from itertools import *
 from collections import Counter
@@ -42,6 +43,11 @@ PARALLEL = 0.01     # set this value to 1-cos(alpha), where alpha is the largest
 # in the function skeletonize(..)
 debugOutputs = {}
 
+# Hook for model checking. It is available only if the environment variable BPYPOLYSKEL_MC
+# is set. The function mcHook['batch'] then observes the wavefront <slav> before every batch
+# of simultaneous events and returns the order, in which these events get handled.
+mcHook = {} if os.environ.get('BPYPOLYSKEL_MC') else None
+
 
 def _iterCircularPrevNext(lst):
     prevs, nexts = tee(lst)
@@ -856,6 +862,8 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
 
     while not (prioque.empty() or slav.empty()):
         topEventList = prioque.getAllEqualDistance()
+        if mcHook:
+            topEventList = mcHook['batch'](topEventList, slav)
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
-- 
2.43.0


From 45799598d4036d57cab5df7b717c42e6974745ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 10/34] fix: coincident nodes near the center of an apse have
 to be merged

Nodes near an apse center never got merged, not even those at the same place.
The edges of length zero between them crashed the sort by angle (division by
zero) or broke the faces of round apses.
---
 bpypolyskel/bpypolyskel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index c5de8e8..f083085 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -608,7 +608,10 @@ def findClusters(skeleton, candidates, contourVertices, edgeContours, thresh):
                     if isApseCluster:
                         break
                 if isApseCluster:
-                    continue
+                    # nodes that differ only by floating-point noise are one and the same node
+                    cluster = [c for c in cluster if (ref.source-skeleton[c].source).magnitude < 0.001]
+                    if len(cluster) < 2:
+                        continue
 
             # detect sinks in this cluster, that are contour vertices of the footprint
             nrOfContourSinks = 0
-- 
2.43.0


From f1e67141ab6fd9e4788cca394076c16fd3a8e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 11/34] fix: a corner of 180 degrees had no bisector and got a
 wrong roof

The sum of the two edge directions is the zero vector there, so the vertex
never took part in any event.
---
 bpypolyskel/bpypolyskel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index f083085..e2d375f 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -123,6 +123,10 @@ class _LAVertex:
         if forceConvex:
             self._is_reflex = False
         op_add_result = creator_vectors[0] + creator_vectors[1]
+        if op_add_result.magnitude < EPSILON:
+            # both edges are on the same line, the bisector is perpendicular to them
+            op_add_result = mathutils.Vector((-edge_next.norm.y, edge_next.norm.x))
+            self._is_reflex = False
         self._bisector = Ray2(self.point, op_add_result * (-1 if self._is_reflex else 1))
         # Vertex created
 
-- 
2.43.0


From 50a57f4e4b69d4daf10157cd81b2c2d688ab5ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 12/34] fix: duplicated edges of merged skeleton nodes left a
 loop or lost an edge

---
 bpypolyskel/bpypolyskel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index e2d375f..1bd5dea 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -505,10 +505,13 @@ def checkEdgeCrossing(skeleton):
 
 
 def removeGhosts(skeleton):
-    # remove loops
+    # remove loops and duplicate edges (left by merged nodes)
     for arc in skeleton:
-        if arc.source in arc.sinks:
-            arc.sinks.remove(arc.source)
+        sinks = []
+        for sink in arc.sinks:
+            if sink != arc.source and sink not in sinks:
+                sinks.append(sink)
+        arc.sinks[:] = sinks
     # find and resolve parallel or crossed skeleton edges
     for arc in skeleton:
         source = arc.source
-- 
2.43.0


From b43ea1377b630ecf41b63dc9f582f96b07760c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 13/34] fix: parts of a LAV that has been split could merge
 again

---
 bpypolyskel/bpypolyskel.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 1bd5dea..7a7c91e 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -220,15 +220,17 @@ class _LAVertex:
         return ev
 
 class _LAV:
-    def __init__(self, slav):
+    def __init__(self, slav, contours):
         self.head = None
         self._slav = slav
         self._len = 0
+        # contours of the footprint, this LAV originates from
+        self.contours = contours
 
     @classmethod
     # edgeContour is a list of edges of class Edge2
-    def from_polygon(cls, edgeContour, slav):
-        lav = cls(slav)
+    def from_polygon(cls, edgeContour, slav, contour):
+        lav = cls(slav, {contour})
         for prev, nxt in _iterCircularPrevNext(edgeContour):
             # V(i) is the current vertex
             # prev is the edge from vertex V(i-1) to V(i)
@@ -247,8 +249,8 @@ class _LAV:
         return lav
 
     @classmethod
-    def from_chain(cls, head, slav):
-        lav = cls(slav)
+    def from_chain(cls, head, slav, contours):
+        lav = cls(slav, contours)
         lav.head = head
         for vertex in lav:
             lav._len += 1
@@ -298,7 +300,7 @@ class _LAV:
 
 class _SLAV:
     def __init__(self, edgeContours):
-        self._lavs = [_LAV.from_polygon(edgeContour, self) for edgeContour in edgeContours]
+        self._lavs = [_LAV.from_polygon(edgeContour, self, i) for i, edgeContour in enumerate(edgeContours)]
 
         # store original polygon edges for calculation of split events
         self._original_edges = [
@@ -331,7 +333,7 @@ class _SLAV:
         v_prev.prev.next = v_next.next
         v_next.next.prev = v_prev.prev
 
-        new_lav = [_LAV.from_chain(lav.head, self)]
+        new_lav = [_LAV.from_chain(lav.head, self, lav.contours)]
         self._lavs.remove(lav)
         self._lavs.append(new_lav[0])
 
@@ -380,6 +382,9 @@ class _SLAV:
         y = None  # previous vertex
         norm = event.opposite_edge.norm
         for v in chain.from_iterable(self._lavs):
+            # LAVs that have been split never merge again
+            if v.lav is not lav and not v.lav.contours.isdisjoint(lav.contours):
+                continue
             if norm == v.edge_prev.norm and event.opposite_edge.p1 == v.edge_prev.p1:
                 x = v
                 y = x.prev
@@ -419,9 +424,9 @@ class _SLAV:
         if lav != x.lav:
             # the split event actually merges two lavs
             self._lavs.remove(x.lav)
-            new_lavs = [_LAV.from_chain(v1, self)]
+            new_lavs = [_LAV.from_chain(v1, self, lav.contours | x.lav.contours)]
         else:
-            new_lavs = [_LAV.from_chain(v1, self), _LAV.from_chain(v2, self)]
+            new_lavs = [_LAV.from_chain(v1, self, lav.contours), _LAV.from_chain(v2, self, lav.contours)]
 
         for l in new_lavs:
             if len(l) > 2:
-- 
2.43.0


From 665e95dc673f9beb093adbf1d9057bb9e454a8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 14/34] fix: split points were displaced at right angles

---
 bpypolyskel/bpypolyskel.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 7a7c91e..b19bbaa 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -174,8 +174,6 @@ class _LAVertex:
                     # locate candidate b
                     linvec = (self.point - i).normalized()
                     edvec = edge.edge.norm
-                    if abs(self.bisector.v.cross(linvec) - 1.0) < EPSILON:
-                        linvec = (self.point - i + edvec*0.01 ).normalized()
                     if self.bisector.v.cross(linvec) < 0: 
                         edvec = -edvec
 
-- 
2.43.0


From 10cd3f45ae3a1cd04ccac62fe2cb13299a010722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 15/34] fix: vertices that survive a stale edge event lost
 their event

---
 bpypolyskel/bpypolyskel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b19bbaa..a17d453 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -880,7 +880,11 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
-                   continue
+                    # a neighbor has vanished by another event, so that the event of a remaining vertex may have changed
+                    for vertex in (i.vertex_a, i.vertex_b):
+                        if vertex.is_valid:
+                            prioque.put(vertex.next_event())
+                    continue
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
                 if not i.vertex.is_valid:
-- 
2.43.0


From c2cfdc8e1b4b6408a8781b12094fa55c76dbca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 16/34] fix: an edge event is stale if its vertices are no
 longer adjacent

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index a17d453..882b791 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -879,7 +879,7 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
             topEventList = mcHook['batch'](topEventList, slav)
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
-                if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
+                if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next is not i.vertex_b:
                     # a neighbor has vanished by another event, so that the event of a remaining vertex may have changed
                     for vertex in (i.vertex_a, i.vertex_b):
                         if vertex.is_valid:
-- 
2.43.0


From 45399cb2f8adeb828c624980eada044a0a508353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 17/34] fix: simultaneous events were processed in arbitrary
 order

---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 882b791..fc030ee 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -877,6 +877,8 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         topEventList = prioque.getAllEqualDistance()
         if mcHook:
             topEventList = mcHook['batch'](topEventList, slav)
+        # split events first, then the edge events, short edges collapse first
+        topEventList.sort(key=lambda e: (e.vertex_a.point-e.vertex_b.point).length if isinstance(e,_EdgeEvent) else -1)
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next is not i.vertex_b:
-- 
2.43.0


From 06a35878f22c450713a73848133dc682dff8f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 18/34] fix: vertices that survive a stale dormer event lost
 their event

---
 bpypolyskel/bpypolyskel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index fc030ee..54b7bfd 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -893,7 +893,9 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                     continue
                 (arc, events) = slav.handle_split_event(i)
             elif isinstance(i, DormerEvent):
-                if not i.eventList[0].vertex.is_valid or not i.eventList[1].vertex.is_valid:
+                vertices = (i.eventList[0].vertex, i.eventList[2].vertex_a, i.eventList[2].vertex_b, i.eventList[1].vertex)
+                if not all(vertex.is_valid for vertex in vertices):
+                    prioque.put_all(ev for ev in (vertex.next_event() for vertex in vertices if vertex.is_valid) if ev)
                     continue
                 (arc, events) = slav.handle_dormer_event(i)
             prioque.put_all(events)
-- 
2.43.0


From 378a9eefa51545a5236c6e5fa4351ed0427447fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 19/34] fix: no dormer, if one of its vertices hits another
 edge before

---
 bpypolyskel/bpypolyskel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 54b7bfd..517ede6 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -813,6 +813,9 @@ def processDormers(dormers,initialEvents):
             v_next = ev_next.vertex
             p = v_prev.bisector.intersect(v_next.bisector)
             d = dormer[1]/2.0
+            # no dormer, if one of its vertices hits another edge before
+            if any(ev.distance < d-EPSILON and ev.opposite_edge not in (v_prev.edge_next, v_next.edge_prev) for ev in (ev_prev, ev_next)):
+                continue
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
             dormerEventIndices.extend(dormerIndices)
-- 
2.43.0


From ffef8ed0764edba6f9f32fe49b4f041a1ab8d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 20/34] fix: vertices that move on the same line never met

---
 bpypolyskel/bpypolyskel.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 517ede6..8555d52 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -152,6 +152,15 @@ class _LAVertex:
     def is_valid(self):
         return self._valid
 
+    def meeting_point(self, neighbor):
+        v = self.bisector.v.normalized()
+        nv = neighbor.bisector.v.normalized()
+        diff = neighbor.point - self.point
+        if v.dot(nv) > 0. and abs(v.cross(nv)) < EPSILON and abs(v.cross(diff)) < 0.001:
+            # both vertices move on the same line, they are together since the later one exists
+            return neighbor.point if v.dot(diff) > 0. else self.point
+        return self.bisector.intersect(neighbor.bisector)
+
     def next_event(self):
         events = []
         if self.is_reflex:
@@ -201,8 +210,8 @@ class _LAVertex:
                     # Found valid candidate
                     events.append(_SplitEvent(Line2(edge.edge).distance(b), b, self, edge.edge))
 
-        i_prev = self.bisector.intersect(self.prev.bisector)
-        i_next = self.bisector.intersect(self.next.bisector)
+        i_prev = self.meeting_point(self.prev)
+        i_next = self.meeting_point(self.next)
 
         if i_prev is not None:
             events.append(_EdgeEvent(Line2(self.edge_prev).distance(i_prev), i_prev, self.prev, self))
-- 
2.43.0


From 4e2946f3d35f2992e945ba9e134f0ee410482c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 21/34] fix: ZeroDivisionError for a straight wall with many
 vertices

---
 bpypolyskel/bpypolyskel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 8555d52..de947ec 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -595,6 +595,10 @@ def detectApses(outerContour):
         if s < N and s >= nextStart:
             apseIndices = [ i%len(sequence) for i in range(*apse.span())]
             apseVertices = [outerContour[i].p1 for i in apseIndices]
+            first, middle, last = apseVertices[0], apseVertices[len(apseVertices)//2], apseVertices[-1]
+            if abs((middle-first).cross(last-first)) < EPSILON:
+                # a straight wall is no apse
+                continue
             center, R = fitCircle3Points(apseVertices)
             centers.append(center)
     
-- 
2.43.0


From 5a071f810d851dfa5a34bf87cb7c7a2819d7f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 22/34] fix: detection of a dormer depended on the start of the
 contour

---
 bpypolyskel/bpypolyskel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index de947ec..6d882a5 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -802,8 +802,8 @@ def detectDormers(slav, edgeContours):
         d = abs(d1-d2)/(d1+d2)  # "contrast" of side edges lengths^2
         d3 = outerContour[(oi[0]+N-1)%N].length_squared()   # length^2 of previous edge
         d4 = outerContour[oi[3]].length_squared()           # length^2 of next edge
-        facLeft = 0.125 if sequence[(s+N-1)%N] != 'L' else 1.5
-        facRight = 0.125 if sequence[(s+4)%N] != 'L' else 1.5
+        facLeft = 0.125 if sequence[(oi[0]+N-1)%N] != 'L' else 1.5
+        facRight = 0.125 if sequence[(oi[0]+4)%N] != 'L' else 1.5
         if w < 100 and d < 0.35 and d3 >= w*facLeft and d4 >= w*facRight:
             dormers.append((oi,(outerContour[oi[1]].p1-outerContour[oi[1]].p2).magnitude))
             
-- 
2.43.0


From fdb8b804a142ab4b218d2cebe83eb28e4c05dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 23/34] fix: edge events that are not quite simultaneous have
 to keep their order

---
 bpypolyskel/bpypolyskel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 6d882a5..5b2796d 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -894,7 +894,9 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         if mcHook:
             topEventList = mcHook['batch'](topEventList, slav)
         # split events first, then the edge events, short edges collapse first
-        topEventList.sort(key=lambda e: (e.vertex_a.point-e.vertex_b.point).length if isinstance(e,_EdgeEvent) else -1)
+        # if their distance differs by floating-point noise only
+        d0 = min(e.distance for e in topEventList)
+        topEventList.sort(key=lambda e: (int((e.distance-d0)/0.0001), (e.vertex_a.point-e.vertex_b.point).length) if isinstance(e,_EdgeEvent) else (-1,0))
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next is not i.vertex_b:
-- 
2.43.0


From 66ee971f165e28a9ee7d798509a7833e34ed6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 24/34] fix: simultaneous events ignored those generated for
 the remains of a stale event

---
 bpypolyskel/bpypolyskel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 5b2796d..3ebd8c3 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -897,14 +897,17 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         # if their distance differs by floating-point noise only
         d0 = min(e.distance for e in topEventList)
         topEventList.sort(key=lambda e: (int((e.distance-d0)/0.0001), (e.vertex_a.point-e.vertex_b.point).length) if isinstance(e,_EdgeEvent) else (-1,0))
-        for i in topEventList:
+        while topEventList:
+            i = topEventList.pop(0)
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next is not i.vertex_b:
                     # a neighbor has vanished by another event, so that the event of a remaining vertex may have changed
                     for vertex in (i.vertex_a, i.vertex_b):
                         if vertex.is_valid:
                             prioque.put(vertex.next_event())
-                    continue
+                    # the new events may precede the remaining ones
+                    prioque.put_all(topEventList)
+                    break
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
                 if not i.vertex.is_valid:
-- 
2.43.0


From bff35e6a7aa573d21f6b2004bd571e6960950447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 25/34] fix: a ridge vertex has to stop at the nearest of
 simultaneous events

---
 bpypolyskel/bpypolyskel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 3ebd8c3..9b26317 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -894,9 +894,12 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         if mcHook:
             topEventList = mcHook['batch'](topEventList, slav)
         # split events first, then the edge events, short edges collapse first
-        # if their distance differs by floating-point noise only
+        # if their distance differs by floating-point noise only; but vertices that have been created
+        # by a simultaneous event travel to the nearest one before
         d0 = min(e.distance for e in topEventList)
-        topEventList.sort(key=lambda e: (int((e.distance-d0)/0.0001), (e.vertex_a.point-e.vertex_b.point).length) if isinstance(e,_EdgeEvent) else (-1,0))
+        travel = lambda e: max((e.intersection_point-v.point).length if Line2(v.edge_next).distance(v.point) > e.distance-0.001 else 0.
+                               for v in (e.vertex_a,e.vertex_b))
+        topEventList.sort(key=lambda e: (int((e.distance-d0)/0.0001), travel(e), (e.vertex_a.point-e.vertex_b.point).length) if isinstance(e,_EdgeEvent) else (-1,0))
         while topEventList:
             i = topEventList.pop(0)
             if isinstance(i, _EdgeEvent):
-- 
2.43.0


From 1537b8aa2a26bf31409a85d3e9eb04bafa3200f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 26/34] fix: the merged faces depended on the values of the
 vertex indices

---
 bpypolyskel/poly2FacesGraph.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bpypolyskel/poly2FacesGraph.py b/bpypolyskel/poly2FacesGraph.py
index a854348..e1c2444 100644
--- a/bpypolyskel/poly2FacesGraph.py
+++ b/bpypolyskel/poly2FacesGraph.py
@@ -34,10 +34,8 @@ class poly2FacesGraph:
     def add_edge(self, edge):
     # edge of type set, tuple or list,
     # loops are not allowed, but not tested. 
-        edge = set(edge)
-        if len(edge) == 2:  # exclude loops
-            vertex1 = edge.pop()
-            vertex2 = edge.pop()
+        vertex1, vertex2 = edge
+        if vertex1 != vertex2:  # exclude loops
             self.add_vertex(vertex1)
             self.add_vertex(vertex2)
             self.g_dict[vertex1].append(vertex2)
@@ -69,10 +67,11 @@ class poly2FacesGraph:
     def faces(self, embedding, nrOfPolyVerts):
         # adapted from SAGE's trace_faces
 
-        # establish set of possible edges
-        edgeset = set([])
+        # establish set of possible edges (a dictionary, because the order of the faces must not
+        # depend on the values of the indices)
+        edgeset = {}
         for edge in self.edges():
-            edgeset = edgeset.union( set([(edge[0],edge[1]),(edge[1],edge[0])]))
+            edgeset[edge[0],edge[1]] = edgeset[edge[1],edge[0]] = True
 
         # storage for face paths
         faces = []
@@ -80,7 +79,7 @@ class poly2FacesGraph:
         face_id = 0
         for edge in edgeset:
             path.append(edge)
-            edgeset -= set([edge])
+            del edgeset[edge]
             break  # (Only one iteration)
 
         # Trace faces
@@ -96,13 +95,13 @@ class poly2FacesGraph:
                 path = []
                 for edge in edgeset:
                     path.append(edge)
-                    edgeset -= set([edge])
+                    del edgeset[edge]
                     break  # (Only one iteration)
             else:
                 if tup in path:
                     raise Exception('Endless loop catched in poly2FacesGraph faces()') 
                 path.append(tup)
-                edgeset -= set([tup])
+                edgeset.pop(tup,None)
         if (len(path) != 0):
             # convert edge list in vertices list
             vert_list = [e[0] for e in path]
-- 
2.43.0


From 3435d55835d3936432fcd8cbea9a3f439817664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 27/34] fix: corners of round walls lost their edge event due
 to float noise

The rays of vertices created by simultaneous events start at almost the same
point, and intersect slightly behind their origins. The tolerance of Ray2 was
relative to the length of its vector, and smaller than the noise of single
precision. It is now a distance, like the other tolerances.
---
 bpypolyskel/bpyeuclid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index e35c3e0..3b38eb8 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -64,7 +64,8 @@ class Ray2:
         self.v = _v
 
     def intsecttest(self,u):
-        return u>=-EPSILON
+        # the origin itself counts, also if float noise puts it slightly behind
+        return u*self.v.magnitude >= -0.001
 
     def intersect(self,other):
         return _intersect_line2_line2(self,other)
-- 
2.43.0


From 972bd0084267da284c21ef8b7e944efe65b18eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 28/34] fix: the status of the last line lost a character if
 the log has no final newline

---
 misc/get_osm_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/get_osm_files.py b/misc/get_osm_files.py
index f53ee66..397e7dd 100644
--- a/misc/get_osm_files.py
+++ b/misc/get_osm_files.py
@@ -21,7 +21,7 @@ with open(logFilepath, 'r') as logFile:
         # Position of the separator between the type of the OSM elemement (way or relation) and
         # the status string
         statusPosition = line.rfind('|')
-        status = line[statusPosition+1:-1]
+        status = line[statusPosition+1:].rstrip('\n')
         if status in ("Flat roof", "Not hipped roof"):
             continue
         # position of the separator between the osm id and the type of the OSM element (way or relation)
-- 
2.43.0


From 276c754212da3eb252f2fcad133eee36121e2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 29/34] fix: the second vertex of merged wavefronts got no
 event

---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 9b26317..6e7d178 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -438,7 +438,8 @@ class _SLAV:
         for l in new_lavs:
             if len(l) > 2:
                 self._lavs.append(l)
-                vertices.append(l.head)
+                # merged contours contain both of the new vertices
+                vertices.extend([l.head] if len(new_lavs) > 1 else [v1, v2])
             else:
                 # LAV has collapsed into the line
                 sinks.append(l.head.next.point)
-- 
2.43.0


From 5fd2ef9ecc0d632010c58c95724e94944160479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 30/34] fix: an edge event at the starting point of a vertex
 that has left it already

---
 bpypolyskel/bpypolyskel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 6e7d178..cfff72b 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -159,7 +159,14 @@ class _LAVertex:
         if v.dot(nv) > 0. and abs(v.cross(nv)) < EPSILON and abs(v.cross(diff)) < 0.001:
             # both vertices move on the same line, they are together since the later one exists
             return neighbor.point if v.dot(diff) > 0. else self.point
-        return self.bisector.intersect(neighbor.bisector)
+        i = self.bisector.intersect(neighbor.bisector)
+        if i is not None and diff.magnitude > 0.001:
+            # a vertex has left its starting point already, if its neighbor was created later
+            wall = Line2(self.edge_next if self.next is neighbor else self.edge_prev)
+            age = wall.distance(neighbor.point) - wall.distance(self.point)
+            if age > 0.001 and (i-self.point).magnitude < 0.001 or age < -0.001 and (i-neighbor.point).magnitude < 0.001:
+                return None
+        return i
 
     def next_event(self):
         events = []
-- 
2.43.0


From 345041423855f93f247cb2f7bede3408485983da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 31/34] fix: the removal of a spike joined the faces of two
 walls

---
 bpypolyskel/bpypolyskel.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index cfff72b..a222b04 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1139,7 +1139,7 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                 else:
                     continue
                 crossSine = s0.cross(s1)
-                if abs(dotCosine + 1.0) < PARALLEL and crossSine > -EPSILON: # spike edge to left
+                if abs(dotCosine + 1.0) < PARALLEL and -EPSILON < crossSine < 0.1*max(s0m,s1m): # spike edge to left
                     # the spike's peak is at 'this'
                     hadSpikes = True
                     break
@@ -1173,6 +1173,18 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                     face.remove(this)
                 break   # that's it for this face
 
+            # faces that are not only joined by the spike stay separated: its area falls to the one at its longer edge
+            if s0m < s1m and prev not in faces3D[leftIndx]:
+                f = faces3D[leftIndx]
+                f.insert(f.index(_next)+1, prev)
+                face.remove(this)
+                break
+            if s0m >= s1m and _next not in faces3D[rightIndx]:
+                f = faces3D[rightIndx]
+                f.insert(f.index(this)+1, _next)
+                face.remove(this)
+                break
+
             # rotate right face so that 'prev' is in first place
             rightFace = faces3D[rightIndx]
             rotIndex = next(x[0] for x in enumerate(rightFace)  if x[1] == prev )
-- 
2.43.0


From 71113b95aadb48bb7bd62b6155c31fb353a02ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 32/34] fix: division by zero for details of buildings far from
 the origin

---
 bpypolyskel/bpypolyskel.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index a222b04..c3b8085 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1113,8 +1113,16 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                     sIndex = -1 # error
             graph.add_edge( (aIndex,sIndex) )
 
+    # 2D coordinates relative to the center, because near nodes may coincide in verts due to rounding,
+    # if the polygon is far from the origin
+    localVerts = {i: (verts[i]-center).xy for i in range(firstVertIndex, firstVertIndex+numVerts)}
+    if holesInfo:
+        for firstVertIndexHole,numVertsHole in holesInfo:
+            localVerts.update( (i, (verts[i]-center).xy) for i in range(firstVertIndexHole, firstVertIndexHole+numVertsHole) )
+    localVerts.update( (index+firstSkelIndex, arc.source) for index, arc in enumerate(skeleton) )
+
     # generate clockwise circular embedding
-    embedding = graph.circular_embedding(verts,'CCW')
+    embedding = graph.circular_embedding(localVerts,'CCW')
 
     # compute list of faces, the vertex indices are still related to verts2D
     faces3D = graph.faces(embedding, firstSkelIndex)
@@ -1128,10 +1136,8 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
             if len(face) <= 3:   # a triangle is not considered as spike
                 continue
             for prev, this, _next in _iterCircularPrevThisNext(face):
-                s0 = verts[this]-verts[prev]  # verts are 3D vectors
-                s1 = verts[_next]-verts[this]
-                s0 = s0.xy  # need 2D-vectors
-                s1 = s1.xy 
+                s0 = localVerts[this]-localVerts[prev]
+                s1 = localVerts[_next]-localVerts[this]
                 s0m = s0.magnitude
                 s1m = s1.magnitude
                 if s0m and s1m:
@@ -1223,10 +1229,8 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                 # two adjacent faces, otherwise its a node.
                 # But do not remove original polygon vertices.
                 if counts[this] < 3 and this >= firstSkelIndex:
-                    s0 = verts[this]-verts[prev]
-                    s1 = verts[_next]-verts[this]
-                    s0 = mathutils.Vector((s0[0],s0[1]))    # need 2D-vector
-                    s1 = mathutils.Vector((s1[0],s1[1]))
+                    s0 = localVerts[this]-localVerts[prev]
+                    s1 = localVerts[_next]-localVerts[this]
                     s0m = s0.magnitude
                     s1m = s1.magnitude
                     if s0m!=0.0 and s1m!=0.0:
-- 
2.43.0


From f57d90cd3d5607ad68bca07ee572532690c021d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 33/34] fix: split events at almost parallel walls were
 displaced by rounding

---
 bpypolyskel/bpypolyskel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index c3b8085..b1cf5c4 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -200,6 +200,15 @@ class _LAVertex:
 
                     b = bisector.intersect(self.bisector)
 
+                    if abs(selfedge.norm.cross(edge.edge.norm)) < 0.001:
+                        # their intersection is too far away for single precision, find the point of
+                        # our own bisector that has the same distance to both edges
+                        ownNormal = mathutils.Vector((-selfedge.norm.y, selfedge.norm.x))
+                        oppNormal = mathutils.Vector((-edge.edge.norm.y, edge.edge.norm.x))
+                        speed = self.bisector.v.dot(ownNormal-oppNormal)
+                        gap = (self.point-edge.edge.p1).dot(oppNormal) - (self.point-selfedge.p1).dot(ownNormal)
+                        b = self.point + self.bisector.v*(gap/speed) if speed and gap/speed >= 0. else None
+
                     if b is None:
                         continue
 
-- 
2.43.0


From cda04241276520fd2a5a4d393591280fa3a36fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 34/34] fix: coincident nodes of an apse stayed separate, if a
 node nearby did not coincide with them

---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b1cf5c4..aa6ecc5 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -649,6 +649,8 @@ def findClusters(skeleton, candidates, contourVertices, edgeContours, thresh):
                         break
                 if isApseCluster:
                     # nodes that differ only by floating-point noise are one and the same node
+                    # (the other ones may be so among themselves)
+                    candidates[:0] = [c for c in cluster if (ref.source-skeleton[c].source).magnitude >= 0.001]
                     cluster = [c for c in cluster if (ref.source-skeleton[c].source).magnitude < 0.001]
                     if len(cluster) < 2:
                         continue
-- 
2.43.0


From dd01f228dda55c8551983c2bf279be696f6c9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 1/2] fix: make the greatest requested sizes reachable

Point grids have a prime size, so with the number of coordinates bounded by
the maximum itself contours, polygons and multicontours of sizes between the
largest prime below the maximum and the maximum were never generated.
---
 hypothesis_geometry/_core/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hypothesis_geometry/_core/base.py b/hypothesis_geometry/_core/base.py
index 7e5f410..727236b 100644
--- a/hypothesis_geometry/_core/base.py
+++ b/hypothesis_geometry/_core/base.py
@@ -938,7 +938,14 @@ def to_point_sequence_in_general_position_strategy(
 ) -> st.SearchStrategy[Sequence[Point[ScalarT]]]:
     grid_size_lower_bound = to_next_prime(min_size)
     grid_size_upper_bound = (
-        max_size if max_size is None else max(max_size, grid_size_lower_bound)
+        None
+        if max_size is None
+        else max(
+            max_size,
+            # grid sizes are prime, so the bound itself should be reachable,
+            # but there is no use in searching for primes of enormous size
+            to_next_prime(max(min(max_size, 1 << 16), min_size)),
+        )
     )
 
     def coordinate_sequence_pair_to_point_sequence_strategy(
-- 
2.43.0


From e45ec2b41e20ca57d5b02e4462ac8e9cdde2d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 2/2] fix: order star contour vertices around a point inside of
 them

The centroid of the previous region may lie outside of the vertices left,
so ordering them around it could give a self-intersecting contour of zero area
and a ZeroDivisionError instead of a candidate.
---
 hypothesis_geometry/_core/factories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis_geometry/_core/factories.py b/hypothesis_geometry/_core/factories.py
index faa937a..e88ac25 100644
--- a/hypothesis_geometry/_core/factories.py
+++ b/hypothesis_geometry/_core/factories.py
@@ -229,7 +229,6 @@ def _to_segment_angle(start: Point[ScalarT], end: Point[ScalarT], /) -> float:
 def to_star_contour_vertices(
     points: Sequence[Point[ScalarT]], /, *, context: Context[ScalarT]
 ) -> Sequence[Point[ScalarT]]:
-    centroid = context.multipoint_centroid(context.multipoint_cls(points))
     contour_cls, region_centroid_constructor, orienteer = (
         context.contour_cls,
         context.region_centroid,
@@ -238,6 +237,9 @@ def to_star_contour_vertices(
     result, prev_size = points, len(points) + 1
     while 2 < len(result) < prev_size:
         prev_size = len(result)
+        # centroid of the previous region may lie outside the points left,
+        # ordering around it can give a region of zero area
+        centroid = context.multipoint_centroid(context.multipoint_cls(result))
         result = [
             deque(candidates, maxlen=1)[0][1]
             for _, candidates in groupby(
-- 
2.43.0


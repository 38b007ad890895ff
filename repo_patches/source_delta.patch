From 476f996233525ddaa271e8f2370f45fa37d40096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 01/24] fix: emit each remaining segment once when subtracting
 shaped from linear

---
 rene/_clipping/difference.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index 5aea7a6..299cee5 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -239,7 +239,8 @@ def subtract_multipolygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_right(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -382,7 +383,8 @@ def subtract_multipolygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_right(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
@@ -689,7 +691,8 @@ def subtract_polygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_right(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -803,7 +806,8 @@ def subtract_polygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_right(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
-- 
2.43.0


From 196745ae46e3c64cd82a7c4343a1379aa77c76d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 02/24] fix: keep subtracting shaped from linear when boxes
 share only a side

---
 rene/_clipping/difference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index 299cee5..a25a720 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -178,7 +178,7 @@ def subtract_multipolygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -340,7 +340,7 @@ def subtract_multipolygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -646,7 +646,7 @@ def subtract_polygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -779,7 +779,7 @@ def subtract_polygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
-- 
2.43.0


From e2cef4ea99ba5587961ec43dfe8f8bdb411f01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 03/24] fix: remove finished segments from sweep line when
 relating linear with shaped

---
 rene/_relating/mixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 9719c02..af6ce7b 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -473,7 +473,7 @@ class Operation(ABC, Generic[hints.ScalarT]):
 
     def _remove(self, event: Event, /) -> None:
         assert is_event_left(event)
-        self._sweep_line_data[self._to_sweep_line_key(event)] = event
+        del self._sweep_line_data[self._to_sweep_line_key(event)]
 
     def _to_left_event(self, event: Event, /) -> Event:
         return (
-- 
2.43.0


From 5545172d608126b489e3b0ca41a3e6a03cdf6232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 04/24] fix: respect contours orientation when relating with
 shaped geometries

---
 rene/_relating/multisegmental.py    | 11 +----------
 rene/_relating/segment.py           | 12 +++++++++---
 rene/_relating/segment_endpoints.py | 14 ++++++++------
 rene/_relating/utils.py             | 22 ++++++++++++++++++++--
 4 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index a4326ba..6506699 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -289,16 +289,7 @@ def relate_to_polygon(
     ]
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
-        chain(
-            polygon.border.segments,
-            chain.from_iterable(
-                hole.segments
-                for hole in polygon.holes
-                if not hole.bounding_box.disjoint_with(
-                    multisegmental_bounding_box
-                )
-            ),
-        ),
+        polygon_to_segments(polygon, multisegmental_bounding_box),
         orienteer,
         segments_intersector,
     ).to_relation(
diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index 7391910..5683139 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -4,7 +4,7 @@ import typing as t
 from itertools import chain
 
 from rene._utils import to_boxes_ids_with_intersection
-from rene.enums import Relation
+from rene.enums import Orientation, Relation
 
 from . import mixed
 from .segment_endpoints import (
@@ -13,7 +13,7 @@ from .segment_endpoints import (
     relate_to_region as relate_endpoints_to_region,
     relate_to_segment_endpoints as relate_endpoints_to_endpoints,
 )
-from .utils import polygon_to_segments
+from .utils import contour_to_oriented_segments, polygon_to_segments
 
 if t.TYPE_CHECKING:
     from rene import hints
@@ -98,7 +98,13 @@ def relate_to_multiregion(
     )
     return mixed.LinearShapedOperation.from_segments_iterables(
         [segment],
-        [edge for border in borders for edge in border.segments],
+        [
+            edge
+            for border in borders
+            for edge in contour_to_oriented_segments(
+                border, Orientation.COUNTERCLOCKWISE
+            )
+        ],
         orienteer,
         segments_intersector,
     ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
diff --git a/rene/_relating/segment_endpoints.py b/rene/_relating/segment_endpoints.py
index 493ed13..2d9b7f7 100644
--- a/rene/_relating/segment_endpoints.py
+++ b/rene/_relating/segment_endpoints.py
@@ -10,6 +10,8 @@ from rene._utils import (
 )
 from rene.enums import Location, Orientation, Relation
 
+from .utils import contour_to_oriented_segments
+
 if t.TYPE_CHECKING:
     from rene import hints
     from rene._hints import Orienteer, SegmentsIntersectionScale
@@ -359,7 +361,12 @@ def relate_to_region(
     reverse_orientation: bool,
     orienteer: Orienteer[hints.ScalarT],
 ) -> Relation:
-    edges = border.segments
+    border_orientation = (
+        Orientation.CLOCKWISE
+        if reverse_orientation
+        else Orientation.COUNTERCLOCKWISE
+    )
+    edges = contour_to_oriented_segments(border, border_orientation)
     relation_with_border = _relate_to_region_border(
         start, end, edges, orienteer
     )
@@ -391,11 +398,6 @@ def relate_to_region(
     assert end_location is Location.BOUNDARY, end_location
     edge = edges[start_index]
     edge_start, edge_end = edge.start, edge.end
-    border_orientation = (
-        Orientation.CLOCKWISE
-        if reverse_orientation
-        else Orientation.COUNTERCLOCKWISE
-    )
     if start == edge_start:
         prev_start = (
             edges[(start_index + 1) % len(edges)].end
diff --git a/rene/_relating/utils.py b/rene/_relating/utils.py
index 8db4c4a..f5ee015 100644
--- a/rene/_relating/utils.py
+++ b/rene/_relating/utils.py
@@ -3,19 +3,37 @@ from __future__ import annotations
 import typing as t
 from itertools import chain
 
+from rene.enums import Orientation
+
 if t.TYPE_CHECKING:
     from rene import hints
 
 
+def contour_to_oriented_segments(
+    contour: hints.Contour[hints.ScalarT], orientation: Orientation, /
+) -> t.Sequence[hints.Segment[hints.ScalarT]]:
+    segments = contour.segments
+    return (
+        segments
+        if contour.orientation is orientation
+        else [
+            type(segment)(segment.end, segment.start)
+            for segment in reversed(segments)
+        ]
+    )
+
+
 def polygon_to_segments(
     polygon: hints.Polygon[hints.ScalarT],
     bounding_box: hints.Box[hints.ScalarT],
     /,
 ) -> t.Iterable[hints.Segment[hints.ScalarT]]:
     return chain(
-        polygon.border.segments,
+        contour_to_oriented_segments(
+            polygon.border, Orientation.COUNTERCLOCKWISE
+        ),
         chain.from_iterable(
-            hole.segments
+            contour_to_oriented_segments(hole, Orientation.CLOCKWISE)
             for hole in polygon.holes
             if not hole.bounding_box.disjoint_with(bounding_box)
         ),
-- 
2.43.0


From 645916531b1c638fb3ce1a32731ce3d29adc34b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 05/24] fix: return complemented relations of shaped geometries
 with linear ones

---
 rene/_relating/mixed.py        | 12 ++++++++++++
 rene/_relating/multipolygon.py |  6 +++---
 rene/_relating/polygon.py      |  6 +++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index af6ce7b..0c76293 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -564,6 +564,18 @@ class ShapedLinearOperation(Operation[hints.ScalarT]):
             self._to_left_event(event)
         )
 
+    def to_relation(
+        self, /, *, linear_is_subset_of_shaped: bool, min_max_x: hints.ScalarT
+    ) -> Relation:
+        return (
+            super()
+            .to_relation(
+                linear_is_subset_of_shaped=linear_is_subset_of_shaped,
+                min_max_x=min_max_x,
+            )
+            .complement
+        )
+
 
 class RelationState(Generic[hints.ScalarT]):
     def update(
diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 9293f59..8720070 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -232,12 +232,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
diff --git a/rene/_relating/polygon.py b/rene/_relating/polygon.py
index 8939f9c..b94d750 100644
--- a/rene/_relating/polygon.py
+++ b/rene/_relating/polygon.py
@@ -168,12 +168,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
-- 
2.43.0


From 120a0bee1accc70a8dc8b9e430c186f276bda74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 06/24] fix: group equal segments regardless of events order
 when relating

---
 rene/_relating/linear.py | 5 ++++-
 rene/_relating/mixed.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index c03a5f6..f40447f 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -581,7 +581,10 @@ class RelationState(Generic[hints.ScalarT]):
     ) -> None:
         for _, group in chain(
             groupby(
-                filter(is_event_left, same_start_events),
+                sorted(
+                    filter(is_event_left, same_start_events),
+                    key=operation.to_event_end,
+                ),
                 key=operation.to_event_end,
             )
         ):
diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 0c76293..d2abd06 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -588,7 +588,10 @@ class RelationState(Generic[hints.ScalarT]):
                 self.linear_intersects_shaped_border = True
             for _, group in chain(
                 groupby(
-                    filter(is_event_left, same_start_events),
+                    sorted(
+                        filter(is_event_left, same_start_events),
+                        key=operation.to_event_end,
+                    ),
                     key=operation.to_event_end,
                 )
             ):
-- 
2.43.0


From 1dfb1e380d53bb27795dcdbe25c7370ded5f60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 07/24] fix: treat components left out by boxes as disjoint
 when relating multipolygons with linear

---
 rene/_relating/multipolygon.py   | 10 +++++++---
 rene/_relating/multisegmental.py |  8 +++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 8720070..314dac3 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -249,6 +249,8 @@ def relate_to_multisegmental(
     intersecting_polygons_ids = to_boxes_ids_with_intersection(
         multipolygon_boxes, multisegmental_bounding_box
     )
+    if not intersecting_polygons_ids:
+        return Relation.DISJOINT
     min_max_x = min(
         max(
             multipolygon_boxes[polygon_id].max_x
@@ -264,13 +266,15 @@ def relate_to_multisegmental(
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     intersecting_segments = [
         multisegmental_segments[segment_id]
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     return mixed.ShapedLinearOperation.from_segments_iterables(
         chain.from_iterable(
             polygon_to_segments(polygon, multisegmental_bounding_box)
@@ -280,7 +284,7 @@ def relate_to_multisegmental(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 6506699..39c6d28 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -92,13 +92,15 @@ def relate_to_multipolygon(
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     intersecting_polygons = [
         multipolygon_polygons[polygon_id]
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
         chain.from_iterable(
@@ -108,7 +110,7 @@ def relate_to_multipolygon(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
-- 
2.43.0


From c1811552c690556cfcc7eb063130203c3c39841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 08/24] fix: consider all angles when looking for crossing of
 linear geometries

---
 rene/_relating/linear.py | 66 +++++++++-------------------------------
 1 file changed, 14 insertions(+), 52 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index f40447f..cc73d70 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -8,7 +8,7 @@ from prioq.base import PriorityQueue
 from typing_extensions import Self
 
 from rene import hints
-from rene._utils import all_same, is_even, square, to_sorted_pair
+from rene._utils import all_same, is_even, to_sorted_pair
 from rene.enums import Orientation, Relation
 
 from .event import Event, is_event_left, is_event_right, left_event_to_position
@@ -68,31 +68,20 @@ class Operation(Generic[hints.ScalarT]):
                 else from_second_events
             ).append(event)
         start = self.to_event_start(same_start_events[0])
-        base_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                self.to_event_end(from_second_events[0]), event
-            ),
-        )
-        base_end = self.to_event_end(base_event)
-        largest_angle_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                base_end, event
-            ),
-        )
-        largest_angle_end = self.to_event_end(largest_angle_event)
-        base_orientation = self._orienteer(start, base_end, largest_angle_end)
-        return not all_same(
-            is_point_in_angle(
-                self.to_event_end(event),
-                start,
-                base_end,
-                largest_angle_end,
-                base_orientation,
-                self._orienteer,
+        base_end, *rest_ends = map(self.to_event_end, from_second_events)
+        return any(
+            not all_same(
+                is_point_in_angle(
+                    self.to_event_end(event),
+                    start,
+                    base_end,
+                    end,
+                    self._orienteer(start, base_end, end),
+                    self._orienteer,
+                )
+                for event in from_first_events
             )
-            for event in from_first_events
+            for end in rest_ends
         )
 
     def has_intersection(self, same_start_events: Sequence[Event]) -> bool:
@@ -477,27 +466,6 @@ class Operation(Generic[hints.ScalarT]):
             orienteer=self._orienteer,
         )
 
-    def to_signed_point_event_squared_cosine(
-        self, point: hints.Point[hints.ScalarT], event: Event
-    ) -> hints.ScalarT:
-        start = self.to_event_start(event)
-        end = self.to_event_end(event)
-        dot_product = dot_multiply(start, point, start, end)
-        return (
-            square(dot_product) if dot_product > 0 else -square(dot_product)
-        ) / squared_distance(start, end)
-
-
-def dot_multiply(
-    first_start: hints.Point[hints.ScalarT],
-    first_end: hints.Point[hints.ScalarT],
-    second_start: hints.Point[hints.ScalarT],
-    second_end: hints.Point[hints.ScalarT],
-) -> hints.ScalarT:
-    return (first_end.x - first_start.x) * (second_end.x - second_start.x) + (
-        first_end.y - first_start.y
-    ) * (second_end.y - second_start.y)
-
 
 def has_two_elements(iterator: Iterator[Any]) -> bool:
     return (
@@ -535,12 +503,6 @@ def is_point_in_angle(
     )
 
 
-def squared_distance(
-    start: hints.Point[hints.ScalarT], end: hints.Point[hints.ScalarT]
-) -> hints.ScalarT:
-    return square(start.x - end.x) + square(start.y - end.y)
-
-
 class RelationState(Generic[hints.ScalarT]):
     def update(
         self,
-- 
2.43.0


From 97160cb1e834037f57795415e9dc0f5ce521e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 09/24] fix: relate linear geometries sharing box with single
 segment of each other

---
 rene/_relating/multisegmental.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 39c6d28..531ec09 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -145,8 +145,10 @@ def relate_to_multisegmental(
         )
         return (
             Relation.OVERLAP
-            if relation is Relation.COMPONENT or relation is Relation.EQUAL
-            else relation
+            if relation is Relation.COMPONENT
+            else (
+                Relation.COMPOSITE if relation is Relation.EQUAL else relation
+            )
         )
     second_segments = second.segments
     second_boxes = [segment.bounding_box for segment in second_segments]
@@ -158,29 +160,16 @@ def relate_to_multisegmental(
     if len(second_intersecting_segments_ids) == 1:
         second_segment = second_segments[second_intersecting_segments_ids[0]]
         relation = second_to_first_relater(
-            second_segment.start,
-            second_segment.end,
-            [
-                first_segments[segment_id]
-                for segment_id in first_intersecting_segments_ids
-            ],
+            second_segment.start, second_segment.end, first_segments
         )
         return (
             Relation.OVERLAP
-            if (
-                relation is Relation.COMPONENT
-                or (
-                    (
-                        relation is Relation.COMPOSITE
-                        or relation is Relation.EQUAL
-                    )
-                    and (
-                        len(first_intersecting_segments_ids)
-                        != len(first_segments)
-                    )
-                )
+            if relation is Relation.COMPONENT
+            else (
+                Relation.COMPONENT
+                if relation is Relation.EQUAL
+                else relation.complement
             )
-            else relation.complement
         )
     max_min_x = max(
         min(
-- 
2.43.0


From a933e701e596756e16c17746bc12dbb436f72663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 10/24] fix: tell crossing from enclosure for segments
 overlapping or passing through borders of regions

---
 rene/_relating/segment.py           | 14 +++++++
 rene/_relating/segment_endpoints.py | 59 +++++++++++++++++++++++++++++
 2 files changed, 73 insertions(+)

diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index 5683139..c58e715 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -137,6 +137,20 @@ def relate_to_polygon(
         segment, polygon.border, reverse_orientation=False, orienteer=orienteer
     )
     holes = polygon.holes
+    if holes and relation_without_holes is Relation.CROSS:
+        # part inside of the border may be covered by a hole touching it
+        segment_bounding_box = segment.bounding_box
+        return mixed.LinearShapedOperation.from_segments_iterables(
+            [segment],
+            polygon_to_segments(polygon, segment_bounding_box),
+            orienteer,
+            segments_intersector,
+        ).to_relation(
+            linear_is_subset_of_shaped=True,
+            min_max_x=min(
+                segment_bounding_box.max_x, polygon.bounding_box.max_x
+            ),
+        )
     if holes and (
         relation_without_holes is Relation.WITHIN
         or relation_without_holes is Relation.ENCLOSED
diff --git a/rene/_relating/segment_endpoints.py b/rene/_relating/segment_endpoints.py
index 2d9b7f7..1b1390b 100644
--- a/rene/_relating/segment_endpoints.py
+++ b/rene/_relating/segment_endpoints.py
@@ -375,6 +375,15 @@ def relate_to_region(
         or relation_with_border is Relation.COMPONENT
     ):
         return relation_with_border
+    if relation_with_border is Relation.OVERLAP:
+        return _relate_overlapping_to_region(
+            start,
+            end,
+            border,
+            edges,
+            reverse_orientation=reverse_orientation,
+            orienteer=orienteer,
+        )
     start_index, start_location = _locate_point_in_region(
         edges, start, orienteer
     )
@@ -478,6 +487,56 @@ def relate_to_region(
     return Relation.ENCLOSED
 
 
+def _relate_overlapping_to_region(
+    start: hints.Point[hints.ScalarT],
+    end: hints.Point[hints.ScalarT],
+    border: hints.Contour[hints.ScalarT],
+    edges: t.Sequence[hints.Segment[hints.ScalarT]],
+    /,
+    *,
+    reverse_orientation: bool,
+    orienteer: Orienteer[hints.ScalarT],
+) -> Relation:
+    # parts of the segment between its overlaps with the border
+    # may lie on different sides of it
+    start, end = to_sorted_pair(start, end)
+    part_start = start
+    parts_relations = []
+    for overlap_start, overlap_end in [
+        *sorted(
+            (max(edge_start, start), min(edge_end, end))
+            for edge_start, edge_end in (
+                to_sorted_pair(edge.start, edge.end) for edge in edges
+            )
+            if relate_to_segment_endpoints(
+                edge_start, edge_end, start, end, orienteer
+            )
+            in (Relation.COMPONENT, Relation.OVERLAP)
+        ),
+        (end, end),
+    ]:
+        if part_start < overlap_start:
+            parts_relations.append(
+                relate_to_region(
+                    part_start,
+                    overlap_start,
+                    border,
+                    reverse_orientation=reverse_orientation,
+                    orienteer=orienteer,
+                )
+            )
+        part_start = overlap_end
+    first_part_relation, *rest_parts_relations = parts_relations
+    return (
+        first_part_relation
+        if all(
+            relation is first_part_relation
+            for relation in rest_parts_relations
+        )
+        else Relation.CROSS
+    )
+
+
 def _relate_to_region_border(
     start: hints.Point[hints.ScalarT],
     end: hints.Point[hints.ScalarT],
-- 
2.43.0


From c6f545a5f69e15d70fe3757ccb974eb8678f7c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 11/24] fix: treat segments left out by boxes as disjoint when
 relating linear geometries

---
 rene/_relating/multisegmental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 531ec09..525a24e 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -209,7 +209,8 @@ def relate_to_multisegmental(
             and second_boxes[segment_id].min_x <= min_max_x
         )
     ]
-    assert second_intersecting_segments
+    if not second_intersecting_segments:
+        return Relation.DISJOINT
     return linear.Operation.from_segments_iterables(
         first_intersecting_segments,
         second_intersecting_segments,
-- 
2.43.0


From 6d352b498ce29b211e4154416cde7153deb38c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 12/24] fix: decide by angle on which side of border segment
 between its points lies

---
 rene/_relating/segment_endpoints.py | 115 ++++++++--------------------
 1 file changed, 34 insertions(+), 81 deletions(-)

diff --git a/rene/_relating/segment_endpoints.py b/rene/_relating/segment_endpoints.py
index 1b1390b..7f1354f 100644
--- a/rene/_relating/segment_endpoints.py
+++ b/rene/_relating/segment_endpoints.py
@@ -398,93 +398,46 @@ def relate_to_region(
     if start_location is Location.INTERIOR:
         return Relation.ENCLOSED
     assert start_index is not None
-    end_index, end_location = _locate_point_in_region(edges, end, orienteer)
+    _, end_location = _locate_point_in_region(edges, end, orienteer)
     if end_location is Location.EXTERIOR:
         return Relation.TOUCH
     if end_location is Location.INTERIOR:
         return Relation.ENCLOSED
-    assert end_index is not None
     assert end_location is Location.BOUNDARY, end_location
-    edge = edges[start_index]
-    edge_start, edge_end = edge.start, edge.end
-    if start == edge_start:
-        prev_start = (
-            edges[(start_index + 1) % len(edges)].end
-            if reverse_orientation
-            else edges[start_index - 1].start
-        )
-        if orienteer(prev_start, edge_start, edge_end) is border_orientation:
-            if (
-                orienteer(edge_start, prev_start, end) is border_orientation
-            ) or (orienteer(edge_end, edge_start, end) is border_orientation):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_start, prev_start, end)
-            is orienteer(edge_end, edge_start, end)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif start == edge_end:
-        next_end = (
-            edges[start_index - 1].start
-            if reverse_orientation
-            else edges[(start_index + 1) % len(edges)].end
-        )
-        if (
-            orienteer(edge_start, edge_end, next_end) is border_orientation
-        ) and (
-            (orienteer(edge_end, edge_start, end) is border_orientation)
-            or (orienteer(next_end, edge_end, end) is border_orientation)
-            or (
-                orienteer(edge_end, edge_start, end)
-                is orienteer(next_end, edge_end, end)
-                is border_orientation
-            )
-        ):
-            return Relation.TOUCH
-    elif orienteer(edge_end, edge_start, end) is border_orientation:
-        return Relation.TOUCH
-    edge = edges[end_index]
-    edge_start, edge_end = edge.start, edge.end
-    if end == edge_start:
-        prev_start = (
-            edges[(end_index + 1) % len(edges)].end
-            if reverse_orientation
-            else edges[end_index - 1].start
-        )
-        if orienteer(prev_start, edge_start, edge_end) is border_orientation:
-            if (
-                orienteer(edge_start, prev_start, start) is border_orientation
-            ) or (
-                orienteer(edge_end, edge_start, start) is border_orientation
-            ):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_start, prev_start, start)
-            is orienteer(edge_end, edge_start, start)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif end == edge_end:
-        next_end = (
-            edges[end_index - 1].start
-            if reverse_orientation
-            else edges[(end_index + 1) % len(edges)].end
+    return (
+        Relation.ENCLOSED
+        if _is_directed_inside_region(
+            edges, start_index, start, end, border_orientation, orienteer
         )
-        if orienteer(edge_start, edge_end, next_end) is border_orientation:
-            if (
-                orienteer(edge_end, edge_start, start) is border_orientation
-            ) or (orienteer(next_end, edge_end, start) is border_orientation):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_end, edge_start, start)
-            is orienteer(next_end, edge_end, start)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif orienteer(edge_end, edge_start, start) is border_orientation:
-        return Relation.TOUCH
-    return Relation.ENCLOSED
+        else Relation.TOUCH
+    )
+
+
+def _is_directed_inside_region(
+    edges: t.Sequence[hints.Segment[hints.ScalarT]],
+    edge_index: int,
+    start: hints.Point[hints.ScalarT],
+    end: hints.Point[hints.ScalarT],
+    border_orientation: Orientation,
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> bool:
+    edge = edges[edge_index]
+    if start == edge.start:
+        prev_edge, next_edge = edges[edge_index - 1], edge
+    elif start == edge.end:
+        prev_edge, next_edge = edge, edges[(edge_index + 1) % len(edges)]
+    else:
+        return orienteer(edge.start, edge.end, end) is border_orientation
+    is_angle_convex = (
+        orienteer(prev_edge.start, prev_edge.end, next_edge.end)
+        is border_orientation
+    )
+    is_on_inner_side = (
+        orienteer(angle_edge.start, angle_edge.end, end) is border_orientation
+        for angle_edge in (prev_edge, next_edge)
+    )
+    return all(is_on_inner_side) if is_angle_convex else any(is_on_inner_side)
 
 
 def _relate_overlapping_to_region(
-- 
2.43.0


From 06e6216190d8b50f501f246f05d30dc6fd20cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 13/24] fix: consider holes touching border when relating
 segments enclosed by it

---
 rene/_relating/segment.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index c58e715..8aca890 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -137,8 +137,11 @@ def relate_to_polygon(
         segment, polygon.border, reverse_orientation=False, orienteer=orienteer
     )
     holes = polygon.holes
-    if holes and relation_without_holes is Relation.CROSS:
-        # part inside of the border may be covered by a hole touching it
+    if holes and (
+        relation_without_holes is Relation.CROSS
+        or relation_without_holes is Relation.ENCLOSED
+    ):
+        # part inside of the border may be covered by holes touching it
         segment_bounding_box = segment.bounding_box
         return mixed.LinearShapedOperation.from_segments_iterables(
             [segment],
@@ -151,10 +154,7 @@ def relate_to_polygon(
                 segment_bounding_box.max_x, polygon.bounding_box.max_x
             ),
         )
-    if holes and (
-        relation_without_holes is Relation.WITHIN
-        or relation_without_holes is Relation.ENCLOSED
-    ):
+    if holes and relation_without_holes is Relation.WITHIN:
         relation_with_holes = (
             relate_to_region(
                 segment,
-- 
2.43.0


From 6ad59e0419e7b8daf77b806d15ba99e2e58b6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 14/24] fix: do not treat divided segment as overlapping itself
 when validating multisegment

---
 rene/_geometries/base_multisegment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rene/_geometries/base_multisegment.py b/rene/_geometries/base_multisegment.py
index 69a8331..8a4a479 100644
--- a/rene/_geometries/base_multisegment.py
+++ b/rene/_geometries/base_multisegment.py
@@ -69,7 +69,10 @@ class BaseMultisegment(ABC, BaseCompound[hints.ScalarT]):
 
     def is_valid(self, /) -> bool:
         return all(
-            intersection.relation is Relation.TOUCH
+            (
+                intersection.first_segment_id == intersection.second_segment_id
+                or intersection.relation is Relation.TOUCH
+            )
             for intersection in sweep(
                 self.segments,
                 orienteer=self._context.orient,
-- 
2.43.0


From c54b2385f509495b8ad33f98a565ac1bda185bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 15/24] fix: merge collinear segments by their representatives

---
 rene/_bentley_ottmann/events_registry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rene/_bentley_ottmann/events_registry.py b/rene/_bentley_ottmann/events_registry.py
index 02401da..7fe3038 100644
--- a/rene/_bentley_ottmann/events_registry.py
+++ b/rene/_bentley_ottmann/events_registry.py
@@ -399,12 +399,12 @@ class EventsRegistry(Generic[hints.ScalarT]):
     ) -> None:
         first_segment_id = self._to_left_event_segment_id(first)
         second_segment_id = self._to_left_event_segment_id(second)
-        first_min_collinear_segment_id = self._min_collinear_segments_ids[
+        first_min_collinear_segment_id = self._to_min_collinear_segment_id(
             first_segment_id
-        ]
-        second_min_collinear_segment_id = self._min_collinear_segments_ids[
+        )
+        second_min_collinear_segment_id = self._to_min_collinear_segment_id(
             second_segment_id
-        ]
+        )
         min_collinear_segment_id = min(
             first_min_collinear_segment_id, second_min_collinear_segment_id
         )
@@ -437,11 +437,8 @@ class EventsRegistry(Generic[hints.ScalarT]):
 
     def _to_min_collinear_segment_id(self, segment_id: int, /) -> int:
         candidate = segment_id
-        iterations_count = 0
         while self._min_collinear_segments_ids[candidate] != candidate:
             candidate = self._min_collinear_segments_ids[candidate]
-            iterations_count += 1
-        assert iterations_count < 3
         return candidate
 
     def _to_opposite_event(self, event: Event, /) -> Event:
-- 
2.43.0


From 5568a49884e7101a615c6f35a5b95fb928de36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 16/24] fix: swap diagonals one at a time until criterion is
 restored when constraining triangulation

---
 rene/_triangulation/constrained_delaunay.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 7af4340..8482897 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -702,19 +702,13 @@ def restore_delaunay_criterion(
     /,
 ) -> None:
     while True:
-        next_target_edges: list[QuadEdge] = []
-        edges_to_swap: list[QuadEdge] = []
+        has_swapped_edges = False
         for edge in candidates:
-            (
-                edges_to_swap
-                if edge_should_be_swapped(mesh, edge, orienteer)
-                else next_target_edges
-            ).append(edge)
-        if not edges_to_swap:
+            if edge_should_be_swapped(mesh, edge, orienteer):
+                mesh.swap_diagonal(edge)
+                has_swapped_edges = True
+        if not has_swapped_edges:
             break
-        for edge in edges_to_swap:
-            mesh.swap_diagonal(edge)
-        candidates = next_target_edges
 
 
 def set_constraint(
-- 
2.43.0


From cea9120a77383c5c5a3ecebb7e732d00de3272c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 17/24] fix: respect holes orientation when cutting them out of
 constrained triangulation

---
 rene/_triangulation/constrained_delaunay.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 8482897..8be766b 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -34,7 +34,14 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
     ) -> Self:
         contours_vertices = [
             polygon.border.vertices,
-            *[hole.vertices for hole in polygon.holes],
+            *[
+                (
+                    hole.vertices
+                    if hole.orientation is Orientation.CLOCKWISE
+                    else hole.vertices[::-1]
+                )
+                for hole in polygon.holes
+            ],
         ]
         vertices = list(
             chain.from_iterable(
-- 
2.43.0


From 33daa2e0df82389e790968e12b4332c9b19a6797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 18/24] fix: constrain triangulation by edges with vertices of
 other contours lying on them

---
 rene/_triangulation/constrained_delaunay.py | 91 ++++++++++++++-------
 1 file changed, 63 insertions(+), 28 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 8be766b..8a02ce4 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from bisect import bisect_left, bisect_right
 from collections import deque
 from itertools import chain, groupby
 from operator import attrgetter
@@ -9,7 +10,11 @@ from typing_extensions import Self
 
 from rene import hints
 from rene._relating import segment_endpoints
-from rene._utils import locate_point_in_point_point_point_circle
+from rene._utils import (
+    deduplicate,
+    locate_point_in_point_point_point_circle,
+    to_sorted_pair,
+)
 from rene.enums import Location, Orientation, Relation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
@@ -32,7 +37,7 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
         orienteer: Orienteer[hints.ScalarT],
         /,
     ) -> Self:
-        contours_vertices = [
+        contours_vertices: list[Sequence[hints.Point[hints.ScalarT]]] = [
             polygon.border.vertices,
             *[
                 (
@@ -43,6 +48,10 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
                 for hole in polygon.holes
             ],
         ]
+        if len(contours_vertices) > 1:
+            contours_vertices = insert_touching_vertices(
+                contours_vertices, orienteer
+            )
         vertices = list(
             chain.from_iterable(
                 (
@@ -435,6 +444,54 @@ def detect_crossings(
     return result
 
 
+def hole_angle_contains_point(
+    vertex: hints.Point[hints.ScalarT],
+    prior_point: hints.Point[hints.ScalarT],
+    next_point: hints.Point[hints.ScalarT],
+    point: hints.Point[hints.ScalarT],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> bool:
+    angle_orientation = orienteer(vertex, prior_point, next_point)
+    if angle_orientation is Orientation.COLLINEAR:
+        return orienteer(vertex, next_point, point) is Orientation.CLOCKWISE
+    return (
+        angle_orientation is Orientation.COUNTERCLOCKWISE
+    ) is angle_contains_point(
+        vertex, prior_point, next_point, angle_orientation, point, orienteer
+    )
+
+
+def insert_touching_vertices(
+    contours_vertices: list[Sequence[hints.Point[hints.ScalarT]]],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> list[Sequence[hints.Point[hints.ScalarT]]]:
+    points = deduplicate(sorted(chain.from_iterable(contours_vertices)))
+    result: list[Sequence[hints.Point[hints.ScalarT]]] = []
+    for vertices in contours_vertices:
+        contour_vertices: list[hints.Point[hints.ScalarT]] = []
+        start = vertices[-1]
+        for end in vertices:
+            min_point, max_point = to_sorted_pair(start, end)
+            touching_points = [
+                point
+                for point in points[
+                    bisect_right(points, min_point) : bisect_left(
+                        points, max_point
+                    )
+                ]
+                if orienteer(start, end, point) is Orientation.COLLINEAR
+            ]
+            contour_vertices.extend(
+                touching_points if start == min_point else touching_points[::-1]
+            )
+            contour_vertices.append(end)
+            start = end
+        result.append(contour_vertices)
+    return result
+
+
 def intersect_polygon_vertices_positions(
     first: list[PolygonVertexPosition],
     second: list[PolygonVertexPosition],
@@ -524,32 +581,10 @@ def is_segment_inside_hole(
     prior_to_end_point = hole_vertices[end_vertex_index - 1]
     next_to_start_point = hole_vertices[(start_vertex_index + 1) % hole_size]
     next_to_end_point = hole_vertices[(end_vertex_index + 1) % hole_size]
-    start_angle_orientation = orienteer(
-        start, prior_to_start_point, next_to_start_point
-    )
-    end_angle_orientation = orienteer(
-        end, prior_to_end_point, next_to_end_point
-    )
-    return (
-        (end_angle_orientation is Orientation.COUNTERCLOCKWISE)
-        is angle_contains_point(
-            end,
-            prior_to_end_point,
-            next_to_end_point,
-            end_angle_orientation,
-            start,
-            orienteer,
-        )
-    ) and (
-        (start_angle_orientation is Orientation.COUNTERCLOCKWISE)
-        is angle_contains_point(
-            start,
-            prior_to_start_point,
-            next_to_start_point,
-            start_angle_orientation,
-            end,
-            orienteer,
-        )
+    return hole_angle_contains_point(
+        end, prior_to_end_point, next_to_end_point, start, orienteer
+    ) and hole_angle_contains_point(
+        start, prior_to_start_point, next_to_start_point, end, orienteer
     )
 
 
-- 
2.43.0


From 1fbe47374406d9f1fbba8ceb83f3f56394ac6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 19/24] fix: set interior side of closing edge of contour in
 trapezoidation

---
 rene/_seidel/trapezoidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 6e4fc16..32b239a 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -704,14 +704,14 @@ def _populate_from_contour(
         Edge.from_endpoints(
             first_start_index,
             last_end_index,
-            interior_to_left=is_contour_correctly_oriented,
+            interior_to_left=not is_contour_correctly_oriented,
             orienteer=orienteer,
         )
         if first_start < last_end
         else Edge.from_endpoints(
             last_end_index,
             first_start_index,
-            interior_to_left=not is_contour_correctly_oriented,
+            interior_to_left=is_contour_correctly_oriented,
             orienteer=orienteer,
         )
     )
-- 
2.43.0


From 5227e2251de6dd136b1f01400fb1ac68b28708af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 20/24] fix: split edges touched by endpoints of others before
 building trapezoidation

---
 rene/_seidel/trapezoidation.py | 57 +++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 32b239a..522ce32 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -1,12 +1,18 @@
 from __future__ import annotations
 
+from bisect import bisect_left, bisect_right
 from itertools import repeat
 from typing import Generic, TYPE_CHECKING
 
 from typing_extensions import Self
 
 from rene import hints
-from rene._utils import permute, to_arg_min, to_contour_orientation
+from rene._utils import (
+    permute,
+    to_arg_min,
+    to_contour_orientation,
+    to_sorted_pair,
+)
 from rene.enums import Location, Orientation
 
 from .edge import Edge
@@ -56,6 +62,7 @@ class Trapezoidation(Generic[hints.ScalarT]):
                     orienteer=orienteer,
                 )
             )
+        edges = _split_by_touching_endpoints(edges, endpoints, orienteer)
         permute(edges, seed)
         return cls._from_box(
             multisegment.bounding_box, edges, endpoints, orienteer
@@ -82,6 +89,7 @@ class Trapezoidation(Generic[hints.ScalarT]):
             _populate_from_contour(
                 hole, Orientation.CLOCKWISE, edges, endpoints, orienteer
             )
+        edges = _split_by_touching_endpoints(edges, endpoints, orienteer)
         permute(edges, seed)
         return cls._from_box(polygon.bounding_box, edges, endpoints, orienteer)
 
@@ -728,3 +736,50 @@ def _replace_node(
         len(nodes) - 1,
     )
     nodes[original_index] = nodes.pop()
+
+
+def _split_by_touching_endpoints(
+    edges: list[Edge[hints.ScalarT]],
+    endpoints: Sequence[hints.Point[hints.ScalarT]],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> list[Edge[hints.ScalarT]]:
+    points_indices = sorted(range(len(endpoints)), key=endpoints.__getitem__)
+    points = [endpoints[index] for index in points_indices]
+    result: list[Edge[hints.ScalarT]] = []
+    for edge in edges:
+        left_point = endpoints[edge.left_point_index]
+        right_point = endpoints[edge.right_point_index]
+        min_y, max_y = to_sorted_pair(left_point.y, right_point.y)
+        start_index = edge.left_point_index
+        for position in range(
+            bisect_right(points, left_point), bisect_left(points, right_point)
+        ):
+            point = points[position]
+            if (
+                min_y <= point.y <= max_y
+                and point != points[position - 1]
+                and edge.orientation_of(point, endpoints)
+                is Orientation.COLLINEAR
+            ):
+                end_index = points_indices[position]
+                result.append(
+                    Edge.from_endpoints(
+                        start_index,
+                        end_index,
+                        interior_to_left=edge.interior_to_left,
+                        orienteer=orienteer,
+                    )
+                )
+                start_index = end_index
+        result.append(
+            edge
+            if start_index == edge.left_point_index
+            else Edge.from_endpoints(
+                start_index,
+                edge.right_point_index,
+                interior_to_left=edge.interior_to_left,
+                orienteer=orienteer,
+            )
+        )
+    return result
-- 
2.43.0


From 4f3af1509ea9f3375a2cd1e7d22278fcb0946b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 21/24] fix: compute height of trapezoidation visiting each
 node once

---
 rene/_seidel/leaf.py           |  4 ++--
 rene/_seidel/node.py           |  4 ++--
 rene/_seidel/trapezoidation.py | 26 +++++++++++++++++++++++++-
 rene/_seidel/x_node.py         | 10 ++--------
 rene/_seidel/y_node.py         | 10 ++--------
 5 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/rene/_seidel/leaf.py b/rene/_seidel/leaf.py
index 4fec80f..399880a 100644
--- a/rene/_seidel/leaf.py
+++ b/rene/_seidel/leaf.py
@@ -38,8 +38,8 @@ class Leaf(Node[hints.ScalarT]):
         return self
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return 0
+    def to_children_indices(self, /) -> Sequence[int]:
+        return ()
 
     trapezoid: Trapezoid
 
diff --git a/rene/_seidel/node.py b/rene/_seidel/node.py
index 9f8eae4..8093803 100644
--- a/rene/_seidel/node.py
+++ b/rene/_seidel/node.py
@@ -41,7 +41,7 @@ class Node(ABC, Generic[hints.ScalarT]):
         """
 
     @abstractmethod
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
+    def to_children_indices(self, /) -> Sequence[int]:
         """
-        Returns height of the node.
+        Returns indices of nodes right under the node.
         """
diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 522ce32..55be312 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -95,7 +95,31 @@ class Trapezoidation(Generic[hints.ScalarT]):
 
     @property
     def height(self, /) -> int:
-        return self._root.to_height(self._nodes)
+        # nodes are shared between paths,
+        # so each one is considered once and without recursion
+        nodes = self._nodes
+        heights: dict[int, int] = {}
+        stack = [0]
+        while stack:
+            index = stack[-1]
+            children_indices = nodes[index].to_children_indices()
+            unvisited_indices = [
+                child_index
+                for child_index in children_indices
+                if child_index not in heights
+            ]
+            if unvisited_indices:
+                stack.extend(unvisited_indices)
+            else:
+                heights[index] = max(
+                    (
+                        heights[child_index] + 1
+                        for child_index in children_indices
+                    ),
+                    default=0,
+                )
+                stack.pop()
+        return heights[0]
 
     def locate(self, point: hints.Point[hints.ScalarT], /) -> Location:
         return self._root.locate(
diff --git a/rene/_seidel/x_node.py b/rene/_seidel/x_node.py
index f7985c0..9b6ccd3 100644
--- a/rene/_seidel/x_node.py
+++ b/rene/_seidel/x_node.py
@@ -56,14 +56,8 @@ class XNode(Node[hints.ScalarT]):
         ]
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return (
-            max(
-                nodes[self.left_node_index].to_height(nodes),
-                nodes[self.right_node_index].to_height(nodes),
-            )
-            + 1
-        )
+    def to_children_indices(self, /) -> Sequence[int]:
+        return self.left_node_index, self.right_node_index
 
     __slots__ = 'left_node_index', 'point_index', 'right_node_index'
 
diff --git a/rene/_seidel/y_node.py b/rene/_seidel/y_node.py
index 7fdd0a6..727734e 100644
--- a/rene/_seidel/y_node.py
+++ b/rene/_seidel/y_node.py
@@ -56,14 +56,8 @@ class YNode(Node[hints.ScalarT]):
         ]
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return (
-            max(
-                nodes[self.below_node_index].to_height(nodes),
-                nodes[self.above_node_index].to_height(nodes),
-            )
-            + 1
-        )
+    def to_children_indices(self, /) -> Sequence[int]:
+        return self.below_node_index, self.above_node_index
 
     __slots__ = 'above_node_index', 'below_node_index', 'edge_index'
 
-- 
2.43.0


From bb9e3fa736d667083b1f37345800152cd167d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 22/24] fix: locate points in trapezoidation without recursion

---
 rene/_seidel/node.py           |  5 +++--
 rene/_seidel/trapezoidation.py | 16 ++++++++--------
 rene/_seidel/x_node.py         |  8 +++-----
 rene/_seidel/y_node.py         |  8 +++-----
 4 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/rene/_seidel/node.py b/rene/_seidel/node.py
index 8093803..d1289f0 100644
--- a/rene/_seidel/node.py
+++ b/rene/_seidel/node.py
@@ -21,9 +21,10 @@ class Node(ABC, Generic[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         """
-        Finds location of given point relative to the contour.
+        Finds location of given point relative to the contour
+        or the node to continue with if it is not known yet.
         """
 
     @abstractmethod
diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 55be312..5387d23 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -17,6 +17,7 @@ from rene.enums import Location, Orientation
 
 from .edge import Edge
 from .leaf import Leaf
+from .node import Node
 from .x_node import XNode
 from .y_node import YNode
 
@@ -25,7 +26,6 @@ if TYPE_CHECKING:
 
     from rene._hints import Orienteer
 
-    from .node import Node
     from .trapezoid import Trapezoid
 
 
@@ -122,9 +122,12 @@ class Trapezoidation(Generic[hints.ScalarT]):
         return heights[0]
 
     def locate(self, point: hints.Point[hints.ScalarT], /) -> Location:
-        return self._root.locate(
-            point, self._edges, self._endpoints, self._nodes
-        )
+        result: Location | Node[hints.ScalarT] = self._root
+        while isinstance(result, Node):
+            result = result.locate(
+                point, self._edges, self._endpoints, self._nodes
+            )
+        return result
 
     @classmethod
     def _from_box(
@@ -170,10 +173,7 @@ class Trapezoidation(Generic[hints.ScalarT]):
         return self
 
     def __contains__(self, point: hints.Point[hints.ScalarT]) -> bool:
-        return (
-            self._root.locate(point, self._edges, self._endpoints, self._nodes)
-            is not Location.EXTERIOR
-        )
+        return self.locate(point) is not Location.EXTERIOR
 
 
 def _add_edge(
diff --git a/rene/_seidel/x_node.py b/rene/_seidel/x_node.py
index 9b6ccd3..9a17719 100644
--- a/rene/_seidel/x_node.py
+++ b/rene/_seidel/x_node.py
@@ -22,14 +22,12 @@ class XNode(Node[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         return (
-            nodes[self.left_node_index].locate(point, edges, endpoints, nodes)
+            nodes[self.left_node_index]
             if point < endpoints[self.point_index]
             else (
-                nodes[self.right_node_index].locate(
-                    point, edges, endpoints, nodes
-                )
+                nodes[self.right_node_index]
                 if endpoints[self.point_index] < point
                 else Location.BOUNDARY
             )
diff --git a/rene/_seidel/y_node.py b/rene/_seidel/y_node.py
index 727734e..e7f8e78 100644
--- a/rene/_seidel/y_node.py
+++ b/rene/_seidel/y_node.py
@@ -22,17 +22,15 @@ class YNode(Node[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         point_orientation = edges[self.edge_index].orientation_of(
             point, endpoints
         )
         return (
-            nodes[self.above_node_index].locate(point, edges, endpoints, nodes)
+            nodes[self.above_node_index]
             if point_orientation is Orientation.COUNTERCLOCKWISE
             else (
-                nodes[self.below_node_index].locate(
-                    point, edges, endpoints, nodes
-                )
+                nodes[self.below_node_index]
                 if point_orientation is Orientation.CLOCKWISE
                 else Location.BOUNDARY
             )
-- 
2.43.0


From e334294b30f647ac78546181284acb7f38a01749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 23/24] fix: give contours collinear at their minimal vertex
 one hash in both directions

---
 rene/_geometries/base_contour.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rene/_geometries/base_contour.py b/rene/_geometries/base_contour.py
index 99cea53..110fed3 100644
--- a/rene/_geometries/base_contour.py
+++ b/rene/_geometries/base_contour.py
@@ -252,10 +252,8 @@ class BaseContour(ABC, BaseCompound[hints.ScalarT]):
                 *vertices[:min_vertex_index:-1],
             )
             if (
-                to_contour_orientation(
-                    vertices, min_vertex_index, self._context.orient
-                )
-                is Orientation.CLOCKWISE
+                vertices[min_vertex_index - 1]
+                < vertices[(min_vertex_index + 1) % len(vertices)]
             )
             else (*vertices[min_vertex_index:], *vertices[:min_vertex_index])
         )
-- 
2.43.0


From a899388f557c5ffc9dfd3991ae02f6807a6d218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 24/24] fix: make Delaunay triangulation without edges falsy

---
 rene/_triangulation/delaunay.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rene/_triangulation/delaunay.py b/rene/_triangulation/delaunay.py
index c67afa8..4f89a91 100644
--- a/rene/_triangulation/delaunay.py
+++ b/rene/_triangulation/delaunay.py
@@ -9,7 +9,7 @@ from rene._utils import deduplicate
 from rene.enums import Orientation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
-from .quad_edge import QuadEdge, to_opposite_edge
+from .quad_edge import QuadEdge, UNDEFINED_EDGE, to_opposite_edge
 
 if TYPE_CHECKING:
     from collections.abc import Sequence
@@ -114,3 +114,9 @@ class DelaunayTriangulation(Generic[hints.ScalarT]):
             right_side,
         )
         return self
+
+    def __bool__(self, /) -> bool:
+        result = bool(self.mesh)
+        assert result is (self.left_side != UNDEFINED_EDGE)
+        assert result is (self.right_side != UNDEFINED_EDGE)
+        return result
-- 
2.43.0


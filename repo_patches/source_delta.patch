From 3b9d97cfb64d1f1a49e0f70753c2dc23b65abd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 01/20] fix: remove processed events from sweep line when
 relating linear and shaped

---
 rene/_relating/mixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 9719c02..af6ce7b 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -473,7 +473,7 @@ class Operation(ABC, Generic[hints.ScalarT]):
 
     def _remove(self, event: Event, /) -> None:
         assert is_event_left(event)
-        self._sweep_line_data[self._to_sweep_line_key(event)] = event
+        del self._sweep_line_data[self._to_sweep_line_key(event)]
 
     def _to_left_event(self, event: Event, /) -> Event:
         return (
-- 
2.43.0


From 645b872df1158ad9a95e575520589059814cff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 02/20] fix: normalise contours orientation when relating
 shaped geometries

---
 rene/_relating/multisegmental.py | 11 +----------
 rene/_relating/utils.py          | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index a4326ba..6506699 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -289,16 +289,7 @@ def relate_to_polygon(
     ]
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
-        chain(
-            polygon.border.segments,
-            chain.from_iterable(
-                hole.segments
-                for hole in polygon.holes
-                if not hole.bounding_box.disjoint_with(
-                    multisegmental_bounding_box
-                )
-            ),
-        ),
+        polygon_to_segments(polygon, multisegmental_bounding_box),
         orienteer,
         segments_intersector,
     ).to_relation(
diff --git a/rene/_relating/utils.py b/rene/_relating/utils.py
index 8db4c4a..8c7f565 100644
--- a/rene/_relating/utils.py
+++ b/rene/_relating/utils.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import typing as t
 from itertools import chain
 
+from rene.enums import Orientation
+
 if t.TYPE_CHECKING:
     from rene import hints
 
@@ -13,10 +15,23 @@ def polygon_to_segments(
     /,
 ) -> t.Iterable[hints.Segment[hints.ScalarT]]:
     return chain(
-        polygon.border.segments,
+        contour_to_oriented_segments(
+            polygon.border, Orientation.COUNTERCLOCKWISE
+        ),
         chain.from_iterable(
-            hole.segments
+            contour_to_oriented_segments(hole, Orientation.CLOCKWISE)
             for hole in polygon.holes
             if not hole.bounding_box.disjoint_with(bounding_box)
         ),
     )
+
+
+def contour_to_oriented_segments(
+    contour: hints.Contour[hints.ScalarT], orientation: Orientation, /
+) -> t.Iterable[hints.Segment[hints.ScalarT]]:
+    segments = contour.segments
+    return (
+        segments
+        if contour.orientation is orientation
+        else [type(segment)(segment.end, segment.start) for segment in segments]
+    )
-- 
2.43.0


From ddb05052fb947698a203575d16d62fe9b3ba34ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 03/20] fix: complement relation of shaped geometry to linear
 one

---
 rene/_relating/mixed.py        | 12 ++++++++++++
 rene/_relating/multipolygon.py |  6 +++---
 rene/_relating/polygon.py      |  6 +++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index af6ce7b..0c76293 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -564,6 +564,18 @@ class ShapedLinearOperation(Operation[hints.ScalarT]):
             self._to_left_event(event)
         )
 
+    def to_relation(
+        self, /, *, linear_is_subset_of_shaped: bool, min_max_x: hints.ScalarT
+    ) -> Relation:
+        return (
+            super()
+            .to_relation(
+                linear_is_subset_of_shaped=linear_is_subset_of_shaped,
+                min_max_x=min_max_x,
+            )
+            .complement
+        )
+
 
 class RelationState(Generic[hints.ScalarT]):
     def update(
diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 9293f59..8720070 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -232,12 +232,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
diff --git a/rene/_relating/polygon.py b/rene/_relating/polygon.py
index 8939f9c..b94d750 100644
--- a/rene/_relating/polygon.py
+++ b/rene/_relating/polygon.py
@@ -168,12 +168,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
-- 
2.43.0


From 57d788cacf8b07886142eaba3f11ecad9ee0a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 04/20] fix: relate segment to polygon by sweeping its boundary

---
 rene/_relating/segment.py           |  89 ++--------
 rene/_relating/segment_endpoints.py | 242 ----------------------------
 2 files changed, 13 insertions(+), 318 deletions(-)

diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index 7391910..6c7276e 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -10,7 +10,6 @@ from . import mixed
 from .segment_endpoints import (
     relate_to_contour as relate_endpoints_to_contour,
     relate_to_multisegment as relate_endpoints_to_multisegment,
-    relate_to_region as relate_endpoints_to_region,
     relate_to_segment_endpoints as relate_endpoints_to_endpoints,
 )
 from .utils import polygon_to_segments
@@ -74,36 +73,6 @@ def relate_to_multipolygon(
     ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
 
 
-def relate_to_multiregion(
-    segment: hints.Segment[hints.ScalarT],
-    borders: t.Sequence[hints.Contour[hints.ScalarT]],
-    orienteer: Orienteer[hints.ScalarT],
-    segments_intersector: SegmentsIntersector[hints.ScalarT],
-    /,
-) -> Relation:
-    assert len(borders) > 1, borders
-    segment_bounding_box = segment.bounding_box
-    regions_bounding_boxes = [border.bounding_box for border in borders]
-    intersecting_borders_ids = to_boxes_ids_with_intersection(
-        regions_bounding_boxes, segment_bounding_box
-    )
-    if not intersecting_borders_ids:
-        return Relation.DISJOINT
-    min_max_x = min(
-        segment_bounding_box.max_x,
-        max(
-            regions_bounding_boxes[border_id].max_x
-            for border_id in intersecting_borders_ids
-        ),
-    )
-    return mixed.LinearShapedOperation.from_segments_iterables(
-        [segment],
-        [edge for border in borders for edge in border.segments],
-        orienteer,
-        segments_intersector,
-    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
-
-
 def relate_to_multisegment(
     segment: hints.Segment[hints.ScalarT],
     multisegment: hints.Multisegment[hints.ScalarT],
@@ -127,52 +96,20 @@ def relate_to_polygon(
     segments_intersector: SegmentsIntersector[hints.ScalarT],
     /,
 ) -> Relation:
-    relation_without_holes = relate_to_region(
-        segment, polygon.border, reverse_orientation=False, orienteer=orienteer
+    segment_bounding_box, polygon_bounding_box = (
+        segment.bounding_box,
+        polygon.bounding_box,
     )
-    holes = polygon.holes
-    if holes and (
-        relation_without_holes is Relation.WITHIN
-        or relation_without_holes is Relation.ENCLOSED
-    ):
-        relation_with_holes = (
-            relate_to_region(
-                segment,
-                holes[0],
-                reverse_orientation=True,
-                orienteer=orienteer,
-            )
-            if len(holes) == 1
-            else relate_to_multiregion(
-                segment, holes, orienteer, segments_intersector
-            )
-        )
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        if relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        if relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        if relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        return relation_with_holes
-    return relation_without_holes
-
-
-def relate_to_region(
-    segment: hints.Segment[hints.ScalarT],
-    border: hints.Contour[hints.ScalarT],
-    /,
-    *,
-    reverse_orientation: bool,
-    orienteer: Orienteer[hints.ScalarT],
-) -> Relation:
-    return relate_endpoints_to_region(
-        segment.start,
-        segment.end,
-        border,
-        reverse_orientation=reverse_orientation,
-        orienteer=orienteer,
+    if segment_bounding_box.disjoint_with(polygon_bounding_box):
+        return Relation.DISJOINT
+    return mixed.LinearShapedOperation.from_segments_iterables(
+        [segment],
+        polygon_to_segments(polygon, segment_bounding_box),
+        orienteer,
+        segments_intersector,
+    ).to_relation(
+        linear_is_subset_of_shaped=True,
+        min_max_x=min(segment_bounding_box.max_x, polygon_bounding_box.max_x),
     )
 
 
diff --git a/rene/_relating/segment_endpoints.py b/rene/_relating/segment_endpoints.py
index 493ed13..972819c 100644
--- a/rene/_relating/segment_endpoints.py
+++ b/rene/_relating/segment_endpoints.py
@@ -348,245 +348,3 @@ def relate_to_segment_endpoints(
             return Relation.TOUCH
         return Relation.DISJOINT
     return Relation.CROSS
-
-
-def relate_to_region(
-    start: hints.Point[hints.ScalarT],
-    end: hints.Point[hints.ScalarT],
-    border: hints.Contour[hints.ScalarT],
-    /,
-    *,
-    reverse_orientation: bool,
-    orienteer: Orienteer[hints.ScalarT],
-) -> Relation:
-    edges = border.segments
-    relation_with_border = _relate_to_region_border(
-        start, end, edges, orienteer
-    )
-    if (
-        relation_with_border is Relation.CROSS
-        or relation_with_border is Relation.COMPONENT
-    ):
-        return relation_with_border
-    start_index, start_location = _locate_point_in_region(
-        edges, start, orienteer
-    )
-    if relation_with_border is Relation.DISJOINT:
-        return (
-            Relation.DISJOINT
-            if start_location is Location.EXTERIOR
-            else Relation.WITHIN
-        )
-    if start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    if start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    assert start_index is not None
-    end_index, end_location = _locate_point_in_region(edges, end, orienteer)
-    if end_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    if end_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    assert end_index is not None
-    assert end_location is Location.BOUNDARY, end_location
-    edge = edges[start_index]
-    edge_start, edge_end = edge.start, edge.end
-    border_orientation = (
-        Orientation.CLOCKWISE
-        if reverse_orientation
-        else Orientation.COUNTERCLOCKWISE
-    )
-    if start == edge_start:
-        prev_start = (
-            edges[(start_index + 1) % len(edges)].end
-            if reverse_orientation
-            else edges[start_index - 1].start
-        )
-        if orienteer(prev_start, edge_start, edge_end) is border_orientation:
-            if (
-                orienteer(edge_start, prev_start, end) is border_orientation
-            ) or (orienteer(edge_end, edge_start, end) is border_orientation):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_start, prev_start, end)
-            is orienteer(edge_end, edge_start, end)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif start == edge_end:
-        next_end = (
-            edges[start_index - 1].start
-            if reverse_orientation
-            else edges[(start_index + 1) % len(edges)].end
-        )
-        if (
-            orienteer(edge_start, edge_end, next_end) is border_orientation
-        ) and (
-            (orienteer(edge_end, edge_start, end) is border_orientation)
-            or (orienteer(next_end, edge_end, end) is border_orientation)
-            or (
-                orienteer(edge_end, edge_start, end)
-                is orienteer(next_end, edge_end, end)
-                is border_orientation
-            )
-        ):
-            return Relation.TOUCH
-    elif orienteer(edge_end, edge_start, end) is border_orientation:
-        return Relation.TOUCH
-    edge = edges[end_index]
-    edge_start, edge_end = edge.start, edge.end
-    if end == edge_start:
-        prev_start = (
-            edges[(end_index + 1) % len(edges)].end
-            if reverse_orientation
-            else edges[end_index - 1].start
-        )
-        if orienteer(prev_start, edge_start, edge_end) is border_orientation:
-            if (
-                orienteer(edge_start, prev_start, start) is border_orientation
-            ) or (
-                orienteer(edge_end, edge_start, start) is border_orientation
-            ):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_start, prev_start, start)
-            is orienteer(edge_end, edge_start, start)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif end == edge_end:
-        next_end = (
-            edges[end_index - 1].start
-            if reverse_orientation
-            else edges[(end_index + 1) % len(edges)].end
-        )
-        if orienteer(edge_start, edge_end, next_end) is border_orientation:
-            if (
-                orienteer(edge_end, edge_start, start) is border_orientation
-            ) or (orienteer(next_end, edge_end, start) is border_orientation):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_end, edge_start, start)
-            is orienteer(next_end, edge_end, start)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif orienteer(edge_end, edge_start, start) is border_orientation:
-        return Relation.TOUCH
-    return Relation.ENCLOSED
-
-
-def _relate_to_region_border(
-    start: hints.Point[hints.ScalarT],
-    end: hints.Point[hints.ScalarT],
-    edges: t.Sequence[hints.Segment[hints.ScalarT]],
-    orienteer: Orienteer[hints.ScalarT],
-    /,
-) -> Relation:
-    # similar to segment-in-contour check
-    # but cross has higher priority over overlap
-    # because cross with border will be considered as cross with region
-    # whereas overlap with border can't be an overlap with region
-    # and should be classified by further analysis
-    has_touch = has_overlap = False
-    last_touched_edge_index = last_touched_edge_start = None
-    for index, edge in enumerate(edges):
-        edge_start, edge_end = edge.start, edge.end
-        relation_with_edge = relate_to_segment_endpoints(
-            edge_start, edge_end, start, end, orienteer
-        )
-        if (
-            relation_with_edge is Relation.COMPONENT
-            or relation_with_edge is Relation.OVERLAP
-        ):
-            if not has_overlap:
-                has_overlap = True
-        elif (
-            relation_with_edge is Relation.COMPOSITE
-            or relation_with_edge is Relation.EQUAL
-        ):
-            return Relation.COMPONENT
-        elif relation_with_edge is Relation.CROSS:
-            return Relation.CROSS
-        elif relation_with_edge is Relation.TOUCH:
-            if not has_touch:
-                has_touch = True
-            else:
-                assert last_touched_edge_index is not None
-                assert last_touched_edge_start is not None
-                if (
-                    index - last_touched_edge_index == 1
-                    and start != edge_start
-                    and start != edge_end
-                    and end != edge_start
-                    and end != edge_end
-                    and (
-                        orienteer(start, end, edge_start)
-                        is Orientation.COLLINEAR
-                    )
-                    and point_vertex_line_divides_angle(
-                        start,
-                        edge_start,
-                        last_touched_edge_start,
-                        edge_end,
-                        orienteer,
-                    )
-                ):
-                    return Relation.CROSS
-            last_touched_edge_index = index
-            last_touched_edge_start = edge_start
-    if has_touch and last_touched_edge_index == len(edges) - 1:
-        first_edge = edges[0]
-        first_edge_start, first_edge_end = first_edge.start, first_edge.end
-        if (
-            (
-                relate_to_segment_endpoints(
-                    first_edge_start, first_edge_end, start, end, orienteer
-                )
-                is Relation.TOUCH
-            )
-            and start != first_edge_start
-            and start != first_edge_end
-            and end != first_edge_start
-            and end != first_edge_end
-            and (
-                orienteer(start, end, first_edge_start)
-                is Orientation.COLLINEAR
-            )
-            and point_vertex_line_divides_angle(
-                start,
-                first_edge_start,
-                edges[-1].start,
-                first_edge_end,
-                orienteer,
-            )
-        ):
-            return Relation.CROSS
-    return (
-        Relation.OVERLAP
-        if has_overlap
-        else (Relation.TOUCH if has_touch else Relation.DISJOINT)
-    )
-
-
-def _locate_point_in_region(
-    edges: t.Sequence[hints.Segment[hints.ScalarT]],
-    point: hints.Point[hints.ScalarT],
-    orienteer: Orienteer[hints.ScalarT],
-    /,
-) -> tuple[int | None, Location]:
-    result = False
-    point_y = point.y
-    for index, edge in enumerate(edges):
-        start, end = edge.start, edge.end
-        if (
-            locate_point_in_segment(start, end, point, orienteer)
-            is Location.BOUNDARY
-        ):
-            return index, Location.BOUNDARY
-        if (start.y > point_y) is not (end.y > point_y) and (
-            (end.y > start.y)
-            is (orienteer(start, end, point) is Orientation.COUNTERCLOCKWISE)
-        ):
-            result = not result
-    return None, (Location.INTERIOR if result else Location.EXTERIOR)
-- 
2.43.0


From 3ca023a7bca53d53d780f454d1b87669a06688e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 05/20] fix: relate multipolygon to linear geometry missing all
 of its polygons

---
 rene/_relating/multipolygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 8720070..f249fa2 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -249,6 +249,8 @@ def relate_to_multisegmental(
     intersecting_polygons_ids = to_boxes_ids_with_intersection(
         multipolygon_boxes, multisegmental_bounding_box
     )
+    if not intersecting_polygons_ids:
+        return Relation.DISJOINT
     min_max_x = min(
         max(
             multipolygon_boxes[polygon_id].max_x
-- 
2.43.0


From 2c4746b2d4badcb0d8bb6582eaafc7292ee34992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 06/20] fix: group overlapping events regardless of their
 processing order

---
 rene/_relating/linear.py | 5 ++++-
 rene/_relating/mixed.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index c03a5f6..f40447f 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -581,7 +581,10 @@ class RelationState(Generic[hints.ScalarT]):
     ) -> None:
         for _, group in chain(
             groupby(
-                filter(is_event_left, same_start_events),
+                sorted(
+                    filter(is_event_left, same_start_events),
+                    key=operation.to_event_end,
+                ),
                 key=operation.to_event_end,
             )
         ):
diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 0c76293..d2abd06 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -588,7 +588,10 @@ class RelationState(Generic[hints.ScalarT]):
                 self.linear_intersects_shaped_border = True
             for _, group in chain(
                 groupby(
-                    filter(is_event_left, same_start_events),
+                    sorted(
+                        filter(is_event_left, same_start_events),
+                        key=operation.to_event_end,
+                    ),
                     key=operation.to_event_end,
                 )
             ):
-- 
2.43.0


From 1bd2c770dae39dd8103f34edae192261319852f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 07/20] fix: detect crossing of linear geometries at vertices
 of any degree

---
 rene/_relating/linear.py | 74 +++++++++++-----------------------------
 1 file changed, 20 insertions(+), 54 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index f40447f..916be62 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from itertools import chain, groupby
+from itertools import chain, combinations, groupby
 from typing import Any, Generic, TYPE_CHECKING
 
 from dendroid import red_black
@@ -8,7 +8,7 @@ from prioq.base import PriorityQueue
 from typing_extensions import Self
 
 from rene import hints
-from rene._utils import all_same, is_even, square, to_sorted_pair
+from rene._utils import all_same, is_even, to_sorted_pair
 from rene.enums import Orientation, Relation
 
 from .event import Event, is_event_left, is_event_right, left_event_to_position
@@ -68,32 +68,25 @@ class Operation(Generic[hints.ScalarT]):
                 else from_second_events
             ).append(event)
         start = self.to_event_start(same_start_events[0])
-        base_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                self.to_event_end(from_second_events[0]), event
-            ),
-        )
-        base_end = self.to_event_end(base_event)
-        largest_angle_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                base_end, event
-            ),
-        )
-        largest_angle_end = self.to_event_end(largest_angle_event)
-        base_orientation = self._orienteer(start, base_end, largest_angle_end)
-        return not all_same(
-            is_point_in_angle(
-                self.to_event_end(event),
-                start,
-                base_end,
-                largest_angle_end,
-                base_orientation,
-                self._orienteer,
+        for first_event, second_event in combinations(from_second_events, 2):
+            first_end, second_end = (
+                self.to_event_end(first_event),
+                self.to_event_end(second_event),
             )
-            for event in from_first_events
-        )
+            angle_orientation = self._orienteer(start, first_end, second_end)
+            if not all_same(
+                is_point_in_angle(
+                    self.to_event_end(event),
+                    start,
+                    first_end,
+                    second_end,
+                    angle_orientation,
+                    self._orienteer,
+                )
+                for event in from_first_events
+            ):
+                return True
+        return False
 
     def has_intersection(self, same_start_events: Sequence[Event]) -> bool:
         return not all_same(
@@ -477,27 +470,6 @@ class Operation(Generic[hints.ScalarT]):
             orienteer=self._orienteer,
         )
 
-    def to_signed_point_event_squared_cosine(
-        self, point: hints.Point[hints.ScalarT], event: Event
-    ) -> hints.ScalarT:
-        start = self.to_event_start(event)
-        end = self.to_event_end(event)
-        dot_product = dot_multiply(start, point, start, end)
-        return (
-            square(dot_product) if dot_product > 0 else -square(dot_product)
-        ) / squared_distance(start, end)
-
-
-def dot_multiply(
-    first_start: hints.Point[hints.ScalarT],
-    first_end: hints.Point[hints.ScalarT],
-    second_start: hints.Point[hints.ScalarT],
-    second_end: hints.Point[hints.ScalarT],
-) -> hints.ScalarT:
-    return (first_end.x - first_start.x) * (second_end.x - second_start.x) + (
-        first_end.y - first_start.y
-    ) * (second_end.y - second_start.y)
-
 
 def has_two_elements(iterator: Iterator[Any]) -> bool:
     return (
@@ -535,12 +507,6 @@ def is_point_in_angle(
     )
 
 
-def squared_distance(
-    start: hints.Point[hints.ScalarT], end: hints.Point[hints.ScalarT]
-) -> hints.ScalarT:
-    return square(start.x - end.x) + square(start.y - end.y)
-
-
 class RelationState(Generic[hints.ScalarT]):
     def update(
         self,
-- 
2.43.0


From 6eb32511f212d8f9959701758a38400019d50c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 08/20] fix: relate multisegmental having only one segment
 equal to the other geometry

---
 rene/_relating/multisegmental.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 6506699..389d634 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -143,8 +143,10 @@ def relate_to_multisegmental(
         )
         return (
             Relation.OVERLAP
-            if relation is Relation.COMPONENT or relation is Relation.EQUAL
-            else relation
+            if relation is Relation.COMPONENT
+            else (
+                Relation.COMPOSITE if relation is Relation.EQUAL else relation
+            )
         )
     second_segments = second.segments
     second_boxes = [segment.bounding_box for segment in second_segments]
@@ -178,7 +180,11 @@ def relate_to_multisegmental(
                     )
                 )
             )
-            else relation.complement
+            else (
+                Relation.COMPONENT
+                if relation is Relation.EQUAL
+                else relation.complement
+            )
         )
     max_min_x = max(
         min(
-- 
2.43.0


From f10238712ca4a9c8941d63c6f7a63f8f75ad52fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 09/20] fix: relate geometries with overlapping boxes but
 without common x-range

---
 rene/_relating/multipolygon.py   | 6 ++++--
 rene/_relating/multisegmental.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index f249fa2..d7c335c 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -266,13 +266,15 @@ def relate_to_multisegmental(
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     intersecting_segments = [
         multisegmental_segments[segment_id]
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     return mixed.ShapedLinearOperation.from_segments_iterables(
         chain.from_iterable(
             polygon_to_segments(polygon, multisegmental_bounding_box)
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 389d634..2e1e940 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -92,13 +92,15 @@ def relate_to_multipolygon(
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     intersecting_polygons = [
         multipolygon_polygons[polygon_id]
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
         chain.from_iterable(
@@ -224,7 +226,8 @@ def relate_to_multisegmental(
             and second_boxes[segment_id].min_x <= min_max_x
         )
     ]
-    assert second_intersecting_segments
+    if not second_intersecting_segments:
+        return Relation.DISJOINT
     return linear.Operation.from_segments_iterables(
         first_intersecting_segments,
         second_intersecting_segments,
-- 
2.43.0


From ffafeea87dc89b07f183d6772c7ab8d6095deb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 10/20] fix: wrap long line introduced by orientation
 normalisation

---
 rene/_relating/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rene/_relating/utils.py b/rene/_relating/utils.py
index 8c7f565..42555b5 100644
--- a/rene/_relating/utils.py
+++ b/rene/_relating/utils.py
@@ -33,5 +33,7 @@ def contour_to_oriented_segments(
     return (
         segments
         if contour.orientation is orientation
-        else [type(segment)(segment.end, segment.start) for segment in segments]
+        else [
+            type(segment)(segment.end, segment.start) for segment in segments
+        ]
     )
-- 
2.43.0


From c45b5f7df0f5124fbed0c0bbeeb5e36a75315b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 11/20] fix: subtract shaped geometry from linear one without
 duplicated segments

---
 rene/_clipping/difference.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index 5aea7a6..176e837 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -20,7 +20,7 @@ from rene._utils import (
 from rene.enums import Orientation
 
 from . import linear, mixed, shaped
-from .event import Event, is_event_right
+from .event import Event, is_event_left, is_event_right
 
 
 class LinearDifference(linear.Operation[hints.ScalarT]):
@@ -178,7 +178,7 @@ def subtract_multipolygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -239,7 +239,8 @@ def subtract_multipolygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -339,7 +340,7 @@ def subtract_multipolygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -382,7 +383,8 @@ def subtract_multipolygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
@@ -644,7 +646,7 @@ def subtract_polygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -689,7 +691,8 @@ def subtract_polygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -776,7 +779,7 @@ def subtract_polygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -803,7 +806,8 @@ def subtract_polygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
-- 
2.43.0


From 5d137c4a36fdd4696b3c54693a4720dfc0d5ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 12/20] fix: mark interior side of polygon contours closing
 edges in trapezoidation

---
 rene/_seidel/trapezoidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 6e4fc16..32b239a 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -704,14 +704,14 @@ def _populate_from_contour(
         Edge.from_endpoints(
             first_start_index,
             last_end_index,
-            interior_to_left=is_contour_correctly_oriented,
+            interior_to_left=not is_contour_correctly_oriented,
             orienteer=orienteer,
         )
         if first_start < last_end
         else Edge.from_endpoints(
             last_end_index,
             first_start_index,
-            interior_to_left=not is_contour_correctly_oriented,
+            interior_to_left=is_contour_correctly_oriented,
             orienteer=orienteer,
         )
     )
-- 
2.43.0


From adbe73171327687f7168d10991fe955280fef687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 13/20] fix: normalise holes orientation in constrained
 Delaunay triangulation

---
 rene/_triangulation/constrained_delaunay.py | 29 +++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 7af4340..4e98b62 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -9,7 +9,11 @@ from typing_extensions import Self
 
 from rene import hints
 from rene._relating import segment_endpoints
-from rene._utils import locate_point_in_point_point_point_circle
+from rene._utils import (
+    locate_point_in_point_point_point_circle,
+    to_arg_min,
+    to_contour_orientation,
+)
 from rene.enums import Location, Orientation, Relation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
@@ -34,7 +38,12 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
     ) -> Self:
         contours_vertices = [
             polygon.border.vertices,
-            *[hole.vertices for hole in polygon.holes],
+            *[
+                to_oriented_vertices(
+                    hole.vertices, Orientation.CLOCKWISE, orienteer
+                )
+                for hole in polygon.holes
+            ],
         ]
         vertices = list(
             chain.from_iterable(
@@ -770,3 +779,19 @@ def to_constraint_index(
         if abs(second_vertex_index - first_vertex_index) == 1
         else 0
     )
+
+
+def to_oriented_vertices(
+    vertices: Sequence[hints.Point[hints.ScalarT]],
+    target_orientation: Orientation,
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> Sequence[hints.Point[hints.ScalarT]]:
+    return (
+        vertices
+        if (
+            to_contour_orientation(vertices, to_arg_min(vertices), orienteer)
+            is target_orientation
+        )
+        else [vertices[0], *vertices[:0:-1]]
+    )
-- 
2.43.0


From 0b285b169d5741cbac566b3862dfaa0c0f327512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 14/20] fix: triangulate polygons with contours touching each
 other's edges

---
 rene/_triangulation/constrained_delaunay.py | 89 +++++++++++++++------
 1 file changed, 63 insertions(+), 26 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 4e98b62..1145d0b 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from bisect import bisect_left, bisect_right
 from collections import deque
 from itertools import chain, groupby
 from operator import attrgetter
@@ -10,9 +11,11 @@ from typing_extensions import Self
 from rene import hints
 from rene._relating import segment_endpoints
 from rene._utils import (
+    deduplicate,
     locate_point_in_point_point_point_circle,
     to_arg_min,
     to_contour_orientation,
+    to_sorted_pair,
 )
 from rene.enums import Location, Orientation, Relation
 
@@ -45,6 +48,13 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
                 for hole in polygon.holes
             ],
         ]
+        sorted_points = sorted(chain.from_iterable(contours_vertices))
+        contours_vertices = [
+            subdivide_contour_vertices(
+                contour_vertices, sorted_points, orienteer
+            )
+            for contour_vertices in contours_vertices
+        ]
         vertices = list(
             chain.from_iterable(
                 (
@@ -437,6 +447,26 @@ def detect_crossings(
     return result
 
 
+def hole_angle_contains_point(
+    vertex: hints.Point[hints.ScalarT],
+    prior_point: hints.Point[hints.ScalarT],
+    next_point: hints.Point[hints.ScalarT],
+    point: hints.Point[hints.ScalarT],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> bool:
+    angle_orientation = orienteer(vertex, prior_point, next_point)
+    if angle_orientation is Orientation.COLLINEAR:
+        return orienteer(prior_point, next_point, point) is (
+            Orientation.CLOCKWISE
+        )
+    return (
+        angle_orientation is Orientation.COUNTERCLOCKWISE
+    ) is angle_contains_point(
+        vertex, prior_point, next_point, angle_orientation, point, orienteer
+    )
+
+
 def intersect_polygon_vertices_positions(
     first: list[PolygonVertexPosition],
     second: list[PolygonVertexPosition],
@@ -526,32 +556,10 @@ def is_segment_inside_hole(
     prior_to_end_point = hole_vertices[end_vertex_index - 1]
     next_to_start_point = hole_vertices[(start_vertex_index + 1) % hole_size]
     next_to_end_point = hole_vertices[(end_vertex_index + 1) % hole_size]
-    start_angle_orientation = orienteer(
-        start, prior_to_start_point, next_to_start_point
-    )
-    end_angle_orientation = orienteer(
-        end, prior_to_end_point, next_to_end_point
-    )
-    return (
-        (end_angle_orientation is Orientation.COUNTERCLOCKWISE)
-        is angle_contains_point(
-            end,
-            prior_to_end_point,
-            next_to_end_point,
-            end_angle_orientation,
-            start,
-            orienteer,
-        )
-    ) and (
-        (start_angle_orientation is Orientation.COUNTERCLOCKWISE)
-        is angle_contains_point(
-            start,
-            prior_to_start_point,
-            next_to_start_point,
-            start_angle_orientation,
-            end,
-            orienteer,
-        )
+    return hole_angle_contains_point(
+        end, prior_to_end_point, next_to_end_point, start, orienteer
+    ) and hole_angle_contains_point(
+        start, prior_to_start_point, next_to_start_point, end, orienteer
     )
 
 
@@ -740,6 +748,35 @@ def set_constraint(
     restore_delaunay_criterion(mesh, new_edges, orienteer)
 
 
+def subdivide_contour_vertices(
+    vertices: Sequence[hints.Point[hints.ScalarT]],
+    sorted_points: Sequence[hints.Point[hints.ScalarT]],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> Sequence[hints.Point[hints.ScalarT]]:
+    """
+    Inserts points lying on the contour's edges to its vertices.
+    """
+    result = []
+    for index, start in enumerate(vertices):
+        end = vertices[(index + 1) % len(vertices)]
+        min_point, max_point = to_sorted_pair(start, end)
+        mid_points = deduplicate(
+            [
+                point
+                for point in sorted_points[
+                    bisect_right(sorted_points, min_point) : bisect_left(
+                        sorted_points, max_point
+                    )
+                ]
+                if orienteer(start, end, point) is Orientation.COLLINEAR
+            ]
+        )
+        result.append(start)
+        result.extend(mid_points if start < end else reversed(mid_points))
+    return result
+
+
 def to_angle_containing_constraint_base(
     mesh: Mesh[hints.ScalarT],
     edge: QuadEdge,
-- 
2.43.0


From 2ffbc350278a963befa36052100a27d8b59c100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 15/20] fix: locate points in trapezoidation of polygons with
 contours touching each other's edges

---
 rene/_seidel/trapezoidation.py              | 32 +++++++++++++++-----
 rene/_triangulation/constrained_delaunay.py | 33 +--------------------
 rene/_utils.py                              | 30 +++++++++++++++++++
 3 files changed, 56 insertions(+), 39 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 32b239a..75f9f74 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -1,12 +1,17 @@
 from __future__ import annotations
 
-from itertools import repeat
+from itertools import chain, repeat
 from typing import Generic, TYPE_CHECKING
 
 from typing_extensions import Self
 
 from rene import hints
-from rene._utils import permute, to_arg_min, to_contour_orientation
+from rene._utils import (
+    permute,
+    subdivide_contour_vertices,
+    to_arg_min,
+    to_contour_orientation,
+)
 from rene.enums import Location, Orientation
 
 from .edge import Edge
@@ -71,8 +76,16 @@ class Trapezoidation(Generic[hints.ScalarT]):
     ) -> Self:
         edges: list[Edge[hints.ScalarT]] = []
         endpoints: list[hints.Point[hints.ScalarT]] = []
+        sorted_points = sorted(
+            chain(
+                polygon.border.vertices,
+                *[hole.vertices for hole in polygon.holes],
+            )
+        )
         _populate_from_contour(
-            polygon.border,
+            subdivide_contour_vertices(
+                polygon.border.vertices, sorted_points, orienteer
+            ),
             Orientation.COUNTERCLOCKWISE,
             edges,
             endpoints,
@@ -80,7 +93,13 @@ class Trapezoidation(Generic[hints.ScalarT]):
         )
         for hole in polygon.holes:
             _populate_from_contour(
-                hole, Orientation.CLOCKWISE, edges, endpoints, orienteer
+                subdivide_contour_vertices(
+                    hole.vertices, sorted_points, orienteer
+                ),
+                Orientation.CLOCKWISE,
+                edges,
+                endpoints,
+                orienteer,
             )
         permute(edges, seed)
         return cls._from_box(polygon.bounding_box, edges, endpoints, orienteer)
@@ -662,14 +681,13 @@ def _maybe_set_as_upper_right(
 
 
 def _populate_from_contour(
-    contour: hints.Contour[hints.ScalarT],
+    contour_vertices: Sequence[hints.Point[hints.ScalarT]],
     correct_orientation: Orientation,
     edges: list[Edge[hints.ScalarT]],
     endpoints: list[hints.Point[hints.ScalarT]],
     orienteer: Orienteer[hints.ScalarT],
     /,
 ) -> None:
-    contour_vertices = contour.vertices
     is_contour_correctly_oriented = (
         to_contour_orientation(
             contour_vertices, to_arg_min(contour_vertices), orienteer
@@ -699,7 +717,7 @@ def _populate_from_contour(
         )
         start, start_index = end, end_index
     last_end_index, last_end = len(endpoints) - 1, endpoints[-1]
-    assert last_end_index == first_start_index + len(contour.vertices) - 1
+    assert last_end_index == first_start_index + len(contour_vertices) - 1
     edges.append(
         Edge.from_endpoints(
             first_start_index,
diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 1145d0b..48009c2 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from bisect import bisect_left, bisect_right
 from collections import deque
 from itertools import chain, groupby
 from operator import attrgetter
@@ -11,11 +10,10 @@ from typing_extensions import Self
 from rene import hints
 from rene._relating import segment_endpoints
 from rene._utils import (
-    deduplicate,
     locate_point_in_point_point_point_circle,
+    subdivide_contour_vertices,
     to_arg_min,
     to_contour_orientation,
-    to_sorted_pair,
 )
 from rene.enums import Location, Orientation, Relation
 
@@ -748,35 +746,6 @@ def set_constraint(
     restore_delaunay_criterion(mesh, new_edges, orienteer)
 
 
-def subdivide_contour_vertices(
-    vertices: Sequence[hints.Point[hints.ScalarT]],
-    sorted_points: Sequence[hints.Point[hints.ScalarT]],
-    orienteer: Orienteer[hints.ScalarT],
-    /,
-) -> Sequence[hints.Point[hints.ScalarT]]:
-    """
-    Inserts points lying on the contour's edges to its vertices.
-    """
-    result = []
-    for index, start in enumerate(vertices):
-        end = vertices[(index + 1) % len(vertices)]
-        min_point, max_point = to_sorted_pair(start, end)
-        mid_points = deduplicate(
-            [
-                point
-                for point in sorted_points[
-                    bisect_right(sorted_points, min_point) : bisect_left(
-                        sorted_points, max_point
-                    )
-                ]
-                if orienteer(start, end, point) is Orientation.COLLINEAR
-            ]
-        )
-        result.append(start)
-        result.extend(mid_points if start < end else reversed(mid_points))
-    return result
-
-
 def to_angle_containing_constraint_base(
     mesh: Mesh[hints.ScalarT],
     edge: QuadEdge,
diff --git a/rene/_utils.py b/rene/_utils.py
index e5a9478..2e54c85 100644
--- a/rene/_utils.py
+++ b/rene/_utils.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import sys
+from bisect import bisect_left, bisect_right
 from itertools import groupby
 from typing import Any, TYPE_CHECKING, TypeVar
 
@@ -364,6 +365,35 @@ def shrink_collinear_vertices(
     return result
 
 
+def subdivide_contour_vertices(
+    vertices: Sequence[hints.Point[hints.ScalarT]],
+    sorted_points: Sequence[hints.Point[hints.ScalarT]],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> Sequence[hints.Point[hints.ScalarT]]:
+    """
+    Inserts points lying on the contour's edges to its vertices.
+    """
+    result = []
+    for index, start in enumerate(vertices):
+        end = vertices[(index + 1) % len(vertices)]
+        min_point, max_point = to_sorted_pair(start, end)
+        mid_points = deduplicate(
+            [
+                point
+                for point in sorted_points[
+                    bisect_right(sorted_points, min_point) : bisect_left(
+                        sorted_points, max_point
+                    )
+                ]
+                if orienteer(start, end, point) is Orientation.COLLINEAR
+            ]
+        )
+        result.append(start)
+        result.extend(mid_points if start < end else reversed(mid_points))
+    return result
+
+
 def to_arg_min(values: Sequence[_OrderedT], /) -> int:
     return min(range(len(values)), key=values.__getitem__)
 
-- 
2.43.0


From 63760ef71379841b46d78046c6e458aa1431cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 16/20] fix: split segments touching each other's interiors
 when uniting them or taking symmetric difference

---
 rene/_clipping/symmetric_difference.py | 30 ++++++++++++++++++++++++++
 rene/_clipping/union.py                | 30 ++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/rene/_clipping/symmetric_difference.py b/rene/_clipping/symmetric_difference.py
index 5595599..4ac9f75 100644
--- a/rene/_clipping/symmetric_difference.py
+++ b/rene/_clipping/symmetric_difference.py
@@ -358,6 +358,36 @@ def symmetric_subtract_segment_from_segment(
                     segment_cls(cross_point, subtrahend_end),
                 ]
             )
+        if (
+            minuend_start_orientation is Orientation.COLLINEAR
+            or minuend_end_orientation is Orientation.COLLINEAR
+        ):
+            touch_point = (
+                minuend_start
+                if minuend_start_orientation is Orientation.COLLINEAR
+                else minuend_end
+            )
+            return multisegment_cls(
+                [
+                    minuend,
+                    segment_cls(subtrahend_start, touch_point),
+                    segment_cls(touch_point, subtrahend_end),
+                ]
+            )
+    elif subtrahend_start_orientation is not subtrahend_end_orientation:
+        touch_point = (
+            subtrahend_start
+            if subtrahend_start_orientation is Orientation.COLLINEAR
+            else subtrahend_end
+        )
+        if minuend_start < touch_point < minuend_end:
+            return multisegment_cls(
+                [
+                    segment_cls(minuend_start, touch_point),
+                    segment_cls(touch_point, minuend_end),
+                    subtrahend,
+                ]
+            )
     elif (
         subtrahend_start_orientation is Orientation.COLLINEAR
         and subtrahend_end_orientation is Orientation.COLLINEAR
diff --git a/rene/_clipping/union.py b/rene/_clipping/union.py
index 768b483..3e19e5c 100644
--- a/rene/_clipping/union.py
+++ b/rene/_clipping/union.py
@@ -598,6 +598,36 @@ def unite_segment_with_segment(
                     segment_cls(cross_point, second_end),
                 ]
             )
+        if (
+            first_start_orientation is Orientation.COLLINEAR
+            or first_end_orientation is Orientation.COLLINEAR
+        ):
+            touch_point = (
+                first_start
+                if first_start_orientation is Orientation.COLLINEAR
+                else first_end
+            )
+            return multisegment_cls(
+                [
+                    first,
+                    segment_cls(second_start, touch_point),
+                    segment_cls(touch_point, second_end),
+                ]
+            )
+    elif second_start_orientation is not second_end_orientation:
+        touch_point = (
+            second_start
+            if second_start_orientation is Orientation.COLLINEAR
+            else second_end
+        )
+        if first_start < touch_point < first_end:
+            return multisegment_cls(
+                [
+                    segment_cls(first_start, touch_point),
+                    segment_cls(touch_point, first_end),
+                    second,
+                ]
+            )
     elif (
         second_start_orientation is Orientation.COLLINEAR
         and second_end_orientation is Orientation.COLLINEAR
-- 
2.43.0


From 5dbf62707db935d60df3288e199862a1aff0ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 17/20] fix: recheck swapped edges when restoring Delaunay
 criterion after constraining

---
 rene/_triangulation/constrained_delaunay.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 48009c2..bc3b38b 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -716,20 +716,13 @@ def restore_delaunay_criterion(
     orienteer: Orienteer[hints.ScalarT],
     /,
 ) -> None:
-    while True:
-        next_target_edges: list[QuadEdge] = []
-        edges_to_swap: list[QuadEdge] = []
+    has_swapped_edges = True
+    while has_swapped_edges:
+        has_swapped_edges = False
         for edge in candidates:
-            (
-                edges_to_swap
-                if edge_should_be_swapped(mesh, edge, orienteer)
-                else next_target_edges
-            ).append(edge)
-        if not edges_to_swap:
-            break
-        for edge in edges_to_swap:
-            mesh.swap_diagonal(edge)
-        candidates = next_target_edges
+            if edge_should_be_swapped(mesh, edge, orienteer):
+                mesh.swap_diagonal(edge)
+                has_swapped_edges = True
 
 
 def set_constraint(
-- 
2.43.0


From e9c3d5d0f46e1478fc99fac78f114c256af5c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 18/20] fix: count linear segments, not their sharing flags,
 when relating to a multipolygon

Several linear segments met within one sweep step were compared by the number
of distinct identifiers, so that operands with parts lying far apart got
COMPOSITE, WITHIN instead of TOUCH, CROSS.
---
 rene/_relating/multipolygon.py   | 2 +-
 rene/_relating/multisegmental.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index d7c335c..314dac3 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -284,7 +284,7 @@ def relate_to_multisegmental(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 2e1e940..57469bc 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -110,7 +110,7 @@ def relate_to_multipolygon(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
-- 
2.43.0


From e70d390a572cd85bb385560924e139c565b13397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:06 +0000
Subject: [PATCH 19/20] fix: merge collinear segments by the roots of their
 trees

Merging through a non-root replaced the link of that non-root, so that
chains of more than two links appeared (an assertion failed in is_valid) and
segments lost their tree.
---
 rene/_bentley_ottmann/events_registry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rene/_bentley_ottmann/events_registry.py b/rene/_bentley_ottmann/events_registry.py
index 02401da..7fe3038 100644
--- a/rene/_bentley_ottmann/events_registry.py
+++ b/rene/_bentley_ottmann/events_registry.py
@@ -399,12 +399,12 @@ class EventsRegistry(Generic[hints.ScalarT]):
     ) -> None:
         first_segment_id = self._to_left_event_segment_id(first)
         second_segment_id = self._to_left_event_segment_id(second)
-        first_min_collinear_segment_id = self._min_collinear_segments_ids[
+        first_min_collinear_segment_id = self._to_min_collinear_segment_id(
             first_segment_id
-        ]
-        second_min_collinear_segment_id = self._min_collinear_segments_ids[
+        )
+        second_min_collinear_segment_id = self._to_min_collinear_segment_id(
             second_segment_id
-        ]
+        )
         min_collinear_segment_id = min(
             first_min_collinear_segment_id, second_min_collinear_segment_id
         )
@@ -437,11 +437,8 @@ class EventsRegistry(Generic[hints.ScalarT]):
 
     def _to_min_collinear_segment_id(self, segment_id: int, /) -> int:
         candidate = segment_id
-        iterations_count = 0
         while self._min_collinear_segments_ids[candidate] != candidate:
             candidate = self._min_collinear_segments_ids[candidate]
-            iterations_count += 1
-        assert iterations_count < 3
         return candidate
 
     def _to_opposite_event(self, event: Event, /) -> Event:
-- 
2.43.0


From f15a60d27af50b3fb1ae6a581e67f51a3cb68fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:21 +0000
Subject: [PATCH 20/20] fix: cut edges lying inside one of holes sharing both
 endpoints in triangulation

---
 rene/_triangulation/constrained_delaunay.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index bc3b38b..f52ba57 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -526,9 +526,16 @@ def is_edge_inside_hole(
         polygon_vertices_positions[end_index],
         with_border=False,
     )
-    assert len(common_holes_positions) <= 1
-    return bool(common_holes_positions) and is_segment_inside_hole(
-        start, end, *common_holes_positions[0], contours_vertices, orienteer
+    return any(
+        is_segment_inside_hole(
+            start,
+            end,
+            start_position,
+            end_position,
+            contours_vertices,
+            orienteer,
+        )
+        for start_position, end_position in common_holes_positions
     )
 
 
-- 
2.43.0


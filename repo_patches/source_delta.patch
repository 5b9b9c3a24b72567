From 00fef9c254a50071a9471bc593d5ad3b43c8496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 01/37] fix: stop the ReID countdown of an object that gets
 matched again

An object matched on the very update in which its hit counter ran out kept
its ReID countdown, and was destroyed by it while still being matched.
---
 norfair/tracker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 275ecee..6f0cc04 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -626,6 +626,8 @@ class TrackedObject:
 
         self.last_detection = detection
         self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
+        # The object is being matched again, so it is no longer waiting for a ReID
+        self.reid_hit_counter = None
 
         if self.is_initializing and self.hit_counter > self.initialization_delay:
             self.is_initializing = False
-- 
2.43.0


From 741f5e2bf4990c9b8f888010e2c50713cb9fe208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 02/37] fix: set every coordinate of a point detected for the
 first time

The mask of currently detected points was laid out coordinate by coordinate
while the state is laid out point by point, so only some coordinates of a
newly seen point were set, and coordinates of undetected points could be.
---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 6f0cc04..b992576 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -664,8 +664,8 @@ class TrackedObject:
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
         ).flatten()
-        now_detected_mask = np.hstack(
-            (points_over_threshold_mask,) * self.dim_points
+        now_detected_mask = np.array(
+            [(m,) * self.dim_points for m in points_over_threshold_mask]
         ).flatten()
         first_detection_mask = np.logical_and(
             now_detected_mask, np.logical_not(detected_at_least_once_mask)
-- 
2.43.0


From d09b16e525d96a0576b1ccd220c0c0cec135862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 03/37] fix: accept coord_transformations on updates without
 detections

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index b992576..10dabdb 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,7 +176,7 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None:
+        if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
 
-- 
2.43.0


From 4449efe5073f0945dfc5c62c5f366c15a67d26bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 04/37] fix: always compute absolute points from the relative
 ones

A detection given to update more than once (or to more than one tracker) had
its already absolute points transformed again.
---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 10dabdb..1596286 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -789,6 +789,4 @@ class Detection:
         self, coordinate_transformation: CoordinatesTransformation
     ):
         if coordinate_transformation is not None:
-            self.absolute_points = coordinate_transformation.rel_to_abs(
-                self.absolute_points
-            )
+            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)
-- 
2.43.0


From 2002c162e9cf6f51b2487be0b0af5dc9321da2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 05/37] fix: give out unique global ids when trackers run in
 several threads

---
 norfair/tracker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 1596286..e308fb9 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -1,4 +1,5 @@
 from logging import warning
+from threading import Lock
 from typing import Any, Callable, Hashable, List, Optional, Sequence, Tuple, Union
 
 import numpy as np
@@ -387,6 +388,7 @@ class Tracker:
 
 class _TrackedObjectFactory:
     global_count = 0
+    _global_count_lock = Lock()
 
     def __init__(self) -> None:
         self.count = 0
@@ -426,8 +428,10 @@ class _TrackedObjectFactory:
 
     def get_ids(self) -> Tuple[int, int]:
         self.count += 1
-        _TrackedObjectFactory.global_count += 1
-        return self.count, _TrackedObjectFactory.global_count
+        with _TrackedObjectFactory._global_count_lock:
+            _TrackedObjectFactory.global_count += 1
+            global_id = _TrackedObjectFactory.global_count
+        return self.count, global_id
 
 
 class TrackedObject:
-- 
2.43.0


From 3192713550aa4641fea1a82f434bb8c6c93705cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 06/37] fix: mark points as live when they are matched after a
 long gap

The counter of a point kept going down below 0 while it was not matched, so
a matched point could still be considered stale.
---
 norfair/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index e308fb9..d75fff8 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -637,6 +637,9 @@ class TrackedObject:
             self.is_initializing = False
             self._acquire_ids()
 
+        # Points not seen for a while start again from 0
+        self.point_hit_counter[self.point_hit_counter < 0] = 0
+
         # We use a kalman filter in which we consider each coordinate on each point as a sensor.
         # This is a hacky way to update only certain sensors (only x, y coordinates for
         # points which were detected).
@@ -658,7 +661,6 @@ class TrackedObject:
         self.point_hit_counter[
             self.point_hit_counter >= self.pointwise_hit_counter_max
         ] = self.pointwise_hit_counter_max
-        self.point_hit_counter[self.point_hit_counter < 0] = 0
         H_vel = np.zeros(H_pos.shape)  # But we don't directly measure velocity
         H = np.hstack([H_pos, H_vel])
         self.filter.update(
-- 
2.43.0


From 9c8e19e2acef4216e51f0f6d9f61a9eea7725c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 07/37] fix: terminate the matching for large distance
 thresholds

In float32 distance_threshold + 1 may be rounded to less than the threshold,
which made the matching loop never end.
---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index d75fff8..dcf6863 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -377,8 +377,8 @@ class Tracker:
                 obj_idx = flattened_arg_min % distance_matrix.shape[1]
                 det_idxs.append(det_idx)
                 obj_idxs.append(obj_idx)
-                distance_matrix[det_idx, :] = distance_threshold + 1
-                distance_matrix[:, obj_idx] = distance_threshold + 1
+                distance_matrix[det_idx, :] = np.inf
+                distance_matrix[:, obj_idx] = np.inf
                 current_min = distance_matrix.min()
 
             return det_idxs, obj_idxs
-- 
2.43.0


From a45103ed8437e92b6b8248fc9b2f4ee88b5fb407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 08/37] fix: compare labels by equality in vectorized distances

Labels were compared through their conversion to str, which mixed up labels
such as 1 and "1", and failed on tuples or on mixed int and float labels.
---
 norfair/distances.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index d7d7e4c..2555fca 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -151,26 +151,24 @@ class VectorizedDistance(Distance):
         if not objects or not candidates:
             return distance_matrix
 
-        object_labels = np.array([o.label for o in objects]).astype(str)
-        candidate_labels = np.array([c.label for c in candidates]).astype(str)
+        object_labels = {o.label for o in objects}
+        candidate_labels = {c.label for c in candidates}
 
         # iterate over labels that are present both in objects and detections
-        for label in np.intersect1d(
-            np.unique(object_labels), np.unique(candidate_labels)
-        ):
+        for label in object_labels & candidate_labels:
             # generate masks of the subset of object and detections for this label
-            obj_mask = object_labels == label
-            cand_mask = candidate_labels == label
+            obj_mask = np.array([o.label == label for o in objects])
+            cand_mask = np.array([c.label == label for c in candidates])
 
             stacked_objects = []
             for o in objects:
-                if str(o.label) == label:
+                if o.label == label:
                     stacked_objects.append(o.estimate.ravel())
             stacked_objects = np.stack(stacked_objects)
 
             stacked_candidates = []
             for c in candidates:
-                if str(c.label) == label:
+                if c.label == label:
                     if "Detection" in str(type(c)):
                         stacked_candidates.append(c.points.ravel())
                     else:
-- 
2.43.0


From 6ce65c15c58ec2b03f261bcd0b995b1b9931c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 09/37] fix: do not fail in Video when the clock has not
 advanced

---
 norfair/video.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 83abbd4..a1529b4 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -160,7 +160,9 @@ class Video:
                 ret, frame = self.video_capture.read()
                 if ret is False or frame is None:
                     break
-                process_fps = self.frame_counter / (time.time() - start)
+                elapsed = time.time() - start
+                # The clock may not have advanced yet, or have been set back
+                process_fps = self.frame_counter / elapsed if elapsed > 0 else 0
                 progress_bar.update(
                     self.task, advance=1, refresh=True, process_fps=process_fps
                 )
-- 
2.43.0


From 2527cb8ff9f366f7a95552bd37fdb4ff537da43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 10/37] fix: put the camera id in the name of the output video

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index a1529b4..599efa0 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -260,7 +260,7 @@ class Video:
         if self.input_path is not None:
             file_name = self.input_path.split("/")[-1].split(".")[0]
         else:
-            file_name = "camera_{self.camera}"
+            file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
 
         return os.path.join(self.output_path, file_name)
-- 
2.43.0


From 7b80750d0b683f00b0f1f76daf5b081569b43be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 11/37] fix: accept float downsample ratios in Video.show

---
 norfair/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 599efa0..37e6be6 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -236,8 +236,8 @@ class Video:
             frame = cv2.resize(
                 frame,
                 (
-                    frame.shape[1] // downsample_ratio,
-                    frame.shape[0] // downsample_ratio,
+                    int(frame.shape[1] // downsample_ratio),
+                    int(frame.shape[0] // downsample_ratio),
                 ),
             )
         cv2.imshow("Output", frame)
-- 
2.43.0


From 7e9b6262fc267dca7be0d4e090a1296086c43202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 12/37] fix: let several Videos be iterated at the same time

Their progress bars shared the global console, where rich allows a single
live display, so iterating a second Video raised LiveError.
---
 norfair/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/video.py b/norfair/video.py
index 37e6be6..1727152 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -10,6 +10,7 @@ except ImportError:
     cv2 = DummyOpenCVImport()
 import numpy as np
 from rich import print
+from rich.console import Console
 from rich.progress import BarColumn, Progress, ProgressColumn, TimeRemainingColumn
 
 from norfair import metrics
@@ -138,6 +139,7 @@ class Video:
             )
         self.progress_bar = Progress(
             *progress_bar_fields,
+            console=Console(),  # rich allows one live display per console
             auto_refresh=False,
             redirect_stdout=False,
             redirect_stderr=False,
-- 
2.43.0


From 0f202856a0e65a88512afc00656322108ff0379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 13/37] fix: let several Accumulators be used at the same time

---
 norfair/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b1e056d..bfd8adb 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -2,6 +2,7 @@ import os
 
 import numpy as np
 from rich import print
+from rich.console import Console
 from rich.progress import track
 
 from norfair import Detection
@@ -184,7 +185,10 @@ class Accumulators:
             information_file = InformationFile(file_path=seqinfo_path)
         length = information_file.search(variable_name="seqLength")
         self.progress_bar_iter = track(
-            range(length - 1), description=file_name, transient=False
+            range(length - 1),
+            description=file_name,
+            transient=False,
+            console=Console(),  # rich allows one live display per console
         )
 
     def update(self, predictions=None):
-- 
2.43.0


From c55bf72b6b1c7617e00ad99c71a56d27abc08f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 14/37] fix: parse detection files with a single detection

---
 norfair/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index bfd8adb..ad852a1 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -111,7 +111,9 @@ class DetectionFileParser:
         # frame, id, bb_left, bb_top, bb_right, bb_down, conf, x, y, z
         detections_path = os.path.join(input_path, "det/det.txt")
 
-        self.matrix_detections = np.loadtxt(detections_path, dtype="f", delimiter=",")
+        self.matrix_detections = np.loadtxt(
+            detections_path, dtype="f", delimiter=",", ndmin=2
+        )
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From 4d80fc24f1f78c6db6492f52625fb44c34c828d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 15/37] fix: evaluate sequences with a single prediction

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index ad852a1..479019d 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -209,7 +209,7 @@ class Accumulators:
                 -1,
             ]
             if np.shape(self.matrix_predictions)[0] == 0:
-                self.matrix_predictions = new_row
+                self.matrix_predictions = [new_row]
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
         self.frame_number += 1
-- 
2.43.0


From f3455b274285d8c14044806f119f661753e260ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 16/37] fix: keep the predictions of each sequence with its own
 path

A sequence that was abandoned before its last frame, or updated after it,
shifted the predictions of the following ones to other sequences.
---
 norfair/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 479019d..0616970 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -180,6 +180,7 @@ class Accumulators:
         self.paths = np.hstack((self.paths, input_path))
         # Initialize a matrix where we will save our predictions for this video (in the MOTChallenge format)
         self.matrix_predictions = []
+        self.matrixes_predictions.append(self.matrix_predictions)
 
         # Initialize progress bar
         if information_file is None:
@@ -212,12 +213,12 @@ class Accumulators:
                 self.matrix_predictions = [new_row]
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
+        self.matrixes_predictions[-1] = self.matrix_predictions
         self.frame_number += 1
         # Advance in progress bar
         try:
             next(self.progress_bar_iter)
         except StopIteration:
-            self.matrixes_predictions.append(self.matrix_predictions)
             return
 
     def compute_metrics(
-- 
2.43.0


From 75d25c095bcc0c51737ca18e8e64394405ca86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:26 +0000
Subject: [PATCH 17/37] fix: print objects that were never matched

---
 norfair/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 98e0d90..0e58b3e 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -41,7 +41,7 @@ def print_objects_as_table(tracked_objects: Sequence):
             str(obj.id),
             str(obj.age),
             str(obj.hit_counter),
-            f"{obj.last_distance:.4f}",
+            "-" if obj.last_distance is None else f"{obj.last_distance:.4f}",
             str(obj.initializing_id),
         )
     console.print(table)
-- 
2.43.0


From 55e5dabd07cd8e1ea240e31f67ac8f0465a3b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 18/37] fix: parse detection files without detections

---
 norfair/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 0616970..18e056e 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -114,6 +114,8 @@ class DetectionFileParser:
         self.matrix_detections = np.loadtxt(
             detections_path, dtype="f", delimiter=",", ndmin=2
         )
+        if self.matrix_detections.size == 0:
+            self.matrix_detections = self.matrix_detections.reshape(0, 10)
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From d628cbe22f3bb3c10b9699da11b5c6f64995707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 19/37] fix: keep dots in the name of the output video

Inputs such as cam.1.mp4 and cam.2.mp4 recorded into the same folder were
all written to cam_out.mp4, overwriting each other.
---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 1727152..a641660 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -260,7 +260,7 @@ class Video:
             return self.output_path
 
         if self.input_path is not None:
-            file_name = self.input_path.split("/")[-1].split(".")[0]
+            file_name = os.path.splitext(os.path.basename(self.input_path))[0]
         else:
             file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
-- 
2.43.0


From 1277439460cdb5f1e3393eb3286ff3bdce3456cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 20/37] fix: draw the text of objects without live points

---
 norfair/drawing/draw_points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e513e30..586687a 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -160,7 +160,9 @@ def draw_points(
                     )
 
         if draw_labels or draw_ids or draw_scores:
-            position = d.points[d.live_points].mean(axis=0)
+            # objects without live points only get here if dead points are shown
+            shown_points = d.points[d.live_points] if d.live_points.any() else d.points
+            position = shown_points.mean(axis=0)
             position -= radius
             text = _build_text(
                 d, draw_labels=draw_labels, draw_ids=draw_ids, draw_scores=draw_scores
-- 
2.43.0


From d126103bf05b17aaaef6fb17e84d52a1108e18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:02 +0000
Subject: [PATCH 21/37] fix: let the process exit when a sequence was not
 completely evaluated

---
 norfair/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 18e056e..fab77f6 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -193,6 +193,8 @@ class Accumulators:
             range(length - 1),
             description=file_name,
             transient=False,
+            # The thread of an automatic refresh would outlive abandoned sequences
+            auto_refresh=False,
             console=Console(),  # rich allows one live display per console
         )
 
-- 
2.43.0


From d83130a80b402fb712c35aa1957fecc000720da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:32 +0000
Subject: [PATCH 22/37] fix: do not use up an id when creating the object fails

---
 norfair/tracker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index dcf6863..2f39892 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -511,8 +511,6 @@ class TrackedObject:
         self.initializing_id: Optional[int] = self._obj_factory.get_initializing_id()
         self.id: Optional[int] = None
         self.global_id: Optional[int] = None
-        if not self.is_initializing:
-            self._acquire_ids()
 
         if initial_detection.scores is None:
             self.detected_at_least_once_points = np.array([True] * self.num_points)
@@ -538,6 +536,10 @@ class TrackedObject:
         if coord_transformations is not None:
             self.update_coordinate_transformation(coord_transformations)
 
+        # Ids are given out last, so that none is lost if creating the object fails
+        if not self.is_initializing:
+            self._acquire_ids()
+
     def tracker_step(self):
         if self.reid_hit_counter is None:
             if self.hit_counter <= 0:
-- 
2.43.0


From 7a7abb22e39f04aab92d1738e49ee48c5ac77296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 23/37] fix: let frames with faulty detections elapse with
 camera motion too

---
 norfair/tracker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 2f39892..e4c819c 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -177,10 +177,6 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None and detections is not None:
-            for det in detections:
-                det.update_coordinate_transformation(coord_transformations)
-
         # Remove stale trackers and make candidate object real if the hit counter is positive
         alive_objects = []
         dead_objects = []
@@ -205,6 +201,10 @@ class Tracker:
             obj.tracker_step()
             obj.update_coordinate_transformation(coord_transformations)
 
+        if coord_transformations is not None and detections is not None:
+            for det in detections:
+                det.update_coordinate_transformation(coord_transformations)
+
         # Update initialized tracked objects with detections
         (
             unmatched_detections,
-- 
2.43.0


From bb11857eecc90e8916b93deba030dc4290bdf24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 24/37] fix: image sequences with a frame rate that is not an
 integer can be made into a video

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index a641660..da8e9d5 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -315,7 +315,7 @@ class VideoFromFrames:
             file_name = os.path.split(input_path)[1]
 
             # Search framerate on seqinfo.ini
-            fps = information_file.search(variable_name="frameRate")
+            fps = float(information_file.search(variable_name="frameRate"))
 
             # Search resolution in seqinfo.ini
             horizontal_resolution = information_file.search(variable_name="imWidth")
-- 
2.43.0


From 8804b90a4ebb039e8a64ef538bec5ec474eb1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:55 +0000
Subject: [PATCH 25/37] fix: sequences given with a trailing slash get their
 own predictions and video files

---
 norfair/metrics.py | 4 ++--
 norfair/video.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index fab77f6..363aa53 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -47,7 +47,7 @@ class PredictionsTextFile:
 
     def __init__(self, input_path, save_path=".", information_file=None):
 
-        file_name = os.path.split(input_path)[1]
+        file_name = os.path.basename(os.path.normpath(input_path))
 
         if information_file is None:
             seqinfo_path = os.path.join(input_path, "seqinfo.ini")
@@ -175,7 +175,7 @@ class Accumulators:
         # the whole dataset before failing out if we don't.
         mm.metrics
 
-        file_name = os.path.split(input_path)[1]
+        file_name = os.path.basename(os.path.normpath(input_path))
 
         self.frame_number = 1
         # Save the path of this video in a list
diff --git a/norfair/video.py b/norfair/video.py
index da8e9d5..960c730 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -312,7 +312,7 @@ class VideoFromFrames:
                 file_path=os.path.join(input_path, "seqinfo.ini")
             )
         if make_video:
-            file_name = os.path.split(input_path)[1]
+            file_name = os.path.basename(os.path.normpath(input_path))
 
             # Search framerate on seqinfo.ini
             fps = float(information_file.search(variable_name="frameRate"))
-- 
2.43.0


From 27b462c46b0fbfe46de023960bea04692bc8a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 26/37] fix: sequences with the same name are evaluated
 separately

---
 norfair/metrics.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 363aa53..39b68f0 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -15,7 +15,6 @@ except ImportError:
 
     mm = DummyMOTMetricsImport()
     pandas = DummyMOTMetricsImport()
-from collections import OrderedDict
 
 
 class InformationFile:
@@ -321,29 +320,20 @@ def compare_dataframes(gts, ts):
 
 
 def eval_motChallenge(matrixes_predictions, paths, metrics=None, generate_overall=True):
-    gt = OrderedDict(
-        [
-            (
-                os.path.split(p)[1],
-                mm.io.loadtxt(
-                    os.path.join(p, "gt/gt.txt"), fmt="mot15-2D", min_confidence=1
-                ),
-            )
-            for p in paths
-        ]
-    )
-
-    ts = OrderedDict(
-        [
-            (os.path.split(paths[n])[1], load_motchallenge(matrixes_predictions[n]))
-            for n in range(len(paths))
-        ]
-    )
+    # The sequences are compared one by one, as several may have the same name
+    accs, names = [], []
+    for path, matrix_predictions in zip(paths, matrixes_predictions):
+        name = os.path.basename(os.path.normpath(path))
+        gt = mm.io.loadtxt(
+            os.path.join(path, "gt/gt.txt"), fmt="mot15-2D", min_confidence=1
+        )
+        ts = load_motchallenge(matrix_predictions)
+        new_accs, new_names = compare_dataframes({name: gt}, {name: ts})
+        accs.extend(new_accs)
+        names.extend(new_names)
 
     mh = mm.metrics.create()
 
-    accs, names = compare_dataframes(gt, ts)
-
     if metrics is None:
         metrics = list(mm.metrics.motchallenge_metrics)
     mm.lap.default_solver = "scipy"
-- 
2.43.0


From 39d8c96ec9cf82b246d72ddbd7b237a0cc3c0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:02 +0000
Subject: [PATCH 27/37] fix: IoU of boxes given as small integers, whose areas
 overflowed

---
 norfair/distances.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/norfair/distances.py b/norfair/distances.py
index 2555fca..a3c5cd2 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -326,6 +326,7 @@ def _boxes_area(boxes: np.ndarray) -> np.ndarray:
     """
     Calculate the area of bounding boxes.
     """
+    boxes = boxes.astype(float)  # areas may not fit in the type of the coordinates
     return (boxes[2] - boxes[0]) * (boxes[3] - boxes[1])
 
 
-- 
2.43.0


From c60bc0b695416bc9034e0cb44dc3c912344c8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:05 +0000
Subject: [PATCH 28/37] fix: vectorized distances of detections labelled with
 nan

---
 norfair/distances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/distances.py b/norfair/distances.py
index a3c5cd2..755ed7d 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -159,6 +159,8 @@ class VectorizedDistance(Distance):
             # generate masks of the subset of object and detections for this label
             obj_mask = np.array([o.label == label for o in objects])
             cand_mask = np.array([c.label == label for c in candidates])
+            if not obj_mask.any() or not cand_mask.any():
+                continue  # labels that are not equal to themselves, such as nan
 
             stacked_objects = []
             for o in objects:
-- 
2.43.0


From 83a0fcc399631358c848217746204ad1b513a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:14 +0000
Subject: [PATCH 29/37] fix: creating the output folder does not fail if
 another thread creates it at the same time

---
 norfair/metrics.py | 6 ++----
 norfair/video.py   | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 39b68f0..182e16e 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -55,8 +55,7 @@ class PredictionsTextFile:
         self.length = information_file.search(variable_name="seqLength")
 
         predictions_folder = os.path.join(save_path, "predictions")
-        if not os.path.exists(predictions_folder):
-            os.makedirs(predictions_folder)
+        os.makedirs(predictions_folder, exist_ok=True)
 
         out_file_name = os.path.join(predictions_folder, file_name + ".txt")
         self.text_file = open(out_file_name, "w+")
@@ -242,8 +241,7 @@ class Accumulators:
         return self.summary_dataframe
 
     def save_metrics(self, save_path=".", file_name="metrics.txt"):
-        if not os.path.exists(save_path):
-            os.makedirs(save_path)
+        os.makedirs(save_path, exist_ok=True)
 
         metrics_path = os.path.join(save_path, file_name)
         metrics_file = open(metrics_path, "w+")
diff --git a/norfair/video.py b/norfair/video.py
index 960c730..9e6aa85 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -323,8 +323,7 @@ class VideoFromFrames:
             image_size = (horizontal_resolution, vertical_resolution)
 
             videos_folder = os.path.join(save_path, "videos")
-            if not os.path.exists(videos_folder):
-                os.makedirs(videos_folder)
+            os.makedirs(videos_folder, exist_ok=True)
 
             video_path = os.path.join(videos_folder, file_name + ".mp4")
             fourcc = cv2.VideoWriter_fourcc(*"mp4v")
-- 
2.43.0


From fe6428f55ee6e358576e8f35b429c056c03d9c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:19 +0000
Subject: [PATCH 30/37] fix: IoU of boxes without area, which was nan

---
 norfair/distances.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index 755ed7d..df8cc87 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -377,9 +377,9 @@ def iou(candidates: np.ndarray, objects: np.ndarray) -> np.ndarray:
     area_intersection = np.prod(
         np.clip(bottom_right - top_left, a_min=0, a_max=None), 2
     )
-    return 1 - area_intersection / (
-        area_candidates[:, None] + area_objects - area_intersection
-    )
+    area_union = area_candidates[:, None] + area_objects - area_intersection
+    # Boxes without area have an empty union, and do not overlap
+    return 1 - area_intersection / np.where(area_union == 0, 1, area_union)
 
 
 iou_opt = iou  # deprecated
-- 
2.43.0


From 872fbb1b60286898b076ada54211eb6ee6bb88a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:36 +0000
Subject: [PATCH 31/37] fix: FixedCamera shows frames whose camera motion could
 not be estimated

---
 norfair/drawing/fixed_camera.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/norfair/drawing/fixed_camera.py b/norfair/drawing/fixed_camera.py
index 6c04906..09f5617 100644
--- a/norfair/drawing/fixed_camera.py
+++ b/norfair/drawing/fixed_camera.py
@@ -99,9 +99,12 @@ class FixedCamera:
         top_left = (
             np.array(self._background.shape[:2]) // 2 - np.array(frame.shape[:2]) // 2
         )
-        top_left = (
-            coord_transformation.rel_to_abs(top_left[::-1]).round().astype(int)[::-1]
-        )
+        if coord_transformation is not None:  # the MotionEstimator gives None on failure
+            top_left = (
+                coord_transformation.rel_to_abs(top_left[::-1])
+                .round()
+                .astype(int)[::-1]
+            )
         # box of the background that will be updated and the limits of it
         background_y0, background_y1 = (top_left[0], top_left[0] + frame.shape[0])
         background_x0, background_x1 = (top_left[1], top_left[1] + frame.shape[1])
-- 
2.43.0


From 41867b7c0a2892132f2c0e2c4cf5f61d0145d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:36 +0000
Subject: [PATCH 32/37] fix: AbsolutePaths draws without camera motion, as its
 default argument promises

---
 norfair/drawing/path.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/path.py b/norfair/drawing/path.py
index 8029441..57a201c 100644
--- a/norfair/drawing/path.py
+++ b/norfair/drawing/path.py
@@ -3,6 +3,7 @@ from typing import Callable, Optional, Sequence, Tuple
 
 import numpy as np
 
+from norfair.camera_motion import TranslationTransformation
 from norfair.drawing.color import Palette
 from norfair.drawing.drawer import Drawer
 from norfair.tracker import TrackedObject
@@ -191,6 +192,8 @@ class AbsolutePaths:
             self.radius = int(max(frame_scale * 0.7, 1))
         if self.thickness is None:
             self.thickness = int(max(frame_scale / 7, 1))
+        if coord_transform is None:
+            coord_transform = TranslationTransformation(np.zeros(2))
         for obj in tracked_objects:
             if not obj.live_points.any():
                 continue
@@ -200,7 +203,10 @@ class AbsolutePaths:
             else:
                 color = self.color
 
-            points_to_draw = self.get_points_to_draw(obj.get_estimate(absolute=True))
+            # objects that have not seen any camera motion have no other coordinates
+            points_to_draw = self.get_points_to_draw(
+                obj.get_estimate(absolute=obj.abs_to_rel is not None)
+            )
 
             for point in coord_transform.abs_to_rel(points_to_draw):
                 Drawer.circle(
-- 
2.43.0


From 382c98da93f354c324aab7ba9989e34aa42d5842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:14 +0000
Subject: [PATCH 33/37] fix: draw_points returns the frame when there is
 nothing to draw

---
 norfair/drawing/draw_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 586687a..a08033a 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -113,7 +113,7 @@ def draw_points(
     # end
 
     if drawables is None:
-        return
+        return frame
 
     if text_color is not None:
         text_color = parse_color(text_color)
-- 
2.43.0


From f46074fcdeb78b6113809f05b4743e4873248202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:14 +0000
Subject: [PATCH 34/37] fix: deprecated colour flags that are False do not
 change the colour

---
 norfair/drawing/draw_boxes.py  | 6 ++++--
 norfair/drawing/draw_points.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/norfair/drawing/draw_boxes.py b/norfair/drawing/draw_boxes.py
index 57789db..756fa25 100644
--- a/norfair/drawing/draw_boxes.py
+++ b/norfair/drawing/draw_boxes.py
@@ -100,12 +100,14 @@ def draw_boxes(
         warn_once(
             'Parameter "random_color" is deprecated, set `color="random"` instead'
         )
-        color = "random"
+        if random_color:
+            color = "random"
     if color_by_label is not None:
         warn_once(
             'Parameter "color_by_label" is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once('Parameter "detections" is deprecated, use "drawables" instead')
         drawables = detections
diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index a08033a..a70a3e8 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -99,7 +99,8 @@ def draw_points(
         warn_once(
             'Parameter "color_by_label" on function draw_points is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once(
             "Parameter 'detections' on function draw_points is deprecated, use 'drawables' instead"
-- 
2.43.0


From 81b27c3a7da5e0b61678c662178fb7f78d013b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:54 +0000
Subject: [PATCH 35/37] fix: the motion estimator keeps its own copy of the
 mask until it samples the points

---
 norfair/camera_motion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/norfair/camera_motion.py b/norfair/camera_motion.py
index cdf6a8b..6929455 100644
--- a/norfair/camera_motion.py
+++ b/norfair/camera_motion.py
@@ -393,6 +393,10 @@ class MotionEstimator:
             or vice versa.
         """
 
+        if mask is not None:
+            # The points are sampled in a later update, the caller may reuse the mask by then
+            mask = mask.copy()
+
         self.gray_next = cv2.cvtColor(frame, cv2.COLOR_BGR2GRAY)
         if self.gray_prvs is None:
             self.gray_prvs = self.gray_next
-- 
2.43.0


From 90d0632da44cf13c880c9657a118f90fb3f119ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:44 +0000
Subject: [PATCH 36/37] fix: an object keeps the ages of its past detections
 itself, other trackers may be given the same detections

---
 norfair/tracker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index e4c819c..16932d4 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -527,6 +527,8 @@ class TrackedObject:
             self.past_detections: Sequence["Detection"] = [initial_detection]
         else:
             self.past_detections: Sequence["Detection"] = []
+        # Other trackers may be given the same detections and set their ages too
+        self._past_detections_ages = [self.age] * len(self.past_detections)
 
         # Create Kalman Filter
         self.filter = filter_factory.create_filter(initial_detection.absolute_points)
@@ -719,10 +721,13 @@ class TrackedObject:
         if len(self.past_detections) < self.past_detections_length:
             detection.age = self.age
             self.past_detections.append(detection)
-        elif self.age >= self.past_detections[0].age * self.past_detections_length:
+            self._past_detections_ages.append(self.age)
+        elif self.age >= self._past_detections_ages[0] * self.past_detections_length:
             self.past_detections.pop(0)
+            self._past_detections_ages.pop(0)
             detection.age = self.age
             self.past_detections.append(detection)
+            self._past_detections_ages.append(self.age)
 
     def merge(self, tracked_object):
         """Merge with a not yet initialized TrackedObject instance"""
-- 
2.43.0


From ea1c0ed1128e0732de050e007312637b71a46796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:27 +0000
Subject: [PATCH 37/37] fix: vectorized distances accept detections of classes
 derived from Detection whatever their name

---
 norfair/distances.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index df8cc87..925faea 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -171,7 +171,8 @@ class VectorizedDistance(Distance):
             stacked_candidates = []
             for c in candidates:
                 if c.label == label:
-                    if "Detection" in str(type(c)):
+                    # a class derived from Detection may have any name
+                    if hasattr(c, "points"):
                         stacked_candidates.append(c.points.ravel())
                     else:
                         stacked_candidates.append(c.estimate.ravel())
-- 
2.43.0


From 30cddb07c2900785b04393184bec49c4541c1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 01/33] fix: keep priority order when events are added to the
 executing tick

The random events that an earlier sort merged into the prioritized list have no
(nan) priority, and sorting the list again by priority left it out of order.
---
 src/repast4py/schedule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index cb8fc68..920b7a4 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -208,6 +208,12 @@ class ScheduleGroup:
         self.size_ += 1
 
     def sort(self):
+        # if execution was interrupted, prioritized contains the not yet executed random
+        # events inserted by a previous sort. Those have no priority, so they are
+        # merged again after the prioritized events have been ordered.
+        self.random.extend(evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM)
+        self.prioritized[:] = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
+
         # sort according to the order of insertion
         # so we have a predictable starting point for randomization
         self.random.sort(key=lambda evt: evt.order_idx)
-- 
2.43.0


From d323047c6932de3d7508688326f0843fb8b28b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 02/33] fix: account for a scheduled stop when synchronizing
 the next tick

schedule_stop did not update the runner's next tick, so a rank whose next event
is the stop ran it ahead of the other ranks, which then waited for it forever.
---
 src/repast4py/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 920b7a4..e7cdf64 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -600,6 +600,7 @@ class SharedScheduleRunner:
             The ScheduledEvent instance that executes the stop event.
         """
         sch_evt = self.schedule.schedule_event(at, self.stop, metadata={'__type': EvtType.STOP})
+        self.next_tick = self.schedule.next_tick()
         return sch_evt
 
     def stop(self):
-- 
2.43.0


From e7a6c6abc4b9baaa5f45b370987b1ed1c18fabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 03/33] fix: restore a saved stop only if restore_stop_at is
 true

---
 src/repast4py/checkpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 115a8e5..bb7656c 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -250,7 +250,9 @@ class Checkpoint:
                     if schedule_state['tick'] == evt_data.at:
                         warnings.warn(f"Scheduling stop at first tick {evt_data.at} in restored schedule")
                     evt = runner.stop
-                
+                else:
+                    evt = IGNORE_EVT
+
                 if evt != IGNORE_EVT:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
-- 
2.43.0


From cb02b724b7c9229ed4891681042895c03e901e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 04/33] fix: keep periodic continuous coordinates below the
 upper bound when rounding

---
 src/repast4py/borders.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index e822ae3..fb46095 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -90,13 +90,21 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
 using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 
+// Shifts v by whole extents into [min, max). The sum can be rounded up to max, in which case
+// the shifted coordinate is min.
+template <typename CoordType>
+CoordType wrap(CoordType v, long_t min, long_t max, long_t extent) {
+    CoordType nc = fmod(v - min, extent);
+    CoordType c = nc < 0 ? max + nc : min + nc;
+    return c < max ? c : min;
+}
+
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
 }
 
 template <typename PointType>
@@ -104,11 +112,8 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = wrap<coord_type>(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
 }
 
 template <typename PointType>
@@ -116,14 +121,9 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
-    coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
-
-    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
-
-    nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
-    transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
+    transformed_pt.x = wrap<coord_type>(data[0], bounds.xmin_, bounds.xmax_, bounds.x_extent_);
+    transformed_pt.y = wrap<coord_type>(data[1], bounds.ymin_, bounds.ymax_, bounds.y_extent_);
+    transformed_pt.z = wrap<coord_type>(data[2], bounds.zmin_, bounds.zmax_, bounds.z_extent_);
 }
 
 template<typename PointType>
-- 
2.43.0


From 2eeb48ec206b622c77609d61591a8602ad7c23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 05/33] fix: return every agent from continuous space box
 queries when agents share a location

---
 src/repast4py/SpatialTree.h | 68 ++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 2c5875b..9b95e7d 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -90,8 +90,9 @@ template<typename PointType>
 class MOItems {
 
 private:
-    size_t sum;
-    std::map<PointType*, size_t, PtrPointComp<PointType>> point_counts;
+    // The items' points by location. The location is held by value as
+    // a point's coordinates change when its agent moves.
+    std::map<Point<PointType>, std::set<PointType*>, PointComp<PointType>> points;
 
 public:
     MOItems();
@@ -108,49 +109,49 @@ public:
 };
 
 template<typename PointType>
-MOItems<PointType>::MOItems() : sum{0}, point_counts{} {}
+MOItems<PointType>::MOItems() : points{} {}
 template<typename PointType>
 MOItems<PointType>::~MOItems() {}
 
 template<typename PointType>
 void MOItems<PointType>::add(PointType* pt) {
-    auto iter = point_counts.find(pt);
-    if (iter == point_counts.end()) {
-        ++sum;
+    Point<PointType> loc;
+    extract_coords(pt, loc);
+    if (points[loc].insert(pt).second) {
         Py_INCREF(pt);
-        point_counts.emplace(pt, 1);
-    } else {
-        ++(iter->second);
     }
 }
 
 template<typename PointType>
 bool MOItems<PointType>::remove(PointType* pt) {
-    auto kv = point_counts.find(pt);
-    if (kv != point_counts.end()) {
-        --(kv->second);
-        // size_t val = --point_counts[item->pt];
-        if (kv->second == 0) {
-            Py_DECREF(kv->first);
-            point_counts.erase(kv);
-            --sum;
-        }
-        return true;
-    } 
-    return false;
+    Point<PointType> loc;
+    extract_coords(pt, loc);
+    auto iter = points.find(loc);
+    if (iter == points.end() || iter->second.erase(pt) == 0) {
+        return false;
+    }
+    if (iter->second.empty()) {
+        points.erase(iter);
+    }
+    Py_DECREF(pt);
+    return true;
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box2D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto& kv: points) {
+        for (auto pt: kv.second) {
+            node->addItem(pt, threshold);
+        }
     }
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box3D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto& kv: points) {
+        for (auto pt: kv.second) {
+            node->addItem(pt, threshold);
+        }
     }
 }
 
@@ -158,11 +159,9 @@ template<typename PointType>
 void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc_map,
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) {
 
-    Point<R4Py_ContinuousPoint> ppt;
-    for (auto& kv : point_counts) {
+    for (auto& kv : points) {
         if (box.contains(kv.first)) {
-            extract_coords(kv.first, ppt);
-            auto& agent_lst = (*loc_map)[ppt];
+            auto& agent_lst = (*loc_map)[kv.first];
             agents->insert(agents->end(), agent_lst->begin(), agent_lst->end());
         }
     }
@@ -182,16 +181,17 @@ void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc
 
 template<typename PointType>
 size_t MOItems<PointType>::size() const {
-    return sum;
+    return points.size();
 }
 
 template<typename PointType>
 void MOItems<PointType>::clear() {
-    for (auto& kv: point_counts) {
-        Py_DECREF(kv.first);
+    for (auto& kv: points) {
+        for (auto pt: kv.second) {
+            Py_DECREF(pt);
+        }
     }
-    point_counts.clear();
-    sum = 0;
+    points.clear();
 }
 
 
-- 
2.43.0


From 7462248fbcadc3c9021bafd953c7912baa71152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 06/33] fix: release the points held by a destroyed continuous
 space

---
 src/repast4py/SpatialTree.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 9b95e7d..4f011d2 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -111,7 +111,9 @@ public:
 template<typename PointType>
 MOItems<PointType>::MOItems() : points{} {}
 template<typename PointType>
-MOItems<PointType>::~MOItems() {}
+MOItems<PointType>::~MOItems() {
+    clear();
+}
 
 template<typename PointType>
 void MOItems<PointType>::add(PointType* pt) {
@@ -220,7 +222,9 @@ template<typename PointType>
 SOItems<PointType>::SOItems() : points{} {}
 
 template<typename PointType>
-SOItems<PointType>::~SOItems() {}
+SOItems<PointType>::~SOItems() {
+    clear();
+}
 
 template<typename PointType>
 void SOItems<PointType>::add(PointType* pt) {
-- 
2.43.0


From d550149a818b3c550187fb130c9a19d356343d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 07/33] fix: accept a logger file name without a directory

---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index cea93f0..95e34b2 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -287,7 +287,7 @@ class ReducingDataSet:
 
         if self._rank == 0:
             parent = os.path.dirname(fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
             self.ticks = []
 
@@ -363,7 +363,7 @@ class TabularLogger:
         if self._rank == 0:
             self._fpath = find_free_filename(fpath)
             parent = os.path.dirname(self._fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
 
             with open(self._fpath, 'w', newline='') as fout:
-- 
2.43.0


From 17f703039cb1ec8e75c2d0adde060816ed7d1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 08/33] fix: keep shared value layer buffers and lookups
 correct for any origin, decomposition and border

---
 src/repast4py/value_layer.py | 568 +++++++----------------------------
 1 file changed, 101 insertions(+), 467 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 921f9c6..b93031c 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -4,6 +4,8 @@
 # By: Argonne National Laboratory
 # License: BSD-3 - https://github.com/Repast/repast4py/blob/master/LICENSE.txt
 
+import itertools
+
 import torch
 import numpy as np
 
@@ -421,41 +423,6 @@ class ValueLayer:
         return self.impl.get_nghs(pt)
 
 
-def _compute_meta_data_counts(meta_data, num_dims, offset, num_slices):
-    """Depending on the dimensions, borders and ranks of a SharedValueLayer, the size
-    of the metadata (data used to synchronize among ranks) arrays is different. This
-    computes the size of the arrays.
-    """
-    if num_slices == 1:
-        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]), 1, meta_data)
-    elif num_slices == 2:
-        # return meta_data[:, 0] + meta_data[:, offset]
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims]) + np.prod(row[offset: offset + num_dims]), 1, meta_data)
-    elif num_slices == 3:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims]),
-            1, meta_data)
-    elif num_slices == 4:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims]),
-            1, meta_data)
-    elif num_slices == 6:
-        return np.apply_along_axis(
-            lambda row: np.prod(row[:num_dims])
-            + np.prod(row[offset: offset + num_dims])
-            + np.prod(row[offset * 2: offset * 2 + num_dims])
-            + np.prod(row[offset * 3: offset * 3 + num_dims])
-            + np.prod(row[offset * 4: offset * 4 + num_dims])
-            + np.prod(row[offset * 5: offset * 5 + num_dims]),
-            1, meta_data)
-
-
 class SharedValueLayer(ValueLayer):
     """A cross-process shared N-dimensional raster type matrix where each discrete integer coordinate
     contains a numeric value.
@@ -504,29 +471,25 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self.buffered_bounds, borders, 'random', dtype)
+        # the area the grid covers: in periodic spaces it extends beyond the global bounds
+        offsets = self.non_buff_grid_offsets
+        lb, bb = self.local_bounds, self.buffered_bounds
+        super().__init__(BoundingBox(lb.xmin - int(offsets[0]), bb.xextent, lb.ymin - int(offsets[2]), bb.yextent,
+                                     lb.zmin - int(offsets[4]), bb.zextent), borders, 'random', dtype)
+        self.bbounds = self.buffered_bounds
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
             raise ValueError("3D SharedValueLayer is not yet supported")
 
-        mins = [bounds.xmin, bounds.ymin, bounds.zmin]
-        self.buffer_self = []
         if self.periodic:
-            for i in range(0, nd):
-                if self.impl.pt_translation[i] == 0:
-                    self.impl.pt_translation[i] = buffer_size - mins[i]
-
-            if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
-                self.buffer_self.append(self._buffer_self_X)
-
-            if len(self.procs_per_dim) == 2:
-                if self.procs_per_dim[0] == 1:
-                    self.buffer_self.append(self._buffer_self_X)
-                if self.procs_per_dim[1] == 1:
-                    self.buffer_self.append(self._buffer_self_Y)
+            # wrap locations around the global bounds, such that those in the local bounds and
+            # those in the buffers are in the area covered by the grid
+            origins = [max(lmin - int(buffer), lmin + lextent - extent) for lmin, lextent, extent, buffer in
+                       ((lb.xmin, lb.xextent, bounds.xextent, offsets[0]), (lb.ymin, lb.yextent, bounds.yextent, offsets[2]))]
+            self.impl.borders = GridPeriodicBorders(BoundingBox(origins[0], bounds.xextent, origins[1], bounds.yextent, 0, 0))
+
         self._init_value(init_value, nd)
-        self._buffer_self()
 
         if comm.Get_size() > 1:
             self._init_sync_data(nd, topo, buffer_size)
@@ -551,442 +514,113 @@ class SharedValueLayer(ValueLayer):
                     z2 = lb.zmin + lb.zextent + self.impl.pt_translation[2]
                     self.grid[z1: z2, y1: y2, x1: x2] = init_value
 
-    def _buffer_self_X(self):
-        # left
-        left = self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, self.buffer_size: self.buffer_size * 2]
-        # set right buffer to left unbuffered
-        self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, -self.buffer_size:] = left
-        right = self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, -self.buffer_size * 2: -self.buffer_size]
-        # set left buffer to right unbuffered
-        self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, 0: self.buffer_size] = right
-
-    def _buffer_self_Y(self):
-        # unbuffered top area
-        top = self.grid[self.buffer_size: self.buffer_size * 2, self.buffer_size: self.buffer_size + self.local_bounds.xextent]
-        # set bottom buffer to top unbuffered
-        self.grid[-self.buffer_size:, self.buffer_size: self.buffer_size + self.local_bounds.xextent] = top
-        bottom = self.grid[-self.buffer_size * 2: -self.buffer_size, self.buffer_size: self.buffer_size + self.local_bounds.xextent]
-        self.grid[0: self.buffer_size, self.buffer_size: self.buffer_size + self.local_bounds.xextent] = bottom
-
-    def _buffer_self(self):
-        for func in self.buffer_self:
-            func()
-
-    def _wrap_slice_vals(self, start_val, end_val, full_extent, local_extent, procs_per_dim):
-        if procs_per_dim > 1:
-            if start_val < 0:
-                start_val += full_extent
-                end_val += full_extent
-            elif start_val >= full_extent:
-                start_val -= full_extent
-                end_val -= full_extent
-
-        elif start_val == local_extent and self.periodic:
-            start_val = start_val + self.buffer_size
-            end_val = end_val + self.buffer_size
-
-        return (start_val, end_val)
+    def _get_images(self, bounds, nd: int):
+        """Gets where the values of an area of the global bounds appear in this rank's grid. There can be
+        more than one such place when the borders are periodic.
+
+        Args:
+            bounds: the area: (xmin, xmax, ymin, ymax, ...)
+            nd: the number of dimensions
+
+        Returns:
+            List: a list of tuples of slice tuples, (slices into the area, slices into the grid), in row major order.
+        """
+        dims = []
+        for i, full_extent in list(enumerate((self.full_bounds.xextent, self.full_bounds.yextent)))[:nd]:
+            start = -self.impl.pt_translation[i]
+            stop = start + self.grid.shape[nd - 1 - i]
+            slices = []
+            for shift in (-full_extent, 0, full_extent) if self.periodic else (0,):
+                lo = max(bounds[2 * i] + shift, start)
+                hi = min(bounds[2 * i + 1] + shift, stop)
+                if lo < hi:
+                    origin = bounds[2 * i] + shift
+                    slices.append((slice(lo - origin, hi - origin), slice(lo - start, hi - start)))
+            dims.insert(0, slices)
+
+        return [tuple(zip(*image)) for image in itertools.product(*dims)]
 
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
-        xmin, xextent = 0, 0
-        ymin, yextent = 0, 0
-        zmin, zextent = 0, 0
         # offsets from buffered grid into the local grid data
         self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
-
-        if periodic:
-            self.non_buff_grid_offsets[0:2] = buffer_size
-            if self.local_bounds.xmin > bounds.xmin:
-                xmin = self.local_bounds.xmin - buffer_size
-
-            # extent is x2 to create buffer on both sides
-            xextent = self.local_bounds.xextent + (buffer_size * 2)
-            if bounds.yextent > 0:
-                self.non_buff_grid_offsets[2:4] = buffer_size
-                if self.local_bounds.ymin > bounds.ymin:
-                    ymin = self.local_bounds.ymin - buffer_size
-                # extent is x2 to create buffer on both sides
-                yextent = self.local_bounds.yextent + (buffer_size * 2)
-            if bounds.zextent > 0:
-                self.non_buff_grid_offsets[4:6] = buffer_size
-                if self.local_bounds.zmin > bounds.zmin:
-                    zmin = self.local_bounds.zmin - buffer_size
-                # extent is x2 to create buffer on both sides
-                zextent = self.local_bounds.zextent + (buffer_size * 2)
-
-        else:
-            xmax = bounds.xmin + bounds.xextent
-            if self.local_bounds.xmin > bounds.xmin:
-                xmin = self.local_bounds.xmin - buffer_size
-                self.non_buff_grid_offsets[0] = buffer_size
-                if self.local_bounds.xmin + self.local_bounds.xextent < xmax:
-                    # min is buffer_size less so need to increase extent to cover the space
-                    xextent = self.local_bounds.xextent + (buffer_size * 2)
-                    self.non_buff_grid_offsets[1] = buffer_size
-                else:
-                    xextent = self.local_bounds.xextent + buffer_size
-            else:
-                if self.local_bounds.xmin + self.local_bounds.xextent < xmax:
-                    xextent = self.local_bounds.xextent + buffer_size
-                    self.non_buff_grid_offsets[1] = buffer_size
-
-            if bounds.yextent > 0:
-                ymax = bounds.ymin + bounds.yextent
-                if self.local_bounds.ymin > bounds.ymin:
-                    ymin = self.local_bounds.ymin - buffer_size
-                    self.non_buff_grid_offsets[2] = buffer_size
-                    if self.local_bounds.ymin + self.local_bounds.yextent < ymax:
-                        # min is buffer_size less so need to increase extent to cover the space
-                        yextent = self.local_bounds.yextent + (buffer_size * 2)
-                        self.non_buff_grid_offsets[3] = buffer_size
-                    else:
-                        yextent = self.local_bounds.yextent + buffer_size
-                elif self.local_bounds.ymin + self.local_bounds.yextent < ymax:
-                    yextent = self.local_bounds.yextent + buffer_size
-                    self.non_buff_grid_offsets[3] = buffer_size
-                else:
-                    # topology is 1D
-                    ymin = self.local_bounds.ymin
-                    yextent = self.local_bounds.yextent
-
-            if bounds.zextent > 0:
-                zmax = bounds.zmin + bounds.zextent
-                if self.local_bounds.zmin > bounds.zmin:
-                    zmin = self.local_bounds.zmin - buffer_size
-                    self.non_buff_grid_offsets[4] = buffer_size
-                    if self.local_bounds.zmin + self.local_bounds.zextent < zmax:
-                        # min is buffer_size less so need to increase extent to cover the space
-                        zextent = self.local_bounds.zextent + (buffer_size * 2)
-                        self.non_buff_grid_offsets[5] = buffer_size
-                    else:
-                        zextent = self.local_bounds.zextent + buffer_size
-                else:
-                    if self.local_bounds.zmin + self.local_bounds.zextent < zmax:
-                        zextent = self.local_bounds.zextent + buffer_size
-                        self.non_buff_grid_offsets[5] = buffer_size
+        lb = self.local_bounds
+        buffered = []
+        for i, (lmin, lextent, gmin, gextent) in enumerate(((lb.xmin, lb.xextent, bounds.xmin, bounds.xextent),
+                                                            (lb.ymin, lb.yextent, bounds.ymin, bounds.yextent),
+                                                            (lb.zmin, lb.zextent, bounds.zmin, bounds.zextent))):
+            if gextent == 0:
+                buffered += [0, 0]
+                continue
+            before = buffer_size if periodic or lmin > gmin else 0
+            after = buffer_size if periodic or lmin + lextent < gmin + gextent else 0
+            self.non_buff_grid_offsets[2 * i: 2 * i + 2] = [before, after]
+            buffered += [max(lmin - before, gmin), lextent + before + after]
 
         # bounds including the buffer if necessary
-        self.buffered_bounds = BoundingBox(xmin, xextent, ymin, yextent, zmin, zextent)
-
-    def _init_sync_data_1d(self, topo, buffer_size):
-        ngh_buffers = []
-        # create send_counts, send_displs, and send_buf
-        r_trans = self.impl.pt_translation[0]
-        for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
-            # convert bounds into grid slices, row major'ing and
-            # applying the pt translations.
-            row = bounds[0] + r_trans
-            # origin + extent
-            shape = (bounds[1] - bounds[0],)
-            stop_row = row + shape[0]
-            ngh_buffers.append(
-                (ngh_rank, shape[0], shape, bounds, (slice(row, stop_row),)))
+        self.buffered_bounds = BoundingBox(*buffered)
 
-        ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
-
-        data_size = 3 if topo.procs_per_dim[0] != 2 and self.periodic else 6
-
-        num_procs = self.cart_comm.Get_size()
-        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
-        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int32)
-
-        offset = 3
-        num_sent_slices = int(data_size / offset)
-        offsets = [0] * num_procs
-        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
-            s_idx = offsets[ngh_rank]
-            meta_data_send[ngh_rank, s_idx: s_idx + offset] = [buf_shape[0]] + [bounds[0], bounds[1]]
-            offsets[ngh_rank] += offset
-
-        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
-
-        # shape element in first and 3rd column is the size
-        # send_counts = meta_data_send[:, 0] + meta_data_send[:, 3]
-        send_counts = _compute_meta_data_counts(meta_data_send, 1, 3, num_sent_slices)
-        send_displs = np.concatenate(
-            (np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
-        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
-        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
-
-        # shape element in first col
-        # recv_counts = self.ngh_meta_data_recv[:, 0] + self.ngh_meta_data_recv[:, 3]
-        recv_counts = _compute_meta_data_counts(self.ngh_meta_data_recv, 1, 3, num_sent_slices)
-        recv_displs = np.concatenate(
-            (np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
-        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
-        recv_buf_data = []
-
-        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
-            slice_data = []
-            if data[0] != 0:
-                row = data[1] + r_trans
-                # origin + extent
-                stop_row = row + (data[2] - data[1])
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, data[0], data[0], (slice(row, stop_row),)))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
-                    if data[idx] != 0:
-                        row = data[idx + 1] + r_trans
-                        # origin + extent
-                        stop_row = row + (data[idx + 2] - data[idx + 1])
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                              self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, data[idx], data[idx], (slice(row, stop_row),)))
-                    else:
-                        break
-            if len(slice_data) > 0:
-                recv_buf_data.append(slice_data)
-
-        self.recv_data = (
-            (recv_buf, (recv_counts, recv_displs)), recv_buf_data)
-
-    def _init_sync_data_2d(self, topo, buffer_size):
-        ngh_buffers = []
-        c_trans = self.impl.pt_translation[0]
-        r_trans = self.impl.pt_translation[1]
-        # Compute what to send to which neighbor
-        for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
-            # convert bounds into grid slices, row major'ing and
-            # applying the pt translations.
-            row = bounds[2] + r_trans
-            col = bounds[0] + c_trans
-            # origin + extent
-            shape = (bounds[3] - bounds[2], bounds[1] - bounds[0])
-            stop_row = row + shape[0]
-            stop_col = col + shape[1]
-            # if self.rank == 1:
-            #    print('Sending:', ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col)), flush=True)
-            ngh_buffers.append(
-                (ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col))))
-
-        # sort by rank of receiving neighbor
-        ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
+    def _init_sync_data(self, nd, topo, buffer_size):
+        """Determines which slices of the local grid are sent to which rank when synchronizing, and where
+        the values received from the other ranks go.
+        """
         num_procs = self.cart_comm.Get_size()
-
-        offset = 6
-        data_size = offset
-        if self.periodic:
-            if topo.procs_per_dim[0] == 2 and topo.procs_per_dim[1] == 2:
-                data_size = 24
-            elif topo.procs_per_dim[0] == 2 or topo.procs_per_dim[1] == 2:
-                if num_procs == 2:
-                    data_size = 36
-                else:
-                    data_size = 12
-
-        # send buffer for meta data (bounds etc.)
-        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
-        # recv buffer for meta
-        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int32)
-
-        offsets = [0] * num_procs
-        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
-            s_idx = offsets[ngh_rank]
-            # send bounds in row major
-            meta_data_send[ngh_rank, s_idx: s_idx + offset] = [buf_shape[0], buf_shape[1]] + [bounds[2], bounds[3], bounds[0], bounds[1]]
-            offsets[ngh_rank] += offset
-
-        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
-
-        # * the shapes to get count for each rank
-        num_sent_slices = int(data_size / offset)
-        send_counts = _compute_meta_data_counts(meta_data_send, 2, offset, num_sent_slices)
-        # send_counts = np.apply_along_axis(lambda row: np.prod(row[:2]) + np.prod(row[6:8]), 1, meta_data_send)
-        send_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
-        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
-        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
-
-        recv_counts = _compute_meta_data_counts(self.ngh_meta_data_recv, 2, offset, num_sent_slices)
-        # np.apply_along_axis(lambda row: row[0] * row[1] + row[6] * row[7], 1, self.ngh_meta_data_recv)
-        recv_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
-        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
-        recv_buf_data = []
-
-        rts = [r_trans for _ in range(num_sent_slices)]
-        cts = [c_trans for _ in range(num_sent_slices)]
-        if topo.procs_per_dim[0] == 1:
-            cts = [0, 0, 0, 0, c_trans, c_trans]
-        elif topo.procs_per_dim[1] == 1:
-            rts = [0, r_trans, 0, r_trans, r_trans, r_trans]
-
-        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
-            # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
-            slice_data = []
-            if data[0] != 0:
-                row = data[2] + rts[0]
-                col = data[4] + cts[0]
-                # origin + extent
-                stop_row = row + (data[3] - data[2])
-                stop_col = col + (data[5] - data[4])
-
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent,
-                                                      self.procs_per_dim[1])
-                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent,
-                                                      self.procs_per_dim[0])
-                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], (slice(row, stop_row), slice(col, stop_col))))
-
-                for i in range(1, num_sent_slices):
-                    idx = offset * i
-                    if data[idx] != 0:
-                        row = data[idx + 2] + rts[i]
-                        col = data[idx + 4] + cts[i]
-                        # origin + extent
-                        stop_row = row + (data[idx + 3] - data[idx + 2])
-                        stop_col = col + (data[idx + 5] - data[idx + 4])
-
-                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent,
-                                                              self.local_bounds.yextent, self.procs_per_dim[1])
-                        col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent,
-                                                              self.local_bounds.xextent, self.procs_per_dim[0])
-                        slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2],
-                                          (slice(row, stop_row), slice(col, stop_col))))
-                    else:
-                        break
-
-            if len(slice_data) > 0:
-                recv_buf_data.append(slice_data)
-
-        self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
-
-    def _init_sync_data_3d(self, topo, buffer_size):
-        ngh_buffers = []
-        # create send_counts, send_displs, and send_buf
-        # buf_ngh: (rank, (ranges)) e.g., (1, (8, 10, 40, 42, 0, 0))
-        c_trans = self.impl.pt_translation[0]
-        r_trans = self.impl.pt_translation[1]
-        z_trans = self.impl.pt_translation[2]
+        to_send = [[] for _ in range(num_procs)]
         for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
-            # convert bounds into grid slices, row major'ing and
-            # applying the pt translations.
-            row = bounds[2] + r_trans
-            col = bounds[0] + c_trans
-            z = bounds[4] + z_trans
-            # origin + extent
-            shape = (bounds[3] - bounds[2], bounds[1] - bounds[0], bounds[5] - bounds[4])
-            stop_row = row + shape[0]
-            stop_col = col + shape[1]
-            stop_z = z + shape[2]
-            ngh_buffers.append(
-                (ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col), slice(z, stop_z))))
-
-        ngh_buffers.sort(key=lambda data: data[0])
-        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
-
-        num_procs = self.cart_comm.Get_size()
-        meta_data_send = np.zeros((num_procs, 18), dtype=np.int32)
-        self.ngh_meta_data_recv = np.zeros((num_procs, 18), dtype=np.int32)
-
-        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
-            s_idx = 0 if meta_data_send[ngh_rank, 0] == 0 else 9
-            # send bounds in row major
-            meta_data_send[ngh_rank, s_idx: s_idx + 9] = [buf_shape[0], buf_shape[1], buf_shape[2]] + \
-                bounds[4], bounds[5], [bounds[2], bounds[3], bounds[0], bounds[1]]
-
-        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
-
-        # x the shapes to get count for each rank
-        send_counts = np.apply_along_axis(
-            lambda row: np.prod(row[0:3] + np.prod(row[9:12])), 1, meta_data_send)
-        send_displs = np.concatenate(
-            (np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
-        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
-        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
-
-        recv_counts = np.apply_along_axis(
-            lambda row: np.prod(row[0:3] + np.prod(row[9:12])), 1, self.ngh_meta_data_recv)
-        recv_displs = np.concatenate(
-            (np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
-        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
-        recv_buf_data = []
-
-        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
-            # data: shape, pytorch_order bounds [ 2 30  0 30 80 82  0  0]
-            # TODO check order -- is this z,y,x?
-            slice_data = []
-            if data[0] != 0:
-                z = data[2] + z_trans
-                row = data[4] + r_trans
-                col = data[6] + c_trans
-
-                # origin + extent
-                stop_z = z + (data[3] - data[2])
-                stop_row = row + (data[5] - data[4])
-                stop_col = col + (data[7] - data[6])
-
-                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent)
-                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent)
-                z, stop_z = self._wrap_slice_vals(z, stop_z, self.full_bounds.zextent)
-                slice_data.append((ngh_rank, np.prod(data[:3]), data[:3], (slice(
-                    row, stop_row), slice(col, stop_col), slice(z, stop_z))))
-
-                if data[9] != 0:
-                    z = data[11] + z_trans
-                    row = data[13] + r_trans
-                    col = data[15] + c_trans
-
-                    # origin + extent
-                    stop_z = z + (data[12] - data[11])
-                    stop_row = row + (data[14] - data[13])
-                    stop_col = col + (data[16] - data[15])
-
-                    row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent)
-                    col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent)
-                    z, stop_z = self._wrap_slice_vals(z, stop_z, self.full_bounds.zextent)
-                    slice_data.append((ngh_rank, np.prod(data[9:12]), data[9:12], (slice(
-                        row, stop_row), slice(col, stop_col), slice(z, stop_z))))
-
-            if len(slice_data) > 0:
-                recv_buf_data.append(slice_data)
-
-        self.recv_data = (
-            (recv_buf, (recv_counts, recv_displs)), recv_buf_data)
-
-    def _init_sync_data(self, num_dims, topo, buffer_size):
-        if num_dims == 1:
-            self._init_sync_data_1d(topo, buffer_size)
-        elif num_dims == 2:
-            self._init_sync_data_2d(topo, buffer_size)
-        else:
-            self._init_sync_data_3d(topo, buffer_size)
+            if ngh_rank != self.rank:
+                to_send[ngh_rank].append(tuple(bounds[:2 * nd]))
+        to_recv = self.cart_comm.alltoall(to_send)
+
+        def layout(areas):
+            # (displacement, size, shape, area) for each area of each rank, and the Alltoallv buffer
+            slots, counts, disp = [], [], 0
+            for rank_areas in areas:
+                counts.append(0)
+                for area in rank_areas:
+                    # row major
+                    shape = tuple(area[2 * i + 1] - area[2 * i] for i in reversed(range(nd)))
+                    size = int(np.prod(shape))
+                    slots.append((disp, size, shape, area))
+                    counts[-1] += size
+                    disp += size
+            displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(counts, dtype=np.int32)[:-1]))
+            return slots, (np.empty(disp, dtype=self.grid.numpy().dtype), (np.array(counts, dtype=np.int32), displs))
+
+        trans = self.impl.pt_translation
+        slots, send_msg = layout(to_send)
+        self.send_data = (send_msg, [(disp, size, tuple(slice(area[2 * i] + trans[i], area[2 * i + 1] + trans[i])
+                                                        for i in reversed(range(nd)))) for disp, size, _, area in slots])
+        slots, recv_msg = layout(to_recv)
+        self.recv_data = (recv_msg, [(disp, size, shape, self._get_images(area, nd)) for disp, size, shape, area in slots])
+
+        # where the values of this rank's own local bounds appear in its own buffers
+        lb = self.local_bounds
+        area = (lb.xmin, lb.xmin + lb.xextent, lb.ymin, lb.ymin + lb.yextent)[:2 * nd]
+        self.local_slice = tuple(slice(area[2 * i] + trans[i], area[2 * i + 1] + trans[i]) for i in reversed(range(nd)))
+        self.self_images = [(src, dst) for src, dst in self._get_images(area, nd) if dst != self.local_slice]
 
     def _synch_ghosts(self):
         """Synchronizes the ghosted buffer part of this value layer.
         """
-        # self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
-        # self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
-        # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
-        # recv_buf_data: (ngh_rank, shape, slice_tuple)
+        if self.cart_comm.Get_size() == 1:
+            return
 
         # fill send buffer from grid view
-        send_msg, ngh_buffers = self.send_data
-        send_displs = send_msg[1][1]
-        send_buf = send_msg[0]
-        for ngh_rank, size, _, _, tslice in ngh_buffers:
-            disp = send_displs[ngh_rank]
+        (send_buf, _), send_slices = self.send_data
+        for disp, size, tslice in send_slices:
             send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
 
         self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
 
         # update grid view from recv_buffer
-        recv_msg, recv_buf_data = self.recv_data
-        recv_displs = recv_msg[1][1]
-        recv_buf = recv_msg[0]
-        for items in recv_buf_data:
-            for ngh_rank, size, shape, tslice in items:
-                try:
-                    disp = recv_displs[ngh_rank]
-                    self.grid[tslice] = torch.as_tensor(
-                        recv_buf[disp: disp + size].reshape(shape))
-
-                except Exception:
-                    print(self.rank, ngh_rank, size, shape, tslice)
-                    raise
-        self._buffer_self()
+        (recv_buf, _), recv_slices = self.recv_data
+        for disp, size, shape, images in recv_slices:
+            vals = torch.as_tensor(recv_buf[disp: disp + size].reshape(shape))
+            for src, dst in images:
+                self.grid[dst] = vals[src]
+
+        vals = self.grid[self.local_slice]
+        for src, dst in self.self_images:
+            self.grid[dst] = vals[src]
 
 
 class ReadWriteValueLayer:
-- 
2.43.0


From c13d6af02588749522ca2a664ee52855525f5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 09/33] fix: compute buffer areas from the direction of a
 neighbor for any process grid

---
 src/repast4py/distributed_space.cpp | 150 +++-------------------------
 src/repast4py/distributed_space.h   |   2 +
 2 files changed, 16 insertions(+), 136 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e49f9aa..b0c5ad8 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -40,28 +40,26 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 
     // 1: ngh to right of me.
     // -1: ngh to left of me.
-    // > 1: ngh is wrapped to left
-    // < -1: ngh is wrapped to right
-    if (offsets[0] == -1 || offsets[0] > 1) {
+    if (offsets[0] == -1) {
         xmin = local_bounds.xmin_;
         xmax = xmin + buffer_size;
-    } else if (offsets[0] == 1 || offsets[0] < -1) {
+    } else if (offsets[0] == 1) {
         xmin = local_bounds.xmax_ - buffer_size;
         xmax = xmin + buffer_size;
     }
 
-    if (offsets[1] == -1 || offsets[1] > 1) {
+    if (offsets[1] == -1) {
         ymin = local_bounds.ymin_;
         ymax = ymin + buffer_size;
-    } else if (offsets[1] == 1 || offsets[1] < -1) {
+    } else if (offsets[1] == 1) {
         ymin = local_bounds.ymax_ - buffer_size;
         ymax = ymin + buffer_size;
     }
 
-    if (offsets[2] == -1 || offsets[2] > 1) {
+    if (offsets[2] == -1) {
         zmin = local_bounds.zmin_;
         zmax = zmin + buffer_size;
-    } else if (offsets[2] == 1 || offsets[2] < -1) {
+    } else if (offsets[2] == 1) {
         zmin = local_bounds.zmax_ - buffer_size;
         zmax = zmin + buffer_size;
     }
@@ -79,130 +77,8 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& cart_coords, 
     BoundingBox& local_bounds, int num_dims, const int* procs_per_dim, unsigned int buffer_size)
 {
-    int offsets[3] = {0, 0, 0};
-
-    std::set<int> p_ranks;
-    if (num_dims == 1) {
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            // if in p_ranks:
-            //    coord_x > card_coords[0] -- to the right of me, so offsets to -1 as if to the left of me.
-            //    coord_x < card_coords[0] -- to the left of me , so offsets to 1 as if to right of me
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (offsets[0] < 0) offsets[0] = 1;
-                else offsets[0] = -1;
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
-    } else if (num_dims == 2) {
-        // bool is_0 = cart_coords[0] == 0 && cart_coords[1] == 0;
-        
-        // first element is number of times ngh appears, 2 and 3 and cart coord
-        // differences
-        std::map<int, std::vector<int>> coord_offset_counts;
-        // if (is_0) std::cout << "num nghs: " << nghs.size() << std::endl;
-        for (auto& ngh : nghs) {
-            if (coord_offset_counts.find(ngh.rank) == coord_offset_counts.end()) {
-                int ox = ngh.cart_coord_x - cart_coords[0];
-                int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-                coord_offset_counts.emplace(ngh.rank, std::vector<int>{1, ox, oy});
-            } else {
-                coord_offset_counts[ngh.rank][0] += 1;
-                // int ox = ngh.cart_coord_x - cart_coords[0];
-                // int oy = ngh.cart_coord_y - cart_coords[1];
-                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
-            }
-        }
-
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-
-        std::map<int, std::vector<int>> fixed_offsets;
-        for (auto kv : coord_offset_counts) {
-            auto& val = kv.second;
-            if (val[0] == 1) {
-                fixed_offsets.emplace(kv.first, std::vector<int>{val[1], val[2]});
-            } else if (val[0] == 2) {
-                // which dimension is duplicated
-                if (val[1] != 0 && x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{1, val[2], -1 , val[2]});
-                } 
-                
-                if (val[2] != 0 && y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{val[1], 1, val[1], -1});
-                }
-            } else if (val[0] == 4) {
-                // both dimensions duplicated
-                fixed_offsets.emplace(kv.first, std::vector<int>{1, 1, 1, -1, -1, 1, -1, -1});
-            } else if (val[0] == 6) {
-                // this will occur with 2 procs and periodic -- meet at left / right or top / bottom
-                // and 4 corners
-                if (x2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, -1, 0, 1, 0});
-                } else if (y2) {
-                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, -1, -1, 1, 1, -1, 1, 1, 0, -1, 0, 1});
-                }
-            }
-        }
-
-        std::map<int, int> ngh_offsets_idx;
-        for (auto& ngh : nghs) {
-            int idx = ngh_offsets_idx[ngh.rank];
-            ngh_offsets_idx[ngh.rank] += 2;
-            auto& ngh_offsets = fixed_offsets[ngh.rank];
-            offsets[0] = ngh_offsets[idx];
-            offsets[1] = ngh_offsets[idx + 1];
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            // if (is_0) std::cout << "fixed ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        }
-
-        // for (auto& ngh : nghs) {
-        //     offsets[0] = ngh.cart_coord_x - cart_coords[0];
-        //     offsets[1] = ngh.cart_coord_y - cart_coords[1];
-        //     if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-        //         if (x2) {
-        //             if (offsets[0] < 0) offsets[0] = 1;
-        //             else if (offsets[0] > 0) offsets[0] = -1;
-        //         }
-        //         if (y2) {
-        //             if (offsets[1] < 0) offsets[1] = 1;
-        //             else if (offsets[1] > 0) offsets[1] = -1;
-        //         }
-        //         if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << offsets[0] << ", " << offsets[1] << std::endl;
-        //     }
-        //     compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-        //     p_ranks.emplace(ngh.rank);
-        // }
-    } else if (num_dims == 3) {
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-        bool z2 = procs_per_dim[2] == 2;
-        for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            offsets[1] = ngh.cart_coord_y - cart_coords[1];
-            offsets[2] = ngh.cart_coord_z - cart_coords[2];
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (x2) {
-                    if (offsets[0] < 0) offsets[0] = 1;
-                    else if (offsets[0] > 0) offsets[0] = -1;
-
-                }
-                if (y2) {
-                    if (offsets[1] < 0) offsets[1] = 1;
-                    else if (offsets[1] > 0) offsets[1] = -1;
-                }
-                if (z2) {
-                    if (offsets[2] < 0) offsets[2] = 1;
-                    else if (offsets[2] > 0) offsets[2] = -1;
-                }
-
-            }
-            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
-        }
+    for (auto& ngh : nghs) {
+        compute_buffer_bounds(ngh, ngh.offsets, num_dims, local_bounds, buffer_size);
     }
 }
 
@@ -351,8 +227,10 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             MPI_Cart_coords(comm_, n_rank, num_dims_, working);
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
-            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
-                {0, 0, 0, 0}});
+            if (n_rank != rank) {
+                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
+                    {0, 0, 0, 0}, {xd, 0, 0}});
+            }
         }
 
     } else if (num_dims_ == 2) {
@@ -387,7 +265,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], -1, nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, {xd, yd, 0}});
                     }
                 }
             }
@@ -435,7 +313,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, {xd, yd, zd}});
                     }
                 }
             }
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 88b6bca..14b976b 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -27,6 +27,8 @@ struct CTNeighbor {
     // buffered agents - tuple: (rank, (xmin, xmax, ymin, ymax, zmin, zmax))
     PyObject* buffer_info;
     BoundingBox local_bounds;
+    // direction of this neighbor in the cartesian topology: -1, 0, or 1 for x, y and z
+    int offsets[3];
 };
 
 struct GetBufferInfo {
-- 
2.43.0


From 059a7136d1d9cff0b2ade1c0d63a2d320e35537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 10/33] fix: neighbourhood queries and synchronization of
 read-write value layers

---
 src/repast4py/value_layer.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index b93031c..148127d 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -9,7 +9,7 @@ import itertools
 import torch
 import numpy as np
 
-from typing import Callable, Tuple
+from typing import Tuple
 
 from . import geometry
 
@@ -720,7 +720,7 @@ class ReadWriteValueLayer:
             the neighboring locations as a np.array: (values, ngh_locations). The first value in
             the values tensor is the value of the first location in the ngh_locations array, and so forth.
         """
-        return self.read.get_nghs(pt)
+        return self.read_layer.get_nghs(pt)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
@@ -731,13 +731,8 @@ class ReadWriteValueLayer:
         """
         pass
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_ghosts(self):
         """Synchronizes the ghosted buffer parts of the read and write value layers.
-
-        Args:
-            agent_manager: this rank's AgentManager
-            create_agent: a callable that can create an agent instance from
-            an agent id and data.
         """
         self.write_layer._synch_ghosts()
         self.read_layer._synch_ghosts()
-- 
2.43.0


From 6346c70806a29e4a295703cdb6d2edb7c67b25a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 11/33] fix: size the coordinates of a topology by its
 dimensions

---
 src/repast4py/distributed_space.cpp |  2 +-
 src/repast4py/spacemodule.cpp       | 17 +++--------------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index b0c5ad8..26d66ef 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -150,7 +150,7 @@ CartesianTopology::~CartesianTopology() {
 }
 
 void CartesianTopology::getCoords(std::vector<int>& coords) {
-    coords.reserve(num_dims_);
+    coords.resize(num_dims_);
     MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 }
 
diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 890941f..bbcacd2 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -2663,24 +2663,13 @@ static PyObject* CartesianTopology_getLocalBounds(PyObject* self, void* args) {
 static PyObject* CartesianTopology_getCartCoords(PyObject* self, void* closure) {
     std::vector<int> coords;
     ((R4Py_CartesianTopology*)self)->topo->getCoords(coords);
-    #if defined(_MSC_VER)
-    if (coords.size() == 1) {
-        return Py_BuildValue("(L)", coords[0]);
-    } else if (coords.size() == 2) {
-        return Py_BuildValue("(LL)", coords[0], coords[1]);
-    } else {
-        return Py_BuildValue("(LLL)", coords[0], coords[1], coords[2]);
-    }
-    #else
     if (coords.size() == 1) {
-        return Py_BuildValue("(l)", coords[0]);
+        return Py_BuildValue("(i)", coords[0]);
     } else if (coords.size() == 2) {
-        return Py_BuildValue("(ll)", coords[0], coords[1]);
+        return Py_BuildValue("(ii)", coords[0], coords[1]);
     } else {
-        return Py_BuildValue("(lll)", coords[0], coords[1], coords[2]);
+        return Py_BuildValue("(iii)", coords[0], coords[1], coords[2]);
     }
-    #endif
-
 }
 
 static PyObject* CartesianTopology_computeBufferData(PyObject* self, PyObject* args) {
-- 
2.43.0


From 62ce4e1735dffec5f0a4f09475178f53601fbbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 12/33] fix: leave periodic continuous coordinates within the
 bounds unchanged

---
 src/repast4py/borders.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index fb46095..b5f9c6d 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -94,6 +94,7 @@ using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 // the shifted coordinate is min.
 template <typename CoordType>
 CoordType wrap(CoordType v, long_t min, long_t max, long_t extent) {
+    if (v >= min && v < max) return v;
     CoordType nc = fmod(v - min, extent);
     CoordType c = nc < 0 ? max + nc : min + nc;
     return c < max ? c : min;
-- 
2.43.0


From b404d76a7b5e70fe5484891db1d744a97429a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 13/33] fix: shared value layers of integer types

---
 src/repast4py/value_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 148127d..ad852f7 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -475,7 +475,7 @@ class SharedValueLayer(ValueLayer):
         offsets = self.non_buff_grid_offsets
         lb, bb = self.local_bounds, self.buffered_bounds
         super().__init__(BoundingBox(lb.xmin - int(offsets[0]), bb.xextent, lb.ymin - int(offsets[2]), bb.yextent,
-                                     lb.zmin - int(offsets[4]), bb.zextent), borders, 'random', dtype)
+                                     lb.zmin - int(offsets[4]), bb.zextent), borders, init_value, dtype)
         self.bbounds = self.buffered_bounds
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
-- 
2.43.0


From 779e5045e361e4f80df830c2afaa23509453fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 14/33] fix: remove self-loops from undirected networks

---
 src/repast4py/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ec68808..c4d4cdb 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -677,7 +677,8 @@ class UndirectedSharedNetwork(SharedNetwork):
         """
         edge_key = (u_agent, v_agent)
         self.canonical_edge_keys.pop(edge_key)
-        self.canonical_edge_keys.pop((v_agent, u_agent))
+        # same key as the above if the edge is a self-loop
+        self.canonical_edge_keys.pop((v_agent, u_agent), None)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge between u_agent and v_agent.
-- 
2.43.0


From 0077b97b60bafeeeca33188d49e1e8f75def4c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 15/33] fix: read graph descriptions with nested or
 brace-containing attributes

---
 src/repast4py/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index c4d4cdb..cfac4b7 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -905,7 +905,9 @@ def _parse_graph_desc(line: str):
                          'format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
 
 
-_LINE_P = re.compile('\{[^}]+\}|\S+')
+# the json dictionary extends to the last brace in the line: it may contain nested
+# dictionaries, and strings with braces in them
+_LINE_P = re.compile(r'\{.*\}|\S+')
 _EMPTY_DICT = {}
 
 
-- 
2.43.0


From ed6105e5de275aabaa736b6af177082c44168037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 16/33] fix: request each remote agent once when reading a
 network

---
 src/repast4py/network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index cfac4b7..8909441 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -20,7 +20,7 @@ import math
 import json
 from abc import ABC, abstractmethod
 
-from typing import List, Iterable, Callable, Tuple, Dict
+from typing import List, Iterable, Callable, Tuple, Dict, Set
 
 from ._core import Agent
 from .core import AgentManager, SharedProjection
@@ -888,6 +888,8 @@ class GraphData:
     remote_agents: Dict
     requested_agents: List
     edges: List
+    # ids of the agents in requested_agents
+    requested_ids: Set
 
 
 def _parse_graph_desc(line: str):
@@ -944,7 +946,7 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 
 
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
-    requested = set()
+    requested = graph_data.requested_ids
     try:
         vals = _LINE_P.findall(line)
         n_vals = len(vals)
@@ -1063,7 +1065,7 @@ def read_network(fpath: str, ctx, create_agent: Callable, restore_agent: Callabl
         # -1 flags single proc run
         gd_rank = ctx.rank if ctx.comm.size > 1 else -1
         graph_data = GraphData(rank=gd_rank, agents={}, remote_agents={}, requested_agents=[],
-                               edges=[])
+                               edges=[], requested_ids=set())
         parse_nodes = True
         for i, line in enumerate(f_in):
             line = line.strip()
-- 
2.43.0


From c64a4f90aab726222f84dd6a183d08eeb7da6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 17/33] fix: send each agent once to a neighbor whose buffer
 areas overlap

---
 src/repast4py/space.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index 6e49581..f05ed8b 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -58,6 +58,17 @@ class OccupancyType(IntEnum):
     """Only a single agent can inhabit a location."""
 
 
+def _unique_agents(send_data: List) -> List:
+    """Gets the specified send data such that each agent is sent once to a rank. The buffer
+    areas of a rank may overlap when that rank is a neighbor in more than one direction.
+
+    Args:
+        send_data: a list of lists where the nested lists contain tuples whose first element is
+            the agent data, and that is itself a tuple beginning with the agent's unique id.
+    """
+    return [list({data[0][0]: data for data in data_list}.values()) for data_list in send_data]
+
+
 class SharedGrid(_SharedGrid, SharedProjection):
     """An N-dimensional cartesian discrete space shared across ranks, where agents can occupy locations defined by
     a discretete integer coordinate.
@@ -153,7 +164,7 @@ class SharedGrid(_SharedGrid, SharedProjection):
 
             self.gather(data_list, ranges)
 
-        return send_data
+        return _unique_agents(send_data)
 
     def _process_recv_data(self, recv_data: List, agent_manager: AgentManager, create_agent: Callable):
         """Processes received agent data into this SharedGrid's buffer area.
@@ -384,7 +395,7 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
                 pt = self.get_location(a)
                 data_list.append((a.save(), (pt.x, pt.y, pt.z)))
 
-        return send_data
+        return _unique_agents(send_data)
 
     def _process_recv_data(self, recv_data, agent_manager: AgentManager, create_agent):
         """Processes received agent data into this SharedCSpace's buffer area.
-- 
2.43.0


From 2142f034a5abb90589f2438488745a00e4accfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 18/33] fix: remove agents that move between ranks from every
 bounded projection

---
 src/repast4py/context.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2daaa50..f4747a8 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -140,21 +140,25 @@ class SharedContext:
             to send the data in the second list to.
         """
         send_data = [[] for i in range(self.comm.size)]
+        moved_ids = set()
         # gather agents to send from the out of bounds (oob) sequence
         for pid, proj in self.bounded_projs.items():
             for agent_id, ngh_rank, pt in proj._get_oob():
-                agent = self._agent_manager.remove_local(agent_id)
-                if agent is None:
+                if agent_id in moved_ids:
                     # already removed
                     data = [(agent_id,)]
                 else:
+                    agent = self._agent_manager.remove_local(agent_id)
+                    if agent is None:
+                        # a ghost in this projection's buffer
+                        continue
+                    moved_ids.add(agent_id)
                     oob_agents.append((agent, ngh_rank))
                     del self._agents_by_type[agent_id[1]][agent_id]
                     data = [agent.save()]
                     if agent_id in self._agent_manager._ghosted_agents:
                         data.append(self._agent_manager.delete_ghosted(agent_id))
 
-                    proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
                     for nb_proj in self.non_bounded_projs:
                         nb_proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
 
@@ -164,6 +168,12 @@ class SharedContext:
 
             proj._clear_oob()
 
+        # remove the moved agents from all the bounded projections, including
+        # those in which they are not out of bounds
+        for agent, ngh_rank in oob_agents:
+            for proj in self.bounded_projs.values():
+                proj._agent_moving_rank(agent, ngh_rank, [], self._agent_manager)
+
         return send_data
 
     def _process_recv_oob_data(self, recv_data: List, ghosts_to_remove: List, create_agent: Callable):
-- 
2.43.0


From 1bdbd525648d822663bc1df39506f7cbfe0e9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 19/33] fix: replace a buffered ghost that becomes local when
 ghosts are not synchronized

---
 src/repast4py/context.py | 15 ++++++++++++++-
 src/repast4py/space.py   | 14 ++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index f4747a8..5ccec28 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -9,7 +9,7 @@ import collections
 
 from repast4py.value_layer import SharedValueLayer
 from repast4py import random
-from typing import Callable, List
+from typing import Callable, List, Tuple
 
 from .core import AgentManager, SharedProjection, BoundedProjection, Agent
 from .util import is_empty
@@ -176,6 +176,17 @@ class SharedContext:
 
         return send_data
 
+    def _remove_ghost_from_bounded(self, agent_id: Tuple):
+        """Removes the specified ghost from the bounded projections, in order that
+        the agent itself can be added to them when it becomes local to this rank.
+
+        Args:
+            agent_id: the unique id tuple of the ghost.
+        """
+        ghost = self._agent_manager.get_ghost(agent_id, incr=0)
+        for proj in self.bounded_projs.values():
+            proj.remove(ghost)
+
     def _process_recv_oob_data(self, recv_data: List, ghosts_to_remove: List, create_agent: Callable):
         """Adds any agents that are recevied by this rank from another rank when those agents have
         gone out of bounds and entered this rank.
@@ -202,6 +213,7 @@ class SharedContext:
                     # received what used to be ghost here
                     if agent.uid in self._agent_manager._ghost_agents:
                         ghosts_to_remove.append(agent.uid)
+                        self._remove_ghost_from_bounded(agent.uid)
                     # print("Adding", agent.id)
                     self.add(agent)
                     if len(agent_data_list) == 2:
@@ -532,6 +544,7 @@ class SharedContext:
                 agent = create_agent(agent_data[0])
                 if agent.uid in self._agent_manager._ghost_agents:
                     ghosts_to_remove.append(agent.uid)
+                    self._remove_ghost_from_bounded(agent.uid)
                 self.add(agent)
                 # update with data where to ghost to
                 if len(agent_data) == 2:
diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index f05ed8b..f09a454 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -204,8 +204,11 @@ class SharedGrid(_SharedGrid, SharedProjection):
         """
         if self.do_synch:
             for agent in self.buffered_agents:
-                self.remove(agent)
-                agent_manager.remove_ghost(agent)
+                # no longer a ghost, if it has become local to this rank without
+                # the ghosts having been synchronized
+                if agent_manager.get_ghost(agent.uid, incr=0) is not None:
+                    self.remove(agent)
+                    agent_manager.remove_ghost(agent)
             self.buffered_agents.clear()
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
@@ -367,8 +370,11 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
         """
         if self.do_synch:
             for agent in self.buffered_agents:
-                self.remove(agent)
-                agent_manager.remove_ghost(agent)
+                # no longer a ghost, if it has become local to this rank without
+                # the ghosts having been synchronized
+                if agent_manager.get_ghost(agent.uid, incr=0) is not None:
+                    self.remove(agent)
+                    agent_manager.remove_ghost(agent)
 
             self.buffered_agents.clear()
 
-- 
2.43.0


From bd89399d269fe421dc54439f5e85063ffc24ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 20/33] fix: keep requested ghosts up to date and at the right
 rank

---
 src/repast4py/context.py | 32 +++++++++++++++++++++-----------
 src/repast4py/core.py    |  1 +
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 5ccec28..f4abfe8 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -435,21 +435,26 @@ class SharedContext:
             requested_agents: a list of tuples where each tuple is
                 (uid of requested agent, rank to request from)
         """
-        requests = [None for i in range(self.comm.size)]
+        # tuples of requested agent id, and whether the agent must be sent
+        requests = [[] for i in range(self.comm.size)]
         existing_ghosts = []
+        requested_ids = set()
         for request in requested_agents:
             # 1 is the rank to request from
             # 0 is the id of the agent we are requesting
+            if request[0] in requested_ids:
+                continue
+            requested_ids.add(request[0])
             agent = self._agent_manager.get_ghost(request[0], 0)
             if agent is None:
-                lst = requests[request[1]]
-                if lst is None:
-                    requests[request[1]] = [request[0]]
-                else:
-                    requests[request[1]].append(request[0])
+                requests[request[1]].append((request[0], True))
             else:
                 existing_ghosts.append(agent)
-                self._agent_manager.add_req_ghost(agent.uid)
+                if not self._agent_manager.is_requested(agent.uid):
+                    # already here, but the other rank needs to know that this
+                    # rank refers to it, and so keep it up to date
+                    requests[request[1]].append((request[0], False))
+                    self._agent_manager.add_req_ghost(agent.uid)
                 for proj in self.projections.values():
                     if agent not in proj:
                         proj.add(agent)
@@ -476,10 +481,10 @@ class SharedContext:
         sent_agents = [[] for i in range(self.comm.size)]
         requested, ghosts = self._send_requests(requested_agents)
         for rank, requests in enumerate(requested):
-            if requests:
-                for requested_id in requests:
-                    agent = self._agent_manager.tag_as_ghosted(rank, requested_id)
-                    # self._agent_manager.add_req_ghosted(requested_id)
+            for requested_id, send in requests:
+                agent = self._agent_manager.tag_as_ghosted(rank, requested_id)
+                # self._agent_manager.add_req_ghosted(requested_id)
+                if send:
                     sent_agents[rank].append(agent.save())
 
         recv_agents = self.comm.alltoall(sent_agents)
@@ -500,6 +505,11 @@ class SharedContext:
         # as we can ignore these given that they should be processed
         # in a previous call to proj._agent_moving_rank
         all_moved_agents[self.rank] = []
+        for uid, dest in itertools.chain(*all_moved_agents):
+            ghost = self._agent_manager.get_ghost(uid, incr=0)
+            if ghost is not None and dest != self.rank:
+                ghost.local_rank = dest
+
         if any_moved:
             for proj in projs:
                 proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)
diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 5c15641..c641e8b 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -259,6 +259,7 @@ class AgentManager:
             agent_id: the unique id tuple of the ghost.
         """
         del self._ghost_agents[agent_id]
+        self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
         """Adds the specified agent to the ghost collection from
-- 
2.43.0


From 656025c382666d78ae2d3fad2c006283582b45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 21/33] fix: keep networks coherent across ranks when agents
 move, are removed or are requested

Both ranks of an edge that crosses ranks now track it, so either can update or
remove it, edges and the ghosts used by them move with their agents, and the
rank on which an agent is local is told which ranks use it as a ghost.
---
 src/repast4py/context.py |  98 ++++-----
 src/repast4py/core.py    |   7 +-
 src/repast4py/network.py | 419 ++++++++++++++++++++++-----------------
 3 files changed, 294 insertions(+), 230 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index f4abfe8..1588c52 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -235,20 +235,24 @@ class SharedContext:
         for gh in self.removed_ghosteds:
             for rank in gh.ghost_ranks:
                 send_data[rank].append(gh.agent.uid)
+        for uid, rank in self._agent_manager.removed_refs:
+            send_data[rank].append(uid)
+        self._agent_manager.removed_refs.clear()
         recv_data = self.comm.alltoall(send_data)
         for updates in recv_data:
             for removed_id in updates:
                 ghost = self._agent_manager.get_ghost(removed_id)
-                for proj in self.projections.values():
-                    proj.remove(ghost)
-                self._agent_manager.delete_ghost(removed_id)
+                if ghost is not None:
+                    for proj in self.projections.values():
+                        if ghost in proj: # type: ignore
+                            proj.remove(ghost)
+                    self._agent_manager.delete_ghost(removed_id)
 
         self.removed_ghosteds.clear()
 
     def _update_ghosts(self):
         """Updates the state of any agents ghosted from this rank to other ranks.
         """
-        self._update_removed_ghosts()
         # send agent state updates to ghosts
         send_data = [[] for _ in range(self.comm.size)]
         for _, gh_agent in self._agent_manager._ghosted_agents.items():
@@ -261,14 +265,29 @@ class SharedContext:
                 ghost.agent.update(*update[1:])
 
     def _pre_synch_ghosts(self):
-        """Calls _pre_synch_ghosts on all "ghostable" projections
-        and value layers.
+        """Calls _pre_synch_ghosts on all bounded projections.
         """
-        for proj in self.projections.values():
+        for proj in self.bounded_projs.values():
             proj._pre_synch_ghosts(self._agent_manager)
 
+    def _synch_non_bounded(self, restore_agent: Callable):
+        """Synchronizes the changes made to the non-bounded projections, and the removal
+        of agents, across ranks. This must occur before any agents move across ranks, such
+        that all the ranks agree on the projections of the moving agents.
+
+        Args:
+            restore_agent: a Callable that when given serialized agent data
+            returns an agent.
+        """
+        for proj in self.non_bounded_projs:
+            proj._pre_synch_ghosts(self._agent_manager)
+
+        self._update_removed_ghosts()
+        for proj in self.non_bounded_projs:
+            proj._synch_ghosts(self._agent_manager, restore_agent)
+
     def _synch_ghosts(self, restore_agent: Callable):
-        """Synchronizes ghosts on all "ghostable" projections
+        """Synchronizes ghosts on all bounded projections
         and value layers associated with this SharedContext.
 
         Args:
@@ -276,7 +295,7 @@ class SharedContext:
             returns an agent.
         """
         self._update_ghosts()
-        for proj in self.projections.values():
+        for proj in self.bounded_projs.values():
             proj._synch_ghosts(self._agent_manager, restore_agent)
 
         for vl in self.value_layers:
@@ -297,6 +316,7 @@ class SharedContext:
 
         if sync_ghosts:
             self._pre_synch_ghosts()
+        self._synch_non_bounded(restore_agent)
 
         oob_moved_agents = []
         # These 3 synchronize bounded projections -- agents that
@@ -306,29 +326,11 @@ class SharedContext:
         recv_data = self.comm.alltoall(send_data)
         ghosts_to_remove = []
         self._process_recv_oob_data(recv_data, ghosts_to_remove, restore_agent)
-        any_moved = self._agents_moved(oob_moved_agents, self.projections.values())
-
-        if any_moved:
-            for gh_uid in ghosts_to_remove:
-                self._agent_manager.delete_ghost(gh_uid)
+        self._agents_moved(oob_moved_agents, ghosts_to_remove, restore_agent)
 
         if sync_ghosts:
             self._synch_ghosts(restore_agent)
 
-        if any_moved:
-            for proj in self.projections.values():
-                proj._post_agents_moved_rank(self._agent_manager, restore_agent)
-
-            # synch ghosts for non-oob projections -- they don't need a double synch
-            # to maintain coherences
-            for proj in self.non_bounded_projs:
-                proj._pre_synch_ghosts(self._agent_manager)
-
-                self._update_ghosts()
-                for pid, proj in self.projections.items():
-                    if pid not in self.bounded_projs:
-                        proj._synch_ghosts(self._agent_manager, restore_agent)
-
     def contains_type(self, agent_type: int) -> bool:
         """Get whether or not this SharedContexts contains any agents of the specified type
 
@@ -497,7 +499,15 @@ class SharedContext:
 
         return ghosts
 
-    def _agents_moved(self, moved_agents: List, projs) -> bool:
+    def _agents_moved(self, moved_agents: List, ghosts_to_remove: List, restore_agent: Callable):
+        """Updates the projections and ghosts when agents have moved between ranks.
+
+        Args:
+            moved_agents: the agents moved off of this rank: a list of tuples (agent, destination rank)
+            ghosts_to_remove: the unique ids of the agents moved to this rank that were ghosts on this rank
+            restore_agent: a Callable that when given serialized agent data
+            returns an agent.
+        """
         moved_ids = [(x.uid, dest) for x, dest in moved_agents]
         all_moved_agents = self.comm.allgather(moved_ids)
         any_moved = not is_empty(all_moved_agents)
@@ -511,9 +521,16 @@ class SharedContext:
                 ghost.local_rank = dest
 
         if any_moved:
-            for proj in projs:
+            for proj in self.projections.values():
                 proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)
-        return any_moved
+
+            # received agents that used to be ghosts so
+            # remove them as ghosts as they are now local
+            for gh_uid in ghosts_to_remove:
+                self._agent_manager.delete_ghost(gh_uid)
+
+            for proj in self.projections.values():
+                proj._post_agents_moved_rank(self._agent_manager, restore_agent)
 
     def move_agents(self, agents_to_move: List, create_agent: Callable):
         """Moves agents from this rank to another rank where it becomes a
@@ -532,6 +549,7 @@ class SharedContext:
             create_agent: a Callable that can take the result of an agent :samp: `save()` and
                 return an agent.
         """
+        self._synch_non_bounded(create_agent)
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
@@ -564,19 +582,5 @@ class SharedContext:
                     ghosted_data.pop(self.rank, None)
                     self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)
 
-        self._agents_moved(moved_agents, self.projections.values())
-
-        # received agents that used to be ghosts so
-        # remove them as ghosts as they are now local
-        for gh_uid in ghosts_to_remove:
-            self._agent_manager.delete_ghost(gh_uid)
-
-        self._pre_synch_ghosts()
-        send_data = self._gather_oob_data([])
-        recv_data = self.comm.alltoall(send_data)
-        ghosts_to_remove = []
-        self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
-        self._synch_ghosts(create_agent)
-
-        for proj in self.projections.values():
-            proj._post_agents_moved_rank(self._agent_manager, create_agent)
+        self._agents_moved(moved_agents, ghosts_to_remove, create_agent)
+        self.synchronize(create_agent)
diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index c641e8b..3746921 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -84,6 +84,9 @@ class AgentManager:
         self.rank = rank
         # track requested agents by id
         self._req_ghosts = set()
+        # (uid, rank) of agents no longer local to this rank to which
+        # the rank refers as a ghost
+        self.removed_refs = []
 
     def is_requested(self, agent_id: Tuple) -> bool:
         """Gets whether or not the specified agent is requested
@@ -234,6 +237,8 @@ class AgentManager:
         ranks[ghost_rank] -= 1
         if ranks[ghost_rank] == 0:
             del ranks[ghost_rank]
+            if len(ranks) == 0:
+                del self._ghosted_agents[agent_id]
 
     def remove_ghost(self, agent: Agent):
         """Decrements the ghost agents reference count and removes it from this rank, if its
@@ -258,7 +263,7 @@ class AgentManager:
         Args:
             agent_id: the unique id tuple of the ghost.
         """
-        del self._ghost_agents[agent_id]
+        self._ghost_agents.pop(agent_id, None)
         self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 8909441..5de298d 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -72,14 +72,16 @@ class SharedNetwork(SharedProjection, ABC):
         self.new_edges = {}
         # key is edge tuple, val is idx of ghost agent in tuple
         self.edges_to_remove = {}
-        # list of edges that need to be recreated when a
-        # agent moves off of this rank. Edge is (u.uid, v.uid)
-        self._agent_moved_edges = []
-        # list of agent ids that should not be ghosted to this
-        # rank after an agent move. The identification of
-        # these agents and communicating to the ghosting rank
-        # occur in different stages so we track this info as field
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
+        # list of agents that are moving off of this rank, and the rank they
+        # are moving to: (agent, dest)
+        self._agents_moving = []
+        # the edges of the agents moving off of this rank, to be sent to the ranks
+        # the agents are moving to
+        self._agent_moved_edges = [[] for _ in range(self.comm.size)]
+        # changes, 1 or -1, in the use of a ghost by this network, to be sent to
+        # the rank on which the ghosted agent is local. List of (uid, change)
+        # by rank.
+        self._ref_changes = [[] for _ in range(self.comm.size)]
         # list of ghosts agents that need to have their
         # ref count incremented. This can occur when an agent
         # in a buffer zone is added via an edge, but has not
@@ -216,8 +218,73 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        if self.graph.has_node(agent):
+            for u, v in list(self._edges(agent)): # type: ignore
+                self._forget_edge(u, v)
+            for edge_key in [k for k in self.edges_to_remove if agent in k]:
+                del self.edges_to_remove[edge_key]
         self.graph.remove_node(agent)
 
+    def _forget_edge(self, u_agent: Agent, v_agent: Agent):
+        """Removes the edge between u_agent and v_agent from the data used to
+        share that edge with other ranks.
+
+        Args:
+            u_agent: the u node of the edge
+            v_agent: the v node of the edge
+        """
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        self.ghosted_edges.pop(edge_key, None)
+        self.new_edges.pop(edge_key, None)
+        self.edges_to_update.discard(edge_key)
+        self._remove_edge_key(u_agent, v_agent)
+
+    def _ref_ghost(self, ghost: Agent, agent_manager: AgentManager):
+        """Adds the specified ghost to this network as a node, if it is not
+        one already.
+
+        Args:
+            ghost: the ghost to add
+            agent_manager: this rank's AgentManager
+        """
+        if not self.graph.has_node(ghost):
+            self.graph.add_node(ghost)
+            agent_manager.get_ghost(ghost.uid)
+            self._ref_changes[ghost.local_rank].append((ghost.uid, 1))
+
+    def _unref_ghost(self, ghost: Agent, agent_manager: AgentManager):
+        """Removes the specified ghost from this network, if it does not participate
+        in any edge, and is not on this rank by request.
+
+        Args:
+            ghost: the ghost to remove
+            agent_manager: this rank's AgentManager
+        """
+        if not self._has_edge(ghost) and not agent_manager.is_requested(ghost.uid):
+            self.graph.remove_node(ghost)
+            agent_manager.remove_ghost(ghost)
+            self._ref_changes[ghost.local_rank].append((ghost.uid, -1))
+
+    def _sync_refs(self, agent_manager: AgentManager):
+        """Notifies the other ranks which of the agents local to them this network
+        uses, or no longer uses, as ghosts.
+
+        Args:
+            agent_manager: this rank's AgentManager
+        """
+        recv_changes = self.comm.alltoall(self._ref_changes)
+        self._ref_changes = [[] for _ in range(self.comm.size)]
+        for rank, changes in enumerate(recv_changes):
+            for uid, change in changes:
+                if agent_manager.get_local(uid) is None:
+                    if change > 0:
+                        # removed from the model
+                        agent_manager.removed_refs.append((uid, rank))
+                elif change > 0:
+                    agent_manager.tag_as_ghosted(rank, uid)
+                else:
+                    agent_manager.untag_as_ghosted(rank, uid)
+
     def update_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Updates the edge between u_agent and v_agent with the specified
         attributes.
@@ -254,28 +321,19 @@ class SharedNetwork(SharedProjection, ABC):
         if u_agent.local_rank != self.rank and v_agent.local_rank == self.rank or \
            u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
             edge_key = self._get_edge_key((u_agent, v_agent))
-            # edge key order might be different than remove edge args
-            # so need to check in edge key which is the ghost
-            self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
-            del self.ghosted_edges[edge_key]
-            # if removed before update sync or removed before new edge sync
-            # then remove it here
-            self.edges_to_update.discard(edge_key)
-            self.new_edges.pop(edge_key, None)
+            # no need to tell the other rank if it does not know about the edge
+            if edge_key in self.ghosted_edges:
+                # edge key order might be different than remove edge args
+                # so need to check in edge key which is the ghost
+                self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
 
-        self._remove_edge_key(u_agent, v_agent)
+        self._forget_edge(u_agent, v_agent)
 
     def clear_edges(self):
         """Removes all the edges.
         """
-        self.graph.clear_edges()
-        for edge, ghosted_edge in self.ghosted_edges.items():
-            edge_key = self._get_edge_key(edge)
-            self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
-            self.edges_to_update.discard(edge_key)
-
-        self.new_edges.clear()
-        self.ghosted_edges.clear()
+        for u, v in list(self.graph.edges()):
+            self.remove_edge(u, v)
 
     def contains_edge(self, u_agent: Agent, v_agent: Agent) -> bool:
         """Gets whether or not an edge exists between the u_agent and v_agent.
@@ -299,35 +357,32 @@ class SharedNetwork(SharedProjection, ABC):
         for edge, ghost_idx in self.edges_to_remove.items():
             ghost = edge[ghost_idx]
             sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            agent_manager.untag_as_ghosted(ghost.local_rank, edge[not (ghost_idx)].uid)
 
         self.edges_to_remove.clear()
         to_remove = self.comm.alltoall(sync_edges)
         for edges in to_remove:
             for u_id, v_id in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(v_agent):
-                        agent_manager.remove_ghost(v_agent)
-                        self.graph.remove_node(v_agent)
-                else:
-                    v_agent = agent_manager._local_agents[v_id]
-                    # u_agent is GhostAgent so get agent
-                    u_agent = u_agent.agent
+                u_agent, v_agent = self._get_edge_agents(u_id, v_id, agent_manager)
+                # may have been removed here as well
+                if self.graph.has_edge(u_agent, v_agent):
                     self.graph.remove_edge(u_agent, v_agent)
+                    self._forget_edge(u_agent, v_agent)
                     # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(u_agent):
-                        agent_manager.remove_ghost(u_agent)
-                        self.graph.remove_node(u_agent)
+                    self._unref_ghost(u_agent if u_agent.local_rank != self.rank else v_agent, agent_manager)
 
-                self._remove_edge_key(u_agent, v_agent)
+    def _get_edge_agents(self, u_id: Tuple, v_id: Tuple, agent_manager: AgentManager) -> Tuple:
+        """Gets the agents, one of which may be a ghost, with the specified ids.
+
+        Args:
+            u_id: the unique id tuple of the u node of an edge
+            v_id: the unique id tuple of the v node of an edge
+            agent_manager: this rank's AgentManager
+        """
+        agents = []
+        for uid in (u_id, v_id):
+            agent = agent_manager.get_local(uid)
+            agents.append(agent_manager.get_ghost(uid, incr=0) if agent is None else agent)
+        return tuple(agents)
 
     def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
         """Synchronizes vertices across processes.
@@ -347,18 +402,14 @@ class SharedNetwork(SharedProjection, ABC):
             list is formatted in "alltoall" format such that index of each nested element
             is the rank where to send those elements.
         """
-        sync_agents = [[] for i in range(self.comm.size)]
+        sync_agents = [{} for i in range(self.comm.size)]
         sync_edges = [[] for i in range(self.comm.size)]
         for nodes, ghosted_edge in self.new_edges.items():
             local_agent = ghosted_edge.local_agent
             ghost_agent = ghosted_edge.ghost_agent
             other_rank = ghost_agent.local_rank
             self.ghosted_edges[nodes] = ghosted_edge
-            # not already ghosted so send agent itself
-            if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
-                sync_agents[other_rank].append(local_agent.save())
-                agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
-
+            sync_agents[other_rank][local_agent.uid] = local_agent
             sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
         self.new_edges.clear()
 
@@ -368,16 +419,30 @@ class SharedNetwork(SharedProjection, ABC):
             sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
         self.edges_to_update.clear()
 
-        recv_agents = self.comm.alltoall(sync_agents)
+        recv_agents = self.comm.alltoall([[agent.save() for agent in agents.values()] for agents in sync_agents])
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                agent = create_agent(agent_data)
-                # 1 because added to network
-                agent_manager.add_ghost(rank, agent, 1)
-                self.add(agent)
+                self._add_edge_ghost(rank, agent_data, agent_manager, create_agent)
 
         return sync_edges
 
+    def _add_edge_ghost(self, local_rank: int, agent_data: Tuple, agent_manager: AgentManager, create_agent: Callable):
+        """Adds the agent created from the specified data as a ghost node, if it is not
+        already a ghost node.
+
+        Args:
+            local_rank: the rank on which the agent is local
+            agent_data: the agent's data
+            agent_manager: this rank's AgentManager
+            create_agent: a callable used to create any necessary agents
+        """
+        ghost = agent_manager.get_ghost(agent_data[0], incr=0)
+        if ghost is None:
+            ghost = create_agent(agent_data)
+            # 0 because incremented when added to the network
+            agent_manager.add_ghost(local_rank, ghost, 0)
+        self._ref_ghost(ghost, agent_manager)
+
     def _sync_edges(self, sync_edges: List, agent_manager: AgentManager):
         """Syncronizes edges across ranks between local and non-local agents
 
@@ -393,20 +458,49 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
         """
         recv_edges = self.comm.alltoall(sync_edges)
-        for edges in recv_edges:
+        # edges this rank has itself sent
+        sent_edges = set((u_id, v_id) for edges in sync_edges for u_id, v_id, _ in edges)
+        for rank, edges in enumerate(recv_edges):
             for u_id, v_id, edge_attr in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                else:
-                    # u_agent is GhostAgent so get agent from it
-                    u_agent = u_agent.agent
-                    v_agent = agent_manager._local_agents[v_id]
+                sent = (u_id, v_id) in sent_edges or not self.is_directed and (v_id, u_id) in sent_edges
+                # when both ranks have created or updated the edge, then
+                # the attributes of the lower rank are used.
+                if not sent or rank < self.rank:
+                    u_agent, v_agent = self._get_edge_agents(u_id, v_id, agent_manager)
+                    self._set_edge(u_agent, v_agent, edge_attr)
 
-                self.graph.add_edge(u_agent, v_agent, **edge_attr)
-                self._add_edge_key(u_agent, v_agent)
+    def _set_edge(self, u_agent: Agent, v_agent: Agent, edge_attr: Dict):
+        """Creates the specified edge if necessary, sets its attributes, and if
+        one of its agents is a ghost then tracks it as a ghosted edge.
+
+        Args:
+            u_agent: the u node of the edge
+            v_agent: the v node of the edge
+            edge_attr: the attributes of the edge
+        """
+        self.graph.add_edge(u_agent, v_agent)
+        self._add_edge_key(u_agent, v_agent)
+        attr = self.graph.edges[u_agent, v_agent]
+        attr.clear()
+        attr.update(edge_attr)
+        self._track_ghosted_edge(u_agent, v_agent)
+
+    def _track_ghosted_edge(self, u_agent: Agent, v_agent: Agent):
+        """Tracks the specified edge as a ghosted edge if one of its agents
+        is a ghost, and otherwise stops tracking it.
+
+        Args:
+            u_agent: the u node of the edge
+            v_agent: the v node of the edge
+        """
+        edge_key = self._get_edge_key((u_agent, v_agent))
+        attr = self.graph.edges[u_agent, v_agent]
+        if u_agent.local_rank != self.rank:
+            self.ghosted_edges[edge_key] = GhostedEdge(v_agent, u_agent, attr)
+        elif v_agent.local_rank != self.rank:
+            self.ghosted_edges[edge_key] = GhostedEdge(u_agent, v_agent, attr)
+        else:
+            self.ghosted_edges.pop(edge_key, None)
 
     def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
         """Synchronizes the edges and nodes of this projection across ranks.
@@ -419,6 +513,7 @@ class SharedNetwork(SharedProjection, ABC):
         self._sync_removed(agent_manager)
         sync_edges = self._sync_vertices(agent_manager, create_agent)
         self._sync_edges(sync_edges, agent_manager)
+        self._sync_refs(agent_manager)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
@@ -430,7 +525,6 @@ class SharedNetwork(SharedProjection, ABC):
         Args:
             agent_manager: this rank's AgentManager
         """
-        send_msg = [[] for i in range(self.comm.size)]
         for agent in self.ghosts_to_ref:
             if self.graph.has_node(agent):
                 ghost = agent_manager.get_ghost(agent.uid)
@@ -438,14 +532,10 @@ class SharedNetwork(SharedProjection, ABC):
                     agent_manager.add_ghost(agent.local_rank, agent)
 
                 # ghosting rank need to increment ref count to this rank
-                send_msg[agent.local_rank].append(agent.uid)
+                self._ref_changes[agent.local_rank].append((agent.uid, 1))
 
         self.ghosts_to_ref.clear()
-
-        recv_msg = self.comm.alltoall(send_msg)
-        for rank, agents in enumerate(recv_msg):
-            for agent in agents:
-                agent_manager.tag_as_ghosted(rank, agent)
+        self._sync_refs(agent_manager)
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         """Notifies this projection that all the agent movement synchronization has occured,
@@ -456,22 +546,16 @@ class SharedNetwork(SharedProjection, ABC):
             create_agent: a callable that can create an agent instance from
                 an agent id and data.
         """
-        for u_id, v_id, edge_attr in self._agent_moved_edges:
-            u = agent_manager.get_local(u_id)
-            if u is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                u = agent_manager.get_ghost(u_id, incr=0)
-
-            v = agent_manager.get_local(v_id)
-            if v is None:
-                # incr 0 because should be already as ghost so
-                # ref_count includes this network
-                v = agent_manager.get_ghost(v_id, incr=0)
-            self.add_edge(u, v, **edge_attr)
-
-        self._agent_moved_edges.clear()
-        self._synch_ghosts(agent_manager, create_agent)
+        recv_edges = self.comm.alltoall(self._agent_moved_edges)
+        self._agent_moved_edges = [[] for _ in range(self.comm.size)]
+        for edges in recv_edges:
+            for u_id, v_id, edge_attr, ghost_data in edges:
+                if ghost_data is not None:
+                    self._add_edge_ghost(ghost_data[0], ghost_data[1], agent_manager, create_agent)
+                u_agent, v_agent = self._get_edge_agents(u_id, v_id, agent_manager)
+                self._set_edge(u_agent, v_agent, edge_attr)
+
+        self._sync_refs(agent_manager)
 
     def _agent_moving_rank(self, moving_agent: Agent, dest_rank: int, moving_agent_data: List,
                            agent_manager: AgentManager):
@@ -493,56 +577,10 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
 
         """
-        # 1. Check if moving agent is in edge with ghost, and ghost
-        # is not requested, meaning that the edge is an artifact of
-        # network sync and not explicitly created on this rank. In that
-        # case, remove the edge, and the node (if the node is not in any other
-        # edges)
-        #
-        # 2. Check if moving agent is in edge with local agent. This edge
-        # needs to be preserved. So, delete edge, and add this rank to the
-        # dictionary in the moved agent_data list (the data used by the dest rank
-        # to set up ghosting of the moved agent).
-        nodes_to_remove = []
-        edges_to_remove = []
-        for u, v, attr in self._edges(moving_agent, data=True): # type: ignore
-            other = v if u.uid == moving_agent.uid else u
-            if other.local_rank != self.rank and not agent_manager.is_requested(other.uid):
-                # other is ghosted and not requested so the edge is artifact of edge created
-                # on other node between u and v, so remove it.
-                edges_to_remove.append((u, v))
-                if self.num_edges(other) == 1:
-                    # other is only on this rank to to be part of the removed edge
-                    # and now the edge is gone so remove as node and ghost
-                    nodes_to_remove.append(other)
-                    agent_manager.remove_ghost(other)
-                    self._no_longer_ghosts[other.local_rank].append(other.uid)
-
-            else:
-                # moving agent participates in edges with local agents
-                # this should tell destination rank to ghost the moved
-                # agent back to this rank, so the edge remains live
-                if len(moving_agent_data) == 1:
-                    moving_agent_data.append({self.rank: 1})
-                else:
-                    if self.rank in moving_agent_data[1]:
-                        moving_agent_data[1][self.rank] += 1
-                    else:
-                        moving_agent_data[1][self.rank] = 1
-
-                # agent will be ghosted to this rank, so need to add it as a
-                # ghost
-                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
-                self._agent_moved_edges.append((u.uid, v.uid, attr))
-
-        for edge in edges_to_remove:
-            self.graph.remove_edge(*edge)
-            self._remove_edge_key(*edge)
-
-        for node in nodes_to_remove:
-            self.graph.remove_node(node)
-
-        self.graph.remove_node(moving_agent)
+        # which of the edges of the agent remain on this rank depends on
+        # where the other agents in those edges are moving, so that is done in
+        # _agents_moved_rank
+        self._agents_moving.append((moving_agent, dest_rank))
 
     def _agents_moved_rank(self, moved_agents: List, agent_manager: AgentManager):
         """Notifies this projection that the specified agents have moved rank.
@@ -558,45 +596,63 @@ class SharedNetwork(SharedProjection, ABC):
                 EXCEPT for those moved off of the current rank.
             agent_manager: AgentManager
         """
-        stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
-        for ghost_rank, ids in enumerate(stop_ghosting_ids):
-            for id in ids:
-                agent_manager.untag_as_ghosted(ghost_rank, id)
-        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
-
-        for uid, dest in moved_agents:
+        moved_to = dict(moved_agents)
+        moved_from_here = dict((agent.uid, dest) for agent, dest in self._agents_moving)
+
+        def other_agent(edge, agent):
+            return edge[1] if edge[0] is agent else edge[0]
+
+        # 1. Send all the edges of the agents that moved off of this rank to the rank
+        # they moved to, together with the other agent in that edge, if that is not
+        # local there.
+        for agent, dest in self._agents_moving:
+            for edge in self._edges(agent, data=True): # type: ignore
+                other = other_agent(edge, agent)
+                other_rank = moved_from_here.get(other.uid, moved_to.get(other.uid, other.local_rank))
+                other_data = (other_rank, other.save()) if other_rank != dest else None
+                self._agent_moved_edges[dest].append((edge[0].uid, edge[1].uid, edge[2], other_data))
+
+        # 2. An edge with an agent that is still local remains here as an edge with a ghost.
+        for agent, dest in self._agents_moving:
+            is_ghost = False
+            for u, v in list(self._edges(agent)): # type: ignore
+                other = other_agent((u, v), agent)
+                if agent_manager.get_local(other.uid) is other:
+                    if not is_ghost:
+                        is_ghost = True
+                        agent.local_rank = dest
+                        if agent_manager.get_ghost(agent.uid) is None:
+                            agent_manager.add_ghost(dest, agent)
+                        self._ref_changes[dest].append((agent.uid, 1))
+                    self._track_ghosted_edge(u, v)
+                elif self.graph.has_edge(u, v):
+                    self.graph.remove_edge(u, v)
+                    self._forget_edge(u, v)
+                    if other.uid not in moved_from_here and moved_to.get(other.uid, -1) != self.rank:
+                        self._unref_ghost(other, agent_manager)
+            if not is_ghost:
+                self.graph.remove_node(agent)
+        self._agents_moving.clear()
+
+        # 3. If a moved agent was formerly a ghost on this rank then replace that
+        # ghost with the now local agent in the edges the ghost participated in
+        for uid, dest in moved_to.items():
             if dest == self.rank:
-                # Check if moved agent was formerly a ghost on this rank
-                # and if so, then copy the edges the ghost participated in
-                # to new edges created with the now local agent, and remove
-                # the old ghost
-                ghost = agent_manager.get_ghost(uid)
-                if ghost is not None:
+                ghost = agent_manager.get_ghost(uid, incr=0)
+                if ghost is not None and self.graph.has_node(ghost):
                     agent = agent_manager.get_local(uid)
-                    edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
-                    for u, v, attr in edge_list:
-                        self.graph.remove_edge(u, v)
-                        if u.uid == agent.uid:
-                            self.graph.add_edge(agent, v, **attr)
+                    for u, v, attr in list(self._edges(ghost, data=True)): # type: ignore
+                        if ghost is agent:
+                            self._track_ghosted_edge(u, v)
                         else:
-                            self.graph.add_edge(u, agent, **attr)
-                    self.graph.remove_node(ghost)
-            else:
-                # check if moved agent is a ghost on this rank,
-                # if so, then check if that agent participated in
-                # a ghosted edge. If so, then update the local rank
-                # of that ghost agent so that ghosted edge will be
-                # ghosted to new destination, and add that edge to
-                # the new edges, so it will be ghosted to new rank
-                # during next sync.
-                agent = agent_manager.get_ghost(uid, 0)
-                if agent is not None:
-                    for edge in self._edges(agent): # type: ignore
-                        edge_key = self._get_edge_key(edge)
-                        ge = self.ghosted_edges.get(edge_key, None)
-                        if ge is not None:
-                            ge.ghost_agent.local_rank = dest
-                            self.new_edges[edge_key] = ge
+                            self.graph.remove_edge(u, v)
+                            self._forget_edge(u, v)
+                            if u is ghost:
+                                self._set_edge(agent, v, attr)
+                            else:
+                                self._set_edge(u, agent, attr)
+                    if ghost is not agent:
+                        self.graph.remove_node(ghost)
 
 
 class UndirectedSharedNetwork(SharedNetwork):
@@ -663,6 +719,9 @@ class UndirectedSharedNetwork(SharedNetwork):
             u_agent: the u node agent
             v_agent: the v node agent
         """
+        edge_key = self.canonical_edge_keys.get((u_agent, v_agent))
+        if edge_key is not None:
+            return edge_key
         edge_key = (u_agent, v_agent)
         self.canonical_edge_keys[edge_key] = edge_key
         self.canonical_edge_keys[(v_agent, u_agent)] = edge_key
@@ -705,7 +764,6 @@ class UndirectedSharedNetwork(SharedNetwork):
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
@@ -714,7 +772,6 @@ class UndirectedSharedNetwork(SharedNetwork):
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         else:
             self._add_edge_key(u_agent, v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
@@ -846,7 +903,6 @@ class DirectedSharedNetwork(SharedNetwork):
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
@@ -855,7 +911,6 @@ class DirectedSharedNetwork(SharedNetwork):
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         else:
             self.graph.add_edge(u_agent, v_agent, **kwattr)
 
-- 
2.43.0


From 68fbc3a7bfe8075cf8ed96107579719ea731df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 22/33] fix: save copies of locations and edge attributes in a
 checkpoint

---
 src/repast4py/checkpoint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index bb7656c..2199d75 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -314,7 +314,7 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
-            locations[agent.uid] = space.get_location(agent).coordinates
+            locations[agent.uid] = space.get_location(agent).coordinates.copy()
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
@@ -349,13 +349,13 @@ class Checkpoint:
         if network.is_directed:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(o.uid, o.local_rank, network.graph[nd][o]) for o in network.graph.successors(nd)]) # type: ignore
-                edge_data.append([(o.uid, o.local_rank, network.graph[o][nd]) for o in network.graph.predecessors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)]) # type: ignore
                 data.append(edge_data)
         else:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(n.uid, n.local_rank, network.graph[nd][n]) for n in network.graph.neighbors(nd)])
+                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                 data.append(edge_data)
 
         net_data = {"name": network.name, "directed": network.is_directed,
-- 
2.43.0


From 11fcf04250e336b4ca01117c6c12dbd07a0552c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 23/33] fix: restore directed edges from an agent on another
 rank

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 2199d75..c21005c 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -430,7 +430,7 @@ class NetworkRestorer:
             if edge_t == 0:
                 self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
             else:
-                self.network.add_edge(requests[v], self.context.agent(u), **e_attribs)
+                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
     def restore(self, requests: Dict):
         self.requests = requests
-- 
2.43.0


From de62dc93492c993db179f21df2b9007138db3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 24/33] fix: keep edges restored on both ranks coherent when
 they change before a synchronization

---
 src/repast4py/checkpoint.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index c21005c..f833071 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -391,6 +391,7 @@ class Checkpoint:
 
         for restorer in restorers:
             restorer.create_ghost_edges(requests)
+            restorer.share_edges()
 
 
 class NetworkRestorer:
@@ -432,6 +433,22 @@ class NetworkRestorer:
             else:
                 self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
+    def share_edges(self):
+        """Marks the cross-process edges that have been restored on both of their ranks
+        as known to the other rank, so that they are not treated as newly created edges.
+        """
+        network = self.network
+        edges = [[] for _ in range(network.comm.size)]
+        for edge_key, ghosted_edge in network.new_edges.items():
+            edges[ghosted_edge.ghost_agent.local_rank].append((edge_key[0].uid, edge_key[1].uid))
+
+        for u_uid, v_uid in itertools.chain(*network.comm.alltoall(edges)):
+            u_agent, v_agent = network._get_edge_agents(u_uid, v_uid, self.context._agent_manager)
+            if network.contains_edge(u_agent, v_agent):
+                edge_key = network._get_edge_key((u_agent, v_agent))
+                if edge_key in network.new_edges:
+                    network.ghosted_edges[edge_key] = network.new_edges.pop(edge_key)
+
     def restore(self, requests: Dict):
         self.requests = requests
         edges = self.network_save["data"]
-- 
2.43.0


From cf228b80e7049f41521597b1ce9cbfd8714f283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 25/33] fix: keep the agents of a query's iterator alive while
 it is in use

---
 src/repast4py/core.h    | 36 ++++++++++++++++++++++++++++--------
 src/repast4py/space.cpp |  5 ++++-
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/repast4py/core.h b/src/repast4py/core.h
index 7e69d80..ddea272 100644
--- a/src/repast4py/core.h
+++ b/src/repast4py/core.h
@@ -12,6 +12,7 @@
 
 #include <list>
 #include <memory>
+#include <vector>
 
 #include "types.h"
 
@@ -57,16 +58,20 @@ struct R4Py_AgentIter {
     AgentIter* iter;
 };
 
+// Iterates over the agents that are in the iterable when the iteration starts. The
+// iterator refers to those agents itself, as the iterable may change, and its agents
+// may be destroyed, during the iteration.
 template<typename IterableT>
 class TAgentIter : public AgentIter {
 
 private:
     std::shared_ptr<IterableT> iterable_;
-    typename IterableT::iterator iter_;
+    std::vector<R4Py_Agent*> agents_;
+    size_t idx_;
 
 public:
     TAgentIter(std::shared_ptr<IterableT>);
-    virtual ~TAgentIter() {}
+    virtual ~TAgentIter();
 
     R4Py_Agent* next() override;
     bool hasNext() override;
@@ -75,23 +80,38 @@ public:
 
 template<typename IterableT>
 TAgentIter<IterableT>::TAgentIter(std::shared_ptr<IterableT> iterable) : AgentIter(),
-    iterable_{iterable}, iter_(iterable_->begin()) {}
+    iterable_{iterable}, agents_{}, idx_{0} {
+    reset();
+}
+
+template<typename IterableT>
+TAgentIter<IterableT>::~TAgentIter() {
+    for (auto agent : agents_) {
+        Py_DECREF(agent);
+    }
+}
 
 template<typename IterableT>
 bool TAgentIter<IterableT>::hasNext() {
-    return iter_ != iterable_->end();
+    return idx_ < agents_.size();
 }
 
 template<typename IterableT>
 void TAgentIter<IterableT>::reset() {
-    iter_ = iterable_->begin();
+    std::vector<R4Py_Agent*> prev(iterable_->begin(), iterable_->end());
+    for (auto agent : prev) {
+        Py_INCREF(agent);
+    }
+    agents_.swap(prev);
+    idx_ = 0;
+    for (auto agent : prev) {
+        Py_DECREF(agent);
+    }
 }
 
 template<typename IterableT>
 R4Py_Agent* TAgentIter<IterableT>::next() {
-    R4Py_Agent* agent = *iter_;
-    ++iter_;
-    return agent;
+    return agents_[idx_++];
 }
 
 class PyObjectIter {
diff --git a/src/repast4py/space.cpp b/src/repast4py/space.cpp
index 362a962..6881859 100644
--- a/src/repast4py/space.cpp
+++ b/src/repast4py/space.cpp
@@ -9,7 +9,10 @@
 namespace repast4py {
 
 void decref(AgentListPtr& agent_list) {
-    for (auto iter = agent_list->begin(); iter != agent_list->end(); ++iter)  {
+    // an iterator may still refer to the list
+    AgentList agents;
+    agents.swap(*agent_list);
+    for (auto iter = agents.begin(); iter != agents.end(); ++iter)  {
         Py_DECREF(*iter);
     }
 }
-- 
2.43.0


From a1c7089ee0ee7c3d153867f248ef6bd5580ad6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 26/33] fix: release the data of agents out of bounds when a
 shared space is destroyed

---
 src/repast4py/distributed_space.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 14b976b..6b2c1e6 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -168,6 +168,7 @@ DistributedCartesianSpace<BaseSpaceType>::DistributedCartesianSpace(const std::s
 
 template<typename BaseSpaceType>
 DistributedCartesianSpace<BaseSpaceType>::~DistributedCartesianSpace() {
+    clearOOBData();
     MPI_Comm_free(&cart_comm);
 }
 
-- 
2.43.0


From 18aad22ff550876262dbe67fd27754d4bc0ec0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 27/33] fix: do not add an agent to a space twice when a
 requested ghost is buffered

---
 src/repast4py/space.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 829ea81..20dc28b 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -94,6 +94,11 @@ BaseSpace<PointType, AccessorType, BorderType>::~BaseSpace() {
 
 template<typename PointType, typename AccessorType, typename BorderType>
 bool BaseSpace<PointType, AccessorType, BorderType>::add(R4Py_Agent* agent) {
+    auto iter = agent_map.find(agent->aid);
+    if (iter != agent_map.end() && iter->second->agent == agent) {
+        // already in this space, e.g., a requested ghost that is now buffered
+        return true;
+    }
     auto item = std::make_shared<SpaceItem<PointType>>();
     item->agent = agent;
     Py_INCREF(agent);
-- 
2.43.0


From a74d09f93b196618acf3410cf6c3a36ab409d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 28/33] fix: keep the rest of an agent's id intact when its
 rank is parsed

---
 src/repast4py/coremodule.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/coremodule.cpp b/src/repast4py/coremodule.cpp
index 8ab1a32..f1af873 100644
--- a/src/repast4py/coremodule.cpp
+++ b/src/repast4py/coremodule.cpp
@@ -202,13 +202,16 @@ static PyObject* Agent_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
 
 static int Agent_init(R4Py_Agent* self, PyObject* args, PyObject* kwds) {
     static char* kwlist[] = {(char*)"id", (char*)"type", (char*)"rank", NULL};
+    // "l" stores a long, which is wider than the rank component
+    long rank = self->aid->rank;
     #if defined(_MSC_VER)
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &self->aid->id, &self->aid->type, &rank)) {
     # else
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &self->aid->id, &self->aid->type, &rank)) {
     #endif
         return -1;
     }
+    self->aid->rank = rank;
     self->local_rank = self->aid->rank;
     if (self->aid->type < 0) {
         PyErr_SetString(PyExc_ValueError, "Type component of agent unique id must be a non-negative integer");
-- 
2.43.0


From dc87eebb5f8a20e403a3d667c8fd26a865237630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 29/33] fix: add only requested ghosts to a projection added to
 a context

---
 src/repast4py/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 3746921..4fe64db 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -281,14 +281,16 @@ class AgentManager:
         self._ghost_agents[uid] = ghost_agent
 
     def add_ghosts_to_projection(self, projection):
-        """Adds all the ghost agents to the specified projection.
+        """Adds all the requested ghost agents to the specified projection. Other
+        ghosts are only part of those projections whose buffer or edges they are in.
 
         Args:
             projection: The projection to add the ghosts to
         """
-        for gh in self._ghost_agents.values():
-            gh.ref_count += 1
-            projection.add(gh.agent)
+        for uid, gh in self._ghost_agents.items():
+            if uid in self._req_ghosts:
+                gh.ref_count += 1
+                projection.add(gh.agent)
 
     def get_ghost(self, agent_uid: Tuple, incr: int = 1) -> Agent:
         """Gets the agent with the specified id from the collection
-- 
2.43.0


From 1bc0619700925b6f241a74e2af931fd2446845da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 30/33] fix: keep an edge that both of its ranks remove and add
 again

---
 src/repast4py/network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 5de298d..4a5627d 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -355,6 +355,10 @@ class SharedNetwork(SharedProjection, ABC):
         """
         sync_edges = [[] for i in range(self.comm.size)]
         for edge, ghost_idx in self.edges_to_remove.items():
+            # if added again, the edge replaces the removed one on the other rank,
+            # where removing it might remove one newly added there
+            if self.graph.has_edge(*edge):
+                continue
             ghost = edge[ghost_idx]
             sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
 
-- 
2.43.0


From aab11adf0170e706b7bc23c9754ab0fd0522b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 31/33] fix: compare points for inequality by value

---
 src/repast4py/spacemodule.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index bbcacd2..34eb8b2 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -241,10 +241,10 @@ static PyObject* DiscretePoint_repr(R4Py_DiscretePoint* self) {
 }
 
 static PyObject* DiscretePoint_richcmp(PyObject* self, PyObject* other, int op) {
-    if (op == Py_EQ && Py_TYPE(self) == Py_TYPE(other)) {
+    if ((op == Py_EQ || op == Py_NE) && Py_TYPE(self) == Py_TYPE(other)) {
         long_t* p1 = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)self)->coords);
         long_t* p2 = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)other)->coords);
-        if (p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) 
+        if ((p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) == (op == Py_EQ))
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
@@ -487,10 +487,10 @@ static PyObject* ContinuousPoint_repr(R4Py_ContinuousPoint* self) {
 }
 
 static PyObject* ContinuousPoint_richcmp(PyObject* self, PyObject* other, int op) {
-    if (op == Py_EQ && Py_TYPE(self) == Py_TYPE(other)) {
+    if ((op == Py_EQ || op == Py_NE) && Py_TYPE(self) == Py_TYPE(other)) {
         double* p1 = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)self)->coords);
         double* p2 = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)other)->coords);
-        if (p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) 
+        if ((p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) == (op == Py_EQ))
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
-- 
2.43.0


From 432718d170f664670ad7954169e866493d5e7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 32/33] fix: reset points from arrays that are not contiguous

---
 src/repast4py/spacemodule.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 34eb8b2..2fcdea1 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -147,6 +147,12 @@ static PyObject* DiscretePoint_reset_from_array(PyObject* self, PyObject* args)
         return NULL;
     }
 
+    // the elements may not be contiguous in memory, aligned or in native byte order
+    arr = (PyArrayObject*)PyArray_CheckFromAny((PyObject*)arr, NULL, 1, 1, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_NOTSWAPPED, NULL);
+    if (arr == NULL) {
+        return NULL;
+    }
+
     npy_intp* shape = PyArray_SHAPE(arr);
     npy_int c = shape[0];
     
@@ -168,10 +174,12 @@ static PyObject* DiscretePoint_reset_from_array(PyObject* self, PyObject* args)
             d[i] = o[i];
         }
     } else {
+        Py_DECREF(arr);
         PyErr_SetString(PyExc_RuntimeError, "R4Py_DiscretePoint can only be reset from numpy array of integers");
         return NULL;
     }
 
+    Py_DECREF(arr);
     Py_RETURN_NONE;
 }
 
@@ -397,6 +405,12 @@ static PyObject* ContinuousPoint_reset_from_array(PyObject* self, PyObject* args
         return NULL;
     }
 
+    // the elements may not be contiguous in memory, aligned or in native byte order
+    arr = (PyArrayObject*)PyArray_CheckFromAny((PyObject*)arr, NULL, 1, 1, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_NOTSWAPPED, NULL);
+    if (arr == NULL) {
+        return NULL;
+    }
+
     npy_intp* shape = PyArray_SHAPE(arr);
     npy_int c = shape[0];
     
@@ -413,10 +427,12 @@ static PyObject* ContinuousPoint_reset_from_array(PyObject* self, PyObject* args
             d[i] = o[i];
         }
     } else {
+        Py_DECREF(arr);
         PyErr_SetString(PyExc_RuntimeError, "R4Py_ContinuousPoint can only be reset from numpy array of floats");
         return NULL;
     }
 
+    Py_DECREF(arr);
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From b041607aebe5861014d2ceef5303908d6cf319e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 33/33] fix: leave an agent alone that is moved to its own rank

---
 src/repast4py/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 1588c52..69ea473 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -553,6 +553,9 @@ class SharedContext:
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
+            if rank == self.rank:
+                # already there
+                continue
             agent = self._agent_manager.remove_local(uid)
             del self._agents_by_type[uid[1]][uid]
             moved_agents.append((agent, rank))
-- 
2.43.0


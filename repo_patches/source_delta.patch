From 0e2dc3c8ba29f7389c706500825ffa6233b7a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 01/35] fix: size the flow-direction fill index from the DEM so
 UnstructuredGrid works

---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b43dd91..c53c63b 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -60,7 +60,7 @@ class FlowDirections:
         self._fdir_r = None
         self._facc = None
         self._fillval = self._dem[-1]
-        self._fillidx = self._modelgrid.ncpl
+        self._fillidx = self._dem.size - 1
         self._threshold = 1e-6
 
     @property
-- 
2.43.0


From a45d0837792a80b4b2f7b26218f5eacdaae5644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 02/35] fix: always use queen neighbors instead of whatever the
 grid has cached

---
 dany/dem_conditioning.py | 4 ++--
 dany/flow_directions.py  | 4 +++-
 dany/stream_util.py      | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index ce8e814..f4253da 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -183,7 +183,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True)
+    neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
 
     while open or pit:
         if pit:
@@ -283,7 +283,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     """
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
-    neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
+    neighbors = modelgrid.neighbors(as_nodes=True, method="queen", reset=True)
     method = method.lower()
 
     while stack:
diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index c53c63b..0a30831 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -34,7 +34,9 @@ class FlowDirections:
         else:
             self._shape = self._modelgrid.shape
 
-        self._neighbors = copy.deepcopy(modelgrid.neighbors(method="queen"))
+        self._neighbors = copy.deepcopy(
+            modelgrid.neighbors(method="queen", reset=True)
+        )
         self._area = self._shoelace_area()
         self._fneighbors = None
         # self._dem = dem.ravel()
diff --git a/dany/stream_util.py b/dany/stream_util.py
index c4ccb2e..3e6fc87 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -33,7 +33,7 @@ class StreamBase:
             self._nnodes = self._modelgrid.nnodes
             self._shape = (self._nnodes,)
 
-        self._neighbors = modelgrid.neighbors(as_nodes=False)
+        self._neighbors = modelgrid.neighbors(method="queen", reset=True)
         
     @property
     def stream_array(self):
-- 
2.43.0


From 86244748e8727f88f6bca6ab410db859f5d30814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/35] fix: fill_nan_values no longer loops forever on nan
 cells without valid neighbors

---
 dany/dem_conditioning.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index f4253da..31298b4 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -285,6 +285,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     stack = list(np.where(np.isnan(filled_dem))[0])
     neighbors = modelgrid.neighbors(as_nodes=True, method="queen", reset=True)
     method = method.lower()
+    unfilled = 0
 
     while stack:
         node = stack.pop()
@@ -302,8 +303,14 @@ def fill_nan_values(modelgrid, dem, method="mean"):
             raise NotImplementedError(f"{method} has not been implemented")
 
         if np.isnan(elev):
-            stack.append(node)
+            # retry after the other nan cells; stop once a full pass over the
+            # remaining cells has not filled any of them
+            stack.insert(0, node)
+            unfilled += 1
+            if unfilled >= len(stack):
+                break
         else:
             filled_dem[node] = elev
+            unfilled = 0
 
     return filled_dem.reshape(dem.shape)
-- 
2.43.0


From 97bd2e18130a7640e27ca495a38b1f05d9cc7148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 04/35] fix: drop the cached reverse flow directions when flow
 directions are recalculated

---
 dany/flow_directions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 0a30831..8b28801 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -409,6 +409,7 @@ class FlowDirections:
         """
         self._threshold = burn_threshold
         self._fdir = np.full(self._dem.size - 1, -1)
+        self._fdir_r = None
         self._fdir[self._min_cell] = self._min_cell
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
-- 
2.43.0


From 8426e89c313fd6b44e6a48e58efd591bd95f739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 05/35] fix: cells without a valid neighbor are sinks instead
 of pointing past the grid

---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 8b28801..f9e5aa5 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -169,7 +169,7 @@ class FlowDirections:
 
         slopes = np.where(
             self._fneighbors == self._fillidx,
-            1e+10,
+            np.nan,
             drop / dist
         )
 
-- 
2.43.0


From 71d3e39b4f9a6245457d98293c8f930e91974a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 06/35] fix: undrained sink cells (-2) no longer wrap around to
 an unrelated cell

---
 dany/flow_directions.py | 21 ++++++++++++++++++++-
 dany/stream_util.py     |  6 +++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index f9e5aa5..639764c 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -364,6 +364,9 @@ class FlowDirections:
             max_nidp = np.max(self.get_nidp())
             self._fdir_r = np.full((max_nidp, self._fdir.size), -1, dtype=int)
             for ix, fdir in enumerate(self._fdir):
+                if fdir < 0:
+                    # undrained sink cell
+                    continue
                 for jx in range(max_nidp):
                     if self._fdir_r[jx, fdir] == -1:
                         self._fdir_r[jx, fdir] = ix
@@ -382,6 +385,9 @@ class FlowDirections:
         nidp_array = np.zeros(self._fdir.size, dtype=int)
 
         for cell in self._fdir:
+            if cell < 0:
+                # undrained sink cell
+                continue
             nidp_array[cell] += 1
 
         return nidp_array
@@ -468,6 +474,9 @@ class FlowDirections:
                     nidp_array[n] -= 1
                     break
                 n = self._fdir[n]
+                if n < 0:
+                    # undrained sink cell
+                    break
 
         if as_cells:
             self._facc = flow_acc
@@ -594,7 +603,11 @@ class FlowDirections:
             visited = []
             current = cellid
             while True:
-                if cellid in visited:
+                if cellid < 0:
+                    # basin outlet condition 0 path ends in an undrained sink
+                    graph[current] = -1
+                    break
+                elif cellid in visited:
                     # basin outlet condition 1 circular fdir
                     graph[current] = -1
                     break
@@ -653,6 +666,8 @@ class FlowDirections:
             hru_len : np.ndarray
         """
         fdir = self.flow_direction_array.ravel()
+        # undrained sink cells do not have a drainage path
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         verts = self._modelgrid.verts
         iverts = self._modelgrid.iverts
         hru_len = []
@@ -700,6 +715,8 @@ class FlowDirections:
             slope of the cell's drainage path
         """
         fdir = self.flow_direction_array.ravel()
+        # undrained sink cells do not have a drainage path
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         dem = self._dem[:-1]
 
         x0, y0 = self._xcenters[:-1], self._ycenters[:-1]
@@ -726,6 +743,8 @@ class FlowDirections:
 
         """
         fdir = self.flow_direction_array.ravel()
+        # undrained sink cells do not have a drainage path
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         xc, yc = self._xcenters[:-1], self._ycenters[:-1]
         xp = xc[fdir] - xc
         yp = yc[fdir] - yc
diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3e6fc87..3827af6 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -144,7 +144,11 @@ class StreamBase:
         for node in strm_nodes:
             rchid = stream_array[node]
             flow_to = self._fdir[node]
-            rchto = stream_array[flow_to]
+            if flow_to < 0:
+                # undrained sink cell
+                rchto = 0
+            else:
+                rchto = stream_array[flow_to]
             topo.add_connection(rchid, rchto)
 
         rchid_mapper = {rchid: ix + 1 for ix, rchid in enumerate(topo.sort())}
-- 
2.43.0


From 2828eb8044fa6937d20737d6eaa2662cbae1fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 07/35] fix: get_subbasins accepts an outlet in cell 0

---
 dany/flow_directions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 639764c..b2cd053 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -623,12 +623,15 @@ class FlowDirections:
                     graph[current] = cellid
                     break
 
+        # use one based ids, Topology reserves 0 as its terminal id
         topo = Topology()
         for cellid, cellid_to in graph.items():
-            topo.add_connection(cellid, cellid_to)
+            if cellid_to != -1:
+                cellid_to += 1
+            topo.add_connection(cellid + 1, cellid_to)
 
         topo.add_connection(-1, -1)
-        solution_order = topo.sort()[:-1]
+        solution_order = [i - 1 for i in topo.sort()[:-1]]
         solution_idxs = [cellids.index(cellid) for cellid in solution_order]
 
         subbasins = np.zeros(self._fdir.shape, dtype=int)
-- 
2.43.0


From 929620752f66996ef4f12dd6f23a6a2607d8db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 08/35] fix: sort stream networks with more segments than the
 recursion limit

---
 dany/stream_util.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3827af6..3b35f66 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1437,8 +1437,7 @@ class Topology(object):
 
     def _sort_util(self, seg, visited, stack):
         """
-        Recursive function used by topological
-        sort to perform sorting
+        Function used by topological sort to perform sorting
 
         Parameters
         ----------
@@ -1450,21 +1449,28 @@ class Topology(object):
             stack of sorted segment numbers
 
         """
-        visited[seg] = True
-        if seg == 0:
-            ioutseg = 0
-        else:
-            ioutseg = self.topology[seg]
+        # walk to the end of the unvisited downstream path, then unwind it;
+        # recursion is limited to streams of less than 1000 segments
+        path = []
+        while True:
+            visited[seg] = True
+            if seg == 0:
+                ioutseg = 0
+            else:
+                ioutseg = self.topology[seg]
 
-        if not visited[ioutseg]:
-            self._sort_util(ioutseg, visited, stack)
+            path.append((seg, ioutseg))
+            if visited[ioutseg]:
+                break
+            seg = ioutseg
 
-        if seg == 0:
-            pass
-        elif ioutseg == 0:
-            stack.append(seg)
-        else:
-            stack.insert(0, seg)
+        for seg, ioutseg in reversed(path):
+            if seg == 0:
+                pass
+            elif ioutseg == 0:
+                stack.append(seg)
+            else:
+                stack.insert(0, seg)
 
     def sort(self):
         """
-- 
2.43.0


From 041173adfa218925600ab7b0033995e3b1496798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 09/35] fix: keep single cell streams at the outlet when
 grouping segments

---
 dany/stream_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3b35f66..0c2c0fb 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -225,6 +225,10 @@ class StreamBase:
                 if node not in nodesdn:
                     segstrts[node] = iseg
                     iseg += 1
+                elif graph[node] == node and nodesdn.count(node) == 1:
+                    # outlet cell without upstream stream cells
+                    segstrts[node] = iseg
+                    iseg += 1
 
             for node in nodesdn:
                 x = np.where(nodesdn == node)[0]
-- 
2.43.0


From 2aa62c0cf0797c01bf8d0e7e719e1e3575e2b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 10/35] fix: grouped stream connectivity works for
 UnstructuredGrid

---
 dany/stream_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 0c2c0fb..3b8ef01 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -311,9 +311,7 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(
-            tuple(self._modelgrid.shape[1:])
-        )
+        self._stream_array = seg_array.reshape(self._shape)
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-- 
2.43.0


From 6f2d03a3173b70d6d5d098e68b038eec53c0cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 11/35] fix: reach_data looks up the downstream segment by
 segment number, not column number

---
 dany/stream_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3b8ef01..73615a4 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -820,11 +820,11 @@ class Sfr2005(StreamBase):
         for ix in range(len(basic_rec)):
             rec = basic_rec[ix]
             if len(rec) < rec_len:
-                iseg = rec[3]
-                if iseg not in self._seg_graph:
+                iseg = rec[4]
+                outseg = self._seg_graph[iseg]
+                if outseg == 0:
                     downreach = 0
                 else:
-                    outseg = self._seg_graph[iseg]
                     downreach = seg_rid_lut[outseg]
                 basic_rec[ix].append(downreach)
 
-- 
2.43.0


From d184a68fe2d0157ebc26df740f4c72fce31e0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 12/35] fix: Sfr2005 builder object accepts keyword defaults

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 73615a4..45e454a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1012,7 +1012,7 @@ class Sfr2005(StreamBase):
             }
         }
         group_segments = kwargs.pop("group_segments", True)
-        for k, v in kwargs:
+        for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
             elif k in defaults["segment"]:
-- 
2.43.0


From 07566f281843ed3822d05a3f790ceeda48293cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 13/35] fix: Sfr2005 builder object slopes use the downstream
 reach

---
 dany/stream_util.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 45e454a..6e35984 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1039,9 +1039,23 @@ class Sfr2005(StreamBase):
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
             dem = self._modelgrid.top.ravel()
+            outsegs = dict(
+                zip(segment_data["nseg"], segment_data["outseg"])
+            )
+            reach_ixs = {
+                (rec["iseg"], rec["ireach"]): ix
+                for ix, rec in enumerate(reach_data)
+            }
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
                 rec_dn_ix = rec["outreach"] - 1
+                if rec_dn_ix < 0:
+                    # outreach has not been set, use the segment connectivity
+                    iseg, ireach = rec["iseg"], rec["ireach"]
+                    rec_dn_ix = reach_ixs.get(
+                        (iseg, ireach + 1),
+                        reach_ixs.get((outsegs.get(iseg, 0), 1), ix)
+                    )
                 if rec_dn_ix >= len(reach_data):
                     node_dn = rec["node"]
                 else:
-- 
2.43.0


From 611cfc4443a5ced37cfe206d5456ee6443a45c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 14/35] fix: a new stream array discards the connectivity of
 the previous one

---
 dany/stream_util.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 6e35984..0d4ace4 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -73,6 +73,16 @@ class StreamBase:
             )
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._reset_connectivity()
+
+    def _reset_connectivity(self):
+        """
+        Method to drop connectivity data of a previous stream array
+
+        """
+        self._graph = None
+        self._seg_graph = None
+        self._node_seg_rch = None
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
@@ -104,6 +114,7 @@ class StreamBase:
             stream_array[basin_boundary.ravel() == 0] = 0
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._reset_connectivity()
         return self._stream_array
 
     def _mf6_stream_connectivity(self, stream_array=None):
-- 
2.43.0


From cda7f68e8ec85886b2776b327cb9da676a7346a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 15/35] fix: Sfr6.packagedata accepts a binary stream array

---
 dany/stream_util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 0d4ace4..d12b603 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -587,6 +587,7 @@ class Sfr6(StreamBase):
             stream_array = self.stream_array
         else:
             graph = self._mf6_stream_connectivity(stream_array)
+            stream_array = self.stream_array
 
         stream_array = stream_array.ravel()
         dem_top = self._modelgrid.top.ravel()
-- 
2.43.0


From 132db802f5a0b8ef5e2427992882b56751510496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 16/35] fix: binary stream arrays are numbered when
 connectivity has already been built

---
 dany/stream_util.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index d12b603..c5993c3 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -84,6 +84,18 @@ class StreamBase:
         self._seg_graph = None
         self._node_seg_rch = None
 
+    def _is_current_network(self, stream_array):
+        """
+        Method to check if a stream array has the same stream cells as the
+        internally stored (numbered) stream array
+
+        """
+        if self._stream_array is None:
+            return False
+        return np.array_equal(
+            np.ravel(stream_array) != 0, np.ravel(self._stream_array) != 0
+        )
+
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
         Method to binarize flow accumulation by a contributing area
@@ -768,7 +780,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if self._seg_graph is None or not self._is_current_network(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -884,7 +896,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if self._seg_graph is None or not self._is_current_network(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -928,13 +940,18 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None:
+            if (
+                self._seg_graph is None
+                or not self._is_current_network(stream_array)
+            ):
                 group_segments = kwargs.pop("group_segments", True)
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
                     group_segments=group_segments
                 )
-                stream_array = self._stream_array
+
+            # use the numbered stream array, stream_array may be binary
+            stream_array = self._stream_array
 
         stream_array = stream_array.copy().ravel()
         stream_cells = np.where((stream_array > 0) & (~np.isnan(stream_array)))[0]
@@ -1198,12 +1215,12 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None:
+        if self._graph is None or not self._is_current_network(stream_array):
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
-            stream_array = self.stream_array
 
-        stream_array = stream_array.copy().ravel()
+        # use the numbered stream array, stream_array may be binary
+        stream_array = self.stream_array.ravel()
 
         if not many2many:
             hru_up_id, hru_down_id, hru_pct_up = \
-- 
2.43.0


From 1e7827c21f71e76bfc2052f12f282ed589479fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 17/35] fix: Sfr6 inputs stay reach based after
 create_stream_vectors

---
 dany/stream_util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c5993c3..b8396a7 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -25,7 +25,7 @@ class StreamBase:
         self._facc = facc
         self._shape = shape
         self._stream_array = None
-        self._graph = None
+        self._reset_connectivity()
 
         self._shape = self._modelgrid.shape[1:]
         self._nnodes = self._modelgrid.ncpl
@@ -194,6 +194,7 @@ class StreamBase:
             stream_array[node] = new
 
         self._stream_array = stream_array
+        self._reset_connectivity()
         self._graph = new_map
         return new_map
 
@@ -538,7 +539,8 @@ class Sfr6(StreamBase):
 
         """
         if graph is None:
-            if self._graph is None:
+            if self._graph is None or self._seg_graph is not None:
+                # not built, or replaced by segment connectivity
                 if self._stream_array is None:
                     raise AssertionError(
                         "delineate_streams() must be run or a graph of "
@@ -585,7 +587,8 @@ class Sfr6(StreamBase):
         """
         dist_adj = 1.5
         if stream_array is None:
-            if self._graph is None:
+            if self._graph is None or self._seg_graph is not None:
+                # not built, or replaced by segment connectivity
                 if self._stream_array is None:
                     raise AssertionError(
                         "get_stream_connectivity() must be run or a stream "
-- 
2.43.0


From 191c6a498314280238227c0b9eba85c5b0898447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 18/35] fix: irunbnd assigns cells to the first segment
 downstream

---
 dany/stream_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index b8396a7..5b1048a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -983,7 +983,8 @@ class Sfr2005(StreamBase):
                 else:
                     visited.append(node)
 
-                upnodes = fdir_r[node]
+                # upstream stream cells belong to their own segment
+                upnodes = [n for n in fdir_r[node] if not stream_array[n] > 0]
                 irunbnd[upnodes] = iseg
                 stack.extend(upnodes)
 
-- 
2.43.0


From 2101f6fddf68fcf119e47235e8f0ae70ee60bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 19/35] fix: many to many cascades only drop links to cells
 outside of the basin

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 5b1048a..464adf5 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1374,7 +1374,7 @@ class PrmsStreams(StreamBase):
                 #  links that point out of the active model extent based
                 #  on slope
                 flow_to = np.array(flow_to)
-                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != 0]
+                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != -9]
                 flow_to = list(flow_to[keep_idx])
                 conns = conns[keep_idx]
 
-- 
2.43.0


From 28a75abdaa355f59720fa171e62b0a6c27310ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 20/35] fix: the basin outlet of many to one cascades is the
 cell inside of the basin

---
 dany/stream_util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 464adf5..aecebf0 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1294,10 +1294,11 @@ class PrmsStreams(StreamBase):
 
             if fdir[hru_down] == -9:
                 # trap for outlets, need to set hru_up and hru_dn to same val
-                idxs = [hru_down]
-
-            hru_up = list(idxs)
-            hru_down = [hru_down,] * len(hru_up)
+                hru_up = list(idxs)
+                hru_down = list(idxs)
+            else:
+                hru_up = list(idxs)
+                hru_down = [hru_down,] * len(hru_up)
             hru_pct = [1.0,] * len(hru_up)
 
             hru_up_id.extend(hru_up)
-- 
2.43.0


From f591ee4c1102bfa2588e2c4fa3f5a9c2b4a69d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 21/35] fix: many to many cascades keep outlet and digitally
 flat cells

---
 dany/stream_util.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index aecebf0..a9314d9 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1381,6 +1381,17 @@ class PrmsStreams(StreamBase):
 
                 # get the slopes and calculate % flows
                 dn_slopes = slopes[node, flow_to]
+                if not np.any(dn_slopes):
+                    # outlet or digitally flat cell, there are no slopes to
+                    # partition flow with; use the flow direction
+                    hru_up_id.append(node)
+                    if hru_down < 0 or fdir[hru_down] == -9:
+                        hru_down_id.append(node)
+                    else:
+                        hru_down_id.append(hru_down)
+                    hru_pct_up.append(1)
+                    continue
+
                 hru_pcts = np.abs(dn_slopes) / np.sum(np.abs(dn_slopes))
 
                 # remove links with low fraction of flow
-- 
2.43.0


From 4db8c8792181d055912923ebe453d2191a9b9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 22/35] fix: fill_sinks keeps eps for integer and single
 precision DEMs

---
 dany/dem_conditioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 31298b4..026fbeb 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -37,7 +37,8 @@ def fill_sinks(modelgrid, dem, eps=2e-06, stream_mask=None, method="priority"):
     """
     edge_nodes = _identify_edge_nodes(modelgrid)
     shape = dem.shape
-    dem = np.copy(dem)
+    # eps is lost in integer and single precision elevations
+    dem = np.array(dem, dtype=float)
     if stream_mask is not None:
         if method.lower() not in ("priority", "complete"):
             method = "priority"
-- 
2.43.0


From a53eee3d074219302f8e9bbcec621728d7eadfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 23/35] fix: hru_len counts a shared vertex once for closed
 cell polygons

---
 dany/flow_directions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b2cd053..163a7b1 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -650,7 +650,8 @@ class FlowDirections:
             [x, y] coordinate pair
         """
         shared = []
-        for iv in iverts0:
+        # iverts may be closed, do not count the first vertex twice
+        for iv in dict.fromkeys(iverts0):
             if iv in iverts1:
                 shared.append(verts[iv])
 
-- 
2.43.0


From b5fc544c53a3fec88a200c68bcbf4f16651d9398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 24/35] fix: number boolean and small integer stream arrays

---
 dany/stream_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index a9314d9..24695da 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -155,6 +155,9 @@ class StreamBase:
             stream_array = self._stream_array
 
         stream_array = stream_array.copy().ravel()
+        if stream_array.dtype.kind in "biu":
+            # boolean and small integer types can not hold the numbering
+            stream_array = stream_array.astype(int)
         strm_nodes = np.where(stream_array)[0]
 
         # assign an initial reach number to stream cells
@@ -230,6 +233,9 @@ class StreamBase:
 
         # 1a) create graph of connectivity via node numbers...
         stream_array = stream_array.copy().ravel()
+        if stream_array.dtype.kind in "biu":
+            # boolean and small integer types can not hold the numbering
+            stream_array = stream_array.astype(int)
         strm_nodes = np.where(stream_array)[0]
 
         graph = {}
-- 
2.43.0


From 13d18efa9fede8d52758243d0dfc19a6dff0ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 25/35] fix: get_subbasins accepts lists of point geometries

---
 dany/flow_directions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 163a7b1..6501d2b 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -580,7 +580,9 @@ class FlowDirections:
         """
         from flopy.utils.geospatial_utils import GeoSpatialCollection
 
-        if isinstance(points, (tuple, list, np.ndarray)):
+        if isinstance(points, (tuple, list, np.ndarray)) and all(
+            isinstance(point, (tuple, list, np.ndarray)) for point in points
+        ):
             for point in points:
                 if len(point) != 2:
                     raise AssertionError(
-- 
2.43.0


From 4d7006c0cf1c6a9c1db128e2281b66da52a3b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 26/35] fix: resolving flats never re-routes outlet and
 terminal cells

---
 dany/flow_directions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 6501d2b..a39fa69 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -277,7 +277,9 @@ class FlowDirections:
                     # we can apply hydrologic conditioning...
                     self._fdir[ix] = -2
                     for cell in self._stack.keys():
-                        self._fdir[cell] = -2
+                        # outlet and terminal cells are never re-routed
+                        if self._fdir[cell] != cell:
+                            self._fdir[cell] = -2
                 else:
                     # create a weighted distance array
                     flow_trace = {list(self._stack[dest])[0]: [dest, 0]}
@@ -323,7 +325,9 @@ class FlowDirections:
                     if ix not in flow_trace:
                         print('break')
                     for node, (node_to, dist) in flow_trace.items():
-                        self._fdir[node] = node_to
+                        # outlet and terminal cells are never re-routed
+                        if self._fdir[node] != node:
+                            self._fdir[node] = node_to
 
     def _resolve_flats(self, cell, flow_to, dest):
         """
-- 
2.43.0


From c729c2a188c739bbab0b2e1c858fa79c76a4a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 27/35] fix: fill_nan_values with min or max accepts missing
 cells without neighbors

---
 dany/dem_conditioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 026fbeb..8eea8bf 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -291,7 +291,8 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     while stack:
         node = stack.pop()
         nn = neighbors[node]
-        elevs = filled_dem[nn]
+        # cells that do not have any neighbors cannot be filled
+        elevs = filled_dem[nn] if len(nn) > 0 else np.array([np.nan])
         if method == "mean":
             elev = np.nanmean(elevs)
         elif method == "median":
-- 
2.43.0


From bac9bf7bc3361dc1d3c8be7a2c2c24a2998c3672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 28/35] fix: cascades of undrained sink cells no longer point
 to a cell before the first

---
 dany/stream_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 24695da..3c8661a 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1284,6 +1284,8 @@ class PrmsStreams(StreamBase):
         )
         """
         fdir = self._fdir.copy().ravel()
+        # undrained sink cells do not have a cell to flow to
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
@@ -1345,6 +1347,8 @@ class PrmsStreams(StreamBase):
 
         """
         fdir = self._fdir.copy().ravel()
+        # undrained sink cells do not have a cell to flow to
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
-- 
2.43.0


From f9c13a01300defe997292d9b003394ccc90896b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 29/35] fix: control points on circular flow directions no
 longer loop forever

---
 dany/stream_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 3c8661a..34bb7b8 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -470,8 +470,13 @@ class StreamBase:
         array = np.full(self._facc.shape, threshold).ravel()
         for node in cellids:
             stack = [node]
+            visited = set()
             while stack:
                 node = stack.pop(0)
+                if node in visited:
+                    # circular flow directions
+                    continue
+                visited.add(node)
                 neighs = self._neighbors[node]
                 array[node] = self._facc[node] - 5
                 flows_in = []
-- 
2.43.0


From 9a014981ee0b1640000b0b04c0af71c0ac9b24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 30/35] fix: stream tables keep their own elevations when a
 modelgrid is shared

---
 dany/stream_util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 34bb7b8..8e333a0 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -515,6 +515,8 @@ class Sfr6(StreamBase):
             modelgrid._top = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
             self._slope = faobj.slope.ravel()
+            # other objects may replace the top of a shared modelgrid
+            self._dem = faobj.dem.copy()
 
         else:
             pass
@@ -616,7 +618,7 @@ class Sfr6(StreamBase):
             stream_array = self.stream_array
 
         stream_array = stream_array.ravel()
-        dem_top = self._modelgrid.top.ravel()
+        dem_top = self._dem.ravel()
         xcenters = self._modelgrid.xcellcenters.ravel()
         ycenters = self._modelgrid.ycellcenters.ravel()
         connection_data = self.connectiondata(graph)
@@ -734,6 +736,8 @@ class Sfr2005(StreamBase):
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
+            # other objects may replace the top of a shared modelgrid
+            self._dem = faobj.dem.copy()
 
         self._node_seg_rch = None
         self._seg_graph = None
@@ -803,7 +807,7 @@ class Sfr2005(StreamBase):
         basic_rec = []
         xcenters = self._modelgrid.xcellcenters
         ycenters = self._modelgrid.ycellcenters
-        dem = self._modelgrid.top
+        dem = self._dem
         reachid = 1
         seg_rid_lut = {}
         for iseg, outseg in sorted(self._seg_graph.items()):
@@ -1082,7 +1086,7 @@ class Sfr2005(StreamBase):
             # Set reach data defaults
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
-            dem = self._modelgrid.top.ravel()
+            dem = self._dem.ravel()
             outsegs = dict(
                 zip(segment_data["nseg"], segment_data["outseg"])
             )
-- 
2.43.0


From 60b2b33941d0cc12c4baee79628375a031146d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 31/35] fix: reach connectivity of an array of the wrong size
 is refused

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 8e333a0..14052d4 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -196,7 +196,7 @@ class StreamBase:
             new = rchid_mapper[old]
             stream_array[node] = new
 
-        self._stream_array = stream_array
+        self._stream_array = stream_array.reshape(self._shape)
         self._reset_connectivity()
         self._graph = new_map
         return new_map
-- 
2.43.0


From 85cbab783fb4fed7abd6851e7b508c03a5a7bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 32/35] fix: subbasins without any outlet have the shape of the
 grid

---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index a39fa69..60bf767 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -646,7 +646,7 @@ class FlowDirections:
             subbasins = self.get_watershed_boundary(
                 point, subbasins=subbasins.ravel()
             )
-        return subbasins
+        return subbasins.reshape(self._shape)
 
     def _get_shared_vertex(self, iverts0, iverts1, verts):
         """
-- 
2.43.0


From ab7c131dc6b70392e22e460b69c5c36cb486c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 33/35] fix: refused terminal cells no longer discard the flow
 directions

---
 dany/flow_directions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 60bf767..a8b0753 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -417,10 +417,8 @@ class FlowDirections:
             numpy array of cell numbers that each individual cell flows to
 
         """
-        self._threshold = burn_threshold
-        self._fdir = np.full(self._dem.size - 1, -1)
-        self._fdir_r = None
-        self._fdir[self._min_cell] = self._min_cell
+        fdir = np.full(self._dem.size - 1, -1)
+        fdir[self._min_cell] = self._min_cell
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
                 if self._modelgrid.grid_type == "structured":
@@ -433,8 +431,12 @@ class FlowDirections:
                 nodes = terminal_cells
 
             for tc in nodes:
-                self._fdir[tc] = tc
+                fdir[tc] = tc
 
+        # refused terminal cells keep the previous flow directions
+        self._threshold = burn_threshold
+        self._fdir = fdir
+        self._fdir_r = None
         self._fill_irregular_neighbor_array()
         slopes = self._calculate_slopes()
         self._calculate_flowcell(slopes)
-- 
2.43.0


From d317f384e80c314920b94d555c5d3f1c80fc3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 34/35] fix: a cell tied between several outlets drains to one
 of them

---
 dany/flow_directions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index a8b0753..5cce570 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -238,6 +238,11 @@ class FlowDirections:
                 self._fdir[ix] = self._fneighbors[ix, flow_to[0]]
             elif len(flow_to) == 3 and continuous:
                 self._fdir[ix] = self._fneighbors[ix, flow_to[-1]]
+            elif ends := [
+                c for c in self._fneighbors[ix, flow_to] if self._fdir[c] == c
+            ]:
+                # flow does not continue past an outlet or terminal cell
+                self._fdir[ix] = ends[0]
             else:
                 dest = None
                 sink = True
-- 
2.43.0


From 7b0028b0a38822d26dcc3a4f16e5ee89318a424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:08 +0000
Subject: [PATCH 35/35] fix: cells without a value in a stream array are not
 stream cells

---
 dany/stream_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 14052d4..a308a27 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -93,7 +93,8 @@ class StreamBase:
         if self._stream_array is None:
             return False
         return np.array_equal(
-            np.ravel(stream_array) != 0, np.ravel(self._stream_array) != 0
+            np.nan_to_num(np.ravel(stream_array)) != 0,
+            np.nan_to_num(np.ravel(self._stream_array)) != 0
         )
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
@@ -158,6 +159,8 @@ class StreamBase:
         if stream_array.dtype.kind in "biu":
             # boolean and small integer types can not hold the numbering
             stream_array = stream_array.astype(int)
+        # cells without a value are not stream cells
+        stream_array[np.isnan(stream_array)] = 0
         strm_nodes = np.where(stream_array)[0]
 
         # assign an initial reach number to stream cells
@@ -236,6 +239,8 @@ class StreamBase:
         if stream_array.dtype.kind in "biu":
             # boolean and small integer types can not hold the numbering
             stream_array = stream_array.astype(int)
+        # cells without a value are not stream cells
+        stream_array[np.isnan(stream_array)] = 0
         strm_nodes = np.where(stream_array)[0]
 
         graph = {}
@@ -1466,10 +1471,7 @@ class PrmsStreams(StreamBase):
         if many2many:
             casc_flg = 0
 
-        if stream_array is None:
-            stream_array = self.stream_array.ravel()
-
-        nreaches = np.count_nonzero(stream_array)
+        nreaches = np.count_nonzero(self.stream_array)
         nsegments = len(strm_conn)
 
         return PygsflowCascades(
-- 
2.43.0


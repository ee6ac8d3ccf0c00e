From a83dec0d6abe561362062981cce263b3564e6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 01/33] fix: skip back to the data by what was read of the flow
 map header block

---
 strata/dataformats/gmx_flow_version_1/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 692be0f..06917bd 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -79,7 +79,7 @@ def read_header(fp):
 
             if pos != -1:
                 header_str += buf[:pos].decode("ascii")
-                offset = buf_size - pos - 1
+                offset = len(buf) - pos - 1
                 fp.seek(-offset, 1)
                 break
             else:
-- 
2.43.0


From 32bba47769e21d07692e5c8d9383dba1b49b4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 02/33] fix: only finish the averaging progress bar if it was
 started

---
 strata/average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 6d18641..bbeb7b6 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -175,7 +175,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
         if not quiet:
             progress.update(i+1)
 
-    progress.finish()
+    if not quiet:
+        progress.finish()
 
 
 def recenter_maps(data_maps, recenter_values):
-- 
2.43.0


From 4c6371e502e2d86df7b8ccd995ca6d0a465476ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 03/33] fix: start every spreading collection without a written
 impact header

---
 strata/spreading/collect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index d7ae38e..cda7bb7 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -109,6 +109,7 @@ def collect(base, **kwargs):
         progress.start()
 
     pbc_info = init_periodic_info()
+    write_spreading.impact = False
 
     for i, (data, info, meta) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
-- 
2.43.0


From 789cf4491a67414e8464c1ceab2e9b5edecf6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 04/33] fix: use the spacing of the matching axis for mass
 gradients

---
 strata/view_flowmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ac48508..10d72db 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -416,14 +416,14 @@ def add_density_gradient(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    dx, dy = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     flow.data = append_fields(flow.data, 'grad_rho_x', mass_gradient_x.ravel(),
@@ -447,14 +447,14 @@ def add_evaporation(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    dx, dy = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     us = data['U']
-- 
2.43.0


From 16a2d682b3c0b0ae91ca6cd0de66d36a40803356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 05/33] fix: refuse flow data arrays of unequal size instead of
 broadcasting them

---
 droplets/flow.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/droplets/flow.py b/droplets/flow.py
index c118a6e..bb2d85a 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -296,6 +296,9 @@ class FlowData(object):
 
         try:
             for label, bindata in data_list:
+                if np.size(bindata) != sizeof:
+                    raise ValueError
+
                 self.data[label] = np.array(bindata).ravel()
         except ValueError:
             raise ValueError("added array_like objects not all of equal size.")
-- 
2.43.0


From a21a632f167fcc9111fc7b828d15974c6788fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 06/33] fix: report the label missing when translating a flow
 map

---
 droplets/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index bb2d85a..6096b8c 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -389,7 +389,7 @@ class FlowData(object):
             if 'broadcast' in str(exc):
                 raise ValueError(exc)
             else:
-                raise KeyError("No label %r in object")
+                raise KeyError("No label %r in object" % label)
 
         return flow
 
-- 
2.43.0


From f71373e66dd287fa61d0eb36bc7071cb969fe874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 07/33] fix: sample cells straight to the left of the point at
 their angle

---
 droplets/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 35747ae..0ea026e 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -64,7 +64,7 @@ def sample_per_angle_from(flow, origin, label,
     inds_rlim = (drs >= rmin) & (drs <= rmax)
     data_rlim = flow.data[inds_rlim]
 
-    bin_rads = np.sign(dys[inds_rlim]) \
+    bin_rads = np.where(dys[inds_rlim] < 0., -1., 1.) \
         * np.arccos(dxs[inds_rlim]/drs[inds_rlim])
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
-- 
2.43.0


From a3e55375ad1b0f2308c6c64d48766821cd1b9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 08/33] fix: keep cells inside the final angular interval when
 sampling per angle

---
 droplets/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 0ea026e..7934f8f 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -50,6 +50,7 @@ def sample_per_angle_from(flow, origin, label,
     """
 
     amin = max(0., amin)
+    amax_cells = amax
     amax = min(360. - size, amax)
     out_angles = np.arange(amin, amax + size, size)
 
@@ -69,7 +70,7 @@ def sample_per_angle_from(flow, origin, label,
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
     # Apply angular cutoffs to remaining bins
-    inds_alim = (bin_degrees >= amin) & (bin_degrees <= amax)
+    inds_alim = (bin_degrees >= amin) & (bin_degrees <= amax_cells)
     data_alim = data_rlim[inds_alim]
     label_data = data_alim[label]
 
-- 
2.43.0


From c38b5a4ea31e4a6ef105c2665393b3b7d66e83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 09/33] fix: find edge indices in the sorted layer for the
 connected interface search

---
 droplets/interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index fe6baa6..91d4949 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -316,7 +316,9 @@ def get_interface(flow, label, **kwargs):
             # These are then the full data for the layer of the current y-value.
             # We then sort it, to traverse it in the order of increasing x.
             layer = data[indices]
-            sorted_layer = np.sort(layer, order=xlabel)
+            order = np.argsort(layer, order=xlabel)
+            indices = indices[order]
+            sorted_layer = layer[order]
 
             # Limit the search for cell neighbours in the data which is
             # within the possible radius of the layer.
@@ -342,7 +344,6 @@ def get_interface(flow, label, **kwargs):
             # one was found), as indices from the input `sorted_layer`.
             # We then return the corresponding indices from our full
             # dataset.
-            # TODO: This does not account for an unsorted input dataset though??
             if result != None:
                 left, right = result
                 yield [indices[edge] for edge in (left, right)]
-- 
2.43.0


From 532a4033c7f5227ead18854db5afa98cdf4df8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 10/33] fix: copy cells across the periodic boundary for
 systems not starting at zero

---
 droplets/interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 91d4949..25f9353 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -291,11 +291,12 @@ def get_interface(flow, label, **kwargs):
         # This means that we can walk through the system and assert that
         # all bins within the cutoff radius are included, even if they are
         # on the other side of the periodic boundary.
-        left_edge_indices = np.where(data[xlabel] <= cutoff_radius)
+        xmin = np.min(data[xlabel])
+        left_edge_indices = np.where(data[xlabel] <= xmin + cutoff_radius)
         left_pbc_data = data[left_edge_indices]
         left_pbc_data[xlabel] += box_x
 
-        right_edge_indices = np.where(data[xlabel] >= box_x - cutoff_radius)
+        right_edge_indices = np.where(data[xlabel] >= xmin + box_x - cutoff_radius)
         right_pbc_data = data[right_edge_indices]
         right_pbc_data[xlabel] -= box_x
 
-- 
2.43.0


From 213eb6fdc8b9601c31f8c2bbc4ca048fab17ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 11/33] fix: default the interface search radius to the
 smallest cell distance

---
 droplets/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 25f9353..66de37f 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -182,7 +182,7 @@ def get_interface(flow, label, **kwargs):
         if radius == None:
             xdiff = np.diff(np.unique(data[xlabel]))
             ydiff = np.diff(np.unique(data[ylabel]))
-            radius = next(np.min(map(np.min, (xdiff, ydiff))))
+            radius = min(np.min(diff) for diff in (xdiff, ydiff) if diff.size > 0)
 
         return radius
 
-- 
2.43.0


From bf236ee2fd9057010624dec428a78a66ea14e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 12/33] fix: take the origin of averaged flow maps from the
 input coordinate labels

---
 droplets/average.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/droplets/average.py b/droplets/average.py
index a3d8a27..ce6bedd 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -57,8 +57,8 @@ def average_flow_data(input_flow_maps, weights=[],
 
     def get_flowdata(data, grid, spacing):
         ny, nx = grid.shape
-        x0 = grid[0, 0]['X']
-        y0 = grid[0, 0]['Y']
+        x0 = grid[0, 0][xl]
+        y0 = grid[0, 0][yl]
 
         info = {
                 'shape': (nx, ny),
-- 
2.43.0


From a0783f2310759e6b3b2a7dc35775d9f97e6e0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 13/33] fix: leave the order of a flow map unchanged when
 sampling its viscous dissipation

---
 strata/sample_average.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index 660ce81..1a60883 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -176,6 +176,8 @@ def sample_value(flow, label, cutoff, cutoff_label, sum, viscosity):
     if label == 'inertial_energy':
         sample_data = sample_inertial_energy(flow).ravel()
     elif label == 'visc_diss':
+        # The flow map is sorted when calculating the dissipation
+        flow = flow.copy()
         sample_data = sample_viscous_dissipation(flow, viscosity).ravel()
     elif label == 'flow_angle':
         # If we are sampling the flow angle mean we do things a bit
-- 
2.43.0


From f847fe5c99fa7fe7e1415ea5120e3584298c473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 14/33] fix: keep floating point noise from lowering the index
 of an interface layer

---
 strata/interface/collect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index d419846..c5f5e1b 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -161,7 +161,9 @@ def get_yindex_for_value(y, yindex_data):
     """
 
     y = min(max(y, yindex_data.ymin), yindex_data.ymax)
-    return int((y - yindex_data.ymin) / yindex_data.dy)
+
+    # Values exactly on a layer may be below it by floating point noise
+    return int((y - yindex_data.ymin) / yindex_data.dy + 1e-6)
 
 def transfer_values(xs, yindex_data, yindex_data_new):
     """Transfer data from an array to one with a new indexing.
-- 
2.43.0


From bb33db3ac305be5175a32edf88b9cb88686c2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 15/33] fix: recognise binary simple maps whose bytes happen to
 be valid text

---
 strata/dataformats/simple/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 73758c4..c9e4f75 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -28,8 +28,8 @@ def read_data(filename, decimals=5):
         def is_binary(filename, checksize=512):
             with open(filename, 'r') as fp:
                 try:
-                    fp.read(checksize)
-                    return False
+                    # Plain text does not contain NUL characters
+                    return '\0' in fp.read(checksize)
                 except UnicodeDecodeError:
                     return True
 
-- 
2.43.0


From 06cce2ad3eda18f9562cb6b7bc97a06b97d63af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 16/33] fix: describe the combined bins of averaged maps when
 writing them

---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index bbeb7b6..16f11ed 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -150,7 +150,7 @@ def average(base, output, group=1, rolling=False, **kwargs):
         avg_data = module.average_data(*group_data)
 
         if combine != (None, None):
-            avg_data, _ = module.combine_bins(avg_data, info, nx, ny)
+            avg_data, info = module.combine_bins(avg_data, info, nx, ny)
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
-- 
2.43.0


From 843aa68c784df1aef262a48411b258d38b6c5110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 17/33] fix: place combined bins at the mean position of the
 bins they cover

---
 strata/dataformats/simple/average.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/strata/dataformats/simple/average.py b/strata/dataformats/simple/average.py
index 175a197..c28a568 100644
--- a/strata/dataformats/simple/average.py
+++ b/strata/dataformats/simple/average.py
@@ -97,16 +97,21 @@ def combine_bins(data, info, nx, ny):
 
     """
 
-    # Construct new grid, keeping in mind that the origin points
+    # Construct new grid, keeping in mind that the coordinates
     # are the mid-points of each bin which means that we have to
-    # correct for that in the origin calculation.
+    # correct for that in the calculation of the first position.
     # This is pretty simple math but basically we take n-1
     # steps of 0.5 times the original spacing to the right,
     # since this brings us to the middle of the first n cells.
+    # The origin keeps its place inside of the first bin, which is
+    # different for the file formats.
     shape = [info['shape'][0] // nx, info['shape'][1] // ny]
     spacing = [info['spacing'][0] * nx, info['spacing'][1] * ny]
-    origin = [x0 + 0.5*dx*(num - 1)
-        for x0, dx, num in zip(info['origin'], info['spacing'], (nx, ny))]
+    first = [np.min(data[l]) for l in ('X', 'Y')]
+    start = [x0 + 0.5*dx*(num - 1)
+        for x0, dx, num in zip(first, info['spacing'], (nx, ny))]
+    origin = [x1 + num*(o - x0)
+        for x1, num, o, x0 in zip(start, (nx, ny), info['origin'], first)]
     num_bins = shape[0]*shape[1]
 
     new_info = {
@@ -117,7 +122,7 @@ def combine_bins(data, info, nx, ny):
     }
 
     x, y = [np.linspace(x0, x0 + dx*(num-1), num)
-        for x0, dx, num in zip(origin, spacing, shape)]
+        for x0, dx, num in zip(start, spacing, shape)]
     xs, ys = np.meshgrid(x, y, indexing='ij')
 
     new_data = { 'X': xs.ravel(), 'Y': ys.ravel() }
-- 
2.43.0


From 33da93d7b7fe6a68a5ee353a7f061dad58988c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 18/33] fix: describe the bins remaining inside limits when
 averaging maps

---
 strata/average.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/strata/average.py b/strata/average.py
index 16f11ed..a8c6e3a 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -111,8 +111,21 @@ def average(base, output, group=1, rolling=False, **kwargs):
         used_modules = set([])
 
         for data, info, meta in read_from_files(*fn_group):
+            # Position of the origin relative to the first bin
+            origin_adj = [o - np.min(data[l])
+                for o, l in zip(info['origin'], ('X', 'Y'))]
+
             if cut_x_or_y:
                 data = cut_system(data, xlim, ylim)
+                shape = [np.unique(data[l]).size for l in ('X', 'Y')]
+
+                info = {
+                    'origin': [np.min(data[l]) + adj
+                        for l, adj in zip(('X', 'Y'), origin_adj)],
+                    'spacing': info['spacing'],
+                    'shape': shape,
+                    'num_bins': shape[0] * shape[1]
+                }
 
             group_data.append(data)
             used_modules.add(meta.pop('module'))
-- 
2.43.0


From 0d4b3dc7b10d6b6df4df8225ee7df1519afa6166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 19/33] fix: keep the origin in its place in the bins when
 recentering averaged maps

---
 strata/average.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/average.py b/strata/average.py
index a8c6e3a..231f65c 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -159,6 +159,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
                 raise ValueError("Invalid position to recenter around ('%s'). Must be 'com', 'left' or 'right'" % recenter)
 
             group_data, info = recenter_maps(group_data, xs_edges)
+            info['origin'] = [o + adj
+                for o, adj in zip(info['origin'], origin_adj)]
 
         avg_data = module.average_data(*group_data)
 
-- 
2.43.0


From 3e945e4c2e7532940c89e3040b32130b4908e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 20/33] fix: keep floating point noise from cutting a column
 from recentered map shapes

---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 231f65c..4c3d4b0 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -243,7 +243,7 @@ def recenter_maps(data_maps, recenter_values):
     # for all final maps we can cheat a little bit
     origin = [xmin, np.min(data_subset['Y'])]
     spacing = [spacing, np.mean(np.diff(np.unique(data_subset['Y'])))]
-    nx = int((xmax - xmin)/spacing[0]) + 1
+    nx = int(round((xmax - xmin)/spacing[0])) + 1
     num_bins = data_subset['X'].size
     shape = [nx, num_bins // nx]
 
-- 
2.43.0


From 6240dda2d4f13c5b962a84d5c77540e30b53edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 21/33] fix: write supersampled averages in x-major order with
 their own grid information

---
 strata/average.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/strata/average.py b/strata/average.py
index 4c3d4b0..016fcd8 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -169,6 +169,7 @@ def average(base, output, group=1, rolling=False, **kwargs):
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
+            origin = info['origin']
             info = {
                 'shape': info['shape'],
                 'spacing': info['spacing'],
@@ -180,6 +181,19 @@ def average(base, output, group=1, rolling=False, **kwargs):
                 flow, supersample, weights=[('U', 'M'), ('V', 'M'), ('T', 'N')]
             )
 
+            # Map files are in x-major order
+            supersampled_data.data.sort(order=['X', 'Y'])
+
+            info = {
+                'origin': [x0 + (o - np.min(flow.data[l]))/supersample
+                    for x0, o, l in zip(
+                        supersampled_data.origin, origin, ('X', 'Y')
+                    )],
+                'spacing': supersampled_data.spacing,
+                'shape': supersampled_data.shape,
+                'num_bins': supersampled_data.num_bins
+            }
+
             avg_data = {
                 l: supersampled_data.data[l]
                 for l in supersampled_data.properties
-- 
2.43.0


From b452d0d20f598f5d2bba2c362d536cfe66267deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 22/33] fix: measure combined contact lines in x-major order
 with their origin

---
 strata/contact_line_analysis.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7d9c66e..95a21e8 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -402,7 +402,7 @@ def combine_flow_data(avg_flow, spacing):
         grid['X'] -= 0.5 * dx
         grid['Y'] -= 0.5 * dy
 
-        grid.sort(order=['X', 'Y'])
+        grid = np.sort(grid, order=['X', 'Y'], axis=None)
 
         return [(l, grid[l]) for l in grid.dtype.names]
 
@@ -423,7 +423,14 @@ def combine_flow_data(avg_flow, spacing):
 
     ny, nx = grid.shape
 
-    return FlowData(*combined_data, info={'spacing': spacing, 'shape': (nx, ny)})
+    info = {
+        'spacing': spacing,
+        'shape': (nx, ny),
+        'origin': [np.min(cs) for l, cs in combined_data if l in ('X', 'Y')],
+        'num_bins': nx * ny
+    }
+
+    return FlowData(*combined_data, info=info)
 
 
 def add_adjusted_flow(bins, direction, info):
-- 
2.43.0


From eeb086797aa5269c03e7b78abff67289fd2849c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 23/33] fix: write collected contact lines with the information
 of their grid

---
 strata/contact_line_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 95a21e8..1b0ee09 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -6,7 +6,7 @@ from droplets.average import average_flow_data, get_combined_grid, transfer_data
 from droplets.contact_line import *
 from droplets.flow import FlowData
 from strata.dataformats.read import read_data_file
-from strata.dataformats.write import write
+from strata.dataformats.write import write, flowdata_to_dict
 from strata.sample_average import sample_value
 from strata.utils import gen_filenames, find_datamap_files, pop_fileopts, prepare_path, write_module_header
 
@@ -69,7 +69,8 @@ def extract_contact_line_bins(base, output, average=1,
             fuse_edges(avg_flow_per_edge, spacing)
 
         recombined_flow_data = combine_flow_data(avg_flow_per_edge, spacing)
-        write(next(fnout), recombined_flow_data.data)
+        write(next(fnout), flowdata_to_dict(recombined_flow_data),
+            recombined_flow_data._info)
 
 
 """Fuse the left and right edges in the center."""
-- 
2.43.0


From eaf8baea298707e4ca4825463e664dfab0fed682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 24/33] fix: sample contact lines without an undefined
 deviation

---
 strata/contact_line_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 1b0ee09..c0fb939 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -195,6 +195,7 @@ def sample_contact_line_edges(base, labels, save=None,
                     # std = np.mean([t[1] for t in means_and_stds])
                 # except:
                     # std = None
+                std = None
 
                 samples[j].append([value, std])
             except Exception as exc:
-- 
2.43.0


From a6034456818f3857874e00e0bc77bc0068eb61e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 25/33] fix: extract contact lines without a progress bar when
 quiet

---
 strata/contact_line_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index c0fb939..fb7722a 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -270,6 +270,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         return (nx, ny)
 
     quiet = kwargs.pop('quiet', False)
+    progress = None
     if not quiet:
         if rolling:
             length = len(filenames) - average + 1
-- 
2.43.0


From 42ddf0b16245eaf2da69be9d6b07701bbf90a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 26/33] fix: find the shape of contact line cells within one
 layer of the map

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index fb7722a..221a89b 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -449,7 +449,7 @@ def add_adjusted_flow(bins, direction, info):
         y0 = ys[0]
         nx = 1
 
-        while (ys[nx] >= y0 - 0.5 * dy) and (ys[nx] < y0 + 0.5 * dx):
+        while nx < ys.size and ys[nx] < y0 + 0.5 * dy:
             nx += 1
 
         ny = data.size // nx
-- 
2.43.0


From 5325365af7a298f262060d19ea98e846911c4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 27/33] fix: collect interfaces from the command line without
 an undefined result

---
 strata/strata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/strata.py b/strata/strata.py
index 0c7439a..7be1845 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -495,7 +495,7 @@ def interface_collect_cli(base, output, **kwargs):
 
     set_none_to_inf(kwargs)
     if kwargs['recenter'] == 'off': kwargs['recenter'] = None
-    xs, ys = collect_interfaces(base, output, **kwargs)
+    collect_interfaces(base, output, **kwargs)
 
 
 # Interface viewing wrapper
-- 
2.43.0


From 6772a51ddfcb0ec8f27f36a76d98821ead6aec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 28/33] fix: show flow along a single axis in flow field
 figures

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 10d72db..37ae874 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -185,7 +185,7 @@ def get_quiver_data(data, labels, coord_labels, colour, clim, xlim, ylim):
     us, vs = (data[l] for l in labels)
 
     # Cut bins without flow
-    inds = (us != 0.) & (vs != 0.)
+    inds = (us != 0.) | (vs != 0.)
 
     # Apply limits on coordinates
     inds = inds & cut_system(xs, xlim) & cut_system(ys, ylim)
-- 
2.43.0


From 09fbbfdc493e216b1be85c67141299f6b309ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 29/33] fix: refuse averaging flow maps without bin spacings
 with the stated error

---
 droplets/average.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index ce6bedd..453a579 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -47,6 +47,8 @@ def average_flow_data(input_flow_maps, weights=[],
     """
 
     def get_spacing(flow_maps):
+        assert all(flow.spacing != (None, None) for flow in flow_maps)
+
         try:
             for flow in flow_maps[1:]:
                 assert (np.isclose(flow.spacing, flow_maps[0].spacing).all())
-- 
2.43.0


From 5a199e5e6598b3447c0d4b43148cad1a11288979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 30/33] fix: include empty flow maps as empty bins when
 averaging as documented

---
 droplets/average.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index 453a579..e9408f1 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -204,6 +204,9 @@ def transfer_data(grid, data, shape, spacing, coord_labels=('X', 'Y')):
     xl, yl = coord_labels
     projected_data = grid.copy()
 
+    if data.size == 0:
+        return projected_data.ravel()
+
     dx, dy = spacing
     nx, ny = shape
 
-- 
2.43.0


From e80c4b423dedb8d4bd5bd77ed47e37e822c0e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 31/33] fix: detect the crossed boundary for systems not
 starting at zero

---
 strata/spreading/collect.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index cda7bb7..426a2b3 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -264,10 +264,10 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
     """
 
-    def get_pbc_edge_multiplier_addition(x_current, box_x):
+    def get_pbc_edge_multiplier_addition(x_current, x_prev):
         """Return -1 if the left edge was crossed, +1 if the right edge."""
 
-        if x_current % box_x > abs(box_x - x_current % box_x):
+        if x_current > x_prev:
             return -1
         else:
             return +1
@@ -285,9 +285,6 @@ def check_and_update_periodic_info(pbc_info, box_x,
     pbc_multiplier_left = pbc_info.pbc_multiplier_left
     pbc_multiplier_right = pbc_info.pbc_multiplier_right
 
-    xleft = xleft_current + pbc_multiplier_left * box_x
-    xright = xright_current + pbc_multiplier_right * box_x
-
     try:
         crossing_event = detect_crossing_event(xleft_current, xright_current,
             pbc_info.xleft_prev, pbc_info.xright_prev)
@@ -304,11 +301,11 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
             if dx_left > dx_right:
                 pbc_multiplier_left += get_pbc_edge_multiplier_addition(
-                    xleft, box_x
+                    xleft_current, pbc_info.xleft_prev
                 )
             else:
                 pbc_multiplier_right += get_pbc_edge_multiplier_addition(
-                    xright, box_x
+                    xright_current, pbc_info.xright_prev
                 )
 
     pbc_info = PeriodicInfo(
-- 
2.43.0


From 32b1ae83a5a3781b3ab6fe53b4befd133332dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 32/33] fix: extract contact lines of fewer files than the
 rolling average

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 221a89b..192c406 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -273,7 +273,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
     progress = None
     if not quiet:
         if rolling:
-            length = len(filenames) - average + 1
+            length = max(len(filenames) - average + 1, 0)
         else:
             length = int(len(filenames) / average)
 
-- 
2.43.0


From 79a214174638a151f58e030633f51d759d7c16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:11 +0000
Subject: [PATCH 33/33] fix: binary map files of nothing but printable bytes
 are not read as plain text

---
 strata/dataformats/simple/read.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index c9e4f75..4e7ffb2 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -28,8 +28,11 @@ def read_data(filename, decimals=5):
         def is_binary(filename, checksize=512):
             with open(filename, 'r') as fp:
                 try:
-                    # Plain text does not contain NUL characters
-                    return '\0' in fp.read(checksize)
+                    # Plain text has a header with the field labels
+                    # and does not contain NUL characters
+                    text = fp.read(checksize)
+                    labels = text.replace('#', ' ').split()
+                    return '\0' in text or not {'X', 'Y'} <= set(labels)
                 except UnicodeDecodeError:
                     return True
 
-- 
2.43.0


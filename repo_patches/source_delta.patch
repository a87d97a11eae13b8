From 8fc4a84a500a48b6ae0fee0bdea80b79866ae048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 01/15] fix: reset temporary gradients between backward calls

With a backward callback, several threads and a shared model, every call of
the compiled backward function added the accumulated per-thread gradients of
all earlier calls again.
---
 src/deepwave/acoustic.py    | 4 ++++
 src/deepwave/elastic.py     | 4 ++++
 src/deepwave/scalar.py      | 3 +++
 src/deepwave/scalar_born.py | 7 +++++++
 4 files changed, 18 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index dbb1540..4d994d9 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1180,6 +1180,10 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
+                # The temporary gradients are added to the output by every call, so
+                # they must not still contain the contribution of the last call.
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 step_nt = min(step, callback_frequency)
                 if (
                     backward(
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3de44c5..4b2acd1 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1829,6 +1829,10 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
+                # The temporary gradients are added to the output by every call, so
+                # they must not still contain the contribution of the last call.
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 step_nt = min(step, callback_frequency)
                 if (
                     backward(
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index b74ac33..7742927 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1248,6 +1248,9 @@ class ScalarBackwardFunc(torch.autograd.Function):
 
         if grad_wfc.numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
+                # The temporary gradients are added to the output by every call, so
+                # they must not still contain the contribution of the last call.
+                grad_v_tmp.zero_()
                 step_nt = min(step, callback_frequency)
                 if (
                     backward(
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 7b06e44..156bbd3 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -1168,6 +1168,10 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
                 for step in range(nt // step_ratio, 0, -callback_frequency):
+                    # The temporary gradients are added to the output by every call, so
+                    # they must not still contain the contribution of the last call.
+                    grad_v_tmp.zero_()
+                    grad_scatter_tmp.zero_()
                     step_nt = min(step, callback_frequency)
                     if (
                         backward(
@@ -1294,6 +1298,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         )
             else:
                 for step in range(nt // step_ratio, 0, -callback_frequency):
+                    # The temporary gradients are added to the output by every call, so
+                    # they must not still contain the contribution of the last call.
+                    grad_scatter_tmp.zero_()
                     step_nt = min(step, callback_frequency)
                     if (
                         backward_sc(
-- 
2.43.0


From 40d4dfd91f033b4da927149f3002c9c580ebb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 02/15] fix: PML profile is NaN outside the PML when pml_freq
 is zero

---
 src/deepwave/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f8e302..ee43c5c 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2551,6 +2551,7 @@ def setup_pml(
     a = torch.exp(-sigmaalpha * abs(dt))
     b = sigma / sigmaalpha * (a - 1)
     a[pml_frac == 0] = 0
+    b[pml_frac == 0] = 0  # 0/0 there when pml_freq is zero
     return a, b
 
 
-- 
2.43.0


From 7ca760f6042fddd4cc0eac395c13b2df86b05f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 03/15] fix: all-ignored locations crash when the extents come
 from a wavefield

---
 src/deepwave/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index ee43c5c..25dcdcb 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1928,6 +1928,8 @@ def check_locations_within_extents(
             for dim in range(location.shape[-1]):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
+                if dim_location.numel() == 0:
+                    continue
                 if (
                     dim_location.min() < extents[dim][0]
                     or extents[dim][1] <= dim_location.max()
-- 
2.43.0


From b7855589bd35691e9d433bb144ed873f82d710de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 04/15] fix: Hicks grid cells shift by one when location + x
 rounds down

---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index dc30377..2ffc0c9 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -68,7 +68,7 @@ def _get_hicks_for_one_location_dim(
             - location
             + int(location)
         )
-        locations = (location + x).long()
+        locations = (location + x).round().long()
 
         if key in hicks_weight_cache:
             weights = hicks_weight_cache[key].clone()
-- 
2.43.0


From ded6d47c61355bb7f37b84ee38118ab5c25e9198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 05/15] fix: free surface mirroring modifies the cached Hicks
 weights

---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 2ffc0c9..4217ffa 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -87,7 +87,7 @@ def _get_hicks_for_one_location_dim(
                     * torch.i0(beta * (1 - (x / halfwidth) ** 2).sqrt())
                     / torch.i0(beta)
                 )
-            hicks_weight_cache[key] = weights
+            hicks_weight_cache[key] = weights.clone()
         if free_surface[0] and locations[0].item() < free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
-- 
2.43.0


From e97a42507a7ec3a0ff80d2a7c3aa36d17e640518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 06/15] fix: Hicks weights of locations between -1 and 0 (int()
 truncates towards zero, giving NaN weights)

---
 src/deepwave/location_interpolation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 4217ffa..f242704 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -57,7 +57,11 @@ def _get_hicks_for_one_location_dim(
         locations = torch.tensor([location]).round().long().to(beta.device)
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
-        key = (int((location - int(location)) / eps), halfwidth, int(monopole))
+        key = (
+            int((location - math.floor(location)) / eps),
+            halfwidth,
+            int(monopole),
+        )
         x = (
             torch.arange(
                 -halfwidth + 1,
@@ -66,7 +70,7 @@ def _get_hicks_for_one_location_dim(
                 device=beta.device,
             )
             - location
-            + int(location)
+            + math.floor(location)
         )
         locations = (location + x).round().long()
 
-- 
2.43.0


From 84bb0492e465d2ea8ebe79344926b5b7659c9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 07/15] fix: Hicks dipole located on an integer end free
 surface raised a shape error

---
 src/deepwave/location_interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index f242704..c2d18b9 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -111,7 +111,8 @@ def _get_hicks_for_one_location_dim(
                 math.isclose(round(free_surface_loc[1]), free_surface_loc[1]),
             )
             locations = locations[: idx0 + 1]
-            flipped_weights = weights[idx1 + 1 :].flip(0)
+            # images that fall outside the window are dropped
+            flipped_weights = weights[idx1 + 1 :].flip(0)[-(idx0 + 1) :]
             weights[idx0 + 1 - len(flipped_weights) : idx0 + 1] -= flipped_weights
             weights = weights[: idx0 + 1]
     return locations, weights
-- 
2.43.0


From f1e3550ea6dc5ee79f187e87cf4b734e66d2088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 08/15] fix: Hicks weight of a cell on a free surface is not
 cancelled when the window ends at it

---
 src/deepwave/location_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index c2d18b9..ec836aa 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -92,7 +92,7 @@ def _get_hicks_for_one_location_dim(
                     / torch.i0(beta)
                 )
             hicks_weight_cache[key] = weights.clone()
-        if free_surface[0] and locations[0].item() < free_surface_loc[0]:
+        if free_surface[0] and locations[0].item() <= free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
             idx0 = math.ceil(free_surface_loc[0] - locations[0].item())
@@ -103,7 +103,7 @@ def _get_hicks_for_one_location_dim(
             flipped_weights = weights[:idx1].flip(0)
             weights[idx0 : idx0 + len(flipped_weights)] -= flipped_weights
             weights = weights[idx0:]
-        if free_surface[1] and locations[-1].item() > free_surface_loc[1]:
+        if free_surface[1] and locations[-1].item() >= free_surface_loc[1]:
             idx0 = (
                 len(weights) - 1 - math.ceil(locations[-1].item() - free_surface_loc[1])
             )
-- 
2.43.0


From a2d4afb71b821a36995636f03385be941590b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 09/15] fix: the last time steps were dropped when
 model_gradient_sampling_interval does not divide the number of time steps

---
 src/deepwave/acoustic.py    | 27 ++++++++++++++-----------
 src/deepwave/common.py      |  2 +-
 src/deepwave/elastic.py     | 27 ++++++++++++++-----------
 src/deepwave/scalar.py      | 29 +++++++++++++++------------
 src/deepwave/scalar_born.py | 39 ++++++++++++++++++++++---------------
 5 files changed, 73 insertions(+), 51 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 4d994d9..fa3aec5 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -906,8 +906,9 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        n_steps = (nt + step_ratio - 1) // step_ratio
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         # Wavefield names for callback
         # Same order as wavefields list
@@ -946,7 +947,7 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         # Main Loop
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wf_names, wavefields))
                     forward_callback(
@@ -960,7 +961,8 @@ class AcousticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(nt - step * step_ratio, step_nt * step_ratio)
 
                 if (
                     forward(
@@ -974,7 +976,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list,
@@ -1141,8 +1143,9 @@ class AcousticForwardFunc(torch.autograd.Function):
         )
         rdx = [1 / dx for dx in grid_spacing]
 
+        n_steps = (nt + step_ratio - 1) // step_ratio
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wf_names = ["pressure_0"]
         if ndim == 3:
@@ -1179,12 +1182,14 @@ class AcousticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 # The temporary gradients are added to the output by every call, so
                 # they must not still contain the contribution of the last call.
                 for grad_model_tmp in grad_models_tmp:
                     grad_model_tmp.zero_()
                 step_nt = min(step, callback_frequency)
+                start_t = min(nt, step * step_ratio)
+                chunk_nt = start_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[m.data_ptr() for m in models],
@@ -1200,7 +1205,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list_for_grad,
@@ -1217,7 +1222,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         ],
                         *model_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        start_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1226,7 +1231,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     (
                         grad_wavefields[-ndim:],
                         aux_wavefields[:],
@@ -1480,7 +1485,7 @@ def acoustic_python(
 
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range((nt + step_ratio - 1) // step_ratio):
         if forward_callback is not None and step % callback_frequency == 0:
             current_wavefields = [p, *velocities, *phi, *psi]
             callback_wavefields = dict(zip(wf_names, current_wavefields))
@@ -1496,7 +1501,7 @@ def acoustic_python(
                 )
             )
 
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             # Record receivers
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 25dcdcb..4ddf164 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -184,7 +184,7 @@ class StorageManager:
         temporary_storage: Optional[TemporaryStorage] = None
 
         if requires_grad and self.storage_mode != StorageMode.NONE:
-            num_steps_stored = self.nt // self.step_ratio
+            num_steps_stored = (self.nt + self.step_ratio - 1) // self.step_ratio
 
             if self.storage_mode == StorageMode.DEVICE:  # Device
                 if self.storage_compression:
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 4b2acd1..2028755 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1434,8 +1434,9 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        n_steps = (nt + step_ratio - 1) // step_ratio
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1497,7 +1498,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_wavefields = {}
 
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wavefield_names, wavefields))
                     forward_callback(
@@ -1511,7 +1512,8 @@ class ElasticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(nt - step * step_ratio, step_nt * step_ratio)
 
                 if (
                     forward(
@@ -1525,7 +1527,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot,
@@ -1765,8 +1767,9 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        n_steps = (nt + step_ratio - 1) // step_ratio
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1828,12 +1831,14 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 # The temporary gradients are added to the output by every call, so
                 # they must not still contain the contribution of the last call.
                 for grad_model_tmp in grad_models_tmp:
                     grad_model_tmp.zero_()
                 step_nt = min(step, callback_frequency)
+                start_t = min(nt, step * step_ratio)
+                chunk_nt = start_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[model.data_ptr() for model in models],
@@ -1849,7 +1854,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *[
@@ -1874,7 +1879,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         mu_batched,
                         buoyancy_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        start_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1883,7 +1888,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     if ndim == 3:
                         (
                             grad_wavefields[9:14],
@@ -2504,7 +2509,7 @@ def elastic_python(
         model_names.extend(["lamb", "mu", "buoyancy_x"])
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range((nt + step_ratio - 1) // step_ratio):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = dict(zip(v_names, velocities))
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
@@ -2533,7 +2538,7 @@ def elastic_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             for ridx in range(ndim):
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index 7742927..29248f2 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -840,15 +840,16 @@ class ScalarForwardFunc(torch.autograd.Function):
         # If no callback is provided, the entire propagation can be done in a
         # single call to the backend function. We achieve this by setting the
         # callback frequency to be the total number of steps.
+        n_steps = (nt + step_ratio - 1) // step_ratio
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         # The main time-stepping loop. The propagation is chunked into segments
         # of `callback_frequency` steps to allow for callbacks.
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 # If a `forward_callback` is provided, call it with the current
                 # state.
                 if forward_callback is not None:
@@ -871,7 +872,8 @@ class ScalarForwardFunc(torch.autograd.Function):
                         )
                     )
                 # `step_nt` is the number of steps to propagate in this chunk.
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(nt - step * step_ratio, step_nt * step_ratio)
                 # Call the C/CUDA backend function to perform the wave
                 # propagation.
                 if (
@@ -891,7 +893,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -916,7 +918,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                 # PML variables. If an odd number of time steps were performed
                 # in the chunk, the pointers to the current and previous time
                 # step buffers need to be swapped for the next iteration.
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp = wfp, wfc
                     psi, psin = psin, psi
 
@@ -1241,17 +1243,20 @@ class ScalarBackwardFunc(torch.autograd.Function):
         # This initial negation is the first part of that trick.
         grad_wfp = -grad_wfp
 
+        n_steps = (nt + step_ratio - 1) // step_ratio
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfc.numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 # The temporary gradients are added to the output by every call, so
                 # they must not still contain the contribution of the last call.
                 grad_v_tmp.zero_()
                 step_nt = min(step, callback_frequency)
+                start_t = min(nt, step * step_ratio)
+                chunk_nt = start_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         v2dt2.data_ptr(),
@@ -1271,7 +1276,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         receivers_i.data_ptr(),
                         *rdx,
                         *rdx2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1285,7 +1290,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         != deepwave.common.StorageMode.NONE,
                         v_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        start_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1294,7 +1299,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     grad_wfc, grad_wfp = grad_wfp, grad_wfc
                     grad_psi, grad_psin = grad_psin, grad_psi
                     grad_zeta, grad_zetan = grad_zetan, grad_zeta
@@ -2045,7 +2050,7 @@ def scalar_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range((nt + step_ratio - 1) // step_ratio):
         if forward_callback is not None and step % callback_frequency == 0:
             wavefield_dict = {
                 "wavefield_0": wavefields[0],
@@ -2067,7 +2072,7 @@ def scalar_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 156bbd3..5fced47 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -820,14 +820,15 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
+        n_steps = (nt + step_ratio - 1) // step_ratio
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
         callback_wavefields = {}
 
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = {
                         "wavefield_0": wfc,
@@ -855,7 +856,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(nt - step * step_ratio, step_nt * step_ratio)
                 if (
                     forward(
                         v.data_ptr(),
@@ -882,7 +884,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -908,7 +910,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp, psi, psin = (
                         wfp,
                         wfc,
@@ -1160,19 +1162,22 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             grad_wfp = -grad_wfp
         grad_wfpsc = -grad_wfpsc
 
+        n_steps = (nt + step_ratio - 1) // step_ratio
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     # The temporary gradients are added to the output by every call, so
                     # they must not still contain the contribution of the last call.
                     grad_v_tmp.zero_()
                     grad_scatter_tmp.zero_()
                     step_nt = min(step, callback_frequency)
+                    start_t = min(nt, step * step_ratio)
+                    chunk_nt = start_t - (step - step_nt) * step_ratio
                     if (
                         backward(
                             v.data_ptr(),
@@ -1205,7 +1210,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1225,7 +1230,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            start_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1234,7 +1239,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfc,
                             grad_wfp,
@@ -1297,11 +1302,13 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             )
                         )
             else:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     # The temporary gradients are added to the output by every call, so
                     # they must not still contain the contribution of the last call.
                     grad_scatter_tmp.zero_()
                     step_nt = min(step, callback_frequency)
+                    start_t = min(nt, step * step_ratio)
+                    chunk_nt = start_t - (step - step_nt) * step_ratio
                     if (
                         backward_sc(
                             v.data_ptr(),
@@ -1322,7 +1329,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudessc_requires_grad,
@@ -1337,7 +1344,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            start_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1346,7 +1353,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfcsc,
                             grad_wfpsc,
@@ -1653,7 +1660,7 @@ def scalar_born_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range((nt + step_ratio - 1) // step_ratio):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = {
                 "wavefield_0": wavefields[0],
@@ -1684,7 +1691,7 @@ def scalar_born_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
-- 
2.43.0


From c3bf6b28443b602d33c606d5e5b0a7abf8c5aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 10/15] fix: staggered adjoint updated the face beyond the
 domain (reading out of bounds) when a dimension is shorter than the stencil

---
 src/deepwave/acoustic.py | 2 +-
 src/deepwave/elastic.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index fa3aec5..7ea7f51 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1097,7 +1097,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 2028755..dc680d4 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1711,7 +1711,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
-- 
2.43.0


From 9519897791f3d9e0caa4e18b2e8c8cba99135d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 11/15] fix: elastic Python backend gave forward callbacks
 misnamed or missing shear wavefields

---
 src/deepwave/elastic.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index dc680d4..8588e3f 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -2296,23 +2296,23 @@ def elastic_python(
 
         v_names = ["vz_0", "vy_0", "vx_0"]
         normal_s_names = ["sigmazz_0", "sigmayy_0", "sigmaxx_0"]
+        # The diagonal has no shear component (and so no name)
         shear_s_names = [
-            ["sigmayz_0", "sigmaxz_0"],
-            [
-                "sigmaxy_0",
-            ],
+            ["", "sigmayz_0", "sigmaxz_0"],
+            ["sigmayz_0", "", "sigmaxy_0"],
+            ["sigmaxz_0", "sigmaxy_0", ""],
         ]
         v_mem_normal_names = ["m_vzz_0", "m_vyy_0", "m_vxx_0"]
         v_mem_shear_names = [
-            ["m_vzy_0", "m_vzx_0"],
-            ["m_vyz_0", "m_vyx_0"],
-            ["m_vxz_0", "m_vxy_0"],
+            ["", "m_vzy_0", "m_vzx_0"],
+            ["m_vyz_0", "", "m_vyx_0"],
+            ["m_vxz_0", "m_vxy_0", ""],
         ]
         s_mem_normal_names = ["m_sigmazzz_0", "m_sigmayyy_0", "m_sigmaxxx_0"]
         s_mem_shear_names = [
-            ["m_sigmayzy_0", "m_sigmaxzx_0"],
-            ["m_sigmayzz_0", "m_sigmaxyx_0"],
-            ["m_sigmaxzz_0", "m_sigmaxyy_0"],
+            ["", "m_sigmayzy_0", "m_sigmaxzx_0"],
+            ["m_sigmayzz_0", "", "m_sigmaxyx_0"],
+            ["m_sigmaxzz_0", "m_sigmaxyy_0", ""],
         ]
 
     elif ndim == 2:
@@ -2359,19 +2359,12 @@ def elastic_python(
 
         v_names = ["vy_0", "vx_0"]
         normal_s_names = ["sigmayy_0", "sigmaxx_0"]
-        shear_s_names = [
-            [
-                "sigmaxy_0",
-            ],
-        ]
+        # The diagonal has no shear component (and so no name)
+        shear_s_names = [["", "sigmaxy_0"], ["sigmaxy_0", ""]]
         v_mem_normal_names = ["m_vyy_0", "m_vxx_0"]
-        v_mem_shear_names = [
-            ["m_vyx_0", "m_vxy_0"],
-        ]
+        v_mem_shear_names = [["", "m_vyx_0"], ["m_vxy_0", ""]]
         s_mem_normal_names = ["m_sigmayyy_0", "m_sigmaxxx_0"]
-        s_mem_shear_names = [
-            ["m_sigmaxyx_0", "m_sigmaxyy_0"],
-        ]
+        s_mem_shear_names = [["", "m_sigmaxyx_0"], ["m_sigmaxyy_0", ""]]
 
     else:
         v_x = wavefields_flat[0]
@@ -2527,6 +2520,7 @@ def elastic_python(
                 callback_wavefields.update(
                     dict(zip(s_mem_shear_names[i], s_mem_vars_shear[i]))
                 )
+            callback_wavefields.pop("", None)
             forward_callback(
                 deepwave.common.CallbackState(
                     dt,
-- 
2.43.0


From 16df1781df7c9644e5b3bb7d082d7cafd41da6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 12/15] fix: 3D elastic callbacks got wrongly named models and
 gradients (the 2D names replaced the 3D ones)

---
 src/deepwave/elastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 8588e3f..cf1dfbd 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1483,6 +1483,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
@@ -1816,6 +1817,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
-- 
2.43.0


From e395821e98035a7148856f72a516755c40de3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 13/15] fix: elastic backward callbacks lacked m_sigmaxxx_0

---
 src/deepwave/elastic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index cf1dfbd..ca72cd8 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1929,9 +1929,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         )
 
                 if backward_callback is not None:
-                    callback_wavefields = dict(
-                        zip(wavefield_names, grad_wavefields[:-1])
-                    )
+                    callback_wavefields = dict(zip(wavefield_names, grad_wavefields))
                     backward_callback(
                         deepwave.common.CallbackState(
                             dt,
-- 
2.43.0


From 86f8d3c8bbc01fb3e8a6d39359083de1c242c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 14/15] fix: the CPU scalar Born backward_sc did not declare
 the last argument passed from Python

---
 src/deepwave/scalar_born.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/scalar_born.c b/src/deepwave/scalar_born.c
index ce76acd..24c7c1f 100644
--- a/src/deepwave/scalar_born.c
+++ b/src/deepwave/scalar_born.c
@@ -1088,7 +1088,7 @@ __declspec(dllexport)
 #if DW_NDIM >= 2
         int64_t const pml_y1,
 #endif
-        int64_t const pml_x1, int64_t const n_threads) {
+        int64_t const pml_x1, int64_t const n_threads, void *unused) {
 #if DW_NDIM == 3
   int64_t const n_grid_points = nz * ny * nx;
 #elif DW_NDIM == 2
-- 
2.43.0


From 90f975fd4fa58e5103e4ccc881c92b028f30a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 15/15] fix: compressing a block of very small values
 overflowed 127 / max_abs (NaN converted to a byte)

---
 src/deepwave/simple_compress.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/simple_compress.c b/src/deepwave/simple_compress.c
index ef3d20f..897ef35 100644
--- a/src/deepwave/simple_compress.c
+++ b/src/deepwave/simple_compress.c
@@ -91,8 +91,9 @@ void SC_FUNC(compress_cpu)(void const *const input, void *const output,
         size_t const block_idx = bz * nby * nbx + by * nbx + bx;
         max_abs_vals[block_idx] = max_abs;
 
-        DW_DTYPE const scale =
-            (max_abs > 0) ? ((DW_DTYPE)127.0 / max_abs) : 0;
+        /* Dividing by max_abs, rather than multiplying by 127 / max_abs, as the
+         * latter overflows when max_abs is very small */
+        DW_DTYPE const divisor = (max_abs > 0) ? max_abs : 1;
 
         /* Quantize */
 #if DW_NDIM >= 3
@@ -111,7 +112,9 @@ void SC_FUNC(compress_cpu)(void const *const input, void *const output,
 #endif
                   x;
               compressed[idx] =
-                  (uint8_t)((DW_DTYPE)128.0 + in_ptr[idx] * scale + (DW_DTYPE)0.5);
+                  (uint8_t)((DW_DTYPE)128.0 +
+                            in_ptr[idx] / divisor * (DW_DTYPE)127.0 +
+                            (DW_DTYPE)0.5);
             }
 #if DW_NDIM >= 2
           }
-- 
2.43.0


From ebad9dff53d48e312b7af349fba09f7f7458a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 01/17] fix: water parcels at the inlet row cannot be routed
 off the grid

---
 pyDeltaRCM/water_tools.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 786b4bb..2e69c42 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -659,8 +659,8 @@ def _get_weight_at_cell_water(
     weight = gamma * weight_sfc + (1 - gamma) * weight_int
     weight = ((depth_nbrs * mod_water_weight) ** theta) * weight
 
-    # enforce disallowed choice to not move
-    weight[ctr] = 0
+    # enforce disallowed choice to not move, or to move off the grid
+    weight[invalid] = 0
 
     # correct the weights for random choice
     if np.sum(weight) > 0:
@@ -685,10 +685,14 @@ def _get_weight_at_cell_water(
                 # no wet (and valid) neighbors. How did we get here??
                 #    Maybe by flooding corrections? Solution is to
                 #    allow to walk into any non-land cell, true random
-                nnotwall = np.sum(~wall)
+                #    (and not off-grid, unless there is no other choice)
+                notwall = ~wall
+                if np.any(~invalid):
+                    notwall = ~invalid
+                nnotwall = np.sum(notwall)
                 weight[:] = 0
                 if nnotwall > 0:
-                    weight[~wall] = 1 / nnotwall
+                    weight[notwall] = 1 / nnotwall
                 else:
                     raise RuntimeError(
                         "No non-wall cells surrounding cell. " "Please report error."
-- 
2.43.0


From 94acdad250af80e7d983de69c10baa661c011c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 02/17] fix: sediment parcels at the inlet row cannot be routed
 off the grid

---
 pyDeltaRCM/sed_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index a545be1..de0935d 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -266,6 +266,9 @@ def _get_weight_at_cell_sediment(
     """
     dry = depth_nbrs <= dry_depth
     wall = ct_nbrs == -2
+    if ind[0] == 0:
+        # cells upstream of the first row do not exist
+        wall[:3] = True
     ctr = np.arange(9) == 4
     drywall = np.logical_or(dry, wall)
 
-- 
2.43.0


From 2960a37b9cdfd053d87834d5016afb90b40b8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 03/17] fix: looped parcel at the transport origin uses its own
 location

---
 pyDeltaRCM/water_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 2e69c42..eee7897 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -978,6 +978,8 @@ def _check_for_loops(
                     Fw = np.sqrt(Fx**2 + Fy**2)
 
                     # relocate the parcel along mean-transport vector
+                    px = px0
+                    py = py0
                     if Fw != 0:
                         px = px0 + int(np.round(Fx / Fw * 5.0))
                         py = py0 + int(np.round(Fy / Fw * 5.0))
-- 
2.43.0


From 8e80f17196ae1118a41250a569c2cc3df872d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 04/17] fix: reject out-of-bounds indices in custom_ravel and
 custom_unravel

---
 pyDeltaRCM/shared_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/shared_tools.py b/pyDeltaRCM/shared_tools.py
index 8afb406..9278f11 100644
--- a/pyDeltaRCM/shared_tools.py
+++ b/pyDeltaRCM/shared_tools.py
@@ -281,7 +281,7 @@ def custom_unravel(i: int, shape: Tuple[int, int]) -> Tuple[int, int]:
         >>> custom_unravel(5124, _shape)
         (25, 124)
     """
-    if i > (shape[1] * shape[0]):
+    if i < 0 or i >= (shape[1] * shape[0]):
         raise IndexError("Index is out of array bounds")
     x = i // shape[1]
     y = i % shape[1]
@@ -327,7 +327,7 @@ def custom_ravel(tup: Tuple[int, int], shape: Tuple[int, int]) -> int:
         >>> custom_ravel((25, 124), _shape)
         5124
     """
-    if tup[0] > shape[0] or tup[1] > shape[1]:
+    if tup[0] < 0 or tup[1] < 0 or tup[0] >= shape[0] or tup[1] >= shape[1]:
         raise IndexError("Index is out of array bounds")
     x = tup[0] * shape[1]
     y = tup[1]
-- 
2.43.0


From 5e173d96d4181a56c2c00c9bfeba894465f57ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 05/17] fix: flooding correction considers only wet neighbors'
 stage

---
 pyDeltaRCM/water_tools.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index eee7897..d92fa24 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -543,16 +543,13 @@ class water_tools(abc.ABC):
         # indices of dry cells with wet neighbors
         shore_ind = np.where(wet_mask_nh_sum > 0)
 
-        stage_nhs = self.build_weight_array(self.stage)
+        stage_nhs = self.build_weight_array(self.stage, fix_edges=True)
         eta_shore = self.eta[shore_ind]
 
         for i in range(len(shore_ind[0])):
-            # pretends dry neighbor cells have stage zero
-            #    so they cannot be > eta_shore[i]
-            stage_nh = (
-                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]]
-                * stage_nhs[:, shore_ind[0][i], shore_ind[1][i]]
-            )
+            # use only the wet neighbor cells
+            wet_nh = wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]] > 0
+            stage_nh = stage_nhs[:, shore_ind[0][i], shore_ind[1][i]][wet_nh]
 
             if (stage_nh > eta_shore[i]).any():
                 self.stage[shore_ind[0][i], shore_ind[1][i]] = max(stage_nh)
-- 
2.43.0


From cb58d6a57294bb148f652aec8c749bd937096ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 06/17] fix: restore the time since last save without
 truncation

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 97c5407..86cb4ca 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -889,7 +889,7 @@ class init_tools(abc.ABC):
         self.H_SL = float(checkpoint["H_SL"])
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
-        self._save_time_since_data = int(checkpoint["save_time_since_data"])
+        self._save_time_since_data = float(checkpoint["save_time_since_data"])
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From 4309b57014f21c8c1dc42738b6504c01e6de618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 07/17] fix: disabling velocity figures removes the velocity
 figure

---
 pyDeltaRCM/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 3101242..64c70fa 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -723,7 +723,7 @@ class DeltaModel(
         elif (save_velocity_figs is False) and (
             "velocity" in self._save_fig_list.keys()
         ):
-            del self._save_fig_list["sedflux"]
+            del self._save_fig_list["velocity"]
         self._save_velocity_figs = save_velocity_figs
 
     @property
-- 
2.43.0


From 5df758eb023138af57521d72fe880fe3b415cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 08/17] fix: job configured by timesteps runs exactly that
 number of timesteps

---
 pyDeltaRCM/preprocessor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9246836..1c908a3 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -720,9 +720,14 @@ class _BaseJob(abc.ABC):
             self._time_type = "timesteps"
             self._time_config = config_dict["timesteps"]
 
-            # compute the end time
-            self._job_end_time = _curr_time + (
-                (config_dict["timesteps"] * self.deltamodel._dt)
+            # compute the end time, accumulating as the model clock does, so
+            #   that round-off cannot change the number of timesteps
+            _whole = int(config_dict["timesteps"])
+            self._job_end_time = _curr_time
+            for _ in range(_whole):
+                self._job_end_time = self._job_end_time + self.deltamodel._dt
+            self._job_end_time = self._job_end_time + (
+                (config_dict["timesteps"] - _whole) * self.deltamodel._dt
             )
 
         elif "time" in config_dict.keys():
-- 
2.43.0


From 1bea489955e85017ccea6b5404eae8f8ec0d27b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 09/17] fix: changing the bedload fraction updates the sediment
 routers

---
 pyDeltaRCM/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 64c70fa..5369515 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1488,6 +1488,7 @@ class DeltaModel(
     @bedload_fraction.setter
     def bedload_fraction(self, new_u0: float) -> None:
         self.f_bedload = new_u0
+        self.init_sediment_routers()
 
     @property
     def influx_sediment_concentration(self) -> float:
-- 
2.43.0


From 2e301e83684a8b630501e8836f33f7e42dc5f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:08 +0000
Subject: [PATCH 10/17] fix: accept an explicit null for parameters documented
 to accept None

---
 pyDeltaRCM/init_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 86cb4ca..c4704c9 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -137,7 +137,9 @@ class init_tools(abc.ABC):
         for k, v in default_dict.items():
             if k in user_dict:
                 expected_type = v["type"]
-                if type(user_dict[k]) in expected_type:
+                if (type(user_dict[k]) in expected_type) or (
+                    user_dict[k] is None and None in expected_type
+                ):
                     input_file_vars[k] = user_dict[k]
                 else:
                     raise TypeError(
@@ -167,7 +169,9 @@ class init_tools(abc.ABC):
                 else:
                     expected_type = [eval(_v) for _v in v["type"]]
                 # evaluate against expected types
-                if type(user_dict[k]) in expected_type:
+                if (type(user_dict[k]) in expected_type) or (
+                    user_dict[k] is None and None in expected_type
+                ):
                     input_file_vars[k] = user_dict[k]
                 else:
                     raise TypeError(
-- 
2.43.0


From 9b153bda292fbba416cc8b7545ae6458004c6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 11/17] fix: keep the variable attributes of the output file
 when resuming

---
 pyDeltaRCM/init_tools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index c4704c9..0252fcd 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -983,10 +983,18 @@ class init_tools(abc.ABC):
                             dst.groups[name].variables[vname][:] = src.groups[
                                 name
                             ].variables[vname][:]
+                            for attr in variable.ncattrs():
+                                dst.groups[name].variables[vname].setncattr(
+                                    attr, variable.getncattr(attr)
+                                )
                     # copy variables except ones to exclude
                     for name, variable in src.variables.items():
                         dst.createVariable(name, variable.datatype, variable.dimensions)
                         dst.variables[name][:] = src.variables[name][:]
+                        for attr in variable.ncattrs():
+                            dst.variables[name].setncattr(
+                                attr, variable.getncattr(attr)
+                            )
 
                 # set object attribute for model
                 self.output_netcdf = Dataset(file_path, "r+", format="NETCDF4")
-- 
2.43.0


From 8c4a693364743684c1cbc5de69d2169f3cbff0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:42 +0000
Subject: [PATCH 12/17] fix: order job table columns of set expansion as in its
 header

---
 pyDeltaRCM/preprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 1c908a3..b213a98 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -378,7 +378,10 @@ class BasePreprocessor(abc.ABC):
             ith_config["out_dir"] = ith_dir
 
             # loop through each var of this job
-            for j, (key, val) in enumerate(_set[i].items()):
+            #   in the order of the keys in the table header
+            for j, key in enumerate(_set[0].keys()):
+                val = _set[i][key]
+
                 # write info into fixed config dict
                 ith_config[key] = val
 
-- 
2.43.0


From a8f9a1a07f149d1fc51a93c2ba63f2ac31421b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:54 +0000
Subject: [PATCH 13/17] fix: command line and keyword run durations override
 the input file

---
 pyDeltaRCM/preprocessor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index b213a98..ebde904 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -38,6 +38,7 @@ class BasePreprocessor(abc.ABC):
     def __init__(self) -> None:
         """Initialize the base preprocessor."""
         self._input_file = None  # initialize empty
+        self._cli_dict = {}  # arguments given besides the input file
 
         self._has_ensemble = False
         self._has_set = False
@@ -610,6 +611,9 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if not (self._has_ensemble or self._has_set or self._has_matrix):
+                    # arguments take precedence over the input file
+                    job_config.update(self._cli_dict)
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -651,6 +655,9 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if not (self._has_ensemble or self._has_set or self._has_matrix):
+                    # arguments take precedence over the input file
+                    job_config.update(self._cli_dict)
 
                 p = _SerialJob(
                     i=i,
@@ -981,6 +988,7 @@ class PreprocessorCLI(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._cli_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
@@ -1148,6 +1156,7 @@ class Preprocessor(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._cli_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
-- 
2.43.0


From a7bf278a1f2624c986cd7e6e04c6ff60286e0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:16 +0000
Subject: [PATCH 14/17] fix: call hook_load_checkpoint before a parallel job
 loads its checkpoint

---
 pyDeltaRCM/preprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index ebde904..a2ce372 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -898,6 +898,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                 if self.deltamodel.resume_checkpoint:
                     # here we set defer output to false when loading the
                     #   checkpoint on this thread
+                    self.deltamodel.hook_load_checkpoint()
                     self.deltamodel.load_checkpoint(defer_output=False)
                 else:
                     # infrastructure deferred, need to trigger manually
-- 
2.43.0


From 798c7d36b5d2546e02a0cc58024041bbd30fb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:16 +0000
Subject: [PATCH 15/17] fix: changing the time step updates the topographic
 diffusion multiplier

---
 pyDeltaRCM/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 5369515..7dc4ab3 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1392,6 +1392,9 @@ class DeltaModel(
             self.sigma = (self.sigma / self._dt) * new_time_step
 
         self._dt = new_time_step
+        self.diffusion_multiplier = (
+            self._dt / self.N_crossdiff * self._alpha * 0.5 / self._dx**2
+        )
         self.init_sediment_routers()
 
     @property
-- 
2.43.0


From 17a2e39840108a71fe1c4e71a10766cc0dfa3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:16 +0000
Subject: [PATCH 16/17] fix: subsidence follows the time step when boundary
 conditions change

---
 pyDeltaRCM/model.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 7dc4ab3..d2fdae9 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1424,6 +1424,14 @@ class DeltaModel(
         """Number of times data has been saved."""
         return self._save_iter
 
+    def _update_boundary_conditions(self) -> None:
+        """Update derived boundary conditions after a parameter change."""
+        old_dt = self._dt
+        self.create_boundary_conditions()
+        if self.toggle_subsidence:
+            self.sigma = (self.sigma / old_dt) * self._dt
+        self.init_sediment_routers()
+
     @property
     def channel_flow_velocity(self) -> float:
         """Get channel flow velocity."""
@@ -1432,8 +1440,7 @@ class DeltaModel(
     @channel_flow_velocity.setter
     def channel_flow_velocity(self, new_u0: float) -> None:
         self.u0 = new_u0
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def channel_width(self) -> float:
@@ -1443,8 +1450,7 @@ class DeltaModel(
     @channel_width.setter
     def channel_width(self, new_N0_meters: float) -> None:
         self.N0_meters = new_N0_meters
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
         if self.channel_width != new_N0_meters:
             warnings.warn(
                 UserWarning(
@@ -1462,8 +1468,7 @@ class DeltaModel(
     @channel_flow_depth.setter
     def channel_flow_depth(self, new_d) -> None:
         self.h0 = new_d
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def sea_surface_mean_elevation(self) -> float:
@@ -1501,8 +1506,7 @@ class DeltaModel(
     @influx_sediment_concentration.setter
     def influx_sediment_concentration(self, new_C0: float) -> None:
         self.C0_percent = new_C0 * 100
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def sea_surface_elevation(self):
-- 
2.43.0


From f2cbb18a157a89e87bb8a59917d0cade0e4bd27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:25 +0000
Subject: [PATCH 17/17] fix: a resumed run keeps the checkpoint interval

---
 pyDeltaRCM/init_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 0252fcd..2038cd0 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -894,6 +894,7 @@ class init_tools(abc.ABC):
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
         self._save_time_since_data = float(checkpoint["save_time_since_data"])
+        self._save_time_since_checkpoint = 0  # the checkpoint loaded
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From ca04a6ddc96314386634e5f954662656947b51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 01/22] fix: measure derived parameters of the first devices of
 every chip and lot

The slice [:][:][:n] truncated the lot axis, so measuring fewer derived values than simulated devices dropped lots or
failed to broadcast.
---
 gerabaldi/models/devices.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8c09506..9897937 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1181,7 +1181,9 @@ class CircPrmMdl(LatentMdl):
             elif arg in degraded_prm_vals:
                 arg_vals[arg] = degraded_prm_vals[arg]
 
-        return self.compute(**arg_vals)[:][:][:num_samples]
+        # Only the requested number of devices on each chip are computed, arrays are indexed lot->chp->dev
+        arg_vals = {arg: val[:, :, :num_samples] for arg, val in arg_vals.items()}
+        return self.compute(**arg_vals)
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From 072f5d19a2003fd1fc035d02cb78ddb6000c9549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 02/22] fix: generate initial state for parameters that are not
 measured

The default sample count was set after its first use, so a model with an unmeasured parameter raised a KeyError.
---
 gerabaldi/models/devices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 9897937..3558892 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1307,16 +1307,16 @@ class DeviceMdl:
         """
         latents, init_mech_vals, init_prm_vals = {}, {}, {}
         for prm in self.prm_mdl_list:
+            # In case the parameter is not directly measured and instead used in calculating other parameters,
+            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
+            if prm not in sample_counts:
+                sample_counts[prm] = max(sample_counts.values())
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_mech_vals[prm] = self.prm_mdl(prm).gen_init_mech_vals(sample_counts[prm], num_chps, num_lots)
             # Then initialize the un-aged values for the device parameters
-            # In case the parameter is not directly measured and instead used in calculating other parameters,
-            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
-            if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_prm_vals[prm] = self.prm_mdl(prm).init_mdl.gen_init_vals(sample_counts[prm], num_chps, num_lots)
         # Return a simulation state containing all the generated initial information about the devices to be tested
-- 
2.43.0


From 9d080c560c10830fbed84a29205ba309be11594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 03/22] fix: accept the stress time in the default mechanism
 equation

Mechanism equations are always called with the stress time, so the default non-degrading mechanism raised a TypeError.
---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 3558892..62b2fc1 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -373,7 +373,7 @@ class MechMdl(LatentMdl):
     ):
         if not mech_eqn:
             # Default is a non-degrading model, parameter stays the same (i.e. 'fresh') regardless of stress and time
-            def no_wear_out():
+            def no_wear_out(time):
                 return unitary_val
 
             mech_eqn = no_wear_out
-- 
2.43.0


From d733354f7593e9c60d4aea1c05c04de22194a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 04/22] fix: honour a test seed of 0

---
 gerabaldi/models/random_vars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 3944970..a809aec 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -30,7 +30,7 @@ class RandomVar:
         if dist_type:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
-        if test_seed:
+        if test_seed is not None:
             self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
         else:
             self._generator = getattr(np.random.default_rng(), self._dist_type)
-- 
2.43.0


From e26488700144a772bd064a0b4ae3c240fc5c2f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 05/22] fix: restore a distribution centre of 0 after CBI
 export

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 62b2fc1..47a22fb 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -246,7 +246,7 @@ class LatentVar:
             else:
                 cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre:
+            if old_centre is not None:
                 self.dev_vrtn_mdl.set_centre(old_centre)
             return cbi_dist
         else:
-- 
2.43.0


From 8857912bf69d9488cdd78c27f699eb0e7f8e60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 06/22] fix: recentre on a deterministic value of 0 in CBI
 export

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 47a22fb..5596d84 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -220,7 +220,7 @@ class LatentVar:
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
             old_centre = None
-            if self.deter_val:
+            if self.deter_val is not None:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
                 old_centre = self.dev_vrtn_mdl.get_centre()
-- 
2.43.0


From f36036b957c615ff2ed798936147c0999de86f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 07/22] fix: recentre with a numeric operation when exporting
 to pyro

torch.multiply and torch.add do not accept two plain numbers.
---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 5596d84..82a9e16 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -224,7 +224,7 @@ class LatentVar:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
                 old_centre = self.dev_vrtn_mdl.get_centre()
-                self.dev_vrtn_mdl.set_centre(self.deter_val, op)
+                self.dev_vrtn_mdl.set_centre(self.deter_val, self._op)
 
             # Normal probabilistic model export, only incorporate the stochastic layers if used
             if self._chp_vrtns and self._lot_vrtns:
-- 
2.43.0


From 7b95bb0b8e262455cf624211e9206f0dc1a05666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 08/22] fix: replace the default coloured stream handler

The default handler is a subclass of logging.StreamHandler and was not recognised, so a custom stream handler was added
next to it.
---
 gerabaldi/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 09af102..6de75ad 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -77,9 +77,9 @@ def configure_logger(
     existing_stream_handler = None
     existing_file_handler = None
     for handler in logger.handlers:
-        if type(handler) is logging.StreamHandler and type(handler) is not logging.FileHandler:
+        if isinstance(handler, logging.StreamHandler) and not isinstance(handler, logging.FileHandler):
             existing_stream_handler = handler
-        elif type(handler) is logging.FileHandler:
+        elif isinstance(handler, logging.FileHandler):
             existing_file_handler = handler
 
     # If the user provided a custom stream handler, remove the default one, add the custom one
-- 
2.43.0


From 48343820b7b5a03c7f0c9e592443a50bdb88f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 09/22] fix: apply a logging level of NOTSET

---
 gerabaldi/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 6de75ad..a0a7a5c 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -70,7 +70,7 @@ def configure_logger(
     """
     logger = logging.getLogger('gerabaldi')
     # If the user has provided a global logging level, set accordingly
-    if logging_level:
+    if logging_level is not None:
         logger.setLevel(logging_level)
 
     # Identify any existing logging output handlers based on their types
-- 
2.43.0


From 351bcc8e3f357c481500dd6e810725c7ba8753ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 10/22] fix: do not append test steps to the list the user
 passed in

---
 gerabaldi/models/test_specs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/test_specs.py b/gerabaldi/models/test_specs.py
index ac854d1..099b124 100644
--- a/gerabaldi/models/test_specs.py
+++ b/gerabaldi/models/test_specs.py
@@ -133,7 +133,7 @@ class TestSpec:
         """
         if sequential_steps is None:
             sequential_steps = []
-        self.steps = sequential_steps
+        self.steps = list(sequential_steps)
         self.num_chps = num_chps
         self.num_lots = num_lots
         self.description = description
-- 
2.43.0


From 1aaf8690715cc8227a899af489e35a2309aec71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 11/22] fix: keep physical times when exporting or converting a
 converted report

Times that were already numbers were treated as time deltas to create, so exports after convert_report_time and repeated
conversions held wrong times.
---
 gerabaldi/models/reports.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 1aab807..cb18870 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -201,7 +201,7 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+        meas_cpy['time'] = meas_cpy['time'].apply(lambda time: _convert_time(self._as_timedelta(time), units))
         report_json['Measurements'] = meas_cpy.to_json()
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
@@ -226,5 +226,10 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        times = self.measurements['time'].apply(self._as_timedelta)
         self.time_unit = units
-        self.measurements['time'] = self.measurements['time'].apply(lambda time: _convert_time(time, self.time_unit))
+        self.measurements['time'] = times.apply(lambda time: _convert_time(time, self.time_unit))
+
+    def _as_timedelta(self, time: timedelta | float) -> timedelta:
+        # Times are raw numbers in the report's time unit once they were converted
+        return time if isinstance(time, timedelta) else _convert_time(time, self.time_unit)
-- 
2.43.0


From c5b5afcee87c72c359485b514199a4871d63ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 12/22] fix: export report numbers with full precision

The default of 10 decimal places loses small measured values and short times.
---
 gerabaldi/models/reports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index cb18870..bc82fbe 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -202,12 +202,12 @@ class SimReport:
 
         meas_cpy = self.measurements.copy()
         meas_cpy['time'] = meas_cpy['time'].apply(lambda time: _convert_time(self._as_timedelta(time), units))
-        report_json['Measurements'] = meas_cpy.to_json()
+        report_json['Measurements'] = meas_cpy.to_json(double_precision=15)
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
         strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
         strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
-        report_json['Test Summary'] = strs_cpy.to_json()
+        report_json['Test Summary'] = strs_cpy.to_json(double_precision=15)
 
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
-- 
2.43.0


From 7874925df44109a614b6feaed9ec4b9bace4c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 13/22] fix: report a measurement of an undefined parameter as
 MissingParamError

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 58b006d..2fc5d4e 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -444,7 +444,7 @@ class PhysTestEnv:
                 cond_vals[prm] = {}
                 for cond in depend_conds:
                     cond_vals[prm][cond] = self.vrtn_mdl(cond).gen_dev_vrtns(chip[cond], dev_counts[prm])
-            else:
+            elif prm in base_vals:
                 # If the parameter isn't a device parameter then it must be one of the environmental conditions itself,
                 # which since is not specified as part of the device model is assumed to be measured by a sensor(s) in
                 # the test environment. We therefore treat each condition measurement sensor as a separate chip+device
-- 
2.43.0


From 9372d4b63bcfc2a8a04b1ad7cd4c416d741e870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 14/22] fix: measure a numpy float as a single number

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 2fc5d4e..1668595 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -93,7 +93,7 @@ class MeasInstrument:
         # Convert the measured values back into the passed data type
         if rtrn_type == np.ndarray:
             meas_vals = np.array(meas_vals)
-        elif rtrn_type is int or rtrn_type is float:
+        elif isinstance(true_vals, (int, float)):
             meas_vals = meas_vals[0]
         return meas_vals
 
-- 
2.43.0


From c47b72be8522ffc3e67eb5fe01a3794a2f28500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 15/22] fix: simulate as many devices as a provided initial
 state holds

The counts came from the measurements alone, so parameters that are not measured directly or by every device failed.
---
 gerabaldi/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d35eb2b..c741d6e 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -223,6 +223,10 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    if init_state:
+        # The number of simulated devices is determined by the provided state
+        for prm in sim_state.curr_prm_vals:
+            test_report.dev_counts[prm] = sim_state.curr_prm_vals[prm].shape[2]
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From 3c3267979fcf455ee8c928d5b6c725fb44ff17a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 16/22] fix: accept a numeric elapsed time for the initial
 state

A number (hours, as everywhere) could not be added to the step durations.
---
 gerabaldi/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index c741d6e..2c61709 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -82,7 +82,8 @@ def gen_init_state(
     # Now initialize the physical state and override the elapsed time if specified
     init_state = dev_mdl.gen_init_state(devs, chps, lots)
     if elapsed_time != 0:
-        init_state.elapsed = elapsed_time
+        is_timedelta = isinstance(elapsed_time, timedelta)
+        init_state.elapsed = elapsed_time if is_timedelta else _convert_time(elapsed_time, None)
     return init_state
 
 
-- 
2.43.0


From 6ce4e7c8ad69a41817072f9308ece3c9dc7284d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:41 +0000
Subject: [PATCH 17/22] fix: degrade mechanisms with small time units for any
 test length

The limit that marks samples as not degrading was a plain number of mechanism time units, so a mechanism in microseconds
stopped degrading or failing after three hours.
---
 gerabaldi/models/devices.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 82a9e16..f815e6b 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,13 +7,14 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from datetime import timedelta
 from typing import Callable
 
 from gerabaldi.math import minimize
 from gerabaldi.models.random_vars import RandomVar, Deterministic
 from gerabaldi.models.states import SimState
 from gerabaldi.exceptions import InvalidTypeError, UserConfigError
-from gerabaldi.helpers import logger, _on_demand_import, _loop_compute
+from gerabaldi.helpers import logger, _convert_time, _on_demand_import, _loop_compute
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
 pymc = _on_demand_import('pymc')
@@ -406,6 +407,10 @@ class MechMdl(LatentMdl):
     def calc_equiv_strs_time(self, deg_val, init_val, strs_conds, latents, dims):
         raise NotImplementedError('Mechanism does not define how to compute value changes under time-varying stress')
 
+    def _max_equiv_time(self) -> float:
+        # The longest equivalent stress time that is searched for is 10^10 hours, in the time unit of the mechanism
+        return 1e10 * _convert_time(timedelta(hours=1), self.time_unit)
+
     def set_time_unit(self, prm_time_unit: str = None) -> None:
         if self.time_unit is None:
             if prm_time_unit is None:
@@ -441,7 +446,7 @@ class MechMdl(LatentMdl):
         """
         # To support degradation mechanisms that exhibit threshold behaviours, we first identify whether some samples
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
-        no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
+        no_deg_mask = np.where(times > 0.9 * self._max_equiv_time(), pre_deg_vals, np.inf)
 
         # Add the stress time to the argument dict
         arg_vals = {'time': times}
@@ -549,7 +554,7 @@ class DegMechMdl(MechMdl):
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
         return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, 1e10), maxiter=50, log_gold=True)
+                        bounds=(1e-3, self._max_equiv_time()), maxiter=50, log_gold=True)
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From 98eefa4f34c3f7c8697a81df635e183cf273f5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:20 +0000
Subject: [PATCH 18/22] fix: simulate tests without any measurement step

With no requested samples there is nothing to take the maximum of when choosing how many devices to
initialise, so simulate raised a ValueError instead of executing the test.
---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index f815e6b..bd5570d 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1315,7 +1315,7 @@ class DeviceMdl:
             # In case the parameter is not directly measured and instead used in calculating other parameters,
             # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
             if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
+                sample_counts[prm] = max(sample_counts.values(), default=1)
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
-- 
2.43.0


From f09afa286b6e7688278eb939a32492aa29e60c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:35 +0000
Subject: [PATCH 19/22] fix: name the distributions of a latent variable again
 when a layer changes

---
 gerabaldi/models/devices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index bd5570d..c7bbc05 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -164,6 +164,9 @@ class LatentVar:
             if not self._lot_vrtns:
                 value = Deterministic(self._unitary)
         super().__setattr__(name, value)
+        # The distribution names depend on which layers are defined, thus update them whenever a layer changes
+        if name in ['dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl'] and getattr(self, 'name', None) is not None:
+            self.name = self.name
 
     def gen_latent_vals(self, num_devs: int = 1, num_chps: int = 1, num_lots: int = 1) -> np.ndarray:
         """
-- 
2.43.0


From 572cb9658c1f7faf169da5d577da8c6e86caae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:53 +0000
Subject: [PATCH 20/22] Revert "fix: do not append test steps to the list the
 user passed in"

This reverts commit 351bcc8e3f357c481500dd6e810725c7ba8753ef.
---
 gerabaldi/models/test_specs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/test_specs.py b/gerabaldi/models/test_specs.py
index 099b124..ac854d1 100644
--- a/gerabaldi/models/test_specs.py
+++ b/gerabaldi/models/test_specs.py
@@ -133,7 +133,7 @@ class TestSpec:
         """
         if sequential_steps is None:
             sequential_steps = []
-        self.steps = list(sequential_steps)
+        self.steps = sequential_steps
         self.num_chps = num_chps
         self.num_lots = num_lots
         self.description = description
-- 
2.43.0


From 0ea1cff3de9211801d36d65e8875e1f3db326265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:12 +0000
Subject: [PATCH 21/22] fix: use a variation model or instrument registered
 under several names for all of them

---
 gerabaldi/models/phys_envs.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 1668595..de93231 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -326,24 +326,26 @@ class PhysTestEnv:
         self.name = env_name
         # Non-mutable default argument setup
         if env_vrtns is None:
-            env_vrtns = []
+            env_vrtns = {}
         elif type(env_vrtns) is dict:
-            # If passed as a dictionary, set the object names and transform to list
+            # If passed as a dictionary, set the object names
             for prm in env_vrtns:
                 env_vrtns[prm].name = prm
-            env_vrtns = [env_vrtns[prm] for prm in env_vrtns]
+        else:
+            env_vrtns = {vrtn.name: vrtn for vrtn in env_vrtns}
         if meas_instms is None:
-            meas_instms = []
+            meas_instms = {}
         elif type(meas_instms) is dict:
             for prm in meas_instms:
                 meas_instms[prm].name = prm
-            meas_instms = [meas_instms[prm] for prm in meas_instms]
+        else:
+            meas_instms = {instm.name: instm for instm in meas_instms}
 
         # Create attributes for each parameter
         for prm in env_vrtns:
-            setattr(self, prm.name + '_var', prm)
+            setattr(self, prm + '_var', env_vrtns[prm])
         for prm in meas_instms:
-            setattr(self, prm.name + '_instm', prm)
+            setattr(self, prm + '_instm', meas_instms[prm])
 
     def meas_instm(self, prm: str) -> MeasInstrument:
         """
-- 
2.43.0


From 05e66b77bd760ae446a174e818c019e2d360b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:44 +0000
Subject: [PATCH 22/22] fix: evaluate equations that raise TypeError for arrays
 device by device

Equations using functions of the math module raise TypeError instead of
ValueError when called with an array.
---
 gerabaldi/models/devices.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index c7bbc05..94f3896 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -462,7 +462,7 @@ class MechMdl(LatentMdl):
         # Calculate the degradation for all samples
         try:
             deg_vals = self.compute(**arg_vals)
-        except ValueError:
+        except (ValueError, TypeError):
             deg_vals = _loop_compute(self.compute, arg_vals, dims)
 
         # Overwrite the calculated degradation for the samples that we knew wouldn't degrade to the previous values
@@ -552,7 +552,7 @@ class DegMechMdl(MechMdl):
             # Calculate the degradation for the sample
             try:
                 return abs(curr_deg_val - self.compute(**arg_vals))
-            except ValueError:
+            except (ValueError, TypeError):
                 return abs(curr_deg_val - _loop_compute(self.compute, arg_vals, dims))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
@@ -734,7 +734,7 @@ class CondShiftMdl(LatentMdl):
                 arg_vals[arg] = strs_conds[arg]
         try:
             return self.compute(**arg_vals)
-        except ValueError:
+        except (ValueError, TypeError):
             return _loop_compute(self.compute, arg_vals, dims)
 
 
@@ -1047,7 +1047,7 @@ class DegPrmMdl(LatentMdl):
         # Now compute the parameter values using all the calculated mechanism and conditional shift values
         try:
             prm_vals = self.compute(**arg_vals)
-        except ValueError:
+        except (ValueError, TypeError):
             prm_vals = _loop_compute(self.compute, arg_vals, strs_dims)
         return prm_vals, mech_vals
 
@@ -1096,7 +1096,7 @@ class DegPrmMdl(LatentMdl):
         # Now compute the parameter values
         try:
             return self.compute(**arg_vals)
-        except ValueError:
+        except (ValueError, TypeError):
             return _loop_compute(self.compute, arg_vals, meas_dims)
 
     def get_dependencies(self, conditions, target):
-- 
2.43.0


From 424724c8e0e8e5b5d120291e2c1853717721f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:14 +0000
Subject: [PATCH 01/16] fix: numeric heat exchanger reads the port conductivity
 from its own cell

The differential got the two-column fluid view of the conductivity, while
the port indices address the flattened three-column grid: the port
conductance used the value of another cell or read out of bounds.
---
 multisim/parts/hex_num.py |  2 +-
 multisim/precomp_funs.py  | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/multisim/parts/hex_num.py b/multisim/parts/hex_num.py
index 30cef0c..0aa1142 100644
--- a/multisim/parts/hex_num.py
+++ b/multisim/parts/hex_num.py
@@ -580,7 +580,7 @@ class HexNum(SimEnv):
             '_dm_port',
             'res_dm',  # flows
             '_cp_T',
-            '_lam_fld',
+            '_lam_T',
             '_rho_T',
             '_ny_T',
             '_lam_mean',
diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 84c2197..54b2234 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -2601,7 +2601,7 @@ def hexnum_diff(
     dm_port,
     res_dm,  # flows
     cp_T,
-    lam_fld,
+    lam_T,
     rho_T,
     ny_T,
     lam_mean,
@@ -2649,6 +2649,7 @@ def hexnum_diff(
     # generate views needed to make calculations easier:
     T_sup = T_ext[1:-1, 1]  # view to supply side
     T_dmd = T_ext[1:-1, 3]  # view to demand side
+    lam_fld = lam_T[:, ::2]  # view to fluid columns
     # T_wll = T_ext[1:-1, 2]  # view to wall temperature
     dm_sup = dm_io[:1]  # view to supply side massflow
     dm_dmd = dm_io[1:]  # view to demand side massflow
@@ -2736,7 +2737,7 @@ def hexnum_diff(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
@@ -3005,7 +3006,7 @@ def hexnum_diff_impl(
     dm_port,
     res_dm,  # flows
     cp_T,
-    lam_fld,
+    lam_T,
     rho_T,
     ny_T,
     lam_mean,
@@ -3046,6 +3047,7 @@ def hexnum_diff_impl(
     # generate views needed to make calculations easier:
     T_sup = T_ext[1:-1, 1]  # view to supply side
     T_dmd = T_ext[1:-1, 3]  # view to demand side
+    lam_fld = lam_T[:, ::2]  # view to fluid columns
     # T_wll = T_ext[1:-1, 2]  # view to wall temperature
     dm_sup = dm_io[:1]  # view to supply side massflow
     dm_dmd = dm_io[1:]  # view to demand side massflow
@@ -3131,7 +3133,7 @@ def hexnum_diff_impl(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
-- 
2.43.0


From 013eae52966937144cb7b80fe347d0373e7faec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:07 +0000
Subject: [PATCH 02/16] fix: record the mass flows of three-way connectors and
 heat exchangers

Their massflow result arrays stayed zero over the whole simulation.
---
 multisim/parts/connector_3w.py  | 3 +++
 multisim/parts/heatexchanger.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/multisim/parts/connector_3w.py b/multisim/parts/connector_3w.py
index 8be42a2..c5d149f 100644
--- a/multisim/parts/connector_3w.py
+++ b/multisim/parts/connector_3w.py
@@ -426,6 +426,9 @@ class Connector3w(SimEnv):
             containing no mass.
         """
 
+        # save massflow to results grid:
+        self.res_dm[self.stepnum] = self._dm_io
+
         _solve_connector_3w(
             T=self.T,
             ports_all=self._models.ports_all,
diff --git a/multisim/parts/heatexchanger.py b/multisim/parts/heatexchanger.py
index 90910b4..b41dee9 100644
--- a/multisim/parts/heatexchanger.py
+++ b/multisim/parts/heatexchanger.py
@@ -1141,6 +1141,9 @@ class HeatExchanger(SimEnv):
     def solve(self, timestep):
         #        if self.name == 'Hex_Zirk':
         #            self.A_plate_eff = self.A_hex_total
+        # save massflow to results grid:
+        self.res_dm[self.stepnum] = self._dm_io
+
         _pf.solve_platehex(
             T=self.T,
             T_port=self._T_port,
-- 
2.43.0


From 21a937f1bc5e5382d972e5c99cf0c2b908a93e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:43 +0000
Subject: [PATCH 03/16] fix: step growth never exceeds max_factor after the
 recovery steps

---
 multisim/simenv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index fc4e648..ce31695 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4162,7 +4162,10 @@ class SimEnv:
                                 * err_rms ** (-1 / (self.__order + 1))
                             ),
                         )
-                        * (self._steps_since_fail / self._fctr_rec_stps) ** 2,
+                        # gradual release, fully lifted after the recovery
+                        # steps (must not exceed the maximum factor):
+                        * min(1, self._steps_since_fail / self._fctr_rec_stps)
+                        ** 2,
                     )
                     # check if step is not above max step:
                     if _h > self.__max_stepsize:
-- 
2.43.0


From de28acc7e83385741dd8ba1e09416a27d6b3c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:52 +0000
Subject: [PATCH 04/16] fix: heat exchanger effectiveness at exactly 100
 transfer units

---
 multisim/precomp_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 54b2234..06abaf8 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3501,7 +3501,7 @@ def solve_platehex(
             R_sup != 1 and rs_ntus < 100  # heat cap flow ratio not 1 and valid
         ):  # range for exp
             P_sup = (1 - np.exp(rs_ntus)) / (1 - R_sup * np.exp(rs_ntus))
-        elif rs_ntus > 100:  # if exp in not-defined range
+        elif rs_ntus >= 100:  # if exp in not-defined range
             P_sup = 1 / R_sup  # largely only depending on 1/R
             # above a specific value. for float64 everything above around
             # 50 to 100 is cut of due to float precision and quite exactly
-- 
2.43.0


From 578781e0a48193b395705dcb8841e2e3862427d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:48 +0000
Subject: [PATCH 05/16] fix: discrete PID controllers obey `invert`

---
 multisim/parts/controllers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 691996b..fb1674d 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -420,9 +420,8 @@ class PID(Controls):
                         self.error - 2 * self.prev_error + self.prev2_error
                     )
                 # calculate new control variable with velocity algorithm:
-                self.cv = (
-                    self._prev_cv_lim
-                    + self.kp * (self.error - self.prev_error)
+                self.cv = self._prev_cv_lim + self._invert * (
+                    self.kp * (self.error - self.prev_error)
                     + self.ki * timestep * self.error
                     + self.kd / timestep * self._deriv
                 )
@@ -446,7 +445,7 @@ class PID(Controls):
                     self._deriv = self.error - self.prev_error
                 # if no integral term, use standard discrete P/PD algorithm
                 # with euler backwards differentiation for derivate term:
-                self.cv = (
+                self.cv = self._invert * (
                     self.kp * self.error + self.kd / timestep * self._deriv
                 )
             # clip cv value to saturation:
-- 
2.43.0


From e9c2d2400e4c1d19c84e0a2d93886382ec3e41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:48 +0000
Subject: [PATCH 06/16] fix: set point difference to a reference part is read
 from `ref_SP_diff`

---
 multisim/controls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 3aeb346..37a0e31 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -295,7 +295,7 @@ class Controls:
             assert 'ref_SP_diff' in kwargs and isinstance(
                 kwargs['ref_SP_diff'], (int, float)
             ), err_str
-            self._ref_diff = float(kwargs['difference_to_ref'])
+            self._ref_diff = float(kwargs['ref_SP_diff'])
 
         # ---> CHECK CTRL ALGORITHMS
         # check if actuator definetely needs a special control (all actuators
-- 
2.43.0


From ea3191715f1f065dcbfc5ccafc8abd3a35ccceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:48 +0000
Subject: [PATCH 07/16] fix: controller dead time shorter than the time step
 does not extrapolate

---
 multisim/precomp_funs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 06abaf8..9ca7c2b 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3688,11 +3688,9 @@ def ctrl_deadtime(
     # until next step, thus can be reused if no new value is found)
     # if a new value has reached deadtime delay in only one step:
     if dt_idx == 0:
-        # interpolate delayed pv from previous pv, new pv and
-        # expired time and time between prev. and new pv:
-        delayed_pv = delayed_pv + (pv_arr[0] - delayed_pv) / (deadtime) * (
-            dt_arr[0]
-        )
+        # interpolate delayed pv between previous pv (measured dt_arr[0]
+        # seconds ago, that is before the deadtime) and current pv:
+        delayed_pv = pv[0] + (pv_arr[0] - pv[0]) / dt_arr[0] * deadtime
     # if a new value has reached deadtime delay after more than
     # one step:
     elif dt_idx > 0:
-- 
2.43.0


From 48fa9aaa31608a3c1f5c998b859321280aadb180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:31 +0000
Subject: [PATCH 08/16] fix: inverted two-position controllers hold their
 output between the switching points

---
 multisim/parts/controllers.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index fb1674d..7101ddb 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -533,6 +533,7 @@ class BangBang(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
+        switched = True
         if self.pv < (self.sp - self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._off_state  # switch off (to off state)
@@ -543,9 +544,12 @@ class BangBang(Controls):
                 self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
             else:
                 self.cv = self._off_state  # switch off (to off state)
+        else:
+            switched = False  # CV is held
 
-        # allow direction inversion:
-        self._cv_invert()
+        # allow direction inversion (a held CV is already inverted):
+        if switched:
+            self._cv_invert()
 
         # check if controller is depending on another controller:
         self._subcontroller_check()
@@ -635,23 +639,29 @@ class TwoSensors(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
+        switched = False
         # controller activation
         if self._act_sgn == 'le':
             if self.on_sensor_val[0] < self._act_val:
                 self.cv = self._cv_sat_max
+                switched = True
         else:  # if greater
             if self.on_sensor_val[0] > self._act_val:
                 self.cv = self._cv_sat_max
+                switched = True
         # controller deactivation
         if self._deact_sgn == 'ge':
             if self.pv[0] > self.sp[0]:
                 self.cv = self._off_state
+                switched = True
         else:  # if lesser
             if self.pv[0] < self.sp[0]:
                 self.cv = self._off_state
+                switched = True
 
-        # allow direction inversion:
-        self._cv_invert()
+        # allow direction inversion (a held CV is already inverted):
+        if switched:
+            self._cv_invert()
 
         # check if controller is depending on another controller:
         self._subcontroller_check()
-- 
2.43.0


From e4493fb7434ffa1b6f0a819f5b4eec898a94c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:55 +0000
Subject: [PATCH 09/16] fix: dynamic boundary conditions start with their first
 value

---
 multisim/simenv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index ce31695..f212dd6 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1556,6 +1556,8 @@ class SimEnv:
         # add BC to dynamic BC tuple with target array view in the first
         # position and values of time_series in the second position:
         self._dyn_BC += ((trgt_arr_view, time_series.values),)
+        # start with the first element of the time series:
+        trgt_arr_view[0] = time_series.values[0]
 
     def _initialize_dynamic_BC(self):
         """
-- 
2.43.0


From 05be02129710138fc7428681f61a263f99da9f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:55 +0000
Subject: [PATCH 10/16] fix: time series for three-way valve pipes set the
 valve opening

---
 multisim/parts/pipe_with_valve.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/pipe_with_valve.py b/multisim/parts/pipe_with_valve.py
index 57a12d2..ac899b7 100644
--- a/multisim/parts/pipe_with_valve.py
+++ b/multisim/parts/pipe_with_valve.py
@@ -183,7 +183,15 @@ class PipeWith3wValve(Pipe):
         self._pf_arr_init = self.pf_arr.copy()  # bkp for re-initializing
 
         # initialize the actuator
-        self._initialize_actuator(**kwargs)
+        self._initialize_actuator(variable_name='pf_arr', **kwargs)
+        # a time series for port A also defines the opening of port B:
+        if not self.control_req and 'time_series' in kwargs:
+            self._models.assign_boundary_cond(
+                time_series=1 - kwargs['time_series'],
+                part=self.name,
+                variable_name='pf_arr',
+                array_index=1,
+            )
 
         # expand const var to other ports:
         self._actuator_CV[1] = 1 - self._actuator_CV[0]
-- 
2.43.0


From b7c4207857a4221145dd654bc9e12cdcc9bf23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:21 +0000
Subject: [PATCH 11/16] fix: enlarging the result arrays keeps all arrays and
 references consistent

---
 multisim/simenv.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index f212dd6..e670ca3 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5302,29 +5302,31 @@ class SimEnv:
             self._solver_state = np.append(
                 self._solver_state, arr_to_append, axis=0
             )
-            # loop over parts:
-            for part in self.parts:
-                # for all parts:
-                self.parts[part].res_dm = np.append(
-                    self.parts[part].res_dm,
-                    np.zeros(
-                        (
-                            self.__base_num_steps,
-                            self.parts[part].res_dm.shape[1],
+            # loop over parts and all of their result arrays:
+            for part in self.parts.values():
+                for name in (
+                    'res',
+                    'res_dm',
+                    'res_dQ',
+                    'res_Pel',
+                    'res_Pgas',
+                    '_chp_state',
+                ):
+                    arr = getattr(part, name, None)
+                    if arr is not None:
+                        enlarged = np.zeros(
+                            (self.__base_num_steps,) + arr.shape[1:]
+                        )
+                        setattr(
+                            part, name, np.append(arr, enlarged, axis=0)
                         )
-                    ),
-                    axis=0,
-                )
-                self.parts[part].res = np.append(
-                    self.parts[part].res,
-                    np.zeros(
-                        (self.__base_num_steps, self.parts[part].res.shape[1])
-                    ),
-                    axis=0,
-                )
 
             # set numer of needed steps to new amount:
             self.num_steps = self.time_vec.size - 1
+            # renew all references to the replaced arrays:
+            self._create_port_updater()
+            self._create_diff_inputs()
+            self._prep_inputs_for_njits()
         else:  # if saving to disk as HDFstore
             with pd.HDFStore(self._disk_store['path_tmp'], mode='r+') as store:
                 # index for hdf store
-- 
2.43.0


From afd1fa56bd71908e98077e66a76875da02d56a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:38 +0000
Subject: [PATCH 12/16] fix: massflow meters of heat exchangers read the flow
 channel of their cell

The second flow channel's cells were metered with the massflow of the first.
---
 multisim/simenv.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index e670ca3..7f843f3 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3389,7 +3389,16 @@ class SimEnv:
         )
         # get index to massflow array
         if self.parts[part].dm_invariant:  # if same massflow in flow channel
-            return 0
+            if not self.parts[part].multiple_flows:
+                return 0
+            # separate flow channels have one massflow each. 1D temperature
+            # arrays hold the channels one after another, 2D arrays in the
+            # first and in the last column:
+            T = self.parts[part].T
+            index = index % T.size
+            if T.ndim == 1:
+                return index // (T.size // 2)
+            return int(index % T.shape[1] == T.shape[1] - 1)
         else:
             return index
 
-- 
2.43.0


From d119c50410d5f9431021184cda9a91eb94ae0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:38 +0000
Subject: [PATCH 13/16] fix: volumeflow sensor names are checked against
 volumeflow sensors

A second volumeflow sensor silently replaced the first one of that name, and
the name of a massflow sensor was refused.
---
 multisim/_utility/meters.py   | 4 ++--
 multisim/utility_functions.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 8f1e691..3fddaf3 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -305,9 +305,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 047ab30..a826343 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2740,9 +2740,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
-- 
2.43.0


From a1573a1aeac82dd735358fcf79a13b5cd0824439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:38 +0000
Subject: [PATCH 14/16] fix: heat meters and volumeflow sensors at cells of 2D
 parts

The flat cell index was used on the unflattened results, which raises for
heat exchangers with a 2D temperature grid.
---
 multisim/_utility/meters.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 3fddaf3..9f33475 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -129,8 +129,11 @@ class Meters:
         df = pd.DataFrame(index=self._time_index)  # make dataframe
 
         # forward and return flow temperature and difference
-        df['T_ff'] = self._simenv.parts[warm_part].res[:, warm_cell]
-        df['T_rf'] = self._simenv.parts[cold_part].res[:, cold_cell]
+        # (results of 2D parts are flattened per timestep for the flat index)
+        warm_res = self._simenv.parts[warm_part].res
+        cold_res = self._simenv.parts[cold_part].res
+        df['T_ff'] = warm_res.reshape(len(warm_res), -1)[:, warm_cell]
+        df['T_rf'] = cold_res.reshape(len(cold_res), -1)[:, cold_cell]
         df['T_diff'] = df['T_ff'] - df['T_rf']
         df['massflow_kgps'] = mflow.copy()  # copy to fix this value
         df['volume_flow_m3ps'] = df['massflow_kgps'] / mp.rho_water(
@@ -311,8 +314,10 @@ class Meters:
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
+        # (results of 2D parts are flattened per timestep for the flat index)
+        res = self._simenv.parts[part].res
         df[name] = self._simenv.parts[part].res_dm[:, idx_dm] / mp.rho_water(
-            self._simenv.parts[part].res[:, cell]
+            res.reshape(len(res), -1)[:, cell]
         )
 
         # resample if specified in simenv:
-- 
2.43.0


From 9b1d5c25b674a40c5b76b15e89286937bf071a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:04 +0000
Subject: [PATCH 15/16] fix: R^2 of several measured columns uses each column's
 own variance

The total sum of squares of 2D numpy arrays was summed up over all columns.
---
 multisim/_utility/stat_error_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 19d4a3e..4ab81ac 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -40,7 +40,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of squares
     return 1 - ss_res / ss_tot
 
 
-- 
2.43.0


From 3d820206fdebdeda60d01d779c65c678646067f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:04 +0000
Subject: [PATCH 16/16] fix: adjusted R^2 of data does not stop in the debugger

---
 multisim/_utility/stat_error_measures.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 4ab81ac..78a06d8 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -87,9 +87,6 @@ def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
             'If `r_sqrd` is not given, `y` and `y_hat` must be given and'
             '`n` must not be given.'
         )
-        breakpoint()
-        print('false! n must be of the training data set!!!')
-        print('also avoid printing R for p>n! raise error!')
         r_sqrd = r_squared(y, y_hat)  # get R^2
         n = y_hat.shape[0]  # get number of samples
     # set r2 range correctly (-inf -> 1. or -inf ->100.)
-- 
2.43.0


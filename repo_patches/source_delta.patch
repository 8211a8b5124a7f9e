From b4d6f65750c14f38cecd7b63162d9529343adc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 01/93] fix: genset returns to its initial status upon reset,
 as init_start_up documents

---
 src/pymgrid/modules/genset_module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 4369c27..99ba7f2 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -97,6 +97,11 @@ class GensetModule(BaseMicrogridModule):
                          provided_energy_name=provided_energy_name,
                          absorbed_energy_name=None)
 
+    def reset(self):
+        self._current_status = self._goal_status = int(self.init_start_up)
+        self._reset_up_down_times()
+        return super().reset()
+
     def step(self, action, normalized=True):
         """
         Take one step in the module, attempting to draw a certain amount of energy from the genset.
-- 
2.43.0


From 8cd91bf917a2352e706a701d1abc347b0e3201ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 02/93] fix: battery action bounds were swapped between
 charging and discharging

---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 67692a5..945742b 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -331,11 +331,11 @@ class BatteryModule(BaseMicrogridModule):
 
     @property
     def min_act(self):
-        return -self.max_discharge / self.efficiency
+        return -self.max_charge / self.efficiency
 
     @property
     def max_act(self):
-        return self.max_charge * self.efficiency
+        return self.max_discharge * self.efficiency
 
     @property
     def production_marginal_cost(self):
-- 
2.43.0


From 78b6296348fbb40111be0b6caa567bca2fd880a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 03/93] fix: sampling a strictly bounded genset action raised a
 TypeError

---
 src/pymgrid/modules/genset_module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 99ba7f2..52ef95b 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -351,7 +351,11 @@ class GensetModule(BaseMicrogridModule):
             self._update_up_down_times()
 
     def sample_action(self, strict_bound=False, **kwargs):
-        return np.array([np.random.rand(), super().sample_action(strict_bound=strict_bound)])
+        goal_status, energy = np.random.rand(2)
+        if strict_bound:
+            low, high = self.next_min_production(round(goal_status)), self.next_max_production(round(goal_status))
+            energy = self._action_space.normalize(np.array([goal_status, low + energy * (high - low)]))[self._energy_pos]
+        return np.array([goal_status, energy])
 
     def _raise_error(self, ask_value, available_value, as_source=False, as_sink=False, lower_bound=False):
         try:
-- 
2.43.0


From 3d61e8a8f748165a9f649c248db4d0f1a80abd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 04/93] fix: GridModule.as_flex and as_fixed changed every grid
 module instead of one

---
 src/pymgrid/modules/grid_module.py      | 6 +++---
 src/pymgrid/modules/module_container.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 03b32c9..cf4a6b8 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -234,16 +234,16 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules do not require a control to be passed, and are deployed as necessary to balance load and demand.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'flex')
+        self.module_type = (self.module_type[0], 'flex')
 
     def as_fixed(self):
         """
         Convert the module to a fixed module.
 
-        Flex modules require a control to be passed.
+        Fixed modules require a control to be passed.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'fixed')
+        self.module_type = (self.module_type[0], 'controllable')
 
     @property
     def import_price(self):
diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 0ceabf4..3864a63 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -366,10 +366,10 @@ def get_subcontainers(modules):
     for module in modules:
         try:  # module is a tuple
             module_name, module = module
-            fixed_flex_controllable = module.__class__.module_type[1]
+            fixed_flex_controllable = module.module_type[1]
         except TypeError:  # module is a module
             try:
-                module_name, fixed_flex_controllable = module.__class__.module_type
+                module_name, fixed_flex_controllable = module.module_type
             except TypeError:
                 raise NotImplementedError(
                     f'Must define the class attribute module_type for class {module.__class__.__name__}')
@@ -387,7 +387,7 @@ def get_subcontainers(modules):
         elif fixed_flex_controllable == 'controllable':
             d = controllable
         else:
-            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
+            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.module_type}')
 
         try:
             module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-- 
2.43.0


From a40d2eaf25a1dc98328498125ece791b8620c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 05/93] fix: raise on identically named modules of different
 types instead of losing one

---
 src/pymgrid/modules/module_container.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 3864a63..b4c81ff 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -389,11 +389,10 @@ def get_subcontainers(modules):
         else:
             raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.module_type}')
 
-        try:
-            module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-        except KeyError:
+        module_type = (fixed_flex_controllable, source_sink_both)
+        if module_names.setdefault(module_name, module_type) != module_type:
             raise NameError(
-                f'Attempted to add module {module_name} of type {(fixed_flex_controllable, source_sink_both)}, '
+                f'Attempted to add module {module_name} of type {module_type}, '
                 f'but there is an identically named module of type {module_names[module_name]}.')
 
         try:
-- 
2.43.0


From 296ea0d75bbfc21bd1deb6646bc40e4dd764bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 06/93] fix: reject an incomplete control before any module has
 stepped

---
 src/pymgrid/microgrid/microgrid.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 79049c0..e4296ab 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -249,6 +249,7 @@ class Microgrid(yaml.YAMLObject):
             Additional information from this step.
 
         """
+        self._check_control(control)
         control_copy = control.copy()
         microgrid_step = MicrogridStep(reward_shaping_func=self.reward_shaping_func, cost_info=self.get_cost_info())
 
@@ -260,15 +261,11 @@ class Microgrid(yaml.YAMLObject):
         log_dict = self._get_log_dict(fixed_provided, fixed_consumed, prefix='fixed')
 
         for name, modules in self.controllable.iterdict():
+            module_controls = control_copy.pop(name)
             try:
-                module_controls = control_copy.pop(name)
-            except KeyError:
-                raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
-            else:
-                try:
-                    _zip = zip(modules, module_controls)
-                except TypeError:
-                    _zip = zip(modules, [module_controls])
+                _zip = zip(modules, module_controls)
+            except TypeError:
+                _zip = zip(modules, [module_controls])
 
             for module, _control in _zip:
                 module_step = module.step(_control, normalized=normalized)  # obs, reward, done, info.
@@ -324,6 +321,15 @@ class Microgrid(yaml.YAMLObject):
 
         return microgrid_step.output()
 
+    def _check_control(self, control):
+        for name, modules in self.controllable.iterdict():
+            if name not in control:
+                raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
+
+            n_controls = len(control[name]) if hasattr(control[name], '__len__') else 1
+            if n_controls < len(modules):
+                raise ValueError(f'Control for module "{name}" has {n_controls} values for {len(modules)} modules.')
+
     def _get_log_dict(self, provided_energy, absorbed_energy, log_dict=None, prefix=None):
         _log_dict = dict(provided_to_microgrid=provided_energy, absorbed_from_microgrid=absorbed_energy)
         _log_dict = {(prefix + '_' + k if prefix is not None else k): v for k, v in _log_dict.items()}
-- 
2.43.0


From 044a57b9cc78a5a4166917bba19c2a43d5ea7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 07/93] fix: index the log by the steps that were run, also
 under a trajectory

---
 src/pymgrid/microgrid/microgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index e4296ab..d2353e2 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -469,7 +469,9 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.initial_step, stop=self.current_step))
+        current_step = self.current_step
+        index = pd.RangeIndex(start=current_step - len(self._balance_logger), stop=current_step)
+        df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From 65994017e02c3c36c22f26ab57c60326b37c8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 08/93] fix: a deserialized microgrid can be run and compared,
 its logs are lists

---
 src/pymgrid/utils/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b693595..bcfe34e 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -47,5 +47,7 @@ class ModularLogger(UserDict):
         if raw is None:
             return cls()
         elif isinstance(raw, str):
-            raw = pd.read_csv(raw).to_dict()
+            raw = pd.read_csv(raw)
+        if isinstance(raw, pd.DataFrame):
+            raw = raw.to_dict(orient='list')
         return cls(raw)
-- 
2.43.0


From df6b1dccca4957b815a4fcdbe836cdadcf9bb6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 09/93] fix: modules and microgrids dumped to one directory
 overwrote each other's data files

---
 src/pymgrid/modules/base/base_module.py | 3 ++-
 src/pymgrid/utils/serialize.py          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 60a25ac..4820ca1 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -847,7 +847,8 @@ class BaseMicrogridModule(yaml.YAMLObject):
             **self._logger.serialize("log")
         }
 
-        return dump_data(data, dumper_stream, self.yaml_tag)
+        directory = "/".join(str(part) for part in (self.yaml_tag, *self.name) if part is not None)
+        return dump_data(data, dumper_stream, directory)
 
     def serializable_state_attributes(self):
         """
diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 45be9c2..9688b28 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -25,7 +25,7 @@ def dump_data(data_dict, stream, yaml_tag):
     if not hasattr(stream, "name"):
         return data_dict
 
-    path = Path(stream.name).parent / "data"
+    path = Path(stream.name).parent / "data" / Path(stream.name).stem
     return add_path_to_arr_like(data_dict, path, yaml_tag)
 
 
-- 
2.43.0


From 49b513a024347b60c95d90219761213a5db9bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 10/93] fix: serialize the reward shaping function

---
 src/pymgrid/microgrid/microgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index d2353e2..e1bbbd1 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -896,6 +896,7 @@ class Microgrid(yaml.YAMLObject):
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
+        instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
         return instance
@@ -910,6 +911,7 @@ class Microgrid(yaml.YAMLObject):
         return {
             "modules": self._modules.to_tuples(),
             'trajectory_func': self.trajectory_func,
+            'reward_shaping_func': self.reward_shaping_func,
             'initial_step': self.initial_step,
             'final_step': self.final_step,
             **self._balance_logger.serialize("balance_log")
-- 
2.43.0


From a0179e8b9580c55ae1e1b00953c66a97801ef5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 11/93] fix: stochastic trajectories could be empty or fail on
 windows that fit

---
 src/pymgrid/microgrid/trajectory/stochastic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index 8d21b15..f413baa 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -8,8 +8,8 @@ class StochasticTrajectory(BaseTrajectory):
 
     def __call__(self, initial_step, final_step):
 
-        initial = np.random.randint(initial_step, final_step-2)
-        final = np.random.randint(initial, final_step)
+        initial = np.random.randint(initial_step, final_step)
+        final = np.random.randint(initial+1, final_step+1)
 
         return initial, final
 
@@ -25,6 +25,6 @@ class FixedLengthStochasticTrajectory(BaseTrajectory):
             raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length}'
                              f'between initial_step ({initial_step}) and final_step ({final_step})')
 
-        initial = np.random.randint(initial_step, final_step-self.trajectory_length)
+        initial = np.random.randint(initial_step, final_step-self.trajectory_length+1)
 
         return initial, initial + self.trajectory_length
-- 
2.43.0


From c1c48f06803d74533760a3bdf800c203614ba6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 12/93] fix: default rule-based control never ran a genset with
 a positive minimum production

---
 src/pymgrid/algos/rbc/rbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/rbc.py b/src/pymgrid/algos/rbc/rbc.py
index f912d75..a2be413 100644
--- a/src/pymgrid/algos/rbc/rbc.py
+++ b/src/pymgrid/algos/rbc/rbc.py
@@ -35,7 +35,7 @@ class RuleBasedControl(PriorityListAlgo):
         priority_lists = self.get_priority_lists(remove_redundant_gensets=remove_redundant_gensets)
 
         if priority_list is None:
-            return sorted(priority_lists[0])
+            return min(sorted(priority_list) for priority_list in priority_lists)
 
         if priority_list not in priority_lists:
             raise ValueError('Invalid priority list. Use RuleBasedControl.get_priority_lists to view all '
-- 
2.43.0


From b86634459f94c77c1f80cd131ed28eb9c946f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 13/93] fix: do not log a discrete action that is rejected

---
 src/pymgrid/envs/discrete/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index 5e744fc..6be3899 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -138,8 +138,8 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
             Additional information from this step.
 
         """
-        self._microgrid_logger.log(action=action)
         microgrid_action = self._get_action(action)
+        self._microgrid_logger.log(action=action)
         return super().step(microgrid_action, normalized=False)
 
     def sample_action(self, strict_bound=False, sample_flex_modules=False):
-- 
2.43.0


From ad8053caadb58c4bd99d166b38fb4721346aab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 14/93] fix: ContinuousMicrogridEnv had no actions and could
 not step

---
 src/pymgrid/envs/continuous/continuous.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 870e79a..3cacf88 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,4 +1,4 @@
-from gym.spaces import Dict, Tuple, flatten_space
+from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
 from pymgrid.envs.base import BaseMicrogridEnv
@@ -55,23 +55,20 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
 
     def _get_nested_action_space(self):
         return Dict({name: Tuple([module.action_space['normalized'] for module in modules_list])
-                                 for name, modules_list in self.fixed.iterdict() if modules_list[0].is_source})
+                                 for name, modules_list in self.controllable.iterdict() if modules_list[0].is_source})
 
     def _get_action_space(self):
         self._nested_action_space = self._get_nested_action_space()
         return flatten_space(self._nested_action_space) if self._flat_spaces else self._nested_action_space
 
     def _get_action(self, action):
-        # Action does not have fixed sinks (loads); add those values.
-        assert action in self._nested_action_space, 'Action is not in action space.'
-        action = action.copy()
-        for name, module_list in self.fixed.sinks.iterdict():
-            action[name] = [module.to_normalized(-1 * module.max_consumption, act=True) for module in module_list]
-        return action
+        assert action in self.action_space, 'Action is not in action space.'
+        return unflatten(self._nested_action_space, action) if self._flat_spaces else action
 
     def step(self, action):
         action = self._get_action(action)
-        return super().run(action)
+        obs, reward, done, info = super().run(action)
+        return self._get_obs(obs), reward, done, info
 
     def run(self, action, normalized=True):
         warn('run() should not be called directly in environments.')
-- 
2.43.0


From fa906b78352ce1652cae7bfa3b9defa4281ff4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 15/93] fix: a scalar forecaster failed within a horizon of the
 end of the time series

---
 src/pymgrid/forecast/forecaster.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6a45243..c456a23 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -361,13 +361,9 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
-        if n != len(val_c_n):
+        if len(val_c_n) > n:
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
         vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
-        try:
-            shape = (-1, vectorized_output.shape[1])
-        except IndexError:
-            shape = (-1, 1)
-        return vectorized_output.reshape(shape)
+        return vectorized_output.reshape(val_c_n.shape)
 
     return vectorized
-- 
2.43.0


From 669c6abb5e05790ad1aa0a9ca5a5135b22efd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 16/93] fix: changing a module's forecaster or horizon takes
 effect at once and is serialized

---
 .../modules/base/timeseries/base_timeseries_module.py    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 080fb6c..909f7bb 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -234,7 +234,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         """
 
-        self.forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._forecast_param = forecaster
+        self._forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._state_dict_keys = self._set_state_dict_keys()
+        self._observation_space = self._get_observation_spaces()
 
         self._forecaster = get_forecaster(forecaster,
                                           self._observation_space,
@@ -243,6 +246,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
 
+        self._current_forecast = self.forecast()
+
     @property
     def forecast_horizon(self):
         """
@@ -269,8 +274,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
             self._forecaster = OracleForecaster(self._observation_space,
                                                 forecast_shape=(value, len(self.state_components))
                                                 )
+            self._forecast_param = "oracle"
 
         self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def forecaster_increase_uncertainty(self):
-- 
2.43.0


From 313ed7273ab680d866b223e2c48497c7968e721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 17/93] fix: Microgrid.set_forecaster ignored a dict of
 forecasters

---
 src/pymgrid/microgrid/microgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index e1bbbd1..9825f3b 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -537,15 +537,16 @@ class Microgrid(yaml.YAMLObject):
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
-                try:
-                    self._modules[module_name].set_forecaster(
-                        _forecaster,
-                        forcast_horizon=forecast_horizon,
-                        forecaster_increase_uncertainty=forecaster_increase_uncertainty,
-                        forecaster_relative_noise=forecaster_relative_noise
-                    )
-                except AttributeError:
-                    pass
+                for module in self._modules[module_name]:
+                    try:
+                        module.set_forecaster(
+                            _forecaster,
+                            forecast_horizon=forecast_horizon,
+                            forecaster_increase_uncertainty=forecaster_increase_uncertainty,
+                            forecaster_relative_noise=forecaster_relative_noise
+                        )
+                    except AttributeError:
+                        pass
         else:
             for module in self._modules.iterlist():
                 try:
-- 
2.43.0


From 61ab75e9f76ce8b755cf096c8bcff0718552e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 18/93] fix: observation spaces follow a change of forecaster

---
 src/pymgrid/envs/base/base.py      |  4 ++++
 src/pymgrid/microgrid/microgrid.py | 11 ++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f35bdd5..f9274c4 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -162,6 +162,10 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         return (flatten_space(obs_space) if self._flat_spaces else obs_space), obs_space
 
+    def set_forecaster(self, *args, **kwargs):
+        super().set_forecaster(*args, **kwargs)
+        self.observation_space, self._nested_observation_space = self._get_observation_space()
+
     def reset(self):
         obs = super().reset()
         return self._get_obs(obs)
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 9825f3b..f4060ee 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -114,9 +114,7 @@ class Microgrid(yaml.YAMLObject):
         self.microgrid_action_space = MicrogridSpace(
             self._modules.get_attrs('action_space', 'module_type', as_pandas=False), 'act'
         )
-        self.microgrid_observation_space = MicrogridSpace(
-            self._modules.get_attrs('observation_space', as_pandas=False), 'obs'
-        )
+        self._set_observation_space()
 
         self._initial_step = self._get_module_initial_step()
         self._final_step = self._get_module_final_step()
@@ -127,6 +125,11 @@ class Microgrid(yaml.YAMLObject):
         self._balance_logger = ModularLogger()
         self._microgrid_logger = ModularLogger()  # log additional information.
 
+    def _set_observation_space(self):
+        self.microgrid_observation_space = MicrogridSpace(
+            self._modules.get_attrs('observation_space', as_pandas=False), 'obs'
+        )
+
     def _get_unbalanced_energy_module(self,
                                       loss_load_cost,
                                       overgeneration_cost):
@@ -559,6 +562,8 @@ class Microgrid(yaml.YAMLObject):
                 except AttributeError:
                     pass
 
+        self._set_observation_space()
+
     def get_forecast_horizon(self):
         """
         Get the forecast horizon of timeseries modules contained in the microgrid.
-- 
2.43.0


From 492477bbcf0923c2cee13c7b882182e1d1e80f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 19/93] fix: an environment wrapped around a microgrid that has
 run could not give its log

---
 src/pymgrid/envs/base/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f9274c4..829320c 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -286,7 +286,12 @@ class BaseMicrogridEnv(Microgrid, Env):
         kwargs['reward_shaping_func'] = kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)
         kwargs['trajectory_func'] = kwargs.pop('trajectory_func', microgrid.trajectory_func)
 
-        return cls(modules.to_tuples(), **kwargs)
+        env = cls(modules.to_tuples(), **kwargs)
+
+        for module in env.modules.iterlist():
+            module.logger.flush()
+
+        return env
 
     @classmethod
     def from_nonmodular(cls, nonmodular, **kwargs):
-- 
2.43.0


From a68b7c2be9e37ca1acf67fc73cbc0a1ab626eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:24 +0000
Subject: [PATCH 20/93] fix: trajectories and reward shapers without parameters
 could not be serialized

---
 src/pymgrid/microgrid/reward_shaping/base.py | 3 +++
 src/pymgrid/microgrid/trajectory/base.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index f127af1..9b51624 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -19,5 +19,8 @@ class BaseRewardShaper(yaml.YAMLObject):
     def __call__(self, step_info, cost_info):
         pass
 
+    def __getstate__(self):
+        return self.__dict__
+
     def __repr__(self):
         return f'{self.__class__.__name__}()'
diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 8aee672..9ab332e 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -12,6 +12,9 @@ class BaseTrajectory(yaml.YAMLObject):
     def __call__(self, initial_step, final_step):
         pass
 
+    def __getstate__(self):
+        return self.__dict__
+
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
         formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
-- 
2.43.0


From bbf7564bb3fb6449c1f9e2d57123182f049a9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:24 +0000
Subject: [PATCH 21/93] fix: loading a serialized environment dropped its log

---
 src/pymgrid/envs/base/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 829320c..ee66492 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -309,4 +309,5 @@ class BaseMicrogridEnv(Microgrid, Env):
 
     @classmethod
     def load(cls, stream):
-        return cls(super().load(stream))
+        microgrid = super().load(stream)
+        return microgrid if isinstance(microgrid, cls) else cls(microgrid)
-- 
2.43.0


From 2ea34ebff0dfde40ac2ec1366ef42add571ef6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:24 +0000
Subject: [PATCH 22/93] fix: serialize whether a grid module is flexible

---
 src/pymgrid/modules/grid_module.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index cf4a6b8..71d6703 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -245,6 +245,14 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         """
         self.module_type = (self.module_type[0], 'controllable')
 
+    def _serialize_state_attributes(self):
+        return {**super()._serialize_state_attributes(), 'module_type': self.module_type}
+
+    def deserialize(self, serialized_dict):
+        serialized_dict = serialized_dict.copy()
+        self.module_type = tuple(serialized_dict.pop('module_type', self.module_type))
+        return super().deserialize(serialized_dict)
+
     @property
     def import_price(self):
         """
-- 
2.43.0


From ed7de087811ff55526eae38aaa1151f85fb5c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:24 +0000
Subject: [PATCH 23/93] fix: forecasts follow a change of the time series

---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 909f7bb..ec6a177 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -158,6 +158,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
         self._action_space = self._get_action_spaces()
         self._observation_space = self._get_observation_spaces()
+        self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def min_obs(self):
-- 
2.43.0


From b0290145da32621e83870b4435af0ff2962d51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:03 +0000
Subject: [PATCH 24/93] fix: BatteryDischargeShaper ignored loss load and
 failed on a battery that charges or exports

---
 src/pymgrid/microgrid/reward_shaping/base.py       |  6 +-----
 .../reward_shaping/battery_discharge_shaper.py     | 14 ++++++++------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index 9b51624..92ad5af 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -9,11 +9,7 @@ class BaseRewardShaper(yaml.YAMLObject):
 
     @staticmethod
     def sum_module_val(info, module_name, module_attr):
-        try:
-            module_info = info[module_name]
-            return sum([d[module_attr] for d in module_info])
-        except KeyError:
-            return 0.0
+        return sum([d.get(module_attr, 0.0) for d in info.get(module_name, [])])
 
     @abstractmethod
     def __call__(self, step_info, cost_info):
diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 073f519..93d1aa7 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -22,13 +22,15 @@ class BatteryDischargeShaper(BaseRewardShaper):
     def __call__(self, step_info, cost_info):
         battery_discharge = self.sum_module_val(step_info, 'battery', 'provided_energy')
         load = self.sum_module_val(step_info, 'load', 'absorbed_energy')
-        loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
+        loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy') + \
+            self.sum_module_val(step_info, 'balancing', 'provided_energy')
 
-        # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
-        try:
-            percent_battery = (battery_discharge - loss_load) / load
-        except ZeroDivisionError:
+        if load == 0:
             return 0.0
 
-        assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, 0)
+        # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
+        battery_discharge = min(battery_discharge, load - loss_load)
+        percent_battery = (battery_discharge - loss_load) / load
+
+        assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, -1)
         return percent_battery
-- 
2.43.0


From 788009b09e838bbab28031d0996a62445d5d7378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:03 +0000
Subject: [PATCH 25/93] fix: reject a final step beyond the end of the time
 series

---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index ec6a177..9ed9c20 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -328,6 +328,9 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         if not value // 1 == value:
             raise ValueError('final_step value must be an integer.')
 
+        if value > len(self):
+            raise ValueError('final_step value must not be greater than the length of the time series.')
+
         if value <= 0:
             self._final_step = len(self)
         else:
-- 
2.43.0


From e3df9188b395686c563b41e631c95813bbba01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:11 +0000
Subject: [PATCH 26/93] fix: a genset that does not allow abortions could never
 change its status

---
 src/pymgrid/modules/genset_module.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 52ef95b..f09e30d 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -291,9 +291,7 @@ class GensetModule(BaseMicrogridModule):
             assert self._steps_until_down == 0 or self._steps_until_up == 0
             return
 
-        instant_up = self.start_up_time == 0 and goal_status == 1
-        instant_down = self.wind_down_time == 0 and goal_status == 0
-        if goal_status != self._goal_status and (self.allow_abortion or instant_up or instant_down):
+        if self._can_change_goal(goal_status):
             self._goal_status = goal_status
 
         finished_change = self._finish_in_progress_change()
@@ -304,6 +302,12 @@ class GensetModule(BaseMicrogridModule):
         if not self._current_status == next_prediction:
             raise ValueError('self.next_status working incorrectly.')
 
+    def _can_change_goal(self, goal_status):
+        in_progress = self._goal_status != self._current_status
+        instant_up = self.start_up_time == 0 and goal_status == 1
+        instant_down = self.wind_down_time == 0 and goal_status == 0
+        return self.allow_abortion or not in_progress or instant_up or instant_down
+
     def _finish_in_progress_change(self):
         if self._steps_until_up == 0 and self._goal_status == 1:
             self._current_status = 1
@@ -383,6 +387,9 @@ class GensetModule(BaseMicrogridModule):
             The next status given the current status and the goal status.
 
         """
+        if not self._can_change_goal(goal_status):
+            goal_status = self._goal_status
+
         if goal_status:
             if self._current_status:
                 return 1
-- 
2.43.0


From 50e1343e42b53e7502de845cc766dbe403530abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 27/93] fix: modules that start at a later step could not be
 combined with the added balancing module

---
 src/pymgrid/microgrid/microgrid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index f4060ee..a518850 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -132,9 +132,11 @@ class Microgrid(yaml.YAMLObject):
 
     def _get_unbalanced_energy_module(self,
                                       loss_load_cost,
-                                      overgeneration_cost):
+                                      overgeneration_cost,
+                                      initial_step=0):
 
         return UnbalancedEnergyModule(raise_errors=False,
+                                      initial_step=initial_step,
                                       loss_load_cost=loss_load_cost,
                                       overgeneration_cost=overgeneration_cost
                                       )
@@ -171,7 +173,9 @@ class Microgrid(yaml.YAMLObject):
             raise TypeError("modules must be list-like of modules.")
 
         if add_unbalanced_module:
-            modules.append(self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost))
+            named = [module[1] if isinstance(module, tuple) else module for module in modules]
+            initial_step = next((getattr(module, 'initial_step', 0) for module in named), 0)
+            modules.append(self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost, initial_step))
 
         return ModuleContainer(modules)
 
-- 
2.43.0


From ebb221675aa96912d501aa87732e721e3c615052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:31 +0000
Subject: [PATCH 28/93] fix: a rejected genset step still advanced the start-up
 or wind-down

---
 src/pymgrid/modules/genset_module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index f09e30d..6c209ef 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -150,8 +150,13 @@ class GensetModule(BaseMicrogridModule):
         """
         goal_status = action[0]
         assert 0 <= goal_status <= 1
+        status = self._current_status, self._goal_status, self._steps_until_up, self._steps_until_down
         self.update_status(goal_status)
-        return super().step(action, normalized=normalized)
+        try:
+            return super().step(action, normalized=normalized)
+        except ValueError:  # A rejected step does not change the genset's status.
+            self._current_status, self._goal_status, self._steps_until_up, self._steps_until_down = status
+            raise
 
     def get_co2(self, production):
         """
-- 
2.43.0


From ea715a893b44d6852d75423901f139c2ae2ac7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:29 +0000
Subject: [PATCH 29/93] fix: a rejected final step was set all the same

---
 .../modules/base/timeseries/base_timeseries_module.py    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 9ed9c20..457f7d4 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -332,15 +332,16 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
             raise ValueError('final_step value must not be greater than the length of the time series.')
 
         if value <= 0:
-            self._final_step = len(self)
-        else:
-            self._final_step = value
+            value = len(self)
+
         try:
-            if self._final_step <= self.initial_step:
+            if value <= self.initial_step:
                 raise ValueError('final_step value must be greater than initial_step')
         except AttributeError:
             pass
 
+        self._final_step = value
+
     def _state_dict(self):
         state_dict = dict(zip(self._state_dict_keys['current'], self.current_obs))
 
-- 
2.43.0


From fa9c5dc5a1543021a6a055899f2858f2fb94dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:47 +0000
Subject: [PATCH 30/93] fix: rounding could overfill a battery, and charging it
 again then failed

---
 src/pymgrid/modules/battery_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 945742b..dbaf01c 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -127,6 +127,9 @@ class BatteryModule(BaseMicrogridModule):
         if self._current_charge < self.min_capacity:
             assert np.isclose(self._current_charge, self.min_capacity)
             self._current_charge = self.min_capacity
+        elif self._current_charge > self.max_capacity:
+            assert np.isclose(self._current_charge, self.max_capacity)
+            self._current_charge = self.max_capacity
         self._soc = self._current_charge/self.max_capacity
 
     def get_cost(self, energy_change):
-- 
2.43.0


From 405d745a71daf4aadedd2f185e46e2c9fd5a227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:33 +0000
Subject: [PATCH 31/93] fix: the normalized state dict of a module with a
 single state value raised a TypeError

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 4820ca1..05e2f1f 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -485,7 +485,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         """
         if normalized:
-            return dict(zip(self.state_dict().keys(), self._observation_space.normalize(self.state)))
+            return dict(zip(self.state_dict().keys(), np.atleast_1d(self._observation_space.normalize(self.state))))
 
         return self._state_dict()
 
-- 
2.43.0


From 93924b6a8f8077fc2186a38f3f402ca1248eee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 32/93] fix: a scalar forecaster was told one step less than it
 forecasts ahead

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index c456a23..1e4b44c 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -363,7 +363,7 @@ def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
         if len(val_c_n) > n:
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
-        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
+        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n, start=1)])
         return vectorized_output.reshape(val_c_n.shape)
 
     return vectorized
-- 
2.43.0


From d1f6f12c018c655a1787cd67b5d22276e07b13b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:31 +0000
Subject: [PATCH 33/93] fix: noise that grows with the horizon did not follow a
 change of horizon and could not be compared

---
 src/pymgrid/forecast/forecaster.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 1e4b44c..d31736e 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -231,31 +231,24 @@ class GaussianNoiseForecaster(Forecaster):
         self.increase_uncertainty = increase_uncertainty
         self.relative_noise = relative_noise
 
-        self._noise_size = self._forecast_shaped_space.shape
-        self._noise_std = self._get_noise_std(time_series)
+        self._scalar_noise_std = self._get_scalar_noise_std(time_series)
 
-    def _get_noise_std(self, time_series):
+    def _get_scalar_noise_std(self, time_series):
         scalar_val = self.input_noise_std
         if self.relative_noise:
             if time_series is None:
                 raise ValueError('Must pass time_series if relative_noise is True.')
             scalar_val *= np.abs(time_series.mean())
 
-        if self.increase_uncertainty:
-            return scalar_val * np.outer(
-                1 + np.log(1 + np.arange(self._noise_size[0])),
-                np.ones(self._noise_size[-1])
-            )
-        else:
-            return scalar_val
+        return scalar_val
 
     def _get_noise(self, size):
         try:
-            return np.random.normal(scale=self._noise_std, size=size)
+            return np.random.normal(scale=self.noise_std, size=size)
         except ValueError:
-            noise_std = self._noise_std[:size[0], :]
+            noise_std = self.noise_std[:size[0], :]
             if noise_std.shape != size:
-                raise RuntimeError(f'Cannot broadcast shapes {self._noise_std.shape} and {size}.')
+                raise RuntimeError(f'Cannot broadcast shapes {self.noise_std.shape} and {size}.')
 
             return np.random.normal(scale=noise_std, size=size)
 
@@ -264,7 +257,14 @@ class GaussianNoiseForecaster(Forecaster):
 
     @property
     def noise_std(self):
-        return self._noise_std
+        if self.increase_uncertainty:
+            noise_size = self._forecast_shaped_space.shape
+            return self._scalar_noise_std * np.outer(
+                1 + np.log(1 + np.arange(noise_size[0])),
+                np.ones(noise_size[-1])
+            )
+
+        return self._scalar_noise_std
 
     @noise_std.setter
     def noise_std(self, value):
-- 
2.43.0


From f46052b5884020e5e3402aa9806e0fe5fb06145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:58 +0000
Subject: [PATCH 34/93] fix: a user-defined forecaster could not be used with a
 grid module

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index d31736e..e1c1f8d 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -352,7 +352,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
         raise TypeError(
             "Unable to validate forecaster. Forecaster must return numeric np.ndarray or number but returned "
             f"output of type {np.array(forecaster_output).dtype}: {forecaster_output}")
-    elif not (forecaster_output * true_forecast >= 0):
+    elif not np.all(np.asarray(forecaster_output) * true_forecast >= 0):
         raise ValueError(
             "Unable to validate forecaster. Forecaster must return output of same sign (or zero) as "
             f"input but returned output {forecaster_output} with inputs "
-- 
2.43.0


From 4879070dc26c134561b23f40d442098c27b2040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:23 +0000
Subject: [PATCH 35/93] fix: get_log(drop_singleton_key=True) did not drop the
 module number

---
 src/pymgrid/microgrid/microgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index a518850..02136ca 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -481,8 +481,8 @@ class Microgrid(yaml.YAMLObject):
         df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
-        if drop_singleton_key:
-            df.columns = df.columns.remove_unused_levels()
+        if drop_singleton_key and (df.columns.get_level_values('module_number') == 0).all():
+            df.columns = df.columns.droplevel('module_number')
 
         if as_frame:
             return df
-- 
2.43.0


From 645561a0c5264a157bf57d60f9a04946239febcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:43 +0000
Subject: [PATCH 36/93] fix: a loaded module showed the forecast of its first
 step instead of its current one

---
 .../modules/base/timeseries/base_timeseries_module.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 457f7d4..34419ba 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -358,5 +358,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
     def serializable_state_attributes(self):
         return ["_current_step"]
 
+    def deserialize(self, serialized_dict):
+        super().deserialize(serialized_dict)
+        self._current_forecast = self.forecast()
+        return self
+
     def __len__(self):
         return self._time_series.shape[0]
-- 
2.43.0


From a9cd7d872734a99b0b9a22c450a3cebe1e76d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:14 +0000
Subject: [PATCH 37/93] fix: numbers read back from data files could differ in
 the last digit, so that a loaded microgrid was not equal

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 9688b28..b082b6d 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -102,7 +102,7 @@ def _pandas_df_constructor(loader, node):
 
         data_path = Path(stream_name).parent / data_path
 
-    return pd.read_csv(data_path, index_col=0)
+    return pd.read_csv(data_path, index_col=0, float_precision='round_trip')
 
 
 def _numpy_arr_constructor(loader, node):
-- 
2.43.0


From 4c773b5fcc67cbb69460dad07322ef4c20704dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:32 +0000
Subject: [PATCH 38/93] fix: comparing or printing a StochasticTrajectory
 raised an AttributeError

---
 src/pymgrid/microgrid/trajectory/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 9ab332e..69c43a1 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -16,7 +16,7 @@ class BaseTrajectory(yaml.YAMLObject):
         return self.__dict__
 
     def __repr__(self):
-        params = inspect.signature(self.__init__).parameters
+        params = inspect.signature(type(self)).parameters
         formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
         return f'{self.__class__.__name__}({formatted_params})'
 
-- 
2.43.0


From 0e8c8c3b60a5ff99074f27d47f346c8d70f16ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:04 +0000
Subject: [PATCH 39/93] fix: ContinuousMicrogridEnv could not be serialized

---
 src/pymgrid/envs/continuous/continuous.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 3cacf88..73caafe 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,3 +1,5 @@
+import yaml
+
 from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
@@ -53,6 +55,10 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
     """
     _nested_action_space = None
 
+    yaml_tag = u"!ContinuousMicrogridEnv"
+    yaml_loader = yaml.SafeLoader
+    yaml_dumper = yaml.SafeDumper
+
     def _get_nested_action_space(self):
         return Dict({name: Tuple([module.action_space['normalized'] for module in modules_list])
                                  for name, modules_list in self.controllable.iterdict() if modules_list[0].is_source})
-- 
2.43.0


From 7cc6f2debcc50a707c95126d37754ee21cb4caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 40/93] fix: a priority list given as a list was always
 rejected

---
 src/pymgrid/algos/rbc/rbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/rbc.py b/src/pymgrid/algos/rbc/rbc.py
index a2be413..33dcb11 100644
--- a/src/pymgrid/algos/rbc/rbc.py
+++ b/src/pymgrid/algos/rbc/rbc.py
@@ -37,7 +37,7 @@ class RuleBasedControl(PriorityListAlgo):
         if priority_list is None:
             return min(sorted(priority_list) for priority_list in priority_lists)
 
-        if priority_list not in priority_lists:
+        if tuple(priority_list) not in priority_lists:
             raise ValueError('Invalid priority list. Use RuleBasedControl.get_priority_lists to view all '
                              'valid priority lists.')
 
-- 
2.43.0


From ae2122e31f5f51db5a5447e4f655612ff380c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:34 +0000
Subject: [PATCH 41/93] fix: numpy integers and single-precision numbers were
 rejected as actions

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 05e2f1f..d1a2cd2 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -140,7 +140,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         try:
             denormalized_action = denormalized_action[self._energy_pos]
         except (IndexError, TypeError):
-            if not isinstance(denormalized_action, (float, int)):
+            if not isinstance(denormalized_action, (float, int, np.number)):
                 try:
                     flat_dim = np.product(denormalized_action.shape)
                     assert flat_dim == 0
-- 
2.43.0


From 4ac0ba0905f13996a0faf1db2fdfa5378e6c4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:20 +0000
Subject: [PATCH 42/93] fix: nested observations of an environment were not in
 its observation space and lost all but one key

---
 src/pymgrid/envs/base/base.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index ee66492..ef6d369 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from gym import Env
@@ -214,16 +215,27 @@ class BaseMicrogridEnv(Microgrid, Env):
 
     def _get_obs(self, obs):
         if self.observation_keys:
-            obs = self.state_series(normalized=True).loc[pd.IndexSlice[:, :, self.observation_keys]]
+            state_series = self.state_series(normalized=True)
 
             if self._flat_spaces:
-                obs = obs.values
+                obs = state_series.loc[pd.IndexSlice[:, :, self.observation_keys]].values
             else:
-                obs = obs.to_frame().unstack(level=1).T.droplevel(level=1, axis=1).to_dict(orient='list')
+                obs = {}
+                for (name, module_num), state in state_series.groupby(level=[0, 1], sort=False):
+                    state = state.droplevel([0, 1])
+                    keys = [key for key in self.observation_keys if key in state.index]
+                    if keys:
+                        obs.setdefault(name, []).append(state.loc[keys].values)
 
         elif self._flat_spaces:
             obs = flatten(self._nested_observation_space, obs)
 
+        else:
+            obs = {
+                name: [np.reshape(module_obs, space.shape) for module_obs, space in zip(obs[name], spaces)]
+                for name, spaces in self._nested_observation_space.items()
+            }
+
         return obs
 
     def render(self, mode="human"):
-- 
2.43.0


From bd675535dd236b095f645b3ad73910ae37cac08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:12 +0000
Subject: [PATCH 43/93] fix: an environment wrapped around a microgrid took the
 window of one episode for the whole window

---
 src/pymgrid/envs/base/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index ef6d369..eb47f79 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -296,10 +296,14 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         kwargs['add_unbalanced_module'] = kwargs.pop('add_unbalanced_module', False)
         kwargs['reward_shaping_func'] = kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)
-        kwargs['trajectory_func'] = kwargs.pop('trajectory_func', microgrid.trajectory_func)
+        trajectory_func = kwargs.pop('trajectory_func', microgrid.trajectory_func)
 
         env = cls(modules.to_tuples(), **kwargs)
 
+        # The modules may hold the window of a single episode.
+        env._initial_step, env._final_step = microgrid.initial_step, microgrid.final_step
+        env.trajectory_func = env._check_trajectory_func(trajectory_func)
+
         for module in env.modules.iterlist():
             module.logger.flush()
 
-- 
2.43.0


From bdd07f0f56bc2507a64556d167c415b1d6b14c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:06 +0000
Subject: [PATCH 44/93] fix: comparing modules with data of different shapes
 raised an error

---
 src/pymgrid/modules/base/base_module.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index d1a2cd2..3f1956d 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -961,10 +961,18 @@ class BaseMicrogridModule(yaml.YAMLObject):
         if type(self) != type(other):
             return NotImplemented
 
-        diff = [(k1, v1, v2) for (k1, v1), (k2, v2) in zip(self.__dict__.items(), other.__dict__.items()) if
-                ((hasattr(v1, "any") and not np.allclose(v1, v2)) or (not hasattr(v1, "any") and v1 != v2))]
+        return all(self._attributes_equal(getattr(self, k, None), getattr(other, k, None))
+                   for k in {**self.__dict__, **other.__dict__})
 
-        return len(diff) == 0
+    @staticmethod
+    def _attributes_equal(v1, v2):
+        if not (hasattr(v1, "any") or hasattr(v2, "any")):
+            return v1 == v2
+
+        if v1 is None or v2 is None or np.shape(v1) != np.shape(v2):
+            return False
+
+        return np.allclose(v1, v2)
 
     def __repr__(self):
         param_repr = {p: getattr(self, p) for p in inspect.signature(self.__init__).parameters}
-- 
2.43.0


From d891e7e98346280f67de5f59b4a95f37e4a41578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:43 +0000
Subject: [PATCH 45/93] fix: the load of a microgrid converted to the legacy
 format was negative

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 9cb8603..72d4e33 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -77,7 +77,7 @@ def add_params_from_module(module, params_dict):
 
 
 def add_load_params(load_module, params_dict):
-    params_dict['load'] = pd.DataFrame(load_module.time_series)
+    params_dict['load'] = pd.DataFrame(-1 * load_module.time_series)
     _add_to_parameters(params_dict,
                        load=-1 * load_module.min_act)
     _add_to_control_dict(params_dict, 'load')
-- 
2.43.0


From 5af4e0b2fb26f7e14f123452532c60ad05013a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:38 +0000
Subject: [PATCH 46/93] fix: the innermost module containers could not be
 viewed as a dict

---
 src/pymgrid/modules/module_container.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index b4c81ff..70bb3b5 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -49,7 +49,7 @@ class Container(UserDict):
         """
         d = dict()
         for k, raw_container in self.containers.items():
-            d.update(raw_container)
+            d.update({k: raw_container} if isinstance(raw_container, ModuleList) else raw_container)
         return d
 
     def to_tuples(self):
@@ -146,12 +146,10 @@ class Container(UserDict):
         if not attrs:
             raise ValueError('Missing attrs to get.')
 
-        d = dict()
-        for k, raw_container in self.containers.items():
-            d.update({
-                name: [{attr: getattr(module, attr, NotImplemented) for attr in attrs} for module in module_list]
-                for name, module_list in raw_container.items()
-            })
+        d = {
+            name: [{attr: getattr(module, attr, NotImplemented) for attr in attrs} for module in module_list]
+            for name, module_list in self.iterdict()
+        }
 
         if not (unique or as_pandas):
             return d
-- 
2.43.0


From c9903672cb8e72ebe2b716ff000b5cb395f32987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:41 +0000
Subject: [PATCH 47/93] fix: BatteryDischargeShaper failed when more load is
 lost than there is, as when a battery charges

---
 src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 93d1aa7..2a7ee6e 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -29,6 +29,7 @@ class BatteryDischargeShaper(BaseRewardShaper):
             return 0.0
 
         # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
+        loss_load = min(loss_load, load)
         battery_discharge = min(battery_discharge, load - loss_load)
         percent_battery = (battery_discharge - loss_load) / load
 
-- 
2.43.0


From 4ea4aff3c3953ed7d31bfef365cbf350e11bcaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:45 +0000
Subject: [PATCH 48/93] fix: model predictive control planned imports from a
 grid that is down

---
 src/pymgrid/algos/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index d4429f6..dac98ad 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -911,7 +911,7 @@ class ModelPredictiveControl:
 
             grid_max_import, grid_max_export = 0, 0
         else:
-            grid_status = np.ones(self.horizon)
+            grid_status = grid.grid_status
 
             price_import = grid.import_price
             price_export = grid.export_price
-- 
2.43.0


From 4bcd3bb28d142d3f215f716d9dc177af8b15ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 49/93] fix: the log dict of a module was the live log, which
 grew and could be changed through it

---
 src/pymgrid/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index bcfe34e..1df34c3 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -28,7 +28,7 @@ class ModularLogger(UserDict):
         self._log_length += 1
 
     def to_dict(self):
-        return self.data.copy()
+        return {k: list(v) for k, v in self.data.items()}
 
     def raw(self):
         return {k: list(map(float, v)) for k, v in self.data.items()}
-- 
2.43.0


From b480948a030996196e9c4b57c044bb74fa25657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 50/93] fix: logger_last always failed

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 3f1956d..bce90fe 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -463,7 +463,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         entry : dict
 
         """
-        return {k: v[-1] for k, v in self._logger}
+        return {k: v[-1] for k, v in self._logger.items()}
 
     @logger.setter
     def logger(self, logger):
-- 
2.43.0


From f4089b7947308368a49ef0238ba0bb736269af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:32 +0000
Subject: [PATCH 51/93] fix: the log could not be read after the forecast
 horizon was reduced in the middle of an episode

---
 src/pymgrid/utils/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 1df34c3..4ba8f3b 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -25,6 +25,9 @@ class ModularLogger(UserDict):
                 self[key] = [np.nan]*self._log_length
                 self[key].append(value)
 
+        for key in self.data.keys() - log_dict.keys():
+            self[key].append(np.nan)
+
         self._log_length += 1
 
     def to_dict(self):
-- 
2.43.0


From 82bc33247782b19716f991a94d69fd7fa21372d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 52/93] fix: a legacy microgrid without a grid charged its
 battery with the request, not with what was charged

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1d98207..943d184 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -655,7 +655,7 @@ class NonModularMicrogrid:
 
             self._df_record_cost = self._record_cost({ i:self._df_record_actual_production[i][-1] for i in self._df_record_actual_production},
                                                      self._df_record_cost, self._df_record_co2)
-            self._df_record_state = self._update_status(control_dict,
+            self._df_record_state = self._update_status({key: value[-1] for key, value in self._df_record_actual_production.items()},
                                                         self._df_record_state, self._next_load, self._next_pv)
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
-- 
2.43.0


From 878d4aea4a4bd264354ca33fdf7cf4edeae5e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 53/93] fix: a legacy microgrid failed on a step that needs
 none of the available renewable energy

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 943d184..7493280 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1059,7 +1059,7 @@ class NonModularMicrogrid:
             pv_curtailed = 0
             overgeneration = 0
 
-        elif 0 < pv_required < pv_available:                # curtail pv
+        elif 0 <= pv_required < pv_available:                # curtail pv
             pv_consumed = pv_required
             loss_load = 0
             pv_curtailed = pv_available-pv_required
-- 
2.43.0


From 42552423d7d66097e0c8566484d5c5665a3da207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 54/93] fix: the second state of a legacy microgrid repeated
 the grid prices and status of the first

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 7493280..9ffce88 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -363,10 +363,10 @@ class NonModularMicrogrid:
             self._grid_price_export=parameters['grid_price_export']
             self._grid_co2 = parameters['grid_co2']
 
-            self._next_grid_status = self._grid_status_ts.iloc[0, 0]
-            self._next_grid_price_export = self._grid_price_export.iloc[0, 0]
-            self._next_grid_price_import = self._grid_price_import.iloc[0, 0]
-            self._next_grid_co2 = self._grid_co2.iloc[0, 0]
+            self._next_grid_status = self._grid_status_ts.iloc[1, 0]
+            self._next_grid_price_export = self._grid_price_export.iloc[1, 0]
+            self._next_grid_price_import = self._grid_price_import.iloc[1, 0]
+            self._next_grid_co2 = self._grid_co2.iloc[1, 0]
 
         # those dataframe record what is happening at each time step
         self._df_record_control_dict=parameters['df_actions']
-- 
2.43.0


From 4c1ec8d6dfc1aa4217b480753006f47380dd83e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 55/93] fix: the training or testing part of a legacy microgrid
 could not be run to its end

---
 .../_deprecated/non_modular_microgrid.py      | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 9ffce88..01a0a6c 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -748,16 +748,22 @@ class NonModularMicrogrid:
             self.pv = self._pv_train.iloc[self._tracking_timestep, 0]
             self.load = self._load_train.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
-            self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_train.iloc[self._tracking_timestep + 1, 0]
+                self._next_load = self._load_train.iloc[self._tracking_timestep + 1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
 
         if self._data_set_to_use == 'testing':
             self.pv = self._pv_test.iloc[self._tracking_timestep, 0]
             self.load = self._load_test.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
-            self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_test.iloc[self._tracking_timestep + 1, 0]
+                self._next_load = self._load_test.iloc[self._tracking_timestep + 1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
         if self._data_set_to_use == 'all':
             self.pv = self._pv_ts.iloc[self._tracking_timestep, 0]
@@ -778,10 +784,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_train.iloc[self._tracking_timestep,0]
                 self.grid.co2 = self._grid_co2_train.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
             if self._data_set_to_use == 'testing':
                 self.grid.status = self._grid_status_test.iloc[self._tracking_timestep, 0]
@@ -789,10 +799,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_test.iloc[self._tracking_timestep, 0]
                 self.grid.co2 = self._grid_co2_test.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
 
             if self._data_set_to_use == 'all':
-- 
2.43.0


From cad28f341e6d19345348899812bc854020ab29bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:42 +0000
Subject: [PATCH 56/93] fix: the first state of the testing part of a legacy
 microgrid was that of the training part

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 01a0a6c..90b1434 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -855,6 +855,13 @@ class NonModularMicrogrid:
                 self._data_length = min(self._load_ts.shape[0], self._pv_ts.shape[0])
 
         self.update_variables()
+        self._df_record_state['load'][0] = self.load
+        self._df_record_state['pv'][0] = self.pv
+        if self.architecture['grid'] == 1:
+            self._df_record_state['grid_status'][0] = self.grid.status
+            self._df_record_state['grid_price_import'][0] = self.grid.price_import
+            self._df_record_state['grid_price_export'][0] = self.grid.price_export
+            self._df_record_state['grid_co2'][0] = self.grid.co2
         self.done = False
 
 
-- 
2.43.0


From e92da4069b47816f416ed15d6fb9a098963fdc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 57/93] fix: legacy rule-based control dropped the smallest
 genset production or asked for twice as much

---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index 9eeb765..4420d43 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -98,7 +98,7 @@ class NonModularRuleBasedControl:
                 if min_load <= temp_load:
                     temp_load = temp_load - min_load
                 else:
-                    temp_load = min_load
+                    temp_load = 0
                     priority_dict = {'PV': 0,
                                      'battery': 0,
                                      'grid': 0,
@@ -157,7 +157,7 @@ class NonModularRuleBasedControl:
                         pv_not_curtailed = pv_not_curtailed + p_export
 
                 if gen == 'genset':
-                    if temp_load > 0:
+                    if temp_load > 0 or min_load > 0:
                         p_genset = temp_load + min_load
                         temp_load = 0
                         min_load = 0
-- 
2.43.0


From 2c28616c4d0decdc5fe18a05ba3d4af1a58b8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 58/93] fix: legacy rule-based control ran one step less than
 model predictive control and could not be compared with it

---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index 4420d43..3189445 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -189,7 +189,7 @@ class NonModularRuleBasedControl:
         baseline_priority_list_co2 = deepcopy(self.microgrid._df_record_co2)
 
         if length is None or length >= self.microgrid._data_length:
-            length = self.microgrid._data_length-1
+            length = self.microgrid._data_length
 
         n = length - self.microgrid.horizon
         print_ratio = n/100
-- 
2.43.0


From a620004f9dd99e1ee4a57370ac5e4954f414d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 59/93] fix: the rule-based benchmark of a legacy microgrid
 always failed

---
 src/pymgrid/algos/Control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index cd91eef..a613905 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -287,8 +287,8 @@ class Benchmarks:
         :return:
             None
         """
-        from pymgrid.algos import RuleBasedControl
-        RBC = RuleBasedControl(self.microgrid)
+        from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
+        RBC = NonModularRuleBasedControl(self.microgrid)
         self.rule_based_output = RBC.run_rule_based()
         self.has_rule_based_benchmark = True
         self.outputs_dict[self.rule_based_output.alg_name] = self.rule_based_output
-- 
2.43.0


From 26b1d09bf056f62713f8499d78a5a070803f4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:24 +0000
Subject: [PATCH 60/93] fix: the outputs of two benchmarks could not be
 compared by cost

---
 src/pymgrid/algos/Control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index a613905..e489c46 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -217,17 +217,17 @@ class ControlOutput(dict):
     def __eq__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) == np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) == np.sum(other['cost']['total_cost'])
 
     def __lt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) < np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) < np.sum(other['cost']['total_cost'])
 
     def __gt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) > np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) > np.sum(other['cost']['total_cost'])
 
 
 class Benchmarks:
-- 
2.43.0


From 7dcf57b31a5dfc2dd27369a923889a29cdd6b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:24 +0000
Subject: [PATCH 61/93] fix: the table of a benchmark output changed the output

---
 src/pymgrid/algos/Control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index e489c46..b9b8ebb 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -206,7 +206,7 @@ class ControlOutput(dict):
             for k_2, v_2 in v_1.items():
                 if len(v_2) > max_len:
                     max_len = len(v_2)
-                d[(k_1, k_2)] = v_2
+                d[(k_1, k_2)] = list(v_2)
 
         for _, v in d.items():
             if len(v) < max_len:
-- 
2.43.0


From 3d32eef26c6379ee6c2bf248c433a86411fff017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:32 +0000
Subject: [PATCH 62/93] fix: the parameters of generated microgrids could not
 be printed

---
 src/pymgrid/MicrogridGenerator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/MicrogridGenerator.py b/src/pymgrid/MicrogridGenerator.py
index f24f771..463eaf4 100644
--- a/src/pymgrid/MicrogridGenerator.py
+++ b/src/pymgrid/MicrogridGenerator.py
@@ -612,9 +612,8 @@ class MicrogridGenerator:
         if id == 'all':
 
             if self.microgrids != []:
-                parameters = pd.DataFrame()
-                for i in range(self.nb_microgrids):
-                    parameters = parameters.append(self.microgrids[i].parameters, ignore_index=True)
+                parameters = pd.concat([self.microgrids[i].parameters for i in range(self.nb_microgrids)],
+                                       ignore_index=True)
 
                 pd.options.display.max_columns = None
                 display(parameters)
-- 
2.43.0


From 44c610a8981fabc13f2461c82530aaa5ce2ec7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 63/93] fix: a user-defined forecaster that returns a list was
 accepted but failed when used

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index e1c1f8d..2146fed 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -204,7 +204,7 @@ class UserDefinedForecaster(Forecaster):
 
     def _cast_to_arr(self, forecast, val_c_n):
         if self.cast_to_arr:
-            return np.array(forecast.reshape(val_c_n.shape))
+            return np.array(forecast).reshape(val_c_n.shape)
         return forecast
 
     def _forecast(self, val_c, val_c_n, n):
-- 
2.43.0


From 82eb02c0999d73ee520cabf8580752e2abcdb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 64/93] fix: a user-defined forecaster was rejected if there
 are one or two steps of data

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 2146fed..5e94393 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -282,7 +282,7 @@ class NoForecaster(Forecaster):
 
 def _validate_callable_forecaster(forecaster, time_series):
     val_c = time_series[0]
-    n = np.random.randint(2, len(time_series))
+    n = np.random.randint(2, len(time_series)) if len(time_series) > 2 else len(time_series)
     vector_true_forecast = time_series[:n]
     try:
         cast_to_arr = _validate_vectorized_forecaster(forecaster, val_c, vector_true_forecast, n)
-- 
2.43.0


From 54629a4fcb269d44845c83363a96bd07bd090af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 65/93] fix: a time series module could be created with a final
 step before its initial step

---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 34419ba..410348f 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -35,6 +35,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._time_series = self._set_time_series(time_series)
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
 
+        self.initial_step = initial_step
         self.final_step = final_step
 
         self._forecast_param = forecaster
-- 
2.43.0


From c4f3ec7aa09e359531f7b4d18d582c6247c3c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 66/93] fix: modules given as a tuple failed when the balancing
 module is added

---
 src/pymgrid/microgrid/microgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 02136ca..a4a7d50 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -172,6 +172,8 @@ class Microgrid(yaml.YAMLObject):
         if not pd.api.types.is_list_like(modules):
             raise TypeError("modules must be list-like of modules.")
 
+        modules = list(modules)
+
         if add_unbalanced_module:
             named = [module[1] if isinstance(module, tuple) else module for module in modules]
             initial_step = next((getattr(module, 'initial_step', 0) for module in named), 0)
-- 
2.43.0


From 16da62c24ae0561384caa19e1f50ab4aeade303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:51 +0000
Subject: [PATCH 67/93] fix: forecasters for a module that does not exist were
 rejected after setting some of the others

---
 src/pymgrid/microgrid/microgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index a4a7d50..47b95de 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -542,10 +542,11 @@ class Microgrid(yaml.YAMLObject):
 
         """
         if isinstance(forecaster, dict):
-            for module_name, _forecaster in forecaster.items():
+            for module_name in forecaster:
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
+            for module_name, _forecaster in forecaster.items():
                 for module in self._modules[module_name]:
                     try:
                         module.set_forecaster(
-- 
2.43.0


From de8ec298f1a5a6061295f4095bcfc9b4df878264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:08 +0000
Subject: [PATCH 68/93] fix: a rejected forecaster still changed the forecast
 horizon and state of the module

---
 .../base/timeseries/base_timeseries_module.py | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 410348f..7974e0b 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -237,17 +237,25 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         """
 
-        self._forecast_param = forecaster
+        previous_horizon = self._forecast_horizon
         self._forecast_horizon = forecast_horizon * (forecaster is not None)
-        self._state_dict_keys = self._set_state_dict_keys()
-        self._observation_space = self._get_observation_spaces()
+        observation_space = self._get_observation_spaces()
 
-        self._forecaster = get_forecaster(forecaster,
-                                          self._observation_space,
-                                          (self.forecast_horizon, len(self.state_components)),
-                                          self.time_series[self.initial_step:self._final_step, :],
-                                          increase_uncertainty=forecaster_increase_uncertainty,
-                                          relative_noise=forecaster_relative_noise)
+        try:
+            new_forecaster = get_forecaster(forecaster,
+                                            observation_space,
+                                            (self.forecast_horizon, len(self.state_components)),
+                                            self.time_series[self.initial_step:self._final_step, :],
+                                            increase_uncertainty=forecaster_increase_uncertainty,
+                                            relative_noise=forecaster_relative_noise)
+        except Exception:
+            self._forecast_horizon = previous_horizon
+            raise
+
+        self._forecast_param = forecaster
+        self._state_dict_keys = self._set_state_dict_keys()
+        self._observation_space = observation_space
+        self._forecaster = new_forecaster
 
         self._current_forecast = self.forecast()
 
-- 
2.43.0


From 714176b037175543eec820a0229285739e39903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:25 +0000
Subject: [PATCH 69/93] fix: a microgrid without time series modules could not
 be created

---
 src/pymgrid/microgrid/microgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 47b95de..312f941 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -688,7 +688,11 @@ class Microgrid(yaml.YAMLObject):
         return self._final_step
 
     def _get_module_final_step(self):
-        final_step = self.modules.get_attrs('final_step', unique=True)
+        try:
+            final_step = self.modules.get_attrs('final_step', unique=True)
+        except AttributeError:  # no time series modules
+            return np.inf
+
         try:
             return final_step.item()
         except ValueError:
-- 
2.43.0


From 212870d6fa05043b80fb9a68ade14a017ca50628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:31 +0000
Subject: [PATCH 70/93] fix: a user-defined forecaster that returns a
 one-dimensional array was accepted but failed when used

---
 src/pymgrid/forecast/forecaster.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 5e94393..fc13748 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -203,9 +203,7 @@ class UserDefinedForecaster(Forecaster):
         super().__init__(observation_space, forecast_shape)
 
     def _cast_to_arr(self, forecast, val_c_n):
-        if self.cast_to_arr:
-            return np.array(forecast).reshape(val_c_n.shape)
-        return forecast
+        return np.array(forecast).reshape((-1, val_c_n.shape[1]))
 
     def _forecast(self, val_c, val_c_n, n):
         forecast = self._forecaster(val_c, val_c_n, n)
-- 
2.43.0


From 0f19879ba76dc2e0db58a954937d84962646c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 71/93] fix: stochastic control recorded the data of the
 current step as the next state

---
 src/pymgrid/algos/saa/saa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index cd68acd..8e0208e 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -142,9 +142,9 @@ class SampleAverageApproximation(SampleGenerator):
             # return horizon_outputs
 
             optimal_output = self.determine_optimal_actions(outputs=horizon_outputs, percentile=optimal_percentile)
-            output.append(optimal_output, actual_load=self.underlying_data.loc[j,'load'],
-                          actual_pv=self.underlying_data.loc[j,'pv'],
-                          actual_grid=self.underlying_data.loc[j,'grid'])
+            output.append(optimal_output, actual_load=self.underlying_data.loc[j + 1, 'load'],
+                          actual_pv=self.underlying_data.loc[j + 1, 'pv'],
+                          actual_grid=self.underlying_data.loc[j + 1, 'grid'])
 
         return output
 
-- 
2.43.0


From b97be9d99fa64376e807f1acd447d0d36aa8b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 72/93] fix: stochastic control failed for the highest
 percentile

---
 src/pymgrid/algos/saa/saa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index 8e0208e..062917f 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -94,7 +94,7 @@ class SampleAverageApproximation(SampleGenerator):
         if percentile < 0. or percentile > 1.:
             raise ValueError('percentile must be in [0,1]')
 
-        partition_val = int(np.floor(len(outputs)*percentile))
+        partition_val = min(int(np.floor(len(outputs)*percentile)), len(outputs)-1)
         partition = np.partition(outputs, partition_val)
 
         if verbose:
-- 
2.43.0


From a961cd6a587b6b8e264c7dc4a2233d507f4c1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 73/93] fix: deterministic control on the forecast ran no step

---
 src/pymgrid/algos/saa/saa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index 062917f..31a12be 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -164,10 +164,12 @@ class SampleAverageApproximation(SampleGenerator):
             if verbose:
                 print('iter {}'.format(j))
 
-                sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data
+            sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data
 
-                horizon_output = self.mpc.mpc_single_step(sample, output, j)
+            horizon_output = self.mpc.mpc_single_step(sample, output, j)
 
-                output.append(horizon_output)
+            output.append(horizon_output, actual_load=self.underlying_data.loc[j + 1, 'load'],
+                          actual_pv=self.underlying_data.loc[j + 1, 'pv'],
+                          actual_grid=self.underlying_data.loc[j + 1, 'grid'])
 
-            return output
\ No newline at end of file
+        return output
\ No newline at end of file
-- 
2.43.0


From a7271c5503080cfd2034ffa1e6aea0e960865803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 74/93] fix: a run of stochastic control overwrote its samples
 with the actual data, which the next run then knew in advance

---
 src/pymgrid/algos/saa/saa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index 31a12be..b98d913 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -111,6 +111,7 @@ class SampleAverageApproximation(SampleGenerator):
 
     def run_mpc_on_group(self, samples, forecast_steps=None, optimal_percentile=0.5, verbose=False):
         columns_needed = ('pv', 'load', 'grid')
+        samples = [sample.copy() for sample in samples]
 
         output = ControlOutput(alg_name='saa', empty=True, microgrid=self.microgrid)
 
-- 
2.43.0


From b4fb99d094293e917cbbcc7656c3d0c01968927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 75/93] fix: the forecast presets of stochastic control, and so
 its benchmark, failed on microgrids whose renewable data is not named 'GH
 illum (lx)'

---
 src/pymgrid/utils/DataGenerator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index 59083e2..ad247b9 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -496,7 +496,11 @@ class NoisyPVData:
             stacked_data = self._check_sample(stacked_data, verbose=verbose)
 
             if push_individual_vals:
-                stacked_data['pv'] += push_individual_ratio*(self.unmunged_data['GH illum (lx)']-stacked_data['pv'])
+                col_name = 'GH illum (lx)'
+                if len(self.unmunged_data.columns) == 1:
+                    col_name = self.unmunged_data.columns[0]
+
+                stacked_data['pv'] += push_individual_ratio*(self.unmunged_data[col_name]-stacked_data['pv'])
 
             return stacked_data
 
-- 
2.43.0


From 50d76b4b7e8288062c3b322d338308cd1a4013a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:07 +0000
Subject: [PATCH 76/93] fix: the legacy microgrid recorded a dictionary instead
 of zero for a control that was not given

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 90b1434..723a4fd 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -882,7 +882,7 @@ class NonModularMicrogrid:
             if j in control_dict.keys():
                 df[j].append(control_dict[j])
             else:
-                df[j].append({j:0})
+                df[j].append(0)
         #df = df.append(control_dict,ignore_index=True)
 
         return df
-- 
2.43.0


From 0d4bb58e00f607f50f87a27c6ab66bd37dce54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:07 +0000
Subject: [PATCH 77/93] fix: the penalty of the legacy microgrid could not be
 computed

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 723a4fd..b017d90 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1273,6 +1273,8 @@ class NonModularMicrogrid:
         """Penalty that represents discrepancies between control dict and what really happens. """
         penalty = 0
         for i in self._df_record_control_dict:
+            if i not in self._df_record_actual_production:
+                continue
             penalty += abs(self._df_record_control_dict[i][-1] - self._df_record_actual_production[i][-1])
 
         return penalty*coef
-- 
2.43.0


From c4251aec7805c15243e1e9860cafe30be8bfa176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:57 +0000
Subject: [PATCH 78/93] fix: a genset that refused a negative request changed
 its status all the same

---
 src/pymgrid/modules/genset_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 6c209ef..5e43919 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -154,7 +154,7 @@ class GensetModule(BaseMicrogridModule):
         self.update_status(goal_status)
         try:
             return super().step(action, normalized=normalized)
-        except ValueError:  # A rejected step does not change the genset's status.
+        except Exception:  # A rejected step does not change the genset's status.
             self._current_status, self._goal_status, self._steps_until_up, self._steps_until_down = status
             raise
 
-- 
2.43.0


From 4e262a15c8930bd827bb692f35b57caf5198c26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:57 +0000
Subject: [PATCH 79/93] fix: microgrids whose windows differ were equal if
 their trajectory had chosen the same steps

---
 src/pymgrid/microgrid/microgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 312f941..354bb7e 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -1040,6 +1040,7 @@ class Microgrid(yaml.YAMLObject):
         return all([
             self.modules == other.modules,
             self._balance_logger == other._balance_logger,
+            (self.initial_step, self.final_step) == (other.initial_step, other.final_step),
             self.trajectory_func == other.trajectory_func])
 
     def __repr__(self):
-- 
2.43.0


From 11e9f32bc09568e4c2b91774b9a0aa17b871fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:37 +0000
Subject: [PATCH 80/93] fix: a time series shorter than the final step of the
 module was accepted, and the module failed when it reached its end

---
 .../modules/base/timeseries/base_timeseries_module.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 7974e0b..8c7c70d 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -155,7 +155,11 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
     @time_series.setter
     def time_series(self, value):
-        self._time_series = self._set_time_series(value)
+        value = self._set_time_series(value)
+        if len(value) < self._final_step:
+            raise ValueError('time_series must not be shorter than final_step.')
+
+        self._time_series = value
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
         self._action_space = self._get_action_spaces()
         self._observation_space = self._get_observation_spaces()
-- 
2.43.0


From e5db8122cfe9224a2aeee02845489bf8b8ac3325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:37 +0000
Subject: [PATCH 81/93] fix: relative forecast noise kept the scale of the
 previous time series when the series was replaced

---
 src/pymgrid/forecast/forecaster.py                          | 6 ++++++
 .../modules/base/timeseries/base_timeseries_module.py       | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index fc13748..80edaea 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -148,6 +148,9 @@ class Forecaster:
 
         return forecast
 
+    def time_series_changed(self, time_series):
+        pass
+
     @property
     def observation_space(self):
         return self._observation_space
@@ -240,6 +243,9 @@ class GaussianNoiseForecaster(Forecaster):
 
         return scalar_val
 
+    def time_series_changed(self, time_series):
+        self._scalar_noise_std = self._get_scalar_noise_std(time_series)
+
     def _get_noise(self, size):
         try:
             return np.random.normal(scale=self.noise_std, size=size)
diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 8c7c70d..7e54356 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -164,6 +164,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._action_space = self._get_action_spaces()
         self._observation_space = self._get_observation_spaces()
         self._forecaster.observation_space = self._observation_space
+        self._forecaster.time_series_changed(self._time_series[self.initial_step:self._final_step, :])
         self._current_forecast = self.forecast()
 
     @property
-- 
2.43.0


From fff19212008e4568d0550e8057f4c38b0f51c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:37 +0000
Subject: [PATCH 82/93] fix: a grid accepted a new time series that it would
 have rejected when created

---
 src/pymgrid/modules/grid_module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 71d6703..aa36283 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -122,6 +122,10 @@ class GridModule(BaseTimeSeriesMicrogridModule):
 
         return time_series
 
+    def _set_time_series(self, time_series):
+        time_series = self._check_params(self.max_import, self.max_export, np.asarray(time_series))
+        return super()._set_time_series(time_series)
+
     def _get_bounds(self):
         min_obs = self._time_series.min(axis=0)
         max_obs = self._time_series.max(axis=0)
-- 
2.43.0


From 4e4fd195a66d00185549224e83461f95f9be001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:37 +0000
Subject: [PATCH 83/93] fix: the observation space of a microgrid or
 environment was outdated when the data or forecast horizon of its modules had
 changed

---
 src/pymgrid/envs/base/base.py      |  4 ++++
 src/pymgrid/microgrid/microgrid.py | 11 +++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index eb47f79..2b4936c 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -167,6 +167,10 @@ class BaseMicrogridEnv(Microgrid, Env):
         super().set_forecaster(*args, **kwargs)
         self.observation_space, self._nested_observation_space = self._get_observation_space()
 
+    def set_module_attr(self, attr_name, value):
+        super().set_module_attr(attr_name, value)
+        self.observation_space, self._nested_observation_space = self._get_observation_space()
+
     def reset(self):
         obs = super().reset()
         return self._get_obs(obs)
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 354bb7e..e2cdf0a 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -114,8 +114,6 @@ class Microgrid(yaml.YAMLObject):
         self.microgrid_action_space = MicrogridSpace(
             self._modules.get_attrs('action_space', 'module_type', as_pandas=False), 'act'
         )
-        self._set_observation_space()
-
         self._initial_step = self._get_module_initial_step()
         self._final_step = self._get_module_final_step()
 
@@ -125,10 +123,9 @@ class Microgrid(yaml.YAMLObject):
         self._balance_logger = ModularLogger()
         self._microgrid_logger = ModularLogger()  # log additional information.
 
-    def _set_observation_space(self):
-        self.microgrid_observation_space = MicrogridSpace(
-            self._modules.get_attrs('observation_space', as_pandas=False), 'obs'
-        )
+    @property
+    def microgrid_observation_space(self):
+        return MicrogridSpace(self._modules.get_attrs('observation_space', as_pandas=False), 'obs')
 
     def _get_unbalanced_energy_module(self,
                                       loss_load_cost,
@@ -569,8 +566,6 @@ class Microgrid(yaml.YAMLObject):
                 except AttributeError:
                     pass
 
-        self._set_observation_space()
-
     def get_forecast_horizon(self):
         """
         Get the forecast horizon of timeseries modules contained in the microgrid.
-- 
2.43.0


From b937140d274585794349a242b62c33f63919101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:37 +0000
Subject: [PATCH 84/93] fix: a priority list asked a running genset for less
 than its minimum, which a genset that raises errors refused

---
 src/pymgrid/algos/priority_list/priority_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/priority_list/priority_list.py b/src/pymgrid/algos/priority_list/priority_list.py
index 2bbedae..e82daf8 100644
--- a/src/pymgrid/algos/priority_list/priority_list.py
+++ b/src/pymgrid/algos/priority_list/priority_list.py
@@ -99,7 +99,9 @@ class PriorityListAlgo:
                 module_energy = self._consume_in_module(module_to_deploy, remaining_load)
 
             try:
-                action[module_name][module_number].append(module_energy)
+                # A running genset must produce at least its minimum.
+                min_production = module_to_deploy.next_min_production(module_action_number)
+                action[module_name][module_number].append(max(module_energy, min_production))
             except AttributeError:
                 action[module_name][module_number] = module_energy
 
-- 
2.43.0


From 1186e3d25c542d879eece40789480f7c8223b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:48 +0000
Subject: [PATCH 85/93] fix: the initial step of a microgrid could be set to a
 step outside its window

---
 src/pymgrid/microgrid/microgrid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index e2cdf0a..29b4490 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -663,6 +663,12 @@ class Microgrid(yaml.YAMLObject):
 
     @initial_step.setter
     def initial_step(self, value):
+        if not value // 1 == value:
+            raise ValueError('initial_step value must be an integer.')
+
+        if not 0 <= value < self._final_step:
+            raise ValueError('initial_step value must be non-negative and less than final_step')
+
         self._set_initial_step(value)
 
     def _set_initial_step(self, value, modules_only=False):
-- 
2.43.0


From 553f3c0166c341c4778dce51487f4bd0da06d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:51 +0000
Subject: [PATCH 86/93] fix: microgrids dumped to files of one directory whose
 names differ in the extension only overwrote each other's data

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index b082b6d..5d073bd 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -25,7 +25,7 @@ def dump_data(data_dict, stream, yaml_tag):
     if not hasattr(stream, "name"):
         return data_dict
 
-    path = Path(stream.name).parent / "data" / Path(stream.name).stem
+    path = Path(stream.name).parent / "data" / Path(stream.name).name
     return add_path_to_arr_like(data_dict, path, yaml_tag)
 
 
-- 
2.43.0


From 03c5ee5ad4ead8a4e6c16431d31a8a34f8d88163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 87/93] fix: model predictive control counted the revenue of
 exports as a cost

---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index dac98ad..e9f017e 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -91,7 +91,7 @@ class ModelPredictiveControl:
         else:
             self.p_vars = cp.Variable((7*self.horizon,), pos=True)
             self.u_genset = None
-            self.costs = cp.Parameter(7 * self.horizon, nonneg=True)
+            self.costs = cp.Parameter(7 * self.horizon)
             self.inequality_rhs = cp.Parameter(8 * self.horizon)
 
         self.equality_rhs = cp.Parameter(2 * self.horizon)  # rhs
@@ -483,10 +483,10 @@ class ModelPredictiveControl:
         # Set costs
         if self.has_genset:
             self.costs.value[1::8] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[2::8] = export_price.reshape(-1)
+            self.costs.value[2::8] = -1.0 * export_price.reshape(-1)
         else:
             self.costs.value[0::7] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[1::7] = export_price.reshape(-1)
+            self.costs.value[1::7] = -1.0 * export_price.reshape(-1)
 
         if np.isnan(self.costs.value).any():
             raise RuntimeError('There are still nan values in self.costs.value, something is wrong')
-- 
2.43.0


From 11611817e8dc84917c214547d2e579acb9f8d441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 88/93] fix: model predictive control failed if the battery was
 given a name

---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index e9f017e..32ad8d2 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -197,7 +197,7 @@ class ModelPredictiveControl:
         return eta, battery_capacity, fuel_cost, cost_battery_cycle, cost_loss_load, p_genset_min, p_genset_max, cost_co2, genset_co2
 
     def _parse_modular_microgrid(self):
-        battery = self.microgrid.battery.item()
+        battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
 
         eta = battery.efficiency
         battery_capacity = battery.max_capacity
@@ -921,8 +921,8 @@ class ModelPredictiveControl:
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
         try:
-            battery = self.microgrid.battery.item()
-        except AttributeError:
+            battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
+        except KeyError:
             raise ValueError(f"Microgrid {self.microgrid} has no battery.")
         else:
             e_min = battery.min_soc
-- 
2.43.0


From e5ec8d004426f1873277ab00f7f22faa755ebcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 89/93] fix: model predictive control planned with the internal
 limits of a battery as if they were external

---
 src/pymgrid/algos/mpc/mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 32ad8d2..869c4ad 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -927,8 +927,8 @@ class ModelPredictiveControl:
         else:
             e_min = battery.min_soc
             e_max = battery.max_soc
-            battery_max_charge = battery.max_charge
-            battery_max_discharge = battery.max_discharge
+            battery_max_charge = battery.max_charge / battery.efficiency
+            battery_max_discharge = battery.max_discharge * battery.efficiency
 
             soc_0 = battery.soc
 
-- 
2.43.0


From 05fc0950b6edd1dccb0cf101e2efa124795e7e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:33 +0000
Subject: [PATCH 90/93] fix: a microgrid loaded after its forecasters had
 changed during the episode was not equal to the dumped one

---
 src/pymgrid/utils/logger.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 4ba8f3b..2543ce3 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -45,6 +45,16 @@ class ModularLogger(UserDict):
     def __len__(self):
         return self._log_length
 
+    def __eq__(self, other):
+        if not isinstance(other, ModularLogger):
+            return super().__eq__(other)
+
+        # A field that did not exist yet in a step is logged as nan, which is equal to nan here.
+        return self.keys() == other.keys() and all(
+            len(v) == len(other[k]) and all(x is y or x == y or (x != x and y != y) for x, y in zip(v, other[k]))
+            for k, v in self.items()
+        )
+
     @classmethod
     def from_raw(cls, raw):
         if raw is None:
-- 
2.43.0


From 799f6794aa70fd4c6f9f2e5b7959ce1f204ec926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:58 +0000
Subject: [PATCH 91/93] fix: an illegal window drawn by the trajectory function
 after the first draw was accepted silently

---
 src/pymgrid/microgrid/microgrid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 29b4490..a0294ee 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -185,8 +185,11 @@ class Microgrid(yaml.YAMLObject):
         if not callable(trajectory_func):
             raise TypeError('trajectory_func must be callable.')
 
-        output = trajectory_func(self._initial_step, self._final_step)
+        self._check_trajectory_output(trajectory_func(self._initial_step, self._final_step))
 
+        return trajectory_func
+
+    def _check_trajectory_output(self, output):
         try:
             initial_step, final_step = output
             if not (isinstance(initial_step, int) and isinstance(final_step, int)):
@@ -206,7 +209,7 @@ class Microgrid(yaml.YAMLObject):
             raise ValueError(f'trajectory_func returned values ({initial_step}, {final_step}) such that initial_step'
                              f'was greater than or equal to final_step.')
 
-        return trajectory_func
+        return initial_step, final_step
 
     def reset(self):
         """
@@ -226,7 +229,9 @@ class Microgrid(yaml.YAMLObject):
 
     def _set_trajectory(self):
         if self.trajectory_func is not None:
-            initial_step, final_step = self.trajectory_func(self._initial_step, self._final_step)
+            initial_step, final_step = self._check_trajectory_output(
+                self.trajectory_func(self._initial_step, self._final_step)
+            )
             self._set_initial_step(initial_step, modules_only=True)
             self._set_final_step(final_step, modules_only=True)
 
-- 
2.43.0


From 96516ab1d7572505013837ed82a6e67ec044f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:58 +0000
Subject: [PATCH 92/93] fix: the hour in the state of the legacy microgrid was
 that of the previous step

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index b017d90..846636d 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -898,7 +898,7 @@ class NonModularMicrogrid:
         new_dict = {
             'load': next_load,
                     'pv': next_pv,
-            'hour':self._tracking_timestep%24,
+            'hour': (df['hour'][-1] + 1) % 24,  # of the next step, as are load and pv
         }
         new_soc =np.nan
         if self.architecture['battery'] == 1:
-- 
2.43.0


From 70dac7277ddde8618a16f95260c6ec11fd1fa939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:21 +0000
Subject: [PATCH 93/93] fix: after a trajectory was removed, episodes kept the
 window of the last trajectory

---
 src/pymgrid/envs/base/base.py      |  1 +
 src/pymgrid/microgrid/microgrid.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 2b4936c..a541e9b 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -306,6 +306,7 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         # The modules may hold the window of a single episode.
         env._initial_step, env._final_step = microgrid.initial_step, microgrid.final_step
+        env._holds_trajectory = microgrid.trajectory_func is not None
         env.trajectory_func = env._check_trajectory_func(trajectory_func)
 
         for module in env.modules.iterlist():
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index a0294ee..f0ddfbc 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -119,6 +119,7 @@ class Microgrid(yaml.YAMLObject):
 
         self.reward_shaping_func = reward_shaping_func
         self.trajectory_func = self._check_trajectory_func(trajectory_func)
+        self._holds_trajectory = False  # whether the window of the modules may be that of a single episode.
 
         self._balance_logger = ModularLogger()
         self._microgrid_logger = ModularLogger()  # log additional information.
@@ -232,8 +233,14 @@ class Microgrid(yaml.YAMLObject):
             initial_step, final_step = self._check_trajectory_output(
                 self.trajectory_func(self._initial_step, self._final_step)
             )
-            self._set_initial_step(initial_step, modules_only=True)
-            self._set_final_step(final_step, modules_only=True)
+        elif self._holds_trajectory:  # of a previous episode, whose trajectory_func has been removed.
+            initial_step, final_step = self._initial_step, self._final_step
+        else:
+            return
+
+        self._set_initial_step(initial_step, modules_only=True)
+        self._set_final_step(final_step, modules_only=True)
+        self._holds_trajectory = self.trajectory_func is not None
 
     def run(self, control, normalized=True):
         """
@@ -919,6 +926,7 @@ class Microgrid(yaml.YAMLObject):
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
+        instance._holds_trajectory = instance.trajectory_func is not None
         instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
-- 
2.43.0


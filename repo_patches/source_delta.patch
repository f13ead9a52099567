From 193e4d3f7fdd1b425fb55bc98e609c91025bacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 01/49] fix: interpret last_time_step_hours in hours for every
 datetime resolution

---
 flixOpt/flow_system.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 42c2fbe..7cb55c3 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -52,9 +52,12 @@ class FlowSystem:
         if self.time_series.dtype == np.dtype('datetime64[ns]'):
             self.time_series = self.time_series.astype('datetime64[us]')
 
-        self.last_time_step_hours = (
-            self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
-        )
+        if last_time_step_hours is None:
+            self.last_time_step_hours = self.time_series[-1] - self.time_series[-2]
+        elif isinstance(last_time_step_hours, np.timedelta64):
+            self.last_time_step_hours = last_time_step_hours
+        else:  # Given in hours, independent of the resolution of the time_series
+            self.last_time_step_hours = np.timedelta64(round(last_time_step_hours * 3600 * 10**6), 'us')
         self.time_series_with_end = np.append(self.time_series, self.time_series[-1] + self.last_time_step_hours)
         self.previous_dt_in_hours: Union[int, float, np.ndarray] = (
             ((self.time_series[1] - self.time_series[0]) / np.timedelta64(1, 'h'))
-- 
2.43.0


From 98f094c584d2b2ec247cfc1bfc4d2da89165f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 02/49] fix: accept TimeSeriesData in CHP, CoolingTower and
 HeatPumpWithSource

---
 flixOpt/linear_converters.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/flixOpt/linear_converters.py b/flixOpt/linear_converters.py
index 65e6e88..b79d437 100644
--- a/flixOpt/linear_converters.py
+++ b/flixOpt/linear_converters.py
@@ -3,7 +3,7 @@ This Module contains high-level classes to easily model a FlowSystem.
 """
 
 import logging
-from typing import Dict, Optional
+from typing import Callable, Dict, Optional
 
 import numpy as np
 
@@ -167,7 +167,7 @@ class CoolingTower(LinearConverter):
             label,
             inputs=[P_el, Q_th],
             outputs=[],
-            conversion_factors=[{P_el: 1, Q_th: -specific_electricity_demand}],
+            conversion_factors=[{P_el: 1, Q_th: _apply(lambda demand: -1 * demand, specific_electricity_demand)}],
             on_off_parameters=on_off_parameters,
             meta_data=meta_data,
         )
@@ -232,7 +232,7 @@ class CHP(LinearConverter):
 
         check_bounds(eta_th, 'eta_th', self.label_full, 0, 1)
         check_bounds(eta_el, 'eta_el', self.label_full, 0, 1)
-        check_bounds(eta_el + eta_th, 'eta_th+eta_el', self.label_full, 0, 1)
+        check_bounds(_apply(lambda el, th: el + th, eta_el, eta_th), 'eta_th+eta_el', self.label_full, 0, 1)
 
 
 class HeatPumpWithSource(LinearConverter):
@@ -265,7 +265,7 @@ class HeatPumpWithSource(LinearConverter):
 
         # super:
         electricity = {P_el: COP, Q_th: 1}
-        heat_source = {Q_ab: COP / (COP - 1), Q_th: 1}
+        heat_source = {Q_ab: _apply(lambda cop: cop / (cop - 1), COP), Q_th: 1}
 
         super().__init__(
             label,
@@ -284,6 +284,20 @@ class HeatPumpWithSource(LinearConverter):
         check_bounds(COP, 'eta_th', self.label_full, 1, 20)
 
 
+def _apply(function: Callable, *values: Numeric_TS) -> Numeric_TS:
+    """
+    Computes a new value from one or more values, which can be scalars, arrays or TimeSeriesData.
+    The result is TimeSeriesData (with the aggregation group and weight of the first one), if any of the values is.
+    """
+    time_series_data = [value for value in values if isinstance(value, TimeSeriesData)]
+    result = function(*[value.data if isinstance(value, TimeSeriesData) else value for value in values])
+    if not time_series_data:
+        return result
+    return TimeSeriesData(
+        result, agg_group=time_series_data[0].agg_group, agg_weight=time_series_data[0].agg_weight
+    )
+
+
 def check_bounds(
     value: Numeric_TS, parameter_label: str, element_label: str, lower_bound: Numeric_TS, upper_bound: Numeric_TS
 ):
-- 
2.43.0


From 4dada2f5c4db7456c44a1a16ba0cf47a4b5284a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 03/49] fix: accept arrays as effects_per_switch_on and
 effects_per_running_hour

---
 flixOpt/interface.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 17ac02b..ba99fc5 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -6,6 +6,8 @@ These are tightly connected to features.py
 import logging
 from typing import TYPE_CHECKING, Dict, List, Optional, Tuple, Union
 
+import numpy as np
+
 from .config import CONFIG
 from .core import Numeric, Numeric_TS, Skalar
 from .structure import Element, Interface
@@ -139,8 +141,16 @@ class OnOffParameters(Interface):
         force_switch_on : bool
             force creation of switch on variable, even if there is no switch_on_total_max
         """
-        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = effects_per_switch_on or {}
-        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = effects_per_running_hour or {}
+        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_switch_on
+            if isinstance(effects_per_switch_on, np.ndarray)
+            else effects_per_switch_on or {}
+        )
+        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_running_hour
+            if isinstance(effects_per_running_hour, np.ndarray)
+            else effects_per_running_hour or {}
+        )
         self.on_hours_total_min: Skalar = on_hours_total_min
         self.on_hours_total_max: Skalar = on_hours_total_max
         self.consecutive_on_hours_min: Numeric_TS = consecutive_on_hours_min
-- 
2.43.0


From c683f86d91145182078ba551778d794b6eec143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 04/49] fix: accept TimeSeriesData as relative bounds of a Flow

---
 flixOpt/elements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index e2402d6..7c14359 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from .config import CONFIG
-from .core import Numeric, Numeric_TS, Skalar
+from .core import Numeric, Numeric_TS, Skalar, TimeSeriesData
 from .effects import EffectValues, effect_values_to_time_series
 from .features import InvestmentModel, OnOffModel, PreventSimultaneousUsageModel
 from .interface import InvestParameters, OnOffParameters
@@ -258,7 +258,11 @@ class Flow(Element):
 
     def _plausibility_checks(self) -> None:
         # TODO: Incorporate into Variable? (Lower_bound can not be greater than upper bound
-        if np.any(self.relative_minimum > self.relative_maximum):
+        relative_minimum, relative_maximum = (
+            value.data if isinstance(value, TimeSeriesData) else value
+            for value in (self.relative_minimum, self.relative_maximum)
+        )
+        if np.any(relative_minimum > relative_maximum):
             raise Exception(self.label_full + ': Take care, that relative_minimum <= relative_maximum!')
 
         if (
-- 
2.43.0


From f7742d48e6259c1e869e3eafde0777ca85196dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 05/49] fix: count only the last contiguous block of previous
 values as consecutive duration

---
 flixOpt/features.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index f05d7d2..c53458c 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -603,7 +603,9 @@ class OnOffModel(ElementModel):
 
         # Find the indexes where value=`0` in a 1D-array
         zero_indices = np.where(np.isclose(binary_values, 0, atol=CONFIG.modeling.EPSILON))[0]
-        length_of_last_duration = zero_indices[-1] + 1 if zero_indices.size > 0 else len(binary_values)
+        length_of_last_duration = len(binary_values) - (zero_indices[-1] + 1 if zero_indices.size > 0 else 0)
+        if length_of_last_duration == 0:
+            return 0
 
         if not np.isscalar(binary_values) and np.isscalar(dt_in_hours):
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours)
@@ -612,7 +614,7 @@ class OnOffModel(ElementModel):
             if length_of_last_duration > len(dt_in_hours):  # check that lengths are compatible
                 raise TypeError(
                     f'When trying to calculate the consecutive duration, the length of the last duration '
-                    f'({len(length_of_last_duration)}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
+                    f'({length_of_last_duration}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
                     f'as {binary_values=}'
                 )
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours[-length_of_last_duration:])
-- 
2.43.0


From db55142f1fc8b644e7044a3360d0b029afa1f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 06/49] fix: derive the previous on-state of several flows from
 scalars and arrays of any length

---
 flixOpt/features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index c53458c..95dc124 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -563,11 +563,11 @@ class OnOffModel(ElementModel):
         if not previous_values:
             return np.array([0])
         else:  # Convert to 2D-array and compute binary on/off states
-            previous_values = np.array(previous_values)
-            if previous_values.ndim > 1:
-                return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
-            else:
-                return (~np.isclose(previous_values, 0, atol=epsilon)).astype(int)
+            # All values of one flow belong to consecutive time steps, ending right before the first time step
+            previous_values = [np.atleast_1d(values) for values in previous_values]
+            length = max(len(values) for values in previous_values)
+            previous_values = np.array([np.pad(values, (length - len(values), 0)) for values in previous_values])
+            return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
 
     @classmethod
     def get_consecutive_duration(
-- 
2.43.0


From 26b66780562c7179aa2e254cf497ddf560099973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 07/49] fix: lower bounds of an optional investment do not
 force the investment

---
 flixOpt/components.py | 8 +++++++-
 flixOpt/elements.py   | 7 +++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index c716551..1c76696 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -524,8 +524,14 @@ class StorageModel(ComponentModel):
                 relative_upper_bound * self.element.capacity_in_flow_hours,
             )
         else:
+            # An optional capacity can be 0
+            minimum_size = (
+                0
+                if self.element.capacity_in_flow_hours.optional
+                else self.element.capacity_in_flow_hours.minimum_size
+            )
             return (
-                relative_lower_bound * self.element.capacity_in_flow_hours.minimum_size,
+                relative_lower_bound * minimum_size,
                 relative_upper_bound * self.element.capacity_in_flow_hours.maximum_size,
             )
 
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 7c14359..6c269a0 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -307,12 +307,15 @@ class FlowModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         # eq relative_minimum(t) * size <= flow_rate(t) <= relative_maximum(t) * size
+        lower_bound, upper_bound = self.absolute_flow_rate_bounds
+        if self.with_investment and self.element.size.optional:  # The size can be 0
+            lower_bound = np.minimum(lower_bound, 0)
         self.flow_rate = create_variable(
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0] if self.element.on_off_parameters is None else 0,
-            upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
+            lower_bound=lower_bound if self.element.on_off_parameters is None else 0,
+            upper_bound=upper_bound if self.element.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
 
-- 
2.43.0


From 9640670487471fe3934ea4e0c65f8925b6c7a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 08/49] fix: initial_charge_state='lastValueOfSim' refers to
 the final charge state

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 1c76696..cda43e9 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -496,7 +496,7 @@ class StorageModel(ComponentModel):
             elif self.element.initial_charge_state == 'lastValueOfSim':
                 # eq: Q_Ladezustand(1) - Q_Ladezustand(end) = 0;
                 eq_initial.add_summand(self.charge_state, 1, system_model.indices[0])
-                eq_initial.add_summand(self.charge_state, -1, system_model.indices[-1])
+                eq_initial.add_summand(self.charge_state, -1, indices_charge_state[-1])
             else:
                 raise Exception(f'initial_charge_state has undefined value: {self.element.initial_charge_state}')
                 # TODO: Validation in Storage Class, not in Model
-- 
2.43.0


From 751d9991301cc214378851de825c468f432898d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 09/49] fix: honour final charge state limits with a free
 initial charge state

---
 flixOpt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index cda43e9..6a991bd 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -480,9 +480,8 @@ class StorageModel(ComponentModel):
             self.sub_models.append(self._investment)
             self._investment.do_modeling(system_model)
 
-        # Initial charge state
-        if self.element.initial_charge_state is not None:
-            self._model_initial_and_final_charge_state(system_model)
+        # Initial and final charge state
+        self._model_initial_and_final_charge_state(system_model)
 
     def _model_initial_and_final_charge_state(self, system_model):
         indices_charge_state = range(system_model.indices.start, system_model.indices.stop + 1)  # additional
-- 
2.43.0


From 5c63401ba5e1456d6b9e67d88711e71eddd251be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 10/49] fix: round results of binary variables instead of
 truncating them

---
 flixOpt/math_modeling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4fe7d70..82a1357 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1012,12 +1012,10 @@ class PyomoModel(ModelingLanguage):
         math_model.result_of_objective = self.model.objective.expr()
         for variable in math_model.variables:
             raw_results = self.mapping[variable].get_values().values()  # .values() of dict, because {0:0.1, 1:0.3,...}
-            if variable.is_binary:
-                dtype = np.int8  # geht das vielleicht noch kleiner ???
-            else:
-                dtype = float
             # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
-            result = np.fromiter(raw_results, dtype=dtype)
+            result = np.fromiter(raw_results, dtype=float)
+            if variable.is_binary:  # Solvers return binaries within a tolerance, e.g. 0.9999999
+                result = np.rint(result).astype(np.int8)
             # Falls skalar:
             if len(result) == 1:
                 variable.result = result[0]
-- 
2.43.0


From 1a5185aa7b0934eb45a46eb1ed9359901cd25b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 11/49] fix: keep the effect dictionaries passed by the user
 unchanged

---
 flixOpt/effects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 1b359b8..ad3450b 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -218,6 +218,7 @@ def effect_values_to_time_series(
     if nested_values is None:
         return None
     else:
+        nested_values = dict(nested_values)  # Do not alter the dictionary of the user
         standard_value = nested_values.pop(None, None)
         transformed_values = nested_values_to_time_series(nested_values, label_suffix, parent_element)
         if standard_value is not None:
-- 
2.43.0


From fcd66b81170c063f23058ef704a6276c568655b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 12/49] fix: allow absolute_losses of zero in a Transmission
 without on/off variables

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 6a991bd..3190443 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -364,7 +364,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if self.element.absolute_losses is not None:
+        if self.element.absolute_losses is not None and np.any(self.element.absolute_losses.active_data != 0):
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From 2c2a6e72d6e852371cd7c82b54734154d9873b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 13/49] fix: sum up the selected indices of a variable in
 SumOfSummand

---
 flixOpt/math_modeling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 82a1357..b5a4ad3 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1127,7 +1127,10 @@ class PyomoModel(ModelingLanguage):
     def _summand_math_expression(self, summand: Summand, at_index: int = 0) -> 'pyo.Expression':
         pyomo_variable = self.mapping[summand.variable]
         if isinstance(summand, SumOfSummand):
-            return sum(pyomo_variable[summand.indices[j]] * summand.factor_vec[j] for j in summand.indices)
+            indices = summand.indices
+            if len(indices) == 1:  # a single index is combined with every factor
+                indices = [indices[0]] * len(summand.factor_vec)
+            return sum(pyomo_variable[index] * factor for index, factor in zip(indices, summand.factor_vec, strict=True))
 
         # Ausdruck für i-te Gleichung (falls Skalar, dann immer gleicher Ausdruck ausgegeben)
         if summand.length == 1:
-- 
2.43.0


From 11b3b3a74fb5aff7c38b50035a84bcc7961dbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 14/49] fix: segmented calculation uses the given time_indices

---
 flixOpt/calculation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a7a16f..5075ed0 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -373,7 +373,7 @@ class SegmentedCalculation(Calculation):
             if self.sub_calculations:
                 self._transfer_start_values(name_of_segment)
             time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices.start}...{time_indices.stop - 1}):')
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
             calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
             # TODO: Add Before Values if available
             self.sub_calculations.append(calculation)
@@ -505,9 +505,10 @@ class SegmentedCalculation(Calculation):
             if isinstance(comp, Storage):
                 comp.initial_charge_state = self._original_start_values[comp]
 
-    def _get_indices(self, segment_index: int) -> range:
+    def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
         start = segment_index * self.segment_length
-        return range(start, min(start + self.segment_length + self.overlap_length, self._total_length))
+        end = min(start + self.segment_length + self.overlap_length, self._total_length)
+        return range(start, end) if self.time_indices is None else self.time_indices[start:end]
 
     @property
     def segment_length_with_overlap(self):
-- 
2.43.0


From a6f35541e1cbf8c07e9e499f50a4789369d5f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 15/49] fix: transfer start values of a segment at its end,
 also with a shortened overlap

---
 flixOpt/calculation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5075ed0..640be7f 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -483,7 +483,8 @@ class SegmentedCalculation(Calculation):
         This function gets the last values of the previous solved segment and
         inserts them as start values for the nest segment
         """
-        final_index_of_prior_segment = -(1 + self.overlap_length)
+        # Without the overlap, which can be shorter than overlap_length at the end of the time_series
+        final_index_of_prior_segment = self.segment_length - 1
         start_values_of_this_segment = {}
         for flow in self.flow_system.flows.values():
             flow.previous_flow_rate = flow.model.flow_rate.result[
@@ -492,7 +493,7 @@ class SegmentedCalculation(Calculation):
             start_values_of_this_segment[flow.label_full] = flow.previous_flow_rate
         for comp in self.flow_system.components.values():
             if isinstance(comp, Storage):
-                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment]
+                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment + 1]
                 start_values_of_this_segment[comp.label_full] = comp.initial_charge_state
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
-- 
2.43.0


From bf2ff6572b4f50d4c60cd1b8cef8e59792a32bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 16/49] fix: add a single remaining time step to the last
 segment

---
 flixOpt/calculation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 640be7f..164a238 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -344,7 +344,8 @@ class SegmentedCalculation(Calculation):
         self.segment_length = segment_length
         self.overlap_length = overlap_length
         self._total_length = len(self.time_indices) if self.time_indices is not None else len(flow_system.time_series)
-        self.number_of_segments = math.ceil(self._total_length / self.segment_length)
+        # A single remaining time step can not be modeled on its own and is part of the last segment
+        self.number_of_segments = max(math.ceil((self._total_length - 1) / self.segment_length), 1)
         self.sub_calculations: List[FullCalculation] = []
 
         assert segment_length > 2, 'The Segment length must be greater 2, due to unwanted internal side effects'
@@ -508,7 +509,10 @@ class SegmentedCalculation(Calculation):
 
     def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
         start = segment_index * self.segment_length
-        end = min(start + self.segment_length + self.overlap_length, self._total_length)
+        if segment_index == self.number_of_segments - 1:
+            end = self._total_length
+        else:
+            end = min(start + self.segment_length + self.overlap_length, self._total_length)
         return range(start, end) if self.time_indices is None else self.time_indices[start:end]
 
     @property
-- 
2.43.0


From 6ceba05a247de33deb2252d0c7959a1266e7cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 17/49] fix: restore start values after a segmented calculation
 failed

---
 flixOpt/calculation.py | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 164a238..c2120c7 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -369,29 +369,30 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
-        for i in range(self.number_of_segments):
-            name_of_segment = f'Segment_{i + 1}'
-            if self.sub_calculations:
-                self._transfer_start_values(name_of_segment)
-            time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
-            calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
-            # TODO: Add Before Values if available
-            self.sub_calculations.append(calculation)
-            calculation.do_modeling()
-            invest_elements = [
-                model.element.label_full
-                for model in calculation.system_model.sub_models
-                if isinstance(model, InvestmentModel)
-            ]
-            if invest_elements:
-                logger.critical(
-                    f'Investments are not supported in Segmented Calculation! '
-                    f'Following elements Contain Investments: {invest_elements}'
-                )
-            calculation.solve(solver, save_results=False)
-
-        self._reset_start_values()
+        try:
+            for i in range(self.number_of_segments):
+                name_of_segment = f'Segment_{i + 1}'
+                if self.sub_calculations:
+                    self._transfer_start_values(name_of_segment)
+                time_indices = self._get_indices(i)
+                logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
+                calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
+                # TODO: Add Before Values if available
+                self.sub_calculations.append(calculation)
+                calculation.do_modeling()
+                invest_elements = [
+                    model.element.label_full
+                    for model in calculation.system_model.sub_models
+                    if isinstance(model, InvestmentModel)
+                ]
+                if invest_elements:
+                    logger.critical(
+                        f'Investments are not supported in Segmented Calculation! '
+                        f'Following elements Contain Investments: {invest_elements}'
+                    )
+                calculation.solve(solver, save_results=False)
+        finally:  # Also if a segment can not be solved
+            self._reset_start_values()
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
-- 
2.43.0


From 67d2dc19bc89e7856ae0dad15496ecb2cd91f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 18/49] fix: main results and descriptions of a SystemModel
 refer to its own models

---
 flixOpt/effects.py   |  4 ++++
 flixOpt/structure.py | 34 ++++++++++++++--------------------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index ad3450b..5ef8b3c 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -327,6 +327,10 @@ class EffectCollectionModel(ElementModel):
         self.objective.add_summand(self._objective_effect_model.invest.sum, 1)
         self.objective.add_summand(self.penalty.sum, 1)
 
+    @property
+    def effect_models(self) -> Dict[Effect, EffectModel]:
+        return self._effect_models
+
     @property
     def _objective_effect_model(self) -> EffectModel:
         return self._effect_models[self.element.objective_effect]
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 1196e75..0c5ae9a 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -121,27 +121,21 @@ class SystemModel(MathModel):
     def description_of_variables(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_variables(structured)
-                for label, comp in self.flow_system.components.items()
+                model.element.label: model.description_of_variables(structured) for model in self.component_models
             },
-            'Buses': {
-                label: bus.model.description_of_variables(structured) for label, bus in self.flow_system.buses.items()
-            },
-            'Effects': self.flow_system.effect_collection.model.description_of_variables(structured),
+            'Buses': {model.element.label: model.description_of_variables(structured) for model in self.bus_models},
+            'Effects': self.effect_collection_model.description_of_variables(structured),
             'Others': {model.element.label: model.description_of_variables(structured) for model in self.other_models},
         }
 
     def description_of_constraints(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_constraints(structured)
-                for label, comp in self.flow_system.components.items()
-            },
-            'Buses': {
-                label: bus.model.description_of_constraints(structured) for label, bus in self.flow_system.buses.items()
+                model.element.label: model.description_of_constraints(structured) for model in self.component_models
             },
+            'Buses': {model.element.label: model.description_of_constraints(structured) for model in self.bus_models},
             'Objective': self.objective.description(),
-            'Effects': self.flow_system.effect_collection.model.description_of_constraints(structured),
+            'Effects': self.effect_collection_model.description_of_constraints(structured),
             'Others': {
                 model.element.label: model.description_of_constraints(structured) for model in self.other_models
             },
@@ -163,21 +157,21 @@ class SystemModel(MathModel):
         main_results = {}
         effect_results = {}
         main_results['Effects'] = effect_results
-        for effect in self.flow_system.effect_collection.effects.values():
+        for effect, effect_model in self.effect_collection_model.effect_models.items():
             effect_results[f'{effect.label} [{effect.unit}]'] = {
-                'operation': float(effect.model.operation.sum.result),
-                'invest': float(effect.model.invest.sum.result),
-                'sum': float(effect.model.all.sum.result),
+                'operation': float(effect_model.operation.sum.result),
+                'invest': float(effect_model.invest.sum.result),
+                'sum': float(effect_model.all.sum.result),
             }
         main_results['penalty'] = float(self.effect_collection_model.penalty.sum.result)
         main_results['Objective'] = self.result_of_objective
         main_results['lower bound'] = self.solver.best_bound
         buses_with_excess = []
         main_results['buses with excess'] = buses_with_excess
-        for bus in self.flow_system.buses.values():
-            if bus.with_excess:
-                if np.sum(bus.model.excess_input.result) > 1e-3 or np.sum(bus.model.excess_output.result) > 1e-3:
-                    buses_with_excess.append(bus.label)
+        for bus_model in self.bus_models:
+            if bus_model.element.with_excess:
+                if np.sum(bus_model.excess_input.result) > 1e-3 or np.sum(bus_model.excess_output.result) > 1e-3:
+                    buses_with_excess.append(bus_model.element.label)
 
         invest_decisions = {'invested': {}, 'not invested': {}}
         main_results['Invest-Decisions'] = invest_decisions
-- 
2.43.0


From 4411fb8ac9f0202ad0dd27de20ea65ad5a8aea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 19/49] fix: reject different buses and other elements sharing
 one label

---
 flixOpt/flow_system.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 7cb55c3..fba22cf 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -75,6 +75,7 @@ class FlowSystem:
     def add_effects(self, *args: Effect) -> None:
         for new_effect in list(args):
             logger.info(f'Registered new Effect: {new_effect.label}')
+            self._check_if_element_is_unique(new_effect)
             self.effect_collection.add_effect(new_effect)
 
     def add_components(self, *args: Component) -> None:
@@ -83,6 +84,7 @@ class FlowSystem:
         for new_component in new_components:
             logger.info(f'Registered new Component: {new_component.label}')
             self._check_if_element_is_unique(new_component)  # check if already exists:
+            self._check_if_buses_are_unique(new_component)
             new_component.register_component_in_flows()  # Komponente in Flow registrieren
             new_component.register_flows_in_bus()  # Flows in Bus registrieren:
             self.components[new_component.label] = new_component  # Add to existing components
@@ -228,6 +230,15 @@ class FlowSystem:
         if element.label_full in self.all_elements:
             raise Exception(f'Label of Element {element.label} already used in another element!')
 
+    def _check_if_buses_are_unique(self, component: Component) -> None:
+        """
+        checks that no label of a bus connected to the component is used by another element
+        """
+        elements = {**self.all_elements, component.label_full: component}
+        for flow in component.inputs + component.outputs:
+            if elements.setdefault(flow.bus.label_full, flow.bus) is not flow.bus:
+                raise Exception(f'Label of Bus {flow.bus.label} already used in another element!')
+
     def get_time_data_from_indices(
         self, time_indices: Optional[Union[List[int], range]] = None
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.float64]:
-- 
2.43.0


From 24c6035a86618eb707e1121ec471fd99d1cb9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 20/49] fix: array bounds of the charge state in calculations
 with time_indices

---
 flixOpt/components.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 3190443..b9105e5 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -537,10 +537,18 @@ class StorageModel(ComponentModel):
     @property
     def relative_charge_state_bounds(self) -> Tuple[Numeric, Numeric]:
         return (
-            self.element.relative_minimum_charge_state.active_data,
-            self.element.relative_maximum_charge_state.active_data,
+            self._data_with_final_charge_state(self.element.relative_minimum_charge_state),
+            self._data_with_final_charge_state(self.element.relative_maximum_charge_state),
         )
 
+    @staticmethod
+    def _data_with_final_charge_state(time_series: TimeSeries) -> Numeric:
+        """The charge state has one more value than there are time steps"""
+        if time_series.is_scalar or time_series.aggregated_data is not None or time_series.active_indices is None:
+            return time_series.active_data
+        indices = list(time_series.active_indices)
+        return time_series.data[indices + [indices[-1] + 1]]
+
 
 class SourceAndSink(Component):
     """
-- 
2.43.0


From 58227e0a857edf2e5d0d8750e5f7a7680c65423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 21/49] Revert "fix: restore start values after a segmented
 calculation failed"

This reverts commit 6ceba05a247de33deb2252d0c7959a1266e7cb24.
---
 flixOpt/calculation.py | 47 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index c2120c7..164a238 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -369,30 +369,29 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
-        try:
-            for i in range(self.number_of_segments):
-                name_of_segment = f'Segment_{i + 1}'
-                if self.sub_calculations:
-                    self._transfer_start_values(name_of_segment)
-                time_indices = self._get_indices(i)
-                logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
-                calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
-                # TODO: Add Before Values if available
-                self.sub_calculations.append(calculation)
-                calculation.do_modeling()
-                invest_elements = [
-                    model.element.label_full
-                    for model in calculation.system_model.sub_models
-                    if isinstance(model, InvestmentModel)
-                ]
-                if invest_elements:
-                    logger.critical(
-                        f'Investments are not supported in Segmented Calculation! '
-                        f'Following elements Contain Investments: {invest_elements}'
-                    )
-                calculation.solve(solver, save_results=False)
-        finally:  # Also if a segment can not be solved
-            self._reset_start_values()
+        for i in range(self.number_of_segments):
+            name_of_segment = f'Segment_{i + 1}'
+            if self.sub_calculations:
+                self._transfer_start_values(name_of_segment)
+            time_indices = self._get_indices(i)
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
+            calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
+            # TODO: Add Before Values if available
+            self.sub_calculations.append(calculation)
+            calculation.do_modeling()
+            invest_elements = [
+                model.element.label_full
+                for model in calculation.system_model.sub_models
+                if isinstance(model, InvestmentModel)
+            ]
+            if invest_elements:
+                logger.critical(
+                    f'Investments are not supported in Segmented Calculation! '
+                    f'Following elements Contain Investments: {invest_elements}'
+                )
+            calculation.solve(solver, save_results=False)
+
+        self._reset_start_values()
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
-- 
2.43.0


From 27bf6caf755fed6d0dae9e7b451b128275505928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 22/49] fix: restore start values after a failed segmented
 calculation

---
 flixOpt/calculation.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 164a238..b919cd1 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -369,6 +369,19 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
+        try:
+            self._model_and_solve_segments(solver)
+        finally:  # Also if a segment can not be solved
+            self._reset_start_values()
+
+        for calc in self.sub_calculations:
+            for key, value in calc.durations.items():
+                self.durations[key] += value
+
+        if save_results:
+            self._save_solve_infos()
+
+    def _model_and_solve_segments(self, solver: Solver):
         for i in range(self.number_of_segments):
             name_of_segment = f'Segment_{i + 1}'
             if self.sub_calculations:
@@ -391,15 +404,6 @@ class SegmentedCalculation(Calculation):
                 )
             calculation.solve(solver, save_results=False)
 
-        self._reset_start_values()
-
-        for calc in self.sub_calculations:
-            for key, value in calc.durations.items():
-                self.durations[key] += value
-
-        if save_results:
-            self._save_solve_infos()
-
     def results(
         self, combined_arrays: bool = False, combined_scalars: bool = False, individual_results: bool = False
     ) -> Dict[str, Union[Numeric, Dict[str, Numeric]]]:
-- 
2.43.0


From 85925a6966eb76ff201839c01cd086205bfc7d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 23/49] fix: unique labels for the time series of conversion
 factors and segments

---
 flixOpt/components.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index b9105e5..ef1d3d8 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -100,20 +100,20 @@ class LinearConverter(Component):
             for flow, segments in self.segmented_conversion_factors.items():
                 segmented_conversion_factors[flow] = [
                     (
-                        _create_time_series('Stuetzstelle', segment[0], self),
-                        _create_time_series('Stuetzstelle', segment[1], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}_start', segment[0], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}_end', segment[1], self),
                     )
-                    for segment in segments
+                    for i, segment in enumerate(segments)
                 ]
             self.segmented_conversion_factors = segmented_conversion_factors
 
     def _transform_conversion_factors(self) -> List[Dict[Flow, TimeSeries]]:
         """macht alle Faktoren, die nicht TimeSeries sind, zu TimeSeries"""
         list_of_conversion_factors = []
-        for conversion_factor in self.conversion_factors:
+        for i, conversion_factor in enumerate(self.conversion_factors):
             transformed_dict = {}
             for flow, values in conversion_factor.items():
-                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor', values, self)
+                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor_{i}', values, self)
             list_of_conversion_factors.append(transformed_dict)
         return list_of_conversion_factors
 
-- 
2.43.0


From 54c9dce3dfb91b9bb31d3afadbb5b53da36f3d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 24/49] fix: aggregation without any periods to equate, but
 with period freedom

---
 flixOpt/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2869d9..ac7ccbb 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -376,6 +376,8 @@ class AggregationModel(ElementModel):
                 all_relevant_variables = [
                     v for v in all_variables_of_component.values() if isinstance(v, VariableTS) and v.is_binary
                 ]
+            if len(indices[0]) == 0:
+                continue  # No periods to equate: Every period is its own cluster
             for variable in all_relevant_variables:
                 self.equate_indices(variable, indices, system_model)
 
-- 
2.43.0


From 69eb4c603f7a95396173bf641554a332fa420415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 25/49] fix: penalty of period freedom with a single equated
 index

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 5ef8b3c..bc61889 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -392,7 +392,7 @@ class EffectCollectionModel(ElementModel):
         factor: Numeric,
     ) -> None:
         assert variable is not None, 'A Variable must be passed to add a share to penalty! Else its a constant Penalty!'
-        self.penalty.add_share(self._system_model, name, variable, factor, True)
+        self.penalty.add_share(self._system_model, name, variable, factor, share_as_sum=variable.length > 1)
 
     def add_share_between_effects(self):
         for origin_effect in self.element.effects.values():
-- 
2.43.0


From d06db7a7c2a3907b86e97b1476efa85ff3c5e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 26/49] fix: ValueError for missing variables in to_dataframe,
 as documented

---
 flixOpt/results.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index d88ea6c..94f756c 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -174,13 +174,17 @@ class CalculationResults:
 
         if comp_or_bus is not None and flow is not None:
             raise Exception(f'{label=} matches both a Flow and a Component/Bus. That is an internal Error!')
-        elif comp_or_bus is not None:
-            df = comp_or_bus.to_dataframe(variable_name, input_factor, output_factor)
-        elif flow is not None:
-            df = flow.to_dataframe(variable_name)
-        else:
+        elif comp_or_bus is None and flow is None:
             raise ValueError(f'No Element found with {label=}')
 
+        try:
+            if comp_or_bus is not None:
+                df = comp_or_bus.to_dataframe(variable_name, input_factor, output_factor)
+            else:
+                df = flow.to_dataframe(variable_name)
+        except KeyError as e:
+            raise ValueError(f'No data found for {variable_name=} of {label=}') from e
+
         if threshold is not None:
             df = df.loc[:, ((df > threshold) | (df < -1 * threshold)).any()]  # Check if any value exceeds the threshold
         if df.empty:  # If no values are left, return an empty DataFrame
-- 
2.43.0


From d527152fec8802a112eb5d638ce907eb565d861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 27/49] fix: export of dates and numpy booleans

---
 flixOpt/structure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 0c5ae9a..6283b9f 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -7,7 +7,7 @@ import inspect
 import json
 import logging
 import pathlib
-from datetime import datetime
+from datetime import date, datetime
 from io import StringIO
 from typing import TYPE_CHECKING, Any, Dict, List, Literal, Optional, Union
 
@@ -604,7 +604,9 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
 
     elif isinstance(data, (int, float, str, bool, type(None))):
         return data
-    elif isinstance(data, datetime):
+    elif isinstance(data, np.bool_):
+        return bool(data)
+    elif isinstance(data, (datetime, date)):
         return data.isoformat()
 
     elif isinstance(data, (tuple, set)):
-- 
2.43.0


From 80aa01fa554a5ca58bb3eeb3cd3dec49f211c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 28/49] fix: reload buses without excess from segmented
 calculations

---
 flixOpt/results.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index 94f756c..690977d 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -105,12 +105,13 @@ class CalculationResults:
 
     def _construct_bus_results(self):
         """This has to be called after _construct_component_results(), as its using the Flows from the Components"""
-        bus_results = self.all_results['Buses']
+        # Combined results of Segments don't list Buses without results of their own (no excess allowed)
+        bus_results = self.all_results.get('Buses', {})
         bus_infos = self.all_data['Buses']
-        if not bus_results.keys() == bus_infos.keys():
+        if not bus_results.keys() <= bus_infos.keys():
             logger.warning(f'Missing Bus or mismatched keys: {bus_results.keys() ^ bus_infos.keys()}')
 
-        for bus_label in bus_results.keys():
+        for bus_label in bus_infos.keys():
             infos, results = bus_infos.get(bus_label, {}), bus_results.get(bus_label, {})
             inputs = [
                 flow
-- 
2.43.0


From 10354707faf81325a507bae8d15ee81f51e21ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:54 +0000
Subject: [PATCH 29/49] fix: reserve the label of the penalty, results of such
 an effect got lost

---
 flixOpt/effects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index bc61889..d7f6e5b 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -280,6 +280,8 @@ class EffectCollection:
             raise Exception(f'A standard-effect already exists! ({self.standard_effect.label=})')
         if effect.is_objective and self.objective_effect is not None:
             raise Exception(f'A objective-effect already exists! ({self.objective_effect.label=})')
+        if effect.label.lower() == 'penalty':  # Would be mixed up with the penalty in the results
+            raise Exception(f'The label "{effect.label}" is reserved and can not be used for an Effect!')
         if effect in self.effects.values():
             raise Exception(f'Effect already added! ({effect.label=})')
         if effect.label in self.effects:
-- 
2.43.0


From 2bbf45b33461977c311a31e6733556879f2c9282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 30/49] fix: compact description of lists of booleans

---
 flixOpt/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 6283b9f..f253701 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -619,7 +619,7 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
             for key, value in data.items()
         }
     elif isinstance(data, list):  # Shorten arrays/lists to be readable
-        if use_numpy and all([isinstance(value, (int, float)) for value in data]):
+        if use_numpy and all([isinstance(value, (int, float)) and not isinstance(value, bool) for value in data]):
             return np.array([item for item in data])
         else:
             return [copy_and_convert_datatypes(item, use_numpy, use_element_label) for item in data]
-- 
2.43.0


From 04744c96be129e0ebefb6576268b3d4c15cffcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 31/49] fix: compact description of arrays with more than one
 dimension

---
 flixOpt/structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index f253701..44a7371 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -684,6 +684,7 @@ def get_compact_representation(data: Any, array_threshold: int = 50, decimals: i
         def normalized_center_of_mass(array: Any) -> float:
             # position in array (0 bis 1 normiert)
             positions = np.linspace(0, 1, len(array))  # weights w_i
+            positions = positions.reshape(-1, *[1] * (array.ndim - 1))  # along the first axis
             # mass center
             if np.sum(array) == 0:
                 return np.nan
-- 
2.43.0


From 143fd4a988ac98047fcbcf7d0a8346257e11e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:14 +0000
Subject: [PATCH 32/49] fix: overview and flat description of a model include
 the inequations of its sub models

---
 flixOpt/structure.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 44a7371..4556ce7 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -408,16 +408,16 @@ class ElementModel:
 
             return descriptions
         else:
-            return [eq.description() for eq in self.all_equations.values()]
+            return [constr.description() for constr in self.all_constraints.values()]
 
     @property
     def overview_of_model_size(self) -> Dict[str, int]:
         all_vars, all_eqs, all_ineqs = self.all_variables, self.all_equations, self.all_inequations
         return {
             'no of Euations': len(all_eqs),
-            'no of Equations single': sum(eq.nr_of_single_equations for eq in all_eqs.values()),
+            'no of Equations single': sum(eq.length for eq in all_eqs.values()),
             'no of Inequations': len(all_ineqs),
-            'no of Inequations single': sum(ineq.nr_of_single_equations for ineq in all_ineqs.values()),
+            'no of Inequations single': sum(ineq.length for ineq in all_ineqs.values()),
             'no of Variables': len(all_vars),
             'no of Variables single': sum(var.length for var in all_vars.values()),
         }
@@ -464,9 +464,10 @@ class ElementModel:
     def all_inequations(self) -> Dict[str, Inequation]:
         all_ineqs = self.inequations.copy()
         for sub_model in self.sub_models:
-            for key in sub_model.all_inequations:
+            for key, value in sub_model.all_inequations.items():
                 if key in all_ineqs:
                     raise KeyError(f"Duplicate key found: '{key}' in both main model and submodel!")
+                all_ineqs[key] = value
         return all_ineqs
 
     @property
-- 
2.43.0


From 71b23bc935ba1dfe515b20a722b77340ad543134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 33/49] fix: infos state whether simultaneous flows are
 prevented

---
 flixOpt/components.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index ef1d3d8..69bffdd 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -196,6 +196,7 @@ class Storage(Component):
             meta_data=meta_data,
         )
 
+        self.prevent_simultaneous_charge_and_discharge = prevent_simultaneous_charge_and_discharge
         self.charging = charging
         self.discharging = discharging
         self.capacity_in_flow_hours = capacity_in_flow_hours
@@ -283,6 +284,7 @@ class Transmission(Component):
             if in2 is None or prevent_simultaneous_flows_in_both_directions is False
             else [in1, in2],
         )
+        self.prevent_simultaneous_flows_in_both_directions = prevent_simultaneous_flows_in_both_directions
         self.in1 = in1
         self.out1 = out1
         self.in2 = in2
@@ -592,6 +594,13 @@ class SourceAndSink(Component):
         self.source = source
         self.sink = sink
 
+    def infos(self, use_numpy=True, use_element_label=False) -> Dict:
+        infos = super().infos(use_numpy, use_element_label)
+        infos.pop('prevent_simultaneous_flows', None)  # The attribute holds the flows, not the argument
+        if not self.prevent_simultaneous_flows:
+            infos['prevent_simultaneous_flows'] = False
+        return infos
+
 
 class Source(Component):
     def __init__(self, label: str, source: Flow, meta_data: Optional[Dict] = None):
-- 
2.43.0


From fd2ee954064e73b7f806ee65263a8bf20185fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 34/49] fix: description of constraints at any index and with
 integer factors

---
 flixOpt/math_modeling.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index b5a4ad3..1328be9 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -276,7 +276,7 @@ class Equation(_Constraint):
             name, index_str = f'EQ {self.label}', f'[{equation_nr + 1}/{self.length}]'
 
         # Summands:
-        summand_strings = [summand.description(at_index) for summand in self.summands]
+        summand_strings = [summand.description(equation_nr) for summand in self.summands]
         all_summands_string = ' + '.join(summand_strings)
 
         constant = self.constant_vector[equation_nr]
@@ -307,7 +307,7 @@ class Inequation(_Constraint):
         name, index_str = f'INEQ {self.label}', f'[{equation_nr + 1}/{self.length}]'
 
         # Summands:
-        summand_strings = [summand.description(at_index) for summand in self.summands]
+        summand_strings = [summand.description(equation_nr) for summand in self.summands]
         all_summands_string = ' + '.join(summand_strings)
 
         constant = self.constant_vector[equation_nr]
@@ -345,7 +345,7 @@ class Summand:
 
     def description(self, at_index=0):
         i = 0 if self.length == 1 else at_index
-        index = self.indices[i]
+        index = self.indices[i if len(self.indices) > 1 else 0]
         factor = self.factor_vec[i]
         factor_str = f'{factor:.6}' if isinstance(factor, (float, np.floating)) else str(factor)
         return f'{factor_str} * {self.variable.label}[{index}]'
@@ -402,9 +402,10 @@ class SumOfSummand(Summand):
         self.length = 1
 
     def description(self, at_index=0):
-        index = self.indices[at_index]
-        factor = self.factor_vec[0]
-        factor_str = str(factor) if isinstance(factor, int) else f'{factor:.6}'
+        i = min(at_index, len(self.factor_vec) - 1)
+        index = self.indices[i if len(self.indices) > 1 else 0]
+        factor = self.factor_vec[i]
+        factor_str = f'{factor:.6}' if isinstance(factor, (float, np.floating)) else str(factor)
         single_summand_str = f'{factor_str} * {self.variable.label}[{index}]'
         return f'∑({("..+" if index > 0 else "")}{single_summand_str}{("+.." if index < self.variable.length else "")})'
 
-- 
2.43.0


From 69812954254c2de1fe432ce4505bebe6fa87b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 35/49] fix: describe flows that are not part of a component
 yet, as the warning about a missing size does

---
 flixOpt/elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 6c269a0..2579751 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -253,7 +253,8 @@ class Flow(Element):
 
     def infos(self, use_numpy=True, use_element_label=False) -> Dict:
         infos = super().infos(use_numpy, use_element_label)
-        infos['is_input_in_component'] = self.is_input_in_comp
+        if self.comp is not None:  # Not known until the Flow is part of a Component
+            infos['is_input_in_component'] = self.is_input_in_comp
         return infos
 
     def _plausibility_checks(self) -> None:
-- 
2.43.0


From d1c41331993bbe9f5acaa280e28dddd8c5022ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:24 +0000
Subject: [PATCH 36/49] fix: forget time series that were replaced since the
 last calculation

---
 flixOpt/flow_system.py | 5 ++++-
 flixOpt/structure.py   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index fba22cf..268ddcb 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -108,6 +108,8 @@ class FlowSystem:
                 raise Exception('argument is not instance of a modeling Element (Element)')
 
     def transform_data(self):
+        for element in self.all_elements.values():
+            element.used_time_series = []  # Forget the data that was replaced since the last calculation
         for element in self.all_elements.values():
             element.transform_data()
 
@@ -303,7 +305,8 @@ class FlowSystem:
 
     @property
     def all_time_series(self) -> List[TimeSeries]:
-        return [ts for element in self.all_elements.values() for ts in element.used_time_series]
+        time_series = [ts for element in self.all_elements.values() for ts in element.used_time_series]
+        return list({id(ts): ts for ts in time_series}.values())  # Parameters might be shared by Elements
 
 
 def create_datetime_array(
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 4556ce7..802c82a 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -503,6 +503,7 @@ def _create_time_series(
         return None
     elif isinstance(data, TimeSeries):
         data.clear_indices_and_aggregated_data()
+        element.used_time_series.append(data)
         return data
     else:
         time_series = TimeSeries(label=f'{element.label_full}__{label}', data=data)
-- 
2.43.0


From 4ccbdc15f9d9f5ae8a2961a30fb83d62776a0bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 37/49] fix: check buses and sizes of Transmissions

---
 flixOpt/components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 69bffdd..5e27314 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -293,6 +293,8 @@ class Transmission(Component):
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
 
+        self._plausibility_checks()
+
     def _plausibility_checks(self):
         # check buses:
         if self.in2 is not None:
-- 
2.43.0


From 708640aae88f36b3e002bde5b66db8d7b8649de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 38/49] fix: reject segments of foreign flows and of different
 number

---
 flixOpt/components.py | 7 +++++++
 flixOpt/features.py   | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 5e27314..6f560fd 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -84,6 +84,13 @@ class LinearConverter(Component):
                             f'{self.label}: Flow {flow.label} in conversion_factors is not in inputs/outputs'
                         )
         if self.segmented_conversion_factors:
+            for flow in self.segmented_conversion_factors:
+                if flow not in (self.inputs + self.outputs):
+                    raise Exception(
+                        f'{self.label}: Flow {flow.label} in segmented_conversion_factors is not in inputs/outputs'
+                    )
+            if len({len(segments) for segments in self.segmented_conversion_factors.values()}) > 1:
+                raise Exception(f'{self.label}: Every Flow in segmented_conversion_factors needs the same number of segments')
             for flow in self.inputs + self.outputs:
                 if isinstance(flow.size, InvestParameters) and flow.size.fixed_size is None:
                     raise Exception(
diff --git a/flixOpt/features.py b/flixOpt/features.py
index 95dc124..2d9b8d8 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -859,7 +859,7 @@ class SegmentedSharesModel(ElementModel):
         label: str = 'SegmentedShares',
     ):
         super().__init__(element, label)
-        assert len(variable_segments[1]) == len(list(share_segments.values())[0]), (
+        assert all(len(variable_segments[1]) == len(segments) for segments in share_segments.values()), (
             'Segment length of variable_segments and share_segments must be equal'
         )
         self.element: Element
-- 
2.43.0


From 201301e783cf5d2c64395c6ae225c0e7fb9f4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 39/49] fix: reject circular shares between effects of any
 length

---
 flixOpt/effects.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index d7f6e5b..8796c2a 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -6,7 +6,7 @@ which are then transformed into the internal data structure.
 """
 
 import logging
-from typing import Dict, Literal, Optional, Union
+from typing import Dict, List, Literal, Optional, Union
 
 import numpy as np
 
@@ -272,9 +272,22 @@ class EffectCollection:
         self.effects: Dict[str, Effect] = {}
 
     def create_model(self, system_model: SystemModel) -> 'EffectCollectionModel':
+        self._check_for_circular_shares()
         self.model = EffectCollectionModel(self, system_model)
         return self.model
 
+    def _check_for_circular_shares(self) -> None:
+        def check(shares: str, path: List[Effect]) -> None:
+            for target in getattr(path[-1], shares):
+                if target in path:
+                    loop = ' -> '.join(effect.label for effect in path + [target])
+                    raise Exception(f'Error: circular shares between effects ({shares}): {loop}')
+                check(shares, path + [target])
+
+        for effect in self.effects.values():
+            check('specific_share_to_other_effects_operation', [effect])
+            check('specific_share_to_other_effects_invest', [effect])
+
     def add_effect(self, effect: 'Effect') -> None:
         if effect.is_standard and self.standard_effect is not None:
             raise Exception(f'A standard-effect already exists! ({self.standard_effect.label=})')
-- 
2.43.0


From 1fa14e5edd919b9f3c622b0f2e29b91f55ac1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 40/49] fix: reject data of wrong length also in windows of the
 time series

---
 flixOpt/flow_system.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 268ddcb..3cebb30 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -10,6 +10,7 @@ from typing import TYPE_CHECKING, Dict, List, Literal, Optional, Tuple, Union
 import numpy as np
 
 from . import utils
+from .components import Storage
 from .core import TimeSeries
 from .effects import Effect, EffectCollection
 from .elements import Bus, Component, Flow
@@ -112,6 +113,22 @@ class FlowSystem:
             element.used_time_series = []  # Forget the data that was replaced since the last calculation
         for element in self.all_elements.values():
             element.transform_data()
+        self._check_length_of_time_series()
+
+    def _check_length_of_time_series(self) -> None:
+        nr_of_time_steps = len(self.time_series)
+        charge_states = [  # Might include the end of the last time step
+            time_series
+            for storage in self.components.values()
+            if isinstance(storage, Storage)
+            for time_series in (storage.relative_minimum_charge_state, storage.relative_maximum_charge_state)
+        ]
+        for ts in self.all_time_series:
+            if not ts.is_array or len(ts.data) == nr_of_time_steps:
+                continue
+            if len(ts.data) == nr_of_time_steps + 1 and any(ts is charge_state for charge_state in charge_states):
+                continue
+            raise Exception(f'{ts.label} has {len(ts.data)} values, but there are {nr_of_time_steps} time steps')
 
     def network_infos(self) -> Tuple[Dict[str, Dict[str, str]], Dict[str, Dict[str, str]]]:
         nodes = {
-- 
2.43.0


From 5c5024a5085ac4108173ed43145217dd4a32aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 41/49] fix: reject configuration files without one of the
 sections

---
 flixOpt/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/config.py b/flixOpt/config.py
index 5ba7dec..9bd94fc 100644
--- a/flixOpt/config.py
+++ b/flixOpt/config.py
@@ -46,6 +46,8 @@ def dataclass_from_dict_with_validation(cls, data: dict):
         # If the field type is a dataclass and the value is a dict, recursively initialize
         if is_dataclass(field_type) and isinstance(field_value, dict):
             kwargs[field_name] = dataclass_from_dict_with_validation(field_type, field_value)
+        elif is_dataclass(field_type):
+            raise TypeError(f'Section {field_name!r} of the configuration is missing or invalid: {field_value!r}')
         else:
             kwargs[field_name] = field_value  # Pass as-is if no special handling is needed
 
-- 
2.43.0


From 2fa61ab0f1f53465876d37dbaf44df619dc38254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 42/49] fix: keep the configuration when the log file of a new
 one can not be opened

---
 flixOpt/config.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/flixOpt/config.py b/flixOpt/config.py
index 9bd94fc..66b21b1 100644
--- a/flixOpt/config.py
+++ b/flixOpt/config.py
@@ -116,13 +116,17 @@ class CONFIG:
         # Convert the merged config to ConfigSchema
         config_data = dataclass_from_dict_with_validation(ConfigSchema, new_config)
 
+        setup_logging(
+            default_level=config_data.logging.level,
+            log_file=config_data.logging.file,
+            use_rich_handler=config_data.logging.rich,
+        )
+
         # Store the configuration in the class as class attributes
         cls.logging = config_data.logging
         cls.modeling = config_data.modeling
         cls.config_name = config_data.config_name
 
-        setup_logging(default_level=cls.logging.level, log_file=cls.logging.file, use_rich_handler=cls.logging.rich)
-
     @classmethod
     def to_dict(cls):
         """
@@ -231,14 +235,17 @@ def setup_logging(
 ):
     """Setup logging configuration"""
     logger = logging.getLogger('flixOpt')  # Use a specific logger name for your package
+    handlers = [_get_logging_handler(use_rich_handler=use_rich_handler)]
+    if log_file is not None:
+        handlers.append(_get_logging_handler(log_file, use_rich_handler=False))
+
     logger.setLevel(get_logging_level_by_name(default_level))
     # Clear existing handlers
     if logger.hasHandlers():
         logger.handlers.clear()
 
-    logger.addHandler(_get_logging_handler(use_rich_handler=use_rich_handler))
-    if log_file is not None:
-        logger.addHandler(_get_logging_handler(log_file, use_rich_handler=False))
+    for handler in handlers:
+        logger.addHandler(handler)
 
     return logger
 
-- 
2.43.0


From ca334fd1557236168b6c66a107aaedc30cbbf2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 43/49] fix: draw columns of zeros once in area plots

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index b377114..990183c 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -123,7 +123,7 @@ def with_plotly(
         data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
-        negative_columns = list(data.columns[(data <= 0).all()])
+        negative_columns = [column for column in data.columns[(data <= 0).all()] if column not in positive_columns]
         mixed_columns = list(set(data.columns) - set(positive_columns + negative_columns))
         if mixed_columns:
             logger.warning(
-- 
2.43.0


From b34bfff6e4451f4f4ad336e0d44ae4655852c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 44/49] fix: leave the data as they are when plotting areas

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 990183c..33c95bc 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -120,7 +120,7 @@ def with_plotly(
                 )
             )
     elif mode == 'area':
-        data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
+        data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
         negative_columns = [column for column in data.columns[(data <= 0).all()] if column not in positive_columns]
-- 
2.43.0


From fef613af10e2ce74681665570a46709e0af3bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 45/49] fix: draw bars of tables with a single row

---
 flixOpt/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 33c95bc..0128b24 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -263,6 +263,8 @@ def with_matplotlib(
         cumulative_positive = np.zeros(len(data))
         cumulative_negative = np.zeros(len(data))
         width = data.index.to_series().diff().dropna().min()  # Minimum time difference
+        if pd.isna(width):  # There is no difference in a single row
+            width = 0.8  # Default of matplotlib
 
         for i, column in enumerate(data.columns):
             positive_values = np.clip(data[column], 0, None)  # Keep only positive values
-- 
2.43.0


From 061d54923c0c032d4d21a4c976a6887bc68c2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 46/49] fix: show plots of storages with a Path

---
 flixOpt/results.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index 690977d..ee5c284 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -356,6 +356,7 @@ class CalculationResults:
 
         if path == 'auto':
             path = self.folder / f'{title} ({mode}).html'
+        if isinstance(path, pathlib.Path):
             path = path.as_posix()
         if show:
             plotly.offline.plot(fig, filename=path)
-- 
2.43.0


From 0e8e7685a289cd45a941e228458bc9c2165554ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 47/49] fix: a flow of size 0 is not a flow of unlimited size

---
 flixOpt/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 2579751..f447c9d 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -217,7 +217,7 @@ class Flow(Element):
             previous flow rate of the component.
         """
         super().__init__(label, meta_data=meta_data)
-        self.size = size or CONFIG.modeling.BIG  # Default size
+        self.size = CONFIG.modeling.BIG if size is None else size  # Default size
         self.relative_minimum = relative_minimum
         self.relative_maximum = relative_maximum
         self.fixed_relative_profile = fixed_relative_profile
-- 
2.43.0


From 7f9fa9c572c63008f81ae7acea200e29ec265bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 48/49] fix: a maximum_size or fixed_size of 0 is not an
 unlimited size

---
 flixOpt/features.py  | 4 ++--
 flixOpt/interface.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 2d9b8d8..e1fb7c1 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -60,7 +60,7 @@ class InvestmentModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         invest_parameters = self._invest_parameters
-        if invest_parameters.fixed_size and not invest_parameters.optional:
+        if invest_parameters.fixed_size is not None and not invest_parameters.optional:
             self.size = create_variable('size', self, 1, fixed_value=invest_parameters.fixed_size)
         else:
             lower_bound = 0 if invest_parameters.optional else invest_parameters.minimum_size
@@ -117,7 +117,7 @@ class InvestmentModel(ElementModel):
             self._segments.do_modeling(system_model)
 
     def _create_bounds_for_optional_investment(self, system_model: SystemModel):
-        if self._invest_parameters.fixed_size:
+        if self._invest_parameters.fixed_size is not None:
             # eq: investment_size = isInvested * fixed_size
             eq_is_invested = create_equation('is_invested', self, 'eq')
             eq_is_invested.add_summand(self.size, -1)
diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index ba99fc5..3a3b48a 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -78,7 +78,7 @@ class InvestParameters(Interface):
         self.specific_effects: EffectValuesInvest = specific_effects or {}
         self.effects_in_segments = effects_in_segments
         self._minimum_size = minimum_size
-        self._maximum_size = maximum_size or CONFIG.modeling.BIG  # default maximum
+        self._maximum_size = CONFIG.modeling.BIG if maximum_size is None else maximum_size  # default maximum
 
     def transform_data(self):
         from .effects import as_effect_dict
@@ -89,11 +89,11 @@ class InvestParameters(Interface):
 
     @property
     def minimum_size(self):
-        return self.fixed_size or self._minimum_size
+        return self._minimum_size if self.fixed_size is None else self.fixed_size
 
     @property
     def maximum_size(self):
-        return self.fixed_size or self._maximum_size
+        return self._maximum_size if self.fixed_size is None else self.fixed_size
 
 
 class OnOffParameters(Interface):
-- 
2.43.0


From 52928c5265dabf1023c81f97f0f46e1f8655d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 49/49] fix: a solver keeps its own log file if results are not
 saved

---
 flixOpt/calculation.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index b919cd1..746665f 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -164,12 +164,17 @@ class FullCalculation(Calculation):
     def solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path] = False):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
-        solver.logfile_name = self._paths['log']
-        self.system_model.solve(solver)
-        self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
-
+        logfile_name = solver.logfile_name
         if save_results:
-            self._save_solve_infos()
+            solver.logfile_name = self._paths['log']
+        try:
+            self.system_model.solve(solver)
+            self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
+
+            if save_results:
+                self._save_solve_infos()
+        finally:  # Another calculation does not write to the log of this one
+            solver.logfile_name = logfile_name
 
 
 class AggregatedCalculation(Calculation):
@@ -294,12 +299,17 @@ class AggregatedCalculation(Calculation):
     def solve(self, solver: Solver, save_results: Union[bool, str, pathlib.Path] = False):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
-        solver.logfile_name = self._paths['log']
-        self.system_model.solve(solver)
-        self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
-
+        logfile_name = solver.logfile_name
         if save_results:
-            self._save_solve_infos()
+            solver.logfile_name = self._paths['log']
+        try:
+            self.system_model.solve(solver)
+            self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
+
+            if save_results:
+                self._save_solve_infos()
+        finally:  # Another calculation does not write to the log of this one
+            solver.logfile_name = logfile_name
 
 
 class SegmentedCalculation(Calculation):
-- 
2.43.0


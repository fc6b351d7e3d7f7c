From 7eaadd53f67aad2fab0532bf645fe1c4081501da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 01/50] fix: keep acquisition delay relative to the readout
 pulse under ALAP scheduling

---
 quantify_scheduler/operations/measurement_factories.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 6198d44..554b48e 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -164,6 +164,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     reference_magnitude=reference_magnitude,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
         else:
             raise NotImplementedError(
@@ -182,6 +183,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     reference_magnitude=reference_magnitude,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
 
     if acq_protocol is None:
@@ -203,6 +205,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                 t0=acq_delay,
             ),
             ref_pt="start",
+            ref_pt_new="start",
         )
     elif acq_protocol in (
         "NumericalSeparatedWeightedIntegration",
@@ -241,6 +244,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     t0=acq_delay,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
         elif acq_protocol == "NumericalWeightedIntegration":
             subschedule.add(
@@ -257,6 +261,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     t0=acq_delay,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
         elif acq_protocol == "WeightedThresholdedAcquisition":
             subschedule.add(
@@ -275,6 +280,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     acq_threshold=acq_threshold,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
     elif acq_protocol == "ThresholdedAcquisition":
         subschedule.add(
@@ -292,6 +298,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                 acq_threshold=acq_threshold,
             ),
             ref_pt="start",
+            ref_pt_new="start",
         )
     elif acq_protocol == "Trace":
         subschedule.add(
@@ -305,6 +312,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                 t0=acq_delay,
             ),
             ref_pt="start",
+            ref_pt_new="start",
         )
     elif acq_protocol == "LongTimeTrace":
         if bin_mode != BinMode.APPEND:
-- 
2.43.0


From f494386dd5cc9ff040d0a0c91178c229a71f71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 02/50] fix: multiplexed measurements no longer create a
 circular reference under ALAP scheduling

---
 .../backends/circuit_to_device.py             | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index db179f1..072f878 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -24,7 +24,7 @@ from quantify_scheduler.operations.pulse_compensation_library import (
     PulseCompensation,
 )
 from quantify_scheduler.resources import ClockResource
-from quantify_scheduler.schedules.schedule import Schedulable, Schedule, ScheduleBase
+from quantify_scheduler.schedules.schedule import Schedule, ScheduleBase
 
 if TYPE_CHECKING:
     from collections.abc import Sequence
@@ -525,23 +525,15 @@ def _compile_multiplexed(
     if len(inner_subschedules) != 0:
         inner_schedule: Schedule = Schedule(f"Inner schedule for {operation!s}")
         # All operations in the inner schedule
-        # should happen at the same time;
-        # this reference time is the start time
-        # of the `ref_schedulable` operation / schedule
-        ref_schedulable: Schedulable | None = None
+        # should happen at the same time; every operation starts at
+        # the start of its neighbour, whatever the scheduling strategy is.
         if operation_has_device_representation:
-            ref_schedulable = inner_schedule.add(operation)
+            inner_schedule.add(operation, ref_pt="start", ref_pt_new="start")
 
         for inner_subschedule in inner_subschedules:
-            if ref_schedulable is not None:
-                inner_schedule.add(
-                    operation=inner_subschedule,
-                    rel_time=0,
-                    ref_op=ref_schedulable,
-                    ref_pt="start",
-                )
-            else:
-                ref_schedulable = inner_schedule.add(operation=inner_subschedule)
+            inner_schedule.add(
+                operation=inner_subschedule, rel_time=0, ref_pt="start", ref_pt_new="start"
+            )
 
         # Aggregate next_operation_delay from inner subschedules.
         # For MUX RO, we want the next operation to start after the longest
-- 
2.43.0


From 157a8ad89b49c5a47f85240198e1fde8210c0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 03/50] fix: determine timing of a schedule shared by several
 control-flow bodies only once

---
 quantify_scheduler/compilation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 038f029..ac52072 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -103,7 +103,13 @@ def _determine_absolute_timing(
     if isinstance(schedule, ScheduleBase):
         return _determine_absolute_timing_schedule(schedule, time_unit, config)
     elif isinstance(schedule, ControlFlowOperation):
-        schedule.body = _determine_absolute_timing(schedule.body, time_unit, config)
+        # The timing of a body that is also used elsewhere in the schedule is determined once.
+        if not (
+            time_unit == "physical"
+            and isinstance(schedule.body, ScheduleBase)
+            and schedule.body.duration is not None
+        ):
+            schedule.body = _determine_absolute_timing(schedule.body, time_unit, config)
         return schedule
     elif schedule.duration is None:
         raise RuntimeError(
-- 
2.43.0


From 983451bb4d14b47474704d3095a2abbb7ead5e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 04/50] fix: run clock operations in control flow as often as
 the control flow on all port-clocks

---
 quantify_scheduler/backends/qblox/helpers.py | 68 ++++++++++++++++++--
 quantify_scheduler/backends/qblox_backend.py | 12 ++--
 2 files changed, 71 insertions(+), 9 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 60dc625..bf38d00 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -630,12 +630,60 @@ class ConditionalBegin(Operation):
         return self._get_signature(self.data["control_flow_info"])
 
 
+def _get_clocks_of_portless_operations(operation: Operation | Schedule) -> set[str]:
+    """Get the clocks of all clock operations (that act on all ports using the clock)."""
+    if isinstance(operation, ScheduleBase):
+        clocks = set()
+        for inner_operation in operation.operations.values():
+            clocks |= _get_clocks_of_portless_operations(inner_operation)
+        return clocks
+    if isinstance(operation, ControlFlowOperation):
+        return _get_clocks_of_portless_operations(operation.body)
+    return {
+        pulse_info["clock"]
+        for pulse_info in operation.data["pulse_info"]
+        if pulse_info["port"] is None
+        and any(key in pulse_info for key in ("phase_shift", "clock_freq_new", "reset_clock_phase"))
+    }
+
+
+def get_control_flow_port_clocks(
+    control_flow_operation: ControlFlowOperation,
+    schedule: Schedule,
+) -> set[tuple[str, str]]:
+    """
+    Get all port-clock combinations on which a control flow operation has an effect.
+
+    Next to the port-clock combinations used in the body, these are all port-clock
+    combinations in the schedule that share the clock of a clock operation in the body.
+
+    Parameters
+    ----------
+    control_flow_operation
+        The control flow operation.
+    schedule
+        The complete schedule that the control flow operation is part of.
+
+    Returns
+    -------
+    :
+        All (port, clock) combinations.
+
+    """
+    port_clocks = control_flow_operation.get_used_port_clocks()
+    if clocks := _get_clocks_of_portless_operations(control_flow_operation.body):
+        port_clocks = port_clocks | {
+            (port, clock) for port, clock in schedule.get_used_port_clocks() if clock in clocks
+        }
+    return port_clocks
+
+
 def _get_control_flow_begin(
     control_flow_operation: ControlFlowOperation,
+    port_clocks: set[tuple[str, str]],
 ) -> Operation:
     assert isinstance(control_flow_operation, (LoopOperation, ConditionalOperation))
 
-    port_clocks = control_flow_operation.get_used_port_clocks()
     if isinstance(control_flow_operation, LoopOperation):
         begin_operation: Operation = LoopBegin(
             control_flow_operation.data["control_flow_info"]["repetitions"],
@@ -702,10 +750,10 @@ class _ControlFlowReturn(Operation):
 
 def _get_control_flow_end(
     control_flow_operation: ControlFlowOperation,
+    port_clocks: set[tuple[str, str]],
 ) -> Operation:
     assert isinstance(control_flow_operation, (LoopOperation, ConditionalOperation))
 
-    port_clocks = control_flow_operation.get_used_port_clocks()
     end_operation: Operation = _ControlFlowReturn()
     end_operation["pulse_info"] = [
         {
@@ -726,6 +774,7 @@ def _get_list_of_operations_for_op_info_creation(
     time_offset: float,
     accumulator: list[tuple[float, Operation, FullSchedulableLabel]],
     full_schedulable_label: FullSchedulableLabel,
+    schedule: Schedule,
 ) -> None:
     if isinstance(operation, ScheduleBase):
         for schedulable in operation.schedulables.values():
@@ -738,12 +787,14 @@ def _get_list_of_operations_for_op_info_creation(
                 time_offset + abs_time,
                 accumulator,
                 new_full_schedulable_label,
+                schedule,
             )
     elif isinstance(operation, ControlFlowOperation):
+        port_clocks = get_control_flow_port_clocks(operation, schedule)
         accumulator.append(
             (
                 to_grid_time(time_offset) * 1e-9,
-                _get_control_flow_begin(operation),
+                _get_control_flow_begin(operation, port_clocks),
                 full_schedulable_label + (None,),
             )
         )
@@ -753,12 +804,13 @@ def _get_list_of_operations_for_op_info_creation(
             time_offset,
             accumulator,
             new_full_schedulable_label,
+            schedule,
         )
         assert operation.body.duration is not None
         accumulator.append(
             (
                 to_grid_time(time_offset + operation.body.duration) * 1e-9,
-                _get_control_flow_end(operation),
+                _get_control_flow_end(operation, port_clocks),
                 full_schedulable_label + (None,),
             )
         )
@@ -938,7 +990,7 @@ def assign_pulse_and_acq_info_to_devices(
     portclock_mapping = generate_port_clock_to_device_map(device_compilers)
 
     list_of_operations: list[tuple[float, Operation, FullSchedulableLabel]] = list()
-    _get_list_of_operations_for_op_info_creation(schedule, 0, list_of_operations, ())
+    _get_list_of_operations_for_op_info_creation(schedule, 0, list_of_operations, (), schedule)
     list_of_operations.sort(key=lambda abs_time_and_op: abs_time_and_op[0])
 
     for operation_start_time, operation, optional_full_schedulable_label in list_of_operations:
@@ -947,6 +999,12 @@ def assign_pulse_and_acq_info_to_devices(
         if isinstance(operation, WindowOperation):
             continue
 
+        if isinstance(operation, (LoopBegin, ConditionalBegin, _ControlFlowReturn)) and (
+            not operation["pulse_info"]
+        ):
+            # The body of this control flow operation does not act on any port-clock.
+            continue
+
         if (
             not operation.valid_pulse
             and not operation.valid_acquisition
diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 5e2415f..3dd0f00 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -34,6 +34,7 @@ from quantify_scheduler.backends.qblox.enums import ChannelMode
 from quantify_scheduler.backends.qblox.helpers import (
     _generate_new_style_hardware_compilation_config,
     assign_pulse_and_acq_info_to_devices,
+    get_control_flow_port_clocks,
 )
 from quantify_scheduler.backends.qblox.operations import long_ramp_pulse, long_square_pulse
 from quantify_scheduler.backends.qblox.operations.pulse_library import (
@@ -442,6 +443,7 @@ def _set_conditional_info_map(
     operation: Operation | Schedule,
     conditional_info_map: defaultdict[str, ConditionalInfo],
     compilation_config: CompilationConfig,
+    schedule: Schedule,
 ) -> None:
     if isinstance(operation, ScheduleBase):
         for inner_operation in operation.operations.values():
@@ -449,6 +451,7 @@ def _set_conditional_info_map(
                 operation=inner_operation,
                 conditional_info_map=conditional_info_map,
                 compilation_config=compilation_config,
+                schedule=schedule,
             )
     elif isinstance(operation, ConditionalOperation):
         # Store `feedback_trigger_address` in the pulse that corresponds
@@ -467,15 +470,16 @@ def _set_conditional_info_map(
             feedback_trigger_label
         ].trigger_count
 
-        conditional_info_map[
-            feedback_trigger_label
-        ].portclocks |= operation.body.get_used_port_clocks()
+        conditional_info_map[feedback_trigger_label].portclocks |= get_control_flow_port_clocks(
+            operation, schedule
+        )
 
     elif isinstance(operation, ControlFlowOperation):
         _set_conditional_info_map(
             operation=operation.body,
             conditional_info_map=conditional_info_map,
             compilation_config=compilation_config,
+            schedule=schedule,
         )
     elif operation.valid_acquisition and operation.is_conditional_acquisition:
         # Store `feedback_trigger_address` in the correct acquisition, so that it can
@@ -611,7 +615,7 @@ def compile_conditional_playback(  # noqa: D417
     conditional_info_map = defaultdict(
         lambda: ConditionalInfo(portclocks=set(), address=address_counter.__next__())
     )
-    _set_conditional_info_map(schedule, conditional_info_map, config)
+    _set_conditional_info_map(schedule, conditional_info_map, config, schedule)
     _insert_latch_reset(schedule, 0, schedule, conditional_info_map)
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
-- 
2.43.0


From 539e2ab7f1be83a834046ea8d48722b837e625e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 05/50] fix: staircase with a descending or complex amplitude
 is not clipped to a constant

---
 quantify_scheduler/waveforms.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index da5d7ab..7b695a3 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -88,10 +88,9 @@ def staircase(
         duration = float(t[-1] - t[0])
 
     amp_step = (final_amp - start_amp) / (num_steps - 1)
-    waveform = np.floor(t * (num_steps / duration)) * amp_step + start_amp
-    # Replace out of range values with start_amp or final_amp.
-    # In most cases that would only happen when `duration in t`
-    return np.minimum(np.maximum(waveform, start_amp), final_amp)
+    # Times before the start (at or past the end) belong to the first (last) step.
+    step = np.clip(np.floor(t * (num_steps / duration)), 0, num_steps - 1)
+    return step * amp_step + start_amp
 
 
 def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
-- 
2.43.0


From 4851ef0eeda5e58a936e7331134ec45881204064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 06/50] fix: sudden net zero pulse loses no samples to floating
 point errors

---
 quantify_scheduler/waveforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 7b695a3..74069f9 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -344,9 +344,10 @@ def sudden_net_zero(
 
     """
     sampling_rate = t[1] - t[0]
-    single_arm_samples = int(t_pulse / 2 / sampling_rate)
-    mid_samples = int(t_phi / sampling_rate)
-    num_corr_samples = int(t_integral_correction / sampling_rate)
+    # Round before truncating: the quotients are subject to floating point errors.
+    single_arm_samples = int(round(t_pulse / 2 / sampling_rate, 6))
+    mid_samples = int(round(t_phi / sampling_rate, 6))
+    num_corr_samples = int(round(t_integral_correction / sampling_rate, 6))
 
     if 2 * single_arm_samples + mid_samples + num_corr_samples > len(t):
         raise ValueError(
-- 
2.43.0


From 4b9b19326a7160ce6e6881310a93646fbf55dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 07/50] fix: staircase steps are not delayed by floating point
 errors

---
 quantify_scheduler/waveforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 74069f9..7c3625a 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -89,7 +89,8 @@ def staircase(
 
     amp_step = (final_amp - start_amp) / (num_steps - 1)
     # Times before the start (at or past the end) belong to the first (last) step.
-    step = np.clip(np.floor(t * (num_steps / duration)), 0, num_steps - 1)
+    # Round before taking the floor, as the time of a step is subject to floating point errors.
+    step = np.clip(np.floor(np.round(t * (num_steps / duration), 6)), 0, num_steps - 1)
     return step * amp_step + start_amp
 
 
-- 
2.43.0


From a4837614768fb78e52cf0e1fdeed2c4db51d88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 08/50] fix: refuse operations that run during a control flow
 on the same port-clock

---
 quantify_scheduler/backends/qblox/helpers.py | 69 ++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index bf38d00..afa4ddd 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -36,6 +36,8 @@ from quantify_scheduler.operations.pulse_library import WindowOperation
 from quantify_scheduler.schedules.schedule import Schedule, ScheduleBase
 
 if TYPE_CHECKING:
+    from collections.abc import Iterable
+
     from quantify_scheduler.backends.qblox.instrument_compilers import ClusterCompiler
     from quantify_scheduler.helpers.generate_acq_channels_data import (
         FullSchedulableLabel,
@@ -824,6 +826,70 @@ def _get_list_of_operations_for_op_info_creation(
         )
 
 
+def _get_start_times_per_port_clock(
+    operation: Operation,
+    operation_start_time: float,
+    portclocks: Iterable[tuple[str, str]],
+) -> list[tuple[tuple[str, str], float]]:
+    """Get when instructions for an operation start, for each port-clock it acts on."""
+    start_times = []
+    for info in [
+        *operation.data.get("pulse_info", []),
+        *operation.data.get("acquisition_info", []),
+    ]:
+        start_time = operation_start_time + (info.get("t0") or 0)
+        if info["port"] is not None:
+            start_times.append(((info["port"], info["clock"]), start_time))
+        elif any(key in info for key in ("phase_shift", "clock_freq_new", "reset_clock_phase")):
+            start_times += [
+                ((port, clock), start_time) for port, clock in portclocks if clock == info["clock"]
+            ]
+    return start_times
+
+
+def _validate_no_operations_during_control_flow(
+    list_of_operations: list[tuple[float, Operation, FullSchedulableLabel]],
+    portclocks: Iterable[tuple[str, str]],
+) -> None:
+    """
+    Raise an error if an operation would unintentionally be executed as part of a control flow.
+
+    All instructions for a port-clock that start between the start and the end of the body of a
+    control flow operation are repeated (loop) or made conditional. Therefore, operations that are
+    not in the body may not start there.
+    """
+    per_port_clock: dict[tuple[str, str], list] = defaultdict(list)
+    for operation_start_time, operation, label in list_of_operations:
+        for port_clock, start_time in _get_start_times_per_port_clock(
+            operation, operation_start_time, portclocks
+        ):
+            per_port_clock[port_clock].append((start_time, operation, label))
+
+    for operations in per_port_clock.values():
+        if not any(isinstance(operation, _ControlFlowReturn) for _, operation, _ in operations):
+            continue
+        open_control_flows: list[tuple[Operation, FullSchedulableLabel]] = []
+        for start_time, operation, label in sorted(
+            operations, key=lambda start_time_and_op: round(start_time_and_op[0] * 1e9)
+        ):
+            if isinstance(operation, _ControlFlowReturn):
+                open_control_flows.pop()
+                continue
+            for control_flow, control_flow_label in open_control_flows:
+                is_executed_once = (
+                    isinstance(control_flow, LoopBegin)
+                    and control_flow.data["control_flow_info"]["repetitions"] == 1
+                )
+                if not is_executed_once and label[: len(control_flow_label)] != control_flow_label:
+                    raise RuntimeError(
+                        f"Operation {operation} (starting at t={start_time}) is scheduled during "
+                        f"the control flow operation {control_flow} on the same port and clock, "
+                        "but is not part of its body."
+                    )
+            if isinstance(operation, (LoopBegin, ConditionalBegin)):
+                open_control_flows.append((operation, label))
+
+
 def _assign_pulse_info_to_devices(
     device_compilers: dict[str, ClusterCompiler],
     portclock_mapping: dict[str, str],
@@ -992,6 +1058,9 @@ def assign_pulse_and_acq_info_to_devices(
     list_of_operations: list[tuple[float, Operation, FullSchedulableLabel]] = list()
     _get_list_of_operations_for_op_info_creation(schedule, 0, list_of_operations, (), schedule)
     list_of_operations.sort(key=lambda abs_time_and_op: abs_time_and_op[0])
+    _validate_no_operations_during_control_flow(
+        list_of_operations, schedule.get_used_port_clocks()
+    )
 
     for operation_start_time, operation, optional_full_schedulable_label in list_of_operations:
         assert isinstance(operation, Operation)
-- 
2.43.0


From 1476c5e89b7f8f9e7c82ac40949e6bf1431f7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 09/50] fix: accept acquisition weights sampled at exactly 1
 GS/s for every number of samples

---
 .../backends/qblox/operation_handling/acquisitions.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index de745bc..66ba36e 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -226,7 +226,8 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 )
             if "interpolated" in parameterized_waveform["wf_func"]:
                 weights_sampling_rate = len(parameterized_waveform["t_samples"]) / duration
-                if weights_sampling_rate > constants.SAMPLING_RATE:
+                # Allow for the floating point error in `duration`.
+                if weights_sampling_rate > constants.SAMPLING_RATE * (1 + 1e-9):
                     raise ValueError(
                         f"Qblox hardware supports a sampling rate up to "
                         f"{constants.SAMPLING_RATE * 1e-9:0.1e} GHz, but a sampling "
-- 
2.43.0


From d3b0c4b269c4270e779e45f01e5d65265ffb2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 10/50] fix: refuse acquisition weights below -1, accept those
 equal to 1

---
 .../backends/qblox/operation_handling/acquisitions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index 66ba36e..82a9016 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -240,11 +240,12 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 sampling_rate=constants.SAMPLING_RATE,
                 duration=duration,
             )
-            if abs(max(waveform_data)) > 1:
-                first_bad_idx, bad_value = next(
-                    (i, x) for i, x in enumerate(waveform_data) if x > 1
-                )
-                total = sum(np.abs(waveform_data) > 1)
+            # Interpolating between weights of amplitude 1 can exceed 1 by a rounding error.
+            out_of_range = np.flatnonzero(np.abs(waveform_data) > 1 + 1e-9)
+            if len(out_of_range) > 0:
+                first_bad_idx = out_of_range[0]
+                bad_value = waveform_data[first_bad_idx]
+                total = len(out_of_range)
                 raise ValueError(
                     f"Acquisition weights with an amplitude greater than 1 are not "
                     f"supported by hardware. Acquisition weights array {idx} contains "
-- 
2.43.0


From cf1701048a57c9282b880b88352813125a2d7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 11/50] fix: count the bins of all repetitions when checking
 for free acquisition bins

---
 .../backends/qblox/qblox_acq_index_manager.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
index 089b65f..1100ba7 100644
--- a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
+++ b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
@@ -252,10 +252,10 @@ class QbloxAcquisitionIndexManager:
         else:
             qblox_acq_index = self._acq_channel_to_qblox_acq_index[acq_channel]
 
-        requested_number_of_indices: int = len(acq_indices)
+        requested_number_of_bins: int = len(acq_indices) * repetitions
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_bins > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
@@ -264,7 +264,7 @@ class QbloxAcquisitionIndexManager:
             )
 
         qblox_acq_bin_offset: int = self._reserve_qblox_acq_bins(
-            number_of_indices=requested_number_of_indices,
+            number_of_indices=len(acq_indices),
             qblox_acq_index=qblox_acq_index,
             acq_channel=acq_channel,
             acq_indices=acq_indices,
@@ -429,10 +429,10 @@ class QbloxAcquisitionIndexManager:
                 f"on sequencer '{sequencer_name}'."
             )
 
-        requested_number_of_indices: int = len(acq_indices)
+        requested_number_of_bins: int = len(acq_indices) * repetitions
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_bins > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
@@ -441,7 +441,7 @@ class QbloxAcquisitionIndexManager:
             )
 
         qblox_acq_bin_offset: int = self._reserve_qblox_acq_bins(
-            number_of_indices=requested_number_of_indices,
+            number_of_indices=len(acq_indices),
             qblox_acq_index=qblox_acq_index,
             acq_channel=acq_channel,
             acq_indices=[(i, None) for i in acq_indices],
-- 
2.43.0


From bf26aea970dfb4ef2809b15487793a410ba264f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 12/50] fix: merge only Rz gates that directly follow each
 other, without changing shared operations

---
 quantify_scheduler/compilation.py | 53 ++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index ac52072..7940a75 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import logging
+from copy import deepcopy
 from typing import TYPE_CHECKING, Literal, overload
 
 import networkx as nx
@@ -411,6 +412,34 @@ def _normalize_absolute_timing(
     return schedule
 
 
+def _directly_follows(
+    schedulable: Schedulable, previous: Schedulable, strategy: SchedulingStrategy
+) -> bool:
+    """
+    Whether the ``schedulable`` is timed to start when the ``previous`` one ends.
+
+    ``previous`` is the schedulable that was added just before ``schedulable``.
+    """
+
+    def is_timed_by(timed: Schedulable, reference: Schedulable) -> bool:
+        timing_constraints = timed["timing_constraints"]
+        if len(timing_constraints) != 1:
+            return False
+        timing_constraint = timing_constraints[0]
+        return (
+            timing_constraint.ref_schedulable in (None, reference["name"])
+            and timing_constraint.rel_time == 0
+            and (timing_constraint.ref_pt or default_ref_pt) == default_ref_pt
+            and (timing_constraint.ref_pt_new or default_ref_pt_new) == default_ref_pt_new
+        )
+
+    default_ref_pt = _determine_default_ref_pt(strategy)
+    default_ref_pt_new = _determine_default_ref_pt_new(strategy)
+    if strategy == SchedulingStrategy.ASAP:
+        return is_timed_by(schedulable, previous)
+    return is_timed_by(previous, schedulable)
+
+
 @overload
 def _merge_rz_gates(
     schedule: Schedule,
@@ -437,7 +466,12 @@ def _merge_rz_gates(
                 config=config,
             )
 
+        strategy = _determine_scheduling_strategy(config)
+        # The last operation that is not merged into an earlier one, its schedulable, and the
+        # schedulable that was added last.
         last_op = None
+        last_sched = None
+        previous_sched = None
         # Copy list so we can modify it while iterating
         for inner_sched_key in list(op.schedulables):
             inner_sched = op.schedulables[inner_sched_key]
@@ -448,16 +482,33 @@ def _merge_rz_gates(
                 isinstance(inner_op, Rz)
                 and isinstance(last_op, Rz)
                 and inner_op.qubit == last_op.qubit
+                and inner_op.data["gate_info"]["device_overrides"]
+                == last_op.data["gate_info"]["device_overrides"]
+                and _directly_follows(inner_sched, previous_sched, strategy)
             ):
-                last_op.theta += inner_op.theta
+                # The operations can be used by other schedulables too, so they must not be changed.
+                merged_op = deepcopy(last_op)
+                merged_op.theta += inner_op.theta
+                merged_id = merged_op.hash
+                op.operations[merged_id] = merged_op
+                last_sched["operation_id"] = merged_id
                 noop = IdlePulse(0)
                 noop_id = noop.hash
                 op.operations[noop_id] = noop
                 inner_sched["operation_id"] = noop_id
+                last_op = merged_op
+                previous_sched = inner_sched
                 continue
 
             # Record last
             last_op = inner_op
+            last_sched = inner_sched
+            previous_sched = inner_sched
+
+        used_operation_ids = {sched["operation_id"] for sched in op.schedulables.values()}
+        for operation_id in list(op.operations):
+            if operation_id not in used_operation_ids:
+                del op.operations[operation_id]
 
         return op
     elif isinstance(op, ControlFlowOperation):
-- 
2.43.0


From 9ef6493d9f9959b1d98c6c6e39a95e4aec11c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 13/50] fix: measurement with another frequency delays the next
 operation, not its own clock reset

---
 quantify_scheduler/operations/measurement_factories.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 554b48e..92409c0 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -148,7 +148,10 @@ def _dispersive_measurement(  # noqa: PLR0915
     schedule_data = {}
     if next_operation_delay:
         schedule_data["next_operation_delay"] = next_operation_delay
-    subschedule = Schedule("dispersive_measurement", data=schedule_data)
+    # The delay belongs to the outermost schedule of this measurement.
+    subschedule = Schedule(
+        "dispersive_measurement", data=schedule_data if freq is None else None
+    )
 
     if acq_protocol != "LongTimeTrace":
         if reset_clock_phase:
@@ -385,7 +388,7 @@ def _dispersive_measurement(  # noqa: PLR0915
         raise ValueError(f'Acquisition protocol "{acq_protocol}" is not supported.')
 
     if freq is not None:
-        subschedule_with_freq = Schedule("dispersive_measurement_with_freq")
+        subschedule_with_freq = Schedule("dispersive_measurement_with_freq", data=schedule_data)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=freq))
         subschedule_with_freq.add(subschedule)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=None))
-- 
2.43.0


From 091a10026d459f6831eb975b6cf4e81a89eb3e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 14/50] fix: LongTimeTrace measurement uses the acquisition
 channel of the element

---
 quantify_scheduler/operations/measurement_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 92409c0..e4e10e6 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -355,7 +355,7 @@ def _dispersive_measurement(  # noqa: PLR0915
             port=port,
             clock=clock,
             duration=acq_duration,
-            acq_channel=0,
+            acq_channel=acq_channel,
             coords=coords,
             acq_index=acq_index,
             bin_mode=bin_mode,
-- 
2.43.0


From 56a84016c1687bb040ced38419d8cf99826e9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 15/50] fix: apply_acquisition_delay takes the overridden
 acquisition delay into account

---
 .../backends/circuit_to_device.py             | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index 072f878..af21ecb 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -736,12 +736,6 @@ def _get_device_repr_from_cfg(
     factory_func = operation_cfg.factory_func
 
     factory_kwargs: dict = operation_cfg.factory_kwargs
-    if (
-        isinstance(operation, Measure)
-        and not operation.data["gate_info"]["apply_acquisition_delay"]
-    ):
-        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
-
     # retrieve keyword args for parametrized operations from the gate info
     if operation_cfg.gate_info_factory_kwargs is not None:
         for key in operation_cfg.gate_info_factory_kwargs:
@@ -752,6 +746,12 @@ def _get_device_repr_from_cfg(
         if key in factory_kwargs:
             factory_kwargs[key] = value
 
+    if (
+        isinstance(operation, Measure)
+        and not operation.data["gate_info"]["apply_acquisition_delay"]
+    ):
+        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
+
     assert factory_func is not None
     return factory_func(**factory_kwargs)
 
@@ -783,17 +783,17 @@ def _get_device_repr_from_cfg_multiplexed(
             else:
                 factory_kwargs[key] = gate_info
 
+    # Add operation defined custom device overrides.
+    for key, value in device_overrides.items():
+        if key in factory_kwargs:
+            factory_kwargs[key] = value
+
     if (
         isinstance(operation, Measure)
         and not operation.data["gate_info"]["apply_acquisition_delay"]
     ):
         factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
 
-    # Add operation defined custom device overrides.
-    for key, value in device_overrides.items():
-        if key in factory_kwargs:
-            factory_kwargs[key] = value
-
     assert factory_func is not None
     return factory_func(**factory_kwargs)
 
-- 
2.43.0


From fdaf8ebc964f65aa234dacb7b48ff0f59ae64f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 16/50] fix: spin_init_pulse does not depend on the scheduling
 strategy

---
 .../operations/pulse_factories.py               | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/operations/pulse_factories.py b/quantify_scheduler/operations/pulse_factories.py
index 945841e..debba56 100644
--- a/quantify_scheduler/operations/pulse_factories.py
+++ b/quantify_scheduler/operations/pulse_factories.py
@@ -398,7 +398,9 @@ def spin_init_pulse(
             duration=square_duration,
             port=parent_port,
             clock=parent_clock,
-        )
+        ),
+        ref_pt="start",
+        ref_pt_new="start",
     )
 
     spin_init_schedule.add(
@@ -409,9 +411,12 @@ def spin_init_pulse(
             clock=child_clock,
         ),
         ref_pt="start",
+        ref_pt_new="start",
     )
 
-    parent_ramp_rel_time = abs(min(ramp_diff, 0))
+    # All pulses are aligned at their start, which does not depend on the scheduling strategy.
+    # A negative ramp_diff means that the ramp of the child is played before the one of the parent.
+    parent_ramp_t0 = square_duration + abs(min(ramp_diff, 0))
 
     spin_init_schedule.add(
         pulse_library.RampPulse(
@@ -419,9 +424,10 @@ def spin_init_pulse(
             duration=parent_ramp_amp / parent_ramp_rate,
             port=parent_port,
             clock=parent_clock,
+            t0=parent_ramp_t0,
         ),
-        ref_pt="end",
-        rel_time=parent_ramp_rel_time,
+        ref_pt="start",
+        ref_pt_new="start",
     )
 
     spin_init_schedule.add(
@@ -430,9 +436,10 @@ def spin_init_pulse(
             duration=child_ramp_amp / child_ramp_rate,
             port=child_port,
             clock=child_clock,
+            t0=parent_ramp_t0 + ramp_diff,
         ),
         ref_pt="start",
-        rel_time=ramp_diff,
+        ref_pt_new="start",
     )
 
     return spin_init_schedule
-- 
2.43.0


From 0028360c2851e1e6f738691b8f2f2432c3ee092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 17/50] fix: distinct parameter values no longer share a hash
 (-1 and -2, '' and 0, arrays of other shape)

---
 quantify_scheduler/helpers/collections.py      | 16 +++++++++++++++-
 quantify_scheduler/operations/pulse_library.py |  3 ++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/helpers/collections.py b/quantify_scheduler/helpers/collections.py
index 9e48ca7..97ff246 100644
--- a/quantify_scheduler/helpers/collections.py
+++ b/quantify_scheduler/helpers/collections.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 from collections import UserDict
 from collections.abc import Iterable, MutableMapping
+from numbers import Number
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -38,7 +39,8 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
 
     if isinstance(obj, np.ndarray):
         # numpy arrays behave funny for hashing
-        new_hash.update(obj)  # type: ignore
+        new_hash.update(f"{obj.dtype}{obj.shape}".encode())
+        new_hash.update(np.ascontiguousarray(obj))  # type: ignore
         val = new_hash.intdigest()
         new_hash.reset()
         return val
@@ -47,6 +49,18 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
         tuple_of_hashes = ((key, make_hash(val)) for key, val in obj.items())
         return hash(frozenset(sorted(tuple_of_hashes)))
 
+    if isinstance(obj, complex) and obj.imag != 0:
+        return hash(("complex", make_hash(obj.real), make_hash(obj.imag)))
+
+    if isinstance(obj, Number):
+        # In CPython, hash(-1) == hash(-2), so that the hash by itself cannot
+        # distinguish between these values.
+        return hash((obj == -1, obj))
+
+    if isinstance(obj, str):
+        # hash("") == hash(0).
+        return hash(("str", str(obj)))
+
     return hash(obj)
 
 
diff --git a/quantify_scheduler/operations/pulse_library.py b/quantify_scheduler/operations/pulse_library.py
index 747bbd2..fc207f6 100644
--- a/quantify_scheduler/operations/pulse_library.py
+++ b/quantify_scheduler/operations/pulse_library.py
@@ -10,6 +10,7 @@ from typing import Any, Literal
 import numpy as np
 from qcodes import InstrumentChannel, validators
 
+from quantify_scheduler.helpers.collections import make_hash
 from quantify_scheduler.helpers.importers import export_python_object_to_path_string
 from quantify_scheduler.operations.operation import Operation
 from quantify_scheduler.resources import BasebandClockResource, DigitalClockResource
@@ -34,7 +35,7 @@ class ReferenceMagnitude:
         return cls(value, unit)
 
     def __hash__(self) -> int:
-        return hash((self.value, self.unit))
+        return make_hash((self.value, self.unit))
 
     def __setstate__(self, state: dict[str, Any]) -> dict:
         self.value = state["value"]
-- 
2.43.0


From fe317400ca7c3691f08c424e432fdc48e1243cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 18/50] fix: the printed form of operations can be evaluated
 into an equal operation

---
 .../qblox/operations/pulse_library.py         | 16 +++--
 quantify_scheduler/helpers/collections.py     |  3 +
 .../operations/acquisition_library.py         | 25 ++++---
 quantify_scheduler/operations/gate_library.py | 68 +++++++++++++------
 .../operations/nv_native_library.py           |  6 +-
 quantify_scheduler/operations/operation.py    | 10 ++-
 .../operations/shared_native_library.py       |  3 +-
 quantify_scheduler/operations/spin_library.py |  3 +-
 8 files changed, 89 insertions(+), 45 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operations/pulse_library.py b/quantify_scheduler/backends/qblox/operations/pulse_library.py
index f6e57a1..9383627 100644
--- a/quantify_scheduler/backends/qblox/operations/pulse_library.py
+++ b/quantify_scheduler/backends/qblox/operations/pulse_library.py
@@ -47,12 +47,9 @@ class LatchReset(Operation):
         pulse_info = self.data["pulse_info"][0]
         return (
             f"{self.__class__.__name__}("
-            f"name='{self.name}', "
-            f"t0='{pulse_info['t0']}', "
-            f"port='{pulse_info['port']}'"
-            f"clock='{pulse_info['clock']}'"
-            f"duration='{pulse_info['duration']}'"
-            f")"
+            f"portclock={(pulse_info['port'], pulse_info['clock'])}, "
+            f"t0={pulse_info['t0']}, "
+            f"duration={pulse_info['duration']})"
         )
 
 
@@ -118,3 +115,10 @@ class SimpleNumericalPulse(NumericalPulse):
             t0=t0,
             interpolation="linear",
         )
+
+    def __str__(self) -> str:
+        """Provides a string representation of the Pulse."""
+        pulse_info = {**self.data["pulse_info"][0]}
+        # Without the sample that was appended by the constructor.
+        pulse_info["samples"] = pulse_info["samples"][:-1]
+        return self._get_signature(pulse_info)
diff --git a/quantify_scheduler/helpers/collections.py b/quantify_scheduler/helpers/collections.py
index 97ff246..c08712e 100644
--- a/quantify_scheduler/helpers/collections.py
+++ b/quantify_scheduler/helpers/collections.py
@@ -40,6 +40,9 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
     if isinstance(obj, np.ndarray):
         # numpy arrays behave funny for hashing
         new_hash.update(f"{obj.dtype}{obj.shape}".encode())
+        if obj.dtype.kind in "fc":
+            # Positive and negative zero are equal, but have different bytes.
+            obj = obj + 0.0
         new_hash.update(np.ascontiguousarray(obj))  # type: ignore
         val = new_hash.intdigest()
         new_hash.reset()
diff --git a/quantify_scheduler/operations/acquisition_library.py b/quantify_scheduler/operations/acquisition_library.py
index e2ef5bd..644870e 100644
--- a/quantify_scheduler/operations/acquisition_library.py
+++ b/quantify_scheduler/operations/acquisition_library.py
@@ -247,7 +247,8 @@ class WeightedIntegratedSeparated(Acquisition):
             self.data["acquisition_info"][0]["protocol"] = "WeightedIntegratedSeparated"
 
     def __str__(self) -> str:
-        acq_info = self.data["acquisition_info"][0]
+        acq_info = copy(self.data["acquisition_info"][0])
+        acq_info["waveform_a"], acq_info["waveform_b"] = acq_info["waveforms"]
         return self._get_signature(acq_info)
 
 
@@ -629,21 +630,17 @@ class NumericalSeparatedWeightedIntegration(WeightedIntegratedSeparated):
 
     def __str__(self) -> str:
         acq_info = self.data["acquisition_info"][0]
-        weights_a = np.array2string(
-            acq_info["waveforms"][0]["samples"], separator=", ", precision=9
-        )
-        weights_b = np.array2string(
-            acq_info["waveforms"][1]["samples"], separator=", ", precision=9
-        )
-        t_samples = acq_info["waveforms"][0]["t_samples"]
-        weights_sampling_rate = 1 / (t_samples[1] - t_samples[0])
+        weights_a = np.asarray(acq_info["waveforms"][0]["samples"]).tolist()
+        weights_b = np.asarray(acq_info["waveforms"][1]["samples"]).tolist()
+        # Undo the division with which the constructor determines the duration.
+        weights_sampling_rate = float(f"{len(weights_a) / acq_info['duration']:.15g}")
         port = acq_info["port"]
         clock = acq_info["clock"]
         interpolation = acq_info["waveforms"][0]["interpolation"]
         acq_channel = acq_info["acq_channel"]
         coords = acq_info["coords"]
         acq_index = acq_info["acq_index"]
-        bin_mode = acq_info["bin_mode"].value
+        bin_mode = str(acq_info["bin_mode"])
         phase = acq_info["phase"]
         t0 = acq_info["t0"]
 
@@ -876,6 +873,12 @@ class WeightedThresholdedAcquisition(NumericalWeightedIntegration):
         )
         self._update()
 
+    def __str__(self) -> str:
+        acq_info = self.data["acquisition_info"][0]
+        feedback_trigger_label = acq_info["feedback_trigger_label"]
+        acq_threshold = acq_info["acq_threshold"]
+        return f"{super().__str__()[:-1]}, {feedback_trigger_label=}, {acq_threshold=})"
+
 
 class TriggerCount(Acquisition):
     """
@@ -1530,7 +1533,7 @@ class DualThresholdedTriggerCount(Acquisition):
         acq_info["threshold_high"] = acq_info["thresholded_trigger_count"]["threshold_high"]
         # Pyright thinks custom StrEnum is not iterable.
         for suffix in DualThresholdedTriggerCountLabels:  # type: ignore
-            acq_info[f"label_{suffix}"] = acq_info[f"feedback_trigger_label_{suffix}"]
+            acq_info[f"label_{suffix}"] = acq_info["feedback_trigger_labels"].get(suffix)
         return self._get_signature(acq_info)
 
 
diff --git a/quantify_scheduler/operations/gate_library.py b/quantify_scheduler/operations/gate_library.py
index e5d920e..0c2f15e 100644
--- a/quantify_scheduler/operations/gate_library.py
+++ b/quantify_scheduler/operations/gate_library.py
@@ -61,7 +61,7 @@ class Rxy(Operation):
         # this solves an issue where different rotations with the same rotation angle
         # modulo a full period are treated as distinct operations in the OperationDict
         # Here we map [0,360[ onto ]-180,180] so that X180 has positive amplitude
-        theta = round(_modulo_360_with_mapping(theta), 8)
+        theta = round(_modulo_360_with_mapping(theta), 8) + 0.0  # no negative zero
 
         phi = round(phi % 360, 8)
 
@@ -102,7 +102,10 @@ class Rxy(Operation):
         theta = gate_info["theta"]
         phi = gate_info["phi"]
         device_element = gate_info["device_elements"][0]
-        return f"{self.__class__.__name__}({theta=:.8g}, {phi=:.8g}, qubit='{device_element}')"
+        return (
+            f"{self.__class__.__name__}(theta={_format_angle(theta)}, phi={_format_angle(phi)}, "
+            f"qubit='{device_element}'{self._get_device_overrides_signature()})"
+        )
 
 
 class X(Rxy):
@@ -136,7 +139,8 @@ class X(Rxy):
 
     def __str__(self) -> str:
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class X90(Rxy):
@@ -175,7 +179,8 @@ class X90(Rxy):
 
     def __str__(self) -> str:
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class Y(Rxy):
@@ -214,7 +219,8 @@ class Y(Rxy):
 
     def __str__(self) -> str:
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class Y90(Rxy):
@@ -261,7 +267,8 @@ class Y90(Rxy):
         unique.
         """
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class Rz(Operation):
@@ -345,7 +352,10 @@ class Rz(Operation):
         gate_info = self.data["gate_info"]
         theta = gate_info["theta"]
         device_element = gate_info["device_elements"][0]
-        return f"{self.__class__.__name__}({theta=:.8g}, qubit='{device_element}')"
+        return (
+            f"{self.__class__.__name__}(theta={_format_angle(theta)}, "
+            f"qubit='{device_element}'{self._get_device_overrides_signature()})"
+        )
 
 
 class Z(Rz):
@@ -380,7 +390,8 @@ class Z(Rz):
 
     def __str__(self) -> str:
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class Z90(Rz):
@@ -417,7 +428,8 @@ class Z90(Rz):
 
     def __str__(self) -> str:
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class S(Z90):
@@ -489,7 +501,8 @@ class SDagger(Rz):
 
     def __str__(self) -> str:
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class T(Rz):
@@ -527,7 +540,8 @@ class T(Rz):
 
     def __str__(self) -> str:
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class TDagger(Rz):
@@ -565,7 +579,8 @@ class TDagger(Rz):
 
     def __str__(self) -> str:
         device_element = self.data["gate_info"]["device_elements"][0]
-        return f"{self.__class__.__name__}(qubit='{device_element}')"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}(qubit='{device_element}'{overrides})"
 
 
 class H(Operation):
@@ -610,7 +625,8 @@ class H(Operation):
 
     def __str__(self) -> str:
         device_elements = map(lambda x: f"'{x}'", self.data["gate_info"]["device_elements"])
-        return f"{self.__class__.__name__}({','.join(device_elements)})"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}({','.join(device_elements)}{overrides})"
 
 
 class CNOT(Operation):
@@ -667,7 +683,8 @@ class CNOT(Operation):
         device_element_control = gate_info["device_elements"][0]
         device_element_target = gate_info["device_elements"][1]
         return (
-            f"{self.__class__.__name__}(qC='{device_element_control}',qT='{device_element_target}')"
+            f"{self.__class__.__name__}(qC='{device_element_control}',"
+            f"qT='{device_element_target}'{self._get_device_overrides_signature()})"
         )
 
 
@@ -726,7 +743,8 @@ class CZ(Operation):
         device_element_target = gate_info["device_elements"][1]
 
         return (
-            f"{self.__class__.__name__}(qC='{device_element_control}',qT='{device_element_target}')"
+            f"{self.__class__.__name__}(qC='{device_element_control}',"
+            f"qT='{device_element_target}'{self._get_device_overrides_signature()})"
         )
 
 
@@ -786,7 +804,8 @@ class Reset(Operation):
 
     def __str__(self) -> str:
         device_elements = map(lambda x: f"'{x}'", self.data["gate_info"]["device_elements"])
-        return f"{self.__class__.__name__}({','.join(device_elements)})"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}({','.join(device_elements)}{overrides})"
 
 
 class Measure(Operation):
@@ -913,16 +932,23 @@ class Measure(Operation):
         apply_acquisition_delay = gate_info["apply_acquisition_delay"]
         return (
             f"{self.__class__.__name__}({','.join(device_elements)}, "
-            f"acq_channel={acq_channel}, "
+            f"acq_channel={acq_channel!r}, "
             f"coords={coords}, "
             f"acq_index={acq_index}, "
-            f'acq_protocol="{acq_protocol}", '
-            f"bin_mode={bin_mode!s}, "
-            f"feedback_trigger_label={feedback_trigger_label}, "
-            f"apply_acquisition_delay={apply_acquisition_delay})"
+            f"acq_protocol={acq_protocol!r}, "
+            f"bin_mode={None if bin_mode is None else str(bin_mode)!r}, "
+            f"feedback_trigger_label={feedback_trigger_label!r}, "
+            f"apply_acquisition_delay={apply_acquisition_delay}"
+            f"{self._get_device_overrides_signature()})"
         )
 
 
+def _format_angle(angle: float) -> str:
+    """Concise text for an angle, from which exactly the same angle can be evaluated."""
+    text = f"{angle:.8g}"
+    return text if float(text) == angle else repr(float(angle))
+
+
 def _modulo_360_with_mapping(theta: float) -> float:
     """
     Maps an input angle ``theta`` (in degrees) onto the range ``]-180, 180]``.
diff --git a/quantify_scheduler/operations/nv_native_library.py b/quantify_scheduler/operations/nv_native_library.py
index 01619eb..c8359e3 100644
--- a/quantify_scheduler/operations/nv_native_library.py
+++ b/quantify_scheduler/operations/nv_native_library.py
@@ -142,9 +142,9 @@ class CRCount(Operation):
         bin_mode = gate_info["bin_mode"]
         return (
             f"{self.__class__.__name__}({','.join(device_elements)}, "
-            f"acq_channel={acq_channel}, "
+            f"acq_channel={acq_channel!r}, "
             f"coords={coords}, "
             f"acq_index={acq_index}, "
-            f'acq_protocol="{acq_protocol}", '
-            f"bin_mode={bin_mode!s})"
+            f"acq_protocol={acq_protocol!r}, "
+            f"bin_mode={None if bin_mode is None else str(bin_mode)!r})"
         )
diff --git a/quantify_scheduler/operations/operation.py b/quantify_scheduler/operations/operation.py
index f9bbf87..bdb38c3 100644
--- a/quantify_scheduler/operations/operation.py
+++ b/quantify_scheduler/operations/operation.py
@@ -183,7 +183,8 @@ class Operation(JSONSchemaValMixin, UserDict):
         :
 
         """
-        if cls._class_signature is None:
+        # The signature is cached per class: a subclass can have another signature.
+        if cls.__dict__.get("_class_signature") is None:
             logger.info(f"Caching signature for class {cls.__name__}")
             cls._class_signature = inspect.signature(cls)
         signature = cls._class_signature
@@ -206,7 +207,7 @@ class Operation(JSONSchemaValMixin, UserDict):
             if isinstance(value, Enum):
                 enum_value = value.value
                 value = enum_value
-            value = f"'{value}'" if isinstance(value, str) else value
+            value = repr(value) if isinstance(value, str) else value
             return f"{key}={value}"
 
         required_params = list(signature.parameters.keys())
@@ -214,6 +215,11 @@ class Operation(JSONSchemaValMixin, UserDict):
 
         return f"{cls.__name__}({','.join(kwargs_list)})"
 
+    def _get_device_overrides_signature(self) -> str:
+        """Returns the device overrides of a gate as keyword arguments for its signature."""
+        device_overrides = self.data["gate_info"].get("device_overrides", {})
+        return "".join(f", {key}={value!r}" for key, value in device_overrides.items())
+
     def add_gate_info(self, gate_operation: Operation) -> None:
         """
         Updates self.data['gate_info'] with contents of gate_operation.
diff --git a/quantify_scheduler/operations/shared_native_library.py b/quantify_scheduler/operations/shared_native_library.py
index d7476f4..170f86d 100644
--- a/quantify_scheduler/operations/shared_native_library.py
+++ b/quantify_scheduler/operations/shared_native_library.py
@@ -45,4 +45,5 @@ class SpectroscopyOperation(Operation):
     def __str__(self) -> str:
         gate_info = self.data["gate_info"]
         device_element = gate_info["device_elements"][0]
-        return f'{self.__class__.__name__}(qubit="{device_element}")'
+        overrides = self._get_device_overrides_signature()
+        return f'{self.__class__.__name__}(qubit="{device_element}"{overrides})'
diff --git a/quantify_scheduler/operations/spin_library.py b/quantify_scheduler/operations/spin_library.py
index 41dcc68..faa8a0a 100644
--- a/quantify_scheduler/operations/spin_library.py
+++ b/quantify_scheduler/operations/spin_library.py
@@ -45,4 +45,5 @@ class SpinInit(Operation):
 
     def __str__(self) -> str:
         device_elements = map(lambda x: f"'{x}'", self.data["gate_info"]["device_elements"])
-        return f"{self.__class__.__name__}({','.join(device_elements)})"
+        overrides = self._get_device_overrides_signature()
+        return f"{self.__class__.__name__}({','.join(device_elements)}{overrides})"
-- 
2.43.0


From 4272abb325e1fcb5087c5adb376fd50eb3cc6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 19/50] fix: InlineQ1ASM and numpy values survive serialization

---
 .../backends/qblox/operations/inline_q1asm.py | 21 ++++++++++++++++---
 quantify_scheduler/json_utils.py              |  8 +++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
index 96d2e02..60511c9 100644
--- a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
+++ b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
@@ -9,6 +9,7 @@ from copy import deepcopy
 
 from quantify_scheduler.backends.types.qblox import OpInfo
 from quantify_scheduler.helpers.collections import make_hash
+from quantify_scheduler.helpers.importers import export_python_object_to_path_string
 from quantify_scheduler.operations.operation import Operation
 
 
@@ -117,11 +118,25 @@ class InlineQ1ASM(Operation):
         parameter_list = []
         for parameter, _value in x.parameters.items():
             cur_atr = self.__getattribute__(parameter)
-            if isinstance(cur_atr, str):
-                cur_atr = f"'{cur_atr}'"
-            parameter_list.append(f"{parameter}={cur_atr}")
+            parameter_list.append(f"{parameter}={cur_atr!r}")
         return f"{self._name}({', '.join(parameter_list)})"
 
+    def __getstate__(self) -> dict[str, object]:
+        return {
+            "deserialization_type": export_python_object_to_path_string(self.__class__),
+            "data": {
+                "program": self.program,
+                "duration": self.duration,
+                "port": self.port,
+                "clock": self.clock,
+                "waveforms": self.waveforms,
+                "safe_labels": self.safe_labels,
+            },
+        }
+
+    def __setstate__(self, state: dict[str, dict]) -> None:
+        self.__init__(**state["data"])
+
     # TODO remove once UserDict is removed as superclass
     def __deepcopy__(self, memo: dict) -> InlineQ1ASM:
         """Make a deepcopy of this object."""
diff --git a/quantify_scheduler/json_utils.py b/quantify_scheduler/json_utils.py
index fa85b92..691065a 100644
--- a/quantify_scheduler/json_utils.py
+++ b/quantify_scheduler/json_utils.py
@@ -218,7 +218,7 @@ class SchedulerJSONDecoder(json.JSONDecoder):
 
             if "mode" in obj and obj["mode"] == "__init__":
                 if class_type == np.ndarray:
-                    return np.array(obj["data"])
+                    return np.array(obj["data"], dtype=obj.get("dtype"))
                 elif issubclass(class_type, Instrument):
                     return class_type(**obj["data"])
                 else:
@@ -397,8 +397,12 @@ class SchedulerJSONEncoder(json.JSONEncoder):
                 return {
                     "deserialization_type": type(o).__name__,
                     "mode": "__init__",
-                    "data": list(o),
+                    "data": o.tolist(),
+                    "dtype": str(o.dtype),
                 }
+            elif isinstance(o, np.generic):
+                # Other numpy scalars are stored as the equivalent Python object.
+                return o.item()
             elif o in DEFAULT_TYPES:
                 assert isinstance(o, type)
                 return {"deserialization_type": o.__name__, "mode": "type"}
-- 
2.43.0


From a63428ab044778ec5fba187973aaff7ba4720b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 20/50] fix: the printed form of a resource quotes its name

---
 quantify_scheduler/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/resources.py b/quantify_scheduler/resources.py
index f913125..454109e 100644
--- a/quantify_scheduler/resources.py
+++ b/quantify_scheduler/resources.py
@@ -61,7 +61,7 @@ class Resource(UserDict):
 
         This representation is guaranteed to be unique.
         """
-        return f"{self.__class__.__name__}(name='{self.name}')"
+        return f"{self.__class__.__name__}(name={self.name!r})"
 
     def __getstate__(self) -> dict[str, object]:
         return {
-- 
2.43.0


From 1dbd23d8b6d88775707f42f3c1ed9c35e728443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 21/50] fix: long_ramp_pulse resets its offset when its
 amplitude is zero

---
 .../backends/qblox/operations/pulse_factories.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operations/pulse_factories.py b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
index 485b1d1..63e214d 100644
--- a/quantify_scheduler/backends/qblox/operations/pulse_factories.py
+++ b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
@@ -279,6 +279,7 @@ def long_ramp_pulse(
     builder = StitchedPulseBuilder(long_ramp_pulse.__name__, port=port, clock=clock, t0=t0)
 
     last_sample_voltage = offset
+    last_inserted_offset = 0.0
     for _ in range(num_whole_parts):
         # Add an offset for each ramp part, except for the first one if the overall ramp
         # offset is 0.
@@ -288,6 +289,7 @@ def long_ramp_pulse(
                 path_Q=0.0,
                 reference_magnitude=reference_magnitude,
             )
+            last_inserted_offset = last_sample_voltage
         builder.add_pulse(
             pulse_library.RampPulse(
                 amp=amp_part,
@@ -303,9 +305,7 @@ def long_ramp_pulse(
     # 'UpdateParameters' instruction at the end.
 
     # Insert a 0 offset if offsets were inserted above and the last offset is not 0.
-    if not math.isclose(last_sample_voltage, offset) and not math.isclose(
-        last_sample_voltage - amp_part, 0.0
-    ):
+    if not math.isclose(last_inserted_offset, 0.0):
         builder.add_voltage_offset(path_I=0.0, path_Q=0.0)
     builder.add_pulse(
         pulse_library.RampPulse(
-- 
2.43.0


From cc56e07733beeb46e0dae5d1b5915daaa2196b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 22/50] fix: no extra sample when a duration is a whole number
 of samples

---
 quantify_scheduler/helpers/waveforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/helpers/waveforms.py b/quantify_scheduler/helpers/waveforms.py
index 67a97c6..39c4830 100644
--- a/quantify_scheduler/helpers/waveforms.py
+++ b/quantify_scheduler/helpers/waveforms.py
@@ -175,7 +175,9 @@ def get_waveform(
         The waveform.
 
     """
-    t: np.ndarray = np.arange(0, 0 + pulse_info["duration"], 1 / sampling_rate)
+    # Round to prevent an extra sample due to floating point errors in the duration.
+    num_samples: int = math.ceil(round(pulse_info["duration"] * sampling_rate, 6))
+    t: np.ndarray = np.arange(num_samples) / sampling_rate
     wf_func: str = pulse_info["wf_func"]
     waveform: np.ndarray = exec_waveform_function(wf_func, t, pulse_info)
 
-- 
2.43.0


From 76891b103de75ac074fa09d7725f6af6d1dd906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 23/50] fix: soft_square is finite for 4 and 5 samples

---
 quantify_scheduler/waveforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 7c3625a..637121f 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -110,7 +110,9 @@ def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
     data = square(t, amp)
     if len(t) > 1:
         window = signal.windows.hann(int(len(t) / 2))
-        data = signal.convolve(data, window, mode="same") / sum(window)
+        # A Hann window of two points is zero everywhere, and cannot be normalized.
+        if np.any(window):
+            data = signal.convolve(data, window, mode="same") / sum(window)
     return data
 
 
-- 
2.43.0


From f3ac154046cadb895ffc12ebfe49cc61a4fd3389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 24/50] fix: numerical pulses whose t_samples do not start at 0
 and drawing them

---
 quantify_scheduler/helpers/waveforms.py                   | 4 ++++
 .../schedules/_visualization/pulse_diagram.py             | 8 --------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/helpers/waveforms.py b/quantify_scheduler/helpers/waveforms.py
index 39c4830..25347ae 100644
--- a/quantify_scheduler/helpers/waveforms.py
+++ b/quantify_scheduler/helpers/waveforms.py
@@ -306,6 +306,10 @@ def exec_waveform_function(wf_func: str, t: np.ndarray, pulse_info: dict) -> np.
                 phase=pulse_info["phase"],
             )
     else:
+        if wf_func == "quantify_scheduler.waveforms.interpolated_complex_waveform":
+            # `t` is relative to the start of the pulse, which is at the first `t_sample`.
+            t_samples = np.asarray(pulse_info["t_samples"])
+            pulse_info = {**pulse_info, "t_samples": t_samples - t_samples[0]}
         waveform = exec_custom_waveform_function(wf_func, t, pulse_info)
 
     if waveform is None:
diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index 17f9aa6..57fc120 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -237,14 +237,6 @@ def get_sampled_pulses(
             if len(t) == 0:
                 continue
 
-            if (
-                info.op_info["wf_func"]
-                == "quantify_scheduler.waveforms.interpolated_complex_waveform"
-            ):
-                info.op_info["t_samples"] = (
-                    np.asarray(info.op_info["t_samples"]) - info.op_info["t_samples"][0]
-                )
-
             # Add the final datapoint for nicer plots
             t = np.append(t, t[-1] + 0.99 / sampling_rate)
 
-- 
2.43.0


From 1533e78895251a4acaece2a35620d70b92e92fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 25/50] fix: every overlap of pulses with voltage offsets is
 rejected

---
 quantify_scheduler/backends/qblox_backend.py | 123 +++++--------------
 1 file changed, 32 insertions(+), 91 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 3dd0f00..e28a872 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -11,7 +11,7 @@ from abc import ABC
 from collections import defaultdict
 from copy import deepcopy
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Any, Literal
+from typing import TYPE_CHECKING, Any
 
 import numpy as np
 from pydantic import Field, model_validator
@@ -2025,92 +2025,39 @@ def validate_non_overlapping_stitched_pulse(schedule: Schedule) -> None:
     _all_abs_times_ops_with_voltage_offsets_pulses(schedule, 0, abs_times_and_operations)
     abs_times_and_operations.sort(key=lambda abs_time_and_op: abs_time_and_op[0])
 
-    # Iterate through all relevant operations in chronological order, and keep track of the
-    # latest end time of schedulables containing pulses.
-    # When a schedulable contains a voltage offset, check if it starts before the end of
-    # a previously found pulse, else look ahead for any schedulables with pulses
-    # starting before this schedulable ends.
-    last_pulse_end = -np.inf
-    last_pulse_abs_time = None
-    last_pulse_op = None
-    for i, (abs_time_op, op) in enumerate(abs_times_and_operations):
-        if op.has_voltage_offset:
+    # For each port-clock, iterate through the pulses in chronological order, and keep track of the
+    # latest end time of any pulse, and of the pulses in operations that have voltage offsets.
+    pulses_per_port_clock: dict[str, list[tuple[float, float, float, Operation]]] = defaultdict(
+        list
+    )
+    for abs_time, op in abs_times_and_operations:
+        for port_clock, (start, end) in _get_pulse_start_ends(abs_time, op).items():
+            pulses_per_port_clock[port_clock].append((start, end, abs_time, op))
+
+    for pulses in pulses_per_port_clock.values():
+        last_pulse_end, last_pulse = -np.inf, None
+        last_offset_end, last_offset = -np.inf, None
+        # A pulse starting at the exact time another one ends does not count as overlapping.
+        for start, end, abs_time, op in sorted(pulses, key=lambda p: (round(p[0], 10), p[1])):
+            if op.has_voltage_offset:
+                other_end, other = last_pulse_end, last_pulse
+            else:
+                other_end, other = last_offset_end, last_offset
             # Add 1e-10 for possible floating point errors (strictly >).
-            if last_pulse_end > abs_time_op + 1e-10:
-                if last_pulse_abs_time is None or last_pulse_op is None:
-                    # This error should be unreachable.
-                    raise RuntimeError(
-                        f"{last_pulse_abs_time=} and {last_pulse_op} may not be None at this point."
-                    )
-                _raise_if_pulses_overlap_on_same_port_clock(
-                    abs_time_op,
-                    op,
-                    last_pulse_abs_time,
-                    last_pulse_op,
-                )
-            elif other := _exists_pulse_starting_before_current_end(
-                abs_times_and_operations,
-                i,
-            ):
-                abs_time_other = other[0]
-                op_other = other[1]
-                _raise_if_pulses_overlap_on_same_port_clock(
-                    abs_time_op,
-                    op,
-                    abs_time_other,
-                    op_other,
+            if other is not None and other_end > start + 1e-10:
+                abs_time_other, op_other = other
+                raise RuntimeError(
+                    f"{op} at t={abs_time} and {op_other} at t="
+                    f"{abs_time_other} contain pulses with voltage offsets that "
+                    "overlap in time on the same port and clock. This leads to undefined "
+                    "behaviour."
                 )
-        if op.valid_pulse:
-            last_pulse_end = _operation_end((abs_time_op, op))
-            last_pulse_abs_time = abs_time_op
-            last_pulse_op = op
-
-
-def _exists_pulse_starting_before_current_end(
-    abs_times_and_operations: list[tuple[float, Operation]], current_idx: int
-) -> tuple[float, Operation] | Literal[False]:
-    current_end = _operation_end(abs_times_and_operations[current_idx])
-    for i in range(current_idx + 1, len(abs_times_and_operations)):
-        abs_time = abs_times_and_operations[i][0]
-        operation = abs_times_and_operations[i][1]
-        # Schedulable starting at the exact time a previous one ends does not count as
-        # overlapping. Subtract 1e-10 for possible floating point errors.
-        if abs_time >= current_end - 1e-10:
-            return False
-        if operation.valid_pulse or operation.has_voltage_offset:
-            return abs_time, operation
-    return False
-
-
-def _raise_if_pulses_overlap_on_same_port_clock(
-    abs_time_a: float,
-    op_a: Operation,
-    abs_time_b: float,
-    op_b: Operation,
-) -> None:
-    """
-    Raise an error if any pulse operations overlap on the same port-clock.
-
-    A pulse here means a waveform or a voltage offset.
-    """
-    pulse_start_ends_per_port_a = _get_pulse_start_ends(abs_time_a, op_a)
-    pulse_start_ends_per_port_b = _get_pulse_start_ends(abs_time_b, op_b)
-    common_ports = set(pulse_start_ends_per_port_a.keys()) & set(pulse_start_ends_per_port_b.keys())
-    for port_clock in common_ports:
-        start_a, end_a = pulse_start_ends_per_port_a[port_clock]
-        start_b, end_b = pulse_start_ends_per_port_b[port_clock]
-        if (
-            start_b < start_a < end_b
-            or start_b < end_a < end_b
-            or start_a < start_b < end_a
-            or start_a < end_b < end_a
-        ):
-            raise RuntimeError(
-                f"{op_a} at t={abs_time_a} and {op_b} at t="
-                f"{abs_time_b} contain pulses with voltage offsets that "
-                "overlap in time on the same port and clock. This leads to undefined "
-                "behaviour."
-            )
+            # Voltage offsets without a duration are not pulses, but must not be inside one.
+            if end > start + 1e-10:
+                if end > last_pulse_end:
+                    last_pulse_end, last_pulse = end, (abs_time, op)
+                if op.has_voltage_offset and end > last_offset_end:
+                    last_offset_end, last_offset = end, (abs_time, op)
 
 
 def _get_pulse_start_ends(abs_time: float, operation: Operation) -> dict[str, tuple[float, float]]:
@@ -2132,9 +2079,3 @@ def _get_pulse_start_ends(abs_time: float, operation: Operation) -> dict[str, tu
             prev_end,
         )
     return pulse_start_ends_per_port
-
-
-def _operation_end(abs_time_and_operation: tuple[float, Operation]) -> float:
-    abs_time = abs_time_and_operation[0]
-    operation = abs_time_and_operation[1]
-    return abs_time + operation.duration
-- 
2.43.0


From 05e7310f4ad80e2edfd9275d7544fca531a3ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 26/50] fix: stacking considers every pulse of an operation,
 and loop bodies

---
 .../backends/qblox/stack_pulses.py            | 226 +++++++++---------
 1 file changed, 112 insertions(+), 114 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 214740d..a6ee979 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -8,28 +8,34 @@ import uuid
 from collections import defaultdict, namedtuple
 from copy import deepcopy
 from dataclasses import dataclass
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import numpy as np
 
 from quantify_scheduler.backends.qblox import constants, helpers
-from quantify_scheduler.backends.qblox.helpers import is_square_pulse, to_grid_time
+from quantify_scheduler.backends.qblox.helpers import to_grid_time
 from quantify_scheduler.backends.qblox.operations.pulse_library import (
     SimpleNumericalPulse,
 )
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+from quantify_scheduler.operations.pulse_library import SquarePulse
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 if TYPE_CHECKING:
     from quantify_scheduler.operations import Operation
 
 
+PulseKey = namedtuple("PulseKey", ["schedulable_key", "pulse_index"])
+"""Identifies a pulse: the schedulable, and the index in the ``pulse_info`` of its operation."""
+
+
 @dataclass
 class PulseInterval:
     """Represents an interval of (possibly) overlapping pulses."""
 
     start_time: float
     end_time: float
-    pulse_keys: set[str]
+    pulse_keys: list[PulseKey]
 
 
 @dataclass
@@ -38,7 +44,7 @@ class PulseParameters:
 
     time: float
     is_end: bool
-    schedulable_key: str
+    pulse_key: PulseKey
 
 
 PortClock = namedtuple("PortClock", ["port", "clock"])
@@ -63,13 +69,26 @@ def stack_pulses(schedule: Schedule, config) -> Schedule:  # noqa: D417, ARG001,
 
     """
     pulses_by_port_clock = _construct_pulses_by_port_clock(schedule)
+    pulses_by_interval_to_stack = []
 
     for pulses in pulses_by_port_clock.values():
         sorted_pulses = sorted(pulses, key=lambda pulse: (pulse.time, pulse.is_end))
         pulses_by_interval = _construct_pulses_by_interval(sorted_pulses)
 
-        if any(len(overlap.pulse_keys) > 1 for overlap in pulses_by_interval):
-            schedule = _stack_pulses_by_interval(schedule, pulses_by_interval)
+        overlapping_pulses = {
+            key
+            for interval in pulses_by_interval
+            if len(interval.pulse_keys) > 1
+            for key in interval.pulse_keys
+        }
+        pulses_by_interval_to_stack.extend(
+            interval
+            for interval in pulses_by_interval
+            if not overlapping_pulses.isdisjoint(interval.pulse_keys)
+        )
+
+    if pulses_by_interval_to_stack:
+        schedule = _stack_pulses_by_interval(schedule, pulses_by_interval_to_stack)
 
     return schedule
 
@@ -84,30 +103,27 @@ def _construct_pulses_by_port_clock(
         if isinstance(op, Schedule):
             schedule.operations[schedulable["operation_id"]] = stack_pulses(op, {})
             continue
-        elif not op.valid_pulse or not op.data.get("pulse_info"):
+        elif isinstance(op, ControlFlowOperation):
+            if isinstance(op.body, Schedule):
+                op.body = stack_pulses(op.body, {})
             continue
 
-        pulse_info = next(iter(op.data["pulse_info"]))
-        if not pulse_info.get("wf_func"):
-            continue
-        port_clock = PortClock(pulse_info["port"], pulse_info["clock"])
-        start_time = schedulable["abs_time"] + pulse_info["t0"]
-        end_time = start_time + pulse_info["duration"]
+        for pulse_index, pulse_info in enumerate(op.data["pulse_info"]):
+            if not pulse_info.get("wf_func"):
+                continue
+            port_clock = PortClock(pulse_info["port"], pulse_info["clock"])
+            start_time = schedulable["abs_time"] + pulse_info["t0"]
+            end_time = start_time + pulse_info["duration"]
 
-        pulses_by_port_clock[port_clock].extend(
-            [
-                PulseParameters(
-                    time=round(to_grid_time(start_time) * (1 / constants.SAMPLING_RATE), 9),
-                    is_end=False,
-                    schedulable_key=schedulable_key,
-                ),
+            pulse_key = PulseKey(schedulable_key, pulse_index)
+            pulses_by_port_clock[port_clock].extend(
                 PulseParameters(
-                    time=round(to_grid_time(end_time) * (1 / constants.SAMPLING_RATE), 9),
-                    is_end=True,
-                    schedulable_key=schedulable_key,
-                ),
-            ]
-        )
+                    time=round(to_grid_time(time) * (1 / constants.SAMPLING_RATE), 9),
+                    is_end=is_end,
+                    pulse_key=pulse_key,
+                )
+                for time, is_end in ((start_time, False), (end_time, True))
+            )
 
     return pulses_by_port_clock
 
@@ -138,48 +154,68 @@ def _construct_pulses_by_interval(
 
     """
     pulses_by_interval = []
-    active_pulses = set()
+    active_pulses: dict[PulseKey, None] = {}  # Ordered, for reproducible results.
     last_time = None
 
     for pulse in sorted_pulses:
-        time, key, is_end = pulse.time, pulse.schedulable_key, pulse.is_end
+        time, key, is_end = pulse.time, pulse.pulse_key, pulse.is_end
 
         if last_time is None:
             last_time = time
-            active_pulses.add(key)
+            active_pulses[key] = None
         else:
             if time > last_time:
                 if active_pulses:
-                    pulses_by_interval.append(PulseInterval(last_time, time, active_pulses.copy()))
+                    pulses_by_interval.append(PulseInterval(last_time, time, list(active_pulses)))
                 last_time = time
             if is_end:
-                active_pulses.remove(key)
+                del active_pulses[key]
             else:
-                active_pulses.add(key)
+                active_pulses[key] = None
 
     return pulses_by_interval
 
 
+def _get_pulse_info(schedule: Schedule, key: PulseKey) -> dict[str, Any]:
+    schedulable = schedule.schedulables[key.schedulable_key]
+    return schedule.operations[schedulable["operation_id"]].data["pulse_info"][key.pulse_index]
+
+
 def _stack_pulses_by_interval(
     schedule: Schedule, pulses_by_interval: list[PulseInterval]
 ) -> Schedule:
-    old_schedulable_keys = set()
+    old_pulses: defaultdict[str, set[int]] = defaultdict(set)
+    new_pulses: list[tuple[float, Operation]] = []
 
     for interval in pulses_by_interval:
-        if not interval.pulse_keys:
-            continue
+        pulse_infos = [_get_pulse_info(schedule, key) for key in interval.pulse_keys]
+        for key in interval.pulse_keys:
+            old_pulses[key.schedulable_key].add(key.pulse_index)
 
-        if all(
-            is_square_pulse(schedule.operations[schedule.schedulables[key]["operation_id"]])
-            for key in interval.pulse_keys
-        ):
-            _stack_square_pulses(interval, schedule, old_schedulable_keys)
+        if all(info["wf_func"] == "quantify_scheduler.waveforms.square" for info in pulse_infos):
+            new_pulse = _stack_square_pulses(interval, pulse_infos)
+        else:
+            new_pulse = _stack_arbitrary_pulses(interval, pulse_infos, schedule)
+        new_pulses.append((interval.start_time, new_pulse))
+
+    # Delete old pulses, and the schedulables that contain nothing else.
+    for key, pulse_indices in old_pulses.items():
+        schedulable = schedule.schedulables[key]
+        operation = schedule.operations[schedulable["operation_id"]]
+        remaining_pulses = [
+            info for i, info in enumerate(operation.data["pulse_info"]) if i not in pulse_indices
+        ]
+        if remaining_pulses or operation.valid_acquisition:
+            operation = deepcopy(operation)
+            operation.data["pulse_info"] = deepcopy(remaining_pulses)
+            operation._update()
+            schedule.operations[operation.hash] = operation
+            schedulable["operation_id"] = operation.hash
         else:
-            _stack_arbitrary_pulses(interval, schedule, old_schedulable_keys)
+            del schedule.schedulables[key]
 
-    # Delete old schedulables
-    for key in old_schedulable_keys:
-        del schedule.schedulables[key]
+    for start_time, new_pulse in new_pulses:
+        _create_schedulable(schedule, start_time, new_pulse)
 
     # Delete timing constraints
     for schedulable in schedule.schedulables.values():
@@ -190,83 +226,45 @@ def _stack_pulses_by_interval(
 
 
 def _stack_arbitrary_pulses(
-    interval: PulseInterval,
-    schedule: Schedule,
-    old_schedulable_keys: set[str],
-) -> None:
+    interval: PulseInterval, pulse_infos: list[dict[str, Any]], schedule: Schedule
+) -> SimpleNumericalPulse:
     num_samples = round((interval.end_time - interval.start_time) * constants.SAMPLING_RATE)
     combined_waveform = np.zeros(num_samples)
-    port, clock, pulse_info = None, None, None
-
-    for key in interval.pulse_keys:
-        pulse = schedule.operations[schedule.schedulables[key]["operation_id"]]
-        for pulse_info in pulse.data["pulse_info"]:
-            schedulable = schedule.schedulables[key]
-            old_schedulable_keys.add(key)
-            waveform = helpers.generate_waveform_data(
-                pulse_info, sampling_rate=constants.SAMPLING_RATE
-            )
-            start_idx = round(
-                (interval.start_time - schedulable["abs_time"] - pulse_info["t0"])
-                * constants.SAMPLING_RATE
-            )
-            end_idx = start_idx + num_samples
-
-            if end_idx == len(waveform) - 1:
-                # Including the last sample makes waveform slice longer than combined_waveform;
-                # append zero to combined_waveform to match lengths and prevent shape mismatch.
-                end_idx += 1
-                combined_waveform = np.append(combined_waveform, 0)
-
-            combined_waveform = np.add(combined_waveform, waveform[start_idx:end_idx])
-            if port is None and clock is None:
-                port, clock = pulse_info.get("port"), pulse_info.get("clock")
-
-    if port is None or clock is None:
-        raise ValueError(
-            f"pulse_info must contain non-None 'port' and 'clock' values. Pulse Info: {pulse_info},"
-            f" Port: {port}, Clock: {clock}"
-        )
-    numerical_pulse = SimpleNumericalPulse(
+
+    for key, pulse_info in zip(interval.pulse_keys, pulse_infos):
+        pulse_start = schedule.schedulables[key.schedulable_key]["abs_time"] + pulse_info["t0"]
+        waveform = helpers.generate_waveform_data(pulse_info, sampling_rate=constants.SAMPLING_RATE)
+        start_idx = round((interval.start_time - pulse_start) * constants.SAMPLING_RATE)
+        waveform = waveform[start_idx : start_idx + num_samples]
+        combined_waveform = combined_waveform + np.pad(waveform, (0, num_samples - len(waveform)))
+
+    return SimpleNumericalPulse(
         samples=combined_waveform,
-        port=port,
-        clock=clock,
+        port=pulse_infos[0]["port"],
+        clock=pulse_infos[0]["clock"],
+        reference_magnitude=pulse_infos[0].get("reference_magnitude"),
     )
 
-    _create_schedulable(schedule, interval.start_time, numerical_pulse)
-
 
 def _stack_square_pulses(
-    interval: PulseInterval,
-    schedule: Schedule,
-    old_schedulable_keys: set[str],
-) -> None:
-    combined_pulse = None
-
-    for key in interval.pulse_keys:
-        pulse = schedule.operations[schedule.schedulables[key]["operation_id"]]
-        old_schedulable_keys.add(key)
-        for pulse_info in pulse.data["pulse_info"]:
-            if combined_pulse is None:
-                combined_pulse = deepcopy(pulse)
-                combined_pulse.data["pulse_info"][0]["t0"] = 0
-                combined_pulse.data["pulse_info"][0]["duration"] = round(
-                    to_grid_time(interval.end_time - interval.start_time)
-                    * (1 / constants.SAMPLING_RATE),
-                    9,
-                )
-            else:
-                combined_pulse.data["pulse_info"][0]["amp"] += pulse_info["amp"]
-    _create_schedulable(schedule, interval.start_time, combined_pulse)
+    interval: PulseInterval, pulse_infos: list[dict[str, Any]]
+) -> SquarePulse:
+    return SquarePulse(
+        amp=sum(pulse_info["amp"] for pulse_info in pulse_infos),
+        duration=round(
+            to_grid_time(interval.end_time - interval.start_time) * (1 / constants.SAMPLING_RATE),
+            9,
+        ),
+        port=pulse_infos[0]["port"],
+        clock=pulse_infos[0]["clock"],
+        reference_magnitude=pulse_infos[0].get("reference_magnitude"),
+    )
 
 
-def _create_schedulable(
-    schedule: Schedule, start_time: float, pulse: Operation | Schedule | None
-) -> None:
-    if pulse is not None:
-        new_schedulable_key = str(uuid.uuid4())
-        new_schedulable = Schedulable(name=new_schedulable_key, operation_id=pulse.hash)
-        new_schedulable["abs_time"] = start_time
+def _create_schedulable(schedule: Schedule, start_time: float, pulse: Operation) -> None:
+    new_schedulable_key = str(uuid.uuid4())
+    new_schedulable = Schedulable(name=new_schedulable_key, operation_id=pulse.hash)
+    new_schedulable["abs_time"] = start_time
 
-        schedule.schedulables[new_schedulable_key] = new_schedulable
-        schedule.operations[pulse.hash] = pulse
+    schedule.schedulables[new_schedulable_key] = new_schedulable
+    schedule.operations[pulse.hash] = pulse
-- 
2.43.0


From bf0dde64f5eb3043205287fc73f08c8c4fc429ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 27/50] fix: sampling an empty numerical pulse raises the same
 error as before

---
 quantify_scheduler/helpers/waveforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/helpers/waveforms.py b/quantify_scheduler/helpers/waveforms.py
index 25347ae..ed93cc0 100644
--- a/quantify_scheduler/helpers/waveforms.py
+++ b/quantify_scheduler/helpers/waveforms.py
@@ -308,8 +308,8 @@ def exec_waveform_function(wf_func: str, t: np.ndarray, pulse_info: dict) -> np.
     else:
         if wf_func == "quantify_scheduler.waveforms.interpolated_complex_waveform":
             # `t` is relative to the start of the pulse, which is at the first `t_sample`.
-            t_samples = np.asarray(pulse_info["t_samples"])
-            pulse_info = {**pulse_info, "t_samples": t_samples - t_samples[0]}
+            t_samples = pulse_info["t_samples"]
+            pulse_info = {**pulse_info, "t_samples": [t - t_samples[0] for t in t_samples]}
         waveform = exec_custom_waveform_function(wf_func, t, pulse_info)
 
     if waveform is None:
-- 
2.43.0


From e004f050160ba1102598a2a15935ae571a5f241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 28/50] fix: automatic RF switching covers all loop iterations
 and pulses at time zero

---
 .../backends/qblox/auto_rf_switch.py          | 398 +++++++++++++++---
 quantify_scheduler/backends/qblox/helpers.py  |  37 +-
 2 files changed, 374 insertions(+), 61 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index 07b3047..2deca40 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -9,8 +9,12 @@ from collections import defaultdict
 from dataclasses import dataclass
 from typing import TYPE_CHECKING
 
+from quantify_scheduler.backends.qblox import constants
+
 if TYPE_CHECKING:
     from quantify_scheduler.backends.graph_compilation import CompilationConfig
+    from quantify_scheduler.backends.qblox_backend import QbloxHardwareCompilationConfig
+    from quantify_scheduler.operations.operation import Operation
     from quantify_scheduler.schedules.schedule import Schedule
 
 
@@ -54,6 +58,25 @@ class MicrowavePulseInfo:
         return self.abs_time + self.duration
 
 
+@dataclass
+class ControlFlowRegion:
+    """
+    The time span of a control-flow operation.
+
+    The RF switch should not be toggled inside such a span: the instructions would be part
+    of the loop or conditional.
+    """
+
+    start_time: float
+    """Absolute start time of the control-flow operation."""
+    end_time: float
+    """Absolute end time of the control-flow operation (including all loop iterations)."""
+    first_iteration_end_time: float | None
+    """Absolute end time of the first iteration of a loop, ``None`` if this is not a loop."""
+    port_clocks: set[tuple[str | None, str | None]]
+    """Ports (if any) and clocks of the operations in the body."""
+
+
 def auto_rf_switch_dressing(
     schedule: Schedule,
     config: CompilationConfig,
@@ -77,6 +100,12 @@ def auto_rf_switch_dressing(
     sub-schedules are also merged correctly because the merging operates on the global
     timeline.
 
+    If a control-flow operation contains microwave pulses, the RF switch stays on from the
+    first of these pulses until the end of the control-flow operation (i.e. during all
+    iterations of a loop).
+
+    Ports that are not connected to a module with RF switches are left alone.
+
     Parameters
     ----------
     schedule
@@ -115,6 +144,7 @@ def auto_rf_switch_dressing(
     # merged correctly, and inserting only on the root schedule avoids extending
     # sub-schedule durations.
     mw_pulses, vo_events = _collect_all_mw_events_recursive(schedule, time_offset=0.0)
+    regions = _collect_control_flow_regions(schedule, time_offset=0.0)
 
     # Convert VoltageOffset on/off pairs to pulse windows and combine with regular pulses
     all_pulses = mw_pulses + _voltage_offset_events_to_pulses(vo_events)
@@ -130,8 +160,19 @@ def auto_rf_switch_dressing(
     # For each port-clock, merge adjacent pulses and insert RF switch operations
     # on the root schedule only.
     for (port, clock), pulses in pulses_by_port_clock.items():
+        if not _has_rf_switch(port, hardware_cfg):
+            continue
         pulses_sorted = sorted(pulses, key=lambda p: p.abs_time)
         windows = _merge_pulses_into_windows(pulses_sorted, ramp_buffer)
+        windows = _move_edges_out_of_control_flow(
+            windows,
+            [
+                region
+                for region in regions
+                if (port, clock) in region.port_clocks or (None, clock) in region.port_clocks
+            ],
+            ramp_buffer,
+        )
         for window_start, window_end in windows:
             _insert_rf_switch_operation(
                 schedule=schedule,
@@ -177,10 +218,6 @@ def _collect_all_mw_events_recursive(
         MW pulse info objects and VoltageOffset events, all with global absolute times.
 
     """
-    # Import here to avoid circular imports
-    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
-    from quantify_scheduler.schedules.schedule import ScheduleBase
-
     mw_pulses: list[MicrowavePulseInfo] = []
     vo_events: list[VoltageOffsetEvent] = []
 
@@ -192,61 +229,245 @@ def _collect_all_mw_events_recursive(
         # Global absolute start time of this schedulable
         schedulable_abs_time = time_offset + schedulable.data.get("abs_time", 0.0)
 
-        if isinstance(operation, ScheduleBase):
-            # Recurse into nested schedule; its internal abs_times are relative to it
-            sub_pulses, sub_events = _collect_all_mw_events_recursive(
-                operation, schedulable_abs_time
-            )
-            mw_pulses.extend(sub_pulses)
-            vo_events.extend(sub_events)
-        elif isinstance(operation, ControlFlowOperation):
-            if isinstance(operation.body, ScheduleBase):
-                sub_pulses, sub_events = _collect_all_mw_events_recursive(
-                    operation.body, schedulable_abs_time
-                )
-                mw_pulses.extend(sub_pulses)
-                vo_events.extend(sub_events)
-        else:
-            for pulse_info in operation.data.get("pulse_info", []):
-                port = pulse_info.get("port", "")
-                if not port or not port.endswith(":mw"):
-                    continue
+        sub_pulses, sub_events = _collect_mw_events_of_operation(
+            operation, schedulable_key, schedulable_abs_time
+        )
+        mw_pulses.extend(sub_pulses)
+        vo_events.extend(sub_events)
 
-                # Skip RF switch marker pulses
-                if pulse_info.get("marker_pulse"):
-                    continue
+    return mw_pulses, vo_events
 
-                abs_time = schedulable_abs_time + pulse_info.get("t0", 0.0)
-                duration = pulse_info.get("duration", 0.0)
-                clock = pulse_info.get("clock", "")
 
-                if pulse_info.get("wf_func") is None:
-                    # Could be a VoltageOffset (zero duration, no waveform function)
-                    if duration == 0.0:
-                        offset_I = pulse_info.get("offset_path_I") or 0.0  # noqa: N806
-                        offset_Q = pulse_info.get("offset_path_Q") or 0.0  # noqa: N806
-                        vo_events.append(
-                            VoltageOffsetEvent(
-                                abs_time=abs_time,
-                                port=port,
-                                clock=clock,
-                                is_nonzero=(offset_I != 0.0 or offset_Q != 0.0),
-                            )
-                        )
-                elif duration > 0.0:
-                    mw_pulses.append(
-                        MicrowavePulseInfo(
-                            schedulable_key=schedulable_key,
-                            abs_time=abs_time,
-                            duration=duration,
-                            port=port,
-                            clock=clock,
-                        )
+def _collect_mw_events_of_operation(
+    operation: Operation | Schedule,
+    schedulable_key: str,
+    start_time: float,
+) -> tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]:
+    """
+    Collect microwave pulses and VoltageOffset events of a single operation.
+
+    Parameters
+    ----------
+    operation
+        The operation, which can also be a (sub-)schedule or a control-flow operation.
+    schedulable_key
+        Key of the schedulable of the operation.
+    start_time
+        Global absolute start time of the operation.
+
+    Returns
+    -------
+    tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]
+        MW pulse info objects and VoltageOffset events, all with global absolute times.
+
+    """
+    # Import here to avoid circular imports
+    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+    from quantify_scheduler.schedules.schedule import ScheduleBase
+
+    if isinstance(operation, ScheduleBase):
+        # Recurse into nested schedule; its internal abs_times are relative to it
+        return _collect_all_mw_events_recursive(operation, start_time)
+
+    if isinstance(operation, ControlFlowOperation):
+        body_pulses, body_events = _collect_mw_events_of_operation(
+            operation.body, schedulable_key, start_time
+        )
+        spanning_pulses = _span_control_flow(
+            body_pulses,
+            body_events,
+            schedulable_key=schedulable_key,
+            end_time=start_time + operation.duration,
+        )
+        return spanning_pulses, body_events
+
+    mw_pulses: list[MicrowavePulseInfo] = []
+    vo_events: list[VoltageOffsetEvent] = []
+
+    for pulse_info in operation.data.get("pulse_info", []):
+        port = pulse_info.get("port", "")
+        if not port or not port.endswith(":mw"):
+            continue
+
+        # Skip RF switch marker pulses
+        if pulse_info.get("marker_pulse"):
+            continue
+
+        abs_time = start_time + pulse_info.get("t0", 0.0)
+        duration = pulse_info.get("duration", 0.0)
+        clock = pulse_info.get("clock", "")
+
+        if pulse_info.get("wf_func") is None:
+            # Could be a VoltageOffset (zero duration, no waveform function)
+            if duration == 0.0:
+                offset_I = pulse_info.get("offset_path_I") or 0.0  # noqa: N806
+                offset_Q = pulse_info.get("offset_path_Q") or 0.0  # noqa: N806
+                vo_events.append(
+                    VoltageOffsetEvent(
+                        abs_time=abs_time,
+                        port=port,
+                        clock=clock,
+                        is_nonzero=(offset_I != 0.0 or offset_Q != 0.0),
                     )
+                )
+        elif duration > 0.0:
+            mw_pulses.append(
+                MicrowavePulseInfo(
+                    schedulable_key=schedulable_key,
+                    abs_time=abs_time,
+                    duration=duration,
+                    port=port,
+                    clock=clock,
+                )
+            )
 
     return mw_pulses, vo_events
 
 
+def _span_control_flow(
+    body_pulses: list[MicrowavePulseInfo],
+    body_events: list[VoltageOffsetEvent],
+    schedulable_key: str,
+    end_time: float,
+) -> list[MicrowavePulseInfo]:
+    """
+    Let the microwave pulses of a control-flow body last until the end of the control flow.
+
+    A body can be repeated, so that the pulses do not only play at the times of the first
+    iteration.
+
+    Parameters
+    ----------
+    body_pulses
+        Microwave pulses in the (first iteration of the) body.
+    body_events
+        VoltageOffset events in the (first iteration of the) body.
+    schedulable_key
+        Key of the schedulable of the control-flow operation.
+    end_time
+        End time of the control-flow operation.
+
+    Returns
+    -------
+    list[MicrowavePulseInfo]
+        One pulse for each port-clock that is used in the body.
+
+    """
+    nonzero_events = [event for event in body_events if event.is_nonzero]
+    first_times: dict[tuple[str, str], float] = {}
+    for item in sorted([*body_pulses, *nonzero_events], key=lambda item: item.abs_time):
+        first_times.setdefault((item.port, item.clock), item.abs_time)
+
+    return [
+        MicrowavePulseInfo(
+            schedulable_key=schedulable_key,
+            abs_time=first_time,
+            duration=end_time - first_time,
+            port=port,
+            clock=clock,
+        )
+        for (port, clock), first_time in first_times.items()
+    ]
+
+
+def _collect_control_flow_regions(
+    operation: Operation | Schedule, time_offset: float
+) -> list[ControlFlowRegion]:
+    """
+    Collect the time spans of all control-flow operations.
+
+    Parameters
+    ----------
+    operation
+        The operation or schedule to collect from.
+    time_offset
+        The global absolute start time of ``operation``.
+
+    Returns
+    -------
+    list[ControlFlowRegion]
+        The time spans of the control-flow operations, with the ports and clocks that are
+        used in their bodies.
+
+    """
+    # Import here to avoid circular imports
+    from quantify_scheduler.operations.control_flow_library import (
+        ControlFlowOperation,
+        LoopOperation,
+    )
+    from quantify_scheduler.schedules.schedule import ScheduleBase
+
+    regions: list[ControlFlowRegion] = []
+    if isinstance(operation, ScheduleBase):
+        for schedulable in operation.schedulables.values():
+            sub_operation = operation.operations.get(schedulable["operation_id"])
+            if sub_operation is not None:
+                regions += _collect_control_flow_regions(
+                    sub_operation, time_offset + schedulable.data.get("abs_time", 0.0)
+                )
+    elif isinstance(operation, ControlFlowOperation):
+        regions.append(
+            ControlFlowRegion(
+                start_time=time_offset,
+                end_time=time_offset + operation.duration,
+                first_iteration_end_time=time_offset + operation.body.duration
+                if isinstance(operation, LoopOperation)
+                else None,
+                port_clocks=_collect_port_clocks(operation.body),
+            )
+        )
+        regions += _collect_control_flow_regions(operation.body, time_offset)
+
+    return regions
+
+
+def _collect_port_clocks(
+    operation: Operation | Schedule,
+) -> set[tuple[str | None, str | None]]:
+    """Collect the ports (if any) and clocks of everything in ``operation``."""
+    # Import here to avoid circular imports
+    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+    from quantify_scheduler.schedules.schedule import ScheduleBase
+
+    if isinstance(operation, ScheduleBase):
+        return {
+            port_clock
+            for sub_operation in operation.operations.values()
+            for port_clock in _collect_port_clocks(sub_operation)
+        }
+    if isinstance(operation, ControlFlowOperation):
+        return _collect_port_clocks(operation.body)
+    return {
+        (info.get("port"), info.get("clock"))
+        for key in ("pulse_info", "acquisition_info")
+        for info in operation.data.get(key, [])
+    }
+
+
+def _has_rf_switch(port: str, hardware_cfg: QbloxHardwareCompilationConfig) -> bool:
+    """
+    Whether the port is connected to a module that has RF switches.
+
+    Ports that do not occur in the connectivity are assumed to have one.
+    """
+    from quantify_scheduler.backends.types.common import Connectivity
+    from quantify_scheduler.backends.types.qblox import ClusterDescription, RFDescription
+
+    connectivity = hardware_cfg.connectivity
+    if not isinstance(connectivity, Connectivity) or port not in connectivity.graph:
+        return True
+
+    for node in connectivity.graph[port]:
+        instrument_name, *module_and_channel = node.split(".")
+        instrument = hardware_cfg.hardware_description.get(instrument_name)
+        if isinstance(instrument, ClusterDescription) and module_and_channel:
+            module = instrument.modules.get(int(module_and_channel[0].removeprefix("module")))
+            if isinstance(module, RFDescription):
+                return True
+
+    return False
+
+
 def _voltage_offset_events_to_pulses(
     events: list[VoltageOffsetEvent],
 ) -> list[MicrowavePulseInfo]:
@@ -444,6 +665,73 @@ def _merge_pulses_into_windows(
     return windows
 
 
+def _move_edges_out_of_control_flow(
+    windows: list[tuple[float, float]],
+    regions: list[ControlFlowRegion],
+    ramp_buffer: float,
+) -> list[tuple[float, float]]:
+    """
+    Extend windows such that the RF switch is not toggled inside control flow.
+
+    Parameters
+    ----------
+    windows
+        List of (start_time, end_time) tuples, not including the ramp buffer.
+    regions
+        Time spans during which the RF switch cannot be toggled.
+    ramp_buffer
+        Buffer time for RF switch.
+
+    Returns
+    -------
+    list[tuple[float, float]]
+        List of (start_time, end_time) tuples, not including the ramp buffer.
+
+    """
+    atol = 1e-12
+    min_time = constants.MIN_TIME_BETWEEN_OPERATIONS * 1e-9
+
+    def is_inside(time: float, region: ControlFlowRegion) -> bool:
+        # There must also be enough time to update the RF switch before the control flow.
+        return region.start_time - min_time + atol < time < region.end_time - atol
+
+    def starts_in_first_iteration(time: float, region: ControlFlowRegion) -> bool:
+        # The RF switch is then turned on in each iteration, and turned off after the loop.
+        return (
+            region.first_iteration_end_time is not None
+            and region.start_time - atol < time < region.first_iteration_end_time - atol
+        )
+
+    extended_windows = []
+    for start_time, end_time in windows:
+        switch_on = start_time - ramp_buffer
+        for region in sorted(regions, key=lambda r: r.start_time, reverse=True):
+            if is_inside(switch_on, region) and not (
+                switch_on > region.start_time - atol
+                and starts_in_first_iteration(start_time, region)
+            ):
+                switch_on = region.start_time - min_time
+        switch_off = end_time + ramp_buffer
+        for region in sorted(regions, key=lambda r: r.end_time):
+            if is_inside(switch_off, region) or abs(switch_off - region.end_time) <= atol:
+                switch_off = region.end_time + min_time
+        extended_windows.append((switch_on + ramp_buffer, switch_off - ramp_buffer))
+
+    return _merge_pulses_into_windows(
+        [
+            MicrowavePulseInfo(
+                schedulable_key="rf_switch_window",
+                abs_time=start_time,
+                duration=end_time - start_time,
+                port="",
+                clock="",
+            )
+            for start_time, end_time in extended_windows
+        ],
+        ramp_buffer,
+    )
+
+
 def _insert_rf_switch_operation(
     schedule: Schedule,
     port: str,
@@ -500,4 +788,12 @@ def _insert_rf_switch_operation(
     schedulable.data["abs_time"] = rf_switch_start
 
     # Insert the schedulable into the schedule
+    schedulables = dict(schedule.schedulables)
     schedule.schedulables[schedulable_key] = schedulable
+
+    if start_time - rf_switch_start < 0.5e-9:
+        # There is no time before the first pulse: of the operations that start at the same
+        # time, turning the RF switch on must be the first one.
+        schedule.schedulables.clear()
+        schedule.schedulables[schedulable_key] = schedulable
+        schedule.schedulables.update(schedulables)
diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index afa4ddd..d48b363 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -857,7 +857,19 @@ def _validate_no_operations_during_control_flow(
     All instructions for a port-clock that start between the start and the end of the body of a
     control flow operation are repeated (loop) or made conditional. Therefore, operations that are
     not in the body may not start there.
+
+    An exception is turning on an RF switch in the first iteration of a loop, if it is turned off
+    after the loop: turning it on again in the other iterations has no effect.
     """
+    from quantify_scheduler.backends.qblox.operations.rf_switch_toggle import RFSwitchToggle
+
+    def raise_error(operation: Operation, start_time: float, control_flow: Operation) -> None:
+        raise RuntimeError(
+            f"Operation {operation} (starting at t={start_time}) is scheduled during "
+            f"the control flow operation {control_flow} on the same port and clock, "
+            "but is not part of its body."
+        )
+
     per_port_clock: dict[tuple[str, str], list] = defaultdict(list)
     for operation_start_time, operation, label in list_of_operations:
         for port_clock, start_time in _get_start_times_per_port_clock(
@@ -868,26 +880,31 @@ def _validate_no_operations_during_control_flow(
     for operations in per_port_clock.values():
         if not any(isinstance(operation, _ControlFlowReturn) for _, operation, _ in operations):
             continue
-        open_control_flows: list[tuple[Operation, FullSchedulableLabel]] = []
+        open_control_flows: list[tuple[float, Operation, FullSchedulableLabel, list]] = []
         for start_time, operation, label in sorted(
             operations, key=lambda start_time_and_op: round(start_time_and_op[0] * 1e9)
         ):
             if isinstance(operation, _ControlFlowReturn):
-                open_control_flows.pop()
+                begin_time, control_flow, _, rf_switch_toggles = open_control_flows.pop()
+                for toggle_time, toggle in rf_switch_toggles:
+                    repetitions = control_flow.data["control_flow_info"]["repetitions"]
+                    end_time = begin_time + repetitions * (start_time - begin_time)
+                    if round((toggle_time + toggle.duration) * 1e9) < round(end_time * 1e9):
+                        raise_error(toggle, toggle_time, control_flow)
                 continue
-            for control_flow, control_flow_label in open_control_flows:
+            for _, control_flow, control_flow_label, rf_switch_toggles in open_control_flows:
                 is_executed_once = (
                     isinstance(control_flow, LoopBegin)
                     and control_flow.data["control_flow_info"]["repetitions"] == 1
                 )
-                if not is_executed_once and label[: len(control_flow_label)] != control_flow_label:
-                    raise RuntimeError(
-                        f"Operation {operation} (starting at t={start_time}) is scheduled during "
-                        f"the control flow operation {control_flow} on the same port and clock, "
-                        "but is not part of its body."
-                    )
+                if is_executed_once or label[: len(control_flow_label)] == control_flow_label:
+                    continue
+                if isinstance(operation, RFSwitchToggle) and isinstance(control_flow, LoopBegin):
+                    rf_switch_toggles.append((start_time, operation))
+                else:
+                    raise_error(operation, start_time, control_flow)
             if isinstance(operation, (LoopBegin, ConditionalBegin)):
-                open_control_flows.append((operation, label))
+                open_control_flows.append((start_time, operation, label, []))
 
 
 def _assign_pulse_info_to_devices(
-- 
2.43.0


From f8cf90a2b049bd04115def15285347f1dd0fcb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 29/50] fix: crosstalk compensation of repeated, nested and
 multi-pulse operations

---
 .../backends/qblox/crosstalk_compensation.py  | 169 +++++++++++-------
 1 file changed, 109 insertions(+), 60 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/crosstalk_compensation.py b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
index 472887e..6033953 100644
--- a/quantify_scheduler/backends/qblox/crosstalk_compensation.py
+++ b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
@@ -5,7 +5,7 @@
 from __future__ import annotations
 
 from copy import deepcopy
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 if TYPE_CHECKING:
     from quantify_scheduler.backends.graph_compilation import CompilationConfig
@@ -13,6 +13,7 @@ if TYPE_CHECKING:
 
 import numpy as np
 
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 
@@ -49,19 +50,61 @@ def crosstalk_compensation(
         hardware_options.crosstalk, port_clock_list
     )
 
-    for schedulable in list(schedule.schedulables.values()):
-        operation = schedule.operations[schedulable["operation_id"]]
+    _apply_compensation_to_schedule(schedule, port_clock_list, compensation_matrix, set())
+
+    return schedule
+
+
+def _apply_compensation_to_schedule(
+    schedule: Schedule,
+    port_clock_list: list[str],
+    compensation_matrix: np.ndarray,
+    compensated: set[int],
+) -> None:
+    """
+    Apply the compensation to all pulses in a schedule.
+
+    The same schedule can be used more than once. It is compensated only once; ``compensated``
+    contains the ids of the schedules that already are.
+    """
+    compensation_operations: dict[str, dict[int, Operation]] = {}
+
+    for schedulable_key, schedulable in list(schedule.schedulables.items()):
+        operation_id = schedulable["operation_id"]
+        operation = schedule.operations[operation_id]
+
+        while isinstance(operation, ControlFlowOperation):
+            if not isinstance(operation.body, (Schedule, ControlFlowOperation)):
+                operation.body = _wrap_in_schedule(operation.body)
+            operation = operation.body
 
         if isinstance(operation, Schedule):
             # Recursively apply compensation to nested schedules
-            schedule.operations[schedulable["operation_id"]] = crosstalk_compensation(
-                operation, config
-            )
+            if id(operation) not in compensated:
+                compensated.add(id(operation))
+                _apply_compensation_to_schedule(
+                    operation, port_clock_list, compensation_matrix, compensated
+                )
         elif is_pulse(operation):
-            _apply_compensation_to_operation(
-                schedule, operation, schedulable, port_clock_list, compensation_matrix
-            )
-
+            if operation_id not in compensation_operations:
+                # The operation itself can be in use elsewhere, hence replace it.
+                operation = deepcopy(operation)
+                compensation_operations[operation_id] = _apply_compensation_to_operation(
+                    operation, port_clock_list, compensation_matrix
+                )
+                schedule.operations[operation_id] = operation
+            for i, compensation_op in compensation_operations[operation_id].items():
+                _add_compensation_operation(
+                    schedule, schedulable_key, schedulable, compensation_op, i
+                )
+
+
+def _wrap_in_schedule(operation: Operation) -> Schedule:
+    """Put an operation without absolute timing in a schedule."""
+    schedule = Schedule(operation.name)
+    schedulable = schedule.add(operation)
+    schedulable["abs_time"] = 0.0
+    schedule["duration"] = operation.duration
     return schedule
 
 
@@ -75,7 +118,9 @@ def _get_unique_port_clocks(crosstalk: dict[str, dict[str, float]]) -> list[str]
 def _calculate_compensation_matrix(
     crosstalk: dict[str, dict[str, complex]], port_clock_list: list[str]
 ) -> np.ndarray:
-    return np.linalg.inv(_construct_crosstalk_matrix(crosstalk, port_clock_list))
+    compensation_matrix = np.linalg.inv(_construct_crosstalk_matrix(crosstalk, port_clock_list))
+    # Pulses on real outputs must keep real amplitudes.
+    return compensation_matrix if np.any(compensation_matrix.imag) else compensation_matrix.real
 
 
 def _construct_crosstalk_matrix(
@@ -108,71 +153,75 @@ def is_pulse(operation: Operation) -> bool:
         True if the operation is a pulse, False otherwise.
 
     """
-    return (
-        len(operation.data["pulse_info"]) > 0
-        and operation.data["pulse_info"][0]["wf_func"] is not None
-    )
+    return any(pulse_info["wf_func"] is not None for pulse_info in operation.data["pulse_info"])
 
 
 def _apply_compensation_to_operation(
-    schedule: Schedule,
     operation: Operation,
-    schedulable: Schedulable,
     port_clock_list: list[str],
     compensation_matrix: np.ndarray,
-) -> None:
-    port_clock = (
-        f"{operation.data['pulse_info'][0]['port']}-{operation.data['pulse_info'][0]['clock']}"
-    )
-    port_clock_index = port_clock_list.index(port_clock)
-    compensation_row = compensation_matrix[port_clock_index]
-
-    # Add compensation pulses to port clocks that are affected by crosstalk
-    for i, compensation_value in enumerate(compensation_row):
-        if compensation_value != 0 and i != port_clock_index:
-            _add_compensation_operation(
-                schedule,
-                operation,
-                schedulable,
-                port_clock_list[i],
-                compensation_value,
-                i,
-            )
-
-    # Adjust all params that have amp in them
-    for key in operation.data["pulse_info"][0]:
-        if "amp" in key:
-            operation.data["pulse_info"][0][key] *= compensation_row[port_clock_index]
+) -> dict[int, Operation]:
+    """
+    Adjust the amplitude of the pulses in the operation.
+
+    Returns the operations that compensate for these pulses on the other port-clocks.
+    """
+    compensation_pulses: dict[int, list[dict[str, Any]]] = {}
+
+    for pulse_info in operation.data["pulse_info"]:
+        port_clock = f"{pulse_info['port']}-{pulse_info['clock']}"
+        if pulse_info["wf_func"] is None or port_clock not in port_clock_list:
+            continue
+        port_clock_index = port_clock_list.index(port_clock)
+        compensation_row = compensation_matrix[port_clock_index]
+
+        # Add compensation pulses to port clocks that are affected by crosstalk
+        for i, compensation_value in enumerate(compensation_row):
+            if compensation_value != 0 and i != port_clock_index:
+                compensation_pulse = _scale_pulse_info(pulse_info, compensation_value)
+                target_port, target_clock = port_clock_list[i].split("-")
+                compensation_pulse.update({"port": target_port, "clock": target_clock})
+                compensation_pulses.setdefault(i, []).append(compensation_pulse)
+
+        pulse_info.update(_scale_pulse_info(pulse_info, compensation_row[port_clock_index]))
+
+    compensation_operations = {}
+    for i, pulse_infos in compensation_pulses.items():
+        compensation_op = deepcopy(operation)
+        compensation_op.data["pulse_info"] = pulse_infos
+        compensation_op.data["acquisition_info"] = []
+        compensation_op._update()
+        compensation_operations[i] = compensation_op
+    return compensation_operations
+
+
+def _scale_pulse_info(pulse_info: dict[str, Any], factor: complex) -> dict[str, Any]:
+    """Return a copy of the pulse info in which the waveform is multiplied by a factor."""
+    scaled_pulse_info = deepcopy(pulse_info)
+    for key, value in scaled_pulse_info.items():
+        if key == "samples":
+            scaled_pulse_info[key] = [sample * factor for sample in value]
+        elif (
+            # These are relative to another amplitude, or not an amplitude.
+            key not in ("D_amp", "amp_B", "t_samples")
+            and ("amp" in key or key == "offset")
+            and value is not None
+        ):
+            scaled_pulse_info[key] = value * factor
+    return scaled_pulse_info
 
 
 def _add_compensation_operation(
     schedule: Schedule,
-    original_operation: Operation,
+    original_schedulable_key: str,
     original_schedulable: Schedulable,
-    target_port_clock: str,
-    compensation_value: float,
+    compensation_op: Operation,
     index: int,
 ) -> None:
-    compensation_op = deepcopy(original_operation)
-    target_port, target_clock = target_port_clock.split("-")
-
-    # amp of compensation operation is product of the original amplitude and compensation value.
-    compensation_op.data["pulse_info"][0].update(
-        {
-            "port": target_port,
-            "clock": target_clock,
-        }
-    )
-    for key in compensation_op.data["pulse_info"][0]:
-        if "amp" in key:
-            compensation_op.data["pulse_info"][0][key] = (
-                original_operation.data["pulse_info"][0][key] * compensation_value
-            )
-
     schedule.operations[compensation_op.hash] = compensation_op
 
     compensation_schedulable = deepcopy(original_schedulable)
     compensation_schedulable["operation_id"] = compensation_op.hash
-    schedule.schedulables[f"{original_operation.hash}_compensation_{index}"] = (
+    schedule.schedulables[f"{original_schedulable_key}_compensation_{index}"] = (
         compensation_schedulable
     )
-- 
2.43.0


From 751d81e0c2e979daaa184128463ce64e0bb45c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 30/50] fix: marker debug mode keeps RF outputs in the state
 they were switched to

---
 quantify_scheduler/backends/qblox/analog.py   | 21 ++++++++++++++-----
 .../qblox/operation_handling/pulses.py        |  4 ++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 64ccb86..8de3306 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -36,6 +36,7 @@ from quantify_scheduler.backends.qblox.operation_handling.acquisitions import (
 from quantify_scheduler.backends.qblox.operation_handling.factory_analog import (
     get_operation_strategy,
 )
+from quantify_scheduler.backends.qblox.operation_handling.pulses import MarkerPulseStrategy
 from quantify_scheduler.backends.qblox.operation_handling.virtual import (
     NcoPhaseShiftStrategy,
     NcoResetClockPhaseStrategy,
@@ -141,8 +142,15 @@ class AnalogSequencerCompiler(SequencerCompiler):
         )
 
         self._default_marker = 0
-        if static_hw_properties.default_markers:
+        module_options = parent.instrument_cfg.hardware_description
+        if (
+            isinstance(module_options, RFDescription)
+            and module_options.rf_output_on
+            and static_hw_properties.default_markers
+        ):
             self._default_marker = static_hw_properties.default_markers[sequencer_cfg.channel_name]
+        # The marker register value last set by a marker pulse or RF switch toggle.
+        self._current_marker = self._default_marker
 
     @property
     def settings(self) -> AnalogSequencerSettings:
@@ -506,7 +514,7 @@ class AnalogSequencerCompiler(SequencerCompiler):
             op_strategy.operation_info.is_acquisition
             or op_strategy.operation_info.data.get("wf_func") is not None
         ):
-            marker = self._decide_markers(op_strategy)
+            marker = self._decide_markers(op_strategy) | self._current_marker
             qasm_program.emit(
                 q1asm_instructions.SET_MARKER,
                 marker,
@@ -515,8 +523,8 @@ class AnalogSequencerCompiler(SequencerCompiler):
             op_strategy.insert_qasm(qasm_program)
             qasm_program.emit(
                 q1asm_instructions.SET_MARKER,
-                self._default_marker,
-                comment=f"set markers to {self._default_marker} (default, debug = True).",
+                self._current_marker,
+                comment=f"set markers to {self._current_marker} (default, debug = True).",
             )
             qasm_program.emit(
                 q1asm_instructions.UPDATE_PARAMETERS,
@@ -526,6 +534,8 @@ class AnalogSequencerCompiler(SequencerCompiler):
 
         else:
             op_strategy.insert_qasm(qasm_program)
+            if isinstance(op_strategy, MarkerPulseStrategy):
+                self._current_marker = op_strategy.marker_register
 
     def _decide_markers(self, operation: IOperationStrategy) -> int:
         """
@@ -564,7 +574,8 @@ class AnalogSequencerCompiler(SequencerCompiler):
             output = self.connected_output_indices[0] // 2
             return 1 << (output + 2) | self._default_marker
         elif instrument_type == "QRM_RF":
-            return 0b1010 if operation.operation_info.is_acquisition else 0b0110
+            marker = 0b1000 if operation.operation_info.is_acquisition else 0b0100
+            return marker | self._default_marker
         elif instrument_type == "QRC":
             return 0b1
         raise ValueError(f"Unknown instrument type {instrument_type}")
diff --git a/quantify_scheduler/backends/qblox/operation_handling/pulses.py b/quantify_scheduler/backends/qblox/operation_handling/pulses.py
index c889e05..247948b 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/pulses.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/pulses.py
@@ -269,6 +269,8 @@ class MarkerPulseStrategy(DigitalOutputStrategy):
     ) -> None:
         super().__init__(operation_info, channel_name)
         self.module_options = module_options
+        self.marker_register: int | None = None
+        """The value of the marker register after this operation, once inserted."""
 
     def insert_qasm(self, qasm_program: QASMProgram) -> None:
         """
@@ -315,12 +317,14 @@ class MarkerPulseStrategy(DigitalOutputStrategy):
 
         if self.operation_info.data["enable"]:
             marker |= default_marker
+            self.marker_register = marker
             qasm_program.emit(
                 q1asm_instructions.SET_MARKER,
                 marker,
                 comment=f"set markers to {marker} (marker pulse)",
             )
         else:
+            self.marker_register = default_marker
             qasm_program.emit(
                 q1asm_instructions.SET_MARKER,
                 default_marker,
-- 
2.43.0


From 56bc4540c8c3ef696adff05e82dfc44e61ade325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 31/50] fix: software distortion corrections keep timing,
 acquisitions and shared operations intact

---
 quantify_scheduler/backends/corrections.py | 36 ++++++++++++++++------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/quantify_scheduler/backends/corrections.py b/quantify_scheduler/backends/corrections.py
index 533b6cd..1ba7454 100644
--- a/quantify_scheduler/backends/corrections.py
+++ b/quantify_scheduler/backends/corrections.py
@@ -142,15 +142,21 @@ def distortion_correct_pulse(
     if corrected_waveform_data.size == 1:  # Interpolation requires two sample points
         corrected_waveform_data = np.append(corrected_waveform_data, corrected_waveform_data[-1])
 
+    # Every sample holds for one sampling period, so the last one ends with the pulse.
     corrected_pulse = NumericalPulse(
         samples=corrected_waveform_data,
         t_samples=np.linspace(
-            start=0, stop=pulse_data["duration"], num=corrected_waveform_data.size
+            start=0,
+            stop=pulse_data["duration"],
+            num=corrected_waveform_data.size,
+            endpoint=False,
         ),
         port=pulse_data["port"],
         clock=pulse_data["clock"],
         t0=pulse_data["t0"],
     )
+    corrected_pulse.data["pulse_info"][0]["duration"] = pulse_data["duration"]
+    corrected_pulse._update()
 
     return corrected_pulse
 
@@ -162,14 +168,14 @@ def _is_distortion_correctable(operation: Operation) -> bool:
 
 @overload
 def apply_software_distortion_corrections(
-    operation: Operation, distortion_corrections: dict
+    operation: Operation, distortion_corrections: dict, _visited: dict | None = None
 ) -> Operation | None: ...
 @overload
 def apply_software_distortion_corrections(
-    operation: Schedule, distortion_corrections: dict
+    operation: Schedule, distortion_corrections: dict, _visited: dict | None = None
 ) -> None: ...
 def apply_software_distortion_corrections(
-    operation: Operation | Schedule, distortion_corrections: dict
+    operation: Operation | Schedule, distortion_corrections: dict, _visited: dict | None = None
 ) -> Operation | Schedule | None:
     """
     Apply distortion corrections to operations in the schedule.
@@ -208,6 +214,9 @@ def apply_software_distortion_corrections(
         Note, this function updates the operation.
     distortion_corrections
         The distortion_corrections configuration of the setup.
+    _visited
+        Used internally: the operations that have already been corrected, by id. The same
+        operation can be used in several schedules and control flow operations.
 
     Returns
     -------
@@ -230,17 +239,24 @@ def apply_software_distortion_corrections(
         when clipping values are supplied but not two values exactly, min and max.
 
     """
+    visited: dict[int, tuple[Operation | Schedule, Operation | None]]
+    visited = {} if _visited is None else _visited
+    if id(operation) in visited:
+        return visited[id(operation)][1]
+
     if isinstance(operation, ScheduleBase):
+        visited[id(operation)] = (operation, None)
         for inner_operation_id in operation.operations:
             replacing_operation = apply_software_distortion_corrections(
-                operation.operations[inner_operation_id], distortion_corrections
+                operation.operations[inner_operation_id], distortion_corrections, visited
             )
             if replacing_operation is not None:
                 operation.operations[inner_operation_id] = replacing_operation
         return None
     elif isinstance(operation, ControlFlowOperation):
+        visited[id(operation)] = (operation, None)
         replacing_operation = apply_software_distortion_corrections(
-            operation.body, distortion_corrections
+            operation.body, distortion_corrections, visited
         )
         if replacing_operation is not None:
             operation.body = replacing_operation
@@ -294,6 +310,8 @@ def apply_software_distortion_corrections(
         # Convert to operation-type of first entry in pulse_info,
         # required as first entry in pulse_info is used to generate signature in __str__
         if substitute_operation is not None:
-            substitute_operation.data["pulse_info"] = operation.data["pulse_info"]
-            return substitute_operation
-        return None
+            for info in ("pulse_info", "acquisition_info", "logic_info", "gate_info"):
+                substitute_operation.data[info] = operation.data[info]
+            substitute_operation._update()
+        visited[id(operation)] = (operation, substitute_operation)
+        return substitute_operation
-- 
2.43.0


From bdd46ba85e7ca143c6c7b2a52b7304d0cbacc54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 32/50] fix: conditional bodies with loops and every real-time
 instruction take the right else time

---
 .../backends/qblox/compiler_abc.py            |  1 -
 .../backends/qblox/q1asm_instructions.py      | 23 +++++++++++++++++++
 .../backends/qblox/qasm_program.py            | 22 +++++++++++++++---
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 9c89e20..8391b1c 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -724,7 +724,6 @@ class SequencerCompiler(ABC):
             elif isinstance(operation, ControlFlowReturnStrategy):
                 return self.ParseOperationStatus.EXITED_CONTROL_FLOW
             else:
-                qasm.conditional_manager.update(operation)
                 self._insert_qasm(operation, qasm)
 
         return self.ParseOperationStatus.EXITED_CONTROL_FLOW
diff --git a/quantify_scheduler/backends/qblox/q1asm_instructions.py b/quantify_scheduler/backends/qblox/q1asm_instructions.py
index 34f1c06..0ae8947 100644
--- a/quantify_scheduler/backends/qblox/q1asm_instructions.py
+++ b/quantify_scheduler/backends/qblox/q1asm_instructions.py
@@ -56,3 +56,26 @@ PLAY_PULSE = "play_pulse"
 ACQUIRE_TIMETAGS = "acquire_timetags"
 ACQUIRE_DIGITAL = "acquire_digital"
 UPD_THRES = "upd_thres"
+
+REAL_TIME_INSTRUCTIONS = frozenset(
+    {
+        PLAY,
+        ACQUIRE,
+        ACQUIRE_WEIGHED,
+        ACQUIRE_TTL,
+        WAIT,
+        WAIT_SYNC,
+        WAIT_TRIGGER,
+        UPDATE_PARAMETERS,
+        FEEDBACK_TRIGGER_EN,
+        FEEDBACK_TRIGGERS_RST,
+        PLAY_PULSE,
+        ACQUIRE_TIMETAGS,
+        ACQUIRE_DIGITAL,
+        UPD_THRES,
+    }
+)
+"""
+Instructions that take time in the real-time pipeline. If a condition is not met, each of
+these is replaced by a wait time.
+"""
diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index e376746..3a2c374 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -166,6 +166,8 @@ class QASMProgram:
 
         """
         self.instructions.append(self.get_instruction_as_list(*args, **kwargs))
+        if args and args[0] in q1asm_instructions.REAL_TIME_INSTRUCTIONS:
+            self.conditional_manager.num_real_time_instructions += 1
         return self.instructions[-1]
 
     # --- QOL functions -----
@@ -245,7 +247,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-                    self.conditional_manager.num_real_time_instructions += 1
             else:
                 for _ in range(repetitions):
                     self.emit(
@@ -255,7 +256,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-                    self.conditional_manager.num_real_time_instructions += 1
             time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
         else:
             time_left = int(wait_time)
@@ -268,7 +268,6 @@ class QASMProgram:
             )
             if count_as_elapsed_time:
                 self.elapsed_time += time_left
-            self.conditional_manager.num_real_time_instructions += 1
 
     def wait_till_start_operation(self, operation: OpInfo) -> None:
         """
@@ -500,6 +499,17 @@ class QASMProgram:
             * self.conditional_manager.num_real_time_instructions
             + constants.MIN_TIME_BETWEEN_OPERATIONS
         )
+        if not 0 < duration <= constants.IMMEDIATE_MAX_WAIT_TIME:
+            # The else branch must consist of exactly one wait instruction.
+            raise RuntimeError(
+                f"The body of a conditional operation with a duration of "
+                f"{self.conditional_manager.duration} ns and "
+                f"{self.conditional_manager.num_real_time_instructions} real time instructions "
+                f"cannot be played conditionally: if the condition is not met, the sequencer "
+                f"would need to wait {duration} ns, which must be more than 0 and at most "
+                f"{constants.IMMEDIATE_MAX_WAIT_TIME} ns. Please change the duration of the body. "
+                f"This error is caused by the following operation strategy:\n{operation}."
+            )
         self.auto_wait(duration, count_as_elapsed_time=False)
         self.emit(
             q1asm_instructions.FEEDBACK_SET_COND,
@@ -562,9 +572,15 @@ class QASMProgram:
 
         self.emit(q1asm_instructions.MOVE, repetitions, register, comment=comment)
         self.emit(q1asm_instructions.NEW_LINE, label=label)
+        num_real_time_instructions = self.conditional_manager.num_real_time_instructions
 
         yield register
 
+        # The instructions of the loop body are executed in each iteration.
+        self.conditional_manager.num_real_time_instructions += (repetitions - 1) * (
+            self.conditional_manager.num_real_time_instructions - num_real_time_instructions
+        )
+
         self.emit(q1asm_instructions.LOOP, register, f"@{label}")
         self.register_manager.free_register(register)
 
-- 
2.43.0


From 6155182d43c5cf04d8609f49f43c91bc82df78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 33/50] fix: operations that start at the end of a control flow
 operation are played after it

---
 quantify_scheduler/backends/qblox/helpers.py | 32 +++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index d48b363..403211b 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -771,6 +771,23 @@ def _get_control_flow_end(
     return end_operation
 
 
+def _flatten_schedule(
+    schedule: Schedule,
+    time_offset: float,
+    full_schedulable_label: FullSchedulableLabel,
+    accumulator: list[tuple[float, Operation, FullSchedulableLabel]],
+) -> None:
+    """Get the operations of a schedule and its sub-schedules with their start times."""
+    for schedulable in schedule.schedulables.values():
+        abs_time = time_offset + schedulable["abs_time"]
+        operation = schedule.operations[schedulable["operation_id"]]
+        new_full_schedulable_label = full_schedulable_label + (schedulable["name"],)
+        if isinstance(operation, ScheduleBase):
+            _flatten_schedule(operation, abs_time, new_full_schedulable_label, accumulator)
+        else:
+            accumulator.append((abs_time, operation, new_full_schedulable_label))
+
+
 def _get_list_of_operations_for_op_info_creation(
     operation: Operation | Schedule,
     time_offset: float,
@@ -779,16 +796,17 @@ def _get_list_of_operations_for_op_info_creation(
     schedule: Schedule,
 ) -> None:
     if isinstance(operation, ScheduleBase):
-        for schedulable in operation.schedulables.values():
-            abs_time = schedulable["abs_time"]
-            inner_operation = operation.operations[schedulable["operation_id"]]
-            schedulable_label = schedulable["name"]
-            new_full_schedulable_label = full_schedulable_label + (schedulable_label,)
+        inner_operations: list[tuple[float, Operation, FullSchedulableLabel]] = []
+        _flatten_schedule(operation, time_offset, full_schedulable_label, inner_operations)
+        # Operations may be added to a schedule in any order. What starts at the end of a
+        # control flow operation must come after it.
+        inner_operations.sort(key=lambda time_op_and_label: to_grid_time(time_op_and_label[0]))
+        for abs_time, inner_operation, inner_label in inner_operations:
             _get_list_of_operations_for_op_info_creation(
                 inner_operation,
-                time_offset + abs_time,
+                abs_time,
                 accumulator,
-                new_full_schedulable_label,
+                inner_label,
                 schedule,
             )
     elif isinstance(operation, ControlFlowOperation):
-- 
2.43.0


From 6437f40ec0167d9e8da5bb45899b94e8d3ee24e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 34/50] fix: conditional playback in schedules that are used
 multiple times or added in any order

---
 quantify_scheduler/backends/qblox_backend.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index e28a872..1bb4e2e 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -503,8 +503,15 @@ def _insert_latch_reset(
     abs_time_relative_to_schedule: float,
     schedule: Schedule,
     conditional_info_map: defaultdict[str, ConditionalInfo],
+    visited_schedules: set[int] | None = None,
 ) -> None:
+    if visited_schedules is None:
+        visited_schedules = set()
     if isinstance(operation, ScheduleBase):
+        # The same schedule may be used multiple times.
+        if id(operation) in visited_schedules:
+            return
+        visited_schedules.add(id(operation))
         schedulables = list(operation.schedulables.values())
         for schedulable in schedulables:
             abs_time = schedulable.data["abs_time"]
@@ -514,6 +521,7 @@ def _insert_latch_reset(
                 abs_time_relative_to_schedule=abs_time,
                 schedule=operation,
                 conditional_info_map=conditional_info_map,
+                visited_schedules=visited_schedules,
             )
     elif isinstance(operation, LoopOperation):
         _insert_latch_reset(
@@ -521,6 +529,7 @@ def _insert_latch_reset(
             abs_time_relative_to_schedule=abs_time_relative_to_schedule,
             schedule=schedule,
             conditional_info_map=conditional_info_map,
+            visited_schedules=visited_schedules,
         )
     elif operation.valid_acquisition and operation.is_conditional_acquisition:
         acq_info = operation["acquisition_info"]
@@ -615,7 +624,11 @@ def compile_conditional_playback(  # noqa: D417
     conditional_info_map = defaultdict(
         lambda: ConditionalInfo(portclocks=set(), address=address_counter.__next__())
     )
-    _set_conditional_info_map(schedule, conditional_info_map, config, schedule)
+    # Operations are visited in the order in which they were added to the schedule. The
+    # trigger condition of a control flow depends on its acquisition, which may have been
+    # added later, so a second pass is needed.
+    for _ in range(2):
+        _set_conditional_info_map(schedule, conditional_info_map, config, schedule)
     _insert_latch_reset(schedule, 0, schedule, conditional_info_map)
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
-- 
2.43.0


From a8e8134e7e056440d5109f1d7f7b8d99836ba219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 35/50] fix: trigger counts without a feedback label on a
 timetag module

---
 quantify_scheduler/backends/qblox/timetag.py | 22 +++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/timetag.py b/quantify_scheduler/backends/qblox/timetag.py
index 8f3e511..02d2410 100644
--- a/quantify_scheduler/backends/qblox/timetag.py
+++ b/quantify_scheduler/backends/qblox/timetag.py
@@ -347,15 +347,21 @@ class TimetagSequencerCompiler(SequencerCompiler):
         # We ignore None because it does not interfere with other acquisitions/conditionals.
         # This is because a LatchReset is used for every thresholded acq with a not-None
         # address.
-        address = self._get_unique_value_or_raise(
-            values=(
-                acq.operation_info.data["feedback_trigger_address"]
-                for acq in acquisitions
-                if acq.operation_info.data["feedback_trigger_address"] is not None
-            ),
-            setting_name="feedback_trigger_address",
+        addresses = {
+            acq.operation_info.data.get("feedback_trigger_address")
+            for acq in acquisitions
+            if acq.operation_info.data.get("feedback_trigger_address") is not None
+        }
+        # Address 0 means that no trigger is sent.
+        address = (
+            self._get_unique_value_or_raise(
+                values=addresses,
+                setting_name="feedback_trigger_address",
+            )
+            if addresses
+            else 0
         )
-        self._settings.thresholded_acq_trigger_write_en = True
+        self._settings.thresholded_acq_trigger_write_en = bool(addresses)
         # For a ThresholdedTriggerCount with one threshold, both the low and high
         # thresholds are the same.
         self._settings.thresholded_acq_trigger_write_threshold_low = threshold
-- 
2.43.0


From 845c4cbe14a61d81ae6d701d1bc074aed9ea16b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 36/50] fix: pulse compensation of control flow bodies and with
 the ALAP strategy

---
 quantify_scheduler/pulse_compensation.py | 28 ++++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/quantify_scheduler/pulse_compensation.py b/quantify_scheduler/pulse_compensation.py
index b553554..896635f 100644
--- a/quantify_scheduler/pulse_compensation.py
+++ b/quantify_scheduler/pulse_compensation.py
@@ -9,7 +9,11 @@ from copy import deepcopy
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, overload
 
-from quantify_scheduler.compilation import _determine_absolute_timing
+from quantify_scheduler.compilation import (
+    _determine_absolute_timing,
+    _determine_scheduling_strategy,
+)
+from quantify_scheduler.enums import SchedulingStrategy
 from quantify_scheduler.helpers.waveforms import area_pulse
 from quantify_scheduler.operations.control_flow_library import (
     ConditionalOperation,
@@ -179,6 +183,7 @@ def _determine_compensation_pulse(
     max_compensation_amp: dict[Port, float],
     time_grid: float,
     sampling_rate: float,
+    config: CompilationConfig | None = None,
 ) -> dict[Port, CompensationPulseParams]:
     """
     Calculates the timing and the amplitude of a compensation pulse for each port.
@@ -202,6 +207,10 @@ def _determine_compensation_pulse(
         Time grid the compensation pulse needs to be on.
     sampling_rate
         Sampling rate of the pulses.
+    config
+        Compilation config for
+        :class:`~quantify_scheduler.backends.graph_compilation.QuantifyCompiler`, which
+        determines the scheduling strategy.
 
     Returns
     -------
@@ -212,11 +221,7 @@ def _determine_compensation_pulse(
     """
     pulses_start_duration_amp: dict[Port, CompensationPulseParams] = {}
 
-    operation_with_abs_times = (
-        operation
-        if not isinstance(operation, Schedule)
-        else _determine_absolute_timing(deepcopy(operation), None)
-    )
+    operation_with_abs_times = _determine_absolute_timing(deepcopy(operation), None, config)
     ports: set[str] = set(max_compensation_amp.keys())
     pulses_sum_end: dict[Port, SumEnd] = _determine_sum_and_end_of_all_pulses(
         operation_with_abs_times, sampling_rate, 0, ports, False
@@ -289,13 +294,14 @@ def process_compensation_pulses(
         return operation
     elif isinstance(operation, PulseCompensation):
         # Inner pulse compensated blocks need to be resolved first.
-        resolved_body = process_compensation_pulses(operation.body)
+        resolved_body = process_compensation_pulses(operation.body, config)
         all_compensation_pulse_params: dict[Port, CompensationPulseParams] = (
             _determine_compensation_pulse(
                 resolved_body,
                 operation.max_compensation_amp,
                 operation.time_grid,
                 operation.sampling_rate,
+                config,
             )
         )
 
@@ -319,5 +325,13 @@ def process_compensation_pulses(
                 ref_pt_new="start",
             )
 
+        if _determine_scheduling_strategy(config) == SchedulingStrategy.ALAP:
+            # By default, operations refer to the next operation when scheduling as late as
+            # possible. The body should not refer to its compensation pulses, so it goes last.
+            schedulables = pulse_compensated_schedule.schedulables
+            schedulables[first_op_schedulable["name"]] = schedulables.pop(
+                first_op_schedulable["name"]
+            )
+
         return pulse_compensated_schedule
     return schedule
-- 
2.43.0


From 3a90044813b71c631cb24d2d10acac21ffc925cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 37/50] fix: settings shared by several port-clocks: LO
 frequencies, attenuations, mixer offsets and filters

---
 quantify_scheduler/backends/qblox/analog.py   | 139 +++++++++++-------
 .../backends/qblox/instrument_compilers.py    |  58 ++++----
 quantify_scheduler/backends/qblox_backend.py  |  49 ++++--
 quantify_scheduler/backends/types/qblox.py    |  15 +-
 .../components/qblox.py                       |   5 +-
 5 files changed, 164 insertions(+), 102 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 8de3306..de6a035 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -25,6 +25,7 @@ from quantify_scheduler.backends.qblox.compiler_abc import (
 from quantify_scheduler.backends.qblox.enums import (
     ChannelMode,
     DistortionCorrectionLatencyEnum,
+    LoCalEnum,
     QbloxFilterConfig,
     QbloxFilterMarkerDelay,
 )
@@ -49,6 +50,7 @@ from quantify_scheduler.backends.types.qblox import (
     ComplexChannelDescription,
     ComplexInputGain,
     DigitalChannelDescription,
+    DistortionSettings,
     InputAttenuation,
     OpInfo,
     OutputAttenuation,
@@ -788,42 +790,52 @@ class AnalogModuleCompiler(ClusterModuleCompiler, ABC):
                         mixer_corrections = None
 
                     if mixer_corrections:
-                        offset_i = mixer_corrections.dc_offset_i
-                        offset_q = mixer_corrections.dc_offset_q
                         voltage_range = self.static_hw_properties.mixer_dc_offset_range
-                        if output_idx == 0:
-                            self._settings.offset_ch0_path_I = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_I",
-                                offset_i,
+                        for path_name, offset in (
+                            ("I", mixer_corrections.dc_offset_i),
+                            ("Q", mixer_corrections.dc_offset_q),
+                        ):
+                            self._assign_output_setting(
+                                f"offset_ch{output_idx}_path_{path_name}",
+                                helpers.calc_from_units_volt(
+                                    voltage_range,
+                                    self.name,
+                                    f"dc_mixer_offset_{path_name}",
+                                    offset,
+                                ),
+                                output_label,
                             )
-                            self._settings.offset_ch0_path_Q = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_Q",
-                                offset_q,
-                            )
-                            self._settings.out0_lo_freq_cal_type_default = (
-                                mixer_corrections.auto_lo_cal
-                            )
-                        else:
-                            self._settings.offset_ch1_path_I = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_I",
-                                offset_i,
-                            )
-                            self._settings.offset_ch1_path_Q = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_Q",
-                                offset_q,
-                            )
-                            self._settings.out1_lo_freq_cal_type_default = (
-                                mixer_corrections.auto_lo_cal
+                        if mixer_corrections.auto_lo_cal != LoCalEnum.OFF:
+                            self._assign_output_setting(
+                                f"out{output_idx}_lo_freq_cal_type_default",
+                                mixer_corrections.auto_lo_cal,
+                                output_label,
+                                unset=LoCalEnum.OFF,
                             )
 
+    def _assign_output_setting(
+        self, setting: str, value: object, output_label: str, unset: object = None
+    ) -> None:
+        """
+        Assign a setting that is shared by all port-clock combinations on an output.
+
+        Raises
+        ------
+        ValueError
+            If a different value was given for another port-clock combination.
+
+        """
+        if value is None:
+            return
+        previous_value = getattr(self._settings, setting)
+        if previous_value not in (None, unset, value):
+            raise ValueError(
+                f"Found contradicting mixer corrections ({previous_value} and {value} for "
+                f"'{setting}') for the port-clock combinations on '{output_label}' of module "
+                f"'{self.name}'."
+            )
+        setattr(self._settings, setting, value)
+
     def _configure_distortion_correction_latency_compensations(
         self, distortion_configs: dict[int, Any] | None = None
     ) -> None:
@@ -870,6 +882,9 @@ class AnalogModuleCompiler(ClusterModuleCompiler, ABC):
                     self._configure_dc_latency_comp_for_output(output, dc_comp)
 
     def _configure_dc_latency_comp_for_output(self, output: int, dc_comp: int) -> None:
+        # The settings have four outputs by default, the QRC has more.
+        for _ in range(len(self._settings.distortion_corrections), output + 1):
+            self._settings.distortion_corrections.append(DistortionSettings())
         for i, mask in enumerate(
             [
                 DistortionCorrectionLatencyEnum.EXP0,
@@ -1230,44 +1245,54 @@ class RFModuleCompiler(AnalogModuleCompiler, ABC):
                 raise ValueError(f'Trying to set "{label}" to non-integer value {value}')
             return int(value)
 
-        in0_att = out0_att = out1_att = None
+        attenuations: dict[str, int | None] = {}
+
+        def _assign(setting: str, value: InputAttenuation | OutputAttenuation | None) -> None:
+            """Set an attenuation, which must be unique for each input or output."""
+            if value is None:
+                return
+            attenuation = _convert_to_int(value, label=setting)
+            if attenuations.setdefault(setting, attenuation) != attenuation:
+                raise ValueError(
+                    f"Found contradicting values {attenuations[setting]} and {attenuation} for "
+                    f"'{setting}' on module '{self.name}'. Make sure that the attenuation is the "
+                    f"same for all port-clock combinations on this channel."
+                )
 
         input_att_cfg = self.instrument_cfg.hardware_options.input_att
 
         output_att_cfg = self.instrument_cfg.hardware_options.output_att
 
-        for (
-            portclock,
-            path,
-        ) in self.instrument_cfg.portclock_to_path.items():
-            if path.channel_name == "complex_input_0" and input_att_cfg is not None:
-                in0_att = input_att_cfg.get(portclock)
+        # Channels for which the input attenuation is set, per input.
+        input_att_channels: dict[str, str] = {}
 
         for (
             portclock,
             path,
         ) in self.instrument_cfg.portclock_to_path.items():
-            if path.channel_name == "complex_output_0":
-                if input_att_cfg is not None:
-                    in0_att_from_output = input_att_cfg.get(portclock)
-                    if in0_att_from_output is not None:
-                        if in0_att is not None:
-                            raise ValueError(
-                                f"'input_att' is defined for both 'complex_input_0' and "
-                                f"'complex_output_0' on module '{self.name}', which is prohibited. "
-                                f"Make sure you define it at a single place."
-                            )
-                        in0_att = in0_att_from_output
+            if ChannelMode.COMPLEX not in path.channel_name:
+                continue
 
-                if output_att_cfg is not None:
-                    out0_att = output_att_cfg.get(portclock)
+            if "output" in path.channel_name and output_att_cfg is not None:
+                _assign(f"out{path.channel_idx}_att", output_att_cfg.get(portclock))
 
-            if path.channel_name == "complex_output_1" and output_att_cfg is not None:
-                out1_att = output_att_cfg.get(portclock)
+            # Inputs 0 and 1 are measured together with outputs 0 and 1.
+            if (
+                path.channel_idx in (0, 1)
+                and input_att_cfg is not None
+                and (input_att := input_att_cfg.get(portclock)) is not None
+            ):
+                setting = f"in{path.channel_idx}_att"
+                if input_att_channels.setdefault(setting, path.channel_name) != path.channel_name:
+                    raise ValueError(
+                        f"'input_att' is defined for both 'complex_input_{path.channel_idx}' and "
+                        f"'complex_output_{path.channel_idx}' on module '{self.name}', which is "
+                        f"prohibited. Make sure you define it at a single place."
+                    )
+                _assign(setting, input_att)
 
-        self._settings.in0_att = _convert_to_int(in0_att, label="in0_att")
-        self._settings.out0_att = _convert_to_int(out0_att, label="out0_att")
-        self._settings.out1_att = _convert_to_int(out1_att, label="out1_att")
+        for setting, attenuation in attenuations.items():
+            setattr(self._settings, setting, attenuation)
 
     def _configure_dc_latency_comp_for_marker(self, output: int, dc_comp: int) -> None:
         output += 2  # In RF modules, the two marker indices are 2 & 3.
diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index ef3631d..e730fca 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import math
 import warnings
 from collections import defaultdict
 from itertools import chain
@@ -89,9 +90,9 @@ class LocalOscillatorCompiler(compiler_abc.InstrumentCompiler):
             total_play_time=total_play_time,
             instrument_cfg=instrument_cfg,
         )
-        self.freq_param_name = "frequency"
+        self.freq_param_name = instrument_cfg.hardware_description.frequency_param
         self._frequency = instrument_cfg.frequency
-        self.power_param_name = "power"
+        self.power_param_name = instrument_cfg.hardware_description.power_param
         self._power = instrument_cfg.hardware_description.power
 
     @property
@@ -126,7 +127,7 @@ class LocalOscillatorCompiler(compiler_abc.InstrumentCompiler):
             indicate an invalid configuration in the hardware mapping.
 
         """
-        if self._frequency is not None and value != self._frequency:
+        if self._frequency is not None and not math.isclose(value, self._frequency):
             raise ValueError(
                 f"Attempting to set LO {self.name} to frequency {value}, "
                 f"while it has previously already been set to "
@@ -159,10 +160,10 @@ class LocalOscillatorCompiler(compiler_abc.InstrumentCompiler):
         """
         if self._frequency is None:
             return None
-        return {
-            f"{self.name}.{self.freq_param_name}": self._frequency,
-            f"{self.name}.{self.power_param_name}": self._power,
-        }
+        settings = {f"{self.name}.{self.freq_param_name}": self._frequency}
+        if self._power is not None:
+            settings[f"{self.name}.{self.power_param_name}"] = self._power
+        return settings
 
 
 class QCMCompiler(BasebandModuleCompiler):
@@ -212,7 +213,7 @@ class QCMCompiler(BasebandModuleCompiler):
                                 marker_debug_mode_enable,
                             )
                     if key == "fir_coeffs" and value is not None:
-                        if len(value) != 32 or np.any(value) < -2 or np.any(value) >= 2:
+                        if len(value) != 32 or np.any(np.array(value) < -2) or np.any(np.array(value) >= 2):
                             raise ValueError(
                                 "The FIR filter has 32 coefficients with a range of [-2,2) each."
                             )
@@ -237,30 +238,25 @@ class QCMCompiler(BasebandModuleCompiler):
                             if channel_description is not None
                             else False
                         )
-                        if module_distortion_configs.get(output_number) is None:
-                            if isinstance(correction_cfg, HardwareDistortionCorrection):
-                                output_number = int(output_name.split("_")[-1])
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg,
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                            elif isinstance(correction_cfg, list):
-                                output_number = 2 * int(output_name.split("_")[-1])
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg[0],
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                                output_number += 1
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg[1],
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
+                        if isinstance(correction_cfg, list):
+                            # One correction for each output of a complex channel.
+                            corrections_per_output = {
+                                2 * output_number: correction_cfg[0],
+                                2 * output_number + 1: correction_cfg[1],
+                            }
                         else:
-                            raise ValueError(
-                                f"Attempting to set distortion corrections to"
-                                f"{output_name} using portclock {portclock}, while it"
-                                f"has previously already been set on this output."
-                            )
+                            corrections_per_output = {output_number: correction_cfg}
+                        for output, correction in corrections_per_output.items():
+                            if output in module_distortion_configs:
+                                raise ValueError(
+                                    f"Attempting to set distortion corrections to "
+                                    f"{output_name} using portclock {portclock}, while it "
+                                    f"has previously already been set on this output."
+                                )
+                            module_distortion_configs[output] = {
+                                "distortion_corrections": correction,
+                                "marker_debug_mode_enable": marker_debug_mode_enable,
+                            }
         return module_distortion_configs
 
     def _configure_filter(
diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 1bb4e2e..d4f5e76 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import itertools
+import math
 import re
 import warnings
 from abc import ABC
@@ -1006,7 +1007,7 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
 
             elif isinstance(instrument_description, LocalOscillatorDescription):
                 lo_configs[instrument_name] = _LocalOscillatorCompilationConfig(
-                    hardware_description=instrument_description,
+                    hardware_description=instrument_description.model_copy(),
                     frequency=None,
                 )
 
@@ -1024,12 +1025,25 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                     if portclock not in cfg.portclock_to_path:
                         continue
 
-                    for lo_name, lo_path in cfg.lo_to_path.items():
-                        if cfg.portclock_to_path[portclock] == lo_path:
-                            lo_config = lo_configs[lo_name]
-                            if lo_config.hardware_description.instrument_name is None:
-                                lo_config.hardware_description.instrument_name = lo_name
-                                lo_config.frequency = frequencies.lo_freq
+                    lo_name = cfg.channel_to_lo.get(str(cfg.portclock_to_path[portclock]))
+                    if lo_name is None:
+                        continue
+
+                    lo_config = lo_configs[lo_name]
+                    if lo_config.hardware_description.instrument_name is None:
+                        lo_config.hardware_description.instrument_name = lo_name
+                    lo_freq = frequencies.lo_freq
+                    if lo_freq is None:
+                        continue
+                    if lo_config.frequency is not None and not math.isclose(
+                        lo_config.frequency, lo_freq
+                    ):
+                        raise ValueError(
+                            f"Found contradicting frequencies ({lo_config.frequency:e} and "
+                            f"{lo_freq:e}) for local oscillator '{lo_name}' in the modulation "
+                            f"frequencies of the port-clock combinations that use it."
+                        )
+                    lo_config.frequency = lo_freq
 
         # Extract hardware options
         clusters_hardware_options: dict[str, dict[str, dict[str, Any]]] = defaultdict(
@@ -1094,9 +1108,11 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
         assert isinstance(self.connectivity, Connectivity)
         cluster_pc_to_path: dict[str, dict[str, ChannelPath]] = {}
         cluster_lo_to_path: dict[str, dict[str, ChannelPath]] = {}
+        cluster_channel_to_lo: dict[str, dict[str, str]] = {}
         for instr in cluster_configs:
             cluster_pc_to_path[instr] = {}
             cluster_lo_to_path[instr] = {}
+            cluster_channel_to_lo[instr] = {}
 
         def is_path(value: str) -> bool:
             possible_cluster_name = value.split(".")[0]
@@ -1216,6 +1232,8 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                     mixer_path, mixer_lo = get_module_and_lo_for_mixer(mixer)
                     path = ChannelPath.from_path(mixer_path)
                     cluster_lo_to_path[path.cluster_name][mixer_lo] = path
+                    # Several mixers can share one local oscillator.
+                    cluster_channel_to_lo[path.cluster_name][str(path)] = mixer_lo
                     for clock in clocks:
                         # NV center hack:
                         fixed_clock = get_optical_clock(mixer, clocks) or clock
@@ -1225,6 +1243,7 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
             cluster_configs[cluster_name].portclock_to_path = pc_to_path
         for cluster_name, lo_to_path in cluster_lo_to_path.items():
             cluster_configs[cluster_name].lo_to_path = lo_to_path
+            cluster_configs[cluster_name].channel_to_lo = cluster_channel_to_lo[cluster_name]
 
 
 class _LocalOscillatorCompilationConfig(DataStructure):
@@ -1275,6 +1294,9 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
     lo_to_path: dict[str, ChannelPath] = {}
     """Mapping between lo names and their associated channel name paths
     (e.g. cluster0.module1.complex_output_0)."""
+    channel_to_lo: dict[str, str] = {}
+    """Mapping between channel name paths (e.g. ``"cluster0.module1.complex_output_0"``)
+    and the names of the external local oscillators they are mixed with."""
     parent_config_version: str
     """
     Version of the parent hardware compilation config used.
@@ -1336,7 +1358,8 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
         self,
     ) -> dict[int, _SequencerCompilationConfig]:
         sequencer_configs = {}
-        channel_to_lo = {path.channel_name: lo_name for lo_name, path in self.lo_to_path.items()}
+        channel_to_lo = {str(path): lo_name for lo_name, path in self.lo_to_path.items()}
+        channel_to_lo.update(self.channel_to_lo)
 
         for seq_idx, portclock in self._sequencer_to_portclock().items():
             path = self.portclock_to_path[portclock]
@@ -1406,7 +1429,7 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
                 ),
                 latency_correction=latency_correction,
                 distortion_correction=distortion_correction,
-                lo_name=channel_to_lo.get(path.channel_name),
+                lo_name=channel_to_lo.get(str(path)),
                 modulation_frequencies=modulation_frequencies,  # type: ignore
                 mixer_corrections=mixer_corrections,
                 digitization_thresholds=digitization_thresholds,
@@ -1775,6 +1798,9 @@ class _ClusterCompilationConfig(DataStructure):
     lo_to_path: dict[str, ChannelPath] = {}
     """Mapping between lo names and their associated channel name paths
     (e.g. cluster0.module1.complex_output_0)."""
+    channel_to_lo: dict[str, str] = {}
+    """Mapping between channel name paths (e.g. ``"cluster0.module1.complex_output_0"``)
+    and the names of the external local oscillators they are mixed with."""
     parent_config_version: str
     """
     Version of the parent hardware compilation config used.
@@ -1830,6 +1856,11 @@ class _ClusterCompilationConfig(DataStructure):
         for lo_name, path in self.lo_to_path.items():
             module_configs[path.module_idx].lo_to_path[lo_name] = path
 
+        # Distribute `channel_to_lo`
+        for channel, lo_name in self.channel_to_lo.items():
+            module_idx = ChannelPath.from_path(channel).module_idx
+            module_configs[module_idx].channel_to_lo[channel] = lo_name
+
         # Add support for old versions of hardware config
         if self.parent_config_version == "0.1":
             for cfg in module_configs.values():
diff --git a/quantify_scheduler/backends/types/qblox.py b/quantify_scheduler/backends/types/qblox.py
index 7bced1e..8943a05 100644
--- a/quantify_scheduler/backends/types/qblox.py
+++ b/quantify_scheduler/backends/types/qblox.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import math
 import warnings
 from collections.abc import Callable
 from dataclasses import dataclass
@@ -568,10 +569,16 @@ class RFModuleSettings(AnalogModuleSettings):
             for portclock, path in mapping.portclock_to_path.items():
                 pc_freqs = modulation_frequencies.get(portclock)
                 lo_freq = pc_freqs.lo_freq if pc_freqs is not None else None
-                if (
-                    lo_freq_setting := channel_name_to_lo_freq_setting.get(path.channel_name)
-                ) is not None:
-                    rf_settings[lo_freq_setting] = lo_freq
+                lo_freq_setting = channel_name_to_lo_freq_setting.get(path.channel_name)
+                if lo_freq is None or lo_freq_setting is None:
+                    continue
+                previous_lo_freq = rf_settings.setdefault(lo_freq_setting, lo_freq)
+                if not math.isclose(previous_lo_freq, lo_freq):
+                    raise ValueError(
+                        f"Found contradicting LO frequencies ({previous_lo_freq:e} and "
+                        f"{lo_freq:e}) for '{path}' in the modulation frequencies of the "
+                        f"port-clock combinations that use it."
+                    )
 
         combined_settings = {**rf_settings, **kwargs}
         return cls(**combined_settings)
diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 2170b8a..c9938e7 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1373,8 +1373,11 @@ class _QRCComponent(_RFComponent, _AnalogReadoutComponent):
         # configure attenuation
 
         for i in range(6):
-            if out_att := getattr(settings, f"out{i}_att") is not None:
+            if (out_att := getattr(settings, f"out{i}_att")) is not None:
                 self._set_parameter(self.instrument, f"out{i}_att", out_att)
+        for i in range(2):
+            if (in_att := getattr(settings, f"in{i}_att")) is not None:
+                self._set_parameter(self.instrument, f"in{i}_att", in_att)
 
     def _configure_lo_settings(
         self,
-- 
2.43.0


From 4dbabc467282cf66ab3dd34280823bc31253a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:05 +0000
Subject: [PATCH 38/50] fix: no wait instructions shorter than the 4 ns that
 the assembler accepts

---
 .../backends/qblox/qasm_program.py            | 54 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index 3a2c374..07f6374 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -219,7 +219,8 @@ class QASMProgram:
         Raises
         ------
         ValueError
-            If ``wait_time <= 0``.
+            If ``wait_time < 0``, or if it is too short for a wait instruction and the
+            last instruction cannot be extended either.
 
         """
         if wait_time == 0:
@@ -231,9 +232,25 @@ class QASMProgram:
                 f" ns."
             )
 
+        if wait_time < constants.MIN_TIME_BETWEEN_OPERATIONS:
+            # Too short for a wait instruction.
+            if not count_as_elapsed_time or not self._extend_last_instruction(wait_time):
+                raise ValueError(
+                    f"Invalid wait time. Attempting to wait for {wait_time} ns at "
+                    f"t={self.elapsed_time} ns. Please note that a wait time of at least "
+                    f"{constants.MIN_TIME_BETWEEN_OPERATIONS} ns is required between operations."
+                )
+            self.elapsed_time += wait_time
+            return
+
         comment = comment if comment else f"auto generated wait ({wait_time} ns)"
         if wait_time > constants.IMMEDIATE_MAX_WAIT_TIME:
             repetitions = wait_time // constants.IMMEDIATE_MAX_WAIT_TIME
+            time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
+            if 0 < time_left < constants.MIN_TIME_BETWEEN_OPERATIONS:
+                # The remainder is too short to be a wait instruction of its own.
+                repetitions -= 1
+                time_left += constants.IMMEDIATE_MAX_WAIT_TIME
 
             # number of instructions where it becomes worthwhile to use a loop.
             instr_number_using_loop = 4
@@ -256,7 +273,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-            time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
         else:
             time_left = int(wait_time)
 
@@ -269,6 +285,40 @@ class QASMProgram:
             if count_as_elapsed_time:
                 self.elapsed_time += time_left
 
+    def _extend_last_instruction(self, wait_time: int) -> bool:
+        """
+        Lets the last real-time instruction take ``wait_time`` longer.
+
+        This is used for times that are too short for a wait instruction.
+
+        Parameters
+        ----------
+        wait_time
+            Time to add to the last instruction in ns.
+
+        Returns
+        -------
+        :
+            Whether the last instruction could be extended.
+
+        """
+        arithmetic = (q1asm_instructions.MOVE, q1asm_instructions.ADD, q1asm_instructions.SUB)
+        for instruction in reversed(self.instructions):
+            if instruction[0] or instruction[1] not in arithmetic:
+                break
+        else:
+            return False
+        if instruction[1] not in q1asm_instructions.REAL_TIME_INSTRUCTIONS:
+            return False
+        *args, duration = str(instruction[2]).split(",")
+        if (
+            not duration.isdecimal()
+            or int(duration) + wait_time > constants.IMMEDIATE_MAX_WAIT_TIME
+        ):
+            return False
+        instruction[2] = ",".join([*args, str(int(duration) + wait_time)])
+        return True
+
     def wait_till_start_operation(self, operation: OpInfo) -> None:
         """
         Waits until the start of a pulse or acquisition.
-- 
2.43.0


From d5f03ea28ccf96a37e1d8fd0da4481bc662f3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:18 +0000
Subject: [PATCH 39/50] fix: missing and averaged trigger counts, and one
 acquisition channel measured by several sequencers

---
 .../components/qblox.py                       | 23 +++++++++++--------
 .../instrument_coordinator/utility.py         | 10 +++-----
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index c9938e7..5904c14 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1999,19 +1999,22 @@ class _AcquisitionManagerBase(ABC):
                 qblox_acq_index: int,
                 qblox_acq_bin: int,
                 thresholded_trigger_count_metadata: ThresholdedTriggerCountMetadata | None,  # noqa: ARG001, unused argument
-            ) -> int:
+            ) -> int | float:
                 bin_data = self._get_bin_data(hardware_retrieved_acquisitions, qblox_acq_index)
                 # "avg_cnt" is the key for QRM modules, "count" for QTM modules. Note
-                # that QTM modules also return a "avg_cnt" key, that should not be used!
+                # that QTM modules also return a "avg_cnt" key, the number of averages.
                 counts = bin_data["count"] if "count" in bin_data else bin_data["avg_cnt"]
-                return (
-                    self._repetitions * int(counts[qblox_acq_bin])
-                    if (
-                        sum_multiply_repetitions
-                        and self._acq_channels_data[acq_channel].bin_mode == BinMode.SUM
-                    )
-                    else int(counts[qblox_acq_bin])
-                )
+                count = counts[qblox_acq_bin]
+                if isnan(count):
+                    return np.nan
+                if (
+                    sum_multiply_repetitions
+                    and self._acq_channels_data[acq_channel].bin_mode == BinMode.SUM
+                ):
+                    # The hardware returns the average over all (loop) repetitions, which
+                    # is not necessarily a whole number.
+                    return round(count * bin_data["avg_cnt"][qblox_acq_bin])
+                return int(count)
 
             return self._get_binned_data(
                 bin_data_function=_get_bin,
diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index fb29b13..4803936 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -154,14 +154,10 @@ def check_already_existing_acquisition(
 
         # We need to check if the values are `math.nan`, because if they are,
         # that means there is no value at that position (xarray standard).
-        def mask_func(x: float, y: float) -> int:
-            return 0 if np.isnan(x) or np.isnan(y) else 1
-
         if len(common_0) and len(common_1):
-            conflict_mask = xarray.apply_ufunc(mask_func, common_0, common_1, vectorize=True)
-            for conflict in conflict_mask:
-                if conflict.values != [1]:
-                    continue
+            conflict_mask = common_0.notnull() & common_1.notnull()
+            for position in np.argwhere(conflict_mask.values):
+                conflict = conflict_mask[tuple(position)]
                 conflicting_coords = [("acq_channel", acq_channel)]
                 conflicting_coords += [(dim, conflict[dim].values) for dim in conflict.coords]
                 coords_str = [f"{dim}={coord}" for dim, coord in conflicting_coords]
-- 
2.43.0


From 7f813c941df19d4bf8540891be1d24611c98ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:01 +0000
Subject: [PATCH 40/50] fix: sequencers and triggers of an earlier program take
 no part in the next one

---
 .../components/qblox.py                       | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 5904c14..f83a404 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -900,12 +900,14 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
                 "thresholded_acq_trigger_address",
                 settings.thresholded_acq_trigger_write_address,
             )
+        # Also if not specified: a sequencer that sent triggers in an earlier program must not
+        # keep sending them.
+        self._set_parameter(
+            self.instrument.sequencers[seq_idx],
+            "thresholded_acq_trigger_en",
+            bool(settings.thresholded_acq_trigger_write_en),
+        )
         if settings.thresholded_acq_trigger_write_en is not None:
-            self._set_parameter(
-                self.instrument.sequencers[seq_idx],
-                "thresholded_acq_trigger_en",
-                settings.thresholded_acq_trigger_write_en,
-            )
             self._set_parameter(
                 self.instrument.sequencers[seq_idx],
                 "thresholded_acq_trigger_invert",
@@ -1631,12 +1633,11 @@ class _QTMComponent(_ModuleComponentBase):
             "thresholded_acq_trigger_address_invalid",
             settings.thresholded_acq_trigger_write_address_invalid,
         )
-        if settings.thresholded_acq_trigger_write_en is not None:
-            self._set_parameter(
-                self.instrument.io_channels[seq_idx],
-                "thresholded_acq_trigger_en",
-                settings.thresholded_acq_trigger_write_en,
-            )
+        self._set_parameter(
+            self.instrument.io_channels[seq_idx],
+            "thresholded_acq_trigger_en",
+            bool(settings.thresholded_acq_trigger_write_en),
+        )
 
     def clear_data(self) -> None:
         """Clears remaining data on the module. Module type specific function."""
@@ -2932,6 +2933,12 @@ class ClusterComponent(base.InstrumentCoordinatorComponentBase):
             module_programs=without(program, ["settings", "acq_channels_data", "repetitions"]),
             settings=cluster_settings,
         )
+        # Sequencers used by an earlier program must not take part in the synchronization of
+        # this one: its sequencers would wait for them forever.
+        for name, comp in self._cluster_modules.items():
+            if name not in self._program.module_programs:
+                comp.disable_sync()
+
         for name, comp_options in self._program.module_programs.items():
             if name not in self._cluster_modules:
                 raise KeyError(
-- 
2.43.0


From 0f7e48ec47530530ab0019b820b8f2ee2604c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 41/50] fix: retrieved results are ordered by acquisition index

---
 quantify_scheduler/instrument_coordinator/components/qblox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index f83a404..f697ffc 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1749,6 +1749,10 @@ class _AcquisitionManagerBase(ABC):
                         self._assert_acquisition_data_exists(
                             hardware_retrieved_acquisitions, qblox_acq_index_bin.index, acq_channel
                         )
+                    # The results are ordered by their acquisition index.
+                    seq_channel_hardware_mapping = dict(
+                        sorted(seq_channel_hardware_mapping.items())
+                    )
                 # The `acquisition_function` formats the the acquisitions
                 # returned by the readout sequencer.
                 formatted_acquisitions = acquisition_function(
-- 
2.43.0


From 2ccf3abf25db431bdf8b722395a28bf8b6460f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:22 +0000
Subject: [PATCH 42/50] fix: trigger counts and inversions of an earlier
 program do not affect conditional playback

---
 .../components/qblox.py                       | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index f697ffc..584e461 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -396,18 +396,19 @@ class _ModuleComponentBase(
         self._set_parameter(self.instrument.sequencers[seq_idx], "sequence", settings.sequence)
 
         for address, trigger_settings in settings.thresholded_acq_trigger_read_settings.items():
-            if trigger_settings.thresholded_acq_trigger_invert is not None:
-                self._set_parameter(
-                    self.instrument.sequencers[seq_idx],
-                    f"trigger{address}_threshold_invert",
-                    trigger_settings.thresholded_acq_trigger_invert,
-                )
-            if trigger_settings.thresholded_acq_trigger_count is not None:
-                self._set_parameter(
-                    self.instrument.sequencers[seq_idx],
-                    f"trigger{address}_count_threshold",
-                    trigger_settings.thresholded_acq_trigger_count,
-                )
+            # Unspecified settings have the instrument's default value; they are always set,
+            # because an earlier program may have changed them.
+            count = trigger_settings.thresholded_acq_trigger_count
+            self._set_parameter(
+                self.instrument.sequencers[seq_idx],
+                f"trigger{address}_threshold_invert",
+                bool(trigger_settings.thresholded_acq_trigger_invert),
+            )
+            self._set_parameter(
+                self.instrument.sequencers[seq_idx],
+                f"trigger{address}_count_threshold",
+                1 if count is None else count,
+            )
 
     def arm_all_sequencers_in_program(self) -> None:
         """Arm all the sequencers that are part of the program."""
-- 
2.43.0


From 620b3763968bf2f9e1b7af82c02d610f5d4a7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:34 +0000
Subject: [PATCH 43/50] fix: nv_dark_esr_sched_nco accepts equal frequencies
 and frequencies equal to six digits

---
 quantify_scheduler/schedules/spectroscopy_schedules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/schedules/spectroscopy_schedules.py b/quantify_scheduler/schedules/spectroscopy_schedules.py
index f97b5ff..506e886 100644
--- a/quantify_scheduler/schedules/spectroscopy_schedules.py
+++ b/quantify_scheduler/schedules/spectroscopy_schedules.py
@@ -593,10 +593,10 @@ def nv_dark_esr_sched_nco(
     for idx, spec_freq in enumerate(spec_frequencies):
         sched.add(
             SetClockFrequency(clock=spec_clock, clock_freq_new=spec_freq),
-            label=f"set_freq ({spec_clock} {spec_freq:e} Hz)",
+            label=f"set_freq {idx} ({spec_clock} {spec_freq:e} Hz)",
         )
         sched.add(Reset(device_element), label=f"Reset {idx}")
-        sched.add(SpectroscopyOperation(device_element), label=f"Spectroscopy ({spec_freq:e} Hz)")
+        sched.add(SpectroscopyOperation(device_element), label=f"Spectroscopy {idx} ({spec_freq:e} Hz)")
         sched.add(Measure(device_element), label=f"Measure {idx}")
         sched.add(CRCount(device_element), label=f"CRCount post {idx}")
 
-- 
2.43.0


From 4c3a97a5aaf1bbec505691a4b4f3be3429741170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:05 +0000
Subject: [PATCH 44/50] fix: numpy scalars can be stored to YAML

---
 quantify_scheduler/yaml_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/yaml_utils.py b/quantify_scheduler/yaml_utils.py
index 55b8f96..d8927a5 100644
--- a/quantify_scheduler/yaml_utils.py
+++ b/quantify_scheduler/yaml_utils.py
@@ -45,6 +45,11 @@ def represent_ndarray(representer: ry.Representer, data: np.ndarray) -> ry.Mappi
     return node
 
 
+def represent_numpy_scalar(representer: ry.Representer, data: np.generic) -> ry.ScalarNode:
+    """Represent a NumPy scalar as the equivalent Python scalar."""
+    return representer.represent_data(data.item())
+
+
 def construct_ndarray(constructor: ry.Constructor, node: ry.MappingNode) -> np.ndarray:
     """Restore a NumPy array from a mapping with its proper type and shape."""
     if isinstance(constructor, ry.RoundTripConstructor):
@@ -66,7 +71,8 @@ yaml = ry.YAML(typ="rt")
 
 # Support Enum and its subclasses
 yaml.representer.add_multi_representer(Enum, represent_enum)
-# Support NumPy arrays
+# Support NumPy scalars and arrays
+yaml.representer.add_multi_representer(np.generic, represent_numpy_scalar)
 yaml.representer.add_representer(np.ndarray, represent_ndarray)
 yaml.constructor.add_constructor("!numpy.ndarray", construct_ndarray)
 
-- 
2.43.0


From 89103ddcc767a005be8bfb6c66b0d87bc93aa09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:59 +0000
Subject: [PATCH 45/50] fix: a Qblox hardware configuration read back from JSON
 compiles

---
 quantify_scheduler/backends/qblox_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index d4f5e76..7341a68 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1052,6 +1052,8 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
 
         options_by_portclock: dict[str, dict[str, Any]] = {}
         for option, pc_to_value_map in self.hardware_options.model_dump(exclude_unset=True).items():
+            if pc_to_value_map is None:
+                continue
             for pc, value in pc_to_value_map.items():
                 options_by_portclock.setdefault(pc, {})[option] = value
 
-- 
2.43.0


From a33b5d416a8c35a90ea35b1ff005cc0b0b8a6541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:06 +0000
Subject: [PATCH 46/50] fix: old-style Qblox configurations keep latency
 compensation and gains of real channels

---
 quantify_scheduler/backends/qblox/helpers.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 403211b..cbed685 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -1276,6 +1276,7 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                 "marker_debug_mode_enable",
                 "mix_lo",
                 "downconverter_freq",
+                "distortion_correction_latency_compensation",
             ]:
                 new_style_config["hardware_description"][cluster_name]["modules"][module_slot_idx][
                     channel_name
@@ -1411,7 +1412,11 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                 f"{pc_cfg['port']}-{pc_cfg['clock']}"
                 for pc_cfg in old_channel_config["portclock_configs"]
             ]
-            if channel_cfg_key in ["marker_debug_mode_enable", "mix_lo"]:
+            if channel_cfg_key in [
+                "marker_debug_mode_enable",
+                "mix_lo",
+                "distortion_correction_latency_compensation",
+            ]:
                 new_style_config["hardware_description"][cluster_name]["modules"][module_slot_idx][
                     channel_name
                 ][channel_cfg_key] = channel_cfg_value
@@ -1459,9 +1464,9 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                         ]
                     ):
                         # Set remaining portclock config parameters to sequencer options:
-                        new_style_config["hardware_options"]["sequencer_options"][port_clock] = (
-                            portclock_cfg
-                        )
+                        new_style_config["hardware_options"]["sequencer_options"][
+                            port_clock
+                        ].update(portclock_cfg)
 
             if any("optical_control" in pc for pc in channel_port_clocks):
                 channel_mixer = "OpticalModulator"
@@ -1579,7 +1584,7 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                     cluster_name=cluster_name,
                     module_slot_idx=module_slot_idx,
                     channel_name=module_cfg_key,
-                    old_channel_config=module_cfg_value,
+                    old_channel_config=old_channel_config,
                     new_style_config=new_style_config,
                 )
                 # Remove channel description if only default values are set
-- 
2.43.0


From 0986fb2c63fc33ad4d599e64f000e9642853564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:33 +0000
Subject: [PATCH 47/50] fix: old-style Qblox configurations with a local
 oscillator shared by channels play on the right outputs

---
 quantify_scheduler/backends/qblox/helpers.py | 24 +++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index cbed685..00be878 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -1283,7 +1283,11 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                 ][channel_cfg_key] = channel_cfg_value
             elif channel_cfg_key == "lo_name":
                 # Add IQ mixer to the hardware_description:
-                new_style_config["hardware_description"][f"iq_mixer_{channel_cfg_value}"] = {
+                mixer_name = f"iq_mixer_{channel_cfg_value}"
+                if mixer_name in new_style_config["hardware_description"]:
+                    # Channels that share an LO each have their own mixer.
+                    mixer_name += f"_{cluster_name}_module{module_slot_idx}_{channel_name}"
+                new_style_config["hardware_description"][mixer_name] = {
                     "instrument_type": "IQMixer"
                 }
                 # Add LO and IQ mixer to connectivity graph:
@@ -1291,16 +1295,16 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                     [
                         (
                             port_name,
-                            f"iq_mixer_{channel_cfg_value}.if",
+                            f"{mixer_name}.if",
                         ),
                         (
                             f"{channel_cfg_value}.output",
-                            f"iq_mixer_{channel_cfg_value}.lo",
+                            f"{mixer_name}.lo",
                         ),
                     ]
                 )
                 # Overwrite port_name to IQ mixer RF output:
-                port_name = f"iq_mixer_{channel_cfg_value}.rf"
+                port_name = f"{mixer_name}.rf"
                 if "frequency" in old_style_config[channel_cfg_value]:
                     # Set lo_freq for all port-clock combinations (external LO)
                     for port_clock in channel_port_clocks:
@@ -1479,7 +1483,11 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
 
             if channel_cfg_key == "lo_name":
                 # Add optical/iq mixer to the hardware_description
-                new_style_config["hardware_description"][f"{mixer_tag}_{channel_cfg_value}"] = {
+                mixer_name = f"{mixer_tag}_{channel_cfg_value}"
+                if mixer_name in new_style_config["hardware_description"]:
+                    # Channels that share an LO each have their own mixer.
+                    mixer_name += f"_{cluster_name}_module{module_slot_idx}_{channel_name}"
+                new_style_config["hardware_description"][mixer_name] = {
                     "instrument_type": channel_mixer
                 }
                 # Add LO and mixer to connectivity graph:
@@ -1487,16 +1495,16 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                     [
                         (
                             port_name,
-                            f"{mixer_tag}_{channel_cfg_value}.if",
+                            f"{mixer_name}.if",
                         ),
                         (
                             f"{channel_cfg_value}.output",
-                            f"{mixer_tag}_{channel_cfg_value}.lo",
+                            f"{mixer_name}.lo",
                         ),
                     ]
                 )
                 # Overwrite port_name to mixer output:
-                port_name = f"{mixer_tag}_{channel_cfg_value}.{mixer_output_tag}"
+                port_name = f"{mixer_name}.{mixer_output_tag}"
                 if "frequency" in old_style_config[channel_cfg_value]:
                     # Set lo_freq for all port-clock combinations (external LO)
                     for port_clock in channel_port_clocks:
-- 
2.43.0


From 9bd00923644863bc74245ce8b870b49d19311f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:56 +0000
Subject: [PATCH 48/50] fix: acquisition weights that do not fit in the weight
 memory are refused

---
 quantify_scheduler/backends/qblox/compiler_abc.py | 8 ++++++++
 quantify_scheduler/backends/qblox/constants.py    | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 8391b1c..10272c3 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -446,6 +446,14 @@ class SequencerCompiler(ABC):
         for op_strategy in self.op_strategies:
             if op_strategy.operation_info.is_acquisition:
                 op_strategy.generate_data(wf_dict)
+        total_size = sum(len(weight["data"]) for weight in wf_dict.values())
+        if total_size > constants.MAX_SAMPLE_SIZE_WEIGHTS:
+            raise RuntimeError(
+                f"Total acquisition weight size specified for port-clock {self.port}-"
+                f"{self.clock} is {total_size} samples, which exceeds the sample "
+                f"limit of {constants.MAX_SAMPLE_SIZE_WEIGHTS}. The compiled "
+                f"schedule cannot be uploaded to the sequencer.",
+            )
         return wf_dict
 
     def _validate_awg_dict(self, wf_dict: dict[str, Any]) -> None:
diff --git a/quantify_scheduler/backends/qblox/constants.py b/quantify_scheduler/backends/qblox/constants.py
index 50a6aed..be5c136 100644
--- a/quantify_scheduler/backends/qblox/constants.py
+++ b/quantify_scheduler/backends/qblox/constants.py
@@ -81,6 +81,8 @@ MAX_SAMPLE_SIZE_SCOPE_ACQUISITIONS: int = 16384
 """Maximal amount of scope trace acquisition datapoints returned."""
 MAX_SAMPLE_SIZE_WAVEFORMS: int = 16384
 """Maximal amount of samples in the waveforms to be uploaded to a sequencer."""
+MAX_SAMPLE_SIZE_WEIGHTS: int = 16384
+"""Maximum amount of samples for all acquisition weights of a sequencer."""
 MIN_PHASE_ROTATION_ACQ = 0
 """Minimum value of the sequencer integration result phase rotation in degrees."""
 MAX_PHASE_ROTATION_ACQ = 360
-- 
2.43.0


From 8152eaa99dd0ddb0c23afdafb739aa137cb65dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 49/50] fix: Qblox programs refuse loops with less than one
 repetition

---
 quantify_scheduler/backends/qblox/qasm_program.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index 07f6374..252ceba 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -615,6 +615,11 @@ class QASMProgram:
             qasm.instructions
 
         """
+        if repetitions < 1:
+            raise ValueError(
+                f"Loop with label {label} must have at least 1 repetition. Got {repetitions}."
+            )
+
         register = self.register_manager.allocate_register()
         comment = f"iterator for loop with label {label}"
 
-- 
2.43.0


From 03085b04c00d095840067ff91948edd036397a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:07 +0000
Subject: [PATCH 50/50] fix: acquisitions whose duration is not a whole number
 of ns are refused

---
 quantify_scheduler/backends/qblox/analog.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index de6a035..fa186e2 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -405,14 +405,8 @@ class AnalogSequencerCompiler(SequencerCompiler):
             if not isinstance(op_strat, (SquareAcquisitionStrategy, WeightedAcquisitionStrategy)):
                 continue
 
-            acq_duration_ns = round(op_strat.operation_info.duration * 1e9)
-            if acq_duration_ns % constants.GRID_TIME != 0:
-                raise ValueError(
-                    "Attempting to perform square acquisition with a duration of "
-                    f"{acq_duration_ns} ns. Please ensure the duration is a multiple "
-                    f"of {constants.GRID_TIME} ns.\n\nException caused by "
-                    f"{op_strat!r}."
-                )
+            # Raises an error if the duration is not a multiple of the grid time.
+            acq_duration_ns = helpers.to_grid_time(op_strat.operation_info.duration)
             if integration_length is None:
                 integration_length = acq_duration_ns
             elif integration_length != acq_duration_ns:
-- 
2.43.0


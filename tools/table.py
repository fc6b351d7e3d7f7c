NOT_APPLICABLE = {}

SRCH = "assurance is bounded by what the generator reaches in the run; the reference model written " \
       "in /verif and the dummy assembler are trusted"

add("P01", "Absolute timing satisfies every timing constraint",
    "For every schedule, nested or looped, the start time the compiler assigns to each operation is exactly the one its timing constraints prescribe: as-soon-as-possible takes the latest of an operation's constraints (default: start at the previous operation's end), as-late-as-possible ends at the next operation's start, start/center/end reference points and relative times are honoured, and nothing starts before zero. Durations of sub-schedules, repetitions, loops and conditionals, the timing table and the total duration follow from those times, however sub-schedules are nested, repeated or shared. Schedules whose constraints are circular or refer to something absent, or that have no operations, are rejected, and an operation label can be used only once.",
    ["programs", "inputs", "configurations"],
    "all trees of schedules, loops, conditionals, gates, pulses, measurements with any reference operation, reference points, relative times and extra constraints; both scheduling strategies",
    "tests check a handful of fixed chains; the number of combinations of reference points, nesting, sharing, strategies and negative times is unbounded",
    [Q + "compilation.py", Q + "schedules/schedule.py", Q + "operations/control_flow_library.py", Q + "operations/measurement_factories.py"],
    [("absolute timing", Q + "compilation.py:_determine_absolute_timing"), ("timing table", Q + "schedules/schedule.py:timing_table"), ("multiplexed measurement timing", Q + "backends/circuit_to_device.py:_compile_multiplexed")],
    ("property-based testing against a reference constraint solver", "random schedule trees compared start time by start time with an independent solver; " + SRCH))

add("P02", "Serialized objects come back equal and compile identically",
    "Any operation, schedule, resource, compilation configuration or compiled schedule that is serialized to JSON and read back, any number of times, and any operation or resource recreated from its printed form, is equal to the original, with every value of every parameter (complex, array, enumeration, empty or nested) intact. A deserialized schedule compiles to exactly the same hardware programs as the original.",
    ["inputs", "programs"],
    "all library operations over their parameter ranges, nested schedules, control flow, compiled schedules and configurations, repeated round trips",
    "tests round-trip a few instances with default-like values; loss shows only for particular value types or nestings",
    [Q + "json_utils.py", Q + "schedules/schedule.py", Q + "operations/operation.py", Q + "operations/pulse_library.py", Q + "operations/acquisition_library.py", Q + "operations/gate_library.py", Q + "resources.py", Q + "structure/types.py"],
    [("JSON encoder/decoder", Q + "json_utils.py:SchedulerJSONEncoder, SchedulerJSONDecoder"), ("schedule state", Q + "schedules/schedule.py:__getstate__"), ("operation printing", Q + "operations/operation.py:_get_signature")],
    ("property-based round-trip and differential testing", "random operations, schedules and configurations round-tripped and recompiled; " + SRCH))

add("P03", "Compilation is pure and deterministic",
    "Compiling leaves the given schedule, its operations and the compilation configuration exactly as they were (unless the user asked not to keep the original), so compiling the same schedule again, through the same or a new compiler, after compiling other schedules, or from a deep copy, yields the same compiled programs, settings and timing. The result does not depend on the hash seed, on which process compiles it, or on how many times it was compiled before; generated names that carry no meaning (labels, waveform names) aside.",
    ["programs", "histories", "configurations"],
    "all compilable schedules and configurations; histories of interleaved compilations",
    "tests compile each schedule once; hidden state or in-place mutation shows only in later compilations or shared objects",
    [Q + "backends/graph_compilation.py", Q + "compilation.py", Q + "backends/circuit_to_device.py", Q + "backends/qblox_backend.py", B + "compiler_abc.py"],
    [("copying of the input", Q + "backends/graph_compilation.py:SerialCompiler"), ("passes", Q + "backends/qblox_backend.py:hardware_compile")],
    ("property-based testing of compilation histories (metamorphic: recompile, copy, other process)", "random schedules and histories, structural comparison of inputs before/after and of outputs; " + SRCH))

add("P04", "Gates become exactly the pulses the device configuration prescribes",
    "For every gate or measurement on any element or edge, the device-level schedule contains exactly the pulses and acquisitions that the element's current parameters prescribe: rotation angle and phase, amplitudes, durations, ports, clocks, acquisition channel, index, protocol, bin mode, weights, rotation and threshold, and per-operation overrides which affect only that operation. Multi-qubit measurements and resets act on all named elements simultaneously; two-qubit gates use the edge between the qubits, symmetric ones in either order. Gates that the configuration does not define, or clocks without a frequency, are rejected.",
    ["programs", "configurations", "inputs"],
    "all gates, qubits, element kinds, parameter values, override combinations, nestings in loops/conditionals",
    "tests compile few gates with default parameters and rarely combine overrides, multiplexing and nesting",
    [Q + "backends/circuit_to_device.py", Q + "operations/pulse_factories.py", Q + "operations/measurement_factories.py", Q + "operations/composite_factories.py", Q + "device_under_test/transmon_element.py", Q + "device_under_test/spin_element.py", Q + "device_under_test/composite_square_edge.py", Q + "operations/gate_library.py"],
    [("gate to device", Q + "backends/circuit_to_device.py:compile_circuit_to_device_with_config_validation"), ("factories", Q + "operations/pulse_factories.py"), ("element config", Q + "device_under_test/transmon_element.py:generate_config")],
    ("property-based testing against a reference gate-to-pulse model", "random element parameters and circuits; every emitted pulse compared with the model; " + SRCH))

add("P05", "Gate algebra: unitaries, angle folding and virtual Z are exact",
    "The unitary attached to every gate is the mathematical one for its documented rotation, rotation angles differing by full turns denote the same gate (up to global phase), and named gates equal the rotations they abbreviate. Compiling a circuit with virtual Z rotations, including runs of consecutive ones that the compiler merges, in loops, sub-schedules and on several qubits, gives every drive pulse exactly the phase of the accumulated rotations before it, for each qubit independently.",
    ["programs", "inputs"],
    "all angles, all gate sequences on several qubits, with sub-schedules and loops",
    "tests check a few angles and one merge pattern; wrong phases need particular repeated or interleaved sequences",
    [Q + "operations/gate_library.py", Q + "compilation.py", Q + "operations/pulse_factories.py"],
    [("rotation merging", Q + "compilation.py:_merge_rz_gates"), ("unitaries", Q + "operations/gate_library.py"), ("phase shift", Q + "operations/pulse_factories.py:phase_shift")],
    ("property-based testing against matrix algebra and a phase-tracking model", "random angles and circuits; " + SRCH))

add("P06", "Compiled Qblox programs play the scheduled waveforms at the scheduled times",
    "For every schedule that compiles for Qblox hardware, executing the generated sequencer programs produces on every output path, at every nanosecond, the sum of the scheduled pulse envelopes and voltage offsets at their absolute times, with the amplitude, complex phase, output channel (real, imaginary, complex) and scaling the operations and hardware description specify, and silence elsewhere. Nothing scheduled is dropped, duplicated, shifted or reordered.",
    ["programs", "inputs", "configurations"],
    "all pulse types and parameters, timing, port-clock assignments, module types and channel modes",
    "tests compare a few programs with stored text; they do not execute the program, so equivalences and rare combinations are never checked",
    [Q + "backends/qblox_backend.py", B + "compiler_abc.py", B + "analog.py", B + "qasm_program.py", B + "operation_handling/pulses.py", B + "operation_handling/virtual.py", B + "operation_handling/factory_analog.py", B + "helpers.py"],
    [("program generation", B + "compiler_abc.py:generate_qasm_program"), ("pulse strategies", B + "operation_handling/pulses.py"), ("instruction emission", B + "qasm_program.py")],
    ("property-based testing: emulated sequencer output vs. reference waveform model", "programs are executed by a sequencer emulator written for this work and compared sample by sample; " + SRCH + "; the emulator follows the documented Q1ASM semantics"))

add("P07", "Clock phase and frequency follow the schedule",
    "On every output and acquisition path, the carrier used at any time has the frequency of its clock as last set by the schedule (minus the local oscillator), its phase advances by exactly the scheduled phase shifts, and clock-phase resets take effect at their scheduled time. Phase and frequency changes affect only their own clock, accumulate through loops, sub-schedules and repetitions as scheduled, and unattainable frequencies or change timings are rejected rather than approximated.",
    ["programs", "inputs", "configurations"],
    "all sequences of pulses, phase shifts, frequency changes, resets, with loops; all intermediate/LO frequency settings",
    "tests compare emitted numbers for single operations; accumulation and ordering effects need sequences",
    [B + "operation_handling/virtual.py", B + "analog.py", B + "helpers.py", B + "qasm_program.py"],
    [("NCO strategies", B + "operation_handling/virtual.py"), ("IF/LO assignment", B + "helpers.py:determine_clock_lo_interm_freqs")],
    ("property-based testing: emulated oscillator vs. reference carrier model", "random sequences; " + SRCH))

add("P08", "Loops and repetitions run exactly as written on every sequencer",
    "Executing a compiled program yields the same output as the schedule with every loop and repetition written out, iteration by iteration, for all nestings, and an operation that is not part of a loop is never repeated by it. Every participating sequencer starts synchronised, takes exactly the same time for one repetition, namely the schedule's total duration plus the same fixed overhead, runs the requested number of repetitions, starts each one from the same reset phase, and stops.",
    ["programs", "inputs"],
    "all loop nestings, bodies, counts, repetitions, idle gaps, sequencers present",
    "tests check that loop instructions appear; drift between sequencers or iterations shows only when the program is executed",
    [B + "compiler_abc.py", B + "qasm_program.py", B + "operation_handling/virtual.py", B + "register_manager.py", Q + "backends/qblox_backend.py"],
    [("loops", B + "compiler_abc.py:_insert_qasm"), ("registers", B + "register_manager.py")],
    ("property-based testing: emulated run vs. unrolled reference, metamorphic loop unrolling", "random nestings; " + SRCH))

add("P09", "Every acquisition happens at its time and lands in its own bin",
    "Executing the compiled program triggers each scheduled acquisition exactly once per occurrence, at its scheduled time, with the scheduled protocol, integration length, weights, rotation and threshold settings, and stores it in a bin of the acquisition declared for its channel such that no two results that must be kept apart share a bin and results that must be averaged do. The compiled schedule's description of channels, indices, bins, repetitions and coordinates matches what the program does.",
    ["programs", "inputs", "configurations"],
    "all acquisition protocols, bin modes, channels, explicit or automatic indices, coordinates, loops, repetitions",
    "tests cover single acquisitions per protocol; bin collisions need combinations of channels, loops and repetitions",
    [Q + "helpers/generate_acq_channels_data.py", B + "qblox_acq_index_manager.py", B + "operation_handling/acquisitions.py", B + "analog.py", B + "qasm_program.py"],
    [("acquisition data generation", Q + "helpers/generate_acq_channels_data.py"), ("bin allocation", B + "qblox_acq_index_manager.py"), ("acquire strategies", B + "operation_handling/acquisitions.py")],
    ("property-based testing: emulated acquisition events vs. reference allocation rules", "random acquisition schedules; " + SRCH))

add("P10", "Retrieved results carry the right values, labels and units",
    "For every compiled schedule and every content of the hardware bins, the retrieved dataset has for each acquisition channel exactly the values of its acquisitions, converted as documented for its protocol (integration normalisation, weighted, thresholded, trace, trigger count), averaged or kept per repetition as requested, in the order of their acquisition indices, with the declared coordinates and dimension names. Results of different channels, repetitions or modules are never mixed, and invalid measurements become missing values.",
    ["programs", "inputs", "histories"],
    "all acquisition schedules and arbitrary bin contents returned by the instruments",
    "tests use one schedule per protocol with constant data, so permutations and mix-ups are invisible",
    [Q + "instrument_coordinator/components/qblox.py", Q + "instrument_coordinator/instrument_coordinator.py", Q + "helpers/generate_acq_channels_data.py"],
    [("retrieval", Q + "instrument_coordinator/components/qblox.py:_AcquisitionManagerBase.retrieve_acquisition"), ("merging", Q + "instrument_coordinator/instrument_coordinator.py:retrieve_acquisition")],
    ("property-based testing: random bin contents through dummy instruments vs. reference conversion", "random schedules and data; " + SRCH))

add("P11", "Conditional playback plays if and only if its trigger fired, at constant timing",
    "A conditional body is executed by the hardware exactly when the referenced measurement's trigger condition holds, and whichever way the condition falls, and for every combination of conditions in the program, everything outside it plays at its scheduled time. Trigger addresses are consistent between the measuring and the conditioned sequencers and distinct for distinct labels, the feedback latency is respected, and conditionals that hardware cannot honour are rejected at compile time.",
    ["programs", "inputs"],
    "all conditional bodies, qubits, positions, gaps, loops; both outcomes of every condition",
    "tests compare stored program text for a few bodies; the not-taken branch's duration depends on the exact instruction mix",
    [B + "conditional.py", B + "operation_handling/virtual.py", B + "qasm_program.py", Q + "backends/qblox_backend.py"],
    [("conditional strategies", B + "operation_handling/virtual.py:ConditionalStrategy"), ("address assignment", Q + "backends/qblox_backend.py:compile_conditional_playback"), ("else branch", B + "qasm_program.py:conditional")],
    ("property-based testing: emulated execution under every outcome vs. reference", "random bodies and outcomes; " + SRCH))

add("P12", "Waveform-rewriting passes preserve the played waveform",
    "Replacing long pulses by offsets, stitching pulses together, stacking simultaneous pulses, and converting pulses to sampled ones never changes the waveform the schedule describes: at every time the compiled output on each port and clock is the sum of all pulses and offsets scheduled there, also for operations with several pulses, in nested schedules and in loop bodies, and no other operation (phase shifts, acquisitions) is lost or moved. A pulse made of voltage offsets that overlaps another pulse on the same port and clock is rejected.",
    ["programs", "inputs"],
    "all sets of pulses, overlaps, durations around the thresholds, nested schedules",
    "tests check a few shapes; overlap patterns are combinatorial",
    [B + "stack_pulses.py", B + "operations/stitched_pulse.py", B + "operations/pulse_library.py", B + "operations/pulse_factories.py", Q + "backends/qblox_backend.py", Q + "helpers/waveforms.py"],
    [("stacking", B + "stack_pulses.py:stack_pulses"), ("long pulses", Q + "backends/qblox_backend.py:compile_long_square_pulses_to_awg_offsets"), ("stitching", B + "operations/stitched_pulse.py:StitchedPulseBuilder")],
    ("property-based metamorphic testing of sampled waveforms before/after", "random pulse sets sampled by a reference sampler; " + SRCH))

add("P13", "Crosstalk compensation makes the delivered signal the scheduled one",
    "With a crosstalk matrix configured, passing the compiled outputs through that matrix gives on every port exactly the scheduled signal: each pulse on a coupled port appears on every coupled port scaled by the inverse matrix element, and ports outside the matrix are untouched. This holds for any number of pulses, repeated or shared operations, nesting and any invertible matrix.",
    ["programs", "configurations"],
    "all matrices, port sets, pulse sequences with repeated operations and nesting",
    "tests use one schedule with one pulse per port",
    [B + "crosstalk_compensation.py"],
    [("compensation", B + "crosstalk_compensation.py:crosstalk_compensation")],
    ("property-based testing: inverse relation between output and target signals", "random matrices and schedules; " + SRCH))

add("P14", "RF outputs are on whenever a drive pulse plays and off otherwise",
    "With automatic switching configured, the RF switch of a drive port is on from the configured ramp time before each drive pulse or offset window until the configured time after it, off otherwise except for gaps too short to switch, never before time zero, and ports without the option are untouched. User operations keep their timing and content.",
    ["programs", "configurations"],
    "all pulse trains, gaps around the merge threshold, offsets, nesting, ports, buffers",
    "tests sample a few gap values and one nesting level",
    [B + "auto_rf_switch.py"],
    [("window insertion", B + "auto_rf_switch.py:auto_rf_switch_dressing")],
    ("property-based testing against a reference interval model", "random pulse trains; " + SRCH))

add("P15", "Pulse compensation cancels the net area of every compensated port",
    "For every compensated block, the integral over the block of the pulses on each compensated baseband port is zero after compilation: each port gets exactly one extra square pulse, after its last pulse, on the configured time grid, with amplitude within the configured maximum, and nothing else in the block changes. Nested blocks, loops, sub-schedules and repetitions are accounted for, and content whose area is not known in advance is rejected.",
    ["programs", "inputs"],
    "all bodies with any pulse kinds, nesting, loops, ports, maximum amplitudes, grids and sampling rates",
    "tests use a few bodies; sign, grid and loop arithmetic vary with each body",
    [Q + "pulse_compensation.py", Q + "operations/pulse_compensation_library.py"],
    [("compensation", Q + "pulse_compensation.py:process_compensation_pulses")],
    ("property-based testing of a conservation invariant", "random bodies integrated by a reference sampler; " + SRCH))

add("P16", "Latency and distortion corrections shift and shape exactly as configured",
    "Configured latency corrections delay each port-clock by its value relative to the smallest one in use and change nothing else, so relative timing between ports changes by exactly the configured difference. Configured software distortion corrections replace each affected waveform by its filtered and clipped version with identical timing and leave every other port untouched, and hardware filters and digital attenuations reach exactly the configured channel.",
    ["programs", "configurations"],
    "all latency dictionaries (positive, negative, missing entries), filters, ports, clipping limits",
    "tests use fixed corrections; interplay of minimum, unspecified ports and unused ports is unexplored",
    [Q + "backends/corrections.py", Q + "backends/qblox_backend.py", B + "compiler_abc.py", B + "analog.py"],
    [("latencies", Q + "backends/corrections.py:determine_relative_latency_corrections"), ("distortion", Q + "backends/corrections.py:apply_software_distortion_corrections")],
    ("property-based differential testing with/without corrections", "random corrections; " + SRCH))

add("P17", "Digital outputs switch exactly when scheduled",
    "For every marker or digital output pulse in a schedule, executing the compiled program drives the named digital channel high exactly from its start to its end, with the configured polarity and fine delay, and leaves all other digital channels, default marker settings and RF switches in their configured state throughout.",
    ["programs", "configurations"],
    "all trains of digital pulses on several channels and modules, interleaved with analog pulses and loops",
    "tests check single marker pulses",
    [B + "operation_handling/virtual.py", B + "operation_handling/pulses.py", B + "analog.py", B + "timetag.py", B + "qasm_program.py"],
    [("digital output strategies", B + "operation_handling/pulses.py:MarkerPulseStrategy, DigitalPulseStrategy"), ("marker override", B + "qasm_program.py:set_marker")],
    ("property-based testing: emulated marker traces vs. reference", "random digital pulse trains; " + SRCH))

add("P18", "Compilation either respects the hardware's limits or refuses",
    "Whatever the schedule, the compiler emits programs that the instrument's own assembler accepts and whose every immediate value, register, waveform, weight, acquisition, bin, gain, offset, phase and frequency is within the instrument's limits and on its time grid, and it does so for every schedule that fits within those limits. Schedules that need more than that (acquisitions too close together, too much waveform or weight memory, too many bins, instructions, sequencers, registers, repetitions or triggers, times off the grid, out-of-range amplitude, offset, frequency or attenuation) are refused with an error, or at the latest by the range checks of the instrument before anything runs; they are never truncated, wrapped or clipped.",
    ["programs", "inputs", "configurations"],
    "all schedules around and beyond each resource limit",
    "tests check a few limits by example; most limits are never approached",
    [B + "qasm_program.py", B + "constants.py", B + "compiler_abc.py", B + "register_manager.py", B + "qblox_acq_index_manager.py", B + "helpers.py", Q + "backends/types/qblox.py"],
    [("instruction limits", B + "qasm_program.py"), ("bins", B + "qblox_acq_index_manager.py"), ("waveform memory", B + "compiler_abc.py")],
    ("fuzzing around limits; dummy assembler and static program checker as oracles", "boundary-biased generation; " + SRCH))

add("P19", "Device and hardware descriptions keep their meaning through storage",
    "Every device description with any parameter values, saved and loaded again, and every hardware or compilation configuration written to JSON and validated again, is equal to the original and compiles every schedule identically; old-style hardware configurations compile to the same programs as their converted form. Adding and removing elements and edges keeps the description consistent and duplicates are refused, and inconsistent configurations are refused with an error.",
    ["configurations", "histories"],
    "all element and edge kinds, parameter values, add/remove histories, hardware configurations",
    "tests store one fixed device and compare files",
    [Q + "device_under_test/quantum_device.py", Q + "device_under_test/device_element.py", Q + "device_under_test/edge.py", Q + "backends/types/common.py", Q + "backends/types/qblox.py", B + "helpers.py", Q + "json_utils.py"],
    [("device storage", Q + "device_under_test/quantum_device.py:to_json, from_json"), ("configuration validation", Q + "backends/types/common.py")],
    ("stateful property-based testing with round trips", "random devices and histories; " + SRCH))

add("P20", "Instrument settings realise the configured signal chain",
    "For every hardware description and schedule, the compiled module and sequencer settings make local oscillator plus intermediate frequency equal the clock frequency on each port, whether either one is given, mixing is disabled or an external oscillator is used, and carry exactly the configured gains, attenuations, mixer corrections, channel connections, filters and acquisition thresholds to the right output, with safe defaults for everything not configured. Contradictory requirements of ports that share a resource are rejected.",
    ["configurations", "programs"],
    "all combinations of module kinds, channel modes, modulation and hardware options, clocks",
    "tests use fixed configurations; sharing conflicts and partially specified frequencies are combinatorial",
    [B + "analog.py", B + "helpers.py", B + "compiler_container.py", B + "instrument_compilers.py", Q + "backends/types/qblox.py", Q + "backends/qblox_backend.py"],
    [("frequency assignment", B + "analog.py:assign_frequencies"), ("gains and attenuations", B + "analog.py"), ("connectivity", Q + "backends/qblox_backend.py")],
    ("property-based testing against a reference settings model", "random configurations; " + SRCH))

add("P21", "Preparing instruments depends only on the current schedule",
    "After preparing a compiled schedule, every sequencer it uses is programmed and configured exactly as the compiled schedule says, and every other sequencer takes no part in the run, no matter which schedules were prepared, started or stopped before or which calls failed. Starting, stopping, waiting and retrieving reach exactly the instruments that take part in the current schedule.",
    ["histories", "programs"],
    "all histories of preparing, running and retrieving different schedules on the same coordinator",
    "tests prepare one schedule on fresh instruments",
    [Q + "instrument_coordinator/components/qblox.py", Q + "instrument_coordinator/instrument_coordinator.py", Q + "instrument_coordinator/utility.py"],
    [("prepare", Q + "instrument_coordinator/components/qblox.py:ClusterComponent.prepare"), ("coordination", Q + "instrument_coordinator/instrument_coordinator.py")],
    ("stateful property-based testing: any history vs. fresh instruments", "random histories on dummy instruments; " + SRCH))

add("P22", "Sampled waveforms are the documented functions",
    "Every pulse shape, sampled at any rate and duration, equals its documented mathematical function at every sample (amplitude, phase, skew, DRAG derivative, chirp, interpolation), has exactly duration times sampling-rate samples, is linear in its amplitude and finite everywhere. Shared numerical helpers for rounding to the time grid, resampling and normalising keep these values.",
    ["inputs"],
    "all shapes, parameters, durations and sampling rates",
    "tests compare a few arrays at default parameters",
    [Q + "waveforms.py", Q + "helpers/waveforms.py", Q + "operations/pulse_library.py", B + "helpers.py"],
    [("shapes", Q + "waveforms.py"), ("sampling", Q + "helpers/waveforms.py:get_waveform")],
    ("property-based testing against independent formulas and metamorphic relations", "random parameters; " + SRCH))

add("P23", "Gettables return each setpoint's data for the requested settings",
    "A measurement wrapper asked for data compiles and runs the schedule its generator produces for the current parameter values, and returns for every acquisition channel the values in setpoint order with the requested representation (real and imaginary or magnitude and phase), batched or one at a time with identical results, and reports a mismatch between returned and expected data instead of shifting it. Repeated calls with changed parameters reflect the change.",
    ["histories", "inputs"],
    "all setpoint lists, batch flags, representations, multi-channel data, parameter histories",
    "tests use constant results so that reordering or stale data are invisible",
    [Q + "gettables.py", Q + "schedules/spectroscopy_schedules.py"],
    [("gettable", Q + "gettables.py:ScheduleGettable")],
    ("property-based testing with a stub coordinator returning labelled data", "random setpoints, histories and data; " + SRCH))

add("P24", "Standard experiment schedules realise their textbook sequence",
    "For every parameter choice, the ready-made experiment schedules contain, per setpoint and in setpoint order, the textbook gate or pulse sequence: the preparation, exactly the requested delay, amplitude, phase or frequency, then the measurement, with one acquisition index per setpoint and the requested repetitions. Setpoints do not influence each other.",
    ["inputs", "programs"],
    "all schedule functions, setpoint arrays, qubit lists, optional arguments",
    "tests check one parameter set each, mostly at one index",
    [Q + "schedules/timedomain_schedules.py", Q + "schedules/spectroscopy_schedules.py", Q + "schedules/trace_schedules.py", Q + "schedules/verification.py"],
    [("time-domain experiments", Q + "schedules/timedomain_schedules.py"), ("spectroscopy", Q + "schedules/spectroscopy_schedules.py")],
    ("property-based testing of compiled event lists against textbook sequences", "random parameters; " + SRCH))

add("P25", "Identity of operations is their content",
    "Two operations or schedules with the same content are equal and have the same hash however they were built, and changing any parameter value makes them differ; a schedule therefore plays each added operation with its own parameters, and operations with different parameters never replace one another. Constructors keep every given parameter and reject invalid ones.",
    ["inputs", "programs"],
    "all pairs of operations of the library, over their parameters, including arrays, complex values and nested schedules",
    "tests compare a few operations; a collision needs a particular pair of values",
    [Q + "operations/operation.py", Q + "helpers/collections.py", Q + "schedules/schedule.py", Q + "operations/pulse_library.py", Q + "operations/acquisition_library.py", Q + "operations/gate_library.py", Q + "resources.py"],
    [("hashing", Q + "helpers/collections.py:make_hash"), ("equality", Q + "operations/operation.py:__eq__"), ("adding", Q + "schedules/schedule.py:Schedule.add")],
    ("property-based testing over pairs of operations (single-parameter mutations)", "random operations and mutations; " + SRCH))

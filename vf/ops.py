"""Descriptions of every operation of the library (one strategy per constructor parameter).

Each parameter has a strategy of JSON-able values, and a place in the operation's data where
the value has to appear (used to check that constructors keep what they are given).
"""
from __future__ import annotations

import math

from hypothesis import strategies as st

REQ = "required"
OPT = "optional"


def num(*specials, lo=-1.0, hi=1.0):
    return st.one_of(st.sampled_from(list(specials)) if specials else st.just(0.5),
                     st.floats(lo, hi, allow_nan=False, allow_infinity=False)
                     .map(lambda x: 0.0 if x == 0 else x))


AMP = num(0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 1, -1, 1 / 3)
CAMP = st.one_of(AMP, st.tuples(AMP, AMP).map(lambda t: {"__c": list(t)}))
DUR = st.one_of(st.sampled_from([4e-9, 2e-8, 1e-7, 1e-6, 2.5e-5, 1.0, 100e-9]),
                st.integers(1, 10**6).map(lambda n: n * 1e-9))
T0 = st.one_of(st.sampled_from([0, 0.0, 4e-9, 1e-6, -4e-9]),
               st.integers(0, 10**4).map(lambda n: n * 1e-9))
DEG = num(0, 0.0, 90, -1, -2, 1, 2, 180, -180, 45.5, 360, 720.0, 1 / 3, -2.0, -1.0, lo=-720, hi=720)
ZERO = st.sampled_from([0, 0.0])
FREQ = num(5e9, 4.7e9, 1e8, 50.0, 0.0, -1.0, -2.0, 5e9 + 1, lo=-1e9, hi=1e10)
NAMES = st.sampled_from(["q0", "q1", "q2", "Q", "qubit_17"])
PORT = st.one_of(st.sampled_from(["q0:mw", "q0:fl", "q1:res", "q0:in", "port with spaces",
                                  "p'quote", 'p"dq', "back\\slash"]),
                 st.text("abqz0159:_.", min_size=1, max_size=6))
CLOCK = st.one_of(st.sampled_from(["cl0.baseband", "q0.01", "q1.ro", "q0.12", "digital"]),
                  st.text("clq0159.", min_size=1, max_size=6))
REFMAG = st.one_of(st.none(), st.tuples(num(1.0, -1, -2, -1.0, -2.0, 0.5, lo=-40, hi=40), st.sampled_from(["V", "dBm", "A"]))
                   .map(lambda t: {"__r": list(t)}))
SIGMA = st.one_of(st.none(), num(5e-9, 1e-8, lo=1e-9, hi=1e-6))
CHANNEL = st.one_of(st.integers(-2, 5), st.sampled_from(["ch", "q0", "a b", "1"]))
VALUE = st.one_of(num(0, 1, -1, -2, 2, 0.1, lo=-5, hi=5), st.sampled_from(["x", ""]),
                  st.booleans(), st.tuples(AMP, AMP).map(lambda t: {"__c": list(t)}))
COORDS = st.one_of(st.none(), st.dictionaries(st.sampled_from(["amp", "freq", "tau", "a b"]),
                                              VALUE, max_size=3))
INDEX = st.one_of(st.none(), st.integers(0, 5))


def enum(cls, *values):
    return st.sampled_from([{"__e": [cls, v]} for v in values])


def either(cls, *values):
    """An enumeration member, or its string."""
    return st.one_of(enum(cls, *values), st.sampled_from(list(values)))


BIN = enum("BinMode", "average", "append", "sum", "first")
BINS = either("BinMode", "average", "append", "sum", "first")
COND = enum("TriggerCondition", "less_than", "greater_than_equal_to")
LABEL = st.one_of(st.none(), st.sampled_from(["q0", "lab", "it's"]))
FINE = st.one_of(st.sampled_from([0, 0.0]), st.integers(0, 100).map(lambda n: n / 128 * 1e-9))


def samples(kind, n):
    return st.lists(kind, min_size=n, max_size=n)


def values(kind, n):
    """n samples; long lists repeat a few of them."""
    if n <= 12:
        return samples(kind, n)
    return samples(kind, 5).map(lambda v: (v * (n // 5 + 1))[:n])


LENGTH = st.sampled_from([4] * 6 + [12, 12, 1100])


def elements(v):
    return v["__a"] if isinstance(v, dict) and set(v) == {"__a"} else v


@st.composite
def rearranged(draw, v):
    """The same list with its elements in another order, or one of them another."""
    x = list(elements(v))
    i, j = draw(st.integers(0, len(x) - 1)), draw(st.integers(0, len(x) - 1))
    what = draw(st.sampled_from(["swap", "swap", "reverse", "change"]))
    if what == "swap":
        x[i], x[j] = x[j], x[i]
    elif what == "reverse":
        x = x[::-1]
    else:
        x[i] = draw(AMP)
    return {"__a": x} if isinstance(v, dict) else x


ARRAYS = st.integers(2, 6).flatmap(lambda n: st.tuples(
    st.one_of(samples(AMP, n), samples(CAMP, n)), st.just([i * 1e-9 for i in range(n)]),
    st.booleans()))


class P:
    def __init__(self, strategy, where=None, required=False, name=None):
        self.strategy, self.where, self.required, self.name = strategy, where, required, name


def _pulse(**k):
    return {n: P(s, ("pulse_info", 0, n), r == REQ) for n, (s, r) in k.items()}


def _acq(**k):
    return {n: P(s, ("acquisition_info", 0, n), r == REQ) for n, (s, r) in k.items()}


R = lambda s: (s, REQ)  # noqa: E731
O = lambda s: (s, OPT)  # noqa: E731,E741

OVER = {"amp180": AMP, "duration": DUR, "motzoi": AMP, "acq_duration": DUR,
        "reset_duration": DUR, "opts": st.lists(VALUE, max_size=3),
        "nested": st.dictionaries(st.sampled_from(["a", "b"]), VALUE, max_size=2)}


def _gate(*qs, over=("amp180", "duration", "motzoi", "opts", "nested"), **k):
    d = {q: P(NAMES, None, True) for q in qs}
    d.update(k)
    for o in over:
        d[o] = P(OVER[o], ("gate_info", "device_overrides", o))
    return d


_acq_common = dict(acq_channel=O(CHANNEL), coords=O(COORDS), acq_index=O(INDEX), t0=O(T0))

SPEC = {
    "ShiftClockPhase": _pulse(phase_shift=R(DEG), clock=R(CLOCK), t0=O(T0)),
    "ResetClockPhase": _pulse(clock=R(CLOCK), t0=O(T0)),
    "SetClockFrequency": _pulse(clock=R(CLOCK), clock_freq_new=R(st.one_of(st.none(), FREQ)),
                                t0=O(T0)),
    "VoltageOffset": _pulse(offset_path_I=R(AMP), offset_path_Q=R(AMP), port=R(PORT),
                            clock=O(CLOCK), t0=O(T0), reference_magnitude=O(REFMAG)),
    "IdlePulse": _pulse(duration=R(DUR)),
    "RampPulse": _pulse(amp=R(AMP), duration=R(DUR), port=R(PORT), clock=O(CLOCK),
                        reference_magnitude=O(REFMAG), offset=O(AMP), t0=O(T0)),
    "StaircasePulse": _pulse(start_amp=R(AMP), final_amp=R(AMP), num_steps=R(st.integers(2, 9)),
                             duration=R(DUR), port=R(PORT), clock=O(CLOCK),
                             reference_magnitude=O(REFMAG), t0=O(T0)),
    "MarkerPulse": _pulse(duration=R(DUR), port=R(PORT), t0=O(T0), clock=O(CLOCK),
                          fine_start_delay=O(FINE), fine_end_delay=O(FINE)),
    "SquarePulse": _pulse(amp=R(CAMP), duration=R(DUR), port=R(PORT), clock=O(CLOCK),
                          reference_magnitude=O(REFMAG), t0=O(T0)),
    "SoftSquarePulse": _pulse(amp=R(AMP), duration=R(DUR), port=R(PORT), clock=O(CLOCK),
                              reference_magnitude=O(REFMAG), t0=O(T0)),
    "SuddenNetZeroPulse": _pulse(amp_A=R(AMP), amp_B=R(AMP), net_zero_A_scale=R(AMP),
                                 t_pulse=R(DUR), t_phi=R(DUR), t_integral_correction=R(DUR),
                                 port=R(PORT), clock=O(CLOCK), reference_magnitude=O(REFMAG),
                                 t0=O(T0)),
    "ChirpPulse": _pulse(amp=R(AMP), duration=R(DUR), port=R(PORT), clock=R(CLOCK),
                         start_freq=R(FREQ), end_freq=R(FREQ), reference_magnitude=O(REFMAG),
                         t0=O(T0)),
    "DRAGPulse": _pulse(G_amp=R(AMP), D_amp=R(AMP), phase=R(DEG), duration=R(DUR), port=R(PORT),
                        clock=R(CLOCK), reference_magnitude=O(REFMAG), sigma=O(SIGMA), t0=O(T0)),
    "GaussPulse": _pulse(G_amp=R(AMP), phase=R(DEG), duration=R(DUR), port=R(PORT),
                         clock=O(CLOCK), reference_magnitude=O(REFMAG), sigma=O(SIGMA), t0=O(T0)),
    "SkewedHermitePulse": _pulse(duration=R(DUR), amplitude=R(AMP), skewness=R(AMP),
                                 phase=R(DEG), port=R(PORT), clock=R(CLOCK),
                                 reference_magnitude=O(REFMAG), t0=O(T0)),
    "WindowOperation": _pulse(window_name=R(PORT), duration=R(DUR), t0=O(T0)),
    "NumericalPulse": _pulse(samples=R(None), t_samples=R(None), port=R(PORT), clock=O(CLOCK),
                             reference_magnitude=O(REFMAG), t0=O(T0),
                             interpolation=O(st.sampled_from(["linear", "cubic", "nearest"]))),
    "SimpleNumericalPulse": _pulse(samples=R(None), port=R(PORT), clock=O(CLOCK),
                                   reference_magnitude=O(REFMAG), t0=O(T0)),
    "Timestamp": _pulse(port=R(PORT), t0=O(T0), clock=O(CLOCK)),
    "LatchReset": {"portclock": P(st.tuples(PORT, CLOCK).map(lambda t: {"__t": list(t)}), None, True),
                   **_pulse(t0=O(T0), duration=O(DUR))},
    "RFSwitchToggle": _pulse(duration=R(DUR), port=R(PORT), clock=R(CLOCK)),
    "InlineQ1ASM": {"program": P(st.sampled_from(["wait 4\n", "nop", "loop: jmp @loop",
                                                  "set_mrk 1\nwait 100"]), None, True),
                    "duration": P(DUR, None, True), "port": P(PORT, None, True),
                    "clock": P(CLOCK, None, True), "safe_labels": P(st.booleans()),
                    "waveforms": P(st.dictionaries(st.sampled_from(["w0", "w1"]), st.lists(
                        AMP, min_size=1, max_size=3).map(lambda d: {"data": d, "index": 0}),
                        max_size=2))},
    "Trace": _acq(duration=R(DUR), port=R(PORT), clock=R(CLOCK), bin_mode=O(BINS), **_acq_common),
    "SSBIntegrationComplex": _acq(port=R(PORT), clock=R(CLOCK), duration=R(DUR), bin_mode=O(BINS),
                                  phase=O(ZERO), **_acq_common),
    "ThresholdedAcquisition": {
        **_acq(port=R(PORT), clock=R(CLOCK), duration=R(DUR), bin_mode=O(BINS),
               feedback_trigger_label=O(LABEL), phase=O(ZERO), **_acq_common),
        "acq_rotation": P(DEG, ("acquisition_info", 0, "acq_rotation")),
        "acq_threshold": P(AMP, ("acquisition_info", 0, "acq_threshold"))},
    "TriggerCount": _acq(port=R(PORT), clock=R(CLOCK), duration=R(DUR),
                         bin_mode=O(either("BinMode", "append", "sum", "distribution")),
                         fine_start_delay=O(FINE), fine_end_delay=O(FINE), **_acq_common),
    "TimetagTrace": _acq(duration=R(DUR), port=R(PORT), clock=O(CLOCK), bin_mode=O(BIN),
                         time_ref=O(either("TimeRef", "start", "end", "first", "timestamp")),
                         time_ref_port=O(st.one_of(st.none(), PORT)),
                         fine_start_delay=O(FINE), fine_end_delay=O(FINE), **_acq_common),
    "Timetag": _acq(duration=R(DUR), port=R(PORT), clock=O(CLOCK), bin_mode=O(BIN),
                    time_source=O(either("TimeSource", "first", "second", "last")),
                    time_ref=O(either("TimeRef", "start", "end", "first", "timestamp")),
                    time_ref_port=O(st.one_of(st.none(), PORT)),
                    fine_start_delay=O(FINE), fine_end_delay=O(FINE), **_acq_common),
    "ThresholdedTriggerCount": {
        **_acq(port=R(PORT), clock=R(CLOCK), duration=R(DUR), bin_mode=O(enum("BinMode", "append")),
               feedback_trigger_label=O(LABEL), **_acq_common),
        "threshold": P(st.integers(0, 100), ("acquisition_info", 0, "thresholded_trigger_count",
                                             "threshold"), True),
        "feedback_trigger_condition": P(COND, ("acquisition_info", 0,
                                               "thresholded_trigger_count", "condition"))},
    "DualThresholdedTriggerCount": {
        **_acq(port=R(PORT), clock=R(CLOCK), duration=R(DUR), bin_mode=O(enum("BinMode", "append")),
               **_acq_common),
        **{"threshold_" + w: P(st.integers(0, 100), ("acquisition_info", 0,
                                                     "thresholded_trigger_count",
                                                     "threshold_" + w), True)
           for w in ("low", "high")},
        **{"label_" + w: P(LABEL, ("acquisition_info", 0, "feedback_trigger_labels", w))
           for w in ("low", "mid", "high", "invalid")}},
    "WeightedIntegratedSeparated": {
        **_acq(port=R(PORT), clock=R(CLOCK), duration=R(DUR), bin_mode=O(BINS), phase=O(ZERO),
               **_acq_common),
        "waveform_a": P(None, ("acquisition_info", 0, "waveforms", 0), True),
        "waveform_b": P(None, ("acquisition_info", 0, "waveforms", 1), True)},
}
for _n in ("NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration",
           "WeightedThresholdedAcquisition"):
    SPEC[_n] = {
        **_acq(port=R(PORT), clock=R(CLOCK), bin_mode=O(BINS), phase=O(ZERO), **_acq_common),
        "weights_a": P(None, ("acquisition_info", 0, "waveforms", 0, "samples"), True),
        "weights_b": P(None, ("acquisition_info", 0, "waveforms", 1, "samples"), True),
        "weights_sampling_rate": P(st.sampled_from([1e9, 1e8, 2.4e9, 5e8]), None),
        "interpolation": P(st.sampled_from(["linear", "cubic"]),
                           ("acquisition_info", 0, "waveforms", 0, "interpolation"))}
SPEC["WeightedThresholdedAcquisition"].update(_acq(
    feedback_trigger_label=O(LABEL), acq_threshold=O(AMP)))
for _n in ("X", "X90", "Y", "Y90", "Z", "Z90", "S", "SDagger", "T", "TDagger"):
    SPEC[_n] = _gate("qubit")
SPEC["Rxy"] = _gate("qubit", theta=P(DEG, None, True), phi=P(DEG, None, True))
SPEC["Rz"] = _gate("qubit", theta=P(DEG, None, True))
SPEC["CNOT"] = _gate("qC", "qT")
SPEC["CZ"] = _gate("qC", "qT")
SPEC["H"] = _gate("*")
SPEC["Reset"] = _gate("*", over=("reset_duration",))
SPEC["Measure"] = _gate(
    "*", over=("acq_duration", "opts"),
    acq_channel=P(st.one_of(st.none(), CHANNEL), ("gate_info", "acq_channel_override")),
    coords=P(COORDS, ("gate_info", "coords")),
    acq_index=P(INDEX, None),
    acq_protocol=P(st.sampled_from([None, "SSBIntegrationComplex", "Trace", "TriggerCount",
                                    "Timetag", "ThresholdedAcquisition",
                                    "NumericalWeightedIntegration"]),
                   ("gate_info", "acq_protocol")),
    bin_mode=P(st.one_of(st.none(), BIN), ("gate_info", "bin_mode")),
    feedback_trigger_label=P(LABEL, ("gate_info", "feedback_trigger_label")),
    apply_acquisition_delay=P(st.booleans(), ("gate_info", "apply_acquisition_delay")))
SPEC["SpectroscopyOperation"] = _gate("qubit", over=("amp180", "opts"))
SPEC["ChargeReset"] = _gate("*", over=())
SPEC["CRCount"] = _gate(
    "*", over=(),
    acq_channel=P(st.one_of(st.none(), CHANNEL), ("gate_info", "acq_channel_override")),
    coords=P(COORDS, ("gate_info", "coords")),
    acq_index=P(INDEX, None),
    acq_protocol=P(st.sampled_from([None, "Trace", "TriggerCount"]),
                   ("gate_info", "acq_protocol")),
    bin_mode=P(st.one_of(st.none(), BIN), ("gate_info", "bin_mode")))
SPEC["SpinInit"] = _gate("qC", "qT", over=("amp180", "opts"))

CLASSES = sorted(SPEC)


def strategy_of(cls, p, n=4):
    s = SPEC[cls][p].strategy
    if s is not None:
        if p == "*":
            return st.lists(NAMES, min_size=1, max_size=3, unique=True)
        return s
    if p == "samples":
        return st.one_of(values(AMP, n), values(CAMP, n),
                         values(AMP, n).map(lambda a: {"__a": a}))
    if p == "t_samples":
        if n != 4:
            return st.sampled_from([1e-9, 4e-9]).map(lambda d: [i * d for i in range(n)])
        return st.sampled_from([[0, 1e-9, 2e-9, 3e-9], [0.0, 4e-9, 8e-9, 9e-9]])
    if p.startswith("weights"):
        return st.one_of(values(AMP, n), values(CAMP, n), values(CAMP, n)).map(
            lambda a: {"__a": a})
    if p.startswith("waveform_"):
        return st.fixed_dictionaries({"port": PORT, "clock": CLOCK, "t0": st.just(0),
                                      "duration": DUR, "amp": CAMP, "wf_func": st.sampled_from(
                                          ["quantify_scheduler.waveforms.square",
                                           "quantify_scheduler.waveforms.ramp"])})
    raise KeyError((cls, p))


@st.composite
def operation(draw, classes=None, extras=3):
    cls = draw(st.sampled_from(classes or CLASSES))
    spec = SPEC[cls]
    names = [n for n, p in spec.items() if p.required]
    optional = [n for n, p in spec.items() if not p.required]
    if optional:
        names += draw(st.lists(st.sampled_from(optional), max_size=extras, unique=True))
    size = draw(LENGTH)
    k = {n: draw(strategy_of(cls, n, size)) for n in names}
    if cls in ("CNOT", "CZ", "SpinInit") and k["qC"] == k["qT"]:
        k["qT"] = k["qC"] + "x"
    if cls == "TimetagTrace" or cls == "Timetag":
        k.setdefault("time_ref_port", "q9:in") if "time_ref" in k else None
    return {"t": "op", "c": cls, "k": k}


@st.composite
def mutated(draw, desc):
    """Change one parameter of the description; returns (parameter, new description)."""
    cls = desc["c"]
    p = draw(st.sampled_from(sorted(SPEC[cls])))
    k = dict(desc["k"])
    lists = [len(elements(v)) for v in k.values() if isinstance(elements(v), list)]
    arrays = [q for q in k if SPEC[cls][q].strategy is None and isinstance(elements(k[q]), list)]
    if arrays and draw(st.booleans()):
        p = draw(st.sampled_from(arrays))
        k[p] = draw(rearranged(k[p]))
    else:
        k[p] = draw(strategy_of(cls, p, *lists[:1]))
    return p, {"t": "op", "c": cls, "k": k}


def finite(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x)


def _array(x):
    import numpy as np

    return isinstance(x, np.ndarray)


def deep(a, b, path="", ignore=()):
    """None if the two data structures hold the same values, else where they differ.

    Lists, tuples and arrays of the same values are alike; numbers are compared exactly;
    numbers, strings, enumeration members, classes, None are told apart.
    """
    import dataclasses
    from collections import UserDict
    from enum import Enum

    import numpy as np

    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if _array(a) or _array(b):
        if _array(a) != _array(b):
            return f"{path}: {type(a).__name__} became {type(b).__name__}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} became {b.shape}"
        if a.dtype.kind != b.dtype.kind:
            return f"{path}: dtype {a.dtype} became {b.dtype}"
        return None if np.array_equal(a, b) else f"{path}: {a!r} became {b!r}"
    if isinstance(a, Enum) or isinstance(b, Enum):
        if "loose" in ignore and a == b:
            return None
        return None if a is b else f"{path}: {a!r} became {b!r}"
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        if "loose" in ignore and a is not None and b is not None and a == b:
            return None
        return None if a is b else f"{path}: {a!r} became {b!r}"
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if a == b or (a != a and b != b):
            return None
        return f"{path}: {a!r} became {b!r}"
    if isinstance(a, (str, type)) or isinstance(b, (str, type)):
        return None if type(a) is type(b) and a == b else f"{path}: {a!r} became {b!r}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if r := deep(x, y, f"{path}[{i}]", ignore):
                return r
        return None
    if isinstance(a, set) and isinstance(b, set):
        return None if a == b else f"{path}: {a!r} became {b!r}"
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} became {type(b).__name__}"
    if isinstance(a, (dict, UserDict)):
        extra = {k: v for k, v in vars(a).items() if k != "data"} if isinstance(a, UserDict) else {}
        extrb = {k: v for k, v in vars(b).items() if k != "data"} if isinstance(b, UserDict) else {}
        da, db = (a.data, b.data) if isinstance(a, UserDict) else (a, b)
        if "loose" in ignore:
            da = {_unenum(k): v for k, v in da.items()}
            db = {_unenum(k): v for k, v in db.items()}
        ka = [k for k in da if k not in ignore]
        kb = [k for k in db if k not in ignore]
        if set(map(_key, ka)) != set(map(_key, kb)):
            gone = [k for k in ka if _key(k) not in set(map(_key, kb))]
            new = [k for k in kb if _key(k) not in set(map(_key, ka))]
            return f"{path}: keys lost {gone!r}, keys new {new!r}"
        for k in ka:
            if r := deep(da[k], db[k], f"{path}[{k!r}]", ignore):
                return r
        if extra or extrb:
            return deep(extra, extrb, path + ".", ignore + ("_hardware_timing_table",
                                                            "_hardware_waveform_dict",
                                                            "_class_signature"))
        return None
    if dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            if r := deep(getattr(a, f.name), getattr(b, f.name), f"{path}.{f.name}", ignore):
                return r
        return None
    if hasattr(a, "__dict__"):
        return deep(vars(a), vars(b), path + ".", ignore)
    return None if a == b else f"{path}: {a!r} became {b!r}"


def _key(k):
    return (type(k).__name__, k)


def _unenum(k):
    from enum import Enum

    return k.value if isinstance(k, Enum) else k


def unlabelled(x):
    """The same data with schedulables named by their position (labels may be random)."""
    from collections import UserDict

    if isinstance(x, UserDict) and "schedulables" in x.data and "operation_dict" in x.data:
        pos = {k: i for i, k in enumerate(x.data["schedulables"])}
        out = {k: unlabelled(v) for k, v in x.data.items()
               if k not in ("schedulables", "operation_dict")}
        keys = {}
        for s in x.data["schedulables"].values():
            keys.setdefault(s.data["operation_id"], len(keys))
        for k in x.data["operation_dict"]:
            keys.setdefault(k, len(keys))
        out["operations"] = {keys[k]: unlabelled(v) for k, v in x.data["operation_dict"].items()}
        out["schedulables"] = [
            {"op": keys[s.data["operation_id"]],
             "rest": {k: v for k, v in s.data.items()
                      if k not in ("name", "operation_id", "timing_constraints", "label")},
             "tc": [{k: (pos.get(v, v) if k == "ref_schedulable" else v)
                     for k, v in dict(c.__dict__ if hasattr(c, "__dict__") else c).items()}
                    for c in s.data.get("timing_constraints", ())]}
            for s in x.data["schedulables"].values()]
        return out
    if isinstance(x, UserDict):
        return unlabelled(x.data)
    if isinstance(x, dict):
        return {k: unlabelled(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [unlabelled(v) for v in x]
    return x

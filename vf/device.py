"""Quantum device with every element kind, and the reference gate-to-pulse model.

A case carries `params`: {element or edge: {"sub.param": value}}; everything else has BASE
values.  `expand` turns a gate-level description into a tree of leaves
{"t":"op","c":"@dev","items":[(t, "p"|"a", info)],"dur":s,"delay":s}.
"""
from __future__ import annotations

import enum

import numpy as np

from . import build, core

TRANSMON = {
    "reset.duration": 200e-6, "rxy.amp180": 0.2, "rxy.motzoi": 0.05, "rxy.duration": 20e-9,
    "rxy.reference_magnitude": None,
    "measure.pulse_type": "SquarePulse", "measure.pulse_amp": 0.25,
    "measure.pulse_duration": 300e-9, "measure.acq_channel": 0, "measure.acq_delay": 100e-9,
    "measure.integration_time": 1e-6, "measure.reset_clock_phase": True,
    "measure.acq_weights_a": {"__a": [0.5, 0.25]}, "measure.acq_weights_b": {"__a": [0.1, -0.2]},
    "measure.acq_weights_sampling_rate": 1e9, "measure.acq_rotation": 0.0,
    "measure.acq_threshold": 0.0, "measure.num_points": 3, "measure.reference_magnitude": None,
    "clock_freqs.f01": 5e9, "clock_freqs.f12": 4.8e9, "clock_freqs.readout": 7e9,
}
SPIN = {k: v for k, v in TRANSMON.items() if k not in (
    "rxy.motzoi", "clock_freqs.f01", "clock_freqs.f12")} | {
    "clock_freqs.f_larmor": 8e9, "measure.gate_pulse_amp": 0.1}
SENSOR = {k: v for k, v in SPIN.items() if k.startswith("measure.")} | {
    "clock_freqs.readout": 6.5e9}
NV = {
    "spectroscopy_operation.amplitude": 0.3, "spectroscopy_operation.duration": 8e-6,
    "spectroscopy_operation.pulse_shape": "SquarePulse",
    "reset.amplitude": 0.2, "reset.duration": 50e-6,
    "charge_reset.amplitude": 0.4, "charge_reset.duration": 20e-6,
    "measure.pulse_amplitude": 0.6, "measure.pulse_duration": 20e-6,
    "measure.acq_duration": 50e-6, "measure.acq_delay": 0.0, "measure.acq_channel": 0,
    "cr_count.readout_pulse_amplitude": 0.11, "cr_count.spinpump_pulse_amplitude": 0.22,
    "cr_count.readout_pulse_duration": 10e-6, "cr_count.spinpump_pulse_duration": 12e-6,
    "cr_count.acq_duration": 11e-6, "cr_count.acq_delay": 0.0, "cr_count.acq_channel": 0,
    "rxy.amp180": 0.5, "rxy.skewness": 0.1, "rxy.duration": 40e-9,
    "rxy.pulse_shape": "SkewedHermitePulse",
    "clock_freqs.f01": 3.592e9, "clock_freqs.spec": 2.2e9, "clock_freqs.ge0": 470.4e12,
    "clock_freqs.ge1": 470.39e12, "clock_freqs.ionization": 564e12,
}
KIND = {"q0": "transmon", "q1": "transmon", "q2": "transmon", "s0": "spin", "s1": "spin",
        "c0": "sensor", "n0": "nv"}
BASE = {"transmon": TRANSMON, "spin": SPIN, "sensor": SENSOR, "nv": NV}
EDGES = {"q0_q1": ("q0", "q1"), "q2_q1": ("q2", "q1"), "s0_s1": ("s0", "s1")}
# operations the elements' own configuration does not offer, added to the generated one
CNOTS = ("q0_q1", "s0_s1")
INIT = dict(square_duration=100e-9, ramp_diff=-40e-9, parent_port="s0:gt",
            parent_clock="cl0.baseband", parent_square_amp=0.5, parent_ramp_amp=0.25,
            parent_ramp_rate=0.25 / 60e-9, child_port="s1:gt", child_clock="cl0.baseband",
            child_square_amp=0.4, child_ramp_amp=0.3, child_ramp_rate=0.3 / 80e-9)
CLOCKS = {"transmon": {"01": "f01", "12": "f12", "ro": "readout"},
          "spin": {"f_larmor": "f_larmor", "ro": "readout"}, "sensor": {"ro": "readout"},
          "nv": {"f01": "f01", "spec": "spec", "ge0": "ge0", "ge1": "ge1",
                 "ionization": "ionization"}}

_dev = None


def device():
    global _dev
    if _dev is None:
        from quantify_scheduler import (
            BasicElectronicNVElement,
            BasicTransmonElement,
            QuantumDevice,
        )
        from quantify_scheduler.device_under_test.composite_square_edge import (
            CompositeSquareEdge,
        )
        from quantify_scheduler.device_under_test.spin_edge import SpinEdge
        from quantify_scheduler.device_under_test.spin_element import (
            BasicSpinElement,
            ChargeSensor,
        )

        cls = {"transmon": BasicTransmonElement, "spin": BasicSpinElement,
               "sensor": ChargeSensor, "nv": BasicElectronicNVElement}
        d = QuantumDevice("vdev")
        els = {}
        for n, k in KIND.items():
            els[n] = cls[k](n)
            d.add_element(els[n])
        edges = {}
        for n, (a, b) in EDGES.items():
            edges[n] = (SpinEdge if a in ("s0",) else CompositeSquareEdge)(a, b)
            d.add_edge(edges[n])
        _dev = d, els, edges
        core.KEEP.update({d.name, *els, *edges})
    return _dev


def edge_base(n):
    a, b = EDGES[n]
    return {"cz.square_amp": 0.5, "cz.square_duration": 20e-9, f"cz.{a}_phase_correction": 0.0,
            f"cz.{b}_phase_correction": 0.0}


def full(params):
    """All parameter values of a case."""
    out = {n: dict(BASE[k]) for n, k in KIND.items()}
    out["@init"] = dict(INIT)
    out |= {n: edge_base(n) for n in EDGES}
    for n, ps in params.items():
        out[n].update(ps)
    return out


def _set(obj, path, v):
    for p in path.split(".")[:-1]:
        obj = obj.submodules[p]
    last = path.split(".")[-1]
    if last == "reference_magnitude":
        sub = obj.submodules["reference_magnitude"]
        for u in ("dBm", "V", "A"):
            sub.parameters["reference_magnitude_" + u](float("nan"))
        if v is not None:
            sub.parameters["reference_magnitude_" + v[1]](v[0])
    else:
        obj.parameters[last](build.val(v))


_last = {}


def apply(params):
    d, els, edges = device()
    for n, ps in full(params).items():
        if n == "@init":
            continue
        obj = els.get(n) or edges[n]
        for k, v in ps.items():
            key = (n, k)
            if key in _last and repr(_last[key]) == repr(v):
                continue
            _set(obj, k, v)
            _last[key] = v
    return d


def config(params, strategy="asap", extra=True):
    from quantify_scheduler.backends.graph_compilation import OperationCompilationConfig
    from quantify_scheduler.operations import composite_factories, pulse_factories

    d = apply(params)
    d.scheduling_strategy(strategy)
    cfg = d.generate_compilation_config()
    if extra:
        dc = cfg.device_compilation_config
        for e in CNOTS:
            a, b = EDGES[e]
            dc.edges[e]["CNOT"] = OperationCompilationConfig(
                factory_func=composite_factories.cnot_as_h_cz_h,
                factory_kwargs={"control_qubit": a, "target_qubit": b})
        dc.edges["s0_s1"]["SpinInit"] = OperationCompilationConfig(
            factory_func=pulse_factories.spin_init_pulse, factory_kwargs=full(params)["@init"])
    return cfg


def frequencies(P):
    out = {}
    for n, k in KIND.items():
        for c, p in CLOCKS[k].items():
            out[f"{n}.{c}"] = P[n][f"clock_freqs.{p}"]
    return out


# ------------------------------------------------------------------- reference model
def leaf(items, dur, delay=0.0):
    return {"t": "op", "c": "@dev", "k": {}, "items": items, "dur": dur, "delay": delay}


def _ref(v):
    from quantify_scheduler.operations.pulse_library import ReferenceMagnitude

    return None if v is None else ReferenceMagnitude(value=v[0], unit=v[1])


def _mk(name, **kw):
    from quantify_scheduler.operations import acquisition_library, pulse_library

    op = getattr(pulse_library, name, None) or getattr(acquisition_library, name)
    o = op(**kw)
    return ([(i["t0"], "p", i) for i in o["pulse_info"]]
            + [(i["t0"], "a", i) for i in o["acquisition_info"]])


def fold(theta):
    return -((-theta - 180) % 360) + 180


NAMED = {"X": ("Rxy", 180, 0), "X90": ("Rxy", 90, 0), "Y": ("Rxy", 180, 90),
         "Y90": ("Rxy", 90, 90), "Z": ("Rz", 180), "Z90": ("Rz", 90), "S": ("Rz", 90),
         "SDagger": ("Rz", -90), "T": ("Rz", 45), "TDagger": ("Rz", -45)}

CONSTRUCTOR = {"acq_channel", "coords", "acq_index", "acq_protocol", "bin_mode",
               "feedback_trigger_label", "apply_acquisition_delay"}


def gate(op):
    """(kind, elements, arguments, overrides) of a gate description."""
    c, k = op["c"], dict(op["k"])
    if c in NAMED:
        q = k.pop("qubit")
        n = NAMED[c]
        return n[0], [q], n[1:], k
    if c == "Rxy":
        q = k.pop("qubit")
        return "Rxy", [q], (k.pop("theta"), k.pop("phi")), k
    if c == "Rz":
        q = k.pop("qubit")
        return "Rz", [q], (k.pop("theta"),), k
    if c in ("CZ", "CNOT"):
        a, b = k.pop("qC"), k.pop("qT")
        return c, [a, b], (), k
    if c in ("H", "Reset"):
        return c, k.pop("*"), (), k
    if c == "Measure" or c == "CRCount":
        qs = k.pop("*")
        args = {x: k.pop(x) for x in CONSTRUCTOR if x in k}
        return c, qs, args, k
    if c in ("ChargeReset", "SpectroscopyOperation", "SpinInit"):
        qs = k.pop("*")
        return c, qs, (), k
    return None


def use(kw, ov):
    return {k: (build.val(ov[k]) if k in ov else v) for k, v in kw.items()}


def rxy(P, q, theta, phi, ov):
    p, kind = P[q], KIND[q]
    theta, phi = round(fold(float(theta)), 8), round(float(phi) % 360, 8)
    clk = {"transmon": "01", "spin": "f_larmor", "nv": "spec"}[kind]
    kw = use({"amp180": p["rxy.amp180"], "port": f"{q}:mw", "clock": f"{q}.{clk}",
              "duration": p["rxy.duration"], "theta": theta, "phi": phi}, ov)
    ref = {} if kind == "nv" else {"reference_magnitude": _ref(p["rxy.reference_magnitude"])}
    g = kw["amp180"] * kw["theta"] / 180
    common = dict(phase=kw["phi"], port=kw["port"], clock=kw["clock"], duration=kw["duration"],
                  **ref)
    if kind == "transmon":
        it = _mk("DRAGPulse", G_amp=g, D_amp=use({"m": p["rxy.motzoi"]}, {
            "m": ov["motzoi"]} if "motzoi" in ov else {})["m"], **common)
    elif kind == "spin" or ov.get("pulse_shape", p["rxy.pulse_shape"]) == "GaussPulse":
        it = _mk("GaussPulse", G_amp=g, **common)
    else:
        it = _mk("SkewedHermitePulse", amplitude=g,
                 skewness=ov.get("skewness", p["rxy.skewness"]), **common)
    return leaf(it, kw["duration"])


def edge_of(a, b, symmetric):
    if f"{a}_{b}" in EDGES:
        return f"{a}_{b}"
    if symmetric and f"{b}_{a}" in EDGES:
        return f"{b}_{a}"
    return None


def cz(P, e, ov):
    a, b = EDGES[e]
    p = P[e]
    spin = KIND[a] == "spin"
    clk = "f_larmor" if spin else "01"
    kw = use({"square_amp": p["cz.square_amp"], "square_duration": p["cz.square_duration"],
              "virt_z_parent_qubit_phase": p[f"cz.{a}_phase_correction"],
              "virt_z_child_qubit_phase": p[f"cz.{b}_phase_correction"],
              "square_port": f"{e}:gt" if spin else f"{a}:fl"}, ov)
    it = _mk("SquarePulse", amp=kw["square_amp"], duration=kw["square_duration"],
             port=kw["square_port"], clock="cl0.baseband")
    it += _mk("ShiftClockPhase", phase_shift=kw["virt_z_parent_qubit_phase"], clock=f"{a}.{clk}")
    it += _mk("ShiftClockPhase", phase_shift=kw["virt_z_child_qubit_phase"], clock=f"{b}.{clk}")
    return leaf(it, kw["square_duration"])


WEIGHTED = ("NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration",
            "WeightedThresholdedAcquisition")


def _acq_index(args, i, n):
    x = args.get("acq_index")
    if isinstance(x, list):
        return x[i]
    return x


def dispersive(P, q, i, n, args, ov):
    p = P[q]
    kw = use({"pulse_amp": p["measure.pulse_amp"], "pulse_duration": p["measure.pulse_duration"],
              "acq_delay": p["measure.acq_delay"], "acq_duration": p["measure.integration_time"],
              "reset_clock_phase": p["measure.reset_clock_phase"],
              "acq_rotation": p["measure.acq_rotation"],
              "acq_threshold": p["measure.acq_threshold"],
              "gate_pulse_amp": p.get("measure.gate_pulse_amp"),
              "num_points": p["measure.num_points"], "freq": None, "port": f"{q}:res",
              "acq_weights_sampling_rate": p["measure.acq_weights_sampling_rate"],
              "acq_weights_a": build.val(p["measure.acq_weights_a"]),
              "acq_weights_b": build.val(p["measure.acq_weights_b"])}, ov)
    clock = f"{q}.ro"
    ref = _ref(p["measure.reference_magnitude"])
    proto = args.get("acq_protocol") or "SSBIntegrationComplex"
    mode = args.get("bin_mode") or "average"
    ch = args.get("acq_channel")
    ch = p["measure.acq_channel"] if ch is None else ch
    from quantify_scheduler.enums import BinMode

    a = dict(port=kw["port"], clock=clock, acq_channel=ch, coords=args.get("coords"),
             acq_index=_acq_index(args, i, n), t0=kw["acq_delay"])
    if proto != "Trace":
        a["bin_mode"] = BinMode(mode.get("__b") if isinstance(mode, dict) else mode)
    gate_port = KIND[q] in ("spin", "sensor")
    items = []
    if proto == "LongTimeTrace":
        N, d = kw["num_points"], kw["acq_duration"]
        items += _mk("VoltageOffset", offset_path_I=kw["pulse_amp"], offset_path_Q=0.0,
                     port=kw["port"], clock=clock)
        if gate_port:
            items += _mk("SquarePulse", amp=kw["gate_pulse_amp"], duration=N * d,
                         port=f"{q}:gt", clock="cl0.baseband")
        a["t0"] = 0
        for j in range(N):
            t = kw["acq_delay"] + j * d
            items += [(t, k, x) for _, k, x in _mk("ResetClockPhase", clock=clock)]
            items += [(t, k, x) for _, k, x in _mk("SSBIntegrationComplex", duration=d, **a)]
        end = kw["acq_delay"] + N * d
        items += [(end, k, x) for _, k, x in _mk(
            "VoltageOffset", offset_path_I=0, offset_path_Q=0, port=kw["port"], clock=clock)]
        dur = end + 4e-9
    else:
        if kw["reset_clock_phase"]:
            items += _mk("ResetClockPhase", clock=clock)
        items += _mk("SquarePulse", amp=kw["pulse_amp"], duration=kw["pulse_duration"],
                     port=kw["port"], clock=clock, reference_magnitude=ref)
        if gate_port:
            items += _mk("SquarePulse", amp=kw["gate_pulse_amp"], duration=kw["pulse_duration"],
                         port=f"{q}:gt", clock="cl0.baseband", reference_magnitude=ref)
        d = kw["acq_duration"]
        if proto in WEIGHTED:
            a |= dict(weights_a=kw["acq_weights_a"], weights_b=kw["acq_weights_b"],
                      weights_sampling_rate=kw["acq_weights_sampling_rate"])
            d = len(kw["acq_weights_a"]) / kw["acq_weights_sampling_rate"]
        else:
            a["duration"] = d
        if proto in ("ThresholdedAcquisition", "WeightedThresholdedAcquisition"):
            a |= dict(acq_threshold=kw["acq_threshold"],
                      feedback_trigger_label=args.get("feedback_trigger_label"))
            if proto == "ThresholdedAcquisition":
                a["acq_rotation"] = kw["acq_rotation"]
        items += _mk(proto, **a)
        dur = max(kw["pulse_duration"], kw["acq_delay"] + d)
    if kw["freq"] is not None:
        items += _mk("SetClockFrequency", clock=clock, clock_freq_new=kw["freq"])
        items += [(dur, k, x) for _, k, x in _mk("SetClockFrequency", clock=clock,
                                                 clock_freq_new=None)]
    skip = args.get("apply_acquisition_delay", True) is False
    return leaf(items, dur, -kw["acq_delay"] if skip else 0.0)


def optical(P, q, i, n, args, ov, sub):
    p = P[q]
    if sub == "measure":
        d = {"pulse_amplitudes": [p["measure.pulse_amplitude"]],
             "pulse_durations": [p["measure.pulse_duration"]]}
        clocks = ["ge0"]
    else:
        d = {"pulse_amplitudes": [p["cr_count.readout_pulse_amplitude"],
                                  p["cr_count.spinpump_pulse_amplitude"]],
             "pulse_durations": [p["cr_count.readout_pulse_duration"],
                                 p["cr_count.spinpump_pulse_duration"]]}
        clocks = ["ge0", "ge1"]
    kw = use(d | {"acq_duration": p[f"{sub}.acq_duration"], "acq_delay": p[f"{sub}.acq_delay"]},
             ov)
    tp, ta = max(0, -kw["acq_delay"]), max(0, kw["acq_delay"])
    items, dur = [], 0.0
    for a, t, c in zip(kw["pulse_amplitudes"], kw["pulse_durations"], clocks):
        items += _mk("SquarePulse", amp=a, duration=t, port=f"{q}:optical_control",
                     clock=f"{q}.{c}", t0=tp)
        dur = max(dur, tp + t)
    from quantify_scheduler.enums import BinMode

    proto = args.get("acq_protocol") or "TriggerCount"
    mode = args.get("bin_mode") or "append"
    ch = args.get("acq_channel")
    items += _mk(proto, port=f"{q}:optical_readout", clock=f"{q}.ge0",
                 duration=kw["acq_duration"], t0=ta,
                 acq_channel=p[f"{sub}.acq_channel"] if ch is None else ch,
                 coords=args.get("coords"), acq_index=_acq_index(args, i, n),
                 bin_mode=BinMode(mode.get("__b") if isinstance(mode, dict) else mode))
    return leaf(items, max(dur, ta + kw["acq_duration"]))


def merge(leaves):
    ds = [x["delay"] for x in leaves if x["delay"]]
    return leaf([i for x in leaves for i in x["items"]], max(x["dur"] for x in leaves),
                min(ds) if ds else 0.0)


def one(P, kind, q, i, n, args, ov):
    k = KIND[q]
    if kind == "Reset":
        if k == "nv":
            kw = use({"duration": P[q]["reset.duration"], "amp": P[q]["reset.amplitude"]}, ov)
            return leaf(_mk("SquarePulse", port=f"{q}:optical_control", clock=f"{q}.ge1", **kw),
                        kw["duration"])
        return leaf([], ov.get("duration", P[q].get("reset.duration")))
    if kind == "ChargeReset":
        kw = use({"duration": P[q]["charge_reset.duration"],
                  "amp": P[q]["charge_reset.amplitude"]}, ov)
        return leaf(_mk("SquarePulse", port=f"{q}:optical_control", clock=f"{q}.ionization",
                        **kw), kw["duration"])
    if kind == "SpectroscopyOperation":
        s = "spectroscopy_operation."
        kw = use({"duration": P[q][s + "duration"], "amplitude": P[q][s + "amplitude"],
                  "pulse_shape": P[q][s + "pulse_shape"]}, ov)
        common = dict(port=f"{q}:mw", clock=f"{q}.spec", duration=kw["duration"])
        if kw["pulse_shape"] == "SquarePulse":
            it = _mk("SquarePulse", amp=kw["amplitude"], **common)
        elif kw["pulse_shape"] == "GaussPulse":
            it = _mk("GaussPulse", G_amp=kw["amplitude"], phase=0, **common)
        else:
            it = _mk("SkewedHermitePulse", amplitude=kw["amplitude"], skewness=0, phase=0,
                     **common)
        return leaf(it, kw["duration"])
    if kind == "Measure":
        return optical(P, q, i, n, args, ov, "measure") if k == "nv" \
            else dispersive(P, q, i, n, args, ov)
    if kind == "CRCount":
        return optical(P, q, i, n, args, ov, "cr_count")
    raise KeyError(kind)


def spin_init(d):
    it = _mk("SquarePulse", amp=d["parent_square_amp"], duration=d["square_duration"],
             port=d["parent_port"], clock=d["parent_clock"])
    it += _mk("SquarePulse", amp=d["child_square_amp"], duration=d["square_duration"],
              port=d["child_port"], clock=d["child_clock"])
    # a negative difference means that the child's ramp starts that much before the parent's
    tp = d["square_duration"] + max(0.0, -d["ramp_diff"])
    tc = tp + d["ramp_diff"]
    dp = d["parent_ramp_amp"] / d["parent_ramp_rate"]
    dc = d["child_ramp_amp"] / d["child_ramp_rate"]
    it += [(tp, k, x) for _, k, x in _mk("RampPulse", amp=d["parent_ramp_amp"], duration=dp,
                                         port=d["parent_port"], clock=d["parent_clock"])]
    it += [(tc, k, x) for _, k, x in _mk("RampPulse", amp=d["child_ramp_amp"], duration=dc,
                                         port=d["child_port"], clock=d["child_clock"])]
    return leaf(it, max(tp + dp, tc + dc))


def sub(*ops):
    return {"t": "sched", "name": "composite", "ops": [{"op": o} for o in ops]}


def expand(op, P, ov=None):
    """Gate-level description -> device-level description."""
    ov = ov or {}
    t = op["t"]
    if t == "sched":
        return {**op, "ops": [{**it, "op": expand(it["op"], P, ov)} for it in op["ops"]]}
    if t in ("loop", "cond"):
        return {**op, "body": expand(op["body"], P, ov)}
    g = gate(op)
    if g is None:  # a pulse
        o = build.make(op)
        return leaf([(i["t0"], "p", i) for i in o["pulse_info"]]
                    + [(i["t0"], "a", i) for i in o["acquisition_info"]], o.duration)
    kind, qs, args, own = g
    ov = {**own, **ov}
    if kind == "Rxy":
        return rxy(P, qs[0], *args, ov)
    if kind == "Rz":
        q = qs[0]
        clk = "f_larmor" if KIND[q] == "spin" else "01"
        return leaf(_mk("ShiftClockPhase", phase_shift=fold(float(args[0])),
                        clock=f"{q}.{clk}"), 0.0)
    if kind == "H":
        out = [sub(expand({"t": "op", "c": "Z", "k": {"qubit": q}}, P, ov),
                   expand({"t": "op", "c": "Y90", "k": {"qubit": q}}, P, ov)) for q in qs]
        if len(out) == 1:
            return out[0]
        return {"t": "sched", "name": "H", "ops": [
            {"op": o, "pt": "start", "ptn": "start"} for o in out]}
    if kind == "CZ":
        return cz(P, edge_of(*qs, True), ov)
    if kind == "CNOT":
        h = {"t": "op", "c": "H", "k": {"*": [qs[1]]}}
        return sub(expand(h, P, ov), cz(P, edge_of(*qs, True), ov), expand(h, P, ov))
    if kind == "SpinInit":
        return spin_init(P["@init"])
    return merge([one(P, kind, q, i, len(qs), args, ov) for i, q in enumerate(qs)])


def leaf_duration(op):
    return op["dur"]


def delay_of(op):
    return op.get("delay", 0.0)


def reference(desc, P, strategy="asap"):
    """[(time, order, kind, info)] of the whole description, loops unrolled; total duration."""
    tree = expand(desc, P)
    out = []

    def dur(op):
        t = op["t"]
        if t == "op":
            return op["dur"]
        if t == "loop":
            return op["n"] * dur(op["body"])
        if t == "cond":
            return dur(op["body"]) + op.get("buf", 0.0)
        return build.solve(op, dur, strategy, delay_of)[1]

    def walk(op, t0):
        t = op["t"]
        if t == "op":
            for s, kind, info in op["items"]:
                out.append((t0 + s, kind, info))
        elif t == "loop":
            d = dur(op["body"])
            for i in range(op["n"]):
                walk(op["body"], t0 + i * d)
        elif t == "cond":
            walk(op["body"], t0)
        else:
            ts, _ = build.solve(op, dur, strategy, delay_of)
            for s, it in zip(ts, op["ops"]):
                walk(it["op"], t0 + s)

    walk(tree, 0.0)
    return out, dur(tree)


def flatten(schedule, t0=0.0):
    """[(time, kind, info)] of a compiled device-level schedule, loops unrolled."""
    from quantify_scheduler.operations.control_flow_library import (
        ControlFlowOperation,
        LoopOperation,
    )
    from quantify_scheduler.schedules.schedule import ScheduleBase

    out = []

    def walk(op, t):
        if isinstance(op, ScheduleBase):
            for s in op.schedulables.values():
                walk(op.operations[s["operation_id"]], t + s["abs_time"])
        elif isinstance(op, LoopOperation):
            d = op.body.duration
            for i in range(op.data["control_flow_info"]["repetitions"]):
                walk(op.body, t + i * d)
        elif isinstance(op, ControlFlowOperation):
            walk(op.body, t)
        else:
            for info in op["pulse_info"]:
                out.append((t + info["t0"], "p", info))
            for info in op["acquisition_info"]:
                out.append((t + info["t0"], "a", info))

    walk(schedule, t0)
    return out


def silent(info):
    """An idle time: no content of its own."""
    return info.get("wf_func") is None and info.get("port") is None and not any(
        info.get(k) is not None for k in ("phase_shift", "clock_freq_new", "clock_freq_old",
                                          "reset_clock_phase", "marker_pulse")) and \
        "clock_freq_new" not in info


def plain(v):
    """Comparable form of an info value."""
    if isinstance(v, enum.Enum):
        return str(v.value)
    if isinstance(v, np.ndarray):
        return ["array", [plain(x) for x in v.tolist()]]
    if isinstance(v, (list, tuple)):
        return ["list", [plain(x) for x in v]]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (complex, np.complexfloating)):
        v = complex(v)
        return v.real if v.imag == 0 else ["c", v.real, v.imag]
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    if hasattr(v, "value") and hasattr(v, "unit"):
        return ["mag", float(v.value), str(v.unit)]
    if hasattr(v, "value"):
        return str(v.value)
    return repr(v)


def same(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a != a and b != b)
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    return a == b


def compile_device(case, strategy="asap"):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    s = build.make_schedule(case["sched"], case.get("clocks", ()))
    cfg = config(case.get("params", {}), strategy)
    return SerialCompiler("p").compile(schedule=s, config=cfg), s, cfg

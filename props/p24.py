"""P24: the ready-made experiment schedules are the textbook sequences."""
from __future__ import annotations

import math
import warnings

import numpy as np
from hypothesis import strategies as st

from props import p04
from vf import device as D
from vf import full, gen
from vf import qblox as Q
from vf.core import Discard, Sub, expect, impossible_gap, ok, sut

ASSUMPTIONS = (
    "Every experiment is written down a second time as a list of operations with absolute times, "
    "from its description; gates are translated by the reference model of P04.  CPMG starts its "
    "first waiting time 4 ns after the start of the first pulse, as documented in the code.")


class Seq:
    """Operations at absolute times; the cursor is at the end of the operation added last."""

    def __init__(self, P):
        self.P, self.items, self.t, self.start = P, [], 0.0, 0.0

    def dur(self, o):
        return D.expand(o, self.P)["dur"]

    def at(self, t, o):
        self.items.append((t, o))
        self.start, self.t = t, t + self.dur(o)

    def add(self, o):
        self.at(self.t, o)

    def desc(self):
        idle = gen.op("IdlePulse", duration=0.0)
        return {"t": "sched", "name": "ref", "ops": [{"op": idle, "rel": 0}] + [
            {"op": o, "rel": t, "ref": 0, "pt": "start"} for t, o in self.items]}


def rxy(q, th, ph):
    return gen.op("Rxy", qubit=q, theta=th, phi=ph)


def reset(*q):
    return gen.op("Reset", **{"*": list(q)})


def measure(*q, **kw):
    return gen.op("Measure", **{"*": list(q)}, **kw)


def arr(c, k):
    """The reference's view of a scalar or array argument."""
    v = c[k]
    return v if isinstance(v, list) else [v]


# ---------------------------------------------------------------- textbook sequences
def r_rabi(s, c):
    q = c["qubit"]
    a, d = arr(c, "pulse_amp"), arr(c, "pulse_duration")
    n = max(len(a), len(d))
    for i in range(n):
        s.add(reset(q))
        s.add(gen.op("DRAGPulse", G_amp=a[i if len(a) > 1 else 0], D_amp=0, phase=0,
                     duration=d[i if len(d) > 1 else 0], port=c.get("port") or f"{q}:mw",
                     clock=c.get("clock") or f"{q}.01"))
        s.add(measure(q))
    return {c.get("clock") or f"{q}.01": c["frequency"]}


def r_t1(s, c):
    q = c["qubit"]
    for t in arr(c, "times"):
        s.add(reset(q))
        s.add(rxy(q, 180, 0))
        s.at(s.start + t, measure(q))


def r_ramsey(s, c):
    q = c["qubit"]
    for t in arr(c, "times"):
        s.add(reset(q))
        s.add(rxy(q, 90, 0))
        s.at(s.start + t, rxy(q, 90, 360 * c.get("artificial_detuning", 0) * t))
        s.add(measure(q))


def r_echo(s, c):
    q = c["qubit"]
    for t in arr(c, "times"):
        s.add(reset(q))
        s.add(rxy(q, 90, 0))
        t0 = s.start
        s.at(t0 + t / 2, rxy(q, 180, 0))
        s.at(t0 + t, rxy(q, 90, 0))
        s.add(measure(q))


def r_cpmg(s, c):
    q, n = c["qubit"], c["n_gates"]
    v = c.get("variant", "X")
    for t in arr(c, "times"):
        s.add(reset(q))
        s.add(rxy(q, 90, 0))
        t0 = s.start + 4e-9
        for k in range(n):
            y = v == "Y" or (v == "XY" and k % 2 == 1)
            s.at(t0 + t / (2 * n) + k * t / n, rxy(q, 180, 90 if y else 0))
        s.at(t0 + t, rxy(q, 90, 360 * c.get("artificial_detuning", 0) * t))
        s.add(measure(q))


# Reed (2013), table 5.1, in the order of the repository's enumeration
ALLXY = ("II XX YY XY YX xI yI xy yx xY yX Xy Yx xX Xx yY Yy XI YI xx yy").split()
GATE = {"I": (0, 0), "X": (180, 0), "Y": (180, 90), "x": (90, 0), "y": (90, 90)}


def r_allxy(s, c):
    q = c["qubit"]
    for k in arr(c, "element_select_idx") if "element_select_idx" in c else range(21):
        s.add(reset(q))
        for g in ALLXY[k]:
            s.add(rxy(q, *GATE[g]))
        s.add(measure(q))


def r_readout(s, c):
    q = c["qubit"]
    for k in c["prepared_states"]:
        s.add(reset(q))
        if k:
            s.add(rxy(q, 180, 0))
        s.add(measure(q, bin_mode={"__b": "append"},
                      acq_protocol=c.get("acq_protocol", "SSBIntegrationComplex")))


def idle(d):
    return gen.op("IdlePulse", duration=d)


def square(a, d, port, clock):
    return gen.op("SquarePulse", amp=a, duration=d, port=port, clock=clock)


def ssb(c, port, clock, i=None, ch=0, kind="SSBIntegrationComplex", t="integration_time"):
    return gen.op(kind, port=port, clock=clock, duration=c[t], acq_channel=ch,
                  **({} if i is None else {"acq_index": i}))


def r_rabi_pulse(s, c):
    s.add(idle(c["init_duration"]))
    s.add(gen.op("DRAGPulse", G_amp=c["mw_G_amp"], D_amp=c["mw_D_amp"], phase=0,
                 duration=c["mw_pulse_duration"], port=c["mw_port"], clock=c["mw_clock"]))
    s.at(s.t + c["ro_pulse_delay"], square(c["ro_pulse_amp"], c["ro_pulse_duration"],
                                           c["ro_pulse_port"], c["ro_pulse_clock"]))
    s.at(s.start + c["ro_acquisition_delay"], ssb(c, c["ro_pulse_port"], c["ro_pulse_clock"],
                                                  t="ro_integration_time"))
    return {c["mw_clock"]: c["mw_frequency"], c["ro_pulse_clock"]: c["ro_pulse_frequency"]}


def r_het(s, c):
    s.add(idle(c.get("init_duration", 10e-6)))
    s.add(square(c["pulse_amp"], c["pulse_duration"], c.get("port_out") or c["port"], c["clock"]))
    s.at(s.start + c["acquisition_delay"], ssb(c, c["port"], c["clock"], 0))
    return {c["clock"]: c["frequency"]}


def r_het_nco(s, c):
    for i, f in enumerate(arr(c, "frequencies")):
        s.add(idle(c.get("init_duration", 10e-6)))
        s.add(gen.op("SetClockFrequency", clock=c["clock"], clock_freq_new=f))
        s.add(square(c["pulse_amp"], c["pulse_duration"], c.get("port_out") or c["port"],
                     c["clock"]))
        s.at(s.start + c["acquisition_delay"], ssb(c, c["port"], c["clock"], i))
    return {}


def r_two(s, c, kind="SSBIntegrationComplex", pre="spec", i=0):
    s.add(idle(c.get("init_duration", 10e-6 if pre == "spec" else 200e-6)))
    s.add(square(*(c[f"{pre}_pulse_{k}"] for k in ("amp", "duration", "port", "clock"))))
    s.at(s.t + c["ro_pulse_delay"], square(*(c[f"ro_pulse_{k}"] for k in (
        "amp", "duration", "port", "clock"))))
    s.at(s.start + c["ro_acquisition_delay"], ssb(c, c["ro_pulse_port"], c["ro_pulse_clock"], i,
                                                  kind=kind, t="ro_integration_time"))
    return {c[f"{pre}_pulse_clock"]: c[f"{pre}_pulse_frequency"],
            c["ro_pulse_clock"]: c["ro_pulse_frequency"]}


def r_two_nco(s, c):
    for i, f in enumerate(arr(c, "spec_pulse_frequencies")):
        s.add(idle(c["init_duration"]))
        s.add(gen.op("SetClockFrequency", clock=c["spec_pulse_clock"], clock_freq_new=f))
        s.add(square(*(c[f"spec_pulse_{k}"] for k in ("amp", "duration", "port", "clock"))))
        s.at(s.t + c["ro_pulse_delay"], square(*(c[f"ro_pulse_{k}"] for k in (
            "amp", "duration", "port", "clock"))))
        s.at(s.start + c["ro_acquisition_delay"], ssb(
            c, c["ro_pulse_port"], c["ro_pulse_clock"], i, t="ro_integration_time"))
    return {c["ro_pulse_clock"]: c["ro_pulse_frequency"]}


def on(name, q, **kw):
    return gen.op(name, **{"*": [q]}, **kw)


def r_esr(s, c):
    q = c["qubit"]
    for o in (on("ChargeReset", q), on("CRCount", q), reset(q), on("SpectroscopyOperation", q),
              measure(q), on("CRCount", q)):
        s.add(o)


def r_esr_nco(s, c):
    q = c["qubit"]
    s.add(on("ChargeReset", q))
    s.add(on("CRCount", q))
    for f in arr(c, "spec_frequencies"):
        for o in (gen.op("SetClockFrequency", clock=c["spec_clock"], clock_freq_new=f), reset(q),
                  on("SpectroscopyOperation", q), measure(q), on("CRCount", q)):
            s.add(o)


def r_trace(s, c):
    s.add(idle(c.get("init_duration", 200e-6)))
    s.at(s.t + c["pulse_delay"], square(c["pulse_amp"], c["pulse_duration"], c["port"],
                                        c["clock"]))
    s.at(s.start + c["acquisition_delay"], ssb(c, c["port"], c["clock"], kind="Trace"))
    return {c["clock"]: c["frequency"]}


def r_trace_circuit(s, c):
    s.add(measure(c["qubit_name"], acq_protocol="Trace"))


def r_two_trace(s, c):
    return r_two(s, c, "Trace", "qubit", None)


def r_ltt(s, c):
    s.at(0.0, gen.op("VoltageOffset", offset_path_I=c["pulse_amp"]["__c"][0],
                     offset_path_Q=c["pulse_amp"]["__c"][1], port=c["port"], clock=c["clock"]))
    for k in range(c["num_points"]):
        s.at(c["acquisition_delay"] + k * (c["integration_time"] + c.get("pulse_delay", 0)),
             gen.op("SSBIntegrationComplex", port=c["port"], clock=c["clock"],
                    duration=c["integration_time"], acq_channel=0,
                    acq_index=c.get("acq_index", 0), bin_mode={"__b": "append"},
                    t0=c.get("pulse_delay", 0)))
    s.at(c["acquisition_delay"] + c["num_points"] * (
        c["integration_time"] + c.get("pulse_delay", 0)) + 4e-9, gen.op(
        "VoltageOffset", offset_path_I=0, offset_path_Q=0, port=c["port"], clock=c["clock"]))
    return {c["clock"]: c["frequency"]}


def r_acq_stairs(s, c):
    for a in arr(c, "readout_pulse_amps"):
        s.add(idle(c.get("init_duration", 1e-6)))
        s.add(square(a, c["readout_pulse_duration"], c["port"], c["clock"]))
        s.at(s.start + c["acquisition_delay"], ssb(c, c["port"], c["clock"],
                                                   ch=c.get("acq_channel", 0)))
    return {c["clock"]: c["readout_frequency"]}


def r_awg_stairs(s, c):
    for a in arr(c, "pulse_amps"):
        s.add(idle(c.get("init_duration", 1e-6)))
        s.add(square(a, c["pulse_duration"], c["mw_port"], c["mw_clock"]))
        s.at(s.start + c["acquisition_delay"], ssb(c, c["ro_port"], c["ro_clock"],
                                                   ch=c.get("acq_channel", 0)))
    return {c["mw_clock"]: c["readout_frequency"], c["ro_clock"]: c["readout_frequency"]}


def r_mux(s, c):
    amps = arr(c, "pulse_amps")
    s.add(idle(c.get("init_duration", 1e-6)))
    t = s.t
    for i, a in enumerate(amps):
        for j, v in ((0, a), (1, amps[len(amps) - 1 - i])):
            s.at(t, square(v, c["pulse_duration"], c["ro_port"], c[f"ro_clock{j}"]))
            s.at(t + c["acquisition_delay"], ssb(c, c["ro_port"], c[f"ro_clock{j}"], ch=j))
        t += c["pulse_duration"]
    return {c["ro_clock0"]: c["readout_frequency0"], c["ro_clock1"]: c["readout_frequency1"]}


def r_chevron(s, c):
    a, b = c["lf_qubit"], c["hf_qubit"]
    for v in arr(c, "amplitudes"):
        s.add(reset(a, b))
        t = s.t
        s.at(t, rxy(a, 180, 0))
        s.at(t, rxy(b, 180, 0))  # the pulse follows the second gate
        s.add(square(v, c["duration"], c.get("flux_port") or f"{b}:fl", Q.BASE))
        s.add(measure(a, b))


# ---------------------------------------------------------------- generators
AMP = st.sampled_from([0.1, 0.25, 0.4, -0.3, 0.05, 0.6, 0.0])
NS = gen.ns(4, 400, 4)
FREQ = st.sampled_from([5.01e9, 4.9e9, 6.2e9, 100e6, 7.035e9])
INIT = gen.ns(100, 20000, 4)
QB = st.sampled_from(["q0", "q1", "q2"])
CLK = st.sampled_from(["q0.01", "q1.12", "q0.ro", "my.clock"])
PORT = st.sampled_from(["q0:mw", "q0:res", "my:port"])


def many(el, lo=1, hi=5, scalar=True):
    x = st.lists(el, min_size=lo, max_size=hi)
    return st.one_of(el, x, x, x) if scalar else x


def opt(d, **kw):
    return st.fixed_dictionaries(d, optional={"repetitions": st.integers(1, 2000), **kw})


DET = st.sampled_from([0, 1e6, -2.5e5, 3.3e6])
AMPS = st.one_of(many(AMP), many(AMP), many(st.integers(-1, 1)))  # integer arrays as well
TAU = gen.ns(40, 4000, 8)
TWO = {"ro_pulse_amp": AMP, "ro_pulse_duration": NS, "ro_pulse_delay": NS,
       "ro_pulse_port": st.just("q0:res"), "ro_pulse_clock": st.just("q0.ro"),
       "ro_pulse_frequency": FREQ, "ro_acquisition_delay": gen.ns(0, 400, 4),
       "ro_integration_time": NS}
HET = {"pulse_amp": AMP, "pulse_duration": NS, "acquisition_delay": gen.ns(0, 400, 4),
       "integration_time": NS, "port": PORT, "clock": CLK}
SPEC = {"spec_pulse_amp": AMP, "spec_pulse_duration": NS, "spec_pulse_port": st.just("q0:mw"),
        "spec_pulse_clock": st.sampled_from(["q0.01", "sp.clk"])}
T, S, TR, V = "timedomain_schedules", "spectroscopy_schedules", "trace_schedules", "verification"
CH = st.sampled_from([0, 3, "a", 7])
EXP = {
    "rabi_sched": (T, r_rabi, opt({"pulse_amp": AMPS, "pulse_duration": NS,
                                   "frequency": FREQ, "qubit": QB}, port=PORT,
                                  clock=st.sampled_from(["q0.01", "x.clk"]))),
    "t1_sched": (T, r_t1, opt({"times": many(TAU), "qubit": QB})),
    "ramsey_sched": (T, r_ramsey, opt({"times": many(TAU), "qubit": QB},
                                      artificial_detuning=DET)),
    "echo_sched": (T, r_echo, opt({"times": many(TAU), "qubit": QB})),
    "cpmg_sched": (T, r_cpmg, opt(
        {"n_gates": st.sampled_from([2, 4, 8]),
         "times": many(gen.ns(1600, 16000, 16)), "qubit": QB},
        variant=st.sampled_from(["X", "Y", "XY"]), artificial_detuning=DET)),
    "allxy_sched": (T, r_allxy, opt({"qubit": QB},
                                    element_select_idx=many(st.integers(0, 20)))),
    "readout_calibration_sched": (T, r_readout, opt(
        {"qubit": QB, "prepared_states": many(st.integers(0, 1), 1, 6, scalar=False)},
        acq_protocol=st.sampled_from(["SSBIntegrationComplex", "ThresholdedAcquisition"]))),
    "rabi_pulse_sched": (T, r_rabi_pulse, opt({
        "mw_G_amp": AMP, "mw_D_amp": AMP, "mw_frequency": FREQ, "mw_clock": st.just("q0.01"),
        "mw_port": PORT, "mw_pulse_duration": NS, "init_duration": INIT, **TWO})),
    "heterodyne_spec_sched": (S, r_het, opt({**HET, "frequency": FREQ}, init_duration=INIT,
                                            port_out=PORT)),
    "heterodyne_spec_sched_nco": (S, r_het_nco, opt(
        {**HET, "frequencies": many(FREQ, scalar=False)}, init_duration=INIT, port_out=PORT)),
    "two_tone_spec_sched": (S, r_two, opt({**SPEC, "spec_pulse_frequency": FREQ, **TWO},
                                          init_duration=INIT)),
    "two_tone_spec_sched_nco": (S, r_two_nco, opt(
        {**SPEC, "spec_pulse_frequencies": many(FREQ, scalar=False), "init_duration": INIT,
         **TWO})),
    "nv_dark_esr_sched": (S, r_esr, opt({"qubit": st.just("n0")})),
    "nv_dark_esr_sched_nco": (S, r_esr_nco, opt(
        {"qubit": st.just("n0"), "spec_clock": st.just("n0.spec"),
         "spec_frequencies": many(FREQ, scalar=False)})),
    "trace_schedule": (TR, r_trace, opt({**HET, "frequency": FREQ,
                                         "pulse_delay": gen.ns(0, 400, 4)}, init_duration=INIT)),
    "trace_schedule_circuit_layer": (TR, r_trace_circuit, opt({"qubit_name": QB})),
    "two_tone_trace_schedule": (TR, r_two_trace, opt({
        "qubit_pulse_amp": AMP, "qubit_pulse_duration": NS, "qubit_pulse_frequency": FREQ,
        "qubit_pulse_port": st.just("q0:mw"), "qubit_pulse_clock": st.just("q0.01"), **TWO},
        init_duration=INIT)),
    "long_time_trace": (TR, r_ltt, opt({
        "pulse_amp": st.tuples(AMP, AMP).map(lambda v: {"__c": list(v)}), "frequency": FREQ,
        "acquisition_delay": NS, "integration_time": NS, "port": PORT, "clock": CLK,
        "num_points": st.integers(1, 6)}, pulse_delay=NS, acq_index=st.just(0))),
    "acquisition_staircase_sched": (V, r_acq_stairs, opt({
        "readout_pulse_amps": AMPS, "readout_pulse_duration": NS,
        "readout_frequency": FREQ, "acquisition_delay": gen.ns(0, 400, 4),
        "integration_time": NS, "port": PORT, "clock": CLK}, init_duration=INIT,
        acq_channel=CH)),
    "awg_staircase_sched": (V, r_awg_stairs, opt({
        "pulse_amps": AMPS, "pulse_duration": NS, "readout_frequency": FREQ,
        "acquisition_delay": gen.ns(0, 400, 4), "integration_time": NS,
        "mw_port": st.just("q0:mw"), "ro_port": st.just("q0:res"),
        "mw_clock": st.just("q0.01"), "ro_clock": st.just("q0.ro")}, init_duration=INIT,
        acq_channel=CH)),
    "multiplexing_staircase_sched": (V, r_mux, opt({
        "pulse_amps": AMPS, "pulse_duration": NS, "acquisition_delay": gen.ns(0, 400, 4),
        "integration_time": NS, "ro_port": PORT, "ro_clock0": st.just("q0.ro"),
        "ro_clock1": st.just("q1.ro"), "readout_frequency0": FREQ,
        "readout_frequency1": FREQ}, init_duration=INIT)),
    "chevron_cz_sched": ("two_qubit_transmon_schedules", r_chevron, opt({
        "lf_qubit": st.just("q0"), "hf_qubit": st.sampled_from(["q1", "q2"]),
        "amplitudes": AMPS, "duration": NS}, flux_port=PORT)),
}
ARRAYS = {"times", "pulse_amp", "pulse_duration", "frequencies", "spec_pulse_frequencies",
          "spec_frequencies", "readout_pulse_amps", "pulse_amps", "amplitudes"}


@st.composite
def case(draw, names=None):
    name = draw(st.sampled_from(names or sorted(EXP)))
    args = draw(EXP[name][2])
    if name == "rabi_sched" and draw(st.booleans()):
        a = args["pulse_amp"]
        k = draw(st.integers(0, 1))
        if k and isinstance(a, list):
            args["pulse_duration"] = draw(st.lists(NS, min_size=len(a), max_size=len(a)))
        else:
            args["pulse_amp"] = draw(AMP)
            args["pulse_duration"] = draw(st.lists(NS, min_size=1, max_size=4))
    els = ["n0"] if name.startswith("nv") else ["q0", "q1", "q2"]
    params = {e: draw(p04.element_params(e)) for e in draw(st.lists(
        st.sampled_from(els), max_size=2, unique=True))}
    for e in params:
        params[e] = {k: v for k, v in params[e].items()
                     if not (k.endswith("acq_delay") and v < 0)}
        if name == "cpmg_sched":  # pulses fit in the waiting times
            params[e].pop("rxy.duration", None)
    return {"exp": name, "args": args, "params": params, "form": draw(st.integers(0, 2))}


def make(c):
    from importlib import import_module

    from vf.build import val

    mod, ref, _ = EXP[c["exp"]]
    f = getattr(import_module(f"quantify_scheduler.schedules.{mod}"), c["exp"])
    kw = {}
    for k, v in c["args"].items():
        v = val(v)
        if k in ARRAYS and isinstance(v, list):
            v = np.array(v)
        elif k in ARRAYS and c["form"] == 1 and not isinstance(v, complex):
            v = np.float64(v)
        elif k == "element_select_idx" and isinstance(v, list) and c["form"] == 1:
            v = np.array(v)
        kw[k] = v
    with sut(f"{c['exp']}"):
        return f(**kw)


def reference(c, P):
    s = Seq(P)
    freqs = EXP[c["exp"]][1](s, c["args"]) or {}
    return s, freqs


def turned(xs):
    """Phases modulo a full turn."""
    return [(t, k, {**i, "phase": round(i["phase"], 6) % 360} if i.get("phase") else i)
            for t, k, i in xs]


def check(c):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    P = D.full(c["params"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sched = make(c)
        ref, freqs = reference(c, P)
        with sut("compile to device level"):
            comp = SerialCompiler("p").compile(schedule=sched, config=D.config(c["params"]))
    want, _ = D.reference(ref.desc(), P)
    p04.compare(turned(D.flatten(comp)), turned(want), f"{c['exp']}: ")
    reps = c["args"].get("repetitions", 1)
    expect(comp.repetitions == reps, "%s: %r repetitions, requested %r", c["exp"],
           comp.repetitions, reps)
    for n, f in freqs.items():
        expect(n in comp.resources and comp.resources[n]["freq"] == f,
               "%s: clock %s has %r, requested %r", c["exp"], n, comp.resources.get(n), f)
    end = max(t + ref.dur(o) for t, o in ref.items)
    expect(comp.duration >= end - 2e-12, "%s: ends at %r, its last operation at %r", c["exp"],
           comp.duration, end)
    # no setpoint follows the last one
    n = max([len(v) for k, v in c["args"].items() if isinstance(v, list)] + [1])
    return ok(n >= 2 or len(want) >= 3, [c["exp"]])


# ---------------------------------------------------------------- on hardware
@st.composite
def hw_case(draw):
    name = draw(st.sampled_from(["rabi_sched", "t1_sched", "ramsey_sched", "echo_sched",
                                 "cpmg_sched", "allxy_sched", "readout_calibration_sched"]))
    args = draw(EXP[name][2])
    args |= {"qubit": draw(st.sampled_from(full.QUBITS)),
             "repetitions": draw(st.integers(1, 3))}
    args.pop("port", None)
    args.pop("clock", None)
    if "frequency" in args:
        args["frequency"] = full.F01[args["qubit"]] + draw(st.sampled_from([0, 2e6]))
    p = {"rxy.duration": draw(gen.ns(8, 36, 4)), "reset.duration": draw(gen.ns(400, 4000, 4)),
         "measure.acq_delay": draw(gen.ns(4, 200, 4)),
         "measure.integration_time": draw(gen.ns(300, 1000, 4))}
    return {"exp": name, "args": args, "params": {args["qubit"]: p}, "form": draw(st.integers(0, 2))}


def on_hardware(c):
    """The compiled programs acquire once per setpoint and repetition, at the textbook times, and
    bin i belongs to setpoint i."""
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    q = c["args"]["qubit"]
    P = D.full({k: v for k, v in c["params"].items()})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sched = make(c)
        with sut("compile for hardware"):
            comp = SerialCompiler("h").compile(schedule=sched, config=full.config(c["params"]))
    ref, _ = reference(c, P)
    want, total = D.reference(ref.desc(), P)
    times = sorted(Q.ns_of(t) for t, k, _ in want if k == "a")
    reps = c["args"]["repetitions"]
    b0, ov = Q.timebase()
    total = Q.ns_of(total)
    qs = Q.find(Q.sequencers(comp), full.LANES[f"{q}ro"])
    expect(len(qs) == 1, "%s is measured by %d sequencers", q, len(qs))
    acqs = sorted((a["t"], a["bin"]) for a in qs[0].trace.acq if a.get("en") != 0)
    exp = [b0 + r * (total + ov) + t for r in range(reps) for t in times]
    expect([t for t, _ in acqs] == exp, "%s: acquisitions at %r, expected %r", c["exp"],
           [t - b0 for t, _ in acqs][:8], [t - b0 for t in exp][:8])
    append = c["exp"] == "readout_calibration_sched"
    n = len(times)
    bins = [i + (r * n if append else 0) for r in range(reps) for i in range(n)]
    if append:
        expect(sorted(b for _, b in acqs) == list(range(reps * n)), "bins %r", acqs)
    else:
        expect([b for _, b in acqs] == bins, "%s: bins %r, expected %r", c["exp"],
               [b for _, b in acqs], bins)
    return ok(n >= 2, [c["exp"], f"reps={reps}"])


# ---------------------------------------------------------------- refusals
BAD = [("cpmg_sched", {"n_gates": 4, "times": [1.6e-6], "qubit": "q0", "variant": "Z"}),
       ("cpmg_sched", {"n_gates": 3, "times": [1.6e-6], "qubit": "q0"}),
       ("cpmg_sched", {"n_gates": 1, "times": [1.6e-6], "qubit": "q0", "variant": "XY"}),
       ("allxy_sched", {"qubit": "q0", "element_select_idx": [-1]}),
       ("allxy_sched", {"qubit": "q0", "element_select_idx": [3, 22]}),
       ("allxy_sched", {"qubit": "q0", "element_select_idx": 21}),
       ("readout_calibration_sched", {"qubit": "q0", "prepared_states": [0, 2]}),
       ("readout_calibration_sched", {"qubit": "q0", "prepared_states": [0, 1, 3]}),
       ("readout_calibration_sched", {"qubit": "q0", "prepared_states": [-1]})]


def bad(c):
    i = c["i"]
    if i < len(BAD):
        name, args = BAD[i]
    else:
        name = "rabi_sched"
        args = {"pulse_amp": [0.1] * c["n"], "pulse_duration": [4e-8] * (c["n"] + c["more"]),
                "frequency": 5e9, "qubit": "q0"}
    from importlib import import_module

    f = getattr(import_module(f"quantify_scheduler.schedules.{EXP[name][0]}"), name)
    kw = {k: np.array(v) if k in ARRAYS and isinstance(v, list) else v for k, v in args.items()}
    try:
        f(**kw)
    except Exception as e:  # noqa: BLE001
        return ok(True, [f"{name}: {type(e).__name__}"])
    expect(False, "%s accepts %r", name, args)
    return None


SUBS = [
    Sub("sequences", case, check, quick=1500, thorough=60000,
        rule="all ready-made schedules, scalar and array setpoints, device parameters; "
             "non-trivial: several setpoints or at least three operations"),
    Sub("hardware", hw_case, on_hardware, quick=250, thorough=8000,
        rule="qubit experiments compiled for the cluster: acquisitions per setpoint in order; "
             "non-trivial: >= 2 setpoints"),
    Sub("refused", lambda: st.fixed_dictionaries({"i": st.integers(0, len(BAD) + 5),
                                                  "n": st.integers(2, 6),
                                                  "more": st.integers(1, 5)}),
        bad, quick=60, thorough=400, rule="arguments outside the documented domain are refused"),
]
_ = (math, Discard, impossible_gap)

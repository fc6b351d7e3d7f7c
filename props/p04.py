"""P04: gates become exactly the pulses the device configuration prescribes."""
from __future__ import annotations

import warnings

from hypothesis import strategies as st

from vf import build, gen
from vf import device as D
from vf.core import Known, Sub, Violation, expect, ok, sut

amp = st.floats(0.001, 0.999).map(lambda x: round(x, 4))
samp = st.floats(-0.999, 0.999).map(lambda x: round(x, 4))
ang = st.one_of(st.sampled_from([0.0, 45.0, 90.0, 180.0, -90.0, 270.0, 360.0, -180.0, 540.0]),
                st.floats(-800, 800).map(lambda x: round(x, 3)), st.integers(-400, 400))
freq = st.integers(1_000_000, 12_000_000).map(lambda k: k * 1e3)
chan = st.one_of(st.integers(0, 9), st.sampled_from(["ch_a", "q0"]))
dur = gen.ns(4, 2000, 4)
mag = st.one_of(st.none(), st.tuples(amp, st.sampled_from(["dBm", "V", "A"])).map(list))
weights = st.lists(st.tuples(samp, samp).map(lambda p: {"__c": list(p)}) | samp, min_size=1,
                   max_size=5)


@st.composite
def weight_pair(draw):
    n = draw(st.integers(1, 5))
    one = st.lists(samp, min_size=n, max_size=n)
    return {"__a": draw(one)}, {"__a": draw(one)}


VALUES = {
    "reset.duration": gen.ns(0, 400), "rxy.amp180": samp, "rxy.motzoi": samp,
    "rxy.duration": dur, "rxy.reference_magnitude": mag, "measure.pulse_amp": amp,
    "measure.pulse_duration": dur, "measure.acq_channel": chan,
    "measure.acq_delay": gen.ns(0, 400), "measure.integration_time": dur,
    "measure.reset_clock_phase": st.booleans(), "measure.acq_weights_sampling_rate":
        st.sampled_from([1e9, 5e8, 1e8]),
    "measure.acq_rotation": ang, "measure.acq_threshold": samp,
    "measure.num_points": st.integers(1, 4), "measure.reference_magnitude": mag,
    "clock_freqs.f01": freq, "clock_freqs.f12": freq, "clock_freqs.readout": freq,
    "clock_freqs.f_larmor": freq, "measure.gate_pulse_amp": samp,
    "spectroscopy_operation.amplitude": amp, "spectroscopy_operation.duration": dur,
    "spectroscopy_operation.pulse_shape": st.sampled_from(
        ["SquarePulse", "SkewedHermitePulse", "GaussPulse"]),
    "reset.amplitude": amp, "charge_reset.amplitude": amp, "charge_reset.duration": dur,
    "measure.pulse_amplitude": amp, "measure.acq_duration": dur,
    "cr_count.readout_pulse_amplitude": amp, "cr_count.spinpump_pulse_amplitude": amp,
    "cr_count.readout_pulse_duration": dur, "cr_count.spinpump_pulse_duration": dur,
    "cr_count.acq_duration": dur, "cr_count.acq_channel": chan,
    "rxy.skewness": samp, "rxy.pulse_shape": st.sampled_from(["SkewedHermitePulse",
                                                              "GaussPulse"]),
    "clock_freqs.spec": freq, "clock_freqs.ge0": freq, "clock_freqs.ge1": freq,
    "clock_freqs.ionization": freq,
    "cz.square_amp": amp, "cz.square_duration": dur,
}


@st.composite
def element_params(draw, name):
    if name in D.EDGES:
        base = D.edge_base(name)
    else:
        base = D.BASE[D.KIND[name]]
    keys = [k for k in sorted(base) if k not in (
        "measure.pulse_type", "measure.acq_weights_a", "measure.acq_weights_b")]
    out = {}
    for k in draw(st.lists(st.sampled_from(keys), max_size=8, unique=True)):
        if k.endswith("_phase_correction"):
            out[k] = draw(ang)
        elif name == "n0" and k.endswith("acq_delay"):
            out[k] = draw(gen.ns(-300, 300))
        else:
            out[k] = draw(VALUES[k])
    if "measure.acq_weights_a" in base and draw(st.booleans()):
        out["measure.acq_weights_a"], out["measure.acq_weights_b"] = draw(weight_pair())
    return out


def ov(draw, table, p=0.35):
    """Overrides of some of the listed parameters."""
    if draw(st.floats(0, 1)) > p:
        return {}
    ks = draw(st.lists(st.sampled_from(sorted(table)), min_size=1, max_size=3, unique=True))
    return {k: draw(table[k]) for k in ks}


RXY_OV = {"amp180": samp, "duration": dur}
MEAS_OV = {"pulse_amp": amp, "pulse_duration": dur, "acq_delay": gen.ns(0, 500),
           "acq_duration": dur, "reset_clock_phase": st.booleans(), "acq_threshold": samp,
           "acq_rotation": ang, "freq": freq}
CZ_OV = {"square_amp": samp, "square_duration": dur, "virt_z_parent_qubit_phase": ang,
         "virt_z_child_qubit_phase": ang}
PROTOS = [None, None, "SSBIntegrationComplex", "ThresholdedAcquisition", "Trace",
          "NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration",
          "WeightedThresholdedAcquisition"]


@st.composite
def gate(draw, els, strategy):
    """A gate on the elements in use."""
    drives = [e for e in els if D.KIND[e] in ("transmon", "spin", "nv")]
    virt = [e for e in els if D.KIND[e] in ("transmon", "spin")]
    pairs = [(a, b) for a in els for b in els if D.edge_of(a, b, True)]
    nv = [e for e in els if D.KIND[e] == "nv"]
    what = draw(st.sampled_from(
        ["rxy"] * 3 * bool(drives) + ["rz"] * bool(virt) + ["h"] * bool(virt)
        + ["reset"] * bool(drives) + ["measure"] * 3 + ["cz"] * 2 * bool(pairs)
        + ["cnot", "pulse"] * bool(pairs) + ["nv"] * 2 * bool(nv)))
    if what == "rxy":
        q = draw(st.sampled_from(drives))
        t = dict(RXY_OV)
        if D.KIND[q] == "transmon":
            t["motzoi"] = samp
        if D.KIND[q] == "nv":
            t["skewness"] = samp
            t["pulse_shape"] = st.sampled_from(["SkewedHermitePulse", "GaussPulse"])
        o = ov(draw, t)
        c = draw(st.sampled_from(["Rxy", "Rxy", "Rxy", "X", "X90", "Y", "Y90"]))
        k = {"theta": draw(ang), "phi": draw(ang)} if c == "Rxy" else {}
        return gen.op(c, qubit=q, **k, **o)
    if what == "rz":
        q = draw(st.sampled_from(virt))
        c = draw(st.sampled_from(["Rz", "Rz", "Z", "Z90", "S", "SDagger", "T", "TDagger"]))
        return gen.op(c, qubit=q, **({"theta": draw(ang)} if c == "Rz" else {}))
    if what == "h":
        qs = draw(st.lists(st.sampled_from(virt), min_size=1, max_size=2, unique=True))
        return gen.op("H", **{"*": qs}, **ov(draw, RXY_OV))
    if what == "reset":
        qs = draw(st.lists(st.sampled_from(drives), min_size=1, max_size=3, unique=True))
        return gen.op("Reset", **{"*": qs}, **ov(draw, {"duration": dur}))
    if what in ("cz", "cnot"):
        a, b = draw(st.sampled_from(pairs))
        if what == "cnot":
            if f"{a}_{b}" not in D.EDGES:
                a, b = b, a
            if f"{a}_{b}" in D.CNOTS and not a.startswith("s"):
                return gen.op("CNOT", qC=a, qT=b, **ov(draw, {**CZ_OV, **RXY_OV}))
            if a.startswith("s"):
                return gen.op("SpinInit", **{"*": [a, b]}) if draw(st.booleans()) else \
                    gen.op("CNOT", qC=a, qT=b)
        return gen.op("CZ", qC=a, qT=b, **ov(draw, CZ_OV))
    if what == "pulse":
        return draw(st.sampled_from([
            gen.op("SquarePulse", amp=0.1, duration=20e-9, port="q0:mw", clock="q0.01"),
            gen.op("IdlePulse", duration=36e-9),
            gen.op("ShiftClockPhase", phase_shift=12.5, clock="q0.01")]))
    if what == "nv":
        c = draw(st.sampled_from(["ChargeReset", "SpectroscopyOperation", "CRCount"]))
        if c != "CRCount":
            return gen.op(c, **{"*": nv} if c == "ChargeReset" else {"*": [nv[0]]})
        k = {}
        if draw(st.booleans()):
            k["acq_channel"] = draw(chan)
        if draw(st.booleans()):
            k["acq_index"] = draw(st.integers(0, 5))
        return gen.op(c, **{"*": nv}, **k)
    qs = draw(st.lists(st.sampled_from(els), min_size=1, max_size=3, unique=True))
    k = {"*": qs}
    kinds = {D.KIND[q] for q in qs}
    if "nv" in kinds:
        proto = draw(st.sampled_from([None, "Trace", "TriggerCount"]
                                     + (["Timetag", "TimetagTrace"] if kinds == {"nv"} else [])))
        if kinds != {"nv"} and proto == "TriggerCount":
            proto = None
    else:
        proto = draw(st.sampled_from(PROTOS + ["LongTimeTrace"] * (strategy == "asap")))
    if proto is not None:
        k["acq_protocol"] = proto
    mode = draw(st.sampled_from([None, "append", "average"]))
    if proto == "LongTimeTrace":
        mode = "append"
    if proto in ("TimetagTrace",):
        mode = "append"
    if proto == "Trace" and "nv" in kinds:
        mode = None
    if mode is not None and proto != "Trace":
        k["bin_mode"] = {"__b": mode} if draw(st.booleans()) else mode
    if draw(st.booleans()):
        k["acq_index"] = draw(st.one_of(
            st.lists(st.integers(0, 6), min_size=len(qs), max_size=len(qs))
            if len(qs) > 1 else st.nothing(), st.integers(0, 6)))
    if draw(st.integers(0, 3)) == 0:
        k["acq_channel"] = draw(chan)
    if draw(st.integers(0, 3)) == 0:
        k["coords"] = {"amp": draw(amp)}
    if proto in ("ThresholdedAcquisition", "WeightedThresholdedAcquisition") and draw(
            st.booleans()):
        k["feedback_trigger_label"] = "lbl"
    if strategy == "asap" and kinds != {"nv"} and "nv" not in kinds and draw(
            st.integers(0, 2)) == 0:
        k["apply_acquisition_delay"] = False
    if "nv" in kinds:
        k |= ov(draw, {"acq_duration": dur, "acq_delay": gen.ns(0, 300)})
    else:
        t = dict(MEAS_OV)
        if proto == "LongTimeTrace":
            t = {x: t[x] for x in ("pulse_amp", "acq_delay", "acq_duration")}
            t["num_points"] = st.integers(1, 4)
        if kinds & {"spin", "sensor"}:
            t["gate_pulse_amp"] = samp
        k |= ov(draw, t)
    return gen.op("Measure", **k)


@st.composite
def schedule(draw, els, strategy, depth):
    items = []
    for i in range(draw(st.integers(1, 5 if depth else 3))):
        r = draw(st.integers(0, 9))
        if depth and r == 0:
            op = {"t": "loop", "n": draw(st.integers(1, 3)),
                  "body": draw(schedule(els, strategy, depth - 1) if draw(st.booleans())
                               else gate(els, strategy))}
        elif depth and r == 1:
            op = draw(schedule(els, strategy, depth - 1))
        elif depth and r == 2:
            op = {"t": "cond", "q": "q0", "body": draw(schedule(els, strategy, depth - 1)
                                                      if draw(st.booleans())
                                                      else gate(els, strategy))}
        elif items and r == 3:
            op = items[draw(st.integers(0, len(items) - 1))]["op"]
        else:
            op = draw(gate(els, strategy))
        it = {"op": op}
        if draw(st.integers(0, 3)) == 0:
            it["rel"] = draw(gen.ns(0, 100))
        items.append(it)
    return {"t": "sched", "name": f"s{depth}", "ops": items}


GROUPS = [["q0"], ["q0", "q1"], ["q0", "q1", "q2"], ["s0", "s1"], ["n0"], ["q0", "s0"],
          ["c0", "s0", "s1"], ["q1", "n0"], ["q0", "c0"], ["q1", "q2"]]


@st.composite
def case(draw):
    els = draw(st.sampled_from(GROUPS))
    strategy = draw(st.sampled_from(["asap", "asap", "asap", "alap"]))
    params = {e: draw(element_params(e)) for e in els}
    for e, (a, b) in D.EDGES.items():
        if a in els and b in els:
            params[e] = draw(element_params(e))
    if "s0" in els and "s1" in els:
        i = {"square_duration": draw(dur), "ramp_diff": draw(gen.ns(-300, 300))}
        for x in ("parent", "child"):
            a = draw(amp)
            i |= {f"{x}_square_amp": draw(amp), f"{x}_ramp_amp": a,
                  f"{x}_ramp_rate": a / draw(dur)}
        params["@init"] = i
    c = {"params": params, "strategy": strategy,
         "sched": draw(schedule(els, strategy, draw(st.integers(0, 2))))}
    if draw(st.integers(0, 4)) == 0 and D.KIND[els[0]] == "transmon":
        c["clocks"] = [[f"{els[0]}.01", draw(freq)]]
    return c


def show(x):
    t, kind, info = x
    return f"{'pulse' if kind == 'p' else 'acquisition'} at {t * 1e9:.3f} ns " + str(
        {k: v for k, v in D.plain(info).items() if v is not None and k != "t0"})


def shifts(g, w, what):
    """Phase shifts: total per clock and instant (directly following ones may be merged)."""
    def table(xs):
        out = {}
        for t, _, i in xs:
            if "phase_shift" in i:
                k = (i["clock"], round(t * 1e11))
                out[k] = out.get(k, 0.0) + i["phase_shift"]
        return out

    a, b = table(w), table(g)
    for k in sorted(a.keys() | b.keys()):
        d = (a.get(k, 0.0) - b.get(k, 0.0) + 180) % 360 - 180
        expect(abs(d) < 1e-6, "%sphase shifts of %s at %.2f ns: expected %r degrees, compiled %r",
               what, k[0], k[1] / 100, a.get(k, 0.0), b.get(k, 0.0))


def compare(got, want, what=""):
    # (reference times come from the model; the rest are plain values)
    g = [(t, k, D.plain({x: y for x, y in i.items() if x != "t0"})) for t, k, i in got
         if not D.silent(i)]
    w = [(t, k, D.plain({x: y for x, y in i.items() if x != "t0"})) for t, k, i in want
         if not D.silent(i)]
    shifts(g, w, what)
    g = [x for x in g if "phase_shift" not in x[2]]
    w = [x for x in w if "phase_shift" not in x[2]]
    left = list(range(len(g)))
    for x in w:
        for j in left:
            y = g[j]
            if abs(x[0] - y[0]) < 2e-12 and x[1] == y[1] and D.same(x[2], y[2]):
                left.remove(j)
                break
        else:
            near = sorted((g[j] for j in left if g[j][1] == x[1]), key=lambda y: (
                y[2].get("port") != x[2].get("port"), y[2].get("clock") != x[2].get("clock"),
                abs(y[0] - x[0])))
            diff = {}
            if near:
                a, b = x[2], near[0][2]
                diff = {k: (a.get(k), b.get(k)) for k in a.keys() | b.keys()
                        if not D.same(a.get(k), b.get(k))}
                diff["time"] = (x[0], near[0][0])
            raise Violation(f"{what}expected {show(x)}; closest left over differs in "
                            f"(expected, compiled): {diff}")
    expect(not left, "%snot prescribed: %s", what, show(g[left[0]]) if left else "")


def frequencies(schedule, want, seen):
    """Every clock used by the (sub-)schedule has its frequency there or above."""
    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    for n, r in schedule.resources.items():
        if n in want and "freq" in r:
            expect(r["freq"] == want[n], "clock %s has frequency %r, the configuration says %r", n,
                   r["freq"], want[n])

    def used(op):
        while isinstance(op, ControlFlowOperation):
            op = op.body
        if isinstance(op, ScheduleBase):
            frequencies(op, want, seen | set(schedule.resources))
            return
        for i in op["pulse_info"] + op["acquisition_info"]:
            c = i["clock"]
            if c is not None and not D.silent(i):
                expect(c in schedule.resources or c in seen, "clock %s of %s has no frequency", c,
                       op)

    for op in schedule.operations.values():
        used(op)


def check(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        P = D.full(case["params"])
        with sut("compile to device level"):
            compiled, _, _ = D.compile_device(case, case["strategy"])
        want, total = D.reference(case["sched"], P, case["strategy"])
    got = D.flatten(compiled)
    if case["strategy"] == "asap":
        compare(got, want)
    else:
        compare(got, want)
    expect(abs(compiled.duration - total) < 2e-12, "duration %r, prescribed %r",
           compiled.duration, total)
    freqs = D.frequencies(P) | dict(case.get("clocks", []))
    frequencies(compiled, freqs, set())
    n = len([x for x in want if not D.silent(x[2])])
    return ok(n >= 3, [case["strategy"], "elements=" + ",".join(sorted(
        {D.KIND[e] for e in case["params"] if e in D.KIND}))])


# ----------------------------------------------------------------------- rejections
REJECT = [
    (gen.op("Rz", theta=90.0, qubit="n0"), "gate the element does not define"),
    (gen.op("H", **{"*": ["n0"]}), "gate the element does not define"),
    (gen.op("X", qubit="c0"), "gate the element does not define"),
    (gen.op("X", qubit="q9"), "unknown element"),
    (gen.op("Measure", **{"*": ["q0", "q9"]}), "unknown element"),
    (gen.op("CZ", qC="q0", qT="q2"), "pair without an edge"),
    (gen.op("CZ", qC="q0", qT="s0"), "pair without an edge"),
    (gen.op("CNOT", qC="q1", qT="q0"), "edge in the other direction only"),
    (gen.op("CNOT", qC="q2", qT="q1"), "gate the edge does not define"),
    (gen.op("SpinInit", **{"*": ["s1", "s0"]}), "edge in the other direction only"),
    (gen.op("SpectroscopyOperation", **{"*": ["q0"]}), "gate the element does not define"),
    (gen.op("Measure", **{"*": ["q0"], "acq_protocol": "TriggerCount"}), "unsupported protocol"),
    (gen.op("Measure", **{"*": ["n0"], "acq_protocol": "SSBIntegrationComplex"}),
     "unsupported protocol"),
    (gen.op("Measure", **{"*": ["q0"], "acq_protocol": "LongTimeTrace", "bin_mode": "average"}),
     "unsupported bin mode"),
    (gen.op("SquarePulse", amp=0.1, duration=20e-9, port="q0:mw", clock="nowhere"),
     "unknown clock"),
]
NAN = [("q0", "clock_freqs.f01", gen.op("X", qubit="q0")),
       ("q0", "clock_freqs.f01", gen.op("Rz", qubit="q0", theta=30.0)),
       ("q1", "clock_freqs.readout", gen.op("Measure", **{"*": ["q0", "q1"]})),
       ("s0", "clock_freqs.f_larmor", gen.op("CZ", qC="s0", qT="s1")),
       ("n0", "clock_freqs.ge1", gen.op("Reset", **{"*": ["n0"]})),
       ("n0", "clock_freqs.spec", gen.op("Rxy", theta=10.0, phi=20.0, qubit="n0"))]


@st.composite
def reject_case(draw):
    params = {}
    if draw(st.booleans()):
        op, why = draw(st.sampled_from(REJECT))
    else:
        e, p, op = draw(st.sampled_from(NAN))
        params = {e: {p: {"__nan": 1}}}
        why = "clock without a frequency"
    good = draw(st.lists(gate(["q0", "q1"], "asap"), max_size=3))
    at = draw(st.integers(0, len(good)))
    for i in range(draw(st.integers(0, 2))):
        op = draw(st.sampled_from([
            {"t": "loop", "n": 2, "body": op},
            {"t": "sched", "name": "in", "ops": [{"op": op}]},
            {"t": "cond", "q": "q0", "body": op}]))
    ops = good[:at] + [op] + good[at:]
    return {"params": params, "why": why,
            "sched": {"t": "sched", "name": "r", "ops": [{"op": o} for o in ops]}}


def check_reject(case):
    params = {e: {k: float("nan") if isinstance(v, dict) and "__nan" in v else v
                  for k, v in ps.items()} for e, ps in case["params"].items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            D.compile_device({"sched": case["sched"], "params": params})
        except (KeyError, ValueError, NotImplementedError, TypeError, RuntimeError):
            return ok(True, [case["why"]])
    raise Violation(f"accepted: {case['why']}")




SUBS = [
    Sub("circuits", case, check, quick=2600, thorough=60000,
        rule="random parameters of random element groups (transmon, spin, charge sensor, NV, "
             "edges), gates with overrides, nested schedules / loops / conditionals, ASAP and "
             "ALAP; non-trivial: >=3 pulses or acquisitions prescribed"),
    Sub("rejections", reject_case, check_reject, quick=400, thorough=4000,
        rule="undefined gates, missing edges, wrong direction, unknown elements or clocks, "
             "frequencies that are not set, at any nesting"),
]


def _long_trace_alap():
    check({"params": {}, "strategy": "alap", "sched": {"t": "sched", "name": "a", "ops": [
        {"op": gen.op("Measure", **{"*": ["s0"], "acq_protocol": "LongTimeTrace",
                                    "bin_mode": "append"})}]}})


KNOWN = [Known("P04-long-time-trace-alap",
               "a LongTimeTrace measurement compiled with the ALAP strategy switches its readout "
               "off before, and plays the gate pulse before, its acquisitions", _long_trace_alap)]

"""Gate-level circuits on transmons compiled all the way to a Qblox cluster."""
from __future__ import annotations

import functools
import json

from hypothesis import strategies as st

from vf import build, gen
from vf import device as D
from vf import qblox as Q

QUBITS = ["q0", "q1", "q2"]
F01 = {"q0": 5.05e9, "q1": 5.11e9, "q2": 4.93e9}
FRO = {"q0": 7.05e9, "q1": 7.1e9, "q2": 6.95e9}


def lanes():
    out = {}
    for i, q in enumerate(QUBITS):
        mod, ch = ((11, "complex_output_0"), (11, "complex_output_1"),
                   (12, "complex_output_0"))[i]
        out[f"{q}mw"] = Q.Lane(f"{q}:mw", f"{q}.01", F01[q], mod, "QCM_RF", ch, lo=5e9)
        out[f"{q}mw12"] = Q.Lane(f"{q}:mw", f"{q}.12", F01[q] - 2e8, mod, "QCM_RF", ch, lo=5e9)
        out[f"{q}ro"] = Q.Lane(f"{q}:res", f"{q}.ro", FRO[q], 13 + i, "QRM_RF",
                               "complex_output_0", lo=7e9, inp=True)
        out[f"{q}fl"] = Q.Lane(f"{q}:fl", Q.BASE, None, 16, "QCM", f"real_output_{i}")
    return out


LANES = lanes()
Q.LANES.update({f"@{k}": v for k, v in LANES.items()})


def hw(**kw):
    """`connectivity` in hardware(): two ports share the QRM output channel only."""
    return Q.hardware(list(LANES.values()), **kw)


def config(params, options=None, strategy="asap"):
    from quantify_scheduler.backends.graph_compilation import SerialCompilationConfig

    p = {q: {"clock_freqs.f01": F01[q], "clock_freqs.f12": F01[q] - 2e8,
             "clock_freqs.readout": FRO[q], "measure.acq_channel": i,
             **params.get(q, {})} for i, q in enumerate(QUBITS)}
    p |= {k: v for k, v in params.items() if k not in QUBITS}
    dev = D.config(p, strategy).device_compilation_config
    return SerialCompilationConfig(
        name="full", device_compilation_config=dev,
        hardware_compilation_config=_hw(json.dumps(options or {})))


@functools.lru_cache(maxsize=100)
def _hw(options):
    o = json.loads(options)
    mod = o.pop("@modules", {})
    comp = o.pop("@compilation", {})
    h = hw(options=o, module_extra=mod)
    h.update(comp)
    return Q.config(h).hardware_compilation_config.model_copy(deep=True)


amp = st.sampled_from([0.1, 0.25, 0.4, 0.05, 0.6])
ns4 = lambda a, b: gen.ns(a, b, 4)  # noqa: E731


@st.composite
def params(draw, protocol=None):
    out = {}
    for q in QUBITS:
        p = {}
        if draw(st.booleans()):
            p["rxy.amp180"] = draw(amp)
            p["rxy.motzoi"] = draw(st.sampled_from([0.0, 0.05, -0.1]))
            p["rxy.duration"] = draw(gen.ns(8, 60))
        if draw(st.booleans()):
            p["measure.pulse_amp"] = draw(amp)
            p["measure.pulse_duration"] = draw(ns4(40, 1000))
            p["measure.acq_delay"] = draw(ns4(4, 240))
            p["measure.integration_time"] = draw(ns4(100, 1000))
        p["measure.acq_rotation"] = draw(st.sampled_from([0.0, 90.0, 12.5]))
        p["measure.acq_threshold"] = draw(st.sampled_from([0.0, 0.3, -0.2]))
        p["measure.reset_clock_phase"] = draw(st.booleans())
        p["reset.duration"] = draw(ns4(200, 20000))
        out[q] = p
    out["q0_q1"] = {"cz.square_amp": draw(amp), "cz.square_duration": draw(gen.ns(8, 60)),
                    "cz.q0_phase_correction": draw(st.sampled_from([0.0, 30.0, -12.5]))}
    return out


@st.composite
def gate(draw, qs, meas):
    q = draw(st.sampled_from(qs))
    k = draw(st.integers(0, 9))
    if k < 4:
        return gen.op(draw(st.sampled_from(["X", "X90", "Y", "Y90"])), qubit=q)
    if k == 4:
        return gen.op("Rxy", qubit=q, theta=draw(st.sampled_from([30.0, 90.0, -45.0, 200.0])),
                      phi=draw(st.sampled_from([0.0, 45.0, 120.0])))
    if k == 5:
        return gen.op("Rz", qubit=q, theta=draw(st.sampled_from([30.0, 90.0, -45.0])))
    if k == 6 and "q0" in qs and "q1" in qs:
        return gen.op("CZ", qC="q0", qT="q1")
    if k == 7:
        return gen.op("H", **{"*": [q]})
    if k == 8:
        return gen.op("IdlePulse", duration=draw(ns4(4, 400)))
    return gen.op("SquarePulse", amp=draw(amp), duration=draw(ns4(4, 80)), port=f"{q}:fl",
                  clock=Q.BASE)


@st.composite
def block(draw, qs, n, meas=None, depth=0, loops=True, cond=None, name="s"):
    """A schedule description; `meas(draw, qs)` makes a measurement, `cond(draw, qs, depth)`
    something to do depending on an outcome."""
    items = []

    def put(o, rel=None, parallel=True):
        it = {"op": o, "rel": draw(st.sampled_from([0, 0, 4e-9, 20e-9, 200e-9]))
              if rel is None else rel}
        if parallel and items and draw(st.integers(0, 5)) == 0:
            it |= {"ref": draw(st.integers(0, len(items) - 1)), "pt": "start"}
        items.append(it)

    for _ in range(draw(st.integers(1, n))):
        k = draw(st.integers(0, 9))
        if k == 0 and depth and loops:
            put({"t": "loop", "n": draw(st.integers(1, 4)),
                 "body": draw(block(qs, n, meas, depth - 1, loops, cond, name + "l"))}, 40e-9,
                False)
        elif k == 1 and depth:
            put(draw(block(qs, n, meas, depth - 1, loops, cond, name + "s")), None, False)
        elif k in (2, 3) and meas is not None:
            m = meas(draw, qs)
            if m is not None:
                put(m, 40e-9, False)
        elif k == 4 and cond is not None:
            m = cond(draw, qs, depth)
            if m is not None:
                put(m, 40e-9, False)
        else:
            put(draw(gate(qs, meas)))
    items.append({"op": gen.op("IdlePulse", duration=100e-9), "rel": 0})
    return {"t": "sched", "name": name, "ops": items}


def measure(proto=("SSBIntegrationComplex", "ThresholdedAcquisition", None), modes=("average",)):
    """Measurements with implicit acquisition indices, one protocol and mode per circuit."""
    def make(draw, qs):
        k = {"*": draw(st.lists(st.sampled_from(qs), min_size=1, max_size=len(qs), unique=True))}
        p = draw(st.sampled_from(proto))
        if p:
            k["acq_protocol"] = p
        k["bin_mode"] = {"__b": draw(st.sampled_from(modes))}
        return gen.op("Measure", **k)
    return make


@st.composite
def circuit(draw, depth=2, n=5, cond=None, meas=None):
    qs = draw(st.sampled_from([["q0"], ["q0", "q1"], ["q0", "q1", "q2"], ["q2"]]))
    proto = draw(st.sampled_from(["SSBIntegrationComplex", "ThresholdedAcquisition"]))
    mode = draw(st.sampled_from(["average", "append"]))
    d = draw(block(qs, n, meas or measure((proto,), (mode,)), depth, True, cond))
    d["reps"] = draw(st.sampled_from([1, 1, 3, 10]))
    return {"params": draw(params()), "d": d}


def schedule(c):
    return build.make_schedule(c["d"])


def compiled(c, **kw):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    return SerialCompiler("full").compile(schedule(c), config(c["params"], **kw))

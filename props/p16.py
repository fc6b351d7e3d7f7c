"""P16: latency corrections shift whole port-clocks; distortion corrections filter every pulse."""
from __future__ import annotations

import json

import numpy as np
from hypothesis import strategies as st

from props import p06, p07, p09, p17
from vf import acq, build, qgen, wave
from vf import qblox as Q
from vf.core import Sub, expect, ok, sut
from vf.qgen import op, sec

ASSUMPTIONS = (
    "Latency corrections are whole ns; port-clocks without one count as 0.  The shift of every "
    "sequencer is its correction minus the smallest one of the port-clocks in use (0 included if "
    "the schedule has operations on no port).  Software distortion corrections use "
    "scipy.signal.lfilter on the pulse sampled at 1 GS/s; only real waveforms are clipped; "
    "pulses turned into voltage offsets (square pulses from 100 ns on, ramps from 2000 ns on) are "
    "left uncorrected with a warning, as documented.")

ALL = ["mw0", "mw0b", "fl0", "fl1", "ro0", "ro1", "rf1", "rf2", "rfro"]
MIX = qgen.Knobs(ALL, ["pulse"] * 5 + ["idle", "offset", "shift", "freq", "reset"], depth=2,
                 items=(2, 8), loops=0.2, subs=0.15, reps=(1, 2, 3))
LAT = st.one_of(st.sampled_from([0, 4, -4, 1, 20]), st.integers(-60, 60),
                st.sampled_from([100, 1000, 65532, 70000]))


@st.composite
def latency_case(draw):
    kind = draw(st.sampled_from(["pulses", "acqs", "markers"]))
    if kind == "pulses":
        c = draw(qgen.program(MIX))
        keys = [Q.LANES[n].key for n in c["lanes"]]
    elif kind == "acqs":
        c = draw(acq.program(depth=1))
        keys = [Q.LANES[n].key for n in c["lanes"]]
    else:
        c = draw(p17.marker_case())
        c["debug"] = []
        keys = [Q.LANES[n].key for n in c["lanes"]]
        keys += [f"{p17.OUT[n][0]}-digital" for n in c["outs"]]
    lat = {k: draw(LAT) for k in sorted(set(keys)) if draw(st.integers(0, 3)) > 0}
    if draw(st.booleans()):
        lat["nowhere:mw-q9.01"] = draw(st.sampled_from([-500, 500]))  # not in the schedule
    if draw(st.integers(0, 3)) == 0:
        c["d"]["share"] = True
    return {"kind": kind, "c": c, "lat": lat}


def compile_latency(kind, c, options):
    if kind == "acqs":
        hw = acq.hw(options=options)
    elif kind == "pulses":
        hw = Q.hardware(c["lanes"], options)
    else:
        mods = {p17.OUT[n][1] for n in c["outs"]} | {Q.LANES[n].mod for n in c["lanes"]}
        hw = Q.hardware(c["lanes"], options, digital=[p17.OUT[n] for n in c["outs"]],
                        module_extra={str(m): {"rf_output_on": c["rf_on"]} for m in mods & {3, 4}})
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(c["lanes"]))
    with sut("compiling with latency corrections" if options else "compiling"):
        return Q.compile_schedule(s, hw)


def shifted(tr, sh, start):
    """Everything the program does, with times from `start` on shifted by `sh`."""
    def f(t):
        return t + sh if t >= start else t

    out = {}
    for k in ("play", "offs", "phase", "freq", "mrk", "digital"):
        out[k] = [(f(x[0]), *x[1:]) for x in getattr(tr, k)]
    out["timeref"] = [f(x) if isinstance(x, int) else (f(x[0]), *x[1:]) for x in tr.timeref]
    out["acq"] = [{**x, "t": f(x["t"])} for x in tr.acq]
    return out


def check_latency(x):
    kind, c, lat = x["kind"], x["c"], x["lat"]
    plain = compile_latency(kind, c, {})
    comp = compile_latency(kind, c, {"latency_corrections": {k: v * 1e-9 for k, v in lat.items()}})
    evs, _ = Q.events(c["d"])
    sa, sb = Q.sequencers(plain), Q.sequencers(comp)
    expect(len(sa) == len(sb), "%d sequencers instead of %d", len(sb), len(sa))
    pairs = {}
    for n in c["lanes"]:
        l = Q.LANES[n]
        fnd = p09.find if kind == "acqs" else Q.find
        qa, qb = fnd(sa, l), fnd(sb, l)
        if len(qa) == 1 and Q.uses(evs, l):
            expect(len(qb) == 1, "%s: %d sequencers", l.key, len(qb))
            pairs[l.port, l.clock] = (qa[0], qb[0])
    for n in c.get("outs", ()):
        port, mod, _, ch, _ = p17.OUT[n]
        qa, qb = ([q for q in ss if q.module.endswith(f"module{mod}") and q.s.channel_name == ch]
                  for ss in (sa, sb))
        if qa:
            expect(len(qa) == len(qb) == 1, "%s: %d sequencers", port, len(qb))
            pairs[port, "digital"] = (qa[0], qb[0])
    used = {(o["k"].get("port"), o["k"].get("clock") or default_clock(o)) for _, o, _ in evs
            if o["k"].get("port") is not None}
    here = {pc: lat.get("-".join(pc), 0) for pc in used}
    cands = {min(here.values(), default=0), min([0, *here.values()])}
    tb = Q.timebase()
    shifts = {}
    for pc, (q, r) in sorted(pairs.items()):
        ok_ = set()
        for base in cands:
            sh = here[pc] - base
            if shifted(q.trace, sh, tb[0] - tb[1]) == shifted(r.trace, 0, 0):
                ok_.add(base)
        if not ok_:
            ta, tbb = shifted(q.trace, 0, 0), shifted(r.trace, 0, 0)
            d = [k for k in ta if [strip(e) for e in ta[k]] != [strip(e) for e in tbb[k]]]
            expect(not d, "%s: the latency correction changes more than times: %s", pc, d)
            seen = sorted({u[0] - v[0] for k in ("play", "mrk", "digital", "offs")
                           for u, v in zip(tbb[k], ta[k])} |
                          {u["t"] - v["t"] for u, v in zip(tbb["acq"], ta["acq"])})
            expect(False, "%s: shifted by %s ns, its latency correction is %d ns with a smallest "
                   "correction of %d ns (all: %s)", pc, seen, here[pc], min(cands), lat)
        cands &= ok_
        expect(cands, "sequencers use different reference latencies")
        shifts[pc] = here[pc]
    return ok(len(set(shifts.values())) > 1, [kind, f"sequencers={len(shifts)}"])


def default_clock(o):
    return "digital" if o["c"] == "MarkerPulse" else Q.BASE


def strip(e):
    return {k: v for k, v in e.items() if k != "t"} if isinstance(e, dict) else (
        e[1:] if isinstance(e, (tuple, list)) else None)


# ------------------------------------------------------------------ distortion
PUL = qgen.Knobs(ALL, ["pulse"] * 6 + ["idle", "offset", "shift"], depth=2, items=(2, 8),
                 loops=0.2, subs=0.2, reps=(1, 2), long_pulses=False)


@st.composite
def filt(draw):
    n = draw(st.integers(1, 5))
    b = [draw(st.integers(-10, 10)) / 10 for _ in range(n)]
    tot = sum(abs(x) for x in b) or 1.0
    if tot == 1.0 and not any(b):
        b[0] = 1.0
    b = [round(x / max(tot, 1.0) * 0.5, 6) for x in b]
    a = draw(st.sampled_from([[1], [1], [1.0, -0.5], [1.0, 0.3]]))
    clip = draw(st.sampled_from([None, None, [-0.1, 0.2], [-2.5, 2.5]]))
    return {"b": b, "a": a, "clip": clip}


@st.composite
def distortion_case(draw):
    c = draw(qgen.program(PUL))
    c["filters"] = {n: draw(filt()) for n in c["lanes"] if draw(st.integers(0, 3)) > 0}
    ro = [n for n in c["lanes"] if Q.LANES[n].inp]
    if ro and draw(st.booleans()):  # one operation with a pulse and an acquisition
        l = Q.LANES[draw(st.sampled_from(ro))]
        kw = dict(port=l.port, clock=l.clock)
        total = Q.events(c["d"])[1]
        t = total + 4 + draw(st.integers(0, 30))
        parts = [op("SquarePulse", amp=0.2, duration=sec(draw(st.integers(4, 90))), **kw)]
        parts.insert(draw(st.integers(0, 1)), op(
            "SSBIntegrationComplex", duration=100e-9, t0=sec(100 + draw(st.integers(0, 60))),
            acq_channel=0, acq_index=0, bin_mode={"__b": "average"}, **kw))
        c["d"]["ops"].append({"op": {"t": "multi", "ops": parts}, "ref": 0, "pt": "start",
                              "ptn": "start", "rel": sec(t)})
        c["d"]["ops"].append({"op": op("IdlePulse", duration=20e-9)})
    c["d"]["share"] = draw(st.booleans())
    return c


def corrected(f, real):
    from scipy.signal import lfilter

    def of(o):
        w = np.asarray(wave.of(o), dtype=complex)
        y = lfilter(f["b"], f["a"], w)
        if f["clip"] is not None and real:
            y = np.clip(y.real, *f["clip"]) + 0j
        return y

    return of


def check_distortion(c):
    dc = {}
    for n, f in c["filters"].items():
        l = Q.LANES[n]
        dc[l.key] = {"filter_func": "scipy.signal.lfilter", "input_var_name": "x",
                     "kwargs": {"b": f["b"], "a": f["a"]}}
        if f["clip"] is not None and l.real:
            dc[l.key]["clipping_values"] = f["clip"]
    hw = Q.hardware(c["lanes"], {"distortion_corrections": dc} if dc else None)
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(c["lanes"]))
    with sut("compiling with software distortion corrections"):
        comp = Q.compile_schedule(s, hw)
    evs, active, m = p06.check_output(
        c, comp, wave_of={n: corrected(f, Q.LANES[n].real) for n, f in c["filters"].items()})
    p07.check_carrier(c, comp, evs)
    want = sorted(Q.timebase()[0] + t + r * (Q.events(c["d"])[1] + Q.timebase()[1])
                  for t, o, _ in evs if o["c"] in Q.ACQS for r in range(c["d"]["reps"]))
    got = sorted(a["t"] for q in Q.sequencers(comp) for a in q.trace.acq)
    expect(got == want, "acquisitions at %s, scheduled at %s", got, want)
    n = sum(1 for _, o, _ in evs if o["c"] in Q.PULSES and any(
        (o["k"]["port"], o["k"].get("clock", Q.BASE)) == (Q.LANES[x].port, Q.LANES[x].clock)
        for x in c["filters"]))
    return ok(n >= 2 and active > 0, [f"corrected lanes={len(c['filters'])}",
                                      "loop" if '"loop"' in json.dumps(c["d"]) else "flat"])


SUBS = [
    Sub("latency", latency_case, check_latency, quick=1200, thorough=15000,
        rule="at least two sequencers with different latency corrections"),
    Sub("distortion", distortion_case, check_distortion, quick=1500, thorough=20000,
        rule="at least two corrected pulses"),
]

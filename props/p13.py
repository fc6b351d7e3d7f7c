"""P13: crosstalk compensation makes the delivered signal the scheduled one."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from props import p06, p12
from vf import build, qgen
from vf import qblox as Q
from vf.core import Discard, Known, Sub, expect, ok, sut
from vf.qgen import op, sec

ASSUMPTIONS = (
    "Delivered signals are computed from the emulated outputs (complex envelopes at every ns) and the "
    "crosstalk matrix M, delivered_j = sum_i output_i M[i][j], as the documentation defines it "
    "(M[source][destination]).  Only pulses are compensated; voltage offsets on coupled ports are not "
    "(KNOWN-FINDING P13-offsets).  Cases whose compensated outputs leave the output range are "
    "discarded.")

REAL = ["fl0", "fl1"]
CPLX = ["mw0", "rf1", "ro0"]


def pc(n):
    return f"{Q.LANES[n].port}-{Q.LANES[n].clock}"


@st.composite
def case(draw):
    lanes = draw(st.sampled_from([REAL, REAL, CPLX, CPLX[:2], REAL + CPLX]))
    # a complex pulse cannot be delivered by a real output
    group_ = [n for n in lanes if n in REAL]
    if len(group_) < 2 or (len(lanes) > len(group_) and draw(st.booleans())):
        group_ = [n for n in lanes if n not in REAL]
    inside = draw(st.permutations(group_))[: draw(st.integers(2, len(group_)))]
    cplx = not any(n in REAL for n in inside) and draw(st.booleans())
    m = {}
    # also barely coupled ports, driven strongly
    weak = draw(st.integers(0, 3)) == 0
    small = st.sampled_from([0.1, -0.2, 0.25, 0.05, 0.5, -0.1] if not weak else
                            [0.001, -0.001, 0.0008, 0.002, -0.005, 0.02])
    for a in inside:
        row = {}
        for b in inside:
            if a != b and draw(st.integers(0, 2)) > 0:
                row[pc(b)] = {"__c": [draw(small), draw(small)]} if cplx else draw(small)
        if draw(st.integers(0, 5)) == 0:
            row[pc(a)] = draw(st.sampled_from([1.0, 0.9, 1.1]))
        if row:
            m[pc(a)] = row
    d, _ = draw(p12.group(sorted(lanes), draw(st.integers(0, 2))))
    d["reps"] = draw(st.sampled_from([1, 1, 2]))
    d = qgen.repeat(draw, d)
    return {"lanes": sorted(lanes), "m": m, "d": scale(d, 0.9 if weak else 0.3), "again": draw(st.booleans())}


def scale(d, f):
    """The description with all amplitudes multiplied."""
    if isinstance(d, list):
        return [scale(x, f) for x in d]
    if not isinstance(d, dict):
        return d
    if d.get("t") == "op":
        k = dict(d["k"])
        for a, v in k.items():
            if a in ("amp", "offset", "G_amp", "start_amp", "final_amp"):
                k[a] = {"__c": [x * f for x in v["__c"]]} if isinstance(v, dict) else v * f
            elif a == "samples":
                k[a] = [x * f for x in v]
        return dict(d, k=k)
    return {a: scale(v, f) for a, v in d.items()}


def value(x):
    return complex(*x["__c"]) if isinstance(x, dict) else x


def matrix(m, lanes):
    names = [n for n in lanes if pc(n) in m or any(pc(n) in r for r in m.values())]
    a = np.eye(len(names), dtype=complex)
    for s, row in m.items():
        for t, v in row.items():
            i = [pc(n) for n in names].index(s)
            a[i, [pc(n) for n in names].index(t)] = value(v)
    return names, a


def check(c):
    names, M = matrix(c["m"], c["lanes"])
    if names and abs(np.linalg.det(M)) < 0.05:
        raise Discard("singular")
    d = c["d"]
    if c["again"]:  # the whole schedule twice, as one object
        d = {"t": "sched", "name": "twice", "reps": d["reps"], "ops": [
            {"op": dict(d, reps=1), "rel": 0.0}, {"op": dict(d, reps=1), "rel": 2e-8}]}
    evs, dur = Q.events(d)
    # envelopes of the schedule, and of the outputs that deliver it
    want = {n: Q.expected_env(evs, Q.LANES[n], dur, 1, 0, dur + 4, (0, 0)) for n in c["lanes"]}
    out = dict(want)
    if names:
        inv = np.linalg.inv(M)
        for j, n in enumerate(names):
            out[n] = sum(want[k] * inv[i, j] for i, k in enumerate(names))
    if any(max(np.max(np.abs(w.real)), np.max(np.abs(w.imag))) > 0.98 for w in out.values()):
        raise Discard("amplitudes")
    opts = {"crosstalk": {a: {b: str(complex(*v["__c"])).strip("()") if isinstance(v, dict)
                                   else v for b, v in r.items()} for a, r in c["m"].items()}} \
        if c["m"] else {}
    with sut("building the schedule"):
        if c["again"]:
            from quantify_scheduler import Schedule

            inner = build.make_schedule(dict(c["d"], reps=1), Q.clocks_of(c["lanes"]))
            s = Schedule("twice", repetitions=c["d"]["reps"])
            s.add(inner)
            s.add(inner, rel_time=2e-8)
        else:
            s = build.make_schedule(d, Q.clocks_of(c["lanes"]))
    with sut("compiling with a crosstalk matrix"):
        comp = Q.compile_schedule(s, Q.hardware(options=opts))
    seqs = Q.sequencers(comp)
    tb = Q.timebase()
    reps = d.get("reps", 1)
    n1 = max([q.trace.end for q in seqs] + [tb[0] + reps * (dur + tb[1])]) + 10
    got, ref = {}, {}
    for n in c["lanes"]:
        l = Q.LANES[n]
        qs = Q.find(seqs, l)
        expect(len(qs) <= 1, "%s: %d sequencers", n, len(qs))
        g = Q.envelope(qs[0], qs[0].trace, 0, n1) if qs else np.zeros(n1, complex)
        got[n] = g.real + 0j if l.real else g
        ref[n] = Q.expected_env(evs, l, dur, reps, 0, n1, tb)
    delivered = dict(got)
    for j, n in enumerate(names):
        delivered[n] = sum(got[k] * M[i, j] for i, k in enumerate(names))
    for n in c["lanes"]:
        bad = np.nonzero(np.abs(delivered[n] - ref[n]) > 3e-4)[0]
        if len(bad):
            i = bad[0]
            expect(False, "%s (%s the matrix): at t=%d ns %s is delivered, the schedule has %s "
                   "(%d samples differ)", n, "in" if n in names else "outside", i - tb[0],
                   np.round(delivered[n][i], 5), np.round(ref[n][i], 5), len(bad))
    coupled = [n for n in names if np.any(np.abs(want[n]) > 1e-3)]
    return ok(len(names) >= 2 and coupled, [f"matrix={len(names)}", f"driven={len(coupled)}",
                                            "again" if c["again"] else "once"])


def known_offsets():
    d = {"t": "sched", "name": "s", "reps": 1, "ops": [
        {"op": op("VoltageOffset", offset_path_I=0.2, offset_path_Q=0.0,
                  port="q0:fl", clock=Q.BASE)},
        {"op": op("IdlePulse", duration=sec(100))},
        {"op": op("VoltageOffset", offset_path_I=0.0, offset_path_Q=0.0,
                  port="q0:fl", clock=Q.BASE)},
        {"op": op("IdlePulse", duration=sec(100))}]}
    check({"lanes": ["fl0", "fl1"], "d": d, "again": False,
           "m": {pc("fl0"): {pc("fl1"): 0.25}, pc("fl1"): {pc("fl0"): 0.1}}})


KNOWN = [Known("P13-offsets", "voltage offsets (and pulses made of them before compilation, such as "
               "stitched pulses) on a port in the crosstalk matrix are not compensated",
               known_offsets)]

SUBS = [
    Sub("delivered", case, check, quick=2200, thorough=40000,
        rule="real and complex matrices over 2-5 ports, overlapping and repeated pulses of all kinds, "
             "operations with several pulses, nested schedules and loops, schedules used twice as one "
             "object; non-trivial: >=2 ports coupled and a pulse on one of them"),
]

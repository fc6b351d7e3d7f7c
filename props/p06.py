"""P06: the compiled programs play the scheduled waveforms at the scheduled times."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vf import build, qgen, wave
from vf import qblox as Q
from vf.core import Sub, expect, ok, sut

TOL = 9e-5


def compile_case(c, hw=None, dev=None):
    lanes = c["lanes"]
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(lanes))
    with sut("compiling a schedule within the hardware's limits"):
        comp = Q.compile_schedule(s, hw or Q.hardware(), dev)
    return comp


def check_output(c, comp, shifts=None, what="output", wave_of=None, full=None):
    """Emulated envelope == reference envelope on every lane, at every ns.

    `full`: (events, duration, repetitions, sequencers) instead of those of the schedule."""
    d = c["d"]
    if full is None:
        evs, dur = Q.events(d)
        reps = d.get("reps", 1)
        seqs = Q.sequencers(comp)
    else:
        evs, dur, reps, seqs = full
    tb = Q.timebase()
    matched = set()
    active = 0
    for n in c["lanes"]:
        l = Q.LANES[n]
        qs = Q.find(seqs, l)
        if not Q.uses(evs, l):
            continue
        expect(len(qs) == 1, "%s: %d sequencers play this port and clock", n, len(qs))
        q = qs[0]
        expect(q.where not in matched, "%s: sequencer %s is shared with another port-clock", n,
               q.where)
        matched.add(q.where)
        tr = q.trace
        n1 = max(tr.end, tb[0] + reps * (dur + tb[1])) + 10
        got = Q.envelope(q, tr, -10, n1)
        want = Q.expected_env(evs, l, dur, reps, -10, n1, tb, (shifts or {}).get(n, 0),
                              wave_of=(wave_of or {}).get(n, wave.of))
        if l.real:
            expect(not np.any(want.imag), "generator: complex pulse on a real output")
            got = got.real + 0j
        bad = np.nonzero(np.abs(got - want) > TOL)[0]
        if len(bad):
            i = bad[0]
            expect(False, "%s (%s) %s: at t=%d ns (repetition %d) the program outputs %s, the "
                   "schedule has %s (%d differing samples)", n, q.where, what,
                   (i - 10 - tb[0]) % (dur + tb[1]) if dur else 0,
                   (i - 10 - tb[0]) // (dur + tb[1]), np.round(got[i], 6), np.round(want[i], 6),
                   len(bad))
        active += int(np.count_nonzero(np.abs(want) > 1e-3))
    for q in seqs:
        if q.where not in matched:
            tr = q.trace
            got = Q.envelope(q, tr, -10, tr.end + 10)
            expect(np.max(np.abs(got)) < TOL, "%s plays something although nothing is scheduled "
                   "on its ports", q.where)
    return evs, active, len(matched)


def check(c):
    comp = compile_case(c)
    evs, active, m = check_output(c, comp)
    kinds = {op["c"] for _, op, _ in evs}
    return ok(len([1 for e in evs if e[1]["c"] in Q.PULSES]) >= 2 and active > 0,
              [f"lanes={m}", *sorted(kinds), f"reps={c['d']['reps']}"])


@st.composite
def family(draw):
    """Long sampled pulses, each made from an earlier one by a small change."""
    n = draw(st.sampled_from([5, 16, 60, 130, 300, 600]))
    lanes = draw(st.sampled_from([["mw0"], ["fl0"], ["rf1"], ["ro0"], ["mw0", "fl0"]]))
    cplx = not any(Q.LANES[x].real for x in lanes) and draw(st.booleans())
    pos = st.integers(0, n - 1)
    change = st.one_of(
        st.tuples(st.just("set"), pos, st.sampled_from([0.5, -0.5, 0.0, 0.002])),
        st.tuples(st.just("tail"), pos, st.sampled_from([0.5, -0.5, 0.0])),
        st.tuples(st.just("head"), pos, st.sampled_from([0.5, -0.5, 0.0])),
        st.tuples(st.just("scale"), st.sampled_from([-1.0, 0.5, 0.999])),
        st.tuples(st.just("add"), st.sampled_from([0.01, -0.1, 0.001])),
        st.tuples(st.sampled_from(["rev", "roll", "longer", "same", "swap"])))
    return {"lanes": lanes, "n": n, "f": draw(st.sampled_from([0.0, 0.01, 0.07, 0.31])),
            "a": draw(st.sampled_from([0.3, 0.6, -0.45])), "q": draw(st.sampled_from([0.0, 0.2])) if cplx else 0.0,
            "ops": [{"of": draw(st.integers(0, 5)), "do": list(draw(change)), "lane": draw(st.integers(0, 1)),
                     "gap": draw(st.sampled_from([4, 5, 20]))} for _ in range(draw(st.integers(1, 6)))]}


def apply_change(w, do, real):
    k, a = do[0], do[1:]
    w = w.copy()
    if k == "set":
        w[a[0]] = a[1]
    elif k == "tail":
        w[a[0]:] = a[1]
    elif k == "head":
        w[:a[0] + 1] = a[1]
    elif k == "scale":
        w = w * a[0]
    elif k == "add":
        w = w + a[0]
    elif k == "rev":
        w = w[::-1]
    elif k == "roll":
        w = np.roll(w, 1)
    elif k == "longer":
        w = np.append(w, w[-1])
    elif k == "swap" and not real:
        w = w.imag + 1j * w.real
    return np.clip(w.real, -0.9, 0.9) + 1j * np.clip(w.imag, -0.9, 0.9)


def check_family(c):
    i = np.arange(c["n"])
    base = c["a"] * np.cos(2 * np.pi * c["f"] * i) + 1j * c["q"] * np.sin(2 * np.pi * c["f"] * i + 0.3)
    ws, ops = [base], []
    for o in [{"of": 0, "do": ["same"], "lane": 0, "gap": 4}, *c["ops"]]:
        l = Q.LANES[c["lanes"][o["lane"] % len(c["lanes"])]]
        w = apply_change(ws[o["of"] % len(ws)], o["do"], l.real)
        ws.append(w)
        w = np.round(w, 6)
        sm = [{"__c": [x.real, x.imag]} for x in w] if np.any(w.imag) else [float(x) for x in w.real]
        ops.append({"op": qgen.op("NumericalPulse", port=l.port, clock=l.clock, samples=sm,
                                  t_samples=[qgen.sec(j) for j in range(len(w))]),
                    "rel": qgen.sec(o["gap"])})
    d = {"t": "sched", "name": "family", "reps": 1, "ops": ops}
    r = check({"lanes": sorted(c["lanes"]), "d": d})
    return ok(True, [o["do"][0] for o in c["ops"]] + [f"n={c['n']}"]) if r else r


ALL = ["mw0", "mw0b", "fl0", "fl1", "ro0", "ro1", "rf1", "rf2", "rfro"]
FLAT = qgen.Knobs(ALL, ["pulse"] * 6 + ["idle", "offset"], depth=1, items=(2, 10), loops=0.05,
                  subs=0.15)
ONE = qgen.Knobs(["mw0", "fl0", "rf1"], ["pulse"] * 5 + ["idle", "offset"], depth=1,
                 items=(2, 12), loops=0.1, subs=0.1, reps=(1, 2))
MIX = qgen.Knobs(ALL, ["pulse"] * 5 + ["idle", "offset", "shift", "freq", "reset"], depth=2,
                 items=(2, 8), loops=0.2, subs=0.15, reps=(1, 2, 3))

SUBS = [
    Sub("waveforms", lambda: qgen.program(FLAT), check, quick=1400, thorough=30000,
        rule="all pulse types, offsets, idles and sub-schedules on up to 9 port-clocks of QCM, QRM, "
             "QCM-RF and QRM-RF outputs (complex and real); non-trivial: >=2 pulses and some output"),
    Sub("single output", lambda: qgen.program(ONE), check, quick=800, thorough=20000,
        rule="dense pulse trains on few outputs"),
    Sub("families", family, check_family, quick=300, thorough=8000,
        rule="sampled pulses of up to 600 ns that differ from an earlier one in a single sample, "
             "the tail, the sign, the order, the length or the quadrature"),
    Sub("mixed", lambda: qgen.program(MIX), check, quick=800, thorough=20000,
        rule="with phase/frequency operations and loops in between"),
]

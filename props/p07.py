"""P07: clock phase and frequency follow the schedule."""
from __future__ import annotations

from hypothesis import strategies as st

from props.p06 import check_output, compile_case
from vf import build, qgen
from vf import qblox as Q
from vf.core import Sub, expect, ok, sut

PHASE_TOL = 2e-3  # degrees; one phase step is 3.6e-7 degrees
FREQ_TOL = 0.13   # Hz; the frequency step is 0.25 Hz


def check_carrier(c, comp, evs, shifts=None, full=None):
    d = c["d"]
    if full is None:
        _, dur = Q.events(d)
        reps = d.get("reps", 1)
        seqs = Q.sequencers(comp)
    else:
        evs, dur, reps, seqs = full
    tb = Q.timebase()
    points = 0
    for n in c["lanes"]:
        l = Q.LANES[n]
        if not Q.uses(evs, l):
            continue
        q = Q.find(seqs, l)[0]
        tr = q.trace
        got = Q.carrier_of(q, tr)
        want = Q.expected_carrier(evs, l, dur, reps, tb, (shifts or {}).get(n, 0))
        if l.nco in (None, 0) and not l.baseband and not q.s.nco_en:
            continue
        # the oscillator is observable while something plays or is acquired
        ts = set()
        for p in tr.play:
            w = len(q.waves[p[1]])
            ts |= {p[0], p[0] + 1, p[0] + max(w - 1, 0)}
        for a in tr.acq:
            ts |= {a["t"], a["t"] + 1, a["t"] + (q.s.integration_length_acq or 4) - 1}
        for t in sorted(ts):
            pg, fg = got.at(t)
            pw, fw = want.at(t)
            rel = (t - tb[0]) % (dur + tb[1]) if dur else 0
            rep = (t - tb[0]) // (dur + tb[1])
            expect(abs(fg - fw) <= FREQ_TOL, "%s (%s): at t=%d ns of repetition %d the oscillator "
                   "runs at %r Hz, the schedule says %r Hz", n, q.where, rel, rep, fg, fw)
            expect(Q.angle_diff(pg, pw) <= PHASE_TOL, "%s (%s): at t=%d ns of repetition %d the "
                   "oscillator phase is %.4f deg, the schedule gives %.4f deg", n, q.where, rel,
                   rep, pg % 360, pw % 360)
            points += 1
    return points


def check(c):
    comp = compile_case(c)
    evs, active, m = check_output(c, comp)
    points = check_carrier(c, comp, evs)
    clk = [op["c"] for _, op, _ in evs if op["c"] in ("ShiftClockPhase", "SetClockFrequency",
                                                      "ResetClockPhase")]
    return ok(len(clk) >= 2 and points >= 2, [f"lanes={m}", *sorted(set(clk)),
                                              f"reps={c['d']['reps']}"])


def acq(draw, lane, name, b):
    """Single-shot free acquisition used only as an observation point."""
    if (name in b.mem and b.mem.get(("acq", name), 0) > 6):
        return None
    b.mem[("acq", name)] = b.mem.get(("acq", name), 0) + 1
    d = 100
    return qgen.op("SSBIntegrationComplex", duration=qgen.sec(d), port=lane.port,
                   clock=lane.clock, acq_channel=name, bin_mode={"__b": "append"}), d


LANES = ["mw0", "mw0b", "fl1", "ro0", "ro1", "rf1", "rf2", "rfro", "fl0c"]
KIN = ["pulse"] * 3 + ["shift", "shift", "freq", "reset", "idle"]
FLAT = qgen.Knobs(LANES, KIN, depth=1, items=(3, 12), loops=0.05, subs=0.15, reps=(1, 2, 3))
LOOP = qgen.Knobs(LANES, KIN, depth=2, items=(2, 7), loops=0.3, subs=0.15, reps=(1, 2))
SHARED = qgen.Knobs(["mw0", "fl0c", "rf1"], KIN + ["shift", "freq"], depth=2, items=(3, 9),
                    loops=0.25, subs=0.1, reps=(1, 2))


# ---------------------------------------------------------------- refusals
@st.composite
def limits(draw):
    """Clock operations around the limits: attained exactly or refused."""
    n = draw(st.sampled_from(["mw0", "ro0", "rf1", "rfro"]))
    l = Q.LANES[n]
    ops = [{"op": qgen.op("SquarePulse", amp=0.2, duration=20e-9, port=l.port, clock=l.clock),
            "rel": 0.0}]
    for i in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["shift", "freq", "freq", "reset", "pulse"]))
        if k == "shift":
            o = qgen.op("ShiftClockPhase", clock=l.clock, phase_shift=draw(st.one_of(
                st.floats(-1e4, 1e4).map(lambda x: round(x, 4)),
                st.sampled_from([359.9999999, 360.0, -360.0, 1e-7, -1e-7, 3600.0]))))
        elif k == "reset":
            o = qgen.op("ResetClockPhase", clock=l.clock)
        elif k == "pulse":
            o = qgen.op("SquarePulse", amp=0.3, duration=8e-9, port=l.port, clock=l.clock)
        else:
            o = qgen.op("SetClockFrequency", clock=l.clock, clock_freq_new=(l.lo or 0) + draw(
                st.one_of(st.floats(-600e6, 600e6).map(lambda x: round(x, 2)),
                          st.sampled_from([500e6, -500e6, 500e6 + 1, -500e6 - 1, 500e6 + 0.25,
                                           499999999.75, 0.0, 0.1, 0.125, 0.2, -0.25]),
                          st.integers(-2_000_000_000, 2_000_000_000).map(lambda x: x / 4))))
        ops.append({"op": o, "rel": qgen.sec(draw(st.integers(0, 8)))})
    ops.append({"op": qgen.op("SquarePulse", amp=0.2, duration=20e-9, port=l.port, clock=l.clock),
                "rel": qgen.sec(draw(st.sampled_from([4, 4, 20, 3, 0])))})
    return {"d": {"t": "sched", "name": "lim", "reps": draw(st.sampled_from([1, 2])), "ops": ops},
            "lanes": [n]}


def check_limits(c):
    l = Q.LANES[c["lanes"][0]]
    evs, dur = Q.events(c["d"])
    too_far = [op for _, op, _ in evs if op["c"] == "SetClockFrequency"
               and abs(op["k"]["clock_freq_new"] - (l.lo or 0)) > 500e6]
    ts = [t for t, _, _ in evs]
    close = any(0 < b - a < 4 for a, b in zip(ts, ts[1:]))
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(c["lanes"]))
    try:
        comp = Q.compile_schedule(s, Q.hardware())
    except Exception as e:  # noqa: BLE001
        clk = [t for t, op, _ in evs if op["c"] in ("ShiftClockPhase", "SetClockFrequency",
                                                    "ResetClockPhase")]
        # a refusal needs a reason: something out of range or too close together
        expect(too_far or close or len(set(ts)) < len(ts) or any(t + 4 > dur for t in clk),
               "refused without a reason: %s: %s", type(e).__name__, str(e)[:300])
        return ok(bool(too_far), ["refused"])
    expect(not too_far, "an unattainable clock frequency %s was accepted",
           too_far[0]["k"]["clock_freq_new"] if too_far else None)
    evs, _, _ = check_output(c, comp)
    n = check_carrier(c, comp, evs)
    return ok(n > 0, ["accepted"])


SUBS = [
    Sub("clock operations", lambda: qgen.program(FLAT), check, quick=1100, thorough=25000,
        rule="phase shifts, frequency changes and resets between pulses of many port-clocks; "
             "oscillator frequency and phase compared at every played sample range; non-trivial: "
             ">=2 clock operations and >=2 observation points"),
    Sub("in loops", lambda: qgen.program(LOOP), check, quick=900, thorough=25000,
        rule="the same in nested loops and sub-schedules with repetitions"),
    Sub("shared clock", lambda: qgen.program(SHARED), check, quick=700, thorough=20000,
        rule="one clock used on two ports (two modules)"),
    Sub("limits", limits, check_limits, quick=900, thorough=20000,
        rule="frequencies around and beyond +-500 MHz, sub-step phases, operations 0-8 ns apart: "
             "attained exactly or refused"),
]

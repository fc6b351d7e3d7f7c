"""P12: rewriting passes (stacking, long pulses, stitching) keep the waveform."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from props import p06, p07
from vf import build, gen, qgen
from vf import qblox as Q
from vf.core import Discard, Known, Sub, expect, ok, sut
from vf.qgen import op, r12, sec

ASSUMPTIONS = (
    "The output is emulated from the compiled Q1ASM programs and compared, at every ns, with the sum "
    "of the reference samples of all pulses and offsets scheduled on the port and clock.  Pulses that "
    "overlap in different (nested) schedules are not stacked (KNOWN-FINDING "
    "P12-stack-across-schedules); amplitudes stay within the output range.")

LANES = ["mw0", "fl0", "fl1", "rf1", "ro0"]


@st.composite
def piece(draw, lane, amp, long=True):
    """A pulse (a multiple of 4 ns long) whose samples stay below `amp`."""
    a = round(draw(st.sampled_from([1.0, -1.0, 0.5, 0.77])) * amp, 4)
    k = draw(st.sampled_from(["SquarePulse"] * 4 + ["RampPulse", "DRAGPulse", "GaussPulse",
                                                  "NumericalPulse", "SoftSquarePulse",
                                                  "StaircasePulse"]))
    d = 4 * draw(st.one_of(st.integers(1, 20), st.integers(1, 60),
                           st.integers(20, 400) if long and k == "SquarePulse"
                           else st.integers(1, 8)))
    kw = dict(port=lane.port, clock=lane.clock)
    if k == "SquarePulse":
        if not lane.real and draw(st.integers(0, 2)) == 0:
            a = {"__c": [a / 2, -a / 2]}
        return op(k, amp=a, duration=sec(d), **kw), d
    d = max(d, 8)
    if k == "RampPulse":
        return op(k, amp=a / 2, offset=a / 4, duration=sec(d), **kw), d
    if k == "StaircasePulse":
        return op(k, start_amp=a / 2, final_amp=a, num_steps=4, duration=sec(max(16, d)), **kw), \
            max(16, d)
    if k == "SoftSquarePulse":
        return op(k, amp=a, duration=sec(d), **kw), d
    if k == "NumericalPulse":
        n = draw(st.sampled_from([2, 3, 5]))
        step = max(1, d // (n - 1)) // 4 * 4 or 4
        sm = [round(a * draw(st.sampled_from([0, 1, -1, 0.5])), 4) for _ in range(n)]
        return op(k, samples=sm, t_samples=[sec(i * step) for i in range(n)], **kw), step * (n - 1)
    ph = 0.0 if lane.real else draw(st.sampled_from([0.0, 90.0, 30.0]))
    if k == "GaussPulse":
        return op(k, G_amp=a, duration=sec(d), phase=ph, **kw), d
    return op(k, G_amp=a / 2, D_amp=0.0 if lane.real else round(a / 8, 4), duration=sec(d),
              phase=ph, **kw), d


@st.composite
def group(draw, names, depth, loops=True, name="g"):
    """A schedule in which pulses on the same port and clock overlap."""
    items, ts, end = [], [], 0
    busy = {n: 0 for n in names}

    def put(o, s, d):
        # everything is placed relative to the first item, an idle at 0
        items.append({"op": o, "ref": 0, "pt": "start", "ptn": "start", "rel": r12(sec(s))})
        ts.append((s, s + d))

    items.append({"op": op("IdlePulse", duration=sec(4)), "rel": 0.0})
    now = 4
    for _ in range(draw(st.integers(1, 3))):
        x = draw(st.integers(0, 9))
        if depth and x < 3:
            body, d = draw(group(names, depth - 1, loops, name + "i"))
            n = 1
            if x < 2 and loops:
                n = draw(st.integers(1, 3))
                body = {"t": "loop", "n": n, "body": body}
            put(body, now, d * n)
            now += d * n + 4 * draw(st.integers(1, 5))
            continue
        top = now
        multi, taken, at = {}, set(), len(items)
        for n in draw(st.permutations(names))[: draw(st.integers(1, len(names)))]:
            lane = Q.LANES[n]
            m = draw(st.integers(1, 4))
            s0 = now + 4 * draw(st.integers(0, 10))
            for _ in range(m):
                o, d = draw(piece(lane, 0.95 / m))
                o["k"] = dict(o["k"])
                s = s0 + 4 * draw(st.one_of(st.integers(0, 5), st.integers(0, 40)))
                if draw(st.integers(0, 3)) == 0:
                    t0 = 4 * draw(st.integers(0, 6))
                    o["k"]["t0"] = sec(t0)
                    d += t0
                # all pulses of one operation on a port and clock count as one pulse when offsets are
                # checked for overlaps (documented), so there is at most one of them
                if n not in taken and draw(st.integers(0, 3)) == 0:
                    taken.add(n)
                    multi.setdefault(s, []).append((o, d))
                else:
                    put(o, s, d)
                top = max(top, s + d)
        lane = Q.LANES[draw(st.sampled_from(names))]
        if not lane.baseband and multi and draw(st.booleans()):
            # one operation from the start of the group, in which a clock's phase shifts first
            ops = [op("ShiftClockPhase", clock=lane.clock, phase_shift=draw(
                st.sampled_from([90.0, -30.5, 200.0])))]
            for s, more in multi.items():
                for o, _ in more:
                    o["k"]["t0"] = sec(s - now + round(o["k"].get("t0", 0) * 1e9))
                    ops.append(o)
            put({"t": "multi", "ops": ops}, now, max(s + d for s, v in multi.items()
                                                     for _, d in v) - now)
            items.insert(at, items.pop())
        else:
            for s, ops in multi.items():
                put({"t": "multi", "ops": [o for o, _ in ops]}, s, max(d for _, d in ops))
        now = top + 4 * draw(st.sampled_from([1, 1, 2, 25]))
    now += draw(st.sampled_from([4, 100]))
    put(op("IdlePulse", duration=sec(4)), now, 4)
    return {"t": "sched", "name": name, "ops": items}, now + 4


@st.composite
def stacks(draw, lanes=tuple(LANES)):
    names = draw(st.permutations(lanes))[: draw(st.integers(1, 3))]
    d, _ = draw(group(sorted(names), draw(st.integers(0, 2))))
    d["reps"] = draw(st.sampled_from([1, 1, 2]))
    return {"lanes": sorted(names), "d": qgen.repeat(draw, d)}


def overlaps(evs):
    """Number of pairs of pulses that overlap on a port and clock."""
    n = 0
    last = {}
    for t, o, _ in evs:
        if o["c"] in Q.PULSES:
            key = (o["k"]["port"], o["k"]["clock"])
            n += t < last.get(key, -1)
            last[key] = max(last.get(key, 0), t + Q.ns_of(Q.leaf_dur(o)) - Q.ns_of(
                o["k"].get("t0", 0) or 0))
    return n


def fits(c):
    """Within the range of the outputs and the waveform memory."""
    evs, dur = Q.events(c["d"])
    tb = (0, 0)
    for n in c["lanes"]:
        w = Q.expected_env(evs, Q.LANES[n], dur, 1, 0, dur + 1, tb)
        if max(np.max(np.abs(w.real)), np.max(np.abs(w.imag))) > 0.99:
            raise Discard("amplitudes")


def check_stack(c):
    fits(c)
    comp = p06.compile_case(c)
    evs, active, m = p06.check_output(c, comp, what="with overlapping pulses")
    p07.check_carrier(c, comp, evs)
    k = overlaps(evs)
    return ok(k >= 1 and active > 0, [f"overlaps={min(k, 6)}", f"lanes={m}"])


# ------------------------------------------------------------------ stitched pulses
@st.composite
def stitched(draw):
    """Long and stitched pulses, staircases, ramps and offsets, one after another, possibly
    overlapping with another pulse."""
    names = sorted(draw(st.permutations(["mw0", "fl0", "rf1"]))[: draw(st.integers(1, 2))])
    items = [{"op": op("IdlePulse", duration=sec(4)), "rel": 0.0}]
    clash = draw(st.booleans())
    end = 4
    for n in names:
        lane = Q.LANES[n]
        kw = dict(port=lane.port, clock=lane.clock)
        now = 4
        for _ in range(draw(st.integers(1, 4))):
            s = now + 4 * draw(st.integers(0, 10))
            k = draw(st.sampled_from(["long_square_pulse", "staircase_pulse", "long_ramp_pulse",
                                      "SquarePulse", "GaussPulse"]))
            a = draw(st.sampled_from([0.2, -0.35, 0.45]))
            d = 4 * draw(st.integers(2, 60))
            if k == "long_square_pulse":
                d = 4 * draw(st.integers(2, 200))
                o = op(k, amp=a, duration=sec(d), **kw)
            elif k == "SquarePulse":
                o = op(k, amp=a, duration=sec(d), **kw)
            elif k == "staircase_pulse":
                steps = draw(st.integers(2, 5))
                d = steps * 4 * draw(st.integers(2, 40))
                o = op(k, start_amp=a, final_amp=draw(st.sampled_from([0.1, -0.4, 0.0])),
                       num_steps=steps, duration=sec(d), **kw)
            elif k == "long_ramp_pulse":
                d = 4 * draw(st.integers(100, 500))
                o = op(k, amp=a, duration=sec(d), offset=draw(st.sampled_from([0.0, 0.1, -0.2])),
                       part_duration_ns=4 * draw(st.integers(10, 100)), **kw)
            else:
                o = op(k, G_amp=a, duration=sec(d), phase=0.0, **kw)
            if clash and now > 4 and draw(st.booleans()):
                s = max(4, now - 4 * draw(st.integers(1, 30)))
            items.append({"op": o, "ref": 0, "pt": "start", "ptn": "start", "rel": r12(sec(s))})
            now = max(now, s + d)
        end = max(end, now)
    items.append({"op": op("IdlePulse", duration=sec(8)), "ref": 0, "pt": "start", "ptn": "start",
                  "rel": r12(sec(end))})
    return {"lanes": names, "d": {"t": "sched", "name": "s", "reps": 1, "ops": items}}


STITCHED = {"long_square_pulse", "staircase_pulse", "long_ramp_pulse"}


def shape(o):
    from vf import wave

    k = dict(o["k"])
    if o["c"] == "long_square_pulse":
        return wave.of(op("SquarePulse", **k))
    if o["c"] == "long_ramp_pulse":
        k.pop("part_duration_ns")
        return wave.of(op("RampPulse", **k))
    if o["c"] == "staircase_pulse":
        n = round(k["duration"] * 1e9)
        step = n // k["num_steps"]
        lv = np.linspace(k["start_amp"], k["final_amp"], k["num_steps"])
        return np.repeat(lv, step).astype(complex)
    return wave.of(o)


def check_stitched(c):
    spans, clash = {}, False
    want = {}
    d = c["d"]
    total = max(round(it["rel"] * 1e9) for it in d["ops"]) + 8
    for it in d["ops"][1:-1]:
        o = it["op"]
        s = round(it["rel"] * 1e9)
        w = shape(o)
        key = o["k"]["port"]
        arr = want.setdefault(key, np.zeros(total, complex))
        arr[s:s + len(w)] += w
        for a, b, st_ in spans.setdefault(key, []):
            if s < b and a < s + len(w):
                both = st_ or o["c"] in STITCHED or (len(w) >= 100 and o["c"] == "SquarePulse") \
                    or (b - a >= 100)
                clash = clash or both
        spans[key].append((s, s + len(w), o["c"] in STITCHED))
    if any(np.max(np.abs(w)) > 0.99 for w in want.values()):
        raise Discard("amplitudes")
    with sut("building the schedule"):
        s = build.make_schedule(d, Q.clocks_of(c["lanes"]))
    try:
        comp = Q.compile_schedule(s, Q.hardware())
    except Exception as e:  # noqa: BLE001
        expect(clash and isinstance(e, RuntimeError) and "overlap" in str(e),
               "refused with %s: %s", type(e).__name__, e)
        return ok(True, ["refused"])
    for n in c["lanes"]:
        l = Q.LANES[n]
        if l.port not in want:
            continue
        qs = Q.find(Q.sequencers(comp), l)
        expect(len(qs) == 1, "%s: %d sequencers", n, len(qs))
        tr = qs[0].trace
        b0 = Q.timebase()[0]
        got = Q.envelope(qs[0], tr, 0, tr.end + 10)
        ref = np.zeros(max(len(got), b0 + total), complex)
        ref[b0:b0 + total] = want[l.port]
        got = np.pad(got, (0, len(ref) - len(got)))
        if l.real:
            got = got.real + 0j
        bad = np.nonzero(np.abs(got - ref) > 2e-4)[0]
        if len(bad):
            i = bad[0]
            expect(False, "%s: at t=%d ns the program outputs %s, the schedule has %s (%d samples "
                   "differ)", n, i - b0, np.round(got[i], 5), np.round(ref[i], 5), len(bad))
    return ok(len(d["ops"]) > 3, ["clash" if clash else "clear"])


def known_across():
    d = {"t": "sched", "name": "s", "reps": 1, "ops": [
        {"op": op("SquarePulse", amp=0.5, duration=4e-8, port="q0:fl", clock=Q.BASE)},
        {"op": {"t": "sched", "name": "inner", "ops": [
            {"op": op("SquarePulse", amp=0.25, duration=8e-9, port="q0:fl", clock=Q.BASE)}]},
         "ref": 0, "pt": "start", "rel": 1.2e-8},
        {"op": op("IdlePulse", duration=1e-7)}]}
    p06.check_output({"d": d, "lanes": ["fl0"]}, p06.compile_case({"d": d, "lanes": ["fl0"]}))


def known_offset():
    d = {"t": "sched", "name": "s", "reps": 1, "ops": [
        {"op": op("VoltageOffset", offset_path_I=0.2, offset_path_Q=0.0, port="q0:fl",
                  clock=Q.BASE)},
        {"op": op("SquarePulse", amp=0.5, duration=2e-7, port="q0:fl", clock=Q.BASE),
         "rel": 2e-8},
        {"op": op("IdlePulse", duration=1e-7)}]}
    p06.check_output({"d": d, "lanes": ["fl0"]}, p06.compile_case({"d": d, "lanes": ["fl0"]}))


KNOWN = [
    Known("P12-stack-across-schedules",
          "pulses on one port and clock that overlap but are in different (nested) schedules are "
          "neither stacked nor rejected: the later one replaces the earlier one", known_across),
    Known("P12-long-pulse-replaces-offset",
          "a square pulse of 100 ns or more played while a VoltageOffset is active on the same port "
          "and clock replaces the offset, and leaves it at 0 afterwards", known_offset),
]

SUBS = [
    Sub("stacking", stacks, check_stack, quick=2000, thorough=40000,
        rule="pulses overlapping on the same port and clock, as operations of their own or as parts of "
             "operations with several pulses, in nested schedules and loop bodies: emulated output is "
             "the sum; non-trivial: >=1 overlap"),
    Sub("stitched", stitched, check_stitched, quick=2500, thorough=50000,
        rule="long square, staircase, long ramp and ordinary pulses; half with overlaps, which are "
             "refused or summed"),
]

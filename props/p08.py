"""P08: loops and repetitions run exactly as written on every sequencer."""
from __future__ import annotations

from hypothesis import strategies as st

from props.p06 import check_output, compile_case
from props.p07 import acq, check_carrier
from vf import build, qgen
from vf import qblox as Q
from vf.core import Discard, Sub, expect, ok, sut


def check_run(c, comp, dur=None):
    """Every sequencer starts synchronised, takes the scheduled time and stops."""
    d = c["d"]
    if dur is None:
        dur = Q.events(d)[1]
    reps = d.get("reps", 1)
    b0, ov = Q.timebase()
    tail = tail_time()
    for q in Q.sequencers(comp):
        tr = q.trace
        n = sum(1 for i in q.parsed[0] if i[0] == "wait_sync")
        expect(n == 1, "%s: %d wait_sync instructions", q.where, n)
        expect(q.s.sync_en is True, "%s takes part but is not synchronised", q.where)
        expect(tr.end == b0 + reps * (dur + ov) + tail,
               "%s: %d repetitions of a %d ns schedule take %d ns on this sequencer, expected %d",
               q.where, reps, dur, tr.end - b0 - tail, reps * (dur + ov))
        expect(not tr.pending, "%s: parameters are set but never applied", q.where)
    return len(Q.sequencers(comp))


_tail = []


def tail_time():
    if not _tail:
        d = {"t": "sched", "name": "calibration", "reps": 2, "ops": [
            {"op": {"t": "op", "c": "SquarePulse",
                    "k": {"amp": 0.3, "duration": 48e-9, "port": "q0:fl", "clock": Q.BASE}}}]}
        with sut("compiling the calibration schedule"):
            comp = Q.compile_schedule(build.make_schedule(d), Q.hardware(["fl0"]))
        b0, ov = Q.timebase()
        t = Q.sequencers(comp)[0].trace.end - b0 - 2 * (48 + ov)
        _tail.append(t)
    return _tail[0]


def nloops(op):
    if op["t"] == "loop":
        return 1 + nloops(op["body"])
    if op["t"] == "sched":
        return sum(nloops(i["op"]) for i in op["ops"])
    return 0


def check(c):
    comp = compile_case(c)
    evs, active, m = check_output(c, comp)
    check_carrier(c, comp, evs)
    n = check_run(c, comp)
    k = nloops(c["d"])
    return ok(active > 0 and (k > 0 or c["d"]["reps"] > 1),
              [f"loops={min(k, 4)}", f"sequencers={n}", f"reps={c['d']['reps']}"])


LANES = ["mw0", "mw0b", "fl0", "ro0", "rf1", "rfro", "fl0c"]
NEST = qgen.Knobs(LANES, ["pulse"] * 5 + ["idle", "shift", "offset", "freq"], depth=3,
                  items=(2, 6), loops=0.5, subs=0.15, reps=(1, 2, 3), acq=acq)
ACQ = qgen.Knobs(["ro0", "ro1", "rfro", "mw0"], ["pulse"] * 3 + ["acq", "acq", "idle", "shift"],
                 depth=2, items=(2, 5), loops=0.4, subs=0.1, reps=(1, 2), acq=acq)


# ------------------------------------------------------------------ long and many
@st.composite
def long_runs(draw):
    """Big counts, long waits: timing of every sequencer and of every pulse."""
    ls = draw(st.sampled_from([["fl0", "mw0"], ["mw0", "ro0"], ["rf1"], ["fl0", "rfro", "mw0b"]]))
    ops = []
    budget = [600]

    def body(depth, mult):
        its = []
        for _ in range(draw(st.integers(1, 3))):
            x = draw(st.integers(0, 5))
            if depth and x == 0:
                n = draw(st.sampled_from([1, 2, 5, 10, 17, 40]))
                if mult * n <= 120:
                    b = body(depth - 1, mult * n)
                    its.append({"op": {"t": "loop", "n": n, "body": b}, "rel": qgen.sec(8)})
                    continue
            if x <= 2 and budget[0] > mult * 4:
                budget[0] -= mult * 4
                l = Q.LANES[draw(st.sampled_from(ls))]
                its.append({"op": qgen.op("SquarePulse", amp=draw(qgen.A), port=l.port,
                                          clock=l.clock, duration=qgen.sec(draw(st.sampled_from(
                                              [4, 20, 99, 100, 1000, 65536, 70000, 200000])))),
                            "rel": qgen.sec(draw(WAITS) if depth else draw(st.integers(4, 100)))})
            else:
                its.append({"op": qgen.op("IdlePulse", duration=qgen.sec(draw(WAITS))),
                            "rel": 0.0})
        its.append({"op": qgen.op("IdlePulse", duration=qgen.sec(draw(WAITS))), "rel": 0.0})
        its[0]["rel"] = 0.0
        if its[0]["op"]["t"] == "loop":
            its.insert(0, {"op": qgen.op("IdlePulse", duration=qgen.sec(8)), "rel": 0.0})
        return {"t": "sched", "name": "b", "reps": 1, "ops": its}

    d = body(2, 1)
    d["reps"] = draw(st.sampled_from([1, 1, 2, 7, 30]))
    l = Q.LANES[ls[0]]
    d["ops"].insert(0, {"op": qgen.op("SquarePulse", amp=0.5, duration=20e-9, port=l.port,
                                      clock=l.clock), "rel": 0.0})
    d["ops"][1]["rel"] = 8e-9
    return {"d": d, "lanes": sorted(ls)}


WAITS = st.one_of(st.integers(4, 300), st.sampled_from(
    [4, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65539, 65540, 131064, 131068, 131072,
     131073, 196600, 655320, 655324, 1_000_000, 3_276_600, 3_300_001, 70_000_000]),
    st.integers(60_000, 140_000), st.integers(65528, 65544), st.integers(131060, 131080))


def check_long(c):
    d = c["d"]
    comp = compile_case(c)
    evs, dur = Q.events(d)
    reps = d["reps"]
    b0, ov = Q.timebase()
    n = check_run(c, comp, dur)
    total = 0
    for name in c["lanes"]:
        l = Q.LANES[name]
        mine = [(t, op) for t, op, _ in evs
                if op["c"] == "SquarePulse" and op["k"]["port"] == l.port
                and op["k"]["clock"] == l.clock]
        if not mine:
            continue
        q = Q.find(Q.sequencers(comp), l)[0]
        tr = q.run()
        # what the output is at any time, from the program (held value) and from the schedule
        got = levels(q, tr)
        want = []
        for r in range(reps):
            for t, op in mine:
                w = round(op["k"]["duration"] * 1e9)
                t += b0 + r * (dur + ov)
                want.append((t, t + w, float(op["k"]["amp"])))
        want = [x for x in want if abs(x[2]) > 1e-4]
        expect(len(got) == len(want), "%s: %d pulses played, %d scheduled over %d repetitions",
               name, len(got), len(want), reps)
        for g, w in zip(got, want):
            expect(g[0] == w[0] and g[1] == w[1] and abs(g[2] - w[2]) < 9e-5,
                   "%s: pulse played %r, scheduled %r (start, end, amplitude)", name, g, w)
        total += len(want)
    return ok(total >= 2 and dur * reps > 65536, [f"reps={reps}", f"sequencers={n}"])


def levels(q, tr):
    """(start, end, amplitude) of every square pulse played."""
    out = []
    pts = []
    off = 0.0
    ev = sorted([(t, 0, a / 32768) for t, a, b in tr.offs]
                + [(p[0], 1, p) for p in tr.play], key=lambda e: (e[0], e[1]))
    for t, kind, x in ev:
        if kind == 0:
            off = x
            pts.append((t, off))
        else:
            w = q.waves[x[1]]
            if not len(w) or abs(w[0] * x[3]) < 1:
                pts.append((t, off))
                continue
            if float(w.max() - w.min()) > 1e-6:
                raise Discard("not a square waveform")
            pts.append((t, off + w[0] * x[3] / 32768))
            pts.append((t + len(w), off))
    cur, t0 = 0.0, None
    for i, (t, a) in enumerate(pts):
        if i + 1 < len(pts) and pts[i + 1][0] == t:
            continue
        if abs(a - cur) < 9e-5:
            continue
        if abs(cur) > 1e-4:
            out.append((t0, t, cur))
        cur, t0 = a, t
    expect(abs(cur) < 1e-4, "%s ends with a non-zero output %r", q.where, cur)
    return out


# ------------------------------------------------------------------ metamorphic: unrolling
def unroll(op):
    if op["t"] == "loop":
        b = unroll(op["body"])
        return {"t": "sched", "name": "u", "reps": 1,
                "ops": [{"op": b, "rel": 0.0} for _ in range(op["n"])]}
    if op["t"] == "sched":
        return dict(op, ops=[dict(i, op=unroll(i["op"])) for i in op["ops"]])
    return op


def check_unroll(c):
    u = {"d": unroll(c["d"]), "lanes": c["lanes"]}
    a, b = compile_case(c), compile_case(u)
    sa = {q.where: q for q in Q.sequencers(a)}
    sb = {q.where: q for q in Q.sequencers(b)}
    expect(set(sa) == set(sb), "looped schedule uses sequencers %s, unrolled one %s", sorted(sa),
           sorted(sb))
    import numpy as np

    for w, qa in sa.items():
        qb = sb[w]
        ta, tb = qa.trace, qb.trace
        expect(ta.end == tb.end, "%s: looped program takes %d ns, unrolled %d ns", w, ta.end,
               tb.end)
        x, y = Q.envelope(qa, ta, 0, ta.end), Q.envelope(qb, tb, 0, tb.end)
        bad = np.nonzero(np.abs(x - y) > 9e-5)[0]
        expect(not len(bad), "%s: looped and unrolled schedules differ in output from t=%d", w,
               bad[0] if len(bad) else 0)
        expect([(t["t"], t["kind"]) for t in ta.acq] == [(t["t"], t["kind"]) for t in tb.acq],
               "%s: acquisitions at different times", w)
        ca, cb = Q.carrier_of(qa, ta), Q.carrier_of(qb, tb)
        for p in ta.play:
            expect(Q.angle_diff(ca.at(p[0])[0], cb.at(p[0])[0]) < 2e-3,
                   "%s: looped and unrolled carrier phases differ at t=%d", w, p[0])
    return ok(nloops(c["d"]) > 0, [f"loops={min(nloops(c['d']), 4)}"])


# ------------------------------------------------------------------ operations beside a loop
@st.composite
def beside(draw):
    """Operations outside a loop (possibly nested) but at any time relative to it."""
    names = draw(st.sampled_from([["fl0"], ["mw0"], ["mw0", "fl0c"], ["ro0", "mw0b"]]))
    l = Q.LANES[names[0]]

    def sq(lane, a, d, t0=0):
        return qgen.op("SquarePulse", amp=a, duration=qgen.sec(d), port=lane.port,
                       clock=lane.clock, t0=qgen.sec(t0))

    its = []
    for _ in range(draw(st.integers(1, 2))):
        its.append({"op": sq(l, draw(qgen.A), draw(st.integers(4, 12))),
                    "rel": qgen.sec(draw(st.integers(4, 40))) if its else 0.0})
    its.append({"op": qgen.op("IdlePulse", duration=qgen.sec(draw(st.integers(4, 80)))),
                "rel": 0.0})
    body = {"t": "sched", "name": "b", "reps": 1, "ops": its}
    if draw(st.booleans()):
        body = {"t": "sched", "name": "b2", "reps": 1, "ops": [
            {"op": {"t": "loop", "n": draw(st.integers(1, 2)), "body": body}, "rel": 0.0},
            {"op": qgen.op("IdlePulse", duration=qgen.sec(draw(st.integers(4, 40)))),
             "rel": 0.0}]}
    loop = {"t": "loop", "n": draw(st.integers(1, 3)), "body": body}
    ops = [{"op": qgen.op("IdlePulse", duration=200e-9), "rel": 0.0}, {"op": loop, "rel": 0.0}]
    dur = Q.ns_of(build.duration(loop, Q.leaf_dur))
    for _ in range(draw(st.integers(1, 2))):
        o = Q.LANES[draw(st.sampled_from(names))]
        at = draw(st.integers(-60, dur + 60))
        k = draw(st.sampled_from(["sq", "sq", "shift", "idle", "t0", "offset"]))
        if k == "shift" and not l.baseband:
            x = qgen.op("ShiftClockPhase", clock=o.clock, phase_shift=draw(st.sampled_from(
                [90.0, -30.0, 10.0])))
        elif k == "idle":
            x = qgen.op("IdlePulse", duration=qgen.sec(draw(st.integers(0, 50))))
        elif k == "offset":
            x = qgen.op("VoltageOffset", offset_path_I=0.25, offset_path_Q=0.0, port=o.port,
                        clock=o.clock)
        else:
            t0 = draw(st.integers(1, 100)) if k == "t0" else 0
            x = sq(o, 0.5, draw(st.integers(4, 9)), t0)
            at -= t0
        ops.insert(draw(st.sampled_from([len(ops), 1])) if k != "shift" else len(ops),
                   {"op": x, "rel": qgen.sec(200 + at), "ref": 0, "pt": "start", "ptn": "start"})
    # labels are positions: references stay at item 0; the loop itself is placed explicitly
    for it in ops[1:]:
        if it["op"] is loop:
            it.update(ref=0, pt="end", ptn="start", rel=0.0)
    ops.append({"op": qgen.op("IdlePulse", duration=qgen.sec(200 + dur + 300)), "ref": 0,
                "pt": "start", "ptn": "start", "rel": 0.0})
    return {"d": {"t": "sched", "name": "x", "reps": draw(st.sampled_from([1, 2])), "ops": ops},
            "lanes": sorted(names)}


def check_beside(c):
    d = c["d"]
    evs, dur = Q.events(d)
    # at least 4 ns between all instructions of this schedule, so only the loop can be in the way
    per = {}
    for t, op, path in evs:
        k = op["k"]
        for n in c["lanes"]:
            l = Q.LANES[n]
            if k.get("clock", Q.BASE) == l.clock and k.get("port", l.port) == l.port and (
                    op["c"] != "IdlePulse"):
                per.setdefault(n, []).append((t, t + max(4, Q.ns_of(k.get("duration", 0)))))
    for n, v in per.items():
        v.sort()
        if any(b[0] < a[1] for a, b in zip(v, v[1:])):
            raise Discard("overlapping instructions")
    with sut("building the schedule"):
        s = build.make_schedule(d, Q.clocks_of(c["lanes"]))
    try:
        comp = Q.compile_schedule(s, Q.hardware())
    except Exception as e:  # noqa: BLE001
        inside = False
        for it in d["ops"]:
            if it["op"]["t"] == "loop":
                a = 200
                b = a + Q.ns_of(build.duration(it["op"], Q.leaf_dur))
                inside = any(a - 5 <= t <= b + 5 for t, op, path in evs if path and not any(
                    isinstance(p, tuple) and p[0] == "loop" for p in path)
                    and op["c"] != "IdlePulse")
        expect(inside, "refused although no operation is inside the loop's time: %s: %s",
               type(e).__name__, str(e)[:300])
        return ok(True, ["refused"])
    check_output(c, comp)
    check_carrier(c, comp, evs)
    check_run(c, comp)
    return ok(True, ["accepted"])


SUBS = [
    Sub("nested loops", lambda: qgen.program(NEST), check, quick=900, thorough=25000,
        rule="loops nested up to 3 deep, any bodies, several sequencers and repetitions; output, "
             "carrier, run time of every sequencer; non-trivial: output and a loop or repetitions"),
    Sub("with acquisitions", lambda: qgen.program(ACQ), check, quick=500, thorough=15000,
        rule="readout sequencers with acquisitions in loops"),
    Sub("long runs", long_runs, check_long, quick=600, thorough=15000,
        rule="waits around multiples of the longest single wait, counts up to 40 per level, up to "
             "30 repetitions; non-trivial: >=2 pulses and total time > 65536 ns"),
    Sub("unrolling", lambda: qgen.program(ACQ), check_unroll, quick=400, thorough=10000,
        rule="looped and written-out schedules give the same output, times and phases"),
    Sub("beside a loop", beside, check_beside, quick=700, thorough=15000,
        rule="operations outside a loop at any time before, during and after it, on the same or "
             "another port-clock: played once at their time or refused"),
]

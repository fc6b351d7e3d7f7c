"""P14: RF outputs are on whenever a drive pulse plays and off otherwise."""
from __future__ import annotations

import json

from hypothesis import strategies as st

from props import p06, p07
from vf import build, qgen
from vf import qblox as Q
from vf.core import Sub, expect, ok, sut
from vf.qgen import op, sec

ASSUMPTIONS = (
    "The state of an RF output is the OR over the module's sequencers of its bit in the marker "
    "register (emulated Q1ASM).  Everything is on a 4 ns grid and the schedule starts and ends with "
    "enough idle time, so that the switch can be toggled (without it compilation is refused).  The "
    "switch may stay on during a loop that contains drive pulses, from its first pulse, and where a "
    "switching time falls inside any control flow on the same port or clock.  An offset that is not "
    "set back to zero opens no window (as documented).")

# port -> (module, marker bit)
RF = {"q1:mw": (3, 1), "q2:mw": (3, 2), "q3:mw": (5, 2)}
LANES = ["rf1", "rf1b", "rf2", "rfm", "mw0", "fl0"]


# multiples of 4 ns
G4 = st.one_of(st.sampled_from([0, 0, 4, 8, 36, 40, 44, 48, 80, 84]),
               st.integers(0, 60).map(lambda x: 4 * x))


@st.composite
def block(draw, names, depth, dirty):
    """Sequential and parallel drive pulses, phase shifts, offsets, loops on a 4 ns grid."""
    items, cur, starts, total = [], {n: 0 for n in names}, [], 0

    def add(o, s, dur):
        nonlocal total
        it = {"op": o, "rel": 0.0}
        if items:
            ref = draw(st.integers(max(0, len(items) - 3), len(items) - 1))
            end = draw(st.booleans())
            it.update(ref=ref, pt="end" if end else "start", ptn="start",
                      rel=sec(s - starts[ref][1 if end else 0]))
        items.append(it)
        starts.append((s, s + dur))
        total = max(total, s + dur)

    first = draw(G4)
    add(op("IdlePulse", duration=sec(first)), 0, first)
    for _ in range(draw(st.integers(1, 7 if depth == 2 else 4))):
        n = draw(st.sampled_from(names))
        l = Q.LANES[n]
        s = cur[n] + draw(G4)
        k = draw(st.sampled_from(["pulse"] * 4 + ["offset", "shift", "loop", "loop", "sub", "op"]))
        kw = dict(port=l.port, clock=l.clock)
        if k == "pulse" or (k in ("offset", "shift", "op") and l.baseband):
            d = 4 * draw(st.one_of(st.integers(1, 15), st.sampled_from([25, 60])))
            c = draw(st.sampled_from(["SquarePulse", "SquarePulse", "GaussPulse"]))
            t0 = draw(st.sampled_from([0, 0, 0, 4, 20]))
            o = op(c, **{"amp" if c == "SquarePulse" else "G_amp": draw(
                st.sampled_from([0.2, -0.4]))}, duration=sec(d), **kw)
            if c == "GaussPulse":
                o["k"]["phase"] = 0.0
            if d >= 100 and n in dirty:
                continue
            if t0:
                o["k"]["t0"] = sec(t0)
            add(o, s, d + t0)
            cur[n] = s + d + t0
        elif k == "offset":
            dirty.add(n)
            d = 4 * draw(st.integers(1, 30))
            for a, t in ((draw(st.sampled_from([0.1, -0.2])), s), (0.0, s + d)):
                if draw(st.integers(0, 7)) > 0 or a == 0.0:
                    i, q = draw(st.permutations([a, draw(st.sampled_from([0.0, a]))]))
                    add(op("VoltageOffset", offset_path_I=i, offset_path_Q=q, **kw), t, 0)
            cur[n] = s + d + 4
        elif k == "shift":
            s = max([cur[m] for m in names if Q.LANES[m].clock == l.clock]) + draw(G4)
            add(op("ShiftClockPhase", phase_shift=90.0, clock=l.clock), s, 0)
            cur[n] = s + 4
        elif k == "op":
            d = 4 * draw(st.integers(1, 10))
            cnt = draw(st.integers(1, 3))
            s = max(s, 4)
            add({"t": "loop", "n": cnt, "body": op("SquarePulse", amp=0.3, duration=sec(d), **kw)},
                s, d * cnt)
            cur[n] = s + d * cnt
        elif depth > 0:
            b, d = draw(block(draw(st.sampled_from([names, [n]])), depth - 1, dirty))
            s = max([4 if k == "loop" else 0] + list(cur.values())) + draw(G4)
            cnt = 1
            if k == "loop":
                cnt = draw(st.integers(1, 3))
                b = {"t": "loop", "n": cnt, "body": b}
                s += 4 if any(cur.values()) else 0
            add(b, s, d * cnt)
            cur = {m: s + d * cnt for m in names}
    end = max(list(cur.values()) + [total]) + 4 + (draw(G4) if draw(st.booleans()) else 0)
    add(op("IdlePulse", duration=sec(end - total)), total, end - total)
    return {"t": "sched", "name": "b", "reps": 1, "ops": items}, end


@st.composite
def case(draw):
    names = sorted(draw(st.permutations(LANES))[: draw(st.integers(1, 3))])
    if not any(Q.LANES[n].port in RF for n in names):
        names.append("rf1")
    b, dur = draw(block(names, draw(st.sampled_from([0, 1, 1, 2])), set()))
    buf = draw(st.sampled_from([20, 20, 4, 8, 40, 100, 0]))
    txt = json.dumps(b)
    if buf == 0 and ('"t0"' in txt or "loop" in txt):  # no time to switch around these
        buf = 4
    pre = draw(st.sampled_from([0, 4, 20, 200]))
    # room to switch before a loop, and after the last pulse
    has_loop = "loop" in txt
    if '"n": 1,' in txt:
        pre = 200
    d = {"t": "sched", "name": "top", "reps": draw(st.sampled_from([1, 1, 2, 3])), "ops": [
        {"op": op("IdlePulse", duration=sec(max(pre, 4 if has_loop else 0)))}, {"op": b},
        {"op": op("IdlePulse", duration=sec(buf + draw(st.sampled_from([8, 40]))))}]}
    if buf:
        d = qgen.repeat(draw, d, 200)
    return {"d": d, "lanes": names, "buf": buf, "auto": draw(st.integers(0, 9)) > 0}


def regions(d, t0=0):
    """(start, end, {(port, clock)}) of every control-flow operation, in schedule time (ns)."""
    out = []

    def uses(x):
        if x["t"] == "sched":
            return set().union(*[uses(i["op"]) for i in x["ops"]])
        if x["t"] == "loop":
            return uses(x["body"])
        return {(x["k"].get("port"), x["k"].get("clock"))}

    def walk(x, t):
        if x["t"] == "sched":
            ts = build.solve(x, lambda o: build.duration(o, Q.leaf_dur))[0]
            for it, s in zip(x["ops"], ts, strict=True):
                walk(it["op"], t + s)
        elif x["t"] == "loop":
            n = Q.ns_of(build.duration(x["body"], Q.leaf_dur))
            out.append((Q.ns_of(t), Q.ns_of(t) + n * x["n"], uses(x["body"])))
            for i in range(x["n"]):
                walk(x["body"], t + i * n * 1e-9)

    walk(d, t0)
    return out


def windows(evs, port, clock):
    """Times at which something is driven: pulses and closed offset windows."""
    w, on = [], None
    for t, o, _ in evs:
        k = o["k"]
        if (k.get("port"), k.get("clock")) != (port, clock):
            continue
        if o["c"] == "VoltageOffset":
            nz = k["offset_path_I"] != 0 or k["offset_path_Q"] != 0
            if nz and on is None:
                on = t
            elif not nz and on is not None:
                w.append((on, t))
                on = None
        elif o["c"] in Q.PULSES:
            w.append((t, t + Q.ns_of(o["k"]["duration"])))
    return w, on


def union(iv, gap=0):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + gap:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def allowed(must, regs, dangling):
    """Times at which the switch may be on, given those at which it must be on."""
    iv = union(must + dangling, 3)
    while True:
        new = [list(x) for x in iv]
        for a, b, _ in regs:
            for x in iv:
                if x[0] < b and a - 4 < x[1]:
                    # a switching time inside (or just before) control flow moves outside; loops
                    # with pulses stay on
                    new.append([min(max(a - 4, 0), x[0]), max(b + 4, x[1])])
        new = union(new, 3)
        if new == iv:
            return iv
        iv = new


def check(c):
    lanes, b = c["lanes"], c["buf"]
    hw = Q.hardware(lanes, module_extra={str(m): {"rf_output_on": False} for m in {
        Q.LANES[n].mod for n in lanes if Q.LANES[n].port in RF}})
    if c["auto"]:
        hw["compiler_options"] = {"auto_rf_switch": True, "auto_rf_switch_ramp_buffer": sec(b)}
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(lanes))
    with sut("compiling with automatic RF switching"):
        comp = Q.compile_schedule(s, hw)
    evs, active, _ = p06.check_output(c, comp)
    p07.check_carrier(c, comp, evs)
    _, dur = Q.events(c["d"])
    seqs = Q.sequencers(comp)
    tb = Q.timebase()
    reps = c["d"]["reps"]
    regs = regions(c["d"])
    toggles = 0
    for port, (mod, bit) in RF.items():
        mine = [n for n in lanes if Q.LANES[n].port == port]
        if not any(Q.LANES[n].mod == mod for n in lanes):
            continue
        must, may = [], []
        for n in mine:
            l = Q.LANES[n]
            w, open_ = windows(evs, l.port, l.clock)
            m = [(max(0, x - b), y + b) for x, y in w]
            rs = [r for r in regs if (l.port, l.clock) in r[2] or (None, l.clock) in r[2]]
            must += m
            # an unclosed offset: the switch may be on from there
            d = [] if open_ is None else [(max(0, open_ - b), dur)]
            # gaps of at most 2 b between pulses are not switched
            # the switch stays on until the end of a loop with pulses
            d += [(max(0, x - b), r[1] + b) for r in rs for x, _ in w if r[0] <= x < r[1]]
            may += allowed(m, rs, d)
        if not c["auto"]:
            must, may = [], []
        must, may = union(must), union(may, 3)
        end = max([q.trace.end for q in seqs] + [tb[0] + reps * (dur + tb[1])]) + 10
        on = [False] * end
        for q in seqs:
            if not q.module.endswith(f"module{mod}"):
                continue
            ev = q.trace.mrk
            for i, (t, mask) in enumerate(ev):
                if mask & bit:
                    toggles += 1
                    e = ev[i + 1][0] if i + 1 < len(ev) else end
                    on[max(t, 0):e] = [True] * (e - max(t, 0))
        want_on, want_off = [False] * end, [True] * end
        for r in range(reps):
            base = tb[0] + r * (dur + tb[1])
            for x, y in must:
                want_on[base + x:base + y] = [True] * (y - x)
            for x, y in may:
                want_off[base + x:base + y] = [False] * (y - x)
        for t in range(end):
            rel = (t - tb[0]) % (dur + tb[1])
            if want_on[t] and not on[t]:
                expect(False, "the RF output of %s is off at t=%d ns (repetition %d), driven (with "
                       "%d ns before and after) during %s", port, rel, (t - tb[0]) // (dur + tb[1]),
                       b, must)
            if want_off[t] and on[t]:
                expect(False, "the RF output of %s is on at t=%d ns (repetition %d), driven only "
                       "during %s, may be on during %s", port, rel,
                       (t - tb[0]) // (dur + tb[1]), must, may)
    loops = "loops" if any((Q.LANES[n].port, Q.LANES[n].clock) in r[2] for r in regs
                           for n in lanes if Q.LANES[n].port in RF) else "flat"
    return ok(c["auto"] and toggles >= 1 and active > 0, [loops, f"buffer={b}", f"reps={reps}",
                                                          "auto" if c["auto"] else "not enabled"])


SUBS = [
    Sub("windows", case, check, quick=5000, thorough=100000,
        rule="pulses, offset windows, phase shifts on 1-3 port-clocks of QCM-RF, QRM-RF and QCM "
             "modules, in parallel, nested and looped; non-trivial: the switch is toggled and "
             "something plays"),
]

"""P17: digital outputs are high exactly during the marker pulses scheduled on them."""
from __future__ import annotations

import json

from hypothesis import strategies as st

from props import p06
from vf import build, qgen
from vf import qblox as Q
from vf.core import Discard, Sub, expect, ok, sut
from vf.qgen import op, sec

ASSUMPTIONS = (
    "A digital output of an analog module is high when any sequencer of the module sets its bit in "
    "the marker register (emulated Q1ASM); that of a QTM follows set_digital including fine delays "
    "in steps of 1/128 ns.  Marker pulses on one output do not overlap; touching ones merge.  Two "
    "fine-delayed edges of a QTM output closer than 7 ns must be a whole number of ns apart (the "
    "documented hardware rule): a schedule that breaks it must be refused.  In marker debug mode "
    "the marker next to the output is high for the first 4 ns of every operation.")

# name: (port, module, type, channel, mask)
OUT = dict(Q.DIGITAL)
OUT.update({
    "mk2": ("m:2", 1, "QCM", "digital_output_2", 0b0100),
    "mr0": ("r:0", 2, "QRM", "digital_output_0", 0b0001),
    "rf_d0": ("f:0", 3, "QCM_RF", "digital_output_0", 0b1000),
    "rf_d1": ("f:1", 3, "QCM_RF", "digital_output_1", 0b0100),
    "ro_d0": ("g:0", 4, "QRM_RF", "digital_output_0", 0b0100),
    "ro_d1": ("g:1", 4, "QRM_RF", "digital_output_1", 0b1000),
})
QTM = {f"tm{i}": (f"t:{i}", 10, "QTM", f"digital_output_{i}", i) for i in range(4)}
LANES = ["mw0", "fl0", "ro0", "rf1", "rf2", "rfro"]
RFBIT = {"rf1": 1, "rf2": 2, "rfro": 2}
G = st.one_of(st.just(0), st.integers(0, 12), st.integers(0, 80), st.sampled_from([4, 8, 100]))
FINE = st.one_of(st.just(0.0), st.integers(0, 2047).map(lambda n: n / 128e9),
                 st.integers(0, 15).map(sec),
                 st.floats(0, 1.599e-8, allow_nan=False).map(lambda x: round(x, 15)))


@st.composite
def block(draw, outs, toggles, lanes, depth, fine=False):
    """Marker pulses, RF switch toggles, waveform pulses, loops.

    `fine`: for QTM outputs, also fine delays.  Returns (description, duration in ns)."""
    names = [*outs, *("sw:" + n for n in toggles), *("wf:" + n for n in lanes)]
    cur = dict.fromkeys(names, 0)
    items, starts = [], []
    todo = []  # (start, duration, operation)
    # a switch and a pulse on the same sequencer must be 0 or at least 4 ns apart
    grid = 4 if toggles else 1

    def g(x):
        return -(-x // grid) * grid

    for _ in range(draw(st.integers(1, 6 if depth > 1 else 4))):
        n = draw(st.sampled_from(names))
        k = draw(st.sampled_from(["pulse"] * 4 + (["loop", "sub"] if depth else [])))
        gap = draw(G)
        gap = 4 if 0 < gap < 4 else gap
        if k == "pulse":
            s = g(cur[n] + gap)
            d = g(draw(st.one_of(st.integers(4, 40), st.sampled_from([4, 5, 20, 100, 70000]))))
            t0 = g(draw(st.sampled_from([0, 0, 0, 4, 7])))
            kw = {"duration": sec(d)}
            if t0 and (not toggles or ":" not in n):
                kw["t0"] = sec(t0)
            if n.startswith("wf:"):
                t0 = 0 if toggles else t0
                d = min(max(d, 8), 60)
                l = Q.LANES[n[3:]]
                o = op("SquarePulse", amp=0.3, **{**kw, "duration": sec(d)}, port=l.port,
                       clock=l.clock)
            elif n.startswith("sw:"):
                l = Q.LANES[n[3:]]
                o = op("RFSwitchToggle", port=l.port, clock=l.clock, duration=sec(d))
                t0 = 0
            else:
                if fine:
                    for f in ("fine_start_delay", "fine_end_delay"):
                        if draw(st.booleans()):
                            kw[f] = draw(FINE)
                o = op("MarkerPulse", port=outs[n][0], **kw)
            todo.append((s, d + t0, o))
            cur[n] = s + d + t0
        else:
            b, d = draw(block(outs, toggles, lanes, depth - 1, fine))
            cnt = 1
            s = g(max([*cur.values(), 4]) + gap)
            if k == "loop":
                s += 4
                cnt = draw(st.sampled_from([1, 2, 3, 5]))
                b = {"t": "loop", "n": cnt, "body": b}
            todo.append((s, d * cnt, b))
            cur = dict.fromkeys(names, s + d * cnt + (4 if k == "loop" else 0))
    end = g(max(s + d for s, d, _ in todo) + 4 + draw(G))
    todo = [todo[i] for i in draw(st.permutations(range(len(todo))))]
    todo.sort(key=lambda x: x[2].get("c") != "RFSwitchToggle")  # before pulses at the same time
    todo.insert(0, (0, end, op("IdlePulse", duration=sec(end))))
    for s, d, o in todo:
        it = {"op": o, "rel": 0.0}
        if items:
            ref = draw(st.integers(max(0, len(items) - 3), len(items) - 1))
            e = draw(st.booleans())
            it.update(ref=ref, pt="end" if e else "start", ptn="start",
                      rel=sec(s - starts[ref][1 if e else 0]))
        items.append(it)
        starts.append((s, s + d))
    return {"t": "sched", "name": "b", "reps": 1, "ops": items}, end


@st.composite
def marker_case(draw):
    outs = dict(sorted(draw(st.permutations(sorted(OUT.items())))[: draw(st.integers(1, 3))]))
    lanes = sorted(draw(st.permutations(LANES))[: draw(st.integers(0, 3))])
    rf_on = draw(st.booleans())
    toggles = [] if rf_on else [n for n in lanes if n in RFBIT]
    b, _ = draw(block(outs, toggles, lanes, draw(st.sampled_from([0, 1, 1, 2]))))
    b["reps"] = draw(st.sampled_from([1, 1, 2, 3]))
    b = qgen.repeat(draw, b)
    debug = [n for n in lanes if draw(st.integers(0, 3)) == 0 and not any(
        OUT[o][1] == Q.LANES[n].mod for o in outs)]
    return {"d": b, "outs": list(outs), "lanes": lanes, "rf_on": rf_on, "debug": debug}


def intervals(evs, dur, reps, tb, port, cls):
    out = []
    for r in range(reps):
        base = tb[0] + r * (dur + tb[1])
        for t, o, _ in evs:
            if o["c"] == cls and o["k"]["port"] == port:
                out.append((base + t, base + t + Q.ns_of(o["k"]["duration"])))
    return union(out)


def union(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        elif b > a:
            out.append((a, b))
    return out


def level(seqs, mod, bit):
    """Intervals during which the marker bit of the module is high."""
    out = []
    for q in seqs:
        if not q.module.endswith(f"module{mod}"):
            continue
        ev = q.trace.mrk
        for i, (t, mask) in enumerate(ev):
            if mask & bit:
                e = ev[i + 1][0] if i + 1 < len(ev) else 10**12
                if e > t:
                    out.append((t, e))
    return union(out)


def toggles_near(c):
    evs, _ = Q.events(c["d"])
    for n in c["debug"]:
        l = Q.LANES[n]
        mine = [(t, o) for t, o, _ in evs if o["k"].get("port") == l.port]
        starts = [t for t, o in mine if o["c"] == "SquarePulse"]
        tog = [t + x for t, o in mine if o["c"] == "RFSwitchToggle"
               for x in (0, Q.ns_of(o["k"]["duration"]))]
        if any(0 <= x - t < 8 for x in tog for t in starts):
            return True
    return False


DEBUGBIT = {"mw0": 0b0011, "fl0": 0b0100, "ro0": 0b0011, "rf1": 0b0100, "rf2": 0b1000,
            "rfro": 0b0100}


def check_marker(c):
    lanes = c["lanes"]
    mods = {OUT[n][1] for n in c["outs"]} | {Q.LANES[n].mod for n in lanes}
    hw = Q.hardware(lanes, digital=[OUT[n] for n in c["outs"]],
                    module_extra={str(m): {"rf_output_on": c["rf_on"]} for m in mods & {3, 4}},
                    channel_extra={(str(Q.LANES[n].mod), Q.LANES[n].ch):
                                   {"marker_debug_mode_enable": True} for n in c["debug"]})
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(lanes))
    # a debug marker needs 8 ns without other instructions, otherwise compilation is refused
    with sut("compiling a schedule with marker pulses",
             allow=(ValueError,) if c["debug"] and toggles_near(c) else ()):
        comp = Q.compile_schedule(s, hw)
    evs, dur = Q.events(c["d"])
    seqs = Q.sequencers(comp)
    tb = Q.timebase()
    reps = c["d"]["reps"]
    if not c["debug"]:
        p06.check_output(c, comp)
    n = 0
    want = {}
    for name in c["outs"]:
        port, mod, _, _, bit = OUT[name]
        want[mod, bit] = (name, intervals(evs, dur, reps, tb, port, "MarkerPulse"))
    for name in lanes:
        l = Q.LANES[name]
        if name in c["debug"]:
            iv = []
            for r in range(reps):
                for t, o, _ in evs:
                    if o["c"] == "SquarePulse" and (o["k"]["port"], o["k"]["clock"]) == (
                            l.port, l.clock):
                        x = tb[0] + r * (dur + tb[1]) + t
                        iv.append((x, x + 4))
            for bit in (1, 2, 4, 8):
                if DEBUGBIT[name] & bit:
                    a = want.get((l.mod, bit), ("", []))
                    want[l.mod, bit] = (f"{name} (debug)", union(a[1] + iv))
        if name in RFBIT and not c["rf_on"]:
            want[l.mod, RFBIT[name]] = (f"{name} (RF switch)", intervals(
                evs, dur, reps, tb, l.port, "RFSwitchToggle"))
    for mod in sorted(mods):
        for bit in (1, 2, 4, 8):
            if mod in (3, 4) and bit in (1, 2) and c["rf_on"]:
                used = any(Q.LANES[x].mod == mod and RFBIT[x] == bit and Q.uses(evs, Q.LANES[x])
                           for x in lanes)
                if used:
                    got = level(seqs, mod, bit)
                    expect(got and got[-1][1] >= 10**11 and got[0][0] <= tb[0] and len(got) == 1,
                           "module %d: RF output switch (marker bit %d) should stay on, is on "
                           "during %s", mod, bit, got[:6])
                continue
            name, iv = want.get((mod, bit), ("unused", []))
            got = level(seqs, mod, bit)
            n += len(iv)
            expect(got == iv, "module %d, marker bit %d (%s): high during %s, scheduled %s", mod,
                   bit, name, show(got, iv, tb), show(iv, got, tb))
    return ok(n > 0, ["several pulses" if n > 3 else "few", f"outputs={len(c['outs'])}",
              "loop" if '"loop"' in json.dumps(c["d"]) else "flat",
              "debug" if c["debug"] else "no debug", "toggle" if not c["rf_on"] else "rf on"])


def show(a, b, tb):
    d = [x for x in a if x not in b][:4]
    return [(x - tb[0], y - tb[0] if y < 10**11 else "end") for x, y in d] or "(the rest)"


# ------------------------------------------------------------------ QTM
@st.composite
def qtm_case(draw):
    outs = dict(sorted(draw(st.permutations(sorted(QTM.items())))[: draw(st.integers(1, 3))]))
    b, _ = draw(block(outs, [], draw(st.sampled_from([[], ["mw0"]])),
                      draw(st.sampled_from([0, 1, 1, 2])), fine=draw(st.integers(0, 3)) > 0))
    b["reps"] = draw(st.sampled_from([1, 1, 2, 3]))
    b = qgen.repeat(draw, b)
    return {"d": b, "outs": list(outs), "lanes": ["mw0"]}


def edges(evs, dur, reps, tb, port):
    """(time in 1/128 ns, value) of the edges, without those that change nothing."""
    out = []
    for r in range(reps):
        base = tb[0] + r * (dur + tb[1])
        for t, o, _ in evs:
            k = o["k"]
            if o["c"] == "MarkerPulse" and k["port"] == port:
                e = base + t + Q.ns_of(k["duration"])
                out.append(((base + t) * 128 + round(k.get("fine_start_delay", 0) * 128e9), 1))
                out.append((e * 128 + round(k.get("fine_end_delay", 0) * 128e9), 0))
    return out


def legal(ed):
    """Is every pair of consecutive edges 7 ns or a whole number of ns apart, in order?"""
    for (a, _), (b, _) in zip(ed, ed[1:]):
        if b < a or (b - a < 7 * 128 and (b - a) % 128):
            return False
    return True


def pulses_of(ed):
    """High intervals from a list of edges (simultaneous low and high: stays high)."""
    out, hi = [], None
    for t, v in sorted(ed, key=lambda e: (e[0], e[1] == 0 and -1 or 0)):
        if v and hi is None:
            hi = t
        elif not v and hi is not None:
            if t > hi:
                out.append((hi, t))
            hi = None
    if hi is not None:
        out.append((hi, 10**15))
    return union(out)


def touching_fine(evs, port):
    """Pulses that touch on the time grid but have a gap because of a fine delay: both edges are
    then set by the same instruction slot (not judged)."""
    m = [(t, o["k"]) for t, o, _ in evs if o["c"] == "MarkerPulse" and o["k"]["port"] == port]
    return any(t + Q.ns_of(k["duration"]) == t2 and
               k.get("fine_end_delay", 0) != k2.get("fine_start_delay", 0)
               for (t, k), (t2, k2) in zip(m, m[1:]))


def check_qtm(c):
    from quantify_scheduler.backends.qblox.exceptions import FineDelayTimingError

    hw = Q.hardware(["mw0"], digital=[QTM[n] for n in c["outs"]])
    evs, dur = Q.events(c["d"])
    tb = Q.timebase()
    reps = c["d"]["reps"]
    want = {n: edges(evs, dur, reps, tb, QTM[n][0]) for n in c["outs"]}
    if any(b[0] < a[0] for w in want.values() for a, b in zip(w, w[1:])):
        raise Discard("fine delays make the marker pulses overlap")
    if any(touching_fine(evs, QTM[n][0]) for n in c["outs"]):
        raise Discard("gap between touching pulses made by fine delays only")
    bad = [n for n in c["outs"] if not legal(want[n])]
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(["mw0"]))
    try:
        with sut("compiling a schedule with QTM marker pulses", allow=(FineDelayTimingError,)):
            comp = Q.compile_schedule(s, hw)
    except Discard:
        # the spacing rule is applied to the delays as given, before rounding to 1/128 ns
        expect(bad or any(k in json.dumps(c["d"]) for k in ("fine_start", "fine_end")),
               "refused because of fine delays, but there are none")
        fines = [o["k"].get(f, 0) * 128e9 for _, o, _ in evs
                 for f in ("fine_start_delay", "fine_end_delay")]
        if not bad and all(abs(x - round(x)) < 1e-5 for x in fines) and all(loose(want[n]) for n in c["outs"]):
            expect(False, "refused although all edges are at least 7 ns or a whole number of ns "
                   "apart")
        return ok(False, ["refused"])
    n = 0
    for name in c["outs"]:
        port, mod, _, ch, idx = QTM[name]
        got = []
        for q in Q.sequencers(comp):
            if not q.module.endswith(f"module{mod}"):
                continue
            outs = list(q.s.connected_output_indices)
            if outs == [idx]:
                t = [(x * 128 + f, v) for x, v, m, f in q.trace.digital if m]
                expect(not got, "two sequencers drive %s", ch)
                got = t
            else:
                expect(not (idx in outs), "sequencer %s drives %s", q.where, outs)
        if not strict_legal(got):
            # known finding: the rule is not applied across iterations of loops
            if '"loop"' in json.dumps(c["d"]) or reps > 1:
                raise Discard("spacing rule across iterations")
        expect(strict_legal(got), "%s: consecutive edges are less than 7 ns and not a whole number "
               "of ns apart, or out of order: %s", ch, near(got, tb))
        w, g = pulses_of(want[name]), pulses_of(got)
        n += len(w)
        expect(w == g, "%s is high (in ns) during %s, scheduled %s", ch,
               [(x / 128 - tb[0], y / 128 - tb[0]) for x, y in g if (x, y) not in w][:4],
               [(x / 128 - tb[0], y / 128 - tb[0]) for x, y in w if (x, y) not in g][:4])
    p06.check_output(c, comp)
    fine = any(t % 128 for w in want.values() for t, _ in w)
    return ok(n > 0, ["fine" if fine else "whole ns", f"outputs={len(c['outs'])}",
              "loop" if '"loop"' in json.dumps(c["d"]) else "flat"])


def loose(ed):
    return all(b - a >= 8 * 128 or (b - a) % 128 == 0 for (a, _), (b, _) in zip(ed, ed[1:]))


def strict_legal(ed):
    for (a, _), (b, _) in zip(ed, ed[1:]):
        r = (b - a) % 128
        # 1/128 ns of rounding on either edge
        if b < a - 1 or (b - a < 7 * 128 - 2 and r not in (0, 1, 127)):
            return False
    return True


def near(ed, tb):
    for (a, _), (b, _) in zip(ed, ed[1:]):
        if b < a or (b - a < 7 * 128 and (b - a) % 128):
            return (a / 128 - tb[0], b / 128 - tb[0])
    return None


SUBS = [
    Sub("marker", marker_case, check_marker, quick=1200, thorough=20000,
        rule="at least one marker pulse, RF switch toggle or debug pulse"),
    Sub("qtm", qtm_case, check_qtm, quick=1000, thorough=20000,
        rule="at least one marker pulse on a QTM output"),
]

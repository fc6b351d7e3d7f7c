"""P11: conditional bodies are executed iff their trigger fired, everything else is unaffected."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from props import p09
from props.p06 import check_output
from props.p07 import check_carrier
from vf import acq, build, qgen
from vf import qblox as Q
from vf.core import Discard, Known, Sub, Violation, expect, ok, sut
from vf.qgen import op, sec

LAT = 364  # documented trigger latency after the end of the acquisition
ASSUMPTIONS = (
    "Triggers reach every sequencer 364 ns after the end of the integration or counting window "
    "(the documented latency).  While a condition is false every timed real-time instruction "
    "takes the else-duration instead; parameter instructions are skipped; register instructions "
    "are always executed.  Counting acquisitions on a QRM send one trigger per count, on a QTM "
    "one trigger to the address of the outcome.  Bodies last at most 65532 ns.")

RO = ["ro0", "ro1", "rfro"]
CNT = ["rq", "tq", "tq1"]
PLAY = ["mw0", "mw0b", "fl0", "fl1", "rf1", "rf2"]
LABELS = ["a", "q0", "c", "lbl 1", "e", "f", "g", "h", "i"]


class Gen:
    def __init__(self, draw, loops=True):
        self.draw = draw
        self.ro = sorted(draw(st.permutations(RO + CNT))[: draw(st.integers(1, 3))])
        play = sorted(draw(st.permutations(PLAY))[: draw(st.integers(1, 3))])
        self.play = play + [n for n in self.ro if n in RO and draw(st.booleans())]
        self.names = sorted({*self.ro, *self.play})
        self.kn = qgen.Knobs(self.names, ["pulse"] * 4 + ["idle", "shift", "freq", "reset"],
                             depth=1, items=(1, 5), loops=0.25 if loops else 0, subs=0.15,
                             reps=(1,), max_loop=4)
        self.b = qgen.Builder(draw, self.kn, {n: Q.LANES[n] for n in self.names})
        self.b.nopulse = set(CNT)
        self.cfg = {}
        self.blocks = []
        pool = list(draw(st.permutations(LABELS)))
        for n in self.ro:
            dur = draw(st.sampled_from([100, 300, 20, 12, 1000]))
            c = {"dur": dur, "ch": f"ch_{n}"}
            if n in RO:
                c["kind"] = "ta"
                c.update(rot=draw(st.sampled_from([0.0, 45.0, 310.0])),
                         thr=draw(st.sampled_from([0.0, 0.25, -0.1])),
                         mode=draw(st.sampled_from(["average", "append"])),
                         labels=[pool.pop()])
            elif n == "rq" or draw(st.booleans()):
                c["kind"] = "ttc"
                c.update(thr=draw(st.integers(1, 4)), mode="append", labels=[pool.pop()],
                         cond=draw(st.sampled_from(["greater_than_equal_to", "less_than"])))
            else:
                c["kind"] = "dual"
                lo = draw(st.integers(0, 3))
                c.update(lo=lo, hi=lo + draw(st.integers(1, 3)), mode="append",
                         which=sorted(draw(st.sets(st.sampled_from(
                             ["low", "mid", "high", "invalid"]), min_size=1, max_size=3))))
                if len(pool) < len(c["which"]):
                    c["which"] = c["which"][:1]
                c["labels"] = [pool.pop() for _ in c["which"]]
            self.cfg[n] = c

    def acquire(self, n, labelled=True):
        l, c = Q.LANES[n], self.cfg[n]
        k = dict(port=l.port, clock=l.clock, acq_channel=c["ch"], duration=sec(c["dur"]),
                 bin_mode={"__b": c["mode"]})
        if c["kind"] == "ta":
            if labelled:
                k["feedback_trigger_label"] = c["labels"][0]
            return op("ThresholdedAcquisition", acq_rotation=c["rot"], acq_threshold=c["thr"], **k)
        if c["kind"] == "ttc":
            if labelled:
                k["feedback_trigger_label"] = c["labels"][0]
            return op("ThresholdedTriggerCount", threshold=c["thr"],
                      feedback_trigger_condition=c["cond"], **k)
        for w, lab in zip(c["which"], c["labels"]):
            k["label_" + w] = lab
        return op("DualThresholdedTriggerCount", threshold_low=c["lo"], threshold_high=c["hi"], **k)

    def free(self, depth=1, lanes=None):
        names = sorted(self.draw(st.permutations(lanes or self.play))[
            : self.draw(st.integers(1, 3))])
        return self.b.block(depth, names, f"b{self.draw(st.integers(0, 2))}")

    def unit(self):
        """[(op, start relative to the unit, duration)], total."""
        d = self.draw
        n = d(st.sampled_from(self.ro))
        c = self.cfg[n]
        a = self.acquire(n)
        out = [(a, 0, c["dur"])]
        t = c["dur"] + LAT
        if d(st.integers(0, 2)) == 0:
            body, total, used = self.free(0)
            s = c["dur"] + 12 + d(st.integers(0, 30))
            if used:
                out.append((body, s, total))
                t = max(t, s + total + 4)
        t += d(st.sampled_from([0, 0, 1, 4, 3, 100]))
        for lab in d(st.permutations(c["labels"])):
            body, total, used = self.free(1)
            if not used or total < 4 or total > 60000:
                l = Q.LANES[self.play[0]]
                body, total = op("SquarePulse", amp=0.5, duration=20e-9, port=l.port,
                                 clock=l.clock), 20
            out.append(({"t": "cond", "q": lab, "body": body, "buf": 4e-9}, t, total + 4))
            t += total + 4 + d(st.sampled_from([0, 0, 4, 7, 60]))
        return out, t + 4

    def block(self, depth, name):
        d = self.draw
        items, t = [], 0

        def add(o, s, dur):
            items.append((o, s, dur))

        for _ in range(d(st.integers(1, 4))):
            k = d(st.integers(0, 5))
            if k == 0 and depth:
                if self.blocks and d(st.booleans()):  # the same sub-schedule once more
                    body, total = d(st.sampled_from(self.blocks))
                else:
                    body, total = self.block(depth - 1, name + "i")
                    self.blocks.append((body, total))
                if d(st.booleans()):
                    cnt = d(st.integers(1, 3))
                    add({"t": "loop", "n": cnt, "body": body}, t, cnt * total)
                    t += cnt * total
                else:
                    add(body, t, total)
                    t += total
            elif k == 1 and d(st.integers(0, 2)) == 0:
                # a measurement of the same channel whose outcome is not used
                # (dual thresholds need the same labels in all acquisitions)
                n = d(st.sampled_from([x for x in self.ro if self.cfg[x]["kind"] != "dual"]
                                      or [None]))
                if n is None:
                    continue
                dur = self.cfg[n]["dur"]
                add(self.acquire(n, False), t, dur)
                t += dur + LAT + 300
            elif k in (1, 2):
                body, total, used = self.free()
                if used:
                    add(body, t, total)
                    t += total + d(st.sampled_from([0, 4, 11]))
            else:
                u, total = self.unit()
                for o, s, dur in u:
                    add(o, t + s, dur)
                t += total
        if not items:
            add(op("IdlePulse", duration=100e-9), 0, 100)
            t = 100
        add(op("IdlePulse", duration=sec(d(st.sampled_from([300, 304, 500])))), t, 300)
        items[1:] = d(st.permutations(items[1:-1])) + items[-1:]  # any insertion order
        ops = []
        for i, (o, s, dur) in enumerate(items):
            if i == 0:
                it = {"op": o, "rel": 0}
                off = s
            else:
                j = i - 1 if d(st.booleans()) else d(st.integers(0, i - 1))
                pt = d(st.sampled_from(["start", "end"]))
                base = items[j][1] + (items[j][2] if pt == "end" else 0)
                it = {"op": o, "rel": qgen.r12((s - base) * 1e-9), "ref": j, "pt": pt}
            ops.append(it)
        total = max(s + du for _, s, du in items) - items[0][1]
        last = items[-1]
        total = max(total, last[1] + Q.ns_of(last[0]["k"]["duration"]) - items[0][1])
        return {"t": "sched", "name": name, "ops": ops}, total


@st.composite
def case(draw, loops=True):
    g = Gen(draw, loops)
    d, total = g.block(2, "top")
    d["reps"] = draw(st.sampled_from([1, 1, 2, 3]))
    d["share"] = draw(st.integers(0, 3)) == 0
    seed = draw(st.integers(0, 2**32 - 1))
    bias = draw(st.sampled_from([0.5, 0.5, 0.5, 1.0, 0.0]))
    return {"d": d, "lanes": g.names, "cfg": g.cfg, "seed": seed, "bias": bias}


HW = ["mw0", "mw0b", "fl0", "fl1", "rf1", "rf2", *RO, *CNT]


def compile_case(c):
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(c["lanes"]))
    try:
        return Q.compile_schedule(s, Q.hardware(c["lanes"]))
    except Discard:
        raise
    except Exception as e:
        if "played conditionally" in str(e) and any(dense(x["body"]) for x in all_conds(c)):
            raise Discard("else branch too dense") from None
        raise Violation("compiling a schedule with conditional operations: %s: %s"
                        % (type(e).__name__, str(e)[:300])) from e


def dense(body):
    """Gaps that need a wait of 1-3 ns may make the else branch too long."""
    evs, dur = Q.events({"t": "sched", "name": "x", "ops": [{"op": body, "rel": 0}]})
    ts = {0, dur}
    for t, o, _ in evs:
        ts |= {t, t + Q.ns_of(Q.leaf_dur(o))}
    ts = sorted(ts)
    return any(0 < b - a < 8 and b - a != 4 for a, b in zip(ts, ts[1:]))


def check(c):
    comp = compile_case(c)
    evaluate(c, comp)
    n = sum(1 for x in all_conds(c))
    return ok(n > 0, [f"conds={min(n, 4)}", f"reps={c['d']['reps']}",
                      *sorted({x["kind"] for x in c["cfg"].values()})])


def all_conds(c):
    def walk(o):
        if o["t"] == "cond":
            yield o
        elif o["t"] == "loop":
            yield from walk(o["body"])
        elif o["t"] == "sched":
            for it in o["ops"]:
                yield from walk(it["op"])
    return walk(c["d"])


def instances(d):
    """Conditional executions of one repetition: (t ns, label, path prefix)."""
    out = {}

    def walk(o, t, path):
        k = o["t"]
        if k == "cond":
            out[path + (("cond", o["q"]),)] = (Q.ns_of(t), o["q"])
        elif k == "loop":
            du = build.duration(o["body"], Q.leaf_dur)
            for i in range(o["n"]):
                walk(o["body"], t + i * du, path + (("loop", i),))
        elif k == "sched":
            ts, _ = build.solve(o, lambda x: build.duration(x, Q.leaf_dur))
            for i, (s, it) in enumerate(zip(ts, o["ops"])):
                walk(it["op"], t + s, path + (i,))
    walk(dict(d, reps=1), 0.0, ())
    return out


def evaluate(c, comp):
    d = c["d"]
    evs, dur = Q.events(d)
    reps = d.get("reps", 1)
    tb = Q.timebase()
    step = dur + tb[1]
    seqs = Q.sequencers(comp)
    rng = np.random.default_rng(c["seed"])

    # ---- expected measurements, their outcomes and the conditions that follow from them
    acqs = []  # (t emulator, lane, op, outcome counts/state)
    for r in range(reps):
        for t, o, path in evs:
            if o["c"] in Q.ACQS:
                lane = next(n for n in c["lanes"] if Q.LANES[n].port == o["k"]["port"]
                            and Q.LANES[n].clock == o["k"].get("clock"))
                cfg = c["cfg"][lane]
                if cfg["kind"] == "ta":
                    out = int(rng.random() < c["bias"])
                elif cfg["kind"] == "ttc":
                    out = int(rng.integers(0, cfg["thr"] + 2))
                else:
                    out = int(rng.integers(-1, cfg["hi"] + 2))
                acqs.append((tb[0] + r * step + t, lane, o, out))
    acqs.sort(key=lambda a: a[0])

    def fires(lane, label, out):
        cfg = c["cfg"][lane]
        if cfg["kind"] == "ta":
            return out == 1
        if cfg["kind"] == "ttc":
            return (out >= cfg["thr"]) == (cfg["cond"] == "greater_than_equal_to")
        w = cfg["which"][cfg["labels"].index(label)]
        if out < 0:
            return w == "invalid"
        return w == ("low" if out < cfg["lo"] else "mid" if out < cfg["hi"] else "high")

    owner = {lab: n for n, x in c["cfg"].items() for lab in x["labels"]}
    taken = {}
    inst = instances(d)
    for r in range(reps):
        for path, (t, lab) in inst.items():
            T = tb[0] + r * step + t
            prev = [a for a in acqs if a[1] == owner[lab] and a[0] < T and labelled(a[2])]
            taken[r, path] = fires(owner[lab], lab, prev[-1][3])

    # ---- what happens, all repetitions
    full = []
    for r in range(reps):
        for t, o, path in evs:
            pre = [path[: i + 1] for i, p in enumerate(path)
                   if isinstance(p, tuple) and p[0] == "cond"]
            if all(taken[r, p] for p in pre):
                full.append((r * step + t, o, path))
        if r:
            for clk in {Q.LANES[n].clock for n in c["lanes"]}:
                full.append((r * step - tb[1], op("ResetClockPhase", clock=clk), ()))
    full.sort(key=lambda e: e[0])

    # ---- triggers that the programmed sequencers send
    found = {n: p09.find(seqs, Q.LANES[n]) for n in c["lanes"]}
    used = {a[1] for a in acqs}
    triggers = []
    addresses = {}
    for n in used:
        expect(len(found[n]) == 1, "%s: %d sequencers", n, len(found[n]))
    for T, n, o, out in acqs:
        q = found[n][0]
        s, cfg = q.s, c["cfg"][n]
        arrive = T + cfg["dur"] + LAT
        if not s.thresholded_acq_trigger_write_en:
            continue
        if cfg["kind"] == "ta" or (cfg["kind"] == "ttc" and n == "rq"):
            a = s.thresholded_acq_trigger_write_address
            for i in range(out if cfg["kind"] == "ttc" else int(
                    bool(out) != bool(s.thresholded_acq_trigger_write_invert))):
                triggers.append((arrive, a))
        else:
            th = q.trace.thres  # set by the program
            expect(set(th) == {0, 1}, "%s: thresholds %s", q.where, th)
            lo, hi = th[0], th[1]
            a = (s.thresholded_acq_trigger_write_address_invalid if out < 0 else
                 s.thresholded_acq_trigger_write_address_low if out < lo else
                 s.thresholded_acq_trigger_write_address_mid if out < hi else
                 s.thresholded_acq_trigger_write_address_high)
            if a:
                triggers.append((arrive, a))
    for _, a in triggers:
        expect(1 <= a <= 15, "trigger address %s", a)
    for q in seqs:
        th = {a: (x.thresholded_acq_trigger_count if x.thresholded_acq_trigger_count is not None
                  else 1, x.thresholded_acq_trigger_invert or False)
              for a, x in q.s.thresholded_acq_trigger_read_settings.items()}
        q._tr = q.run(triggers, th)

    # ---- acquisitions take place whatever the outcomes
    for n in used:
        got = [a["t"] for a in found[n][0].trace.acq if a.get("en", 1)]
        want = [a[0] for a in acqs if a[1] == n]
        expect(got == want, "%s: acquisitions at %s, the schedule has %s", n,
               [g - tb[0] for g in got], [w - tb[0] for w in want])
    cond = [(r, c_[0]) for (r, p), v in taken.items() if v for c_ in [inst[p]]]
    what = "output with the conditions at %s true" % sorted(cond)
    analog = [q for q in seqs if hasattr(q.s, "nco_en")]
    c = dict(c, lanes=[n for n in c["lanes"] if n not in CNT])
    view = (full, reps * step - tb[1], 1, analog)
    _, active, m = check_output(c, comp, what=what, full=view)
    check_carrier(c, comp, None, full=view)
    return active


def labelled(o):
    return any(k.startswith(("feedback_trigger_label", "label_")) and v
               for k, v in o["k"].items())


# ------------------------------------------------------------------- refused programs
WRONG = ["no label", "no acquisition", "later acquisition", "twice", "nested", "unused", "unused other",
         "labels", "many", "long", "inside loop"]


@st.composite
def wrong_case(draw):
    return {"kind": draw(st.sampled_from(WRONG)),
            "ro": draw(st.permutations(RO))[:2],
            "play": draw(st.permutations(PLAY))[:2],
            "dur": draw(st.sampled_from([20, 100, 300, 1000])),
            "wait": draw(st.integers(400, 3000)),
            "n": draw(st.integers(2, 4)), "body": draw(st.integers(65700, 300000)),
            "labels": draw(st.permutations(LABELS))[:2],
            "wrap": draw(st.sampled_from(["no", "sub", "loop"])),
            "valid": draw(st.integers(0, 3)) == 0}


def wrong_check(c):
    k, valid = c["kind"], c["valid"]
    la, lb = c["labels"]
    D = c["dur"]

    def A(i, lab):
        l = Q.LANES[c["ro"][i]]
        kw = dict(acq_rotation=0.0, acq_threshold=0.1, port=l.port, clock=l.clock,
                  acq_channel=f"c{i}", duration=sec(D), bin_mode={"__b": "append"})
        if lab is not None:
            kw["feedback_trigger_label"] = lab
        return op("ThresholdedAcquisition", **kw)

    def P(i=0, dur=20):
        l = Q.LANES[c["play"][i]]
        return op("SquarePulse", amp=0.25, duration=sec(dur), port=l.port, clock=l.clock)

    def C(lab, body=None):
        return {"t": "cond", "q": lab, "body": body or P(), "buf": 4e-9}

    W = D + 400
    ops = []  # (op, start, duration)
    t = 0

    def put(o, dur):
        nonlocal t
        ops.append((o, t))
        t += dur + c["wait"] + 400
    if k == "no label":
        put(A(0, la if valid else None), D)
        put(C(la), 24)
    elif k == "no acquisition":
        if valid:
            put(A(0, la), D)
        else:
            put(A(0, lb), D)
        put(C(la), 24)
    elif k == "later acquisition":
        seq = [(A(0, la), D), (C(la), 24)]
        for o, du in seq if valid else seq[::-1]:
            put(o, du)
    elif k == "twice":
        put(A(0, la), D)
        put(C(la), 24)
        if valid:
            put(A(0, la), D)
        put(C(la, P(1)), 24)
    elif k == "nested":
        put(A(0, la), D)
        if valid:
            put(C(la), 24)
            put(A(1, lb), D)
            put(C(lb), 24)
        else:
            put(A(1, lb), D)
            put(C(la, C(lb)), 28)
    elif k in ("unused", "unused other"):
        put(A(0, la), D)
        if valid:
            put(C(la), 24)
        i, l2 = (0, la) if k == "unused" else (1, lb)
        put(A(i, l2), D)
        if k == "unused" or valid:
            put(C(l2), 24)
    elif k == "labels":
        put(A(0, la), D)
        put(C(la), 24)
        put(A(0, la if valid else lb), D)
        put(C(la if valid else lb), 24)
    elif k == "many":
        # conditionals of 15 or 16 labels; every label needs a sequencer of its own
        lanes = CNT16[: 15 if valid else 16]
        for i, n in enumerate(lanes):
            put(op("ThresholdedAcquisition", acq_rotation=0.0, acq_threshold=0.1, port=n,
                   clock="cl0.baseband", acq_channel=i, duration=sec(D),
                   bin_mode={"__b": "append"}, feedback_trigger_label=f"l{i}"), D)
            put(C(f"l{i}"), 24)
    elif k == "long":
        put(A(0, la), D)
        n = 65532 - 100 if valid else c["body"]
        put(C(la, P(0, n // 4 * 4)), n)
    elif k == "inside loop":
        put(A(0, la), D)
        put({"t": "loop", "n": 1 if valid else c["n"], "body": C(la)}, 24 * c["n"])
    put(op("IdlePulse", duration=sec(W)), W)
    d = {"t": "sched", "name": "x", "reps": 1, "ops": [
        {"op": o, "rel": 0} if j == 0 else {"op": o, "rel": sec(s), "ref": 0, "pt": "start"}
        for j, (o, s) in enumerate(ops)]}
    if c["wrap"] != "no":
        body = d if c["wrap"] == "sub" else {"t": "loop", "n": 2, "body": d}
        d = {"t": "sched", "name": "y", "reps": 1, "ops": [{"op": body, "rel": 0}]}
    lanes = sorted({*c["ro"], *c["play"]})
    with sut("building the schedule"):
        s = build.make_schedule(d, Q.clocks_of(lanes))
    hw = Q.hardware(lanes)
    if k == "many":
        many_hardware(hw)
    try:
        Q.compile_schedule(s, hw)
    except Discard:
        raise
    except Exception as e:
        expect(not valid, "a valid conditional schedule (%s) is refused: %s: %s", k,
               type(e).__name__, str(e)[:200])
        return ok(True, [k])
    expect(valid, "an ambiguous or impossible conditional schedule is compiled: %s", k)
    return ok(False, [k])


CNT16 = [f"m{i}:res" for i in range(16)]


def many_hardware(hw):
    desc = hw["hardware_description"]["cluster0"]["modules"]
    for i, port in enumerate(CNT16):
        slot = 15 + i // 6
        desc[str(slot)] = {"instrument_type": "QRM"}
        hw["connectivity"]["graph"].append([f"cluster0.module{slot}.real_input_0", port])


def known_unlabelled():
    def A(lab):
        l = Q.LANES["ro0"]
        k = dict(acq_rotation=0.0, acq_threshold=0.0, port=l.port, clock=l.clock,
                 acq_channel="ch_ro0", duration=300e-9, bin_mode={"__b": "append"})
        if lab:
            k["feedback_trigger_label"] = lab
        return op("ThresholdedAcquisition", **k)
    m = Q.LANES["mw0"]
    body = op("SquarePulse", amp=0.5, duration=20e-9, port=m.port, clock=m.clock)
    d = {"t": "sched", "name": "k", "reps": 1, "ops": [
        {"op": A("a"), "rel": 0}, {"op": A(None), "rel": 400e-9, "ref": 0, "pt": "start"},
        {"op": {"t": "cond", "q": "a", "body": body, "buf": 4e-9}, "rel": 2e-6, "ref": 0,
         "pt": "start"}, {"op": op("IdlePulse", duration=1e-6), "rel": 0}]}
    cfg = {"ro0": {"dur": 300, "ch": "ch_ro0", "kind": "ta", "rot": 0.0, "thr": 0.0,
                   "mode": "append", "labels": ["a"]}}
    for seed in range(8):
        check({"d": d, "lanes": ["mw0", "ro0"], "cfg": cfg, "seed": seed, "bias": 0.5})


KNOWN = [Known("P11-unlabelled-acquisition", "an unlabelled thresholded acquisition on the same "
               "sequencer, between a labelled one and its conditional operation, triggers the "
               "condition too", known_unlabelled)]

SUBS = [
    Sub("outcomes", case, check, quick=700, thorough=20000,
        rule="programs of conditional and other measurements (thresholded, trigger counts on QRM and QTM, "
             "dual thresholds) and conditional bodies with pulses, clock operations, loops and "
             "sub-schedules on several modules, in loops and repetitions, emulated with random "
             "outcomes; non-trivial: at least one conditional"),
    Sub("refusals", wrong_case, wrong_check, quick=150, thorough=2500,
        rule="conditionals without, before or after the only use of their measurement, nested, "
             "in loops, with too many or clashing labels or too long bodies must raise; the "
             "corrected schedules must compile; non-trivial: the invalid ones"),
]

"""Acquisition generation for the Qblox harness (shared by P09, P10, P11, P18, P21)."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vf import build, qgen
from vf import qblox as Q

TTL = {"TriggerCount", "ThresholdedTriggerCount", "DualThresholdedTriggerCount", "Timetag",
       "TimetagTrace"}
WEIGHTED = {"NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration",
            "WeightedThresholdedAcquisition", "WeightedIntegratedSeparated"}

LANES = {
    "rq": Q.Lane("q5:cnt", "q5.cnt", None, 8, "QRM", "real_input_0", inp=True),
    "tq": Q.Lane("q6:cnt", "digital", None, 9, "QTM", "digital_input_0", inp=True),
    "tq1": Q.Lane("q7:cnt", "digital", None, 9, "QTM", "digital_input_1", inp=True),
}
LANES["rq"].clock = Q.BASE
Q.LANES.update(LANES)


def hw(**kw):
    return Q.hardware(["mw0", "ro0", "ro1", "rfro", "rq", "tq", "tq1"], **kw)


CHANNELS = [0, 1, 2, "a", "ch_b", "q0", 7, 15, "z", 3]
RO = ["SSBIntegrationComplex", "ThresholdedAcquisition", *sorted(WEIGHTED)]


class Plan:
    """Per-case choices: which channel uses which protocol and bin mode on which lane."""

    def __init__(self, draw, names, protocols=None, modes=("average", "append"),
                 shared_channel=False, trace=True):
        self.draw = draw
        self.channels = {}
        self.n = 0
        self.left = 14
        pool = list(draw(st.permutations(CHANNELS)))
        for n in names:
            l = Q.LANES[n]
            if not l.inp:
                continue
            square = draw(st.booleans())
            dur = draw(st.sampled_from([100, 20, 300, 1000, 4] if square else [4, 6, 12, 30]))
            rot = draw(st.sampled_from([0.0, 45.0, 90.0, 300.5]))
            thr = draw(st.sampled_from([0.0, 0.2, -0.1, 0.75]))
            k = draw(st.integers(1, 2))
            if n in ("tq", "tq1"):
                p0 = draw(st.sampled_from(["TriggerCount", "Timetag", "TimetagTrace",
                                           "TriggerCount", "Timetag",
                                           "ThresholdedTriggerCount"]))
                thr, cond = draw(st.integers(0, 5)), draw(st.sampled_from(
                    ["greater_than_equal_to", "less_than"]))
                k = 1 if p0 == "TimetagTrace" else k
                ref = draw(st.sampled_from(["start", "end", "first", "timestamp"]))
                src = draw(st.sampled_from(["first", "last"]))
            elif n == "rq":
                p0 = draw(st.sampled_from(["TriggerCount", "ThresholdedTriggerCount"]))
                dist = p0 == "TriggerCount" and draw(st.integers(0, 3)) == 0
            for _ in range(k):
                ch = pool.pop()
                if n in ("tq", "tq1"):
                    c = dict(p=p0, mode="append", ref=ref, src=src)
                    if p0 == "Timetag":
                        c["mode"] = draw(st.sampled_from(["append", "average"]))
                    if p0 == "TriggerCount":
                        c["mode"] = draw(st.sampled_from(["append", "append", "sum"]))
                    c.update(thr=thr, cond=cond)
                elif n == "rq":
                    c = dict(p=p0, mode="distribution" if dist else draw(st.sampled_from(
                        ["append", "append", "sum"] if p0 == "TriggerCount" else ["append"])),
                             thr=draw(st.integers(0, 5)),
                             cond=draw(st.sampled_from(["greater_than_equal_to", "less_than"])))
                else:
                    p = draw(st.sampled_from(protocols or (RO[:2] if square else RO)))
                    c = dict(p=p, mode=draw(st.sampled_from(modes)))
                    other = {"ThresholdedAcquisition", "WeightedThresholdedAcquisition"}
                    if p in other and (other - {p}) & {x["p"] for x in
                                                       self.channels.get(n, [])}:
                        # one rotation per sequencer; the weighted kind fixes it at 315 degrees
                        c["p"] = "SSBIntegrationComplex"
                    if trace and not protocols and n == "ro0" and k == 1 and (
                            draw(st.integers(0, 3)) == 0):
                        c = dict(p="Trace", mode="average", dur=dur)
                c.update(ch=ch, lane=n, dur_=dur, rot=rot, thr_=thr)
                self.channels.setdefault(n, []).append(c)

    def __call__(self, draw, lane, name, b):
        if self.left <= 0:
            return None
        c = draw(st.sampled_from(self.channels[name]))
        p = c["p"]
        if p == "Trace" and c.get("used"):
            return None
        c["used"] = True
        self.left -= 1
        k = dict(port=lane.port, clock=lane.clock, acq_channel=c["ch"],
                 bin_mode={"__b": c["mode"]})
        self.n += 1
        if draw(st.integers(0, 5)) == 0:
            k["t0"] = qgen.sec(draw(st.integers(0, 20)))
        if c["mode"] != "distribution":
            k["coords"] = {f"uid_{c['ch']}": self.n}
        d = c["dur_"]
        if p in ("Trace", "SSBIntegrationComplex", "ThresholdedAcquisition"):
            k["duration"] = qgen.sec(d)
            if p == "ThresholdedAcquisition":
                k.update(acq_rotation=c["rot"], acq_threshold=c["thr_"])
        elif p in WEIGHTED:
            # the hardware normalises by one integration length per sequencer
            rate = draw(st.sampled_from([1e9, 1e9, 5e8])) if d > 4 else 1e9
            n = round(d * rate / 1e9)
            if p == "WeightedIntegratedSeparated":
                k["duration"] = qgen.sec(d)
                for w in ("waveform_a", "waveform_b"):
                    f = draw(st.sampled_from(["square", "ramp"]))
                    k[w] = {"port": lane.port, "clock": lane.clock, "t0": 0,
                            "duration": qgen.sec(d), "amp": draw(qgen.AN),
                            "wf_func": f"quantify_scheduler.waveforms.{f}"}
            else:
                wt = st.one_of(st.sampled_from([1.0, -1.0, 0.5, 0.0]), qgen.A)
                k.update(weights_a={"__a": [draw(wt) for _ in range(n)]},
                         weights_b={"__a": [draw(wt) for _ in range(n)]},
                         weights_sampling_rate=rate)
                if rate != 1e9:  # extrapolation beyond the last sample must stay in range
                    for w in ("weights_a", "weights_b"):
                        k[w] = {"__a": [round(x / 3, 5) for x in k[w]["__a"]]}
                if p == "WeightedThresholdedAcquisition":
                    k.update(acq_threshold=c["thr_"])
        else:
            d = draw(st.sampled_from([8, 12, 20, 100, 400, 1000]))
            k["duration"] = qgen.sec(d)
            if p == "ThresholdedTriggerCount":
                k.update(threshold=c["thr"], feedback_trigger_condition=c["cond"])
            if p in ("Timetag", "TimetagTrace"):
                k["time_ref"] = c["ref"]
                if p == "Timetag":
                    k["time_source"] = c["src"]
            if p == "TimetagTrace":
                k["duration"] = qgen.sec(max(d, 20))
                d = max(d, 20)
        k["_p"] = p
        t0 = Q.ns_of(k.get("t0", 0))
        return {"t": "op", "c": p, "k": k}, d + t0, t0 + max(300, d)


def strip(d):
    """Remove generator annotations (keys starting with _)."""
    if isinstance(d, dict):
        return {k: strip(v) for k, v in d.items() if k != "_p"}
    if isinstance(d, list):
        return [strip(x) for x in d]
    return d


def traverse(op, mult=1, incond=False):
    """Acquisition leaves in the order in which the compiler numbers them."""
    t = op["t"]
    if t == "op":
        if op["c"] in Q.ACQS:
            yield op, mult
    elif t in ("loop", "cond"):
        yield from traverse(op["body"], mult * (op["n"] if t == "loop" else 1))
    else:
        ts, _ = build.solve(op, lambda o: build.duration(o, Q.leaf_dur))
        for i in sorted(range(len(ts)), key=lambda i: ts[i]):
            yield from traverse(op["ops"][i]["op"], mult)


@st.composite
def number(draw, d, plan):
    """Give some acquisitions explicit indices, the way users number them."""
    for cs in plan.channels.values():
        for c in cs:
            if c["mode"] == "distribution" or c["p"] == "Trace":
                continue
            style = draw(st.sampled_from(["implicit", "implicit", "explicit", "mixed"]))
            if style == "implicit":
                continue
            i = 0
            for op, mult in traverse(d):
                if op["k"].get("acq_channel") != c["ch"] or (
                        op["k"]["port"] != Q.LANES[c["lane"]].port):
                    continue
                if style == "mixed" and draw(st.booleans()):
                    continue
                if c["mode"] not in ("average", "sum") and mult > 1:
                    continue
                op["k"]["acq_index"] = i
                i += 1
    return d


@st.composite
def program(draw, lanes=("mw0", "ro0", "ro1", "rfro", "rq", "tq"), protocols=None, depth=1,
            items=(2, 7), loops=0.3, reps=(1, 2, 3), trace=True, kinds=None,
            modes=("average", "append")):
    names = sorted(draw(st.permutations(list(lanes)))[: draw(st.integers(1, min(4, len(lanes))))])
    if not any(Q.LANES[n].inp for n in names):
        names = sorted({*names, "ro0"} if "ro0" in lanes else {*names, lanes[0]})
    plan = Plan(draw, names, protocols, trace=trace, modes=modes)
    kn = qgen.Knobs(names, kinds or ["acq"] * 4 + ["pulse", "idle"], depth=depth, items=items,
                    loops=loops, subs=0.1, reps=reps, acq=plan)
    b = qgen.Builder(draw, kn, {n: Q.LANES[n] for n in names})
    b.nopulse = {"rq", "tq", "tq1"}
    d, total, used = b.block(depth, names, "top")
    d["reps"] = draw(st.sampled_from(reps))
    d["share"] = draw(st.integers(0, 3)) == 0
    d = draw(number(d, plan))
    chans = [{k: c[k] for k in ("ch", "lane", "p", "mode", "dur_", "rot", "thr_")} |
             {k: c[k] for k in ("thr", "cond", "ref", "src") if k in c}
             for cs in plan.channels.values() for c in cs]
    return {"d": strip(d), "lanes": names, "chans": chans}


def weights(op):
    """(a, b) weight samples at 1 GS/s."""
    k = op["k"]
    if op["c"] == "WeightedIntegratedSeparated":
        n = Q.ns_of(k["duration"])
        out = []
        for w in (k["waveform_a"], k["waveform_b"]):
            t = np.arange(n)
            if w["wf_func"].endswith("square"):
                out.append(np.full(n, w["amp"], dtype=float))
            else:
                out.append(w["amp"] * t / n)
        return out
    rate = k["weights_sampling_rate"]
    step = 1e9 / rate
    out = []
    for w in (k["weights_a"], k["weights_b"]):
        y = np.array(w["__a"], dtype=float)
        n = round(len(y) * step)
        t = np.arange(n)
        x = np.arange(len(y)) * step
        v = np.interp(t, x, y)
        over = t > x[-1]
        v[over] = y[-1] + (y[-1] - y[-2]) / step * (t[over] - x[-1])
        out.append(v)
    return out


def acq_dur(op):
    k = op["k"]
    if "duration" in k:
        return Q.ns_of(k["duration"])
    return round(len(k["weights_a"]["__a"]) * 1e9 / k["weights_sampling_rate"])

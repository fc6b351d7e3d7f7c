"""Plain-data descriptions of schedules, and how to build the real objects from them.

op  := {"t":"op","c":<class name>,"k":{kwargs}}
     | {"t":"loop","n":int,"body":op} | {"t":"cond","q":str,"body":op,"buf":float}
     | {"t":"sched","name":str,"reps":int,"ops":[item]}
item := {"op":op, "rel":float, "ref":int|None, "pt":str|None, "ptn":str|None,
         "extra":[{"rel","ref","pt","ptn"}]}
values: {"__c":[re,im]} complex, {"__a":[...]} ndarray
"""
from __future__ import annotations

import json

import numpy as np


def val(v):
    if isinstance(v, dict):
        if "__c" in v:
            return complex(*v["__c"])
        if "__b" in v:
            from quantify_scheduler.enums import BinMode

            return BinMode(v["__b"])
        if "__a" in v:
            return np.array([val(x) for x in v["__a"]], dtype=v.get("dtype"))
        if "__t" in v:
            return tuple(val(x) for x in v["__t"])
        if "__e" in v:
            from quantify_scheduler import enums

            return getattr(enums, v["__e"][0])(v["__e"][1])
        if "__r" in v:
            from quantify_scheduler.operations.pulse_library import ReferenceMagnitude

            return ReferenceMagnitude(*v["__r"])
        if "__n" in v:
            return getattr(np, v["__n"][0])(val(v["__n"][1]))
        return {k: val(x) for k, x in v.items()}
    if isinstance(v, list):
        return [val(x) for x in v]
    return v


def namespace():
    import quantify_scheduler.operations as ops
    from quantify_scheduler.operations import (
        acquisition_library,
        gate_library,
        nv_native_library,
        pulse_library,
        shared_native_library,
        spin_library,
    )

    from quantify_scheduler.backends.qblox.operations import inline_q1asm, rf_switch_toggle
    from quantify_scheduler.backends.qblox.operations import pulse_factories
    from quantify_scheduler.backends.qblox.operations import pulse_library as qblox_pulses

    ns = {}
    for m in (gate_library, pulse_library, acquisition_library, nv_native_library,
              shared_native_library, spin_library, ops,
              qblox_pulses, inline_q1asm, rf_switch_toggle, pulse_factories):
        for k in dir(m):
            if not k.startswith("_"):
                ns.setdefault(k, getattr(m, k))
    return ns


_NS = None
_SHARED = None


def make(op):
    """Construct the operation; within a schedule with "share", equal descriptions become the
    same object."""
    if _SHARED is None or (op["t"] == "sched" and op.get("share")):
        return _make(op)
    key = json.dumps(op, sort_keys=True)
    if key not in _SHARED:
        _SHARED[key] = _make(op)
    return _SHARED[key]


def _make(op):
    global _NS
    if _NS is None:
        _NS = namespace()
    t = op["t"]
    if t == "op":
        kw = {k: val(v) for k, v in op["k"].items()}
        pos = kw.pop("*", [])
        return _NS[op["c"]](*pos, **kw)
    if t == "multi":  # one operation with several pulses and acquisitions
        from quantify_scheduler.operations.operation import Operation

        o = Operation("multi")
        for x in op["ops"]:
            x = make(x)
            (o.add_acquisition if x.valid_acquisition else o.add_pulse)(x)
        return o
    if t == "loop":
        return _NS["LoopOperation"](body=make(op["body"]), repetitions=op["n"])
    if t == "cond":
        return _NS["ConditionalOperation"](
            body=make(op["body"]), qubit_name=op["q"], hardware_buffer_time=op.get("buf", 0.0)
        )
    if t == "comp" and "qubits" in op:
        return _NS["PulseCompensation"](body=make(op["body"]), qubits=list(op["qubits"]))
    if t == "comp":  # pulse compensation
        return _NS["PulseCompensation"](
            body=make(op["body"]), max_compensation_amp=dict(op["max"]), time_grid=op["grid"],
            sampling_rate=op["rate"])
    if t == "sched":
        return make_schedule(op)
    raise KeyError(t)


def label(i):
    return f"L{i}"


def make_schedule(d, clocks=()):
    global _SHARED
    if d.get("share") and _SHARED is None:
        _SHARED = {}
        try:
            return _make_schedule(d, clocks)
        finally:
            _SHARED = None
    return _make_schedule(d, clocks)


def _make_schedule(d, clocks=()):
    from quantify_scheduler import Schedule
    from quantify_scheduler.resources import ClockResource

    s = Schedule(d["name"], repetitions=d.get("reps", 1))
    for name, freq in list(clocks) + list(d.get("clocks", [])):
        s.add_resource(ClockResource(name, freq))
    for i, it in enumerate(d["ops"]):
        ref = it.get("ref")
        sch = s.add(
            make(it["op"]),
            rel_time=it.get("rel", 0),
            ref_op=None if ref is None else label(ref),
            ref_pt=it.get("pt"),
            ref_pt_new=it.get("ptn"),
            label=label(i),
        )
        for e in it.get("extra", []):
            sch.add_timing_constraint(
                rel_time=e.get("rel", 0), ref_schedulable=label(e["ref"]),
                ref_pt=e.get("pt"), ref_pt_new=e.get("ptn"))
    return s


# ---------------------------------------------------------------- reference timing model
def solve(d, dur_of, strategy="asap", delay_of=lambda op: 0.0):
    """Start times of the items of schedule description `d`, by the documented rules.

    Every item starts at the latest of its constraints (ASAP); defaults: previous item's
    end -> own start (ASAP), next item's start -> own end (ALAP); shifted so that nothing
    starts before 0.
    """
    items = d["ops"]
    n = len(items)
    durs = [dur_of(it["op"]) for it in items]
    frac = {"start": 0.0, "center": 0.5, "end": 1.0}
    start = {}

    def constraints(i):
        it = items[i]
        ref = it.get("ref")
        if ref is None:
            ref = i - 1 if strategy == "asap" else i + 1
            if ref < 0 or ref >= n:
                ref = None
        dpt, dptn = ("end", "start") if strategy == "asap" else ("start", "end")
        out = [(ref, it.get("pt") or dpt, it.get("ptn") or dptn, it.get("rel", 0))]
        for e in it.get("extra", []):
            out.append((e["ref"], e.get("pt") or "end", e.get("ptn") or "start",
                        e.get("rel", 0)))
        return out

    def get(i):
        if i in start:
            return start[i]
        cs = constraints(i)
        if all(r is None for r, *_ in cs):
            start[i] = 0.0
            return 0.0
        best = None
        for r, pt, ptn, rel in cs:
            t = (get(r) + frac[pt] * durs[r] + rel + delay_of(items[r]["op"])
                 - frac[ptn] * durs[i])
            best = t if best is None or t > best else best
        start[i] = best
        return best

    order = range(n) if strategy == "asap" else range(n - 1, -1, -1)
    for i in order:
        get(i)
    m = min(start.values())
    sh = -m if m < 0 else 0.0
    ts = [start[i] + sh for i in range(n)]
    total = max([0.0] + [t + u for t, u in zip(ts, durs)]) * d.get("reps", 1)
    return ts, total


def duration(op, leaf, strategy="asap"):
    t = op["t"]
    if t == "op":
        return leaf(op)
    if t == "multi":
        return max(leaf(x) for x in op["ops"])
    if t == "loop":
        return op["n"] * duration(op["body"], leaf, strategy)
    if t == "cond":
        return duration(op["body"], leaf, strategy) + op.get("buf", 0.0)
    if t == "sched":
        return solve(op, lambda o: duration(o, leaf, strategy), strategy)[1]
    raise KeyError(t)


def leaves(op, leaf, t0=0.0, strategy="asap", path=(), once=False):
    """Yield (absolute start, leaf op, path); loops unrolled, repetitions of the top level
    schedule not unrolled (caller's business)."""
    t = op["t"]
    if t == "op":
        yield t0, op, path
    elif t == "multi":
        for x in op["ops"]:
            yield t0, x, path
    elif t == "loop":
        d = duration(op["body"], leaf, strategy)
        for i in range(1 if once else op["n"]):
            yield from leaves(op["body"], leaf, t0 + i * d, strategy, path + (("loop", i),), once)
    elif t == "cond":
        yield from leaves(op["body"], leaf, t0, strategy, path + (("cond", op["q"]),), once)
    elif t == "sched":
        ts, _ = solve(op, lambda o: duration(o, leaf, strategy), strategy)
        for i, (s, it) in enumerate(zip(ts, op["ops"])):
            yield from leaves(it["op"], leaf, t0 + s, strategy, path + (i,), once)

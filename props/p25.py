"""P25: identity of operations is their content."""
from __future__ import annotations

import copy
import inspect

import numpy as np
from hypothesis import strategies as st

from vf import build, ops
from vf.core import Discard, Sub, expect, ok, sut

ASSUMPTIONS = (
    "Parameter values that are equal in Python (1, 1.0, True; a string and the enumeration "
    "member it names) are the same value; rotation angles are compared modulo 360 degrees.")


# ------------------------------------------------------------------ content of a description
def canonical(desc):
    """Full parameter set of a description as Python values (defaults filled in)."""
    if build._NS is None:
        build._NS = build.namespace()
    cls = build._NS[desc["c"]]
    out = {}
    for n, p in inspect.signature(cls).parameters.items():
        if p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD) and p.default is not p.empty:
            out[n] = plain(p.default)
    for n, v in desc["k"].items():
        out[n] = plain(build.val(v))
    if desc["c"] == "InlineQ1ASM":
        out["waveforms"] = out["waveforms"] or {}  # documented default
    return out


def plain(v):
    from enum import Enum

    if isinstance(v, Enum):
        return v.value
    if isinstance(v, np.ndarray):
        return ["array", v.dtype.kind] + [plain(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def exact(v):
    """Type-aware rendering: equal renderings are the very same content."""
    if isinstance(v, dict):
        return {k: exact(x) for k, x in v.items()}
    if isinstance(v, list):
        return [exact(x) for x in v]
    return f"{type(v).__name__}:{v!r}"


ANGLES = {("Rxy", "theta"), ("Rxy", "phi"), ("Rz", "theta")}


def differ(cls, a, b):
    """True: contents differ; False: the same; None: not decided (equal but of another type)."""
    if exact(a) == exact(b):
        return False
    if a == b:
        return None
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if k in a and k in b and x == y:
            continue
        if (cls, k) in ANGLES:
            d = abs((x - y + 180) % 360 - 180)
            if d < 1e-3:
                return None
        if k in ("samples", "t_samples", "weights_a", "weights_b"):
            if np.shape(x) and np.shape(y) and strip(x) == strip(y):
                return None
        if k in a and k not in b or k in b and k not in a:
            continue
    if cls in ("DRAGPulse", "GaussPulse") and all(
            a.get(k) == b.get(k) for k in set(a) | set(b) if k != "sigma"):
        return True
    if all(_same_but_angle(cls, k, a, b) for k in set(a) | set(b)):
        return None
    return True


def _same_but_angle(cls, k, a, b):
    if k in a and k in b and a[k] == b[k]:
        return True
    if (cls, k) in ANGLES:
        return abs((a[k] - b[k] + 180) % 360 - 180) < 1e-3
    return False


def strip(v):
    return v[2:] if isinstance(v, list) and v[:1] == ["array"] else v


def place(data, where):
    for k in where:
        data = data[k]
    return data


def kept(desc, op):
    cls, k = desc["c"], desc["k"]
    names = None
    for n, v in k.items():
        p = ops.SPEC[cls][n]
        if p.where is None:
            continue
        want = plain(build.val(v))
        with sut("reading the parameter of an operation"):
            got = plain(place(op.data, p.where))
        if cls == "SimpleNumericalPulse" and n == "samples":
            got = got[:-1]  # one padding sample, documented in the code
        expect(strip(got) == strip(want) and (got is True) == (want is True),
               "an operation does not hold the parameter value it was given", cls=cls,
               parameter=n, given=want, held=got)
    if "gate_info" in op.data and op.data["gate_info"]:
        names = [k["qubit"]] if "qubit" in k else k.get("*") or [k.get("qC"), k.get("qT")]
        expect(list(op.data["gate_info"]["device_elements"]) == list(names),
               "a gate does not hold the qubits it was given", cls=cls, given=names,
               held=op.data["gate_info"]["device_elements"])
        given = {n: v for n, v in k.items()
                 if ops.SPEC[cls][n].where and "device_overrides" in ops.SPEC[cls][n].where}
        held = op.data["gate_info"].get("device_overrides", {})
        expect(set(held) == set(given), "device overrides were added or lost", cls=cls,
               given=sorted(given), held=sorted(held))
    if cls in ("Rxy", "Rz"):
        g = op.data["gate_info"]
        for n in ("theta", "phi"):
            if n in k:
                x = g[n] - k[n]
                expect(abs(x - 360 * round(x / 360)) < 2e-8,
                       "a rotation does not hold the angle it was given", given=k[n], held=g[n])
    if cls == "Measure" or cls == "CRCount":
        given = k.get("acq_index")
        held = op.data["gate_info"]["acq_index"]
        want = given if len(names) == 1 else [given] * len(names)
        expect((list(held) if isinstance(held, (list, tuple)) else held) == want,
               "a measurement does not hold the acquisition index it was given", given=given,
               held=held)
    infos = op.data["pulse_info"] + op.data["acquisition_info"] if cls != "InlineQ1ASM" else []
    if infos and cls != "Timestamp" and "t0" in infos[0]:
        end = max(i["t0"] + i["duration"] for i in infos)
        expect(op.duration == end, "the duration of an operation is not that of its content",
               held=op.duration, content=end)


def case_operations():
    return ops.operation().flatmap(lambda d: st.fixed_dictionaries({
        "op": st.just(d),
        "muts": st.lists(ops.mutated(d).map(list), min_size=1, max_size=4)}))


def make(d, what):
    with sut(what, allow=(NotImplementedError,)):
        return build.make(d)


def clean(desc):
    """Combinations that the constructors refuse for a documented reason."""
    k = desc["k"]
    if k.get("time_ref") in ("port", {"__e": ["TimeRef", "port"]}) and not k.get("time_ref_port"):
        return False
    if desc["c"] in ("CNOT", "CZ", "SpinInit") and k["qC"] == k["qT"]:
        return False
    return True


def check_operations(case):
    d = case["op"]
    a = make(d, "constructing an operation")
    b = make(copy.deepcopy(d), "constructing an operation")
    with sut("comparing operations"):
        expect(a == b and b == a, "two operations with the same content differ", op=d)
        expect(hash(a) == hash(b) and a.hash == b.hash,
               "two operations with the same content have different hashes", op=d)
        c = copy.deepcopy(a)
        expect(a == c and type(a) is type(c) and a.hash == c.hash,
               "a copy of an operation is not equal to it", op=d)
    kept(d, a)
    ca = canonical(d)
    n = 0
    for p, d2 in case["muts"]:
        if not clean(d2):
            continue
        m = make(d2, "constructing an operation")
        kept(d2, m)
        want = differ(d["c"], ca, canonical(d2))
        if want is None:
            continue
        n += bool(want)
        with sut("comparing operations"):
            eq, heq = a == m, a.hash == m.hash
        if want:
            expect(not eq and not heq,
                   "operations with different parameters are equal or have the same hash",
                   parameter=p, a=d, b=d2, equal=eq, same_hash=heq)
        else:
            expect(eq and heq, "operations with the same content are not equal", a=d, b=d2)
    return ok(n >= 1, [d["c"]])


# ------------------------------------------------------------------ schedules
PLAIN = [c for c in ops.CLASSES if c not in ("WindowOperation", "InlineQ1ASM", "LatchReset")]


@st.composite
def case_schedules(draw):
    n = draw(st.integers(2, 6))
    out = []
    for _ in range(n):
        if out and draw(st.booleans()):
            base = draw(st.sampled_from(out))
            leaf = base
            wraps = []
            while leaf["t"] != "op":
                wraps.append(leaf)
                leaf = leaf["body"] if leaf["t"] != "sched" else leaf["ops"][0]["op"]
            o = draw(ops.mutated(leaf))[1]
            if not clean(o):
                o = leaf
            for w in reversed(wraps):
                o = dict(w, ops=[dict(w["ops"][0], op=o)]) if w["t"] == "sched" else dict(w, body=o)
            if wraps and draw(st.booleans()) and wraps[0]["t"] == "loop":
                o = dict(o, n=draw(st.integers(1, 4)))
        else:
            o = draw(ops.operation(PLAIN))
            for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
                kind = draw(st.sampled_from(["loop", "cond", "sched"]))
                if kind == "loop":
                    o = {"t": "loop", "n": draw(st.integers(1, 4)), "body": o}
                elif kind == "cond":
                    o = {"t": "cond", "q": draw(ops.NAMES), "body": o}
                else:
                    o = {"t": "sched", "name": draw(st.sampled_from(["in", "out"])), "reps": 1,
                         "ops": [{"op": o, "rel": draw(ops.T0)}]}
        out.append(o)
    rels = draw(st.lists(ops.T0, min_size=n, max_size=n))
    return {"sched": {"t": "sched", "name": "s", "reps": draw(st.integers(1, 3)),
                      "ops": [{"op": o, "rel": r} for o, r in zip(out, rels)]},
            "change": draw(st.integers(0, n - 1))}


def check_schedules(case):
    d = case["sched"]
    with sut("building a schedule", allow=(NotImplementedError,)):
        s = build.make_schedule(d)
        s2 = build.make_schedule(copy.deepcopy(d))
        fresh = [build.make(it["op"]) for it in d["ops"]]
    items = list(s.schedulables.values())
    expect(len(items) == len(d["ops"]), "a schedule lost or gained operations")
    for it, sch, op in zip(d["ops"], items, fresh):
        held = s.operations[sch["operation_id"]]
        r = ops.deep(op, held, ignore=("loose",))
        expect(r is None, "a schedule plays an operation with other parameters than those added",
               difference=r)
        expect(sch["timing_constraints"][0].rel_time == it["rel"],
               "a schedule does not keep the timing it was given", given=it["rel"],
               held=sch["timing_constraints"][0].rel_time)
    with sut("comparing schedules"):
        expect(s.hash == s2.hash and hash(s) == hash(s2),
               "schedules with the same content have different hashes")
        expect(s == s2, "schedules with the same content are not equal")
        s3 = copy.deepcopy(s)
        expect(s == s3 and s.hash == s3.hash, "a copy of a schedule is not equal to it")
    other = copy.deepcopy(d)
    i = case["change"]
    other["ops"][i]["rel"] = other["ops"][i]["rel"] + 1e-6
    with sut("building a schedule"):
        so = build.make_schedule(other)
    expect(s.hash != so.hash and s != so, "schedules with different timing are equal")
    distinct = len({repr(o) for o in (it["op"] for it in d["ops"])})
    kinds = {it["op"]["t"] for it in d["ops"]}
    return ok(distinct >= 2, ["nested"] if kinds - {"op"} else [])


# ------------------------------------------------------------------ refusals
REFUSED = [
    ("Timetag", dict(duration=1e-6, port="p", clock="digital", time_ref="port"), "time reference"),
    ("TimetagTrace", dict(duration=1e-6, port="p", clock="digital", time_ref="port"), "reference"),
    ("Timetag", dict(duration=1e-6, port="p", clock="digital", time_ref="never"), "enum"),
    ("Timetag", dict(duration=1e-6, port="p", clock="digital", time_source="never"), "enum"),
    ("Trace", dict(duration=1e-6, port="p", clock="c", bin_mode="never"), "enum"),
]


def case_refusals():
    return st.one_of(
        st.sampled_from(range(len(REFUSED))).map(lambda i: {"kind": "fixed", "i": i}),
        st.fixed_dictionaries({"kind": st.just("label"), "op": ops.operation(PLAIN),
                               "op2": ops.operation(PLAIN)}),
        st.fixed_dictionaries({"kind": st.just("object"),
                               "v": st.sampled_from([1, "X", None, [1], {"a": 1}])}),
        st.fixed_dictionaries({"kind": st.just("resource"), "f": ops.FREQ, "g": ops.FREQ}),
        st.fixed_dictionaries({"kind": st.just("repetitions"),
                               "n": st.integers(-10, 0)}),
        st.fixed_dictionaries({"kind": st.just("extra"), "op": ops.operation(
            [c for c in PLAIN if ("pulse_info", 0, "t0") in
             [p.where for p in ops.SPEC[c].values()]])}),
    )


def refused(call):
    try:
        call()
    except Exception:
        return True
    return False


def check_refusals(case):
    from quantify_scheduler import Schedule
    from quantify_scheduler.resources import ClockResource

    k = case["kind"]
    if k == "fixed":
        c, kw, why = REFUSED[case["i"]]
        expect(refused(lambda: build.make({"t": "op", "c": c, "k": kw})),
               "an operation accepts an invalid parameter", cls=c, given=kw)
    elif k == "label":
        with sut("adding", allow=(NotImplementedError,)):
            s = Schedule("s")
            s.add(build.make(case["op"]), label="x")
            o2 = build.make(case["op2"])
        expect(refused(lambda: s.add(o2, label="x")), "a label can be used twice")
        expect(len(s.schedulables) == 1, "a refused operation was added")
    elif k == "object":
        s = Schedule("s")
        expect(refused(lambda: s.add(case["v"])), "a schedule accepts a non-operation")
        expect(not s.operations, "a refused operation was added")
    elif k == "resource":
        s = Schedule("s")
        s.add_resource(ClockResource("c", case["f"]))
        expect(refused(lambda: s.add_resource(ClockResource("c", case["g"]))),
               "a resource can be added twice")
        expect(s.resources["c"].data["freq"] == case["f"], "a refused resource was added")
    elif k == "repetitions":
        s = Schedule("s", repetitions=3)
        expect(refused(lambda: setattr(s, "repetitions", case["n"])),
               "a schedule accepts repetitions < 1")
        expect(s.repetitions == 3, "refused repetitions were kept")
    else:
        d = copy.deepcopy(case["op"])
        d["k"]["no_such_parameter"] = 1
        expect(refused(lambda: build.make(d)), "an unknown parameter is accepted",
               cls=d["c"])
        miss = [n for n in d["k"] if n != "no_such_parameter" and ops.SPEC[d["c"]][n].required]
        d = copy.deepcopy(case["op"])
        del d["k"][sorted(miss)[0]]
        expect(refused(lambda: build.make(d)), "a required parameter may be left out",
               cls=d["c"])
    return ok(True, [k])


SUBS = [
    Sub("operations", case_operations, check_operations, quick=6000, thorough=120000,
        rule="at least one single-parameter mutation really changes the content"),
    Sub("schedules", case_schedules, check_schedules, quick=1200, thorough=30000,
        rule="at least two different operations in the schedule"),
    Sub("refusals", case_refusals, check_refusals, quick=400, thorough=4000,
        rule="every case is an invalid use"),
]

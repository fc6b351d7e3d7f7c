"""P02: serialized objects come back equal and compile identically."""
from __future__ import annotations

import copy
import dataclasses
import json
import warnings
from collections import UserDict
from enum import Enum

import numpy as np
from hypothesis import strategies as st

from vf import acq, build, gen, ops, qgen
from vf import device as D
from vf import qblox as Q
from vf.core import Discard, Known, Sub, Violation, expect, ok, sut
import props.p04 as p04
import props.p06 as p06

ASSUMPTIONS = (
    "Enumeration members that are strings come back as the equal string, tuples as lists; angles "
    "in the printed form are compared modulo 360 degrees; sets and bytes are outside the domain; "
    "for compiled Qblox schedules the settings objects are compared by their values, see "
    "KNOWN-FINDING P02-compiled-settings-types.")


def dumps(x):
    from quantify_scheduler.json_utils import SchedulerJSONEncoder

    return json.dumps(x, cls=SchedulerJSONEncoder)


def loads(x):
    from quantify_scheduler.json_utils import SchedulerJSONDecoder

    return json.loads(x, cls=SchedulerJSONDecoder)


def equal(a, b, what):
    r = ops.deep(a, b, ignore=("loose",))
    expect(r is None, "%s: %s", what, r)


def names():
    from quantify_scheduler import resources
    from quantify_scheduler.operations.pulse_library import ReferenceMagnitude

    return dict(build.namespace()) | {
        "np": np, "array": np.array, "ReferenceMagnitude": ReferenceMagnitude,
        "ClockResource": resources.ClockResource, "Resource": resources.Resource,
        "BasebandClockResource": resources.BasebandClockResource,
        "DigitalClockResource": resources.DigitalClockResource}


# ----------------------------------------------------------------------- values
PLACES = ["device_overrides", "opts", "coords", "data", "list"]


@st.composite
def value(draw, depth=2):
    k = draw(st.integers(0, 16 if depth else 12))
    if k < 2:
        return draw(st.sampled_from([0, 1, -1, 2**53 + 1, -2**40, 2**63]))
    if k < 5:
        return draw(st.one_of(st.floats(allow_nan=False, allow_infinity=False),
                              st.sampled_from([0.0, -0.0, 1e-9, 5.1e9, 1e300, 2e-324])))
    if k == 5:
        return draw(st.booleans())
    if k == 6:
        return None
    if k == 7:
        return draw(st.sampled_from(["", "q0", "é\n\"'\\", "None", "(1+2j)", "complex", "0.01"]))
    if k == 8:
        f = st.sampled_from([0.0, -0.0, 1.5, -0.25, 1e-12, 3.0, 1e20])
        return {"__c": [draw(f), draw(f)]}
    if k == 9:
        return {"__n": [draw(st.sampled_from(["float32", "float64", "int32", "int64", "uint32",
                                              "int16", "uint8", "bool_", "complex128",
                                              "complex64"])), draw(st.integers(0, 9))]}
    if k == 10:
        dt = draw(st.sampled_from(["float64", "int64", "complex128", "float32", "int32", "bool",
                                   "uint8"]))
        n = draw(st.integers(0, 4))
        v = draw(st.lists(st.integers(0, 5), min_size=n, max_size=n))
        return {"__a": v, "dtype": dt}
    if k == 11:
        return {"__e": draw(st.sampled_from([["BinMode", "append"], ["BinMode", "average"],
                                             ["TimeSource", "first"], ["TimeRef", "timestamp"],
                                             ["TriggerCondition", "less_than"]]))}
    if k == 12:
        return {"__t": draw(st.lists(value(0), max_size=3))}
    if k < 15:
        return draw(st.lists(value(depth - 1), max_size=3))
    return draw(st.dictionaries(st.sampled_from(["a", "b", "amp180", "", "x y", "mode", "dtype"]),
                                value(depth - 1), max_size=3))


@st.composite
def value_case(draw):
    return {"v": draw(value()), "where": draw(st.sampled_from(PLACES)),
            "times": draw(st.integers(1, 3))}


def carrier(where, v):
    from quantify_scheduler.operations import gate_library, pulse_library

    if where == "device_overrides":
        return gate_library.X("q0", v=v)
    if where == "opts":
        return gate_library.Rxy(theta=30.0, phi=7.5, qubit="q1", nested={"k": [v]})
    if where == "coords":
        from quantify_scheduler.operations import acquisition_library

        return acquisition_library.SSBIntegrationComplex(
            "q0:res", "q0.ro", 1e-6, coords={"c": v})
    if where == "data":
        o = pulse_library.IdlePulse(4e-9)
        o.data["extra"] = v
        return o
    return [v, {"a": v}]


def check_value(c):
    v = build.val(c["v"])
    x = carrier(c["where"], v)
    was = copy.deepcopy(x)
    y = x
    for _ in range(c["times"]):
        with sut("serializing and reading back"):
            y = loads(dumps(y))
    equal(x, y, "a value did not survive JSON")
    equal(was, x, "serializing changed the object")
    return ok(c["v"] not in (None, [], {}), [c["where"]])


# ----------------------------------------------------------------------- operations
@st.composite
def op_case(draw):
    d = draw(ops.operation(extras=4))
    return {"op": d, "times": draw(st.integers(1, 2))}


def check_op(c):
    try:
        with sut("building an operation", allow=(NotImplementedError,)):
            o = build.make(c["op"])
    except NotImplementedError:
        raise Discard("not implemented") from None
    was = copy.deepcopy(o)
    dur, hsh = o.duration, o.hash
    p = o
    for _ in range(c["times"]):
        with sut("serializing and reading back"):
            p = loads(dumps(p))
    expect(type(p) is type(o), "an operation came back as %s", type(p).__name__)
    equal(o, p, "operation after JSON")
    expect(p == o, "operation after JSON is unequal: %r, %r", o.data, p.data)
    expect(p.duration == dur, "duration %r became %r", dur, p.duration)
    expect(p.hash == hsh or json.dumps(D.plain(o.data), default=str)
           != json.dumps(D.plain(p.data), default=str), "hash of an equal operation changed")
    for f in ("valid_gate", "valid_pulse", "valid_acquisition", "has_voltage_offset",
              "is_conditional_acquisition", "is_control_flow"):
        expect(getattr(p, f, None) == getattr(o, f, None), "%s changed after JSON", f)
    with sut("evaluating the printed form of an operation"):
        s = str(o)
        e = eval(s, names())  # noqa: S307
    expect(isinstance(e, type(o)), "printed form evaluates to %s", type(e).__name__)
    if not angle(c["op"]):
        expect(e == o, "the printed form %s gives another operation: %s", s,
               ops.deep(o, e, ignore=("loose",)))
        expect(e.duration == dur, "printed form has duration %r, not %r", e.duration, dur)
    equal(was, o, "serializing or printing changed the operation")
    expect(o.hash == hsh, "serializing changed the hash")
    return ok(len(c["op"]["k"]) >= 2, [c["op"]["c"]])


def angle(op):
    """Rotation whose phi rounds to a full turn: printed as 360, evaluated as 0."""
    k = op["k"].get("phi")
    return op["c"] == "Rxy" and isinstance(k, (int, float)) and (
        k % 360 > 359.99999 or k % 360 < 1e-5 and k % 360)


# ----------------------------------------------------------------------- resources
@st.composite
def res_case(draw):
    n = draw(st.sampled_from(["q0.01", "cl", "", "a b", "é'\"\\"]))
    k = draw(st.sampled_from(["clock", "clock", "clock", "bb", "dig", "res"]))
    f = draw(st.one_of(st.sampled_from([0.0, 5.1e9, 7e9, 1, float("nan")]),
                       st.floats(-1e10, 1e10)))
    return {"kind": k, "name": n, "freq": f,
            "phase": draw(st.one_of(st.none(), st.floats(-400, 400)))}


def check_res(c):
    from quantify_scheduler import resources as R

    if c["freq"] != c["freq"] and c["kind"] == "clock":
        raise Discard("nan is unequal to itself")
    with sut("building a resource"):
        if c["kind"] == "clock":
            r = R.ClockResource(c["name"], c["freq"],
                                **({} if c["phase"] is None else {"phase": c["phase"]}))
        else:
            r = {"bb": R.BasebandClockResource, "dig": R.DigitalClockResource,
                 "res": R.Resource}[c["kind"]](c["name"])
    with sut("serializing a resource"):
        p = loads(dumps(r))
    expect(type(p) is type(r) and p == r, "resource %r came back as %r", r, p)
    equal(r, p, "resource after JSON")
    with sut("evaluating the printed form of a resource"):
        e = eval(str(r), names())  # noqa: S307
    expect(type(e) is type(r) and e == r, "printed resource %s gives %r", str(r), e)
    equal(r, e, "resource after printing")
    if c["kind"] == "clock":
        expect(p["freq"] == c["freq"] and p["phase"] == (c["phase"] or 0), "resource value")
    return ok(c["kind"] == "clock", [c["kind"]])


# ----------------------------------------------------------------------- schedules
@st.composite
def free_schedule(draw, depth=2):
    """Any operations at all (not meant to be compiled), in nested schedules."""
    names_, items = [], []
    for i in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 6))
        if k == 0 and depth:
            o = draw(free_schedule(depth - 1))
        elif k == 1 and depth:
            o = {"c": "Loop", "body": draw(free_schedule(depth - 1)),
                 "reps": draw(st.integers(1, 5))}
        elif k == 2 and depth:
            o = {"c": "Cond", "body": draw(free_schedule(depth - 1)),
                 "q": draw(st.sampled_from(["q0", "q1"])),
                 "time": draw(st.sampled_from([None, 400e-9]))}
        else:
            o = draw(ops.operation())
        t = None
        if names_ and draw(st.booleans()):
            t = [[draw(st.sampled_from(names_)),
                  draw(st.sampled_from(["start", "center", "end"])),
                  draw(st.sampled_from(["start", "center", "end"])),
                  draw(st.sampled_from([0.0, 4e-9, -8e-9, 1.5e-9]))]]
        items.append([o, t, draw(st.sampled_from(["", "x"]))])
        names_.append(i)
    return {"ops": items, "reps": draw(st.integers(1, 1024)),
            "name": draw(st.sampled_from(["s", "", "my schedule", "é"]))}


def make_free(d):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import (
        ConditionalOperation,
        LoopOperation,
    )
    from quantify_scheduler.resources import ClockResource

    s = Schedule(d["name"], d["reps"])
    refs = []
    for i, (o, t, lab) in enumerate(d["ops"]):
        if "ops" in o:
            x = make_free(o)
        elif o["c"] == "Loop":
            x = LoopOperation(make_free(o["body"]), repetitions=o["reps"])
        elif o["c"] == "Cond" and "body" in o:
            kw = {} if o["time"] is None else {"hardware_buffer_time": o["time"]}
            x = ConditionalOperation(make_free(o["body"]), o["q"], **kw)
        else:
            x = build.make(o)
        tc = [dict(ref_op=refs[r], ref_pt=a, ref_pt_new=b, rel_time=dt)
              for r, a, b, dt in t or ()]
        kw = tc[0] if tc else {}
        refs.append(s.add(x, label=f"{lab}{i}{d['name']}" if lab else None, **kw))
    if "é" in d["name"]:
        s.add_resource(ClockResource("extra", 1e9, phase=0.5))
    return s


@st.composite
def schedule_case(draw):
    return {"s": draw(free_schedule()), "times": draw(st.integers(1, 3)),
            "file": draw(st.integers(0, 5)) == 0}


def check_schedule(c):
    from quantify_scheduler import Schedule

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with sut("building a schedule", allow=(NotImplementedError,)):
                s = make_free(c["s"])
    except NotImplementedError:
        raise Discard("not implemented") from None
    was = copy.deepcopy(s)
    p = s
    for _ in range(c["times"]):
        with sut("serializing a schedule and reading it back"):
            p = Schedule.from_json(p.to_json())
    if c["file"]:
        import tempfile

        with tempfile.TemporaryDirectory() as t, sut("writing a schedule to a file"):
            if "/" not in s.name:
                p = Schedule.from_json_file(p.to_json_file(t, add_timestamp=False))
    equal(s, p, "schedule after JSON")
    equal(was, s, "serializing changed the schedule")
    expect(list(p.schedulables) == list(s.schedulables), "order of the schedulables changed")
    expect((p.name, p.repetitions) == (s.name, s.repetitions), "name or repetitions changed")
    expect({k: v.hash for k, v in s.operations.items() if hasattr(v, "hash")}.keys()
           == {k: v.hash for k, v in p.operations.items() if hasattr(v, "hash")}.keys(),
           "operation keys changed")
    expect(p == s, "the schedule that was read back is unequal to the original")
    # a copy that is read back is independent of the original
    p.data["name"] = "changed"
    for o in p.operations.values():
        o.data["name"] = "changed"
    equal(was, s, "the schedule shares data with its deserialized copy")
    return ok(len(c["s"]["ops"]) >= 2, [f"times={c['times']}"])


# ----------------------------------------------------------------------- compilation
@st.composite
def compile_case(draw):
    k = draw(st.sampled_from(["acq", "pulse", "device", "device"]))
    if k == "acq":
        return {"kind": k, "c": draw(acq.program())}
    if k == "pulse":
        return {"kind": k, "c": draw(qgen.program(p06.MIX))}
    return {"kind": k, "c": draw(p04.case())}


def made(c):
    k, x = c["kind"], c["c"]
    if k == "device":
        return (build.make_schedule(x["sched"], x.get("clocks", ())),
                D.config(x.get("params", {}), x["strategy"]))
    s = build.make_schedule(x["d"], Q.clocks_of(x["lanes"]))
    return s, Q.config(acq.hw() if k == "acq" else Q.hardware())


def values(x):
    """Everything an object holds as plain values (types of the containers forgotten)."""
    if isinstance(x, Enum):
        return x.value
    if isinstance(x, np.ndarray):
        return [values(v) for v in x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, UserDict):
        return values(x.data)
    if isinstance(x, dict):
        return {str(k.value if isinstance(k, Enum) else k): values(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [values(v) for v in x]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return {f.name: values(getattr(x, f.name)) for f in dataclasses.fields(x)}
    if hasattr(type(x), "model_fields"):
        return {k: values(getattr(x, k)) for k in type(x).model_fields}
    if x is None or isinstance(x, (bool, int, float, complex, str)):
        return x
    if type(x).__name__ == "DataFrame":
        return None
    return values(vars(x)) if hasattr(x, "__dict__") and not isinstance(x, type) else str(x)


def same_values(a, b, what):
    r = ops.deep(values(a), values(b), ignore=("loose",))
    expect(r is None, "%s: %s", what, r)


def check_compile(c):
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends.graph_compilation import SerialCompiler
    from quantify_scheduler.schedules.schedule import CompiledSchedule

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with sut("building a schedule"):
            s, cfg = made(c)
        with sut("serializing a schedule"):
            p = Schedule.from_json(s.to_json())
        with sut("compiling a schedule"):
            a = SerialCompiler("a").compile(s, cfg)
        with sut("compiling the schedule that was read back"):
            b = SerialCompiler("b").compile(p, cfg)
        equal(ops.unlabelled(a), ops.unlabelled(b),
              "the schedule that was read back compiles differently")
        with sut("serializing a compiled schedule"):
            j = a.to_json()
            r = CompiledSchedule.from_json(j)
        expect(type(r) is CompiledSchedule, "compiled schedule came back as %s", type(r))
        same_values(a, r, "compiled schedule after JSON")
        for k in a.data:
            if k != "compiled_instructions":
                equal(a.data[k], r.data[k], f"{k} of a compiled schedule after JSON")
        for k, v in a.compiled_instructions.items():
            if isinstance(v, dict) and "acq_channels_data" in v:
                equal(v["acq_channels_data"], r.compiled_instructions[k]["acq_channels_data"],
                      "acquisition channels of a compiled schedule after JSON")
        with sut("serializing a compiled schedule again"):
            r2 = CompiledSchedule.from_json(r.to_json())
        same_values(r, r2, "compiled schedule after JSON, second time")
        if c["kind"] == "device":
            equal(a, r, "compiled schedule after JSON")
            expect(a == r, "compiled schedule came back unequal")
    return ok(len(s.schedulables) >= 2, [c["kind"]])


# ----------------------------------------------------------------------- configurations
@st.composite
def cfg_case(draw):
    """A compilation configuration (device, hardware) or a pydantic type inside one."""
    k = draw(st.sampled_from(["hardware", "device", "array", "graph"]))
    if k == "array":
        shape = draw(st.lists(st.integers(0, 3), max_size=3))
        n = int(np.prod(shape)) if shape else 1
        return {"kind": k, "shape": shape,
                "dtype": draw(st.sampled_from(["float64", "int32", "complex128", "bool", ">f4",
                                               "uint8", "<U3"])),
                "v": draw(st.lists(st.integers(-3, 120), min_size=n, max_size=n)),
                "T": draw(st.booleans()), "strided": draw(st.booleans())}
    if k == "graph":
        node = st.sampled_from(["cluster0.module1.complex_output_0", "q0:mw", "é", "a.b"])
        return {"kind": k, "edges": draw(st.lists(st.tuples(node, node, st.dictionaries(
            st.sampled_from(["w", "x"]), st.integers(0, 3), max_size=2)), max_size=4))}
    if k == "device":
        els = draw(st.sampled_from(p04.GROUPS))
        return {"kind": k, "params": {e: draw(p04.element_params(e)) for e in els}}
    ports = st.sampled_from(["q0:mw-q0.01", "q0:res-q0.ro", "q4:mw-q4.01"])
    num = st.one_of(st.floats(-1, 1), st.sampled_from([0, 1, 1e-9]))
    return {"kind": k, "lanes": draw(st.permutations(["mw0", "ro0", "ro1", "rfro"]).map(
        lambda x: x[:3])),
        "options": draw(st.fixed_dictionaries({}, optional={
            "latency_corrections": st.dictionaries(ports, num, max_size=2),
            "modulation_frequencies": st.dictionaries(ports, st.fixed_dictionaries(
                {}, optional={"interm_freq": num, "lo_freq": num}), max_size=2),
            "mixer_corrections": st.dictionaries(ports, st.fixed_dictionaries({}, optional={
                "dc_offset_i": num, "dc_offset_q": num,
                "amp_ratio": st.floats(0.5, 2.0), "phase_error": st.floats(-45, 45)}),
                max_size=2),
            "input_gain": st.dictionaries(ports, st.fixed_dictionaries(
                {"gain_I": st.integers(-6, 26), "gain_Q": st.integers(-6, 26)}), max_size=1),
            "output_att": st.dictionaries(ports, st.sampled_from([0, 10, 30]), max_size=2),
            "sequencer_options": st.dictionaries(ports, st.fixed_dictionaries(
                {}, optional={"init_offset_awg_path_I": num,
                              "ttl_acq_threshold": num,
                              "qasm_hook_func": st.none()}), max_size=1),
        }))}


def check_cfg(c):
    from quantify_scheduler.structure import DataStructure, Graph, NDArray

    k = c["kind"]
    if k in ("array", "graph"):
        class M(DataStructure):
            x: NDArray if k == "array" else Graph

        if k == "array":
            a = np.array(c["v"]).reshape(c["shape"]).astype(c["dtype"])
            if c["T"]:
                a = a.T
            if c["strided"] and a.ndim:
                a = a[::-1]
            was = a.copy()
            with sut("a model with an array"):
                m = M(x=a)
                n = M.model_validate_json(m.model_dump_json())
                n2 = M.model_validate(m.model_dump())
            for y in (n.x, n2.x):
                expect(y.shape == was.shape and y.dtype == was.dtype
                       and np.array_equal(np.asarray(y), was), "array came back as %r, was %r",
                       y, was)
            expect(np.array_equal(a, was), "serializing changed an array")
            return ok(a.size > 1, [k, c["dtype"]])
        g = Graph()
        for a, b, d in c["edges"]:
            g.add_edge(a, b, **d)
        with sut("a model with a graph"):
            m = M(x=g)
            n = M.model_validate_json(m.model_dump_json())
        expect(isinstance(n.x, Graph), "graph came back as %s", type(n.x).__name__)
        expect(dict(n.x.nodes) == dict(g.nodes) and
               {(*sorted((a, b)), str(sorted(d.items()))) for a, b, d in n.x.edges(data=True)}
               == {(*sorted((a, b)), str(sorted(d.items()))) for a, b, d in g.edges(data=True)},
               "graph changed: %r", n.x.edges(data=True))
        return ok(g.number_of_edges() > 1, [k])
    if k == "device":
        m = D.config(c["params"]).device_compilation_config
        if "array(" in repr(m):
            raise Discard("arrays as factory arguments")
    else:
        m = Q.config(Q.hardware(c["lanes"], c["options"])).hardware_compilation_config
    was = copy.deepcopy(m)
    with sut("serializing a configuration and reading it back"):
        n = type(m).model_validate_json(m.model_dump_json())
        n2 = type(m).model_validate(m.model_dump())
        n3 = type(m).model_validate_json(n.model_dump_json())
    for y in (n, n2, n3):
        expect(type(y) is type(m), "configuration came back as %s", type(y).__name__)
        same_values(_flat(m), _flat(y), "configuration after JSON")
    same_values(_flat(was), _flat(m), "serializing changed the configuration")
    return ok(True, [k])


def _flat(m):
    import networkx as nx

    d = dict(m)
    con = d.get("connectivity")
    if con is not None and hasattr(con, "graph"):
        d["connectivity"] = sorted([*sorted(e)] for e in nx.Graph(con.graph).edges)
    return d


SUBS = [
    Sub("operations", op_case, check_op, quick=4500, thorough=120000,
        rule="every operation class with random parameters (types and edge values); JSON once or "
             "twice, and the printed form evaluated; non-trivial: >=2 parameters"),
    Sub("values", value_case, check_value, quick=2500, thorough=60000,
        rule="nested Python and numpy values as gate overrides, coordinates, data; 1-3 round "
             "trips"),
    Sub("resources", res_case, check_res, quick=400, thorough=6000,
        rule="all resource classes, random names, frequencies, phases; JSON and printed form"),
    Sub("schedules", schedule_case, check_schedule, quick=500, thorough=15000,
        rule="random operations in nested schedules, loops, conditionals; 1-3 round trips; "
             "non-trivial: >=2 operations"),
    Sub("compiled", compile_case, check_compile, quick=350, thorough=9000,
        rule="acquisition and pulse programs on Qblox, circuits at the device level: the schedule "
             "that was read back compiles identically, the compiled schedule is read back; "
             "non-trivial: >=2 operations"),
    Sub("configurations", cfg_case, check_cfg, quick=700, thorough=20000,
        rule="hardware and device compilation configurations, arrays and graphs in them, through "
             "JSON and dictionaries"),
]


def _compiled_types():
    """A compiled acquisition comes back with its settings objects as plain dictionaries."""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex
    from quantify_scheduler.schedules.schedule import CompiledSchedule

    s = Schedule("s")
    l = Q.LANES["ro0"]
    for x in Q.clocks_of(["ro0"]):
        from quantify_scheduler.resources import ClockResource

        s.add_resource(ClockResource(x[0], x[1]))
    s.add(SSBIntegrationComplex(l.port, l.clock, 100e-9))
    a = Q.compile_schedule(s, acq.hw())
    b = CompiledSchedule.from_json(a.to_json())
    r = ops.deep(a, b, ignore=("loose",))
    if r:
        raise Violation(r)


KNOWN = [Known("P02-compiled-settings-types",
               "the settings objects inside a schedule compiled for Qblox come back from JSON as "
               "plain dictionaries (integer keys as strings), so it is unequal to the original "
               "and cannot be given to the instrument coordinator", _compiled_types)]

"""P01: absolute timing satisfies every timing constraint."""
from __future__ import annotations

from hypothesis import strategies as st

from vf import build, gen
from vf.core import Discard, Sub, Violation, expect, ok, sut

TOL = 2e-12

PORTS = ["q0:mw", "q0:fl", "q1:mw"]
CLK = "cl0.baseband"


def leaf_duration(op):
    c, k = op["c"], op["k"]
    t0 = k.get("t0", 0) or 0
    if c == "Measure":
        return max(meas(q)[2] for q in k["*"])
    if c in ("X", "Rxy"):
        return QUBITS[k["qubit"]]["x"]
    if c in ("ShiftClockPhase", "VoltageOffset"):
        return t0
    return t0 + k["duration"]


QUBITS = {
    "q0": dict(x=20e-9, pulse=100e-9, delay=120e-9, acq=300e-9),
    "q1": dict(x=32e-9, pulse=500e-9, delay=60e-9, acq=200e-9),
    "q2": dict(x=20e-9, pulse=48e-9, delay=0.0, acq=1000e-9),
}


def meas(q):
    d = QUBITS[q]
    return d["pulse"], d["delay"], max(d["pulse"], d["delay"] + d["acq"])


def delay_of(op):
    if op["t"] == "op" and op["c"] == "Measure" and not op["k"].get("apply_acquisition_delay", True):
        return min(-meas(q)[1] for q in op["k"]["*"])
    return 0.0


def config(strategy):
    from quantify_scheduler.backends.graph_compilation import (
        DeviceCompilationConfig,
        SerialCompilationConfig,
    )

    els, clocks = {}, {}
    for q, d in QUBITS.items():
        clocks[f"{q}.01"] = 5e9
        clocks[f"{q}.ro"] = 7e9
        els[q] = {
            "Rxy": {
                "factory_func": "quantify_scheduler.operations.pulse_factories.rxy_drag_pulse",
                "factory_kwargs": {
                    "amp180": 0.2, "motzoi": 0.1, "port": f"{q}:mw", "clock": f"{q}.01",
                    "duration": d["x"], "reference_magnitude": None,
                },
                "gate_info_factory_kwargs": ["theta", "phi"],
            },
            "measure": {
                "factory_func":
                    "quantify_scheduler.operations.measurement_factories"
                    ".dispersive_measurement_transmon",
                "factory_kwargs": {
                    "port": f"{q}:res", "clock": f"{q}.ro", "pulse_type": "SquarePulse",
                    "pulse_amp": 0.25, "pulse_duration": d["pulse"], "acq_delay": d["delay"],
                    "acq_duration": d["acq"], "acq_channel": q,
                    "acq_protocol_default": "SSBIntegrationComplex",
                },
                "gate_info_factory_kwargs": [
                    "acq_channel_override", "coords", "acq_index", "bin_mode", "acq_protocol",
                    "feedback_trigger_label"],
            },
        }
    return SerialCompilationConfig(
        name="p01",
        device_compilation_config=DeviceCompilationConfig.model_validate(
            dict(elements=els, clocks=clocks, edges={}, scheduling_strategy=strategy)),
    )


dur = st.one_of(gen.ns(0, 300), gen.ns(0, 300), st.sampled_from([0.0, 1e-6, 20.5e-9, 1e-3]))
rel = st.one_of(st.just(0.0), st.just(0.0), gen.ns(-60, 200), st.sampled_from([0.5e-9, 1.25e-7]))

def leaf_of(delays):
    return st.one_of(
    st.builds(lambda d: gen.op("IdlePulse", duration=d), dur),
    st.builds(lambda d, p, t: gen.op("SquarePulse", amp=0.1, duration=d, port=p, clock=CLK, t0=t),
              dur, st.sampled_from(PORTS), st.sampled_from([0, 0, 0, 8e-9])),
    st.builds(lambda d: gen.op("RampPulse", amp=0.1, duration=d, port="q1:fl", clock=CLK),
              gen.ns(4, 200)),
    st.builds(lambda: gen.op("VoltageOffset", offset_path_I=0.1, offset_path_Q=0.0, port="q0:fl",
                             clock=CLK)),
    st.builds(lambda: gen.op("ShiftClockPhase", phase_shift=30.0, clock=CLK)),
    st.builds(lambda d, t: gen.op("SSBIntegrationComplex", port="q0:res", clock=CLK, duration=d,
                                  acq_channel=0, acq_index=0, t0=t),
              gen.ns(4, 500), st.sampled_from([0, 0, 12e-9])),
    st.builds(lambda q: gen.op("X", qubit=q), st.sampled_from(sorted(QUBITS))),
    st.builds(lambda q, a: gen.op("Measure", **{"*": q, "apply_acquisition_delay": a}),
              st.lists(st.sampled_from(sorted(QUBITS)), min_size=1, max_size=2, unique=True),
              delays),
)


leaf = leaf_of(st.booleans())
# what "next operation" means for apply_acquisition_delay=False is only defined for ASAP
leaf_alap = leaf_of(st.just(True))


@st.composite
def schedule(draw, depth, strategy, body=False):
    n = draw(st.integers(1, 5 if depth else 4))
    items = []
    for i in range(n):
        op = draw(operation(depth - 1, strategy)) if depth > 0 and draw(st.booleans()) \
            else draw(leaf if strategy == "asap" else leaf_alap)
        if items and draw(st.integers(0, 5)) == 0:
            # use an earlier (sub-)schedule again, on its own or inside another loop
            op = items[draw(st.integers(0, i - 1))]["op"]
            if op["t"] in ("loop", "cond") and draw(st.booleans()):
                op = op["body"]
            if depth > 0 and draw(st.booleans()):
                op = {"t": "loop", "n": draw(st.integers(1, 3)), "body": op}
        it = {"op": op, "rel": draw(rel)}
        if strategy == "asap":
            if i > 0 and draw(st.booleans()):
                it["ref"] = draw(st.integers(0, i - 1))
            it["pt"] = draw(gen.pts)
            it["ptn"] = draw(gen.pts)
            if i > 0 and draw(st.integers(0, 3)) == 0:
                it["extra"] = [
                    {"ref": draw(st.integers(0, i - 1)), "rel": draw(rel), "pt": draw(gen.pts),
                     "ptn": draw(gen.pts)}
                    for _ in range(draw(st.integers(1, 2)))]
        else:
            it["pt"] = draw(gen.pts)
            it["ptn"] = draw(gen.pts)
        items.append(it)
    return {"t": "sched", "name": draw(st.sampled_from(["a", "b"])),
            "reps": draw(st.sampled_from([1, 1, 1, 3])), "ops": items}


def operation(depth, strategy):
    lf = leaf if strategy == "asap" else leaf_alap
    body = st.one_of(lf, schedule(depth, strategy)) if depth >= 0 else lf
    return st.one_of(
        lf,
        schedule(max(depth, 0), strategy),
        st.builds(lambda b, n: {"t": "loop", "n": n, "body": b}, body, st.integers(1, 4)),
        st.builds(lambda b, q, f: {"t": "cond", "q": q, "body": b, "buf": f}, body,
                  st.sampled_from(["q0", "q1"]), st.sampled_from([0.0, 4e-9])),
    )


def case(strategy):
    return st.builds(
        lambda d, share: {"strategy": strategy, "d": d, "share": share},
        schedule(2, strategy), st.booleans())


# ------------------------------------------------------------------ oracle
def ref_solve(d, strategy):
    return build.solve(d, lambda o: ref_dur(o, strategy), strategy, delay_of)


def ref_dur(o, strategy):
    t = o["t"]
    if t == "op":
        return leaf_duration(o)
    if t == "loop":
        return o["n"] * ref_dur(o["body"], strategy)
    if t == "cond":
        return ref_dur(o["body"], strategy) + o["buf"]
    return ref_solve(o, strategy)[1]


def count(o):
    t = o["t"]
    if t == "op":
        return (1, 0)
    if t in ("loop", "cond"):
        a, b = count(o["body"])
        return a, b + 1
    a = b = 0
    for it in o["ops"]:
        x, y = count(it["op"])
        a += x
        b += y
    return a, b + 1


def close(a, b):
    return abs(a - b) <= TOL + 1e-9 * max(abs(a), abs(b)) * 1e-3


def expected_rows(o, strategy, t0, out):
    """(port, t, duration, is_acq) of every pulse/acquisition, recursively."""
    t = o["t"]
    if t == "sched":
        ts, _ = ref_solve(o, strategy)
        for s, it in zip(ts, o["ops"]):
            expected_rows(it["op"], strategy, t0 + s, out)
    elif t == "loop":
        bd = ref_dur(o["body"], strategy)
        for i in range(o["n"]):
            expected_rows(o["body"], strategy, t0 + i * bd, out)
    elif t == "cond":
        expected_rows(o["body"], strategy, t0, out)
    else:
        c, k = o["c"], o["k"]
        if c == "Measure":
            for q in k["*"]:
                p, dl, _ = meas(q)
                out.append((None, t0, 0.0, False))  # clock phase reset
                out.append((f"{q}:res", t0, p, False))
                out.append((f"{q}:res", t0 + dl, QUBITS[q]["acq"], True))
        elif c in ("X",):
            out.append((f"{k['qubit']}:mw", t0, QUBITS[k["qubit"]]["x"], False))
        elif c == "ShiftClockPhase":
            out.append((None, t0, 0.0, False))
        elif c == "VoltageOffset":
            out.append((k["port"], t0, 0.0, False))
        elif c == "IdlePulse":
            out.append((None, t0, k["duration"], False))
        else:
            out.append((k["port"], t0 + k.get("t0", 0), k["duration"],
                        c == "SSBIntegrationComplex"))


def compare(d, s, strategy, path="root"):
    """Compare solved real schedule `s` with description `d`, recursively."""
    ts, total = ref_solve(d, strategy)
    names = list(s.schedulables)
    expect(len(names) == len(ts), "%s: %d schedulables for %d items", path, len(names), len(ts))
    for i, t in enumerate(ts):
        sch = s.schedulables[build.label(i)]
        expect("abs_time" in sch, "%s[%d]: no absolute time", path, i)
        got = sch["abs_time"]
        expect(close(got, t), "%s[%d]: starts at %r, constraints say %r", path, i, got, t)
        real = s.operations[sch["operation_id"]]
        walk(d["ops"][i]["op"], real, strategy, f"{path}[{i}]")
    expect(min(sc["abs_time"] for sc in s.schedulables.values()) >= -TOL, "%s: negative start", path)
    expect(close(s.get_schedule_duration(), total), "%s: duration %r, expected %r", path,
           s.get_schedule_duration(), total)
    expect(s.duration is not None and close(s.duration, total), "%s: cached duration %r, expected %r",
           path, s.duration, total)


def walk(o, real, strategy, path):
    d = ref_dur(o, strategy)
    expect(close(real.duration, d), "%s: operation duration %r, expected %r", path, real.duration, d)
    if o["t"] == "sched":
        compare(o, real, strategy, path)
    elif o["t"] in ("loop", "cond"):
        walk(o["body"], real.body, strategy, path + ".body")


def shared_make(o, memo, schedule=False):
    """Like build.make, but equal sub-descriptions become the same Python object."""
    import json

    key = json.dumps(o, sort_keys=True)
    if key in memo:
        return memo[key]
    if o["t"] == "op":
        r = build.make(o)
    elif o["t"] in ("loop", "cond"):
        from quantify_scheduler.operations import ConditionalOperation, LoopOperation

        b = shared_make(o["body"], memo)
        r = LoopOperation(b, o["n"]) if o["t"] == "loop" else ConditionalOperation(
            b, o["q"], hardware_buffer_time=o["buf"])
    else:
        from quantify_scheduler import Schedule

        r = Schedule(o["name"], repetitions=o["reps"])
        for i, it in enumerate(o["ops"]):
            sch = r.add(shared_make(it["op"], memo), rel_time=it["rel"],
                        ref_op=None if it.get("ref") is None else build.label(it["ref"]),
                        ref_pt=it.get("pt"), ref_pt_new=it.get("ptn"), label=build.label(i))
            for e in it.get("extra", []):
                sch.add_timing_constraint(rel_time=e["rel"], ref_schedulable=build.label(e["ref"]),
                                          ref_pt=e["pt"], ref_pt_new=e["ptn"])
    memo[key] = r
    return r


def check(c, table=True):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    d, strategy = c["d"], c["strategy"]
    with sut("building the schedule"):
        s = shared_make(d, {}) if c.get("share") else build.make(d)
    with sut("compiling"):
        comp = SerialCompiler("c").compile(s, config(strategy))
    compare(d, comp, strategy)
    nl, nc = count(d)
    tags = [f"leaves>={min(nl, 8) // 4 * 4}"]
    if nl <= 60:
        rows = []
        expected_rows(d, strategy, 0.0, rows)
        with sut("timing table"):
            tt = comp.timing_table.data
        got = [(p if isinstance(p, str) else None, a, u, bool(q)) for p, a, u, q in
               zip(tt["port"], tt["abs_time"], tt["duration"], tt["is_acquisition"])]
        expect(all(got[i][1] <= got[i + 1][1] + TOL for i in range(len(got) - 1)),
               "timing table is not sorted by time")
        kf = lambda r: (str(r[0]), r[3], round(r[1] * 1e12), round(r[2] * 1e12))  # noqa: E731
        a, b = sorted(got, key=kf), sorted(rows, key=kf)
        expect(len(a) == len(b), "timing table has %d rows, expected %d", len(a), len(b))
        for x, y in zip(a, b):
            expect(x[0] == y[0] and x[3] == y[3] and abs(x[1] - y[1]) < 1.1e-12 + 1e-9 * abs(y[1])
                   and abs(x[2] - y[2]) < 1.1e-12, "timing table row %r, expected %r", x, y)
        tags.append("table")
    if c.get("share"):
        tags.append("shared objects")
    return ok(nl >= 2 and (nc >= 2 or any(it["rel"] or it.get("ref") is not None
                                          or it.get("extra") for it in d["ops"])), tags)


# ------------------------------------------------------------------ invalid references
@st.composite
def bad_case(draw):
    n = draw(st.integers(2, 6))
    kind = draw(st.sampled_from(["cycle", "unknown", "duplicate", "empty"]))
    ref = [None] + [draw(st.integers(0, i - 1)) for i in range(1, n)]
    a = draw(st.integers(1, n - 1))
    return {"n": n, "kind": kind, "ref": ref, "a": a, "depth": draw(st.integers(0, 2))}


def check_bad(c):
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends.graph_compilation import SerialCompiler
    from quantify_scheduler.operations import IdlePulse, LoopOperation

    n, kind = c["n"], c["kind"]
    s = Schedule("bad")
    if kind != "empty":
        for i in range(n):
            sch = s.add(IdlePulse(4e-9 * (i + 1)), label=build.label(i),
                        ref_op=None if c["ref"][i] is None else build.label(c["ref"][i]))
    if kind == "cycle":
        # follow the references from a: make one of its ancestors (or itself) refer to it
        anc = c["a"]
        chain = [anc]
        while c["ref"][anc] is not None:
            anc = c["ref"][anc]
            chain.append(anc)
        tgt = chain[c["n"] % len(chain)]
        s.schedulables[build.label(tgt)].add_timing_constraint(
            ref_schedulable=build.label(c["a"]))
    elif kind == "unknown":
        s.schedulables[build.label(c["a"])].add_timing_constraint(ref_schedulable="nowhere")
    elif kind == "duplicate":
        before = list(s.schedulables)
        try:
            s.add(IdlePulse(1e-6), label=build.label(c["a"]))
        except ValueError:
            expect(list(s.schedulables) == before, "rejected add changed the schedule")
            return ok(True, [kind])
        raise Violation("a duplicate label was accepted")
    for k in range(c["depth"]):
        outer = Schedule(f"o{k}")
        outer.add(IdlePulse(20e-9))
        outer.add(LoopOperation(s, 2) if k % 2 else s)
        s = outer
    try:
        SerialCompiler("c").compile(s, config("asap"))
    except (ValueError, TypeError):
        return ok(True, [kind])
    raise Violation(f"a schedule with {kind} reference was compiled")


SUBS = [
    Sub("asap", lambda: case("asap"), check, quick=2400, thorough=60000,
        rule="random nested schedules (sub-schedules, loops, conditionals, repetitions, all "
             "reference points, extra constraints, gates, measurements); non-trivial: >=2 leaves "
             "and nesting or an explicit constraint"),
    Sub("alap", lambda: case("alap"), check, quick=1000, thorough=20000,
        rule="same, as-late-as-possible strategy"),
    Sub("rejects", bad_case, check_bad, quick=300, thorough=3000,
        rule="schedules with a cyclic / unknown / duplicate / missing reference"),
]

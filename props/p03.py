"""P03: compilation is pure and deterministic."""
from __future__ import annotations

import copy
import json
import os
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from vf import acq, build, full, ops, qgen
from vf import device as D
from vf import qblox as Q
from vf.core import Sub, expect, ok, sut
import props.p02 as p02
import props.p04 as p04
import props.p06 as p06

ASSUMPTIONS = (
    "Identifiers that carry no meaning (labels of schedulables made by the compiler, names of "
    "waveforms) may differ between compilations; waveforms are compared by index and data. When a "
    "schedule cannot be compiled, every attempt has to fail with the same type of error.")


# ----------------------------------------------------------------------- cases
@st.composite
def options(draw, ports):
    """Hardware options that switch on the rewriting passes."""
    o = {}
    if draw(st.integers(0, 2)) == 0:
        o["latency_corrections"] = {draw(st.sampled_from(ports)): draw(
            st.sampled_from([20e-9, -8e-9, 4e-9]))}
    if draw(st.integers(0, 3)) == 0:
        o["crosstalk"] = {"q0:fl": {"q1:fl": draw(st.sampled_from([0.1, -0.2]))},
                          "q1:fl": {"q0:fl": 0.05}}
    if draw(st.integers(0, 3)) == 0:
        o["distortion_corrections"] = {"q0:fl-cl0.baseband": {
            "filter_func": "scipy.signal.lfilter", "input_var_name": "x",
            "kwargs": {"b": [0.0, 0.5, 1.0], "a": [1]}, "clipping_values": [-2, 2]}}
    return o


@st.composite
def one(draw, kinds=("acq", "pulse", "device", "full", "full")):
    k = draw(st.sampled_from(list(kinds)))
    if k == "acq":
        return {"kind": k, "c": draw(acq.program())}
    if k == "pulse":
        return {"kind": k, "c": draw(qgen.program(p06.MIX))}
    if k == "device":
        return {"kind": k, "c": draw(p04.case())}
    c = draw(full.circuit())
    c["options"] = draw(options(["q0:mw-q0.01", "q1:fl-cl0.baseband", "q0:res-q0.ro"]))
    return {"kind": k, "c": c}


def made(c):
    if c["kind"] == "full":
        x = c["c"]
        return full.schedule(x), full.config(x["params"], x.get("options"))
    return p02.made(c)


# ----------------------------------------------------------------------- results
def by_index(x):
    """Waveforms, weights by index: their names carry no meaning."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k in ("waveforms", "weights") and isinstance(v, dict) and all(
                    isinstance(e, dict) and "index" in e for e in v.values()):
                out[k] = {e["index"]: by_index(e["data"]) for e in v.values()}
            else:
                out[k] = by_index(v)
        return out
    if isinstance(x, list):
        return [by_index(v) for v in x]
    return x


def outcome(compiler, s, cfg):
    """("ok", instructions, schedule) or ("error", type)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = compiler.compile(s, cfg)
    except Exception as e:  # noqa: BLE001
        return "error", type(e).__name__
    return "ok", by_index(p02.values(c.compiled_instructions)), ops.unlabelled(c), c


def same(a, b, what, schedule=True):
    expect(a[0] == b[0], "%s: %s, but %s", what, a[:2] if a[0] == "error" else "compiles",
           b[:2] if b[0] == "error" else "compiles")
    if a[0] == "error":
        expect(a == b, "%s: fails with %s, but with %s", what, a[1], b[1])
        return
    r = ops.deep(a[1], b[1])
    expect(r is None, "%s: compiled instructions differ: %s", what, r)
    if schedule:
        r = ops.deep(strip(a[2]), strip(b[2]), ignore=("loose",))
        expect(r is None, "%s: compiled schedules differ: %s", what, r)


def strip(x):
    return {k: v for k, v in x.items() if k != "compiled_instructions"}


# ----------------------------------------------------------------------- pure
def check_pure(c):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    with sut("building a schedule"):
        s, cfg = made(c)
    s0, cfg0 = copy.deepcopy(s), copy.deepcopy(cfg)
    h0 = s.hash if hasattr(s, "hash") else None
    comp = SerialCompiler("p")
    a = outcome(comp, s, cfg)

    def unchanged(what):
        r = ops.deep(s0, s)
        expect(r is None, "%s changed the schedule: %s", what, r)
        r = ops.deep(p02._flat(cfg0.hardware_compilation_config)
                     if cfg0.hardware_compilation_config else 0,
                     p02._flat(cfg.hardware_compilation_config)
                     if cfg.hardware_compilation_config else 0)
        expect(r is None, "%s changed the hardware configuration: %s", what, r)
        r = ops.deep(cfg0.device_compilation_config, cfg.device_compilation_config)
        expect(r is None, "%s changed the device configuration: %s", what, r)

    unchanged("compiling")
    expect(h0 is None or s.hash == h0, "compiling changed the hash of the schedule")
    b = outcome(comp, s, cfg)
    same(a, b, "compiling a schedule again")
    same(a, outcome(SerialCompiler("q"), copy.deepcopy(s), copy.deepcopy(cfg)),
         "compiling deep copies with a new compiler")
    same(a, outcome(SerialCompiler("r"), *made(c)), "compiling the same schedule built again")
    unchanged("compiling again")
    if a[0] == "ok":
        cfg_k = cfg.model_copy(update={"keep_original_schedule": False})
        same(a, outcome(SerialCompiler("k"), copy.deepcopy(s), cfg_k),
             "compiling without keeping the original")
    return ok(a[0] == "ok" and len(s.schedulables) >= 2, [c["kind"], a[0]])


# ----------------------------------------------------------------------- history
@st.composite
def history(draw):
    kind = draw(st.sampled_from(["acq", "pulse", "full"]))
    cases = draw(st.lists(one((kind,)), min_size=2, max_size=3))
    if kind == "full":
        for x in cases:  # one device
            x["c"]["params"] = cases[0]["c"]["params"]
            x["c"]["options"] = cases[0]["c"]["options"]
    order = draw(st.lists(st.integers(0, len(cases) - 1), min_size=2, max_size=5))
    return {"cases": cases, "order": order, "share": draw(st.booleans())}


def check_history(c):
    """Compilations interleaved with others give what they give on their own."""
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    with sut("building schedules"):
        made_ = [made(x) for x in c["cases"]]
    alone = [outcome(SerialCompiler("alone"), *made(x)) for x in c["cases"]]
    comp = SerialCompiler("shared")
    cfg = made_[0][1]
    for n, i in enumerate(c["order"]):
        s, own = made_[i]
        x = comp if c["share"] else SerialCompiler(f"c{n}")
        same(alone[i], outcome(x, s, cfg if c["cases"][i]["kind"] == "full" else own),
             f"schedule {i} in history {c['order'][:n + 1]}")
    return ok(len(set(c["order"])) > 1 and all(a[0] == "ok" for a in alone),
              [c["cases"][0]["kind"]])


# ----------------------------------------------------------------------- processes
@st.composite
def batch(draw):
    return {"cases": draw(st.lists(one(), min_size=10, max_size=16)),
            "seeds": draw(st.lists(st.integers(1, 4000), min_size=2, max_size=2, unique=True))}


def text(x):
    if isinstance(x, dict):
        return {str(k): text(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [text(v) for v in x]
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (np.ndarray,)):
        return text(x.tolist())
    return x if x is None or isinstance(x, (bool, int, float, str)) else repr(x)


def child():
    """Compile the cases on standard input; one line of JSON per case."""
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    import logging

    logging.disable(logging.CRITICAL)
    for x in json.load(sys.stdin):
        o = outcome(SerialCompiler("p"), *made(x))
        if o[0] == "ok" and o[1] is not None:
            flat = [[t, k, D.plain(i)] for t, k, i in D.flatten(o[3])] \
                if x["kind"] == "device" else None
            o = ["ok", text(o[1]), text(flat)]
        print("RESULT" + json.dumps(o, sort_keys=True, default=repr), flush=True)


def run_child(cases, seed):
    code = ("import sys; sys.path.insert(0, %r)\n"
            "import vf.hypo; vf.hypo.install()\n"
            "import warnings; warnings.simplefilter('ignore')\n"
            "import props.p03 as p\np.child()\n" % os.path.dirname(os.path.dirname(
                os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run([sys.executable, "-c", code], input=json.dumps(cases), text=True,
                       capture_output=True, env=env, timeout=600)
    out = [json.loads(x[6:]) for x in r.stdout.splitlines() if x.startswith("RESULT")]
    if len(out) != len(cases):
        raise RuntimeError(f"child process: {r.stderr[-2000:]}")
    return out


def check_batch(c):
    a, b = (run_child(c["cases"], s) for s in c["seeds"])
    for i, (x, y) in enumerate(zip(a, b)):
        r = ops.deep(x, y)
        expect(r is None, "case %d compiles differently in processes with hash seeds %s: %s", i,
               c["seeds"], r)
    return ok(sum(x[0] == "ok" for x in a) >= 5, [])


SUBS = [
    Sub("pure", one, check_pure, quick=330, thorough=9000,
        rule="acquisition and pulse programs, device-level circuits, gate circuits on a cluster "
             "with correction options: nothing is changed, and five compilations agree; "
             "non-trivial: compiles, >=2 operations"),
    Sub("history", history, check_history, quick=60, thorough=2000,
        rule="2-3 schedules compiled in random order through one or several compilers and one "
             "configuration; non-trivial: all compile, more than one in the order"),
    Sub("processes", batch, check_batch, quick=6, thorough=150,
        rule="10-16 schedules compiled in two processes with different hash seeds; non-trivial: "
             ">=5 compile"),
]

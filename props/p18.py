"""P18: compilation respects the hardware's limits or refuses, never truncates or wraps."""
from __future__ import annotations

import os
import re
import shutil
import subprocess
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from props import p06, p21
from vf import build, wave
from vf import qblox as Q
from vf.core import Discard, Known, Sub, Violation, expect, impossible_gap, ok
from vf.gen import op

ASSUMPTIONS = (
    "A schedule counts as refused when compilation raises, or warns that the instruction memory is "
    "exceeded, or when the instrument itself refuses what was compiled: the Q1 assembler shipped "
    "with qblox_instruments (run offline on every program) or the range checks of the driver's "
    "parameters (dummy cluster).  Limits that neither of these knows (waveform and weight memory, "
    "bins, acquisitions, set_freq range, instruction memory of readout modules, spacing of "
    "acquisitions) are checked by the harness from the numbers in backends/qblox/constants.py and "
    "the instrument's documentation.  The number of weights of one sequencer and the sum of bins "
    "over its acquisitions are not judged (no limit is stated in this repository that is enforced "
    "anywhere; firmware versions differ).  Offsets and pulses that add up to more than full scale "
    "are not judged.")

ASM = None


def setup():
    global ASM
    p21.setup()
    import qblox_instruments

    ASM = os.path.join(os.path.dirname(qblox_instruments.__file__), "assemblers", "q1asm_linux")
    expect(os.access(ASM, os.X_OK), "the Q1 assembler is missing: %s", ASM)


# ------------------------------------------------------------------ what the instrument says
def assemble(text):
    """None, or the assembler's complaint."""
    tmp = tempfile.mkdtemp(prefix="p18")
    try:
        src = os.path.join(tmp, "p.q1asm")
        with open(src, "w") as f:
            f.write(text)
        r = subprocess.run([ASM, "-o", os.path.join(tmp, "o"), src], capture_output=True,
                           text=True, timeout=120, check=False)
        return None if r.returncode == 0 else (r.stdout + r.stderr).strip()[-200:] or "refused"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def count(text):
    """Number of instructions of a program."""
    n = 0
    for line in text.split("\n"):
        line = re.sub(r"^\s*\w+:", "", line.split("#")[0]).strip()
        n += bool(line)
    return n


def objections(comp, seqs, driver=True):
    """What the assembler and the driver refuse."""
    out = []
    for q in seqs:
        e = assemble(q.program)
        if e:
            out.append(f"{q.where}: assembler: {e}")
    if driver:
        for key, v in p21.expected(comp).items():
            if key[3] == "sequence":
                continue
            p = p21.where(key).parameters.get(key[3])
            if p is None:
                continue
            try:
                p.validate(v)
            except Exception as e:  # noqa: BLE001
                out.append(f"{key}: driver: {str(e)[:120]}")
    return out


TYPE = {str(s): t for t, ss in p21.SLOTS.items() for s in ss}
INSTR = {"QCM": 16384, "QCM_RF": 16384, "QTM": 16384, "QRM": 12288, "QRM_RF": 12288,
         "QRC": 12288}


def hard(seqs, warned):
    """Limits that nothing behind the compiler would report."""
    out = []

    def need(cond, msg, *args):
        if not cond:
            out.append(msg % args)

    for q in seqs:
        t = TYPE[re.search(r"module(\d+)$", q.module).group(1)]
        n = sum(map(len, q.waves.values()))
        need(n <= 16384, "%s: %d waveform samples", q.where, n)
        need(len(q.waves) <= 1024, "%s: %d waveforms", q.where, len(q.waves))
        need(all(0 <= i < 1024 for i in q.waves), "%s: waveform indices", q.where)
        need(all(np.all(np.abs(w) <= 1) for w in q.waves.values()),
             "%s: a waveform exceeds full scale", q.where)
        n = sum(map(len, q.weights.values()))
        need(n <= 16384, "%s: %d weight samples", q.where, n)
        need(all(np.all(np.abs(w) <= 1) for w in q.weights.values()),
             "%s: a weight exceeds full scale", q.where)
        need(len(q.acqs) <= 32 and all(0 <= i < 32 for i in q.acqs), "%s: %d acquisitions",
             q.where, len(q.acqs))
        need(all(1 <= b <= 131072 for _, b in q.acqs.values()), "%s: bins %s", q.where,
             sorted({b for _, b in q.acqs.values()}))
        n = count(q.program)
        need(n <= INSTR[t] or warned, "%s: %d instructions", q.where, n)
        used = set()
        for m in re.finditer(r"^\s*(?:\w+:)?\s*(\w+)\s+([^#\n]*)", q.program, re.M):
            ins, args = m.group(1), [a.strip() for a in m.group(2).split(",")]
            if ins == "set_freq" and not args[0].startswith("R"):
                need(abs(int(args[0])) <= 2e9, "%s: set_freq %s", q.where, args[0])
            elif ins == "play":
                used |= {int(a) for a in args[:2] if not a.startswith("R")}
            elif ins in ("acquire", "acquire_weighed", "acquire_ttl") and args[0].isdigit():
                i = int(args[0])
                need(i in q.acqs, "%s: acquisition %d is not declared", q.where, i)
                if i in q.acqs and args[1].isdigit():
                    need(int(args[1]) < q.acqs[i][1], "%s: bin %s of %d", q.where, args[1],
                         q.acqs[i][1])
        need(used <= set(q.waves), "%s: waveforms %s are played but not defined", q.where,
             sorted(used - set(q.waves)))
    return out


def attempt(s, hw):
    """-> (compiled schedule or None, error or None, warned about the instruction memory)"""
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            comp = SerialCompiler("vf").compile(s, Q.config(hw) if isinstance(hw, dict) else hw)
        except Exception as e:  # noqa: BLE001
            if isinstance(e, ValueError) and impossible_gap(e):
                raise Discard("a gap of 1 to 3 ns where no wait is possible") from None
            return None, e, False
    return comp, None, any("maximum supported number of instructions" in
                           str(w.message).replace("\n", " ") for w in ws)


def judge(s, hw, demand, what, seqs_ok=None):
    """demand: "fits" (must work), "exceeds" (must be refused), "open" (either, but right)."""
    comp, err, warned = attempt(s, hw)
    if err is not None:
        expect(demand != "fits", "%s: refused although it is within the limits: %s: %s", what,
               type(err).__name__, str(err)[:300])
        return None, "refused"
    seqs = Q.sequencers(comp)
    obj = objections(comp, seqs)
    if obj or warned:
        expect(demand != "fits", "%s: within the limits, but the instrument refuses it: %s", what,
               obj[:3] or "too many instructions (warning)")
        return None, "refused by the instrument" if obj else "warned"
    bad = hard(seqs, warned)
    expect(not bad, "%s: accepted although it exceeds the hardware: %s", what, bad[:3])
    expect(demand != "exceeds", "%s: accepted although it exceeds the limits", what)
    if seqs_ok:
        seqs_ok(comp, seqs)
    return comp, "accepted"


def sched(ops, reps=1):
    return {"t": "sched", "name": "s", "reps": reps,
            "ops": [{"op": o, "rel": 0} if "op" not in o else o for o in ops]}


def lane_kw(n):
    return dict(port=Q.LANES[n].port, clock=Q.LANES[n].clock)


def make(d, lanes, clocks=None):
    return build.make_schedule(d, clocks or Q.clocks_of(lanes))


# ------------------------------------------------------------------ waveform memory
@st.composite
def memory(draw):
    lens = draw(st.sampled_from([[17], [64], [512], [1000], [2048], [4096], [96, 300], [16, 1025]]))
    lane = draw(st.sampled_from(["mw0", "rf1", "ro0", "rfro"]))
    target = 8192 + draw(st.sampled_from([-900, -64, -1, 0, 1, 2, 40, 700]))
    if draw(st.integers(0, 3)) == 0:
        target = draw(st.integers(200, 8000))
    ls, tot, i = [], 0, 0
    while tot < target and len(ls) < 500:
        n = min(lens[i % len(lens)], target - tot)
        if n < 8 and ls:
            ls[-1] += n  # keep the total exact
        else:
            ls.append(max(n, 8))
        tot = sum(ls)
        i += 1
    again = draw(st.integers(0, 3))
    return {"lane": lane, "lens": ls, "again": again if len(ls) < 60 else 0,
            "loop": draw(st.sampled_from([0, 0, 2])), "same": draw(st.integers(0, 5)) == 0}


def check_memory(c):
    k = lane_kw(c["lane"])
    ops = []
    for i, n in enumerate(c["lens"]):
        j = 0 if c["same"] else i
        ops.append(op("DRAGPulse", G_amp=round(0.3 + 0.001 * (i % 300), 4), D_amp=round(
            (0.3 + 0.001 * (i % 300)) * 0.2, 5), phase=0.0, duration=round(n * 1e-9, 12),
            sigma=round(n * 1e-9 * (0.12 + 0.0007 * j), 15), **k))
    ops = ops + ops[:c["again"]]
    d = sched(ops)
    if c["loop"]:
        d = sched([{"t": "loop", "n": c["loop"], "body": d}, op("IdlePulse", duration=8e-9)])
    ls = c["lens"]
    if c["same"]:  # equal shapes of equal lengths share their waveforms
        sizes = 2 * sum({*ls})
        num = 2 * len({*ls})
        demand = "fits" if 2 * sum(ls) <= 16384 else "open"
    else:
        sizes, num = 2 * sum(ls), 2 * len(ls)
        demand = "fits" if sizes <= 16384 and num <= 1024 else "exceeds"

    def right(comp, seqs):
        if sum(ls) < 20000:
            p06.check_output({"d": d, "lanes": [c["lane"]]}, comp)

    _, r = judge(make(d, [c["lane"]]), Q.hardware([c["lane"]]), demand,
                 f"{num} waveforms with {sizes} samples", right)
    return ok(abs(sizes - 16384) < 2000 or num > 900, [r, f"n={min(len(ls), 99) // 10 * 10}"])


# ------------------------------------------------------------------ weights
@st.composite
def weights(draw):
    n = draw(st.sampled_from([4, 20, 300, 1000, 2048, 4096, 8192, 8193, 1170, 1171]))
    room = 8192 // n
    k = max(1, min(40, room + draw(st.sampled_from([-1, 0, 0, 1, 2, 5]))))
    if draw(st.integers(0, 3)) == 0:
        k = draw(st.integers(1, 12))
    return {"lane": draw(st.sampled_from(["ro0", "rfro"])), "n": n, "k": k,
            "cls": draw(st.sampled_from(["NumericalSeparatedWeightedIntegration",
                                         "NumericalWeightedIntegration"])),
            "again": draw(st.integers(0, 2)),
            "mode": draw(st.sampled_from(["APPEND", "AVERAGE"]))}


def check_weights(c):
    kw = lane_kw(c["lane"])
    ops = []
    for i in list(range(c["k"])) + list(range(c["again"])):
        i %= c["k"]
        w = np.round(0.9 * np.cos(np.arange(c["n"]) * (0.01 + 0.003 * i) + i), 6)
        v = np.round(0.8 * np.sin(np.arange(c["n"]) * (0.02 + 0.005 * i) + 0.3 * i + 0.1), 6)
        ops.append({"op": op(c["cls"], weights_a={"__a": w.tolist()}, weights_b={"__a": v.tolist()},
                             acq_channel=0, acq_index=len(ops),
                             bin_mode={"__b": c["mode"].lower()}, **kw),
                    "rel": 400e-9 if ops else 0})
    tot = 2 * c["k"] * c["n"]
    demand = ("exceeds" if tot > 16384 else
              "fits" if 2 * c["k"] <= 32 else "open")

    def right(comp, seqs):
        q = seqs[0]
        got = [w for w in q.weights.values()]
        for i in range(c["k"]):
            w = 0.9 * np.cos(np.arange(c["n"]) * (0.01 + 0.003 * i) + i)
            expect(any(len(g) == len(w) and np.allclose(g, w, atol=2e-6) for g in got),
                   "weight %d is not in the compiled program unchanged", i)

    d = sched(ops)
    _, r = judge(make(d, [c["lane"]]), Q.hardware([c["lane"]]), demand,
                 f"{2 * c['k']} weights of {c['n']} samples", right)
    return ok(abs(tot - 16384) < 3000 or c["k"] > 10, [r, f"n={c['n']}", c["mode"]])


# ------------------------------------------------------------------ bins and acquisitions
@st.composite
def bins(draw):
    kind = draw(st.sampled_from(["channels", "bins", "bins"]))
    if kind == "channels":
        n, m, reps = draw(st.sampled_from([1, 8, 31, 32, 33, 40])), 1, draw(st.integers(1, 3))
    else:
        n, m = draw(st.integers(1, 2)), draw(st.sampled_from([1, 2, 3, 7]))
        reps = max(1, draw(st.sampled_from([10, 1000, 50000, 100_000, 131_072, 200_000]))
                   // m + draw(st.integers(-1, 1)))
    return {"lane": draw(st.sampled_from(["ro0", "rfro"])), "n": n, "m": m, "reps": reps,
            "mode": draw(st.sampled_from(["APPEND", "AVERAGE"])),
            "cls": draw(st.sampled_from(["SSBIntegrationComplex", "ThresholdedAcquisition"])),
            "named": draw(st.booleans())}


def check_bins(c):
    kw = lane_kw(c["lane"])
    ops = []
    for ch in range(c["n"]):
        for i in range(c["m"]):
            ops.append({"op": op(c["cls"], duration=100e-9,
                                 acq_channel=f"ch{ch}" if c["named"] else ch, acq_index=i,
                                 bin_mode={"__b": c["mode"].lower()}, **kw),
                        "rel": 300e-9 if ops else 0})
    per = c["m"] * (c["reps"] if c["mode"] == "APPEND" else 1)
    demand = ("exceeds" if c["n"] > 32 or per > 131072 else
              "fits" if per <= 100_000 and per * c["n"] <= 131072 else "open")

    def right(comp, seqs):
        q = seqs[0]
        expect(sorted(b for _, b in q.acqs.values()) == [per] * c["n"],
               "%d acquisition channels with %d bins each became %s", c["n"], per,
               sorted(b for _, b in q.acqs.values()))

    _, r = judge(make(sched(ops, c["reps"]), [c["lane"]]), Q.hardware([c["lane"]]), demand,
                 f"{c['n']} acquisition channels with {per} bins", right)
    return ok(c["n"] > 30 or per > 90_000, [r, c["mode"], f"channels={c['n']}"])


# ------------------------------------------------------------------ instruction memory
@st.composite
def instructions(draw):
    lane = draw(st.sampled_from(["mw0", "ro0", "rfro"]))
    top = INSTR[Q.LANES[lane].typ]
    return {"lane": lane, "n": round(top * draw(st.sampled_from([0.98, 1.01, 1.1]))),
            "kind": draw(st.sampled_from(["pulse", "shift", "loop"]))}


def check_instructions(c):
    kw = lane_kw(c["lane"])
    top = INSTR[Q.LANES[c["lane"]].typ]
    per = {"pulse": 3, "shift": 4, "loop": 5}[c["kind"]]
    ops = []
    for i in range(c["n"] // per):
        a = round(0.2 + 0.6 * ((i * 7919) % 9973) / 9973, 5)
        p = op("SquarePulse", amp=a, duration=8e-9, **kw)
        if c["kind"] == "shift":
            ops.append(op("ShiftClockPhase", phase_shift=float(1 + i % 300), clock=kw["clock"]))
        ops.append({"t": "loop", "n": 2, "body": p} if c["kind"] == "loop" else p)
    d = sched(ops)
    comp, err, warned = attempt(make(d, [c["lane"]]), Q.hardware([c["lane"]]))
    if err is not None:
        expect(False, "refused with %s: %s", type(err).__name__, str(err)[:200])
    q = Q.sequencers(comp)[0]
    n = count(q.program)
    expect(n > c["n"] * 0.5, "generator: the program is much shorter than expected")
    if warned:
        expect(n > top - 2 - q.program.count(":"), "%d instructions of %d possible, but a warning "
               "says they are too many", n, top)
    else:
        bad = hard([q], False)
        expect(not bad, "accepted without a warning: %s", bad[:2])
        e = assemble(q.program)
        expect(e is None, "accepted without a warning, but the assembler says: %s", e)
    return ok(abs(n - top) < 0.2 * top, ["warned" if warned else "accepted", c["kind"]])


# ------------------------------------------------------------------ nesting
@st.composite
def nesting(draw):
    return {"depth": draw(st.one_of(st.integers(1, 70), st.integers(50, 70))),
            "two": draw(st.lists(st.integers(0, 69), max_size=4)),
            "leaf": draw(st.sampled_from(["pulse", "acq", "append", "long"])),
            "mid": draw(st.booleans()), "sub": draw(st.booleans())}


def check_nesting(c):
    n = "ro0"
    kw = lane_kw(n)
    leaf = {"pulse": op("SquarePulse", amp=0.3, duration=40e-9, **kw),
            "long": op("SquarePulse", amp=0.3, duration=400e-9, **kw),
            "acq": op("SSBIntegrationComplex", duration=400e-9, **kw),
            "append": op("SSBIntegrationComplex", duration=400e-9, bin_mode={"__b": "append"},
                         **kw)}[c["leaf"]]
    b = sched([leaf, op("IdlePulse", duration=20e-9)])
    reps = 1
    for i in range(c["depth"]):
        k = 2 if i in c["two"] else 1
        reps *= k
        b = {"t": "loop", "n": k, "body": b}
        if c["mid"] and i in c["two"]:
            b = sched([b, op("SquarePulse", amp=0.1, duration=12e-9, **kw)])
        elif c["sub"] and i % 5 == 2:
            b = sched([b, op("IdlePulse", duration=8e-9)])
    d = sched([b, op("IdlePulse", duration=8e-9)])
    demand = "fits" if c["depth"] <= 45 else "exceeds" if c["depth"] >= 64 else "open"

    def right(comp, seqs):
        p06.check_output({"d": d, "lanes": [n]}, comp)
        if c["leaf"] == "acq":
            expect(len(seqs[0].trace.acq) == reps, "%d acquisitions instead of %d",
                   len(seqs[0].trace.acq), reps)

    _, r = judge(make(d, [n]), Q.hardware([n]), demand, f"loops {c['depth']} deep", right)
    return ok(c["depth"] > 40, [r, c["leaf"], f"depth={c['depth'] // 10 * 10}"])


# ------------------------------------------------------------------ amplitudes and offsets
AMPS = [0.5, 0.95, 0.999, 1.0, 1.0, 1.001, 1.01, 1.2, 1.5, 1.9, 2.0, 3.0, 2.5, 100.0]


@st.composite
def amplitude(draw):
    a = draw(st.sampled_from(AMPS)) * draw(st.sampled_from([1, -1]))
    kind = draw(st.sampled_from(["square", "long", "offset", "offset Q", "ramp", "long ramp",
                                 "stairs", "soft", "gauss", "drag", "chirp", "numerical",
                                 "complex", "complex long", "snz", "hermite", "ramp offset"]))
    return {"kind": kind, "a": a, "n": draw(st.sampled_from([20, 60, 96])),
            "lane": draw(st.sampled_from(["mw0", "rf1", "ro0", "fl1"])),
            "b": draw(st.sampled_from([0.1, -0.4, 0.9, 0.0])),
            "more": draw(st.booleans())}


def amp_op(c):
    kw, a, n, kind, b = lane_kw(c["lane"]), c["a"], c["n"], c["kind"], c["b"]
    t = round(n * 1e-9, 12)
    if kind == "square":
        return op("SquarePulse", amp=a, duration=t, **kw)
    if kind == "long":
        return op("SquarePulse", amp=a, duration=round(t * 5, 12), **kw)
    if kind == "complex":
        return op("SquarePulse", amp={"__c": [b, a]}, duration=t, **kw)
    if kind == "complex long":
        return op("SquarePulse", amp={"__c": [b, a]}, duration=round(t * 5, 12), **kw)
    if kind == "ramp":
        return op("RampPulse", amp=a, offset=0.0, duration=t, **kw)
    if kind == "ramp offset":
        return op("RampPulse", amp=b, offset=a, duration=t, **kw)
    if kind == "long ramp":
        return op("RampPulse", amp=a, offset=b, duration=round(t * 50, 12), **kw)
    if kind == "stairs":
        return op("StaircasePulse", start_amp=b, final_amp=a, num_steps=3,
                  duration=round(n // 3 * 3 * 1e-9, 12), **kw)
    if kind == "soft":
        return op("SoftSquarePulse", amp=a, duration=t, **kw)
    if kind == "gauss":
        return op("GaussPulse", G_amp=a, phase=0.0, duration=t, **kw)
    if kind == "drag":
        return op("DRAGPulse", G_amp=a, D_amp=b, phase=0.0, duration=t, **kw)
    if kind == "chirp":
        return op("ChirpPulse", amp=a, start_freq=1e7, end_freq=5e7, duration=t, **kw)
    if kind == "numerical":
        return op("NumericalPulse", samples={"__a": [b] * n + [a, a]},
                  t_samples={"__a": [round(i * 1e-9, 12) for i in range(n + 2)]}, **kw)
    if kind == "snz":
        return op("SuddenNetZeroPulse", amp_A=a, amp_B=b, net_zero_A_scale=0.9, t_pulse=20e-9,
                  t_phi=4e-9, t_integral_correction=8e-9, **kw)
    if kind == "hermite":
        return op("SkewedHermitePulse", amplitude=a, skewness=0.1, phase=0.0, duration=t, **kw)
    raise KeyError(kind)


def check_amplitude(c):
    kw = lane_kw(c["lane"])
    real = Q.LANES[c["lane"]].real
    if c["kind"] in ("offset", "offset Q"):
        pi, pq = (c["a"], 0.0) if c["kind"] == "offset" else (c["b"], c["a"])
        if real:
            pi, pq = c["a"], 0.0
        peak = max(abs(pi), abs(pq))
        o = [op("VoltageOffset", offset_path_I=pi, offset_path_Q=pq, **kw),
             op("IdlePulse", duration=60e-9),
             op("VoltageOffset", offset_path_I=0.0, offset_path_Q=0.0, **kw)]
    else:
        x = amp_op(c)
        w = wave.of(x)
        if real and np.any(np.abs(w.imag) > 1e-12):
            raise Discard("complex pulse on a real output")
        peak = float(max(np.abs(w.real).max(), np.abs(w.imag).max()))
        # the hardware scales a waveform between -1 and 1: the larger one of both paths
        o = [x]
    ops = ([op("SquarePulse", amp=0.2, duration=20e-9, **kw)] if c["more"] else []) + o + [
        op("IdlePulse", duration=20e-9)]
    d = sched(ops)
    demand = "fits" if peak < 0.9995 else "exceeds" if peak > 1.0005 else "open"

    def right(comp, seqs):
        p06.check_output({"d": d, "lanes": [c["lane"]]}, comp)

    _, r = judge(make(d, [c["lane"]]), Q.hardware([c["lane"]]), demand,
                 f"{c['kind']} reaching {peak:.4f}", right)
    return ok(peak > 0.94, [r, c["kind"]])


# ------------------------------------------------------------------ frequencies
@st.composite
def frequency(draw):
    near = st.sampled_from([0.0, 1e6, 499e6, 499.9999e6, 500e6, 500.0001e6, 501e6, 600e6, 1.5e9,
                            1.0737418e9, 1.1e9, 2.2e9, 4e9])
    sign = st.sampled_from([1, -1])
    return {"lane": draw(st.sampled_from(["mw0", "rf1", "ro0", "rfro"])),
            "static": draw(st.one_of(st.just(50e6), st.tuples(near, sign).map(
                lambda x: x[0] * x[1]))),
            "set": draw(st.lists(st.tuples(near, sign).map(lambda x: x[0] * x[1]), max_size=3)),
            "shift": draw(st.one_of(st.none(), st.sampled_from([0.0, 360.0, 1e4, -1e6, 719.99]))),
            "loop": draw(st.booleans())}


def check_frequency(c):
    l = Q.LANES[c["lane"]]
    base = l.lo or 0
    kw = lane_kw(c["lane"])
    if base + c["static"] <= 0 and l.lo is not None:
        raise Discard("negative clock frequency")
    ops = [op("SquarePulse", amp=0.3, duration=40e-9, **kw)]
    for f in c["set"]:
        ops += [op("SetClockFrequency", clock=l.clock, clock_freq_new=base + f),
                op("SquarePulse", amp=0.3, duration=40e-9, **kw)]
    if c["shift"] is not None:
        ops += [op("ShiftClockPhase", phase_shift=c["shift"], clock=l.clock),
                op("SquarePulse", amp=0.3, duration=40e-9, **kw)]
    d = sched(ops)
    if c["loop"]:
        d = sched([{"t": "loop", "n": 2, "body": d}, op("IdlePulse", duration=8e-9)])
    hi = max(map(abs, [c["static"], *c["set"]]))
    zero = c["static"] == 0 and (c["set"] or c["shift"] is not None)
    demand = "open" if zero or 500e6 < hi < 500.00001e6 else "fits" if hi <= 500e6 else "exceeds"

    def right(comp, seqs):
        q = seqs[0]
        if q.s.nco_en:
            want = [round(4 * f) for f in c["set"]] * (2 if c["loop"] else 1)
            got = [s for _, s in q.trace.freq]
            if not (c["loop"] and c["set"]):
                expect(got == want or got == want[1:] and want[:1] == [round(4 * c["static"])],
                       "set_freq %s instead of %s", got, want)

    hw = Q.hardware([c["lane"]])
    _, r = judge(make(d, [c["lane"]], [(l.clock, base + c["static"])]), hw, demand,
                 f"NCO frequencies {c['static']}, {c['set']}", right)
    return ok(hi > 4e8, [r, c["lane"], "set" if c["set"] else "static"])


# ------------------------------------------------------------------ time grid
@st.composite
def grid(draw):
    n = draw(st.integers(2, 5))
    its = [[draw(st.sampled_from(["pulse", "pulse", "long", "idle", "acq", "sub"])),
            draw(st.integers(20, 60)) * 4, draw(st.integers(5, 40)) * 4,
            draw(st.sampled_from([None, None, "start", "center"]))] for _ in range(n)]
    return {"its": its, "i": draw(st.integers(0, n - 1)),
            "field": draw(st.sampled_from(["rel", "dur", "both", "total"])),
            "e": draw(st.sampled_from([0.0003, 0.0007, 0.0009, 0.0025, 0.01, 0.05, 0.1, 0.3, 0.5, 0.7,
                                       0.99])) * draw(st.sampled_from([1, -1])),
            "reps": draw(st.integers(1, 2)), "loop": draw(st.booleans())}


def off(x):
    return abs(x - round(x))


def exact(o):
    return o["k"]["duration"]


def check_grid(c):
    n = "ro0"
    kw = lane_kw(n)
    e = c["e"] * 1e-9
    ops = []
    for i, (kind, dur, rel, pt) in enumerate(c["its"]):
        t, r = dur * 1e-9, rel * 1e-9
        if pt is not None:
            r += 400e-9
        if i == c["i"]:
            if c["field"] in ("dur", "both"):
                t += e
            if c["field"] in ("rel", "both"):
                r += e if c["field"] == "rel" else -e
        if kind == "acq":
            t += 300e-9
            o = op("SSBIntegrationComplex", duration=t, acq_channel=i, **kw)
        elif kind == "idle":
            o = op("IdlePulse", duration=t)
        elif kind == "sub":
            o = sched([op("SquarePulse", amp=0.4, duration=t, **kw),
                       {"op": op("SquarePulse", amp=0.2, duration=20e-9, **kw), "rel": 20e-9}])
        else:
            o = op("SquarePulse", amp=0.3, duration=t + (400e-9 if kind == "long" else 0), **kw)
        it = {"op": o, "rel": r if i else 0}
        if pt is not None and i:
            it |= {"ref": i - 1, "pt": pt}
        ops.append(it)
    end = 200e-9 + (e if c["field"] == "total" else 0)
    ops.append({"op": op("IdlePulse", duration=end), "rel": 400e-9})
    d = sched(ops)
    if c["loop"]:
        d = sched([{"t": "loop", "n": 2, "body": d}, op("IdlePulse", duration=8e-9)])
    d["reps"] = c["reps"]
    worst = idle = 0.0
    spans = {}
    for t, o, _ in build.leaves(dict(d, reps=1), exact):
        if o["c"] != "IdlePulse":
            u = o["k"]["duration"] * 1e9
            worst = max(worst, off(t * 1e9), off(u))
            spans[round(t * 1e9)] = (round(u), o["c"])
        else:  # an idle that is not on the grid itself may be refused
            idle = max(idle, off(t * 1e9), off(o["k"]["duration"] * 1e9))
    total = build.duration(dict(d, reps=1), exact) * 1e9
    if not spans:
        raise Discard("nothing to play")
    ts = sorted(spans)
    if any(a + spans[a][0] > b for a, b in zip(ts, ts[1:])):
        raise Discard("overlapping operations")
    acqs = [t for t in ts if spans[t][1] != "SquarePulse"]
    if any(b - a < 300 for a, b in zip(acqs, acqs[1:])):
        raise Discard("acquisitions too close")
    if len({spans[t][0] for t in acqs}) > 1:
        raise Discard("several integration lengths")
    worst = max(worst, off(total))
    idle = max(idle, off(total * c["reps"]))
    demand = "fits" if max(worst, idle) < 0.00097 else "exceeds" if worst > 0.002 else "open"

    def right(comp, seqs):
        if c["reps"] == 1:
            p06.check_output({"d": d, "lanes": [n]}, comp)

    _, r = judge(make(d, [n]), Q.hardware([n]), demand,
                 f"times {worst:.5f} ns off the grid of 1 ns", right)
    return ok(worst > 1e-5, [r, c["field"], f"e={abs(c['e'])}"])


# ------------------------------------------------------------------ close acquisitions
@st.composite
def spacing(draw):
    gaps = draw(st.lists(st.one_of(st.sampled_from([296, 299, 300, 301, 304]),
                                   st.integers(100, 500)), min_size=1, max_size=3))
    return {"gaps": gaps, "cls": draw(st.sampled_from(["SSBIntegrationComplex",
                                                       "ThresholdedAcquisition"])),
            "mode": draw(st.sampled_from(["append", "average"])),
            "wrap": draw(st.sampled_from(["no", "no", "sub", "loop1", "loop2"])),
            "lane": draw(st.sampled_from(["ro0", "rfro"]))}


def check_spacing(c):
    kw = lane_kw(c["lane"])
    ops, t = [], 0
    for i in range(len(c["gaps"]) + 1):
        it = {"op": op(c["cls"], duration=100e-9, acq_index=i, bin_mode={"__b": c["mode"]}, **kw),
              "rel": 0}
        if i:
            it["rel"] = round((c["gaps"][i - 1]) * 1e-9, 12)
            it |= {"ref": i - 1, "pt": "start"}
        ops.append(it)
    ops.append(op("IdlePulse", duration=400e-9))
    d = sched(ops)
    if c["wrap"] == "sub":
        d = sched([d, op("IdlePulse", duration=8e-9)])
    elif c["wrap"].startswith("loop"):
        d = sched([{"t": "loop", "n": int(c["wrap"][4:]), "body": d},
                   op("IdlePulse", duration=8e-9)])
    m = min(c["gaps"])

    def right(comp, seqs):
        at = [a["t"] for a in seqs[0].trace.acq]
        expect(min(b - a for a, b in zip(at, at[1:])) >= 300, "acquisitions at %s", at)

    _, r = judge(make(d, [c["lane"]]), Q.hardware([c["lane"]]),
                 "fits" if m >= 300 else "exceeds", f"acquisitions {m} ns apart", right)
    return ok(m < 310, [r, c["wrap"]])


# ------------------------------------------------------------------ sequencers
@st.composite
def many(draw):
    typ = draw(st.sampled_from(["QCM", "QRM", "QCM_RF", "QRM_RF", "QRC", "QTM"]))
    top = {"QRC": 12, "QTM": 8}.get(typ, 6)
    return {"typ": typ, "n": max(1, top + draw(st.integers(-2, 3))),
            "spread": draw(st.booleans()), "order": draw(st.integers(0, 5))}


def check_many(c):
    typ, n = c["typ"], c["n"]
    top = {"QRC": 12, "QTM": 8}.get(typ, 6)
    slot = p21.SLOTS[typ][0]
    rf = typ in ("QCM_RF", "QRM_RF", "QRC")
    chans = {"QCM": ["complex_output_0", "complex_output_1"], "QRM": ["complex_output_0"],
             "QCM_RF": ["complex_output_0", "complex_output_1"], "QRM_RF": ["complex_output_0"],
             "QRC": [f"complex_output_{i}" for i in range(6)],
             "QTM": [f"digital_output_{i}" for i in range(8)]}[typ]
    graph, mod, ops, clocks, mf = [], {"instrument_type": typ}, [], [], {}
    for i in range(n):
        j = (i + c["order"]) % n
        ch = chans[j % len(chans)] if c["spread"] or typ == "QTM" else chans[0]
        mod.setdefault(ch, {})
        port = f"p:{ch}"
        e = [f"cluster0.module{slot}.{ch}", port]
        if e not in graph:
            graph.append(e)
        if typ == "QTM":
            if i >= 8:  # a ninth port on an existing channel
                e = [f"cluster0.module{slot}.{chans[0]}", f"p:extra{i}"]
                graph.append(e)
                port = e[1]
            ops += [op("MarkerPulse", duration=40e-9, port=port), op("IdlePulse", duration=20e-9)]
            continue
        clock = f"c{j}"
        f = (5e9 if rf else 0) + 20e6 * (j + 1)
        clocks.append((clock, f))
        if rf:
            mf[f"{port}-{clock}"] = {"lo_freq": 5e9}
        ops.append(op("SquarePulse", amp=round(0.1 + 0.05 * j, 3), duration=40e-9, port=port,
                      clock=clock))
    hw = {"config_type": Q.QBLOX,
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal",
                                                "modules": {str(slot): mod}}},
          "hardware_options": {"modulation_frequencies": mf},
          "connectivity": {"graph": graph}}
    d = sched(ops)
    demand = "fits" if n <= (8 if typ == "QRC" and not c["spread"] else top) else \
        "open" if n <= top else "exceeds"

    def right(comp, seqs):
        expect(len({q.name for q in seqs}) == len(seqs) == n,
               "%d port-clocks got sequencers %s", n, [q.name for q in seqs])
        for q in seqs:
            if typ != "QTM":
                expect(len(q.trace.play) + len(q.trace.offs) >= 1, "%s plays nothing", q.where)

    try:
        cfg = Q.config(hw)
    except Exception as e:  # noqa: BLE001
        expect(demand != "fits", "configuration refused: %s", str(e)[:200])
        return ok(n > top - 2, ["refused", typ])
    _, r = judge(make(d, [], clocks), cfg, demand, f"{n} port-clocks on a {typ}", right)
    return ok(n > top - 2, [r, typ])


# ------------------------------------------------------------------ repetitions
@st.composite
def repetitions(draw):
    kind = draw(st.sampled_from(["reps", "reps", "loop", "inner"]))
    vals = [1, 2, 3, 0, -1, -5, 2.5, 7]
    if kind == "reps":
        vals += [10**6, 2**32 - 1, 2**32, 2**33, 2**31, 10**12]
    return {"kind": kind, "n": draw(st.sampled_from(vals)),
            "np": draw(st.booleans()), "pulses": draw(st.integers(1, 3))}


def check_repetitions(c):
    kw = lane_kw("mw0")
    n = c["n"]
    v = n
    if c["np"] and isinstance(n, int):
        v = np.int64(n)
    body = sched([op("SquarePulse", amp=0.3, duration=40e-9, **kw)] * c["pulses"])
    demand = "fits" if isinstance(n, int) and 1 <= n < 2**32 else "exceeds"
    try:
        if c["kind"] == "reps":
            s = make(body, ["mw0"])
            from quantify_scheduler import Schedule

            s = Schedule("s", repetitions=v)
            s.add_resource(__import__("quantify_scheduler").ClockResource("q0.01", 50e6))
            s.add(make(body, ["mw0"]))
        else:
            x = {"t": "loop", "n": v, "body": body}
            if c["kind"] == "inner":
                x = {"t": "loop", "n": 2, "body": sched([x, op("IdlePulse", duration=8e-9)])}
            s = make(sched([x, op("IdlePulse", duration=8e-9)]), ["mw0"])
    except Exception as e:  # noqa: BLE001
        expect(demand == "exceeds", "%s = %r refused: %s", c["kind"], v, e)
        return ok(n < 1, ["refused", c["kind"]])

    def right(comp, seqs):
        if n > 1000:
            m = re.search(r"move\s+(\d+),", seqs[0].program)
            expect(m and int(m.group(1)) == n, "repetitions %d became %s", n, m and m.group(0))
            return
        got = len(seqs[0].trace.play)
        want = n * c["pulses"] * (2 if c["kind"] == "inner" else 1)
        expect(got == want, "%d pulses instead of %d", got, want)

    _, r = judge(s, Q.hardware(["mw0"]), demand, f"{c['kind']} = {v!r}", right)
    return ok(n not in (1, 2, 3, 7), [r, c["kind"]])


# ------------------------------------------------------------------ trigger addresses
FB = [("QRM", 2), ("QRM", 8), ("QRM_RF", 4), ("QRM_RF", 5)]


@st.composite
def labels(draw):
    return {"n": draw(st.sampled_from([1, 3, 13, 14, 15, 15, 16, 16, 17, 20])),
            "rev": draw(st.booleans()), "again": draw(st.integers(0, 2))}


def check_labels(c):
    n = c["n"]
    mods, graph, mf, clocks, ops = {}, [["cluster0.module1.complex_output_0", "q0:mw"]], {}, [
        ("q0.01", 50e6)], []
    mods["1"] = {"instrument_type": "QCM", "complex_output_0": {}}
    port = {}
    for i in range(n):
        typ, slot = FB[i // 6]
        mods.setdefault(str(slot), {"instrument_type": typ, "complex_output_0": {}})
        rf = typ.endswith("RF")
        p, clk = f"m{slot}:res", f"r{i}"
        e = [f"cluster0.module{slot}.complex_output_0", p]
        if e not in graph:
            graph.append(e)
        clocks.append((clk, (6e9 if rf else 0) + 20e6 * (i % 6 + 1)))
        if rf:
            mf[f"{p}-{clk}"] = {"lo_freq": 6e9}
        port[i] = (p, clk)
    order = list(range(n))[::-1] if c["rev"] else list(range(n))
    order += order[:c["again"]]
    for k, i in enumerate(order):
        p, clk = port[i]
        ops.append({"op": op("ThresholdedAcquisition", duration=200e-9, port=p, clock=clk,
                             acq_channel=i, acq_index=order[:k].count(i),
                             feedback_trigger_label=f"lab{i}",
                             bin_mode={"__b": "append"}), "rel": 100e-9 if k else 0})
        body = sched([op("SquarePulse", amp=0.3, duration=20e-9, port="q0:mw", clock="q0.01")])
        ops.append({"op": {"t": "cond", "q": f"lab{i}", "body": body, "buf": 40e-9},
                    "rel": 400e-9})
    ops.append(op("IdlePulse", duration=40e-9))
    hw = {"config_type": Q.QBLOX,
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal",
                                                "modules": mods}},
          "hardware_options": {"modulation_frequencies": mf}, "connectivity": {"graph": graph}}
    s = make(sched(ops), [], clocks)

    def right(comp, seqs):
        a = [q.s.thresholded_acq_trigger_write_address for q in seqs
             if q.s.thresholded_acq_trigger_write_en]
        expect(len(a) == n and len(set(a)) == n and all(1 <= x <= 15 for x in a),
               "%d labels use trigger addresses %s", n, a)

    _, r = judge(s, hw, "fits" if n <= 15 else "exceeds", f"{n} feedback labels", right)
    return ok(n > 12, [r])


# ------------------------------------------------------------------ long waits
@st.composite
def waits(draw):
    def gap():
        return draw(st.one_of(
            st.tuples(st.sampled_from([65532, 65535, 65536, 131064, 65532 * 10, 65532 * 500,
                                       65532 * 10000]), st.integers(-9, 9)).map(sum),
            st.integers(1000, 3 * 10**6), st.sampled_from([10**9, 123456789])))

    return {"gaps": [gap() for _ in range(draw(st.integers(1, 3)))],
            "loop": draw(st.sampled_from([1, 1, 2])), "lane": draw(st.sampled_from(
                ["mw0", "ro0", "fl1", "rf1"])), "idle": draw(st.booleans())}


def check_waits(c):
    kw = lane_kw(c["lane"])
    ops, at, t = [], [], 0
    for i, g in enumerate([0, *c["gaps"]]):
        p = op("SquarePulse", amp=round(0.2 + 0.1 * i, 3), duration=20e-9, **kw)
        if g and c["idle"]:
            ops.append(op("IdlePulse", duration=round(g * 1e-9, 12)))
        ops.append({"op": p, "rel": round(g * 1e-9, 12) if g and not c["idle"] else 0})
        t += g
        at.append(t)
        t += 20
    d = sched(ops)
    if c["loop"] > 1:
        d = sched([{"t": "loop", "n": c["loop"], "body": d}, op("IdlePulse", duration=8e-9)])
    if sum(c["gaps"]) * c["loop"] > 6 * 10**9:
        raise Discard("longer than 6 s")

    def right(comp, seqs):
        tb = Q.timebase()
        got = [p[0] - tb[0] for p in seqs[0].trace.play]
        want = [x + i * t for i in range(c["loop"]) for x in at]
        expect(got == want, "pulses at %s ns instead of %s", got, want)

    _, r = judge(make(d, [c["lane"]]), Q.hardware([c["lane"]]), "fits",
                 f"waits of {c['gaps']} ns", right)
    return ok(max(c["gaps"]) > 65000, [r, c["lane"]])


# ------------------------------------------------------------------ settings
SET = {
    # name: (in range, beyond, must the compiler itself refuse)
    "amp_ratio": ([0.5, 0.51, 1.0, 1.99, 2.0], [0.49, 2.01, 0.0, -1.0, 10.0], True),
    "phase_error": ([-45.0, -44.9, 0.0, 44.9, 45.0], [-45.1, 45.1, 90.0, 720.0], True),
    "dc QCM": ([-2.5, -2.4, 0.0, 2.5], [2.51, -2.6, 5.0], True),
    "init_offset": ([-1.0, -0.99, 0.5, 1.0], [1.01, -1.1, 5.0], True),
    "init_gain": ([-1.0, 0.0, 0.5, 1.0], [1.01, -1.1, 2.0], True),
    "output_att": ([0, 2, 30, 60], [-2, 3, 62, 64, 1000], False),
    "input_att": ([0, 2, 30], [-2, 3, 32, 100], False),
    "input_gain": ([-6, 0, 26], [-7, 27, 100], False),
    "lo_freq": ([2e9, 5e9, 18e9], [1.9e9, 18.1e9, 1e9, 30e9], False),
    # (for an integration of 200 ns)
    "threshold": ([-83886.06, -1.5, 0.0, 83886.06], [83886.07, -1e5, 1e9], False),
    "rotation": ([0.0, 1.0, 359.9], [], True),
    "length": ([4, 100, 16384, 100000, 16777212], [16777216, 33554432], False),
}


@st.composite
def settings(draw):
    k, v, b = draw(st.sampled_from([(k, v, i == 1) for k in sorted(SET) for i in (0, 1)
                                    for v in SET[k][i]]))
    return {"k": k, "v": v, "bad": b,
            "lane": draw(st.integers(0, 3)), "pulse": draw(st.booleans())}


def check_settings(c):
    k, v = c["k"], c["v"]
    lane = {"output_att": ["rf1", "rfro"], "input_att": ["rfro"], "input_gain": ["ro0"],
            "lo_freq": ["rf1", "rfro"], "dc QCM": ["mw0"], "threshold": ["ro0", "rfro"],
            "rotation": ["ro0", "rfro"], "length": ["ro0", "rfro"]}.get(
                k, ["mw0", "rf1", "ro0", "rfro"])
    n = lane[c["lane"] % len(lane)]
    l = Q.LANES[n]
    kw, key = lane_kw(n), l.key
    opts, clocks = {}, Q.clocks_of([n])
    ops = [op("SquarePulse", amp=0.3, duration=40e-9, **kw)]
    if k in ("amp_ratio", "phase_error"):
        opts = {"mixer_corrections": {key: {k: v}}}
    elif k == "dc QCM":
        opts = {"mixer_corrections": {key: {"dc_offset_i": v, "dc_offset_q": 0.0}}}
    elif k in ("init_offset", "init_gain"):
        opts = {"sequencer_options": {key: {k + "_awg_path_I": v}}}
    elif k in ("output_att", "input_att"):
        opts = {k: {key: v}}
    elif k == "input_gain":
        opts = {k: {key: {"gain_I": v, "gain_Q": 0}}}
    elif k == "lo_freq":
        opts = {"modulation_frequencies": {key: {"lo_freq": v}}}
        clocks = [(l.clock, v + 50e6)]
    acq = {"threshold": dict(acq_rotation=10.0, acq_threshold=v),
           "rotation": dict(acq_rotation=v, acq_threshold=0.5)}.get(k)
    if acq:
        ops.append(op("ThresholdedAcquisition", duration=200e-9, **acq, **kw))
    elif k in ("input_att", "input_gain"):
        ops.append(op("SSBIntegrationComplex", duration=200e-9, **kw))
    elif k == "length":
        ops = [op("SSBIntegrationComplex", duration=round(v * 1e-9, 12), **kw)]
    elif c["pulse"]:
        ops += ops
    d = sched(ops)
    what = f"{k} = {v!r}"
    try:
        cfg = Q.config(Q.hardware([n], opts))
    except Exception as e:  # noqa: BLE001
        expect(c["bad"], "%s refused: %s", what, str(e)[:200])
        return ok(True, ["refused by the configuration", k])

    def right(comp, seqs):
        pass

    try:
        _, r = judge(make(d, [n], clocks), cfg, "exceeds" if c["bad"] else "fits", what, right)
    except Violation:
        raise
    if c["bad"] and SET[k][2]:
        expect(r == "refused", "%s was left to the instrument to refuse", what)
    return ok(True, [r, k])


# ------------------------------------------------------------------ fine delays
@st.composite
def fine(draw):
    v = st.one_of(st.sampled_from([0, 1, 128, 2046, 2047, 2048, 2049, 2176, 4096, -1, -128]),
                  st.integers(0, 2047))
    return {"start": draw(v), "end": draw(v), "more": draw(st.booleans()),
            "dur": draw(st.sampled_from([40, 100, 1000]))}


def check_fine(c):
    ops = [op("MarkerPulse", duration=round(c["dur"] * 1e-9, 12), port="t:0",
              fine_start_delay=c["start"] / 128 * 1e-9, fine_end_delay=c["end"] / 128 * 1e-9),
           op("IdlePulse", duration=60e-9)]
    if c["more"]:
        ops += [op("MarkerPulse", duration=60e-9, port="t:0"), op("IdlePulse", duration=60e-9)]
    hw = Q.hardware(["mw0"], digital=[("t:0", 9, "QTM", "digital_output_0", 0)])
    bad = any(not 0 <= c[k] <= 2047 for k in ("start", "end"))
    both = (c["start"] - c["end"]) % 128 == 0
    close = 7 * 128 > c["dur"] * 128 + c["end"] - c["start"]
    demand = "exceeds" if bad else "open" if close or not both else "fits"

    def right(comp, seqs):
        q = next(q for q in seqs if q.module.endswith("module9"))
        got = [int(x) for x in re.findall(r"set_digital\s+\S+?,\S+?,(\d+)", q.program)][-4:]
        want = [c["start"], c["end"]] + [0, 0] * c["more"]
        expect(got[-len(want):] == want, "fine delays %s instead of %s", got, want)

    _, r = judge(make(sched(ops), ["mw0"]), hw, demand,
                 f"fine delays of {c['start']}/128 and {c['end']}/128 ns", right)
    return ok(c["start"] + c["end"] != 0, [r])


@st.composite
def fine_spacing(draw):
    """A few fine-delayed operations on one QTM channel, close together in time."""
    v = st.one_of(st.sampled_from([0, 0, 64, 128, 192, 256, 640, 895, 896, 897]), st.integers(0, 1300))
    ops = []
    for i in range(draw(st.integers(2, 3))):
        ops.append({"gap": draw(st.integers(4, 16)), "dur": draw(st.sampled_from([12, 20, 300, 301])),
                    "start": draw(v), "end": draw(v)})
    if draw(st.integers(0, 2)) == 0:  # all the same fraction of a nanosecond
        f = draw(st.integers(0, 127))
        for o in ops:
            o["start"], o["end"] = (x // 128 * 128 + f for x in (o["start"], o["end"]))
    if draw(st.integers(0, 2)):  # aim at the limit
        a, b = ops[0], ops[1]
        near = st.integers(-3, 3) if draw(st.booleans()) else st.integers(-400, 400)
        rest = 7 * 128 + draw(near) - b["gap"] * 128 + a["end"]
        b["start"] = max(0, min(2047, rest))
    return {"kind": draw(st.sampled_from(["marker", "timetag"])), "ops": ops}


def check_fine_spacing(c):
    """Edges on one channel are at least 7 ns or a whole number of ns apart, else refused."""
    ops, t, edges = [], 0, []
    for i, o in enumerate(c["ops"]):
        dur = o["dur"] if c["kind"] == "marker" else max(o["dur"], 300)
        t += o["gap"]
        k = dict(duration=round(dur * 1e-9, 12), fine_start_delay=o["start"] / 128 * 1e-9,
                 fine_end_delay=o["end"] / 128 * 1e-9)
        ops.append({"op": op("MarkerPulse", port="t:0", **k) if c["kind"] == "marker" else
                    op("Timetag", port="q6:cnt", clock="digital", acq_channel=0, acq_index=i,
                       bin_mode="append", **k), "rel": round(o["gap"] * 1e-9, 12)})
        edges += [t * 128 + o["start"], (t + dur) * 128 + o["end"]]
        t += dur
    ops.append({"op": op("IdlePulse", duration=60e-9), "rel": 0})
    gaps = [b - a for a, b in zip(edges, edges[1:])]
    bad = any(g % 128 and g < 7 * 128 for g in gaps)
    demand = "exceeds" if bad else "open" if min(gaps) < 4 * 128 else "fits"
    chan = ("t:0", 9, "QTM", "digital_output_0", 0) if c["kind"] == "marker" else \
           ("q6:cnt", 9, "QTM", "digital_input_0", 0)
    hw = Q.hardware(["mw0"], digital=[chan])

    _, r = judge(make(sched(ops), ["mw0"]), hw, demand,
                 "fine-delayed %s with edges %s/128 ns apart" % (c["kind"], gaps), None)
    return ok(any(g < 9 * 128 for g in gaps), [r, c["kind"]])


# ------------------------------------------------------------------ known findings
def _loop_spacing():
    kw = lane_kw("ro0")
    d = sched([{"t": "loop", "n": 3, "body": op("SSBIntegrationComplex", duration=100e-9, **kw)},
               op("IdlePulse", duration=8e-9)])
    comp, err, _ = attempt(make(d, ["ro0"]), Q.hardware(["ro0"]))
    if err is None:
        at = [a["t"] for a in Q.sequencers(comp)[0].trace.acq]
        if min(b - a for a, b in zip(at, at[1:])) < 300:
            raise Violation(f"acquisitions at {at} ns")


KNOWN = [Known("P18-acquisitions-in-loops",
               "acquisitions less than 300 ns apart are refused only when they are written one "
               "after the other; in a loop with a short body they are accepted", _loop_spacing)]

SUBS = [
    Sub("memory", memory, check_memory, quick=120, thorough=3000,
        rule="waveform memory nearly full or overfull"),
    Sub("weights", weights, check_weights, quick=120, thorough=2000,
        rule="weight memory nearly full or overfull, or more than 10 weights"),
    Sub("bins", bins, check_bins, quick=150, thorough=2000,
        rule="more than 30 channels or 90000 bins"),
    Sub("instructions", instructions, check_instructions, quick=16, thorough=150,
        rule="within 20 % of the instruction memory"),
    Sub("nesting", nesting, check_nesting, quick=80, thorough=2000,
        rule="loops more than 40 deep"),
    Sub("amplitude", amplitude, check_amplitude, quick=500, thorough=8000,
        rule="output above 94 % of full scale"),
    Sub("frequency", frequency, check_frequency, quick=400, thorough=6000,
        rule="an intermediate frequency above 400 MHz"),
    Sub("grid", grid, check_grid, quick=500, thorough=8000,
        rule="a time that is not a multiple of 1 ns"),
    Sub("spacing", spacing, check_spacing, quick=200, thorough=3000,
        rule="acquisitions less than 310 ns apart"),
    Sub("sequencers", many, check_many, quick=150, thorough=2000,
        rule="at least one port-clock less than the module has sequencers"),
    Sub("repetitions", repetitions, check_repetitions, quick=150, thorough=2000,
        rule="an unusual number of repetitions"),
    Sub("labels", labels, check_labels, quick=40, thorough=600,
        rule="more than 12 feedback labels"),
    Sub("waits", waits, check_waits, quick=120, thorough=2000,
        rule="a wait longer than one wait instruction"),
    Sub("settings", settings, check_settings, quick=500, thorough=3000,
        rule="any boundary value or value beyond"),
    Sub("fine delays", fine, check_fine, quick=150, thorough=3000, rule="a fine delay"),
    Sub("fine delay spacing", fine_spacing, check_fine_spacing, quick=300, thorough=5000,
        rule="edges less than 9 ns apart"),
]

"""P05: unitaries, angle folding and virtual Z rotations."""
from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from vf import build, gen
from vf import device as D
from vf.core import Known, Sub, Violation, expect, ok, sut

SX = np.array([[0, 1], [1, 0]], complex)
SY = np.array([[0, -1j], [1j, 0]], complex)
SZ = np.diag([1, -1]).astype(complex)
EYE = np.eye(2)


def rot(n, deg):
    """exp(-i angle/2 n.sigma), from the eigendecomposition of n.sigma."""
    g = n[0] * SX + n[1] * SY + n[2] * SZ
    w, v = np.linalg.eigh(g)
    return (v * np.exp(-0.5j * np.deg2rad(deg) * w)) @ v.conj().T


def rxy(t, p):
    return rot((np.cos(np.deg2rad(p)), np.sin(np.deg2rad(p)), 0), t)


def rz(t):
    return rot((0, 0, 1), t)


def unitary(op):
    return np.asarray(op.data["gate_info"]["unitary"], complex)


def close(a, b, tol=1e-7):
    return a.shape == b.shape and np.allclose(a, b, atol=tol, rtol=0)


def upto_phase(a, b, tol=1e-7):
    t = np.trace(a.conj().T @ b) / a.shape[0]
    return abs(abs(t) - 1) < tol and close(a * t / abs(t), b, 10 * tol)


exact = st.one_of(
    st.integers(-8 * 1000, 8 * 1000).map(lambda k: k / 8),
    st.sampled_from([0.0, 90.0, 180.0, -180.0, 270.0, 360.0, 45.0, 720.0, -90.0, 540.0, -360.0]))
angle = st.one_of(exact, exact, st.floats(-2000, 2000, allow_nan=False),
                  st.integers(-1000, 1000))

DOC = {
    "X": -1j * SX, "X90": (EYE - 1j * SX) / np.sqrt(2), "Y": -1j * SY,
    "Y90": np.array([[1, -1], [1, 1]]) / np.sqrt(2), "Z": np.diag([-1j, 1j]),
    "Z90": np.diag([1 - 1j, 1 + 1j]) / np.sqrt(2), "S": np.diag([1 - 1j, 1 + 1j]) / np.sqrt(2),
    "SDagger": np.diag([1 + 1j, 1 - 1j]) / np.sqrt(2),
    "T": np.exp(-1j * np.pi / 8) * np.diag([1, (1 + 1j) / np.sqrt(2)]),
    "TDagger": np.exp(1j * np.pi / 8) * np.diag([1, (1 - 1j) / np.sqrt(2)]),
    "H": -1j / np.sqrt(2) * np.array([[1, 1], [1, -1]]),
    "CNOT": np.eye(4)[[0, 1, 3, 2]], "CZ": np.diag([1, 1, 1, -1]),
}


@st.composite
def unitary_case(draw):
    return {"theta": draw(angle), "phi": draw(angle), "turns": draw(st.integers(-5, 5)),
            "turns2": draw(st.integers(-5, 5)),
            "word": draw(st.lists(st.sampled_from(sorted(set(DOC) - {"CNOT", "CZ"})),
                                  min_size=1, max_size=6))}


def check_unitary(case):
    from quantify_scheduler.operations import gate_library as g

    t, p = case["theta"], case["phi"]
    with sut("construct gates"):
        a = g.Rxy(theta=t, phi=p, qubit="q0")
        b = g.Rz(theta=t, qubit="q0")
        a2 = g.Rxy(theta=t + 360 * case["turns"], phi=p + 360 * case["turns2"], qubit="q0")
        b2 = g.Rz(theta=t + 360 * case["turns"], qubit="q0")
    f = D.fold(float(t))
    expect(close(unitary(a), rxy(f, p)), "Rxy(%r, %r) has unitary %s", t, p, unitary(a))
    expect(close(unitary(b), rz(f)), "Rz(%r) has unitary %s", t, unitary(b))
    expect(upto_phase(unitary(a), rxy(t, p)) and upto_phase(unitary(b), rz(t)),
           "folded rotation differs from the given one")
    for x, y, what in ((a, a2, "Rxy"), (b, b2, "Rz")):
        expect(upto_phase(unitary(x), unitary(y)), "%s is not periodic: %r", what, case)
        gi, gj = x.data["gate_info"], y.data["gate_info"]
        d = abs(gi["theta"] - gj["theta"])
        expect(min(d, 360 - d) < 1e-6, "%s angle %r and %r for the same rotation", what,
               gi["theta"], gj["theta"])
        expect(-180 < gi["theta"] <= 180, "%s angle %r outside (-180, 180]", what, gi["theta"])
        if t == round(t * 8) / 8 and (what == "Rz" or p == round(p * 8) / 8):
            expect(x == y and hash(x) == hash(y) and x.hash == y.hash,
                   "%s differing by full turns is not the same operation: %r %r", what, x, y)
    d = abs(a.data["gate_info"]["phi"] - a2.data["gate_info"]["phi"])
    expect(min(d, 360 - d) < 1e-6, "axis %r and %r", a.data["gate_info"]["phi"],
           a2.data["gate_info"]["phi"])
    # named gates: documented matrices, alone and in products
    u, v = np.eye(2), np.eye(2)
    for n in case["word"]:
        u = unitary(getattr(g, n)("q0")) @ u
        v = DOC[n] @ v
    expect(close(u, v), "product of %r is %s, documented %s", case["word"], u, v)
    for n in case["word"]:
        if n in D.NAMED:
            kind, *args = D.NAMED[n]
            w = getattr(g, n)("q0")
            ref = g.Rxy(*map(float, args), "q0") if kind == "Rxy" else g.Rz(float(args[0]), "q0")
            expect(close(unitary(w), unitary(ref)), "%s differs from %s%r", n, kind, args)
            for k in ("theta", "phi", "operation_type", "device_elements"):
                expect(w.data["gate_info"].get(k) == ref.data["gate_info"].get(k),
                       "%s: %s is %r, the rotation it abbreviates has %r", n, k,
                       w.data["gate_info"].get(k), ref.data["gate_info"].get(k))
    for n in ("CNOT", "CZ"):
        expect(close(unitary(getattr(g, n)("q0", "q1")), DOC[n]), "unitary of %s", n)
    hh = np.kron(EYE, unitary(g.H("q1")))
    expect(upto_phase(hh @ unitary(g.CZ("q0", "q1")) @ hh, unitary(g.CNOT("q0", "q1"))),
           "CNOT is not H CZ H")
    return ok(True, ["exact angle"] if t == round(t * 8) / 8 else [])


# ------------------------------------------------------------------------- virtual Z
zang = st.one_of(st.sampled_from([30.0, 45.0, 90.0, 180.0, -90.0, 170.0, 0.0]),
                 st.integers(-400, 400), st.floats(-400, 400).map(lambda x: round(x, 2)))


@st.composite
def zgate(draw, els):
    r = draw(st.integers(0, 11))
    q = draw(st.sampled_from(els))
    if r < 5:
        c = draw(st.sampled_from(["Rz", "Rz", "Rz", "Z", "S", "SDagger", "T", "TDagger", "Z90"]))
        return gen.op(c, qubit=q, **({"theta": draw(zang)} if c == "Rz" else {}))
    if r < 9:
        c = draw(st.sampled_from(["X", "X90", "Y", "Rxy"]))
        return gen.op(c, qubit=q, **({"theta": draw(zang), "phi": draw(zang)}
                                     if c == "Rxy" else {}))
    if r == 9:
        return gen.op("H", **{"*": draw(st.lists(st.sampled_from(els), min_size=1, max_size=2,
                                                  unique=True))})
    pairs = [(a, b) for a in els for b in els if D.edge_of(a, b, True)]
    if pairs and r == 10:
        a, b = draw(st.sampled_from(pairs))
        return gen.op("CZ", qC=a, qT=b)
    if f"{els[0]}_{els[-1]}" in D.CNOTS:
        return gen.op("CNOT", qC=els[0], qT=els[-1])
    return gen.op("IdlePulse", duration=20e-9)


@st.composite
def zsched(draw, els, depth, refs):
    items = []
    for i in range(draw(st.integers(1, 7 if depth else 5))):
        r = draw(st.integers(0, 11))
        if depth and r == 0:
            op = {"t": "loop", "n": draw(st.integers(1, 3)),
                  "body": draw(zsched(els, depth - 1, refs) if draw(st.integers(0, 3))
                               else zgate(els))}
        elif depth and r == 1:
            op = draw(zsched(els, depth - 1, refs))
        elif items and r in (2, 3):
            op = items[draw(st.integers(0, len(items) - 1))]["op"]
        else:
            op = draw(zgate(els))
        it = {"op": op}
        if refs and items and draw(st.integers(0, 3)) == 0:
            it["ref"] = draw(st.integers(0, len(items) - 1))
            it["pt"] = draw(gen.pts)
            it["ptn"] = draw(gen.pts)
            # off the grid of all gates, so that the order in time is never in doubt
            it["rel"] = draw(st.integers(1, 39)) * 1e-9 + draw(st.integers(1, 9)) * 1e-11 * (
                i + 1)
        elif draw(st.integers(0, 5)) == 0:
            it["rel"] = draw(gen.ns(0, 60))
        items.append(it)
    return {"t": "sched", "name": f"z{depth}", "ops": items,
            **({"reps": draw(st.integers(1, 3))} if draw(st.integers(0, 5)) == 0 else {})}


ELS = [["q0"], ["q0"], ["q0", "q1"], ["q0", "q1"], ["s0", "s1"], ["q0", "q1", "q2"], ["q0", "s0"]]


@st.composite
def z_case(draw):
    els = draw(st.sampled_from(ELS))
    strategy = draw(st.sampled_from(["asap", "asap", "alap"]))
    params = {}
    for e, (a, b) in D.EDGES.items():
        if a in els and b in els:
            params[e] = {f"cz.{a}_phase_correction": draw(zang),
                         f"cz.{b}_phase_correction": draw(zang)}
    s = draw(zsched(els, draw(st.integers(0, 2)), strategy == "asap"))
    return {"els": els, "params": params, "strategy": strategy, "sched": s}


def phases(items, els):
    """Per element: [(time, pulse, accumulated phase)], and the final phase.

    Items at the same instant count in the order given.
    """
    clk = {e: f"{e}.f_larmor" if D.KIND[e] == "spin" else f"{e}.01" for e in els}
    out = {}
    for e in els:
        acc, pulses = 0.0, []
        mine = [(t, i) for t, _, i in items if i.get("clock") == clk[e]]
        mine.sort(key=lambda x: round(x[0] * 1e12))
        for n, (t, i) in enumerate(mine):
            if "phase_shift" in i:
                acc += i["phase_shift"]
            elif i.get("port") is not None:
                # a rotation listed later but at the very same instant: order undefined
                tie = any("phase_shift" in j and abs(u - t) < 2e-12 for u, j in mine[n + 1:])
                pulses.append((t, i, acc, tie))
        out[e] = (pulses, acc)
    return out


def check_z(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        P = D.full(case["params"])
        with sut("compile to device level"):
            compiled, _, _ = D.compile_device(case, case["strategy"])
        want, total = D.reference(case["sched"], P, case["strategy"])
    got = phases(D.flatten(compiled), case["els"])
    ref = phases(want, case["els"])
    n = z = 0
    for e in case["els"]:
        a, b = ref[e][0], got[e][0]
        expect(len(a) == len(b), "%s: %d drive pulses scheduled, %d compiled", e, len(a), len(b))
        a = sorted(a, key=lambda x: (round(x[0] * 1e12), x[1]["G_amp"]))
        b = sorted(b, key=lambda x: (round(x[0] * 1e12), x[1]["G_amp"]))
        for x, y in zip(a, b):
            expect(abs(x[0] - y[0]) < 2e-12, "%s: drive pulse at %r s, scheduled %r", e, y[0],
                   x[0])
            n += 1
            z += bool(x[2] % 360)
            if x[3] or y[3]:
                continue
            d = (x[2] + x[1]["phase"] - y[2] - y[1]["phase"] + 180) % 360 - 180
            expect(abs(d) < 1e-6, "%s: drive pulse at %.2f ns is played with phase %r, the "
                   "rotations before it amount to %r", e, x[0] * 1e9, y[2] + y[1]["phase"],
                   x[2] + x[1]["phase"])
        d = (ref[e][1] - got[e][1] + 180) % 360 - 180
        expect(abs(d) < 1e-6, "%s: total virtual rotation %r, compiled %r", e, ref[e][1],
               got[e][1])
    expect(abs(compiled.duration - total) < 2e-12, "duration %r instead of %r",
           compiled.duration, total)
    return ok(z >= 1, [case["strategy"], f"elements={len(case['els'])}"])


def _sign():
    """X90, S, Y90 take |0> to |1>; the phases compiled for them take |0> to |0>."""
    case = {"params": {}, "sched": {"t": "sched", "name": "k", "ops": [
        {"op": gen.op("X90", qubit="q0")}, {"op": gen.op("S", qubit="q0")},
        {"op": gen.op("Y90", qubit="q0")}]}}
    compiled, s, _ = D.compile_device(case)
    ideal = DOC["Y90"] @ DOC["S"] @ DOC["X90"]
    u = np.eye(2)
    for t, i, acc, _ in phases(D.flatten(compiled), ["q0"])["q0"][0]:
        u = rxy(i["G_amp"] / 0.2 * 180, i["phase"] + acc) @ u
    p, q = abs(ideal[1, 0]) ** 2, abs(u[1, 0]) ** 2
    expect(abs(p - q) < 1e-6, "probability of |1> is %.3f for the circuit, %.3f for the played "
           "pulses", p, q)


KNOWN = [Known("P05-virtual-z-sign", "Rz(theta) shifts the phase of later pulses by +theta where "
               "the documented unitaries of Rz and Rxy require -theta (X90, S, Y90 ends in |0>)",
               _sign)]

SUBS = [
    Sub("unitaries", unitary_case, check_unitary, quick=2000, thorough=40000,
        rule="random angles (also exact multiples of 1/8 degree), full turns, products of named "
             "gates; every case is non-trivial"),
    Sub("virtual Z", z_case, check_z, quick=2500, thorough=60000,
        rule="circuits with runs of Z rotations on one to three elements, shared operations, "
             "loops, sub-schedules, explicit references, ASAP and ALAP; non-trivial: at least "
             "one drive pulse follows a non-zero rotation of its own element"),
]

"""P22: sampled waveforms are the documented functions."""
from __future__ import annotations

import math
import warnings

import numpy as np
from hypothesis import strategies as st

from vf import build, gen, wave
from vf.core import Discard, Known, Sub, Violation, expect, ok, sut

warnings.simplefilter("ignore")
RATES = [1e9, 2.4e9, 1.8e9, 2e9, 5e8, 1e10, 1e8, 3e9]
ASSUMPTIONS = (
    "Reference formulas follow the docstrings of quantify_scheduler.waveforms; values are compared "
    "with an absolute tolerance of 1e-9 relative to the scale of the pulse.")


def close(a, b, what, scale=1.0, tol=1e-9, **kw):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, what + ": shape", got=a.shape, want=b.shape, **kw)
    expect(np.all(np.isfinite(a)), what + " is not finite", **kw)
    assert np.all(np.isfinite(b)), "the reference is not finite"
    d = np.abs(a - b) if a.size else np.zeros(0)
    bad = np.nonzero(d > tol * max(1.0, scale))[0] if d.ndim else []
    if len(bad):
        i = bad[0]
        expect(False, "%s: sample %d is %r, documented %r (%d samples differ)", what, i, a[i], b[i],
               len(bad), **kw)


A = gen.amp
CA = st.one_of(gen.amp(), st.builds(lambda a, b: {"__c": [a, b]}, gen.amp(), gen.amp()))
PH = st.one_of(st.sampled_from([0, 90, 180, 270, -45, 30.5, 400]), st.floats(-360, 720))
SUB = ["average", "first", "last", "none"]


@st.composite
def shape(draw, with_n=True):
    """A function of quantify_scheduler.waveforms with its parameters."""
    f = draw(st.sampled_from(["square", "square_imaginary", "ramp", "staircase", "soft_square",
                              "chirp", "drag", "drag", "sudden_net_zero", "hermite",
                              "interpolated"]))
    rate = draw(st.sampled_from(RATES))
    n = draw(st.one_of(st.integers(1, 12), st.integers(2, 400)))
    frac = draw(st.sampled_from([0, 0, 0, 0.3, -0.3, 0.49])) if n > 1 else 0
    dur = (n + frac) / rate
    c = {"f": f, "rate": rate, "n": n, "dur": dur, "t0": draw(st.sampled_from([0, 0, 7, -3, 2.5]))}
    k = {}
    if f in ("square", "square_imaginary", "soft_square"):
        k["amp"] = draw(CA)
    elif f == "ramp":
        k = {"amp": draw(A()), "offset": draw(A())}
    elif f == "staircase":
        k = {"start_amp": draw(A()), "final_amp": draw(A()), "num_steps": draw(st.integers(2, 12))}
    elif f == "chirp":
        k = {"amp": draw(A()), "start_freq": draw(st.floats(-3e8, 3e8)),
             "end_freq": draw(st.one_of(st.floats(-3e8, 3e8), st.just(0.0)))}
    elif f == "drag":
        k = {"G_amp": draw(A()), "D_amp": draw(A()), "phase": draw(PH),
             "subtract_offset": draw(st.sampled_from(SUB))}
        if draw(st.booleans()):
            k |= {"nr_sigma": draw(st.sampled_from([4, 3, 2.5, 6])), "sigma": None}
        else:
            k |= {"nr_sigma": None, "sigma": dur * draw(st.floats(0.05, 1.0))}
    elif f == "sudden_net_zero":
        arm, mid, cor = draw(st.integers(1, 40)), draw(st.integers(0, 20)), draw(st.integers(1, 20))
        u, v, w = (draw(st.sampled_from([0, 0, 0.4, 0.9])) for _ in range(3))
        k = {"amp_A": draw(A()), "amp_B": draw(A()), "net_zero_A_scale": draw(A(-1.5, 1.5)),
             "t_pulse": 2 * (arm + u / 2) / rate, "t_phi": (mid + v) / rate,
             "t_integral_correction": (cor + w) / rate}
        c["parts"] = [arm, mid, cor]
        c["n"] = max(2, 2 * arm + mid + cor + draw(st.integers(0, 4)))
        c["dur"] = c["n"] / rate
    elif f == "hermite":
        k = {"amplitude": draw(A()), "skewness": draw(st.sampled_from([0, 1e-9, -5e-9, 0.3e-7])),
             "phase": draw(PH), "pi2_pulse": draw(st.booleans()),
             "center": draw(st.sampled_from([None, dur / 3]))}
    else:
        m = draw(st.integers(2, 9))
        gaps = draw(st.lists(st.integers(1, 30), min_size=m - 1, max_size=m - 1))
        ts = np.concatenate([[0], np.cumsum(gaps)]) / rate
        k = {"samples": [draw(CA) for _ in range(m)], "t_samples": [float(x) for x in ts]}
        last = gaps[0] if draw(st.integers(0, 3)) == 0 else 0
        c["n"] = max(1, int(sum(gaps)) + draw(st.integers(0, last)))
        c["dur"] = c["n"] / rate
    c["k"] = k
    return c


def reference(c, t):
    f, k = c["f"], {a: wave.c(b) if not isinstance(b, list) else b for a, b in c["k"].items()}
    x = t - t[0]
    if f == "square":
        return wave.square(t, k["amp"])
    if f == "square_imaginary":
        return wave.square(t, 1j * k["amp"])
    if f == "ramp":
        return wave.ramp(t, k["amp"], c["dur"], k["offset"])
    if f == "staircase":
        return wave.staircase(t, k["start_amp"], k["final_amp"], k["num_steps"], c["dur"])
    if f == "soft_square":
        return wave.soft_square(t, k["amp"])
    if f == "chirp":
        return wave.chirp(t, k["amp"], k["start_freq"], k["end_freq"], c["dur"])
    if f == "drag":
        return wave.drag(t, k["G_amp"], k["D_amp"], c["dur"], k["phase"], k["sigma"],
                         k["nr_sigma"], k["subtract_offset"])
    if f == "hermite":
        return wave.hermite(t, c["dur"], k["amplitude"], k["skewness"], k["phase"],
                            k["pi2_pulse"], k["center"])
    if f == "sudden_net_zero":
        arm, mid, cor = c["parts"]
        w = np.zeros(len(t), dtype=complex)
        a, b, s = k["amp_A"], k["amp_B"], k["net_zero_A_scale"]
        w[:arm] = a
        w[arm - 1] = a * b
        w[arm + mid:2 * arm + mid] = -a * s
        w[arm + mid] = -a * s * b
        w[2 * arm + mid:2 * arm + mid + cor] = -w.sum() / cor
        return w
    return wave.numerical(x, [wave.c(v) for v in k["samples"]], k["t_samples"])


PAR = {"square": "square", "square_imaginary": "square_imaginary", "ramp": "ramp",
       "staircase": "staircase", "soft_square": "soft_square", "chirp": "chirp", "drag": "drag",
       "sudden_net_zero": "sudden_net_zero", "hermite": "skewed_hermite",
       "interpolated": "interpolated_complex_waveform"}


def params(c, scale=1):
    k = {a: wave.c(b) if not isinstance(b, list) else b for a, b in c["k"].items()}
    for n in ("amp", "offset", "start_amp", "final_amp", "G_amp", "amp_A", "amplitude"):
        if n in k:
            k[n] = k[n] * scale
    if "samples" in k:
        k["samples"] = np.array([wave.c(v) for v in k["samples"]]) * scale
        k["t_samples"] = np.array(k["t_samples"])
    if c["f"] in ("ramp", "staircase", "chirp", "drag", "hermite"):
        k["duration"] = c["dur"]
    return k


def check_shape(c):
    from quantify_scheduler import waveforms as W
    from quantify_scheduler.backends.qblox.helpers import generate_waveform_data
    from quantify_scheduler.helpers.waveforms import exec_waveform_function, get_waveform

    n, rate = c["n"], c["rate"]
    t = np.arange(n) / rate
    fn = getattr(W, PAR[c["f"]])
    ref = reference(c, t)
    scale = 1.0
    if c["f"] == "hermite":
        scale = max(1.0, float(np.max(np.abs(ref))))
    k = params(c)
    step = c["f"] == "staircase"
    with sut("sampling a waveform"):
        got = fn(t=t, **k)
    near = np.zeros(n, dtype=bool)
    if step:  # samples within rounding of a step edge
        pos = t * c["k"]["num_steps"] / c["dur"]
        near = np.abs(pos - np.round(pos)) < 2e-6
        near &= np.abs(pos - np.round(pos)) > 1e-9
    close(np.where(near, 0, got), np.where(near, 0, ref), f"{c['f']}", scale)
    # linear in the amplitude
    for s in (-0.5, 3.0):
        with sut("sampling a scaled waveform"):
            y = fn(t=t, **params(c, s))
        close(y, s * np.asarray(got), f"{c['f']} with amplitude scaled by {s}", 4 * scale)
    # the same values when the time axis starts elsewhere (shapes that are relative to it)
    if c["t0"] and c["f"] in ("square", "soft_square", "drag", "hermite", "sudden_net_zero"):
        with sut("sampling a waveform at a later time"):
            y = fn(t=t + c["t0"] / rate, **k)
        close(y, ref, f"{c['f']} on a shifted time axis", scale, 1e-6)
    if step and c["t0"]:
        with sut("sampling a staircase outside of its duration"):
            y = fn(t=np.array([-3.0, -1.0]) / rate, **k)
            z = fn(t=c["dur"] + np.array([0.0, 1.0, 5.0]) / rate, **k)
        close(y, [k["start_amp"]] * 2, "staircase before its start")
        close(z, [k["final_amp"]] * 3, "staircase after its end")
    # through the dictionaries operations hold
    info = {"wf_func": f"quantify_scheduler.waveforms.{fn.__name__}", **k, "duration": c["dur"]}
    if c["f"] == "drag" and c["k"]["subtract_offset"] != "average":
        info = None  # not a parameter of the pulses
    if info:
        with sut("sampling a pulse"):
            a = exec_waveform_function(info["wf_func"], t, info)
            if round(c["dur"] * rate) == n:
                b = generate_waveform_data(info, rate)
            else:
                b = a
        close(a, got, "exec_waveform_function")
        close(b, got, "generate_waveform_data")
        x = c["dur"] * rate
        if abs(x - round(x)) < 1e-6:
            with sut("get_waveform"):
                g = get_waveform(info, rate)
            expect(len(g) == n, "get_waveform has %d samples for %d/%g s", len(g), n, rate)
            close(np.where(near, 0, g), np.where(near, 0, ref), "get_waveform", scale, 1e-6)
    return ok(n >= 2 and np.any(np.abs(ref) > 1e-6), [c["f"], f"rate={rate:g}"])


# ----------------------------------------------------------------------- helpers
@st.composite
def helper_case(draw):
    k = draw(st.sampled_from(["grid", "nco_phase", "nco_freq", "resize", "shift", "normalise",
                              "modulate", "mixer", "area", "rotate", "ceil", "wfdict", "unique"]))
    c = {"k": k}
    num = st.floats(-1, 1)
    arr = st.lists(st.tuples(num, num), min_size=1, max_size=24)
    if k == "grid":
        c |= {"ns": draw(st.one_of(st.integers(0, 2000), st.integers(0, 10**9))),
              "eps": draw(st.sampled_from([0, 0, 5e-4, -5e-4, 9e-4, 2e-3, 0.01, 0.25, 0.5, -0.3])),
              "grid": draw(st.sampled_from([1, 1, 4, 2])), "neg": draw(st.booleans())}
    elif k == "nco_phase":
        c["deg"] = draw(st.one_of(st.floats(-2000, 2000), st.integers(-800, 800)))
    elif k == "nco_freq":
        c["hz"] = draw(st.one_of(st.floats(-6e8, 6e8), st.sampled_from(
            [0, 5e8, -5e8, 5e8 + 1, -5e8 - 1, 0.125, 0.25, -0.25, 1e6])))
    elif k in ("resize", "shift", "normalise", "modulate", "mixer", "rotate", "unique"):
        c["w"] = draw(st.lists(st.tuples(num, num), max_size=24)) if k == "resize" else draw(arr)
        c["g"] = draw(st.integers(1, 16))
        c["s"] = draw(st.integers(0, 4000))
        c["rate"] = draw(st.sampled_from([1e9, 2.4e9, 1.8e9]))
        c["f"] = draw(st.floats(-5e8, 5e8))
        c["t0"] = draw(st.floats(0, 1e-6))
        c["ratio"] = draw(st.floats(0.5, 2))
        c["phi"] = draw(st.one_of(st.floats(-60, 60), st.just(0)))
        c["real"] = draw(st.sampled_from(["both", "both", "I", "Q", "none"]))
        c["scale"] = draw(st.sampled_from([-1, 0.5, 2, -0.1]))
    elif k == "area":
        c["pulses"] = draw(st.lists(shape(), min_size=1, max_size=3))
    elif k == "ceil":
        c |= {"a": draw(st.integers(1, 10**6)), "m": draw(st.integers(1, 1000))}
    else:
        c["ws"] = draw(st.dictionaries(st.sampled_from(["a", "b", "12", "c"]), arr, max_size=4))
    return c


def check_helper(c):
    from quantify_scheduler import math as M
    from quantify_scheduler import waveforms as W
    from quantify_scheduler.backends.qblox import helpers as H
    from quantify_scheduler.helpers import waveforms as V

    k = c["k"]
    w = np.array([complex(*x) for x in c.get("w", [])])
    if c.get("real") == "I":
        w = w.real + 0j
    elif c.get("real") == "Q":
        w = 1j * w.imag
    elif c.get("real") == "none":
        w = 0 * w
    was = w.copy()
    if k == "grid":
        ns = -c["ns"] if c["neg"] else c["ns"]
        t = (ns + c["eps"]) * 1e-9
        valid = abs(c["eps"]) < 1e-3 and ns % c["grid"] == 0
        with sut("to_grid_time", allow=(ValueError,)):
            is_ = H.is_multiple_of_grid_time(t, c["grid"])
            try:
                got = H.to_grid_time(t, c["grid"])
            except ValueError:
                got = None
        expect(got == (ns if valid else None), "to_grid_time(%r, %d) = %r", t, c["grid"], got)
        expect(is_ is valid, "is_multiple_of_grid_time(%r, %d) is %r", t, c["grid"], is_)
        return ok(c["eps"] != 0, [k])
    if k == "nco_phase":
        with sut("nco phase"):
            got = H.get_nco_phase_arguments(c["deg"])
        want = (c["deg"] % 360) * 1e9 / 360
        expect(isinstance(got, int) and 0 <= got <= 10**9 and abs(got - want) <= 0.51,
               "phase %r deg gives %r steps", c["deg"], got)
        return ok(c["deg"] != 0, [k])
    if k == "nco_freq":
        inside = -5e8 <= c["hz"] <= 5e8
        try:
            with sut("nco frequency", allow=(ValueError,)):
                got = H.get_nco_set_frequency_arguments(c["hz"])
        except ValueError:
            got = None
        expect((got is not None) == inside, "frequency %r gives %r", c["hz"], got)
        if inside:
            expect(abs(got - c["hz"] * 4) <= 0.51, "frequency %r gives %r steps", c["hz"], got)
        return ok(c["hz"] != 0, [k])
    if k == "resize":
        with sut("resizing a waveform"):
            got = V.resize_waveform(w, c["g"])
            size = V.get_waveform_size(w, c["g"]) if len(w) else c["g"]
            d = {3: w}
            V.resize_waveforms(d, c["g"])
        want = max(1, math.ceil(len(w) / c["g"])) * c["g"]
        expect(len(got) == want == size, "size %d, %d instead of %d", len(got), size, want)
        close(got, np.concatenate([was, np.zeros(want - len(w))]), "resized waveform")
        close(d[3], got, "resize_waveforms")
    elif k == "shift":
        start = c["s"] / c["rate"]
        with sut("shifting a waveform"):
            clk, got = V.shift_waveform(w, start, c["rate"], c["g"])
        expect(clk == c["s"] // c["g"], "sequencer count %r for sample %d", clk, c["s"])
        close(got, np.concatenate([np.zeros(c["s"] % c["g"]), was]), "shifted waveform")
    elif k == "normalise":
        with sut("normalising a waveform"):
            d, re, im = V.normalize_waveform_data(w)
            d2, re2, im2 = V.normalize_waveform_data(w * c["scale"])
        d = np.asarray(d, dtype=complex)
        close(d.real * re + 1j * d.imag * im, was, "normalised waveform times its amplitude")
        for part, a in ((d.real, re), (d.imag, im)):
            if abs(a) > 1e-6:
                expect(abs(part[np.argmax(np.abs(part))] - 1) < 1e-9, "maximum is not +1")
        big = abs(re) > 1e-6 or re == 0
        if big and (abs(im) > 1e-6 or im == 0) and unique_max(was):
            close(d2, d, "normalised waveform of c times the waveform")
    elif k == "modulate":
        t = np.arange(len(w)) / c["rate"]
        with sut("modulating a waveform"):
            got = V.modulate_waveform(t, w, c["f"], c["t0"])
        close(got, was * np.exp(2j * np.pi * c["f"] * (t + c["t0"])), "modulated waveform",
              tol=1e-7)
    elif k == "mixer":
        with sut("correcting mixer skewness"):
            got = V.apply_mixer_skewness_corrections(w, c["ratio"], c["phi"])
        p = np.deg2rad(c["phi"])
        re = was.real + was.imag * np.tan(p)
        im = was.imag / np.cos(p)

        def back(x, old):
            m = np.max(np.abs(x))
            return x / m * np.max(np.abs(old)) if m else 0 * x

        want = back(re, was.real) * np.sqrt(c["ratio"]) \
            + 1j * back(im, was.imag) / np.sqrt(c["ratio"])
        if 0 < np.max(np.abs(re)) < 1e-9:
            raise Discard("cancellation")
        close(got, want, "corrected waveform", 2, 1e-7)
    elif k == "rotate":
        with sut("rotating a waveform"):
            got = W.rotate_wave(w, c["phi"] * 7)
        close(got, was * np.exp(1j * np.deg2rad(c["phi"] * 7)), "rotated waveform")
    elif k == "ceil":
        with sut("closest_number_ceil"):
            got = M.closest_number_ceil(c["a"], c["m"])
        up = (c["a"] // c["m"] + 1) * c["m"]  # used for numbers that are not multiples only
        expect(got == up or (got == c["a"] and got % c["m"] == 0),
               "closest_number_ceil(%d, %d) = %r", c["a"], c["m"], got)
    elif k == "wfdict":
        ws = {n: np.array([complex(*x) for x in v]) for n, v in c["ws"].items()}
        with sut("generate_waveform_dict"):
            d = H.generate_waveform_dict(ws)
        expect(len(d) == 2 * len(ws) and sorted(v["index"] for v in d.values())
               == list(range(2 * len(ws))), "indices are not unique")
        for n, v in ws.items():
            i, q = d[f"{n}_I"], d[f"{n}_Q"]
            expect(q["index"] == i["index"] + 1, "Q does not follow I")
            close(np.array(i["data"]) + 1j * np.array(q["data"]), v, "waveform data")
    elif k == "unique":
        d, out = {}, []
        pool = [was.real, was.imag, 0.5 * was.real, was.real.copy(), was.real + 1e-6,
                np.append(was.real, 0.0)]
        with sut("adding waveforms"):
            for x in pool:
                out.append(H.add_to_wf_dict_if_unique(d, x))
        by = {v["index"]: v["data"] for v in d.values()}
        expect(len(by) == len(d), "two waveforms have one index")
        for x, i in zip(pool, out):
            close(np.array(by[i]), x, "stored waveform")
        expect(out[0] == out[3], "equal waveforms are stored twice")
    else:
        from quantify_scheduler.helpers.waveforms import area_pulses

        infos, want, mag = [], 0, 0
        for p in c["pulses"]:
            x = p["dur"] * p["rate"]
            if p["f"] == "drag" and p["k"]["subtract_offset"] != "average" \
                    or abs(x - round(x)) > 1e-6 or p["n"] != round(x):
                raise Discard("not a pulse on the grid")
            if p["rate"] != c["pulses"][0]["rate"] or p["f"] == "staircase":
                raise Discard("other sampling rate")
            infos.append({"wf_func": f"quantify_scheduler.waveforms.{PAR[p['f']]}", **params(p),
                          "duration": p["dur"]})
            r = reference(p, np.arange(p["n"]) / p["rate"])
            want += r.sum() / p["rate"]
            mag += np.abs(r).sum() / p["rate"]
        with sut("area of pulses"):
            got = area_pulses(infos, c["pulses"][0]["rate"])
        expect(abs(got - want) <= 1e-6 * mag + 1e-20, "area %r, sampled pulses give %r", got, want)
        return ok(True, [k])
    expect(np.array_equal(w, was), "a helper changed its argument")
    return ok(True, [k])


def unique_max(w):
    for p in (w.real, w.imag):
        m = np.abs(p)
        if m.max() and np.sum(m > m.max() * (1 - 1e-9)) > 1:
            return False
    return True


# ----------------------------------------------------------------------- stitched pulses
@st.composite
def stitched_case(draw):
    k = draw(st.sampled_from(["long_square", "staircase", "ramp", "ramp", "build"]))
    c = {"k": k, "amp": draw(A()), "t0": draw(st.sampled_from([0, 0, 20, 8]))}
    if k == "long_square":
        c |= {"amp": draw(CA), "dur": draw(st.one_of(st.integers(4, 60), st.integers(4, 4000)))}
    elif k == "staircase":
        n = draw(st.integers(2, 8))
        c |= {"n": n, "final": draw(A()), "dur": n * 4 * draw(st.integers(2, 60))}
    elif k == "ramp":
        part = draw(st.sampled_from([None, 100, 40]))
        c |= {"part": part, "offset": draw(st.one_of(A(), st.just(0))), "dur": draw(
            st.integers(1, 9000 if part is None else 500))}
    else:
        items, t = [], 0
        for _ in range(draw(st.integers(1, 4))):
            d = 4 * draw(st.integers(1, 20))
            if draw(st.booleans()):
                items.append(["offset", draw(A()), draw(A()), d])
            else:
                items.append(["pulse", draw(A()), draw(st.sampled_from(["SquarePulse",
                                                                         "RampPulse"])), d])
            t += d
        c |= {"items": items}
    return c


def sampled(op, n):
    """Own evaluation of an operation made of offsets and pulses, n samples of 1 ns."""
    w = np.zeros(n, dtype=complex)
    infos = op["pulse_info"]
    offs = sorted([i for i in infos if i.get("offset_path_I") is not None],
                  key=lambda i: i["t0"])
    for i in offs:
        a = round(i["t0"] * 1e9)
        w[a:] = i["offset_path_I"] + 1j * i["offset_path_Q"]
        if i["duration"] > 5e-10:
            w[a + round(i["duration"] * 1e9):] = 0
    for i in infos:
        if not i["wf_func"]:
            continue
        a, d = round(i["t0"] * 1e9), round(i["duration"] * 1e9)
        t = np.arange(d) / 1e9
        if i["wf_func"].endswith(".square"):
            y = wave.square(t, i["amp"])
        else:
            expect(i["wf_func"].endswith(".ramp"), "unexpected part %r", i["wf_func"])
            y = wave.ramp(t, i["amp"], i["duration"], i.get("offset", 0))
        w[a:a + d] += y
    return w


def check_stitched(c):
    from quantify_scheduler.backends.qblox.operations import pulse_factories as F
    from quantify_scheduler.backends.qblox.operations.stitched_pulse import (
        StitchedPulseBuilder,
        convert_to_numerical_pulse,
    )

    k, t0 = c["k"], c["t0"]
    if k == "build":
        b = StitchedPulseBuilder(port="p", clock="cl0.baseband", t0=t0 * 1e-9)
        parts = []
        with sut("building a stitched pulse"):
            for x in c["items"]:
                if x[0] == "offset":
                    b.add_voltage_offset(x[1], x[2], duration=x[3] * 1e-9)
                    parts.append(np.full(x[3], x[1] + 1j * x[2]))
                else:
                    b.add_pulse(build.make(gen.op(x[2], amp=x[1], duration=x[3] * 1e-9,
                                                  port="p")))
                    t = np.arange(x[3]) / 1e9
                    parts.append(wave.square(t, x[1]) if x[2] == "SquarePulse"
                                 else wave.ramp(t, x[1], x[3] * 1e-9))
            p = b.build()
        want = np.concatenate(parts)
        dur = len(want)
    else:
        dur = c["dur"]
        t = np.arange(dur) / 1e9
        kw = dict(port="p", clock="q0.01", t0=t0 * 1e-9)
        amp = wave.c(c["amp"])
        with sut("building a long pulse"):
            if k == "long_square":
                p = F.long_square_pulse(amp, dur * 1e-9, **kw)
                want = wave.square(t, amp)
            elif k == "staircase":
                p = F.staircase_pulse(amp, c["final"], c["n"], dur * 1e-9, **kw)
                want = wave.staircase(t, amp, c["final"], c["n"], dur * 1e-9)
            else:
                if c["part"]:
                    kw["part_duration_ns"] = c["part"]
                p = F.long_ramp_pulse(amp, dur * 1e-9, offset=c["offset"], **kw)
                want = wave.ramp(t, amp, dur * 1e-9, c["offset"])
    expect({i["port"] for i in p["pulse_info"]} == {"p"}
           and len({i["clock"] for i in p["pulse_info"]}) == 1, "ports and clocks of the parts")
    expect(round(p.duration * 1e9) == dur + t0 or t0 and round(p.duration * 1e9) == dur,
           "a stitched pulse of %d ns at %d ns has duration %r", dur, t0, p.duration)
    got = sampled(p, t0 + dur + 20)
    close(got, np.concatenate([np.zeros(t0), want, np.zeros(20)]), f"stitched pulse {k}")
    if not t0:
        with sut("converting a stitched pulse to samples"):
            q = convert_to_numerical_pulse(p)
        i = q["pulse_info"][0]
        with sut("sampling the numerical pulse"):
            from quantify_scheduler.backends.qblox.helpers import generate_waveform_data

            y = generate_waveform_data(i, 1e9)
        close(np.asarray(y, dtype=complex)[:dur], want, "stitched pulse converted to samples")
        expect(abs(i["duration"] * 1e9 - dur) < 1e-3, "converted pulse has duration %r",
               i["duration"])
    return ok(np.any(np.abs(want) > 1e-6), [k])


# ----------------------------------------------------------------------- pulse diagrams
@st.composite
def diagram_case(draw):
    rate = draw(st.sampled_from([1e9, 1e9, 2e9]))
    items, t = [], 0
    for _ in range(draw(st.integers(1, 5))):
        d = draw(st.integers(2, 60))
        port = draw(st.sampled_from(["p", "r"]))
        k = draw(st.sampled_from(["SquarePulse", "RampPulse", "DRAGPulse", "ChirpPulse",
                                  "NumericalPulse", "acq", "loop"]))
        if k == "DRAGPulse":
            d += 20
        gap = draw(st.integers(0, 20))
        a = draw(A(0.1, 1.0))
        items.append([k, port, d, gap, a, draw(st.integers(1, 3))])
    return {"items": items, "rate": rate, "mod": draw(st.sampled_from(["off", "off", "if",
                                                                       "clock"])),
            "ports": draw(st.sampled_from([None, None, ["p"]])),
            "merge": draw(st.integers(0, 3)) == 0}


def check_diagram(c):
    from quantify_scheduler import Schedule
    from quantify_scheduler.compilation import _determine_absolute_timing
    from quantify_scheduler.helpers.schedule import _extract_port_clocks_used  # noqa: F401
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.resources import ClockResource
    from quantify_scheduler.schedules._visualization.pulse_diagram import sample_schedule

    F, IF = 50e6, 20e6
    s = Schedule("d")
    s.add_resource(ClockResource("c", F))
    want = {"p": [], "r": []}
    acqs = {"p": [], "r": []}
    now = 0
    for k, port, d, gap, a, reps in c["items"]:
        now += gap if now else 0  # a schedule starts at its first operation
        loop = k == "loop"
        kk = "SquarePulse" if loop else k
        sec = d * 1e-9
        if kk == "acq":
            o = build.make(gen.op("SSBIntegrationComplex", port=port, clock="c", duration=sec))
            acqs[port].append((now, d))
        else:
            late = 5e-9 if gap % 2 else 0.0
            kw = {"SquarePulse": dict(amp=a, duration=sec, clock="c"),
                  "RampPulse": dict(amp=a, duration=sec, clock="c", offset=0.1),
                  "DRAGPulse": dict(G_amp=a, D_amp=0.3, duration=sec, clock="c", phase=30.0),
                  "ChirpPulse": dict(amp=a, duration=sec, clock="c", start_freq=1e6,
                                     end_freq=5e7),
                  "NumericalPulse": dict(samples=[a, -a, {"__c": [0.0, a]}],
                                         t_samples=[x + late for x in (0.0, sec / 2, sec)], clock="c")}[kk]
            desc = gen.op(kk, port=port, **kw)
            o = build.make(desc)
            for i in range(reps if loop else 1):
                want[port].append((now + i * d, d, desc))
        if loop:
            body = Schedule("b")
            body.add(o)
            o = LoopOperation(body, repetitions=reps)
        s.add(o, rel_time=gap * 1e-9)
        now += d * (reps if loop else 1)
    with sut("timing a schedule"):
        from vf import device as D
        from quantify_scheduler.backends.graph_compilation import SerialCompiler

        s = SerialCompiler("d").compile(s, D.config({}))
    from copy import deepcopy

    from vf.ops import deep

    before = deepcopy(s)
    with sut("sampling a schedule"):
        out = sample_schedule(s, port_list=c["ports"], modulation=c["mod"], modulation_if=IF,
                              sampling_rate=c["rate"], combine_waveforms_on_same_port=c["merge"])
        again = sample_schedule(s, port_list=c["ports"], modulation=c["mod"], modulation_if=IF,
                                sampling_rate=c["rate"],
                                combine_waveforms_on_same_port=c["merge"])
    diff = deep(before.data, s.data)
    expect(diff is None, "drawing a schedule changed it: %s", diff)
    ports = c["ports"] or ["p", "r"]
    expect(set(out) == {p for p in ports if want[p] or acqs[p]}, "ports drawn: %r", set(out))
    f = {"off": 0, "if": IF, "clock": F}[c["mod"]]
    # the extra point drawn at the end of a pulse shifts the offset subtracted from a DRAG pulse
    tol = 5e-3 if any(i[0] == "DRAGPulse" for i in c["items"]) else 1e-4
    for port, (pulses, aq) in out.items():
        expect(len(aq) == len(acqs[port]) and all(
            abs(x.t0 - a * 1e-9) < 1e-12 and abs(x.duration - d * 1e-9) < 1e-12
            for x, (a, d) in zip(aq, acqs[port])), "acquisitions drawn: %r", aq)
        if c["merge"]:
            expect(len(pulses) == (1 if want[port] else 0), "pulses are not combined")
        else:
            expect(len(pulses) == len(want[port]), "%d pulses drawn of %d", len(pulses),
                   len(want[port]))
        for x, (a, d, desc) in zip(pulses, want[port]):
            if c["merge"]:
                break
            n = round(d * c["rate"] / 1e9)
            ref = wave.of(desc, c["rate"])
            tt = a * 1e-9 + np.arange(n) / c["rate"]
            if f:
                ref = ref * np.exp(2j * np.pi * f * tt)
            y = np.interp(tt, x.time, x.signal)
            close(y, ref, f"{desc['c']} in the diagram", tol=tol)
            expect(x.time[0] > a * 1e-9 - 1e-10 and x.time[-1] < (a + d) * 1e-9 + 1e-10,
                   "pulse drawn from %r to %r", x.time[0], x.time[-1])
        if c["merge"] and pulses:
            # at the time of every sample, the sum of the pulses there
            x = pulses[0]
            at = np.concatenate([a * 1e-9 + np.arange(round(d * c["rate"] / 1e9)) / c["rate"]
                                 for a, d, _ in want[port]])
            total = np.zeros(len(at), complex)
            for a, d, desc in want[port]:
                n = round(d * c["rate"] / 1e9)
                idx = np.round((at - a * 1e-9) * c["rate"]).astype(int)
                ok_ = (idx >= 0) & (idx < n)
                ref = wave.of(desc, c["rate"])[np.clip(idx, 0, n - 1)]
                if f:
                    ref = ref * np.exp(2j * np.pi * f * at)
                total += np.where(ok_, ref, 0)
            close(np.interp(at, x.time, x.signal), total, "combined diagram", tol=tol)
        for x, y in zip(pulses, again[port][0]):
            expect(np.array_equal(x.time, y.time) and np.array_equal(x.signal, y.signal),
                   "drawing a schedule twice gives different pulses")
    return ok(len(c["items"]) >= 2, ["mod=" + c["mod"]])


SUBS = [
    Sub("shapes", shape, check_shape, quick=4000, thorough=120000,
        rule="every waveform function with random parameters, durations and sampling rates: equal "
             "to the documented formula, linear in the amplitude, the same through pulse "
             "dictionaries; non-trivial: >=2 samples, not zero"),
    Sub("helpers", helper_case, check_helper, quick=3000, thorough=80000,
        rule="grid rounding, NCO arguments, resizing, shifting, normalising, modulation, mixer "
             "correction, area, waveform dictionaries against their documentation"),
    Sub("stitched", stitched_case, check_stitched, quick=1200, thorough=30000,
        rule="long square, staircase, ramp and hand-built stitched pulses: the sum of their parts "
             "is the shape, and so are its samples"),
    Sub("diagrams", diagram_case, check_diagram, quick=400, thorough=10000,
        rule="schedules with pulses on two ports: the sampled pulses of the pulse diagram"),
]

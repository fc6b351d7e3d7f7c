"""Independent reference formulas for the documented pulse shapes (t in seconds)."""
from __future__ import annotations

import numpy as np


def grid(n, rate=1e9):
    return np.arange(n) / rate


def _rot(w, deg):
    return w * np.exp(1j * np.pi * deg / 180)


def square(t, amp):
    return np.full(len(t), amp, dtype=complex)


def ramp(t, amp, duration, offset=0.0):
    return np.array([offset + amp * x / duration for x in t], dtype=complex)


def staircase(t, start, final, num, duration):
    out = []
    for x in t:
        k = int(np.floor(x * num / duration + 1e-9))
        k = min(max(k, 0), num - 1)
        out.append(start + (final - start) * k / (num - 1))
    return np.array(out, dtype=complex)


def soft_square(t, amp):
    n = len(t)
    m = n // 2
    if n <= 1 or m == 2:  # nothing to soften with: a two-point Hann window is zero
        return np.full(n, amp, dtype=complex)
    # periodic=False (symmetric) Hann window
    w = np.array([1.0]) if m == 1 else \
        0.5 - 0.5 * np.cos(2 * np.pi * np.arange(m) / (m - 1))
    full = np.convolve(np.full(n, amp, dtype=complex), w)
    s = (len(full) - n) // 2
    return full[s:s + n] / w.sum()


def chirp(t, amp, f0, f1, duration):
    k = (f1 - f0) / duration
    return amp * np.exp(2j * np.pi * (f0 * t + k * t * t / 2))


def drag(t, g, d, duration, phase=0.0, sigma=None, nr_sigma=4, sub="average"):
    s = sigma if sigma is not None else duration / (2 * nr_sigma)
    x = t - (t[0] + duration / 2)
    e = g * np.exp(-x ** 2 / (2 * s ** 2))
    q = -d * x / s * e
    if sub == "average":
        e, q = e - (e[0] + e[-1]) / 2, q - (q[0] + q[-1]) / 2
    elif sub == "first":
        e, q = e - e[0], q - q[0]
    elif sub == "last":
        e, q = e - e[-1], q - q[-1]
    return _rot(e + 1j * q, phase)


def hermite(t, duration, amp, skew, phase, pi2=False, center=None):
    th = duration / 6.0
    a = 0.667 if pi2 else 0.956
    x = (t - t[0] - (duration / 2 if center is None else center)) / th
    i = amp * (1 - a * x ** 2) * np.exp(-x ** 2)
    q = amp * skew / np.pi * x / th * (a + 1 - a * x ** 2) * np.exp(-x ** 2)
    return _rot(i + 1j * q, phase)


def snz(n, amp_a, amp_b, scale, t_pulse, t_phi, t_int, rate=1e9):
    """Sudden net zero: +A arm, idle, -A arm, integral correction; arms' inner/last samples
    scaled by B."""
    w = np.zeros(n, dtype=complex)
    arm = int(round(t_pulse * rate * 1e3) // 2e3)
    mid = int(round(t_phi * rate * 1e3) // 1e3)
    cor = int(round(t_int * rate * 1e3) // 1e3)
    w[:arm] = amp_a
    w[arm - 1] = amp_a * amp_b
    w[arm + mid:2 * arm + mid] = -amp_a * scale
    w[arm + mid] = -amp_a * scale * amp_b
    w[2 * arm + mid:2 * arm + mid + cor] = -w.sum() / cor
    return w


def numerical(t, samples, t_samples):
    s = np.asarray(samples, dtype=complex)
    ts = np.asarray(t_samples, dtype=float)
    i = np.clip(np.searchsorted(ts, t, side="right") - 1, 0, len(ts) - 2)
    f = (t - ts[i]) / (ts[i + 1] - ts[i])
    return s[i] + f * (s[i + 1] - s[i])


def c(v):
    if isinstance(v, dict):
        return complex(*v["__c"])
    return v


def of(op, rate=1e9):
    """Reference samples of a pulse described by build's op dict."""
    cls, k = op["c"], {a: c(b) if not (isinstance(b, dict) and "__a" in b) else b
                       for a, b in op["k"].items()}
    if cls == "SuddenNetZeroPulse":
        dur = k["t_pulse"] + k["t_phi"] + k["t_integral_correction"]
    elif cls == "NumericalPulse":
        ts = k["t_samples"]["__a"] if isinstance(k["t_samples"], dict) else k["t_samples"]
        sm = k["samples"]["__a"] if isinstance(k["samples"], dict) else k["samples"]
        dur = ts[-1] - ts[0]
    else:
        dur = k["duration"]
    n = int(round(dur * rate))
    t = grid(n, rate)
    if n == 0:
        return np.zeros(0, dtype=complex)
    if cls == "SquarePulse":
        return square(t, k["amp"])
    if cls == "RampPulse":
        return ramp(t, k["amp"], dur, k.get("offset", 0))
    if cls == "StaircasePulse":
        return staircase(t, k["start_amp"], k["final_amp"], k["num_steps"], dur)
    if cls == "SoftSquarePulse":
        return soft_square(t, k["amp"])
    if cls == "ChirpPulse":
        return chirp(t, k["amp"], k["start_freq"], k["end_freq"], dur)
    if cls == "DRAGPulse":
        return drag(t, k["G_amp"], k["D_amp"], dur, k.get("phase", 0), k.get("sigma"))
    if cls == "GaussPulse":
        return drag(t, k["G_amp"], 0.0, dur, k.get("phase", 0), k.get("sigma"))
    if cls == "SkewedHermitePulse":
        return hermite(t, dur, k["amplitude"], k["skewness"], k["phase"])
    if cls == "SuddenNetZeroPulse":
        return snz(n, k["amp_A"], k["amp_B"], k["net_zero_A_scale"], k["t_pulse"], k["t_phi"],
                   k["t_integral_correction"], rate)
    if cls == "NumericalPulse":
        return numerical(t, [c(x) for x in sm], np.asarray(ts, float) - ts[0])
    raise KeyError(cls)


def dur_ns(op):
    k = op["k"]
    cls = op["c"]
    if cls == "SuddenNetZeroPulse":
        return int(round((k["t_pulse"] + k["t_phi"] + k["t_integral_correction"]) * 1e9))
    if cls == "NumericalPulse":
        ts = k["t_samples"]["__a"] if isinstance(k["t_samples"], dict) else k["t_samples"]
        return int(round((ts[-1] - ts[0]) * 1e9))
    return int(round(k.get("duration", 0) * 1e9))

"""Qblox harness: hardware templates, compile helper, reference output and emulated output."""
from __future__ import annotations

import functools
import json

import numpy as np

from vf import build, q1, wave
from vf.core import Discard, expect, impossible_gap, sut

QBLOX = "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig"


# ------------------------------------------------------------------ hardware
class Lane:
    """One port-clock on one output channel; `sig` identifies its sequencer."""

    def __init__(self, port, clock, freq, mod, typ, ch, lo=None, inp=False):
        self.port, self.clock, self.freq = port, clock, freq
        self.mod, self.typ, self.ch, self.lo, self.inp = mod, typ, ch, lo, inp

    @property
    def real(self):
        return self.ch.startswith("real")

    @property
    def baseband(self):
        return self.clock.endswith("baseband")

    @property
    def nco(self):
        if self.baseband or self.freq is None:
            return None
        return self.freq - (self.lo or 0)

    @property
    def key(self):
        return f"{self.port}-{self.clock}"


BASE = "cl0.baseband"
LANES = {
    "mw0": Lane("q0:mw", "q0.01", 50e6, 1, "QCM", "complex_output_0"),
    "mw0b": Lane("q0:mw", "q0.12", -120e6, 1, "QCM", "complex_output_0"),
    "fl0": Lane("q0:fl", BASE, None, 1, "QCM", "real_output_2"),
    "fl1": Lane("q1:fl", "q1.fl", 30e6, 1, "QCM", "real_output_3"),
    "ro0": Lane("q0:res", "q0.ro", 70e6, 2, "QRM", "complex_output_0", inp=True),
    "ro1": Lane("q0:res", "q1.ro", 110e6, 2, "QRM", "complex_output_0", inp=True),
    "rf1": Lane("q1:mw", "q1.01", 5.1e9, 3, "QCM_RF", "complex_output_0", lo=5e9),
    "rf2": Lane("q2:mw", "q2.01", 6.8e9, 3, "QCM_RF", "complex_output_1", lo=7e9),
    "rfro": Lane("q2:res", "q2.ro", 7.05e9, 4, "QRM_RF", "complex_output_0", lo=7e9, inp=True),
    "rf1b": Lane("q1:mw", "q1.12", 5.2e9, 3, "QCM_RF", "complex_output_0", lo=5e9),
    "rfm": Lane("q3:mw", "q3.01", 6.1e9, 5, "QRM_RF", "complex_output_0", lo=6e9),
    # same clock on two ports
    "fl0c": Lane("c0:fl", "q0.01", 50e6, 6, "QCM", "complex_output_0"),
    "flc": Lane("c1:fl", BASE, None, 6, "QCM", "real_output_2"),
}
DIGITAL = {
    # name: (port, module, channel, marker mask)
    "mk0": ("m:0", 1, "QCM", "digital_output_0", 0b0001),
    "mk1": ("m:1", 1, "QCM", "digital_output_1", 0b0010),
    "mk3": ("m:3", 1, "QCM", "digital_output_3", 0b1000),
    "mr2": ("r:2", 2, "QRM", "digital_output_2", 0b0100),
}


def hardware(lanes=None, options=None, graph_extra=(), module_extra=None, channel_extra=None,
             digital=(), cluster_extra=None):
    """Hardware compilation config dict for a set of lane names."""
    ls = [LANES[n] if isinstance(n, str) else n for n in (lanes or list(LANES))]
    mods, graph, mf = {}, [], {}
    for l in ls:
        m = mods.setdefault(str(l.mod), {"instrument_type": l.typ})
        m.setdefault(l.ch, {})
        e = [f"cluster0.module{l.mod}.{l.ch}", l.port]
        if e not in graph:
            graph.append(e)
        if l.lo is not None:
            mf[l.key] = {"lo_freq": l.lo}
    for n in digital:
        port, mod, typ, ch, _ = DIGITAL[n] if isinstance(n, str) else n
        m = mods.setdefault(str(mod), {"instrument_type": typ})
        m.setdefault(ch, {})
        e = [f"cluster0.module{mod}.{ch}", port]
        if e not in graph:
            graph.append(e)
    for k, v in (module_extra or {}).items():
        mods.setdefault(k, {}).update(v)
    for (k, ch), v in (channel_extra or {}).items():
        mods[k].setdefault(ch, {}).update(v)
    opts = {"modulation_frequencies": mf}
    for k, v in (options or {}).items():
        if isinstance(v, dict) and isinstance(opts.get(k), dict):
            opts[k] = {**opts[k], **v}
        else:
            opts[k] = v
    d = {"config_type": QBLOX,
         "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal",
                                               "modules": mods, **(cluster_extra or {})}},
         "hardware_options": opts,
         "connectivity": {"graph": graph + [list(g) for g in graph_extra]}}
    return d


@functools.lru_cache(maxsize=300)
def _config(hwjson, devjson):
    from quantify_scheduler.backends.graph_compilation import (
        DeviceCompilationConfig,
        SerialCompilationConfig,
    )
    from quantify_scheduler.backends.qblox_backend import QbloxHardwareCompilationConfig

    hw = QbloxHardwareCompilationConfig.model_validate(json.loads(hwjson))
    dev = json.loads(devjson)
    return SerialCompilationConfig(
        name="vf", device_compilation_config=DeviceCompilationConfig.model_validate(dev),
        hardware_compilation_config=hw)


EMPTY_DEV = {"elements": {}, "clocks": {}, "edges": {}}


def config(hw, dev=None):
    return _config(json.dumps(hw), json.dumps(dev or EMPTY_DEV))


def compile_schedule(s, hw, dev=None, keep=True):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    try:
        return SerialCompiler("vf").compile(s, config(hw, dev))
    except ValueError as e:
        if impossible_gap(e):
            raise Discard("a gap of 1 to 3 ns where no wait is possible") from None
        raise


def clocks_of(lanes):
    out = {}
    for n in lanes:
        l = LANES[n] if isinstance(n, str) else n
        if l.freq is not None:
            out[l.clock] = l.freq
    return sorted(out.items())


# ------------------------------------------------------------------ compiled programs
class Seq:
    """A sequencer of a compiled schedule."""

    def __init__(self, cluster, module, name, settings, mapping):
        self.cluster, self.module, self.name = cluster, module, name
        self.s = settings
        self.mapping = mapping
        q = settings.sequence
        self.program = q["program"]
        self.waves = {}
        for w in (q.get("waveforms") or {}).values():
            expect(w["index"] not in self.waves, "two waveforms share index %s", w["index"])
            self.waves[w["index"]] = np.asarray(w["data"], dtype=float)
        self.weights = {}
        for w in (q.get("weights") or {}).values():
            expect(w["index"] not in self.weights, "two weights share index %s", w["index"])
            self.weights[w["index"]] = np.asarray(w["data"], dtype=float)
        self.acqs = {}
        for n, w in (q.get("acquisitions") or {}).items():
            expect(w["index"] not in self.acqs, "two acquisitions share index %s", w["index"])
            self.acqs[w["index"]] = (n, w["num_bins"])
        self._tr = None
        self.parsed = None

    @property
    def where(self):
        return f"{self.module}.{self.name}"

    def run(self, triggers=(), thresholds=None):
        if self.parsed is None:
            try:
                self.parsed = q1.parse(self.program)
            except q1.EmuError as e:
                expect(False, "%s: %s", self.where, e)
        try:
            return q1.run(self.parsed, triggers, thresholds)
        except q1.Budget as e:
            raise Discard(f"program too long to emulate ({e})") from e
        except (q1.EmuError, IndexError) as e:
            expect(False, "%s: program cannot be executed: %s\n%s", self.where, e,
                   self.program[-1500:])

    @property
    def trace(self):
        if self._tr is None:
            self._tr = self.run()
        return self._tr


def sequencers(comp):
    out = []
    for cl, ci in comp.compiled_instructions.items():
        if not isinstance(ci, dict):
            continue
        for mod, mi in ci.items():
            if not isinstance(mi, dict) or "sequencers" not in mi:
                continue
            for name, st in mi["sequencers"].items():
                out.append(Seq(cl, mod, name, st, (mi.get("acq_hardware_mapping") or {}).get(name)))
    return out


def find(seqs, lane):
    """The sequencer(s) serving a lane."""
    out = []
    for q in seqs:
        if not q.module.endswith(f"module{lane.mod}"):
            continue
        if q.s.channel_name != lane.ch and q.s.channel_name_measure not in (
                lane.ch, [lane.ch]):
            continue
        f = q.s.modulation_freq if q.s.nco_en else None
        n = lane.nco
        if n in (0, None):
            if f not in (0, None):
                continue
        elif f is None or abs(f - n) > 1:
            continue
        out.append(q)
    return out


# ------------------------------------------------------------------ time base
@functools.lru_cache(maxsize=None)
def timebase():
    """(offset, overhead): schedule time t of repetition r is executed at
    offset + r * (duration + overhead) + t after the sequencers were synchronised."""
    # a different pulse duration, repetitions and module than most cases
    d = {"t": "sched", "name": "calibration", "reps": 3, "ops": [
        {"op": {"t": "op", "c": "SquarePulse",
                "k": {"amp": 0.3, "duration": 40e-9, "port": "q0:fl", "clock": BASE}}},
        {"op": {"t": "op", "c": "IdlePulse", "k": {"duration": 160e-9}}}]}
    with sut("compiling the calibration schedule"):
        c = compile_schedule(build.make_schedule(d), hardware(["fl0"]))
    tr = sequencers(c)[0].trace
    ts = [p[0] for p in tr.play]
    expect(len(ts) == 3, "calibration: %d pulses played instead of 3", len(ts))
    expect(ts[2] - ts[1] == ts[1] - ts[0] and ts[0] >= 0, "calibration: irregular repetitions %r",
           ts)
    return ts[0], ts[1] - ts[0] - 200


# ------------------------------------------------------------------ emulated envelopes
def envelope(seq, tr, n0, n1):
    """Complex envelope (path I + i path Q) at every ns in [n0, n1)."""
    n = n1 - n0
    out = np.zeros(n, dtype=complex)
    oi = getattr(seq.s, "init_offset_awg_path_I", 0.0) or 0.0
    oq = getattr(seq.s, "init_offset_awg_path_Q", 0.0) or 0.0
    ev = [(-10**12, oi, oq)] + [(t, a / 32768, b / 32768) for t, a, b in tr.offs]
    for i, (t, a, b) in enumerate(ev):
        e = ev[i + 1][0] if i + 1 < len(ev) else n1
        lo, hi = max(t, n0) - n0, min(e, n1) - n0
        if hi > lo:
            out[lo:hi] += a + 1j * b
    for i, (t, w0, w1, g0, g1) in enumerate(tr.play):
        nxt = tr.play[i + 1][0] if i + 1 < len(tr.play) else n1
        for w, g, f in ((w0, g0, 1), (w1, g1, 1j)):
            expect(w in seq.waves, "%s plays waveform %s, which is not defined", seq.where, w)
            data = seq.waves[w]
            lo, hi = max(t, n0), min(t + len(data), nxt, n1)
            if hi > lo:
                out[lo - n0:hi - n0] += f * data[lo - t:hi - t] * (g / 32768)
    return out


class Carrier:
    """Piecewise phase/frequency of an oscillator."""

    def __init__(self, f0, phase=(), freq=()):
        """phase: (t, kind, degrees) ; freq: (t, Hz)"""
        ev = {}
        for t, kind, x in phase:
            ev.setdefault(t, []).append((0 if kind == "reset" else 1, kind, x))
        for t, f in freq:
            ev.setdefault(t, []).append((2, "freq", f))
        self.seg = [(-10**12, 0.0, f0)]  # (t, phase in degrees at t, freq)
        t0, p, f = None, 0.0, f0
        for t in sorted(ev):
            if t0 is not None:
                p += 360.0 * f * (t - t0) * 1e-9
            for _, kind, x in sorted(ev[t], key=lambda e: e[0]):
                if kind == "reset":
                    p = 0.0
                elif kind == "set":
                    p = x
                elif kind == "delta":
                    p += x
                else:
                    f = x
            t0 = t
            self.seg.append((t, p, f))
        self.ts = [s[0] for s in self.seg]

    def at(self, t):
        import bisect

        i = bisect.bisect_right(self.ts, t) - 1
        t0, p, f = self.seg[i]
        if t0 < -10**11:
            return 0.0, f
        return p + 360.0 * f * (t - t0) * 1e-9, f


def carrier_of(seq, tr):
    f0 = (seq.s.modulation_freq or 0.0) if seq.s.nco_en else 0.0
    return Carrier(f0, [(t, k, x * 360e-9) for t, k, x in tr.phase],
                   [(t, x / 4) for t, x in tr.freq])


def angle_diff(a, b):
    d = (a - b) % 360.0
    return min(d, 360.0 - d)


# ------------------------------------------------------------------ reference output
PULSES = {"SquarePulse", "RampPulse", "StaircasePulse", "SoftSquarePulse", "ChirpPulse",
          "DRAGPulse", "GaussPulse", "SkewedHermitePulse", "SuddenNetZeroPulse",
          "NumericalPulse"}
ACQS = {"Trace", "SSBIntegrationComplex", "ThresholdedAcquisition", "WeightedIntegratedSeparated",
        "NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration",
        "WeightedThresholdedAcquisition", "TriggerCount", "TimetagTrace", "Timetag",
        "ThresholdedTriggerCount", "DualThresholdedTriggerCount",
        "WeightedIntegratedComplex"}


def leaf_dur(op):
    c, k = op["c"], op["k"]
    t0 = k.get("t0", 0) or 0
    if "weights_a" in k:
        return t0 + len(k["weights_a"]["__a"]) / k.get("weights_sampling_rate", 1e9)
    if c in PULSES:
        return t0 + wave.dur_ns(op) * 1e-9
    if c in ("VoltageOffset", "ShiftClockPhase", "SetClockFrequency", "ResetClockPhase",
             "Timestamp"):
        return t0
    return t0 + k["duration"]


def ns_of(t):
    return int(round(t * 1e9))


def events(d, strategy="asap", leaf=leaf_dur):
    """-> (list of (ns, op, path)) of one repetition of the top level, total duration in ns."""
    one = dict(d, reps=1)
    out = []
    for t, op, path in build.leaves(one, leaf, 0.0, strategy):
        out.append((ns_of(t + (op["k"].get("t0", 0) or 0)), op, path))
    out.sort(key=lambda e: e[0])
    return out, ns_of(build.duration(one, leaf, strategy))


def expected_env(evs, lane, dur, reps, n0, n1, tb, shift=0, off0=0j, wave_of=wave.of):
    """Reference complex envelope of a lane over [n0, n1) (emulator time)."""
    b0, ov = tb
    out = np.zeros(n1 - n0, dtype=complex)
    offs = [(-10**12, off0)]
    cache = {}
    for r in range(reps):
        base = b0 + shift + r * (dur + ov)
        for t, op, _ in evs:
            k = op["k"]
            if k.get("port") != lane.port or k.get("clock", BASE) != lane.clock:
                continue
            if op["c"] in PULSES:
                key = id(op)
                if key not in cache:
                    cache[key] = wave_of(op)
                w = cache[key]
                lo, hi = max(base + t, n0), min(base + t + len(w), n1)
                if hi > lo:
                    out[lo - n0:hi - n0] += w[lo - base - t:hi - base - t]
            elif op["c"] == "VoltageOffset":
                offs.append((base + t, k["offset_path_I"] + 1j * k["offset_path_Q"]))
    for i, (t, a) in enumerate(offs):
        e = offs[i + 1][0] if i + 1 < len(offs) else n1
        lo, hi = max(t, n0) - n0, min(e, n1) - n0
        if hi > lo:
            out[lo:hi] += a
    return out


def expected_carrier(evs, lane, dur, reps, tb, shift=0):
    b0, ov = tb
    ph, fr = [], []
    for r in range(reps):
        base = b0 + shift + r * (dur + ov)
        ph.append((base - ov, "reset", 0))
        for t, op, _ in evs:
            k = op["k"]
            if k.get("clock") != lane.clock:
                continue
            if op["c"] == "ShiftClockPhase":
                ph.append((base + t, "delta", k["phase_shift"]))
            elif op["c"] == "ResetClockPhase":
                ph.append((base + t, "reset", 0))
            elif op["c"] == "SetClockFrequency":
                f = k["clock_freq_new"]
                fr.append((base + t, lane.nco if f is None else f - (lane.lo or 0)))
    return Carrier(lane.nco or 0.0, ph, fr)


def uses(evs, lane):
    return any(op["k"].get("port") == lane.port and op["k"].get("clock", BASE) == lane.clock
               for _, op, _ in evs)

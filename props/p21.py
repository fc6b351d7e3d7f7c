"""P21: preparing and running instruments depends only on the current schedule."""
from __future__ import annotations

import copy
import functools
import itertools
import json
import logging
import math

from hypothesis import strategies as st

from props import p11, p20
from vf import acq, build
from vf import qblox as Q
from vf.core import KEEP, Discard, Sub, Violation, expect, ok, sut

ASSUMPTIONS = (
    "Dummy clusters hold real parameter values, which are read back; the uploaded sequence is read "
    "from the driver's cache.  Settings that the compiled schedule leaves open (None) are not "
    "judged, except triggers: a sequencer that acquires without a feedback label must not send "
    "triggers, and a sequencer that reads a trigger without count or inversion uses the "
    "instrument's defaults (count 1, not inverted).  Mixer corrections left to an automatic "
    "calibration are judged by whether the calibration was started.")

N = itertools.count()
SLOTS = {"QCM": (1, 6), "QRM": (2, 8), "QCM_RF": (3, 7), "QRM_RF": (4, 5), "QRC": (10, 11),
         "QTM": (9,)}
TYPES = {s: t for t, ss in SLOTS.items() for s in ss}
NSEQ = {"QCM": 6, "QRM": 6, "QCM_RF": 6, "QRM_RF": 6, "QRC": 12, "QTM": 8}


def setup():
    from qblox_instruments import Cluster, ClusterType
    from qcodes.instrument.base import Instrument

    if "CLUSTERS" in globals():
        return
    logging.disable(logging.CRITICAL)
    global CLUSTERS, FRESH, LOS
    CLUSTERS, FRESH, LOS = {}, {}, {}
    for name in ("cluster0", "cluster1"):
        CLUSTERS[name] = Cluster(name, dummy_cfg={
            s: getattr(ClusterType, "CLUSTER_" + t) for s, t in TYPES.items()})
        KEEP.add(name)
    for name in ("lo0", "lo1"):
        lo = LOS[name] = Instrument(name)
        from qcodes.instrument.channel import InstrumentChannel

        lo.add_submodule("ch1", InstrumentChannel(lo, "ch1"))
        for o, ps in ((lo, ("frequency", "power", "pow")), (lo.ch1, ("freq",))):
            for p in ps:
                o.add_parameter(p, initial_value=0.0, set_cmd=None, get_cmd=None)
        KEEP.add(name)
    for root in (*CLUSTERS.values(), *LOS.values()):
        for p in params(root):
            if p.name == "sequence":
                FRESH[id(p)] = (p, {"waveforms": {}, "weights": {}, "acquisitions": {},
                                    "program": "stop"})
            else:
                try:
                    v = p.get()
                    for alt in (1, 10.0, 6e9):  # some initial values cannot be set again
                        try:
                            p.validate(v)
                            break
                        except Exception:  # noqa: BLE001
                            v = alt
                    else:
                        p.validate(v)
                    if p.name.startswith("connect_"):
                        try:
                            p.set(v)
                        except RuntimeError:  # initially connected but not allowed
                            v = "off"
                    FRESH[id(p)] = (p, v)
                except Exception:  # noqa: BLE001, S112  not gettable
                    continue


def params(x):
    yield from x.parameters.values()
    if x.name in ("cluster0", "cluster1"):
        subs = [x.modules[s - 1] for s in TYPES]
    else:
        subs = [c for s in x.submodules.values() for c in (s if hasattr(s, "__iter__") else [s])]
    for c in subs:
        yield from params(c)


def reset(invalidate=False):
    """Back to a just started instrument (as by a reset: nothing is known in the cache)."""
    for p, v in FRESH.values():
        if p.name == "sequence":
            if p.cache.valid and p.cache() != v:
                p.set(v)
                p.cache.invalidate()
        elif p.cache.valid and p.cache() != v:
            p.set(v)
        elif not p.cache.valid and p.settable and p.get() != v:
            p.set(v)
        if invalidate:
            p.cache.invalidate()


# ---------------------------------------------------------------- programs
@st.composite
def prog(draw, kinds):
    k = draw(st.sampled_from(list(kinds)))
    if k == "acq":
        c = draw(acq.program(items=(1, 4), lanes=("mw0", "ro0", "ro1", "rfro", "rq", "tq", "tq1")))
    elif k == "cond":
        c = draw(p11.case(loops=False))
    else:
        c = draw(p20.case())
        names, seen = {}, {}
        for m, t in c["mods"].items():
            i = seen[t] = seen.get(t, -1) + 1
            names[m] = str(SLOTS[t][i])
        # sequencers with inputs only have no frequency, which a QRC refuses
        c["chans"] = [ch for ch in c["chans"]
                      if not (ch.get("inp") and c["mods"].get(ch["mod"]) == "QRC")]
        npc = sum(len(ch["pcs"]) for ch in c["chans"])
        c["order"] = [i for i in c["order"] if i < npc]
        c["opt_order"] = [i for i in c["opt_order"] if i < npc]
        c["mods"] = {names[m]: t for m, t in c["mods"].items()}
        for ch in c["chans"]:
            ch["mod"] = names[ch["mod"]]
            t = c["mods"][ch["mod"]]
            if t == "QRC":  # LO frequencies are multiples of 100 MHz
                ch["dc"] = ch.get("dc") and round(ch["dc"] / 1e8) * 1e8
                for pc in ch["pcs"]:
                    for k in {"f", "lo", "if"} & set(pc):
                        pc[k] = round(pc[k] / 1e8) * 1e8
                    if "lo" in pc and "if" in pc:
                        pc["if"] = (ch["dc"] - pc["f"] if ch["dc"] else pc["f"]) - pc["lo"]
            for pc in ch["pcs"]:  # features of other module types
                if t not in ("QCM_RF", "QRM_RF"):
                    pc.pop("mc_side", None)
                    pc.pop("mc_lo_cal", None)
                if t != "QRM":
                    pc.get("seq", {}).pop("ttl_acq_threshold", None)
    trig = None
    if draw(st.integers(0, 3)) == 0:
        trig = {"slot": draw(st.sampled_from([0, 9])), "channel": draw(st.sampled_from([1, 5])),
                "input_threshold": 0.5, "timeout": draw(st.integers(1, 4)),
                "trigger_timestamp": draw(st.integers(0, 5)),
                "sync_to_ref_clock": draw(st.booleans())}
        if trig["slot"] == 0:
            trig["channel"] = 1
        elif trig["channel"] == 1:
            trig["channel"] = 6
    return {"k": k, "c": c, "ref": draw(st.sampled_from(["internal", "internal", "external"])),
            "trig": trig, "cluster": draw(st.sampled_from(["cluster0"] * 4 + ["cluster1"]))}


def compiled(p):
    c = p["c"]
    if p["k"] == "acq":
        s = build.make_schedule(c["d"], Q.clocks_of(c["lanes"]))
        hw = acq.hw()
    elif p["k"] == "cond":
        s = build.make_schedule(c["d"], Q.clocks_of(c["lanes"]))
        hw = Q.hardware(c["lanes"])
    else:
        if c["bad"]:
            raise Discard("contradictory settings")
        hw, s, _, _ = p20.make(c)
    d = hw["hardware_description"]["cluster0"]
    d["ref"] = p["ref"]
    if p["trig"]:
        d["sync_on_external_trigger"] = p["trig"]
    hw = json.loads(json.dumps(hw).replace("cluster0", p["cluster"]))
    try:
        comp = Q.compile_schedule(s, hw)
    except Discard:
        raise
    except Exception as e:  # noqa: BLE001  refusals are judged by other properties
        raise Discard(f"refused: {str(e)[:60]}") from None
    for ci in clusters_of(comp).values():
        for m, mi in ci.items():
            if isinstance(mi, dict) and "sequencers" in mi and TYPES[slot_of(m)] == "QRC" and any(
                    (getattr(mi["settings"], f"lo{i}_freq") or 0) % 1e8 for i in range(6)):
                raise Discard("LO frequency not possible on a QRC")
    return comp


ACTS = ["prepare"] * 6 + ["run"] * 5 + ["stop"] * 2 + ["retrieve", "wait", "bad", "bad", "user",
                                                       "user", "reset", "force"]


@st.composite
def case(draw, kinds=("acq", "cond", "inst"), n=(2, 3), acts=(3, 8)):
    progs = [draw(prog(kinds)) for _ in range(draw(st.integers(*n)))]
    hist = []
    ip = st.integers(0, len(progs) - 1)
    for _ in range(draw(st.integers(*acts))):
        a = draw(st.sampled_from(ACTS))
        if a in ("prepare", "run"):
            hist.append([a, draw(ip)])
        elif a == "bad":
            hist.append([a, draw(st.sampled_from(["asm", "asm", "type", "missing", "module"])),
                         draw(ip), draw(st.integers(0, 20))])
        elif a == "user":
            hist.append([a, draw(st.integers(0, 10**6))])
        elif a == "force":
            hist.append([a, draw(st.booleans())])
        else:
            hist.append([a])
    last = draw(ip)
    if len(progs) > 1 and draw(st.integers(0, 3)):
        hist.append([draw(st.sampled_from(["prepare", "run"])), draw(ip.filter(
            lambda i: i != last))])
        if draw(st.integers(0, 3)) == 0:
            hist.append(["bad", "asm", draw(ip), draw(st.integers(0, 20))])
    hist.append(["run", last])
    return {"progs": progs, "hist": hist, "order": draw(st.permutations([0, 1, 2]))}


# ---------------------------------------------------------------- model
def clusters_of(comp):
    return {k: v for k, v in comp.compiled_instructions.items() if k in CLUSTERS}


def slot_of(name):
    return int(name.rsplit("module", 1)[1])


def used(comp):
    """{(cluster, slot, sequencer)} of a compiled schedule."""
    return {(cl, slot_of(m), int(s[3:])) for cl, ci in clusters_of(comp).items()
            for m, mi in ci.items() if isinstance(mi, dict) and "sequencers" in mi
            for s in mi["sequencers"]}


def has_acq(s):
    return bool((s.sequence or {}).get("acquisitions"))


def expected(comp):
    """{(cluster, slot, "" | "seqN" | "ioN", parameter): value}"""
    out = {}
    us = used(comp)
    for cl, ci in clusters_of(comp).items():
        out[cl, 0, "", "reference_source"] = ci["settings"].reference_source
        for slot, t in TYPES.items():
            for i in range(NSEQ[t]):
                out[cl, slot, f"seq{i}", "sync_en"] = (cl, slot, i) in us
        for m, mi in ci.items():
            if not isinstance(mi, dict) or "sequencers" not in mi:
                continue
            slot = slot_of(m)
            t = TYPES[slot]
            for name, s in mi["sequencers"].items():
                i = int(name[3:])
                put = functools.partial(_put, out, cl, slot, f"seq{i}")
                put("sequence", s.sequence)
                for addr, r in s.thresholded_acq_trigger_read_settings.items():
                    put(f"trigger{addr}_threshold_invert",
                        bool(r.thresholded_acq_trigger_invert or False))
                    n = r.thresholded_acq_trigger_count
                    put(f"trigger{addr}_count_threshold", 1 if n is None else n)
                if t == "QTM":
                    qtm(out, cl, slot, i, s)
                else:
                    analog(put, t, s)
            module(functools.partial(_put, out, cl, slot, ""), t, mi, comp)
        tr = ci["settings"].sync_on_external_trigger
        if tr is not None and tr.slot:
            # set when the run starts
            pass
    return out


def _put(out, cl, slot, sub, k, v):
    out[cl, slot, sub, k] = v


def analog(put, t, s):
    real = "real" in s.channel_name
    digital = "digital" in s.channel_name
    outs, ins = tuple(s.connected_output_indices), tuple(s.connected_input_indices)
    if t != "QRC":
        put("mod_en_awg", bool(s.nco_en))
    if s.nco_en:
        put("nco_freq", s.modulation_freq)
    for i, q in ((0, "I"), (1, "Q")):
        put(f"offset_awg_path{i}", getattr(s, f"init_offset_awg_path_{q}"))
        put(f"gain_awg_path{i}", getattr(s, f"init_gain_awg_path_{q}"))
    if t in p20.RF:
        put("marker_ovr_en", False)
        for i in range({"QCM_RF": 2, "QRM_RF": 1, "QRC": 6}[t]):
            on = outs == (2 * i, 2 * i + 1) and not digital
            put(f"connect_out{i}", "IQ" if on else "off")
    else:
        for i in range({"QCM": 4, "QRM": 2}[t]):
            put(f"connect_out{i}", ("I" if real or i % 2 == 0 else "Q")
                if i in outs and not digital else "off")
    if t == "QRM":
        put("connect_acq_I", "in0" if 0 in ins else "off")
        put("connect_acq_Q", "in1" if 1 in ins else "off")
    elif t == "QRM_RF":
        put("connect_acq", "in0" if ins == (0, 1) else "off")
    elif t == "QRC":
        put("connect_acq", {(0, 1): "in0", (2, 3): "in1"}.get(ins, "off"))
    if s.auto_sideband_cal == "off":
        for a, b in (("mixer_corr_phase_offset_degree",) * 2, ("mixer_corr_gain_ratio",) * 2):
            if getattr(s, a) is not None:
                put(b, getattr(s, a))
    if t in ("QRM", "QRM_RF", "QRC") and has_acq(s):
        if t != "QRC":
            put("demod_en_acq", bool(s.nco_en))
        for k in ("integration_length_acq", "ttl_acq_auto_bin_incr_en", "ttl_acq_threshold",
                  "ttl_acq_input_select", "thresholded_acq_rotation", "thresholded_acq_threshold"):
            if getattr(s, k) is not None:
                put(k, getattr(s, k))
        en = bool(s.thresholded_acq_trigger_write_en)
        put("thresholded_acq_trigger_en", en)
        if en:
            put("thresholded_acq_trigger_address", s.thresholded_acq_trigger_write_address)
            put("thresholded_acq_trigger_invert", bool(s.thresholded_acq_trigger_write_invert))


def qtm(out, cl, slot, i, s):
    put = functools.partial(_put, out, cl, slot, f"io{i}")
    for j in s.connected_input_indices:
        _put(out, cl, slot, f"io{j}", "mode", "input")
    for j in s.connected_output_indices:
        _put(out, cl, slot, f"io{j}", "mode", "output")
    if s.analog_threshold is not None:
        put("analog_threshold", s.analog_threshold)
    put("forward_trigger_en", False)
    put("binned_acq_on_invalid_time_delta", "record_0")
    sc = str(s.scope_trace_type).lower() if s.scope_trace_type is not None else ""
    if sc:
        put("scope_trigger_mode", "sequencer")
        put("scope_mode", "timetags-windowed" if "timetag" in sc else "scope")
    if s.time_source is not None:
        put("binned_acq_time_source", str(s.time_source))
    if s.time_ref is not None:
        r = str(s.time_ref)
        put("binned_acq_time_ref", {"timestamp": "sequencer",
                                    "port": f"first{s.time_ref_channel}"}.get(r, r))
    if not s.connected_input_indices:
        return
    en = bool(s.thresholded_acq_trigger_write_en)
    put("thresholded_acq_trigger_en", en)
    if en:
        for k in ("low", "mid", "high", "invalid"):
            put(f"thresholded_acq_trigger_address_{k}",
                getattr(s, f"thresholded_acq_trigger_write_address_{k}"))


def module(put, t, mi, comp):
    s = mi.get("settings")
    if s is None:
        return
    for i, q in itertools.product(range(2), "IQ"):
        v = getattr(s, f"offset_ch{i}_path_{q}", None)
        j = "IQ".index(q)
        if v is not None and t != "QRC" and i < {"QCM": 2, "QRM": 1, "QCM_RF": 2, "QRM_RF": 1}[t]:
            put(f"out{i}_offset_path{j}" if t in p20.RF else f"out{2 * i + j}_offset", v)
    if t == "QRM":
        for i in range(2):
            if getattr(s, f"in{i}_gain") is not None:
                put(f"in{i}_gain", getattr(s, f"in{i}_gain"))
    if t in ("QCM", "QRM"):
        for o in range(4 if t == "QCM" else 2):
            f = s.distortion_corrections[o]
            for i in range(4):
                e = getattr(f, f"exp{i}")
                put(f"out{o}_exp{i}_config", e.config.value)
                if t == "QCM":
                    put(f"marker{o}_exp{i}_config", e.marker_delay.value)
                    if e.coeffs is not None:
                        put(f"out{o}_exp{i}_time_constant", e.coeffs[0])
                        put(f"out{o}_exp{i}_amplitude", e.coeffs[1])
            put(f"out{o}_fir_config", f.fir.config.value)
            if t == "QCM":
                put(f"marker{o}_fir_config", f.fir.marker_delay.value)
                if f.fir.coeffs is not None:
                    put(f"out{o}_fir_coeffs", f.fir.coeffs)
    if t in p20.RF:
        nout = {"QCM_RF": 2, "QRM_RF": 1, "QRC": 6}[t]
        for i in range(nout):
            lo = {"QCM_RF": f"out{i}_lo_freq", "QRM_RF": "out0_in0_lo_freq",
                  "QRC": f"out{i}_in{i}_lo_freq" if i < 2 else f"out{i}_lo_freq"}[t]
            for k, name in ((f"lo{i}_freq", lo), (f"out{i}_att", f"out{i}_att")):
                if getattr(s, k) is not None:
                    put(name, getattr(s, k))
        for i in range({"QCM_RF": 0, "QRM_RF": 1, "QRC": 2}[t]):
            if getattr(s, f"in{i}_att") is not None:
                put(f"in{i}_att", getattr(s, f"in{i}_att"))
    if t in ("QRM", "QRM_RF"):
        for i in range(2):
            put(f"scope_acq_trigger_mode_path{i}", "sequencer")
            put(f"scope_acq_avg_mode_en_path{i}", True)
    traces = {int(seq[3:]) for seq, chs in (mi.get("acq_hardware_mapping") or {}).items()
              for ch in chs if data_of(comp)[ch].protocol == "Trace"}
    if traces and t != "QTM":
        expect(len(traces) == 1, "traces on several sequencers of one module: %s", traces)
        put("scope_acq_sequencer_select", traces.pop())


def data_of(comp):
    return {ch: d for ci in clusters_of(comp).values()
            for ch, d in (ci.get("acq_channels_data") or {}).items()}


TOL = {"mixer_corr_phase_offset_degree": 0.02, "mixer_corr_gain_ratio": 1e-3, "nco_freq": 0.5,
       "thresholded_acq_rotation": 1e-3, "analog_threshold": 1e-2}


def same(name, a, b):
    if isinstance(b, bool) or isinstance(a, bool):
        return bool(a) == bool(b)
    if isinstance(b, str):
        return str(a) == str(b)
    if isinstance(b, (int, float)):
        return abs(a - b) <= TOL.get(name, 2e-4 + 1e-6 * abs(b))
    if name.endswith("fir_coeffs"):
        return len(a) == len(b) and all(abs(x - y) <= 1e-3 for x, y in zip(a, b))
    return a == b


def where(key):
    cl, slot, sub, _ = key
    o = CLUSTERS[cl]
    if slot:
        o = o.modules[slot - 1]
    if sub.startswith("seq"):
        o = o.sequencers[int(sub[3:])]
    elif sub.startswith("io"):
        o = o.io_channels[int(sub[2:])]
    return o


def compare(comp, hist):
    want = expected(comp)
    for key, v in want.items():
        p = where(key).parameters[key[3]]
        # the dummy does not hold the reference source
        got = p.cache() if key[3] in ("sequence", "reference_source") else p.get()
        if key[3] == "sequence":
            expect(got == v, "%s.module%s.%s does not hold the compiled program after %s",
                   *key[:3], hist)
        else:
            expect(same(key[3], got, v), "%s.module%s.%s %s is %s instead of %s after %s",
                   *key, got, v, hist)
    for k, v in (comp.compiled_instructions.get("generic") or {}).items():
        name, par = k.split(".", 1)
        o = LOS[name]
        for x in par.split(".")[:-1]:
            o = getattr(o, x)
        got = o.parameters[par.split(".")[-1]].get()
        expect(got == v, "%s is %s instead of %s after %s", k, got, v, hist)
    return len(want)


# ---------------------------------------------------------------- recorded calls
class Recorder:
    """Armed, running and cleared sequencers, following the calls made on the drivers."""

    def __init__(self):
        self.armed, self.running = set(), set()
        self.clean, self.log, self.undo = set(), [], []
        for cl, c in CLUSTERS.items():
            for name in ("arm_sequencer", "start_sequencer", "stop_sequencer"):
                self.patch(c, name, functools.partial(self.call, name, cl))
            self.patch(c, "delete_acquisition_data", functools.partial(self.delete, cl))
            self.patch(c.time, "sync_ext_trigger", functools.partial(self.sync, cl))
            for slot, t in TYPES.items():
                m = c.modules[slot - 1]
                for name in ("arm_sequencer", "start_sequencer", "stop_sequencer"):
                    self.patch(m, name, functools.partial(self.call, name, cl, slot))
                self.patch(m, "delete_acquisition_data", functools.partial(self.delete, cl, slot))
                for i in range(NSEQ[t]):
                    for name in ("sideband_cal",):
                        if hasattr(m.sequencers[i], name):
                            self.patch(m.sequencers[i], name, functools.partial(
                                self.cal, (cl, slot, f"seq{i}")))
                for name in ("out0_lo_cal", "out1_lo_cal", "out0_in0_lo_cal"):
                    if hasattr(m, name):
                        self.patch(m, name, functools.partial(self.cal, (cl, slot, name)))

    def patch(self, o, name, f):
        self.undo.append((o, name, o.__dict__.get(name, self)))
        o.__dict__[name] = f

    def restore(self):
        for o, name, old in reversed(self.undo):
            if old is self:
                del o.__dict__[name]
            else:
                o.__dict__[name] = old

    def sel(self, cl, slot, sequencer):
        return {(cl, s, i) for s, t in TYPES.items() for i in range(NSEQ[t])
                if slot in (None, s) and sequencer in (None, i)}

    def call(self, name, cl, slot=None, sequencer=None):
        q = self.sel(cl, slot, sequencer)
        self.log.append((name, cl, slot, sequencer))
        if name == "arm_sequencer":
            self.armed |= q
        elif name == "start_sequencer":
            self.running |= self.armed & q
            self.armed -= q
        else:
            self.armed -= q
            self.running -= q

    def delete(self, cl, slot=None, sequencer=None, name="", all=False):  # noqa: A002
        self.log.append(("delete", cl, slot, sequencer))
        if all:
            self.clean |= self.sel(cl, slot, sequencer)

    def sync(self, cl, **kw):
        self.log.append(("sync", cl, kw))

    def cal(self, key, *a, **kw):
        self.log.append(("cal", key))


def calibrations(comp):
    """Calibrations to be started, judged from the values before preparing."""
    out = set()
    for cl, ci in clusters_of(comp).items():
        for m, mi in ci.items():
            if not isinstance(mi, dict) or "sequencers" not in mi:
                continue
            slot = slot_of(m)
            t = TYPES[slot]
            if t not in p20.RF or t == "QRC":
                continue
            changed = set()
            for name, s in mi["sequencers"].items():
                p = where((cl, slot, name, "")).parameters["nco_freq"]
                new = s.nco_en and not (p.cache.valid and p.cache() == s.modulation_freq)
                if new:
                    changed.add(name)
                    if s.auto_sideband_cal == "on_interm_freq_change":
                        out.add((cl, slot, name))
            g = mi.get("settings")
            for i in range(2 if t == "QCM_RF" else 1):
                mode = str(getattr(g, f"out{i}_lo_freq_cal_type_default").value)
                lo = getattr(g, f"lo{i}_freq")
                par = f"out{i}_lo_freq" if t == "QCM_RF" else "out0_in0_lo_freq"
                p = CLUSTERS[cl].modules[slot - 1].parameters[par]
                lc = lo is not None and not (p.cache.valid and p.cache() == lo)
                nc = any(tuple(mi["sequencers"][n].connected_output_indices) == (2 * i, 2 * i + 1)
                         for n in changed)
                if (mode == "on_lo_freq_change" and lc) or (
                        mode == "on_lo_interm_freq_change" and (lc or nc)):
                    out.add((cl, slot, f"out{i}_lo_cal" if t == "QCM_RF" else "out0_in0_lo_cal"))
    return out


USER = [("sync_en", True), ("sync_en", True), ("nco_freq", 1e6), ("gain_awg_path0", 0.3),
        ("offset_awg_path1", 0.2), ("mod_en_awg", True), ("thresholded_acq_trigger_en", True),
        ("integration_length_acq", 2000), ("thresholded_acq_rotation", 77.0),
        ("marker_ovr_en", True), ("connect_out0", "off"), ("trigger1_count_threshold", 9),
        ("trigger2_threshold_invert", True), ("thresholded_acq_trigger_invert", True)]


def user(n, rec):
    slots = sorted(TYPES)
    n, a = divmod(n, len(USER) + 2)
    n, b = divmod(n, len(slots))
    cl = "cluster0"
    slot = slots[b]
    i = n % 3
    if a >= len(USER):
        rec.call("arm_sequencer", cl, slot, i)
        return
    k, v = USER[a]
    q = CLUSTERS[cl].modules[slot - 1].sequencers[i]
    if k in q.parameters:
        q.parameters[k].set(v)


def broken(kind, comp, n):
    """A schedule whose preparation fails part-way."""
    if kind == "type":
        return "not a schedule"
    bad = copy.deepcopy(comp)
    ci = bad.compiled_instructions
    if kind == "missing":
        ci["no_such_instrument"] = {}
        return bad
    cl = sorted(clusters_of(bad))[0]
    if kind == "module":
        mods = [m for m in ci[cl] if "module" in m]
        ci[cl][f"{cl}_module20"] = ci[cl][mods[0]]
        return bad
    seqs = [(m, s) for m, mi in ci[cl].items() if isinstance(mi, dict) and "sequencers" in mi
            for s in mi["sequencers"]]
    m, s = seqs[n % len(seqs)]
    st_ = ci[cl][m]["sequencers"][s]
    st_.sequence = {**st_.sequence, "program": st_.sequence["program"] + "\n  no such thing\n"}
    return bad


def check(case):  # noqa: PLR0912, PLR0915
    from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
    from quantify_scheduler.instrument_coordinator.components.qblox import ClusterComponent

    setup()
    comps = []
    for p in case["progs"]:
        try:
            comps.append(compiled(p))
        except Discard:
            comps.append(None)
    if all(c is None for c in comps):
        raise Discard("no program compiles")
    reset()
    n = next(N)
    ic = InstrumentCoordinator(f"ic21_{n}")
    parts = [ClusterComponent(c) for c in CLUSTERS.values()]
    for i in case["order"]:
        if i < 2:
            ic.add_component(parts[i])
    rec = Recorder()
    hist, seen, tried, compared, started = [], set(), False, 0, 0
    try:
        for a in case["hist"]:
            hist.append(tuple(a))
            tried = tried or a[0] in ("prepare", "run", "bad")
            if a[0] in ("prepare", "run"):
                comp = comps[a[1]]
                if comp is None:
                    continue
                rec.log.clear()
                cal = calibrations(comp)
                with sut(f"preparing after {hist[:-1]}"):
                    ic.prepare(comp)
                got = [k[1] for k in rec.log if k[0] == "cal"]
                expect(sorted(got) == sorted(cal), "calibrations started: %s instead of %s after "
                       "%s", sorted(got), sorted(cal), hist)
                compared += compare(comp, hist)
                seen.add(a[1])
                if a[0] == "prepare":
                    continue
                rec.clean.clear()
                rec.running -= {q for q in rec.running if q[0] in clusters_of(comp)}
                rec.log.clear()
                other = {q for q in rec.running if q[0] not in clusters_of(comp)}
                with sut(f"starting after {hist[:-1]}"):
                    ic.start()
                run_check(comp, rec, other, hist)
                started += 1
            elif a[0] == "stop":
                with sut("stopping"):
                    ic.stop()
                expect(not rec.running, "still running after stop: %s", sorted(rec.running))
                expect(not rec.armed, "still armed after stop: %s", sorted(rec.armed))
                for cl in CLUSTERS:
                    for slot, t in TYPES.items():
                        for i in range(NSEQ[t]):
                            expect(not CLUSTERS[cl].modules[slot - 1].sequencers[i].sync_en(),
                                   "%s module %s sequencer %s waits for others after stop", cl,
                                   slot, i)
            elif a[0] == "retrieve":
                if not tried:
                    with sut("retrieving before anything was prepared", allow=(ValueError,)):
                        ic.retrieve_acquisition()
            elif a[0] == "wait":
                with sut("waiting"):
                    ic.wait_done(1)
            elif a[0] == "bad":
                comp = comps[a[2]]
                if comp is None:
                    continue
                try:
                    ic.prepare(broken(a[1], comp, a[3]))
                except Exception:  # noqa: BLE001
                    continue
                expect(False, "preparing a broken schedule (%s) was accepted", a[1])
            elif a[0] == "user":
                user(a[1], rec)
            elif a[0] == "reset":
                reset(invalidate=True)
            elif a[0] == "force":
                for p in parts:
                    p.force_set_parameters(a[1])
                    for m in p._cluster_modules.values():
                        m.force_set_parameters(a[1])
    finally:
        rec.restore()
        for o in (*parts, ic, *[m for p in parts for m in p._cluster_modules.values()]):
            try:
                o.close()
            except Exception:  # noqa: BLE001, S110
                pass
        close_generic()
    kinds = {case["progs"][i]["k"] for i in seen}
    return ok(len(seen) > 1 and started > 0, [f"programs={len(seen)}", *sorted(kinds),
              *sorted({a[0] for a in case["hist"]})])


def close_generic():
    from qcodes.instrument.base import Instrument

    try:
        Instrument.find_instrument("ic_generic").close()
    except KeyError:
        pass


def run_check(comp, rec, other, hist):
    want = used(comp)
    expect(rec.running == want | other, "running: %s instead of %s after %s",
           sorted(rec.running), sorted(want | other), hist)
    first = {}
    for i, k in enumerate(rec.log):
        if k[0] == "start_sequencer":
            first.setdefault(k[1], i)
    for cl, ci in clusters_of(comp).items():
        for m, mi in ci.items():
            if not isinstance(mi, dict) or "sequencers" not in mi:
                continue
            for s, st_ in mi["sequencers"].items():
                if has_acq(st_):
                    q = (cl, slot_of(m), int(s[3:]))
                    expect(q in rec.clean, "%s starts with the data of an earlier run after %s", q,
                           hist)
        tr = ci["settings"].sync_on_external_trigger
        syncs = [(i, k[2]) for i, k in enumerate(rec.log) if k[0] == "sync" and k[1] == cl]
        expect(len(syncs) == (tr is not None), "%s external synchronisations after %s", len(syncs),
               hist)
        if tr is not None:
            i, kw = syncs[0]
            expect(i < first[cl], "started before waiting for the external trigger")
            for k in ("slot", "channel", "trigger_timestamp", "timeout"):
                expect(kw.get(k) == getattr(tr, k), "external trigger: %s=%s instead of %s", k,
                       kw.get(k), getattr(tr, k))
            expect(kw["sync_ref"].name == ("ON" if tr.sync_to_ref_clock else "OFF"),
                   "external trigger: sync_ref=%s", kw.get("sync_ref"))
            if tr.slot:
                io = CLUSTERS[cl].modules[tr.slot - 1].io_channels[tr.channel - 1]
                expect(io.mode() == "input" and abs(io.analog_threshold() - 0.5) < 1e-2,
                       "external trigger input: mode %s, threshold %s", io.mode(),
                       io.analog_threshold())
    idle = [k for k in rec.log if k[1] in CLUSTERS and k[1] not in clusters_of(comp)]
    expect(not idle, "calls on a cluster that is not part of the schedule: %s", idle)


RULE = "at least two different programs were prepared and one was run"
# ---------------------------------------------------------------- coordinator
STUBS = ("sa", "sb", "sc", "sd")


def coordinator(c):
    """Calls reach exactly the components that the current schedule uses, in the order in which
    they were added, and the retrieved datasets are merged unchanged."""
    import numpy as np
    import xarray
    from qcodes.instrument.base import InstrumentBase

    from quantify_scheduler import Schedule
    from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
    from quantify_scheduler.instrument_coordinator.components import base
    from quantify_scheduler.schedules.schedule import CompiledSchedule

    log = []
    state = {n: {"running": False, "data": None, "fail": None} for n in STUBS}

    class Stub(base.InstrumentCoordinatorComponentBase):
        def __new__(cls, instrument):
            return super().__new__(cls, instrument)

        def _do(self, what, *args):
            n = self.name[3:].split("_")[0]
            log.append((what, n, *args))
            f = state[n]["fail"]
            if f and f[0] == what:
                raise {"attr": AttributeError, "run": RuntimeError}[f[1]](f"{n} cannot {what}")

        @property
        def is_running(self):
            return state[self.name[3:].split("_")[0]]["running"]

        def start(self):
            self._do("start")

        def stop(self):
            self._do("stop")

        def prepare(self, program):
            self._do("prepare", program)

        def retrieve_acquisition(self):
            self._do("retrieve")
            d = state[self.name[3:].split("_")[0]]["data"]
            if d is None:
                return None
            return xarray.Dataset({ch: ((f"acq_index_{ch}",), np.array(v),
                                        {"acq_protocol": "x"}) for ch, v in d.items()})

        def wait_done(self, timeout_sec=10):
            self._do("wait", timeout_sec)

        def get_hardware_log(self, compiled_schedule):
            return None

    k = next(N)
    ic = InstrumentCoordinator(f"coord{k}", add_default_generic_icc=False)
    stubs = {n: Stub(InstrumentBase(f"{n}_{k}")) for n in STUBS}
    added, sched, timeout = [], None, 60
    known, done = False, 0
    try:
        for step, a in enumerate(c["acts"]):
            what = f"step {step} {a}"
            log.clear()
            err = None
            failing = {n: state[n]["fail"] for n in STUBS}

            def first(verb, names, allow=()):
                """Calls made until one of them fails."""
                out = []
                for n in names:
                    out.append(n)
                    f = failing[n]
                    if f and f[0] == verb and f[1] not in allow:
                        return out, {"attr": AttributeError, "run": RuntimeError}[f[1]]
                return out, None

            def call(f, *args, **kw):
                try:
                    return f(*args, **kw), None
                except Exception as e:  # noqa: BLE001
                    return None, e

            if a[0] == "add":
                _, err = call(ic.add_component, stubs[a[1]])
                expect((err is None) == (a[1] not in added), "%s: %r", what, err)
                if err is None:
                    added.append(a[1])
                else:
                    expect(isinstance(err, ValueError), "%s: %r", what, err)
            elif a[0] == "bad add":
                _, err = call(ic.add_component, InstrumentBase(f"x{k}_{step}"))
                expect(isinstance(err, TypeError), "%s: %r", what, err)
            elif a[0] == "remove":
                _, err = call(ic.remove_component, f"ic_{a[1]}_{k}")
                expect((err is None) == (a[1] in added), "%s: %r", what, err)
                if err is None:
                    added.remove(a[1])
            elif a[0] == "state":
                state[a[1]].update(a[2])
            elif a[0] == "timeout":
                timeout = a[1]
                ic.timeout(timeout)
            elif a[0] == "prepare":
                cs = CompiledSchedule(Schedule("s"))
                cs["compiled_instructions"] = {f"{n}_{k}": {"args": [step, n]} for n in a[1]}
                _, err = call(ic.prepare, cs)
                todo = [n for n in a[1]]
                if all(n in added for n in todo):
                    want, e = first("prepare", todo)
                    expect(log == [("prepare", n, {"args": [step, n]}) for n in want],
                           "%s: calls %r", what, log)
                    expect((err is None) == (e is None) and (e is None or isinstance(err, e)),
                           "%s: %r", what, err)
                else:
                    expect(err is not None, "%s: accepted, components are %r", what, added)
                    expect(isinstance(err, (KeyError, RuntimeError, AttributeError)), "%s: %r",
                           what, err)
                if err is None:
                    sched, known = a[1], True
                    expect(ic.last_schedule is cs, "%s: last_schedule", what)
                else:
                    sched, known = None, False
            elif a[0] == "bad prepare":
                _, err = call(ic.prepare, {"compiled_instructions": {}} if a[1] else Schedule("s"))
                expect(isinstance(err, (AttributeError, TypeError) if a[1] else TypeError) and not log,
                       "%s: %r %r", what, err, log)
                sched, known = None, False
            elif a[0] == "start":
                if not known and sched is None and step and any(
                        x[0] in ("prepare", "bad prepare") for x in c["acts"][:step]):
                    continue  # after a failure to prepare
                _, err = call(ic.start)
                if sched is None:
                    expect(isinstance(err, ValueError) and not log, "%s: %r %r", what, err, log)
                    continue
                want, e = first("start", [n for n in added if n in sched])
                expect(log == [("start", n) for n in want] and (err is None) == (e is None),
                       "%s: calls %r (%r), schedule uses %r, added %r", what, log, err, sched, added)
                done += 1
            elif a[0] == "stop":
                _, err = call(ic.stop, allow_failure=a[1])
                want, e = first("stop", added, ("attr",) if a[1] else ())
                expect(log == [("stop", n) for n in want] and (err is None) == (e is None),
                       "%s: calls %r (%r), added %r", what, log, err, added)
                done += 1
            elif a[0] == "wait":
                _, err = call(ic.wait_done, a[1])
                want, e = first("wait", added)
                expect(log == [("wait", n, a[1]) for n in want] and (err is None) == (e is None),
                       "%s: calls %r (%r), added %r", what, log, err, added)
            elif a[0] == "running":
                expect(ic.is_running == any(state[n]["running"] for n in added), "%s: %r, %r",
                       what, ic.is_running, state)
            else:
                if not known and sched is None and any(
                        x[0] in ("prepare", "bad prepare") for x in c["acts"][:step]):
                    continue
                ds, err = call(ic.retrieve_acquisition)
                if sched is None:
                    expect(isinstance(err, ValueError) and not log, "%s: %r %r", what, err, log)
                    continue
                waits, e = first("wait", added)
                calls = [("wait", n, timeout) for n in waits]
                data, clash = {}, False
                if e is None:
                    if not all(n in added for n in sched):
                        expect(err is not None, "%s: a component was removed", what)
                        continue
                    for n in sched:
                        calls.append(("retrieve", n))
                        if failing[n] and failing[n][0] == "retrieve":
                            e = RuntimeError
                            break
                        d = state[n]["data"] or {}
                        if set(d) & set(data):
                            clash = True
                            break
                        data.update(d)
                expect(log == calls, "%s: calls %r, expected %r", what, log, calls)
                expect((err is None) == (e is None and not clash), "%s: %r (acquisition channels "
                       "clash: %s)", what, err, clash)
                if err is None:
                    got = {ch: ds[ch].values.tolist() for ch in ds.data_vars}
                    expect(got == data and all(ds[ch].attrs.get("acq_protocol") == "x"
                                               for ch in data), "%s: %r, expected %r", what, got,
                           data)
                    done += 1
    finally:
        for o in (*stubs.values(), ic):
            try:
                o.close()
            except Exception:  # noqa: BLE001, S110
                pass
    return ok(done >= 2, [f"components={len(added)}"])


@st.composite
def calls(draw):
    name = st.sampled_from(STUBS)
    acts = [["add", n] for n in draw(st.permutations(STUBS))[: draw(st.integers(1, 4))]]
    acts.append(["prepare", draw(st.lists(name, min_size=1, max_size=4, unique=True))])
    for _ in range(draw(st.integers(3, 14))):
        if draw(st.integers(0, 4)) == 0:  # a call during which one of the components fails
            n, what = draw(name), draw(st.sampled_from(["start", "stop", "stop", "wait",
                                                        "retrieve"]))
            acts.append(["state", n, {"fail": [what, draw(st.sampled_from(["attr", "attr",
                                                                           "run"]))]}])
            acts.append([what, *{"stop": [draw(st.sampled_from([True, True, False]))],
                                 "wait": [3]}.get(what, [])])
            acts.append(["state", n, {"fail": None}])
            continue
        acts.append(draw(st.one_of(
            st.tuples(st.just("add"), name), st.just(("bad add",)),
            st.tuples(st.just("remove"), name),
            st.tuples(st.just("state"), name, st.fixed_dictionaries({}, optional={
                "running": st.booleans(),
                "data": st.none() | st.dictionaries(st.integers(0, 6).map(str),
                                                    st.lists(st.integers(0, 9), min_size=1,
                                                             max_size=3), max_size=2),
                "fail": st.none() | st.tuples(st.sampled_from(["start", "stop", "prepare", "wait",
                                                               "retrieve"]),
                                              st.sampled_from(["attr", "run"]))})),
            st.tuples(st.just("timeout"), st.integers(1, 100)),
            st.tuples(st.just("prepare"), st.lists(name, min_size=0, max_size=4, unique=True)),
            st.tuples(st.just("prepare"), st.lists(name, min_size=1, max_size=4, unique=True)),
            st.tuples(st.just("bad prepare"), st.booleans()),
            st.just(("start",)), st.tuples(st.just("stop"), st.booleans()),
            st.tuples(st.just("wait"), st.integers(1, 20)), st.just(("running",)),
            st.just(("retrieve",)), st.just(("retrieve",)))))
    return json.loads(json.dumps({"acts": acts}))


SUBS = [
    Sub("histories", lambda: case(), check, quick=200, thorough=20000, rule=RULE),
    Sub("feedback", lambda: case(kinds=("acq", "cond", "cond", "cond"), acts=(0, 3)), check,
        quick=200, thorough=10000,
        rule=RULE),
    Sub("coordinator", calls, coordinator, quick=600, thorough=30000,
        rule="add/remove/prepare/start/stop/wait/retrieve/fail on stub components; non-trivial: "
             ">= 2 calls that reach components"),
    Sub("instruments", lambda: case(kinds=("inst",)), check, quick=160, thorough=10000, rule=RULE),
]
_ = (math, Violation)

"""P20: instrument settings follow from the hardware configuration, contradictions are refused."""
from __future__ import annotations

import copy
import json
import math

from hypothesis import strategies as st

from vf import build
from vf import qblox as Q
from vf.core import Discard, Sub, expect, ok, sut
from vf.qgen import op, sec

ASSUMPTIONS = (
    "Every port-clock is used by one operation of a duration of its own, which identifies its "
    "sequencer.  A setting of a resource that several port-clocks share (local oscillator, "
    "attenuator, offsets of an output, input gain, filters) may be given for any of them; "
    "different values must be refused.  Frequencies: LO = clock - IF (clock replaced by "
    "downconverter - clock where given), LO = clock where mix_lo is off; a port-clock with neither "
    "LO nor IF of its own may be refused, one that nothing determines must be.  Channels with "
    "inputs only are not modulated.  Sequencer numbers are not specified.")

OUTS = {"QCM": ["complex_output_0", "complex_output_1", "real_output_0", "real_output_1",
                "real_output_2", "real_output_3"],
        "QRM": ["complex_output_0", "real_output_0", "real_output_1"],
        "QCM_RF": ["complex_output_0", "complex_output_1"],
        "QRM_RF": ["complex_output_0"],
        "QRC": [f"complex_output_{i}" for i in range(6)]}
INS = {"QRM": ["complex_input_0"], "QRM_RF": ["complex_input_0"],
       "QRC": ["complex_input_0", "complex_input_1"]}
RF = ("QCM_RF", "QRM_RF", "QRC")
# QRC: pools of sequencers (indices) that can play a channel
QRC_SEQ = {"complex_output_0": set(range(8)), "complex_output_1": set(range(8)),
           "complex_output_2": {0, 4, 8, 9, 10, 11}, "complex_output_3": {1, 5, 8, 9, 10, 11},
           "complex_output_4": {2, 6, 8, 9, 10, 11}, "complex_output_5": {3, 7, 8, 9, 10, 11}}
EXP = [("exp0_coeffs", 2), ("exp1_coeffs", 4), ("exp2_coeffs", 8), ("exp3_coeffs", 16),
       ("fir_coeffs", 32)]


def idx(ch):
    n = int(ch[-1])
    return (2 * n, 2 * n + 1) if ch.startswith("complex") else (n,)


# ---------------------------------------------------------------- generator
MHZ = st.integers(-3000, 3000).map(lambda n: n * 1e5)
coef = st.integers(-20, 19).map(lambda n: n / 20)


@st.composite
def filt(draw):
    d = {}
    for k, _ in EXP[:4]:
        if draw(st.integers(0, 2)) == 0:
            d[k] = [draw(st.sampled_from([6.0, 10.0, 123.5, 2000.0])), draw(coef)]
    if draw(st.integers(0, 2)) == 0:
        d["fir_coeffs"] = [draw(coef) for _ in range(32)]
    return d


@st.composite
def shared(draw, n, values, p_given=2, conflict=True):
    """n values of one shared setting: the same where given, rarely a contradiction."""
    if draw(st.integers(0, 3)) == 0:
        return [None] * n, False
    v = draw(values)
    out = [v if draw(st.integers(0, p_given)) else None for _ in range(n)]
    bad = False
    if conflict and n > 1 and draw(st.integers(0, 7)) == 0:
        w = draw(values)
        if w != v:
            i, j = draw(st.sampled_from([(i, j) for i in range(n) for j in range(n) if i != j]))
            out[i], out[j] = v, w
            bad = True
    return out, bad


@st.composite
def case(draw, kinds=("QCM", "QRM", "QCM_RF", "QRM_RF", "QRC"), max_mods=2):
    mods, chans, n_pc = {}, [], 0
    bad = []  # reasons for which the compilation must be refused
    slots = draw(st.lists(st.integers(1, 20), min_size=1, max_size=max_mods, unique=True))
    los = {f"lo{i}": draw(st.one_of(
        st.just({"power": 3}), st.fixed_dictionaries({}, optional={
            "power": st.integers(-20, 20), "frequency_param": st.just("ch1.freq"),
            "power_param": st.just("pow")}))) for i in range(2)}
    for slot in slots:
        typ = draw(st.sampled_from(list(kinds)))
        mods[str(slot)] = typ
        used, free = set(), 6
        mixed = typ == "QRM" and draw(st.booleans())
        names = draw(st.permutations(OUTS[typ]))[:draw(st.integers(1, 3))]
        if typ == "QRM":  # implicit inputs: real and complex channels are not mixed
            names = [n for n in names if n[:4] == names[0][:4]]
        explicit = typ in INS and draw(st.integers(0, 2)) == 0
        qrc = set(range(12))
        for ch in names:
            if used & set(idx(ch)):
                continue
            used |= set(idx(ch))
            acq = not explicit and typ in ("QRM", "QRM_RF")
            k = min(draw(st.integers(1, 3)), free)
            if typ == "QRC":
                k = min(k, 2)
                pool = sorted(qrc & QRC_SEQ[ch])
                k = min(k, len(pool))
                # which sequencers are taken depends on the order; stay well below the limits
                if len(names) > 1:
                    k = 1
            if k <= 0:
                continue
            free -= k
            pcs = []
            port = f"p{slot}:{ch}"
            for _ in range(k):
                if pcs and draw(st.integers(0, 3)) == 0:
                    port = f"p{slot}:{ch}:{n_pc}"
                pcs.append({"port": port, "clock": f"c{n_pc}", "acq": acq and draw(st.booleans())})
                n_pc += 1
            chans.append({"mod": str(slot), "ch": ch, "pcs": pcs})
        if explicit:
            ch = draw(st.sampled_from(INS[typ]))
            if typ == "QRM" and all(n.startswith("real") for n in names):
                ch = draw(st.sampled_from([ch, "real_input_0", "real_input_1"]))
            pcs = [{"port": f"p{slot}:in", "clock": f"c{n_pc}", "acq": True}]
            n_pc += 1
            if free > 0:
                chans.append({"mod": str(slot), "ch": ch, "pcs": pcs, "inp": True})
        mods_empty = not any(c["mod"] == str(slot) for c in chans)
        if mods_empty:
            del mods[str(slot)]
        del mixed
    # ------------------------------------------------ frequencies
    ext = [c for c in chans if not c.get("inp") and mods[c["mod"]] in ("QCM", "QRM")
           and c["ch"].startswith("complex")]
    for c in ext:
        # several ports on a mixer are not generated
        if draw(st.booleans()):
            c["lo"] = draw(st.sampled_from(["lo0", "lo0", "lo1"]))
            for p in c["pcs"]:
                p["port"] = c["pcs"][0]["port"]
    groups = {}
    for i, c in enumerate(chans):
        if c.get("inp"):
            groups[f"in{i}"] = (None, [c])
        elif c.get("lo"):
            groups.setdefault(c["lo"], ("ext", []))[1].append(c)
        elif mods[c["mod"]] in RF:
            groups[f"rf{i}"] = ("rf", [c])
        else:
            groups[f"bb{i}"] = ("bb", [c])
    for kind, cs in groups.values():
        lo = draw(st.integers(40, 70)) * 1e8 + draw(st.integers(0, 500)) * 1e5
        pcs = [(c, p) for c in cs for p in c["pcs"]]
        if kind in ("ext", "rf"):
            broken = draw(st.integers(0, 9))
            no_mix = kind == "ext" and draw(st.integers(0, 4)) == 0
            for c in cs:
                if no_mix:
                    c["mix_lo"] = False
                elif draw(st.integers(0, 5)) == 0:
                    c["dc"] = draw(st.integers(110, 130)) * 1e8
            for c, p in pcs:
                f = lo if no_mix else lo + draw(MHZ)
                p["f"] = c["dc"] - f if c.get("dc") else f
                fi = draw(MHZ) if no_mix else f - lo
                how = draw(st.sampled_from(["lo", "if", "lo", "if", "both", "none"]))
                if no_mix:
                    how = draw(st.sampled_from(["if", "if", "both", "none"]))
                if how in ("lo", "both"):
                    p["lo"] = lo
                if how in ("if", "both"):
                    p["if"] = fi
            given_ = [p for _, p in pcs if "lo" in p or "if" in p]
            if broken == 0 and given_ and not no_mix:
                p = draw(st.sampled_from(given_))
                k = draw(st.sampled_from([k for k in ("lo", "if") if k in p]))
                p[k] += draw(st.sampled_from([1e5, -2e6, 1e8]))
        else:
            for c, p in pcs:
                p["f"] = draw(st.integers(-3000, 3000)) * 1e5
                if kind == "bb" and draw(st.integers(0, 5)) == 0:
                    p["if"] = 0
        # -------------------------------------------- settings of the output
        for c in cs:
            typ, n = mods[c["mod"]], len(c["pcs"])

            def put(key, values, conflict=True, n=n, c=c, **kw):
                vs, b = draw(shared(n, values, conflict=conflict, **kw))
                for p, v in zip(c["pcs"], vs):
                    if v is not None:
                        p[key] = v
                if b:
                    bad.append(f"{key} of {c['mod']}.{c['ch']}")

            if c.get("inp"):
                if typ in RF:
                    put("iatt", st.integers(0, 15).map(lambda x: 2 * x))
                continue
            if typ in RF:
                put("att", st.integers(0, 15).map(lambda x: 2 * x))
            if typ in ("QRM", "QRM_RF") and not any(
                    x.get("inp") for x in chans if x["mod"] == c["mod"]):
                if typ == "QRM_RF":
                    put("iatt", st.integers(0, 15).map(lambda x: 2 * x))
            if c["ch"].startswith("complex") and typ != "QRC":  # no offsets in the driver
                auto = draw(st.integers(0, 4)) == 0
                if auto:
                    put("mc_lo_cal", st.sampled_from(["on_lo_freq_change",
                                                      "on_lo_interm_freq_change"]))
                else:
                    put("mc_dc", st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(
                        lambda t: [t[0] / 1e3, t[1] / 1e3]))
                for p in c["pcs"]:
                    if draw(st.integers(0, 2)) == 0:
                        p["mc_seq"] = [draw(st.integers(50, 200)) / 100,
                                       draw(st.integers(-450, 450)) / 10]
                    elif draw(st.integers(0, 5)) == 0:
                        p["mc_side"] = "on_interm_freq_change"
            for p in c["pcs"]:
                if draw(st.integers(0, 2)) == 0:
                    p["seq"] = {k: draw(coef) for k in
                                ("init_offset_awg_path_I", "init_offset_awg_path_Q",
                                 "init_gain_awg_path_I", "init_gain_awg_path_Q",
                                 "ttl_acq_threshold")
                                if draw(st.booleans())}
            if typ == "QCM":
                if draw(st.integers(0, 2)) == 0:
                    c["lat"] = 2 * draw(st.integers(0, 31))
                if draw(st.integers(0, 2)) == 0:
                    c["pcs"][0]["filt"] = (draw(filt()) if c["ch"].startswith("real")
                                           else [draw(filt()), draw(filt())])
                    if n > 1 and draw(st.integers(0, 9)) == 0:
                        c["pcs"][1]["filt"] = copy.deepcopy(c["pcs"][0]["filt"])
                        bad.append("filters twice")
                    elif draw(st.integers(0, 11)) == 0:
                        f = c["pcs"][0]["filt"]
                        f = f if isinstance(f, dict) else f[1]
                        k, v = draw(st.sampled_from([
                            ("exp1_coeffs", [5.0, 0.1]), ("exp0_coeffs", [10.0, 1.0]),
                            ("exp3_coeffs", [10.0, -1.5]), ("fir_coeffs", [0.1] * 31),
                            ("fir_coeffs", [2.5] + [0.0] * 31), ("fir_coeffs", [0.0] * 31 + [-2.1]),
                            ("exp2_coeffs", [10.0])]))
                        f[k] = v
                        bad.append("filter coefficients")
    # ------------------------------------------------ input gains (module wide)
    for slot, typ in mods.items():
        if typ != "QRM":
            continue
        pcs = [(c, p) for c in chans if c["mod"] == slot for p in c["pcs"]
               if c["ch"].startswith("complex")]
        if pcs:
            vs, b = draw(shared(len(pcs), st.tuples(st.integers(-6, 26), st.integers(-6, 26)).map(
                list)))
            for (c, p), v in zip(pcs, vs):
                if v is not None:
                    p["ig"] = v
            if b:
                bad.append("input gain")
        for i in "01":
            pcs = [p for c in chans if c["mod"] == slot for p in c["pcs"]
                   if c["ch"].startswith("real") and c["ch"][-1] == i]
            if pcs and not any("ig" in p for c in chans if c["mod"] == slot for p in c["pcs"]):
                vs, b = draw(shared(len(pcs), st.integers(-6, 26)))
                for p, v in zip(pcs, vs):
                    if v is not None:
                        p["igr"] = v
                if b:
                    bad.append("real input gain")
    npc = sum(len(c["pcs"]) for c in chans)
    return {"mods": mods, "chans": chans, "los": los, "bad": bad,
            "order": draw(st.permutations(range(npc))),
            "opt_order": draw(st.permutations(range(npc))),
            "thr": draw(st.lists(st.tuples(st.integers(0, 719).map(lambda x: x / 2),
                                           st.integers(-50, 50).map(lambda x: x / 100)),
                                 min_size=npc, max_size=npc))}


# ---------------------------------------------------------------- objects
def make(c):
    """(hardware description, schedule, list of (chan, pc, duration, is acquisition))."""
    mods = {m: {"instrument_type": t} for m, t in c["mods"].items()}
    graph, opts = [], {}
    allpc = [(ch, p) for ch in c["chans"] for p in ch["pcs"]]
    for i, ch in enumerate(c["chans"]):
        path = f"cluster0.module{ch['mod']}.{ch['ch']}"
        d = mods[ch["mod"]].setdefault(ch["ch"], {})
        if "mix_lo" in ch:
            d["mix_lo"] = ch["mix_lo"]
        if ch.get("dc"):
            d["downconverter_freq"] = ch["dc"]
        if ch.get("lat"):
            d["distortion_correction_latency_compensation"] = ch["lat"]
        if ch.get("lo"):
            graph += [[path, f"iq{i}.if"], [f"{ch['lo']}.output", f"iq{i}.lo"]]
            path = f"iq{i}.rf"
        for port in dict.fromkeys(p["port"] for p in ch["pcs"]):
            graph.append([path, port])
    for j in c["opt_order"]:
        ch, p = allpc[j]
        key = f"{p['port']}-{p['clock']}"

        def put(opt, v, key=key):
            opts.setdefault(opt, {})[key] = v

        mf = {k: p[s] for k, s in (("lo_freq", "lo"), ("interm_freq", "if")) if s in p}
        if mf:
            put("modulation_frequencies", mf)
        mc = {}
        if "mc_dc" in p:
            mc["dc_offset_i"], mc["dc_offset_q"] = p["mc_dc"]
        if "mc_lo_cal" in p:
            mc["auto_lo_cal"] = p["mc_lo_cal"]
        if "mc_seq" in p:
            mc["amp_ratio"], mc["phase_error"] = p["mc_seq"]
        if "mc_side" in p:
            mc["auto_sideband_cal"] = p["mc_side"]
        if mc:
            put("mixer_corrections", mc)
        if "att" in p:
            put("output_att", p["att"])
        if "iatt" in p:
            put("input_att", p["iatt"])
        if "ig" in p:
            put("input_gain", {"gain_I": p["ig"][0], "gain_Q": p["ig"][1]})
        if "igr" in p:
            put("input_gain", p["igr"])
        if p.get("seq"):
            put("sequencer_options", p["seq"])
        if "filt" in p:
            put("distortion_corrections", p["filt"])
    used_los = sorted({ch["lo"] for ch in c["chans"] if ch.get("lo")})
    hw = {"config_type": Q.QBLOX,
          "hardware_description": {
              "cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": mods},
              **{k: {"instrument_type": "LocalOscillator", **v}
                 for k, v in c["los"].items()},
              **{f"iq{i}": {"instrument_type": "IQMixer"} for i, ch in enumerate(c["chans"])
                 if ch.get("lo")}},
          "hardware_options": opts, "connectivity": {"graph": graph}}
    items, use = [], []
    for i in c["order"]:
        ch, p = allpc[i]
        n = 40 + 4 * i
        w = {"port": p["port"], "clock": p["clock"]}
        if not ch.get("inp"):
            items.append({"op": op("SquarePulse", amp=0.1, duration=sec(n), **w), "rel": 1e-6})
        if p["acq"]:
            rot, thr = c["thr"][i]
            items.append({"op": op("ThresholdedAcquisition", duration=sec(400 + 4 * i),
                                   acq_channel=f"a{i}", acq_index=0, acq_rotation=rot,
                                   acq_threshold=thr, **w), "rel": 1e-6})
        use.append((ch, p, i))
    s = build.make_schedule({"t": "sched", "name": "p20", "reps": 1, "ops": items},
                            [(p["clock"], p["f"]) for ch, p in allpc])
    return hw, s, use, used_los


# ---------------------------------------------------------------- model
def lo_model(c):
    """{group: (status, lo)}; status: ok | bad | maybe (refusal allowed)."""
    out = {}
    for i, ch in enumerate(c["chans"]):
        if ch.get("inp"):
            continue
        typ = c["mods"][ch["mod"]]
        g = ch.get("lo") or (f"{ch['mod']}.{ch['ch']}" if typ in RF else None)
        if g:
            out.setdefault(g, []).extend((ch, p) for p in ch["pcs"])
    res = {}
    for g, ms in out.items():
        facts, own = [], True
        status = "ok"
        for ch, p in ms:
            f = ch["dc"] - p["f"] if ch.get("dc") else p["f"]
            nomix = ch.get("mix_lo") is False
            if "lo" in p:
                facts.append(p["lo"])
            if nomix:
                facts.append(f)
                if "if" not in p:
                    status = "bad"
            elif "if" in p:
                facts.append(f - p["if"])
            if "lo" not in p and "if" not in p:
                own = False
        if not facts:
            res[g] = ("bad", None)
            continue
        if max(facts) - min(facts) > 5e4:
            status = "bad"
        res[g] = (status if status == "bad" or own else "maybe", facts[0])
    return res


def near(a, b, tol=1e-3):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol


def compile_it(hw, s):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler

    return SerialCompiler("vf").compile(s, Q.config(hw))


def check(c):
    hw, s, use, used_los = make(c)
    los = lo_model(c)
    must_fail = list(c["bad"]) + [f"frequencies of {g}" for g, (x, _) in los.items() if x == "bad"]
    may_fail = [g for g, (x, _) in los.items() if x == "maybe"]
    tags = sorted(set(c["mods"].values()))
    try:
        comp = compile_it(hw, s)
    except Exception as e:  # noqa: BLE001
        if must_fail:
            return ok(True, [*tags, "refused"])
        if may_fail and "underconstrained" in str(e):
            return ok(False, [*tags, "underconstrained"])
        raise
    expect(not must_fail, "contradictory or missing settings were accepted: %s", must_fail)
    verify(c, comp, use, los, used_los)
    # the configuration can be used again
    hw2, s2, *_ = make(c)
    with sut("second compilation with the same configuration"):
        comp2 = compile_it(hw, s2)
    verify(c, comp2, use, los, used_los, "second compilation: ")
    many = any(len(ch["pcs"]) > 1 for ch in c["chans"])
    ext = bool(used_los)
    return ok(many or ext or len(c["chans"]) > 1,
              [*tags, *(["external LO"] if ext else []), *(["shared output"] if many else [])])


def verify(c, comp, use, los, used_los, pre=""):
    ci = comp.compiled_instructions
    seqs = Q.sequencers(comp)
    # ------------------------------------------------ generic instructions
    gen = ci.get("generic", {}) if hasattr(ci, "get") else {}
    want = {}
    for lo in used_los:
        d = c["los"][lo]
        want[f"{lo}.{d.get('frequency_param', 'frequency')}"] = los[lo][1]
        if "power" in d:
            want[f"{lo}.{d.get('power_param', 'power')}"] = d["power"]
    got = dict(gen or {})
    expect(set(got) == set(want), "%sexternal LO settings: got %s, expected %s", pre, got, want)
    for k, v in want.items():
        expect(near(got[k], v), "%s%s is %r, expected %r", pre, k, got[k], v)
    # ------------------------------------------------ sequencers
    found = {}
    for q in seqs:
        lens = {len(w) for w in q.waves.values()} - {0}
        il = q.s.integration_length_acq
        chn = q.s.channel_name
        for ch, p, i in use:
            if f"module{ch['mod']}" not in q.where:
                continue
            if ch.get("inp"):
                hit = il == 400 + 4 * i and chn == ch["ch"]
            else:
                hit = lens == {40 + 4 * i}
            if hit:
                expect(i not in found, "%stwo sequencers play %s-%s", pre, p["port"], p["clock"])
                found[i] = q
    expect(len(found) == len(use) == len(seqs), "%ssequencers: %d programs, %d identified of %d",
           pre, len(seqs), len(found), len(use))
    for ch, p, i in use:
        q, typ = found[i].s, c["mods"][ch["mod"]]
        name = f"{pre}{p['port']}-{p['clock']} ({typ} {ch['ch']})"
        expect(q.channel_name == ch["ch"], "%s: plays on %s", name, q.channel_name)
        outs = () if ch.get("inp") else idx(ch["ch"])
        expect(tuple(q.connected_output_indices) == outs, "%s: outputs %s, expected %s", name,
               q.connected_output_indices, outs)
        if p["acq"]:
            ins = idx(ch["ch"]) if ch.get("inp") else (0, 1)
            expect(tuple(sorted(q.connected_input_indices)) == ins, "%s: inputs %s, expected %s",
                   name, q.connected_input_indices, ins)
            rot, thr = c["thr"][i]
            n = 400 + 4 * i
            expect(q.integration_length_acq == n, "%s: integration length %s, expected %s", name,
                   q.integration_length_acq, n)
            expect(near(q.thresholded_acq_rotation, rot, 1e-9), "%s: rotation %s, expected %s",
                   name, q.thresholded_acq_rotation, rot)
            expect(near(q.thresholded_acq_threshold, thr * n, 1e-9),
                   "%s: threshold %s, expected %s", name, q.thresholded_acq_threshold, thr * n)
        else:
            expect(q.integration_length_acq is None, "%s: integration length %s", name,
                   q.integration_length_acq)
        # frequency
        if not ch.get("inp"):
            g = ch.get("lo") or (f"{ch['mod']}.{ch['ch']}" if typ in RF else None)
            f = ch["dc"] - p["f"] if ch.get("dc") else p["f"]
            if g is None:
                nco = 0 if p.get("if") == 0 else f
            elif ch.get("mix_lo") is False:
                nco = p["if"]
            else:
                nco = f - los[g][1]
            eff = (q.modulation_freq or 0.0) if q.nco_en else 0.0
            expect(near(eff, nco), "%s: modulated at %r Hz, expected %r", name, eff, nco)
        # options of the sequencer
        sq = p.get("seq") or {}
        for k, dflt in (("init_offset_awg_path_I", 0.0), ("init_offset_awg_path_Q", 0.0),
                        ("init_gain_awg_path_I", 1.0), ("init_gain_awg_path_Q", 1.0)):
            v = sq.get(k, dflt)
            expect(near(getattr(q, k), v, 1e-12), "%s: %s is %r, expected %r", name, k,
                   getattr(q, k), v)
        expect(near(q.ttl_acq_threshold, sq.get("ttl_acq_threshold"), 1e-12),
               "%s: ttl_acq_threshold is %r, expected %r", name, q.ttl_acq_threshold,
               sq.get("ttl_acq_threshold"))
        ratio, phase = p.get("mc_seq", (None, None))
        if "mc_seq" in p:
            expect(near(q.mixer_corr_gain_ratio, ratio, 1e-12)
                   and near(q.mixer_corr_phase_offset_degree, phase, 1e-12),
                   "%s: mixer correction %r %r, expected %r %r", name, q.mixer_corr_gain_ratio,
                   q.mixer_corr_phase_offset_degree, ratio, phase)
        else:
            expect(q.mixer_corr_gain_ratio in (None, 1.0)
                   and q.mixer_corr_phase_offset_degree in (None, 0.0),
                   "%s: mixer correction %r %r, expected none", name, q.mixer_corr_gain_ratio,
                   q.mixer_corr_phase_offset_degree)
        expect(str(getattr(q.auto_sideband_cal, "value", q.auto_sideband_cal))
               == p.get("mc_side", "off"), "%s: auto_sideband_cal %s", name, q.auto_sideband_cal)
    # ------------------------------------------------ modules
    for m, typ in c["mods"].items():
        ms = ci["cluster0"][f"cluster0_module{m}"]["settings"]
        chans = [ch for ch in c["chans"] if ch["mod"] == m]
        want = {}

        def first(ch, key):
            return next((p[key] for p in ch["pcs"] if key in p), None)

        for n in range(6):
            ch = next((x for x in chans if x["ch"] == f"complex_output_{n}"), None)
            if typ in RF:
                g = f"{m}.complex_output_{n}"
                want[f"lo{n}_freq"] = los[g][1] if ch else None
                want[f"out{n}_att"] = first(ch, "att") if ch else None
            if n < 2:
                mc = first(ch, "mc_dc") if ch else None
                k = 1e3 if typ in RF else 1
                want[f"offset_ch{n}_path_I"] = None if mc is None else mc[0] * k
                want[f"offset_ch{n}_path_Q"] = None if mc is None else mc[1] * k
        if typ in RF:
            for n in range(2):
                vals = [first(ch, "iatt") for ch in chans if int(ch["ch"][-1]) == n]
                want[f"in{n}_att"] = next((v for v in vals if v is not None), None)
        if typ == "QRM":
            v = next((p["ig"] for ch in chans for p in ch["pcs"] if "ig" in p), (None, None))
            want["in0_gain"], want["in1_gain"] = v
            for ch in chans:
                if ch["ch"].startswith("real") and first(ch, "igr") is not None:
                    want[f"in{ch['ch'][-1]}_gain"] = first(ch, "igr")
        for k, v in want.items():
            if not hasattr(ms, k) and v is None:
                continue
            got = getattr(ms, k)
            expect(near(got, v, 1e-3 if "freq" in k else 1e-9), "%smodule %s (%s): %s is %r, "
                   "expected %r", pre, m, typ, k, got, v)
        for n in range(2):
            ch = next((x for x in chans if x["ch"] == f"complex_output_{n}"), None)
            want_cal = first(ch, "mc_lo_cal") if ch else None
            got = getattr(ms, f"out{n}_lo_freq_cal_type_default", None)
            got = str(getattr(got, "value", got))
            expect(got == (want_cal or "off") or (want_cal is None and got == "None"),
                   "%smodule %s: out%d_lo_freq_cal_type_default is %s, expected %s", pre, m, n,
                   got, want_cal)
        if typ == "QCM":
            for o in range(4):
                ch = next((x for x in chans if o in idx(x["ch"])), None)
                f = first(ch, "filt") if ch else None
                if isinstance(f, list):
                    f = f[o - idx(ch["ch"])[0]]
                for (k, bit), part in zip(EXP, ("exp0", "exp1", "exp2", "exp3", "fir")):
                    r = getattr(ms.distortion_corrections[o], part)
                    v = (f or {}).get(k)
                    cfg = ("enabled" if v is not None else
                           "delay_comp" if ch and ch.get("lat", 0) & bit else "bypassed")
                    expect(str(getattr(r.config, "value", r.config)) == cfg,
                           "%smodule %s output %d: filter %s is %s, expected %s", pre, m, o, part,
                           r.config, cfg)
                    expect((list(r.coeffs) if r.coeffs is not None else None) == v,
                           "%smodule %s output %d: coefficients of %s are %s, expected %s", pre, m,
                           o, part, r.coeffs, v)


RULE = "a resource is shared by several port-clocks, or there are several channels or external LOs"
SUBS = [
    Sub("baseband", lambda: case(kinds=("QCM", "QRM")), check, quick=1200, thorough=40000,
        rule=RULE),
    Sub("rf", lambda: case(kinds=RF), check, quick=1200, thorough=40000, rule=RULE),
    Sub("mixed", lambda: case(max_mods=3), check, quick=600, thorough=40000, rule=RULE),
]

"""P09: every acquisition happens at its time and lands in its own bin."""
from __future__ import annotations

import numpy as np

from vf import acq, build, qgen
from vf import qblox as Q
from vf.core import Sub, expect, ok, sut

SQUARE = {"SSBIntegrationComplex", "ThresholdedAcquisition", "Trace"}


def occurrences(d):
    """Every acquisition of one repetition: (t, op, flattened iteration number)."""
    evs, dur = Q.events(d)
    out = []
    sizes = loop_sizes(d)
    for t, op, path in evs:
        if op["c"] not in Q.ACQS:
            continue
        it = 0
        for n, i in zip(sizes[id(op)], [p[1] for p in path if isinstance(p, tuple)
                                         and p[0] == "loop"]):
            it = it * n + i
        out.append((t, op, it))
    return out, dur


def loop_sizes(op, stack=()):
    t = op["t"]
    if t == "op":
        return {id(op): stack}
    if t == "loop":
        return loop_sizes(op["body"], stack + (op["n"],))
    if t == "cond":
        return loop_sizes(op["body"], stack)
    out = {}
    for it in op["ops"]:
        out.update(loop_sizes(it["op"], stack))
    return out


def compile_case(c):
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(c["lanes"]))
    with sut("compiling a schedule within the hardware's limits"):
        comp = Q.compile_schedule(s, acq.hw())
    return comp


def find(seqs, lane):
    out = []
    for q in seqs:
        if not q.module.endswith(f"module{lane.mod}"):
            continue
        names = {q.s.channel_name}
        m = q.s.channel_name_measure
        names |= set(m if isinstance(m, list) else [m])
        if lane.ch not in names:
            continue
        if lane.nco is not None and abs((q.s.modulation_freq or 0) - lane.nco) > 1:
            continue
        out.append(q)
    return out


def channel_table(comp):
    """acquisition channel data of the compiled schedule (the same for all clusters)."""
    for cl, ci in comp.compiled_instructions.items():
        if isinstance(ci, dict) and "acq_channels_data" in ci:
            return ci["acq_channels_data"], ci["repetitions"]
    return {}, None


def locate(data, ch, op, it, inloop):
    """Index of the occurrence in the channel's description."""
    uid = f"uid_{ch}"
    hits = [i for i, co in enumerate(data.coords)
            if co.get(uid) == op["k"]["coords"][uid]
            and (not inloop or co.get(f"loop_repetition_{ch}") == it)]
    expect(len(hits) == 1, "channel %r: %d entries describe acquisition %r iteration %d: %r", ch,
           len(hits), op["k"]["coords"], it, data.coords[:20])
    return hits[0]


def check(c):
    d = c["d"]
    comp = compile_case(c)
    reps = d["reps"]
    occ, dur = occurrences(d)
    sizes = loop_sizes(d)
    b0, ov = Q.timebase()
    seqs = Q.sequencers(comp)
    table, treps = channel_table(comp)
    chans = {x["ch"]: x for x in c["chans"]}
    used = sorted({op["k"]["acq_channel"] for _, op, _ in occ}, key=str)
    expect(sorted(table, key=str) == used, "described channels %r, scheduled channels %r",
           list(table), used)
    total = 0
    kinds = set()
    for n in c["lanes"]:
        l = Q.LANES[n]
        mine = [(t, op, it) for t, op, it in occ if op["k"]["port"] == l.port
                and op["k"]["clock"] == l.clock]
        if not mine:
            continue
        qs = find(seqs, l)
        expect(len(qs) == 1, "%s: %d sequencers acquire from this port and clock", n, len(qs))
        q = qs[0]
        tr = q.trace
        want = []
        for r in range(reps):
            base = b0 + r * (dur + ov)
            for t, op, it in mine:
                if op["c"] in acq.TTL:
                    want.append((base + t, r, op, it, 1))
                    want.append((base + t + acq.acq_dur(op) - 4, r, op, it, 0))
                else:
                    want.append((base + t, r, op, it, None))
        want.sort(key=lambda w: w[0])
        expect([w[0] for w in want] == [a["t"] for a in tr.acq],
               "%s (%s): acquisitions scheduled at %r, executed at %r", n, q.where,
               [w[0] - b0 for w in want][:12], [a["t"] - b0 for a in tr.acq][:12])
        place = {}
        lengths = set()
        for (t, r, op, it, en), a in zip(want, tr.acq):
            p = op["c"]
            kinds.add(p)
            k = op["k"]
            ch = k["acq_channel"]
            x = chans[ch]
            data = table[ch]
            expect(data.protocol == p, "channel %r: protocol %r described, %r scheduled", ch,
                   data.protocol, p)
            expect(data.bin_mode.value == x["mode"], "channel %r: bin mode %r described, %r "
                   "scheduled", ch, data.bin_mode, x["mode"])
            expect(data.acq_index_dim_name == f"acq_index_{ch}", "channel %r: dimension %r", ch,
                   data.acq_index_dim_name)
            # ---- the instruction
            kind = {"TriggerCount": "acquire_ttl", "ThresholdedTriggerCount": "acquire_ttl",
                    "Timetag": "acquire_timetags", "TimetagTrace": "acquire_timetags"}.get(
                p, "acquire_weighed" if p in acq.WEIGHTED else "acquire")
            if n.startswith("tq"):
                kind = "acquire_timetags"
            expect(a["kind"] == kind, "%s: %s at %d executed by %r", n, p, t - b0, a["kind"])
            if en is not None:
                expect(a["en"] == en, "%s: %s window at %d: enable=%r", n, p, t - b0, a["en"])
            if p in acq.WEIGHTED:
                for nm, w, ref in zip("IQ", (a["w0"], a["w1"]), acq.weights(op)):
                    expect(w in q.weights, "%s: weight %r is not defined", n, w)
                    got = q.weights[w]
                    expect(len(got) == len(ref) and np.allclose(got, ref, atol=1e-6),
                           "%s: weights of path %s are %r, scheduled %r", n, nm, list(got)[:8],
                           list(ref)[:8])
            if p in SQUARE or p in acq.WEIGHTED:
                lengths.add(acq.acq_dur(op))
            # ---- the bin
            expect(a["acq"] in q.acqs, "%s: acquisition index %r is not declared", n, a["acq"])
            expect(0 <= a["bin"] < q.acqs[a["acq"]][1], "%s: bin %d of acquisition %d, which has "
                   "%d bins", n, a["bin"], a["acq"], q.acqs[a["acq"]][1])
            m = q.mapping.get(ch)
            expect(m is not None, "%s: channel %r is missing in the hardware mapping", n, ch)
            if isinstance(m, int):
                expect(p in ("Trace",) or x["mode"] == "distribution",
                       "channel %r is mapped to a whole acquisition", ch)
                expect(a["acq"] == m, "channel %r: acquired into %d, mapped to %d", ch, a["acq"],
                       m)
                place.setdefault(("whole", m), set()).add(ch)
                continue
            inloop = bool(sizes[id(op)]) and x["mode"] == "append"
            i = locate(data, ch, op, it, inloop)
            if "acq_index" in k:
                if x["mode"] in ("average", "sum"):
                    expect(i == k["acq_index"], "channel %r: explicit index %d became %d", ch,
                           k["acq_index"], i)
                else:
                    expect(data.coords[i].get(f"acq_index_legacy_{ch}") == k["acq_index"],
                           "channel %r: explicit index %d is lost: %r", ch, k["acq_index"],
                           data.coords[i])
            expect(i in m, "channel %r: index %d is missing in the hardware mapping", ch, i)
            b = m[i]
            expect(b.index == a["acq"], "channel %r index %d: acquired into %d, mapped to %d", ch,
                   i, a["acq"], b.index)
            bn = b.bin + (r * b.stride if x["mode"] == "append" else 0)
            expect(bn == a["bin"], "channel %r index %d repetition %d: stored in bin %d, mapped "
                   "to bin %d", ch, i, r, a["bin"], bn)
            place.setdefault((a["acq"], a["bin"]), set()).add(
                (ch, i, r if x["mode"] == "append" else "avg"))
            if p == "ThresholdedTriggerCount":
                md = b.thresholded_trigger_count_metadata
                expect(md is not None and md.threshold == x["thr"] and str(getattr(
                    md.condition, "value", md.condition)) == x["cond"],
                    "channel %r: threshold %r recorded, (%r, %r) scheduled", ch, md, x["thr"],
                    x["cond"])
        for loc, who in place.items():
            expect(len(who) == 1, "%s: results %s share %s", n, sorted(who, key=str), loc)
        wholes = {k[1] for k in place if k[0] == "whole"}
        expect(not wholes & {k[0] for k in place if k[0] != "whole"},
               "%s: binned results are stored in an acquisition reserved for a trace", n)
        for ch in {op["k"]["acq_channel"] for _, op, _ in mine}:
            if isinstance(q.mapping[ch], int):
                continue
            expect(len(table[ch].coords) == len(q.mapping[ch]), "channel %r has %d entries "
                   "described, %d mapped", ch, len(table[ch].coords), len(q.mapping[ch]))
        # ---- settings
        if lengths:
            expect(lengths == {q.s.integration_length_acq}, "%s: integration length %r, scheduled "
                   "%r", n, q.s.integration_length_acq, lengths)
        th = [op for _, op, _ in mine if op["c"] in (
            "ThresholdedAcquisition", "WeightedThresholdedAcquisition")]
        if th:
            k = th[0]["k"]
            rot = k.get("acq_rotation", 315)  # documented for the weighted kind
            expect(abs((q.s.thresholded_acq_rotation or 0) - rot) < 1e-9,
                   "%s: rotation %r, scheduled %r", n, q.s.thresholded_acq_rotation, rot)
            ln = q.s.integration_length_acq
            expect(abs((q.s.thresholded_acq_threshold or 0) - k["acq_threshold"] * ln) < 1e-6,
                   "%s: threshold %r (in summed units), scheduled %r per sample over %r samples",
                   n, q.s.thresholded_acq_threshold, k["acq_threshold"], ln)
        ttl = [op for _, op, _ in mine if op["c"] in acq.TTL]
        if ttl and n == "rq":
            expect(q.s.ttl_acq_auto_bin_incr_en == (chans[ttl[0]["k"]["acq_channel"]]["mode"]
                                                    == "distribution"),
                   "%s: automatic bin increment is %r", n, q.s.ttl_acq_auto_bin_incr_en)
            expect(q.s.ttl_acq_input_select == 0, "%s: counts input %r", n,
                   q.s.ttl_acq_input_select)
        total += len(want)
    return ok(total >= 2, [f"channels={len(used)}", f"reps={reps}", *sorted(kinds)])


SUBS = [
    Sub("acquisitions", lambda: acq.program(depth=1), check, quick=1200, thorough=25000,
        rule="all binned protocols, both bin modes, several channels per port-clock, explicit / "
             "automatic / mixed indices, loops and repetitions on QRM, QRM-RF and QTM; "
             "non-trivial: >=2 acquisition events executed"),
    Sub("nested loops", lambda: acq.program(depth=3, loops=0.5, items=(1, 4), lanes=(
        "ro0", "rq", "tq")), check, quick=700, thorough=20000,
        rule="loops nested up to three deep, bins of every iteration"),
    Sub("readout only", lambda: acq.program(lanes=("ro0", "ro1", "rfro"), depth=1, loops=0.15,
                                            items=(3, 9)), check, quick=800, thorough=20000,
        rule="many acquisitions per sequencer"),
]

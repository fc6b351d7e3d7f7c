"""P10: the retrieved dataset holds exactly the values the acquisitions produced."""
from __future__ import annotations

import hashlib
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from props import p09
from vf import acq, build
from vf import qblox as Q
from vf.core import KEEP, Known, Sub, expect, ok, sut

ASSUMPTIONS = (
    "The hardware is simulated on top of the dummy cluster: every acquire instruction that the "
    "emulated programs execute stores a pseudo-random result of its own in the bin it addresses "
    "(averaging where a bin is written repeatedly, NaN where nothing was measured).  The expected "
    "dataset is computed from the schedule, not from the compiled index mapping; entries are "
    "recognised by a coordinate unique to each acquisition and by the loop_repetition coordinate.")

N_IC = itertools.count()


def setup():
    from qblox_instruments import Cluster, ClusterType

    global CLUSTER
    T = ClusterType
    if "CLUSTER" not in globals():
        CLUSTER = Cluster("cluster0", dummy_cfg={
            1: T.CLUSTER_QCM, 2: T.CLUSTER_QRM, 4: T.CLUSTER_QRM_RF, 8: T.CLUSTER_QRM,
            9: T.CLUSTER_QTM})
        KEEP.add("cluster0")


class Rng:
    """Pseudo-random numbers addressed by a key (independent of evaluation order)."""

    def __init__(self, seed, missing):
        self.seed, self.missing = seed, missing

    def u(self, *key):
        h = hashlib.blake2b(repr((self.seed, *key)).encode(), digest_size=8).digest()
        return int.from_bytes(h, "big") / 2**64

    def result(self, ch, uid, it, r):
        k = (str(ch), uid, it, r)
        return {"missing": self.u("m", *k) < self.missing,
                "i": round(self.u("i", *k) * 2000 - 1000, 3),
                "q": round(self.u("q", *k) * 2000 - 1000, 3),
                "t": int(self.u("t", *k) < 0.5),
                "n": int(self.u("n", *k) * 7),
                "tag": int(self.u("g", *k) * 4096 * 100),
                "more": [int(self.u("x", j, *k) * 20000) for j in range(4)]}


# ---------------------------------------------------------------- simulated hardware
def simulate(c, comp, occ, dur, rng):
    """Fill the bins of every sequencer; returns {(module, seq): acquisitions}, scope data."""
    d, reps = c["d"], c["d"]["reps"]
    b0, ov = Q.timebase()
    seqs = Q.sequencers(comp)
    chans = {x["ch"]: x for x in c["chans"]}
    data, scopes = {}, {}
    order, unordered = {}, set()
    for n in c["lanes"]:
        l = Q.LANES[n]
        mine = [(t, op, it) for t, op, it in occ if op["k"]["port"] == l.port
                and op["k"]["clock"] == l.clock]
        if not mine:
            continue
        qs = p09.find(seqs, l)
        expect(len(qs) == 1, "%s: %d sequencers acquire from this port and clock", n, len(qs))
        q = qs[0]
        when = {}
        for r in range(reps):
            for t, op, it in mine:
                when[b0 + r * (dur + ov) + t] = (op, it, r)
        bins = {}
        out = {}
        windows = []
        for a in q.trace.acq:
            if a.get("en") == 0:
                continue
            expect(a["t"] in when, "%s: acquisition executed at %d ns, where none is scheduled", n,
                   a["t"] - b0)
            op, it, r = when.pop(a["t"])
            ch = op["k"]["acq_channel"]
            res = rng.result(ch, op["uid"], it, r)
            bins.setdefault(a["acq"], {}).setdefault(a["bin"], []).append((res, op, ch))
            windows.append((a["t"], res, op))
            if op["c"] == "TimetagTrace":
                if a["bin"] != order.get(ch, 0):
                    unordered.add(ch)
                order[ch] = a["bin"] + 1
        expect(not when, "%s: scheduled acquisitions were not executed: %r", n, list(when)[:5])
        for idx, (num, size) in ((i, q.acqs[i]) for i in q.acqs):
            nan = [math.nan] * size
            e = {"integration": {"path0": list(nan), "path1": list(nan)}, "threshold": list(nan),
                 "avg_cnt": list(nan)}
            if n.startswith("tq"):
                e.update(count=list(nan), timedelta=list(nan))
            hits = bins.get(idx, {})
            for b, rs in hits.items():
                x = chans[rs[0][2]]
                if x["mode"] == "distribution":
                    continue
                good = [v for v, _, _ in rs if not v["missing"]]
                if not good:
                    continue
                m = len(good)
                if n.startswith("tq"):
                    e["count"][b] = sum(v["n"] for v in good) / m
                    e["timedelta"][b] = sum(v["tag"] for v in good) / m
                    e["avg_cnt"][b] = m
                elif n == "rq":
                    e["avg_cnt"][b] = float(sum(v["n"] for v in good))
                else:
                    e["integration"]["path0"][b] = sum(v["i"] for v in good) / m
                    e["integration"]["path1"][b] = sum(v["q"] for v in good) / m
                    e["threshold"][b] = sum(v["t"] for v in good) / m
                    e["avg_cnt"][b] = m
            dist = [v for rs in hits.values() for v, _, ch in rs
                    if chans[ch]["mode"] == "distribution"]
            for v in dist:  # every trigger increments the bin
                for b in range(v["n"]):
                    e["avg_cnt"][b] = (0 if math.isnan(e["avg_cnt"][b]) else e["avg_cnt"][b]) + 1
            trace = [(op, ch) for rs in hits.values() for _, op, ch in rs if op["c"] == "Trace"]
            sc = {f"path{i}": {"data": [], "out-of-range": False, "avg_cnt": 0} for i in range(2)}
            if trace:
                op, ch = trace[0]
                for i in range(2):
                    sc[f"path{i}"]["data"] = [round(rng.u("s", i, str(ch), k), 4)
                                              for k in range(16384)]
            out[str(idx)] = {"index": idx, "acquisition": {"scope": sc, "bins": e}}
        mod, s = q.module, q.name
        data[(mod, int(s.replace("seq", "")))] = out
        if n.startswith("tq"):
            ev = []
            for t, res, op in sorted(windows, key=lambda w: w[0]):
                base = t * 2048
                tags = tags_of(res)
                ev.append(["OPEN", base])
                # absolute times; the bin holds the one of the first tag relative to the reference
                ev += [["RISE", base + 77 + x - tags[0]] for x in tags]
                ev.append(["CLOSE", base + 10**6])
            scopes[(mod, int(s.replace("seq", "")))] = ev
    return data, scopes, unordered


def tags_of(res):
    """Time tags of a window (in 1/2048 ns), the first one is what the bin holds."""
    if res["missing"]:
        return []
    return [res["tag"]] + sorted(res["tag"] + 1 + x for x in res["more"])[: res["n"] % 5]


def install(data, scopes, stored):
    """Make the dummy modules return the simulated data."""
    undo = []
    for m in CLUSTER.modules:
        if not m.present():
            continue

        def get(seq, *a, m=m, **k):
            from copy import deepcopy

            return deepcopy(data.get((m.name, seq), {}))

        old = m.__dict__.get("get_acquisitions")
        m.get_acquisitions = get
        undo.append((m, "get_acquisitions", old))
        if m.is_qtm_type:
            for i, io in enumerate(m.io_channels):
                io.get_scope_data = lambda i=i, m=m: scopes.get((m.name, i), [])
                undo.append((io, "get_scope_data", None))
    CLUSTER.store_scope_acquisition = lambda slot, seq, name: stored.append((slot, seq, name))
    undo.append((CLUSTER, "store_scope_acquisition", None))
    return undo


def restore(undo):
    for o, name, old in undo:
        if old is None:
            o.__dict__.pop(name, None)
        else:
            o.__dict__[name] = old


# ---------------------------------------------------------------- expectation
def convert(p, x, vals, dur):
    """Expected entry from the results that were stored in it."""
    good = [v for v in vals if not v["missing"]]
    m = len(good)
    if p in ("SSBIntegrationComplex", "WeightedIntegratedSeparated",
             "NumericalSeparatedWeightedIntegration"):
        if not m:
            return complex(math.nan, math.nan)
        z = complex(sum(v["i"] for v in good) / m, sum(v["q"] for v in good) / m)
        return z / dur if p == "SSBIntegrationComplex" else z
    if p == "NumericalWeightedIntegration":
        return complex(sum(v["i"] + v["q"] for v in good) / m if m else math.nan)
    if p in ("ThresholdedAcquisition", "WeightedThresholdedAcquisition"):
        return sum(v["t"] for v in good) / m if m else -1
    if p == "TriggerCount":
        return sum(v["n"] for v in good) if m else math.nan
    if p == "ThresholdedTriggerCount":
        if not m:
            return -1
        n = good[0]["n"]
        return int(n >= x["thr"]) if x["cond"] == "greater_than_equal_to" else int(n < x["thr"])
    if p == "Timetag":
        return sum(v["tag"] for v in good) / m / 2048 if m else math.nan
    raise AssertionError(p)


def same(a, b):
    a, b = complex(a), complex(b)
    for u, v in ((a.real, b.real), (a.imag, b.imag)):
        if math.isnan(u) != math.isnan(v):
            # a missing complex value may be missing in one component only
            return math.isnan(a.real) and math.isnan(b.real)
        if not math.isnan(u) and abs(u - v) > 1e-9 * max(1, abs(v)):
            return False
    return True


def compare(c, ds, occ, dur, rng, comp, unordered=()):
    d, reps = c["d"], c["d"]["reps"]
    sizes = p09.loop_sizes(d)
    chans = {x["ch"]: x for x in c["chans"]}
    by = {}
    for t, op, it in occ:
        by.setdefault(op["k"]["acq_channel"], []).append((t, op, it))
    expect({str(k) for k in ds.data_vars} == {str(k) for k in by}, "dataset has channels %r, "
           "scheduled %r", list(ds.data_vars), list(by))
    n = 0
    for ch, evs in by.items():
        x = chans[ch]
        p, mode = x["p"], x["mode"]
        da = ds[ch]
        dim = f"acq_index_{ch}"
        expect(da.attrs.get("acq_protocol") == p, "channel %r: protocol %r, scheduled %s", ch,
               da.attrs.get("acq_protocol"), p)
        if p == "Trace":
            expect(da.dims == (dim, f"trace_index_{ch}"), "channel %r: dimensions %r", ch, da.dims)
            want = np.array([complex(round(rng.u("s", 0, str(ch), k), 4),
                                     round(rng.u("s", 1, str(ch), k), 4))
                             for k in range(x["dur_"])])
            got = np.asarray(da.values)
            expect(got.shape == (1, x["dur_"]) and np.allclose(got[0], want),
                   "channel %r: trace %r, measured %r", ch, got.shape, want.shape)
            n += 1
            continue
        if mode == "distribution":
            counts = {}
            for r in range(reps):
                for t, op, it in evs:
                    k = rng.result(ch, op["uid"], it, r)["n"]
                    if k:
                        counts[k] = counts.get(k, 0) + 1
            got = dict(zip(np.asarray(da[f"counts_{ch}"].values).tolist(),
                           np.asarray(da.values).tolist()))
            expect(da.dims == (dim,), "channel %r: dimensions %r", ch, da.dims)
            expect(list(got) == sorted(got), "channel %r: counts are not sorted: %r", ch, got)
            expect(got == counts, "channel %r: distribution %r, measured %r", ch, got, counts)
            n += 1
            continue
        # ------------------------------------------ which entry belongs to which acquisition
        table, _ = p09.channel_table(comp)
        want = {}
        for t, op, it in evs:
            inloop = bool(sizes[id(op)]) and mode == "append"
            key = (op["k"]["coords"][f"uid_{ch}"], it if inloop else None)
            want.setdefault(key, []).append((op, it))
        dims = (dim,) if mode in ("average", "sum") else ("repetition", dim)
        if p == "TimetagTrace":
            dims = (*dims, f"trace_index_{ch}")
        expect(tuple(da.dims) == dims, "channel %r: dimensions %r, expected %r", ch, da.dims, dims)
        idx = np.asarray(da[dim].values).tolist()
        expect(idx == list(range(len(want))),
               "channel %r: indices %r, %d acquisitions", ch, idx, len(want))
        if mode == "append":
            expect(np.asarray(da["repetition"].values).tolist() == list(range(reps)),
                   "channel %r: repetitions %r of %d", ch, da["repetition"].values, reps)
        uids = np.asarray(da[f"uid_{ch}"].values).tolist()
        its = (np.asarray(da[f"loop_repetition_{ch}"].values).tolist()
               if f"loop_repetition_{ch}" in da.coords else [math.nan] * len(uids))
        seen = set()
        for i, (u, it) in enumerate(zip(uids, its)):
            key = (u, None if isinstance(it, float) and math.isnan(it) else it)
            if key not in want:
                key = (u, None)
            expect(key in want and key not in seen, "channel %r index %d: labelled %r, acquisitions "
                   "are %r", ch, i, (u, it), sorted(want, key=str)[:10])
            seen.add(key)
            ops = want[key]
            k = ops[0][0]["k"]
            if "acq_index" in k and mode in ("average", "sum"):
                expect(idx[i] == k["acq_index"], "channel %r: explicit index %d is at %d", ch,
                       k["acq_index"], idx[i])
            vals = [[rng.result(ch, op["uid"], jt, r) for op, jt in ops] for r in range(reps)]
            if mode in ("average", "sum"):
                v = convert(p, x, [y for row in vals for y in row], acq.acq_dur(ops[0][0]))
                expect(same(da.values[i], v), "channel %r (%s) index %d: %r, measured %r", ch, p, i,
                       da.values[i], v)
                n += 1
                continue
            for r in range(reps):
                if p == "TimetagTrace":
                    if ch in unordered:
                        continue  # known finding
                    tags = [y / 2048 for y in tags_of(vals[r][0])]
                    got = [y for y in np.asarray(da.values[r][i]).tolist() if not math.isnan(y)]
                    expect(len(got) == len(tags) and np.allclose(got, tags, atol=1e-6),
                           "channel %r (%s) repetition %d index %d: %r, measured %r", ch, p, r, i,
                           got[:4], tags[:4])
                else:
                    v = convert(p, x, vals[r], acq.acq_dur(ops[0][0]))
                    expect(same(da.values[r][i], v), "channel %r (%s) repetition %d index %d: %r, "
                           "measured %r", ch, p, r, i, da.values[r][i], v)
                n += 1
    return n


def tag(d):
    """Number the acquisition leaves (uid)."""
    k = [0]

    def walk(op):
        if op["t"] == "op":
            if op["c"] in Q.ACQS:
                k[0] += 1
                op["uid"] = k[0]
        elif op["t"] in ("loop", "cond"):
            walk(op["body"])
        else:
            for it in op["ops"]:
                walk(it["op"])

    walk(d)


def check(case):
    from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
    from quantify_scheduler.instrument_coordinator.components.qblox import ClusterComponent

    setup()
    ic = InstrumentCoordinator(f"ic{next(N_IC)}", add_default_generic_icc=False)
    comp_ic = ClusterComponent(CLUSTER)
    ic.add_component(comp_ic)
    total, kinds = 0, set()
    try:
        for j, c in enumerate(case["runs"]):
            tag(c["d"])
            comp = p09.compile_case(c)
            occ, dur = p09.occurrences(c["d"])
            rng = Rng(f"{case['seed']}.{j}", case["missing"])
            data, scopes, unordered = simulate(c, comp, occ, dur, rng)
            if case.get("strict"):
                unordered = ()
            stored = []
            undo = install(data, scopes, stored)
            try:
                with sut("preparing"):
                    ic.prepare(comp)
                if case["start"]:
                    with sut("starting"):
                        ic.start()
                with sut("retrieving"):
                    ds = ic.retrieve_acquisition()
                total += compare(c, ds, occ, dur, rng, comp, unordered)
                if case["again"]:
                    with sut("retrieving again"):
                        ds2 = ic.retrieve_acquisition()
                    compare(c, ds2, occ, dur, rng, comp, unordered)
            finally:
                restore(undo)
            traces = [x for x in c["chans"] if x["p"] == "Trace"
                      and any(op["k"]["acq_channel"] == x["ch"] for _, op, _ in occ)]
            if traces:
                expect(stored, "the trace was not stored before it was retrieved")
            kinds |= {op["c"] for _, op, _ in occ}
    finally:
        for o in (comp_ic, ic):
            try:
                o.close()
            except Exception:  # noqa: BLE001, S110
                pass
    return ok(total >= 2, [f"runs={len(case['runs'])}", *sorted(kinds)])


@st.composite
def runs(draw, n=(1, 1), **kw):
    return {"runs": [draw(acq.program(**kw)) for _ in range(draw(st.integers(*n)))],
            "seed": draw(st.integers(0, 10**6)), "start": draw(st.booleans()),
            "again": draw(st.booleans()), "missing": draw(st.sampled_from([0.0, 0.0, 0.2, 0.6]))}


@st.composite
def shared(draw):
    """One acquisition channel measured on several ports, each by a sequencer of its own."""
    p = draw(st.sampled_from(["SSBIntegrationComplex", "ThresholdedAcquisition"]))
    mode = draw(st.sampled_from(["average", "append"]))
    c = draw(acq.program(lanes=("ro0", "ro1", "rfro", "mw0"), protocols=[p], modes=(mode,),
                         depth=1, items=(3, 8), trace=False))
    ch = c["chans"][0]["ch"]

    def walk(op):
        if op["t"] == "op":
            k = op["k"]
            if "acq_channel" in k and k["acq_channel"] != ch:
                k["coords"] = {f"uid_{ch}": k["coords"][f"uid_{k['acq_channel']}"]}
                k["acq_channel"] = ch
            k.pop("acq_index", None)
        elif op["t"] in ("loop", "cond"):
            walk(op["body"])
        else:
            for it in op["ops"]:
                walk(it["op"])

    walk(c["d"])
    for x in c["chans"]:
        x["ch"] = ch
    return {"runs": [c], "seed": draw(st.integers(0, 10**6)), "start": True,
            "again": draw(st.booleans()), "missing": draw(st.sampled_from([0.0, 0.0, 0.3]))}


SUBS = [
    Sub("results", lambda: runs(depth=1), check, quick=600, thorough=15000,
        rule="all protocols and bin modes, loops, repetitions; non-trivial: >= 2 values compared"),
    Sub("shared channel", shared, check, quick=200, thorough=6000,
        rule="one acquisition channel measured by several sequencers and modules"),
    Sub("histories", lambda: runs(n=(2, 3), depth=1, items=(1, 5)), check, quick=250,
        thorough=10000, rule="several schedules after each other on the same coordinator"),
    Sub("nested loops", lambda: runs(depth=3, loops=0.5, items=(1, 4), lanes=("ro0", "rq", "tq")),
        check, quick=250, thorough=10000, rule="entries of every iteration"),
]


def timetag_traces_in_loop():
    l = Q.LANES["tq"]

    def A(uid):
        return {"t": "op", "c": "TimetagTrace", "k": dict(
            port=l.port, clock=l.clock, acq_channel=0, duration=400e-9, time_ref="start",
            bin_mode={"__b": "append"}, coords={"uid_0": uid})}

    body = {"t": "sched", "name": "b", "reps": 1, "ops": [
        {"op": A(1), "rel": 0}, {"op": A(2), "rel": 100e-9},
        {"op": {"t": "op", "c": "IdlePulse", "k": {"duration": 1e-6}}, "rel": 0}]}
    d = {"t": "sched", "name": "k", "reps": 1, "ops": [
        {"op": {"t": "loop", "n": 2, "body": body}, "rel": 0}]}
    c = {"d": d, "lanes": ["tq"], "chans": [dict(ch=0, lane="tq", p="TimetagTrace",
                                                 mode="append", dur_=400)]}
    for seed in range(4):
        check({"runs": [c], "seed": seed, "start": False, "again": False, "missing": 0.0,
               "strict": True})


KNOWN = [Known("P10-timetag-traces-in-loops", "the traces of several TimetagTrace acquisitions in "
               "a loop are assigned to the wrong acquisitions: recorded windows are assumed to be "
               "in the order of the bins", timetag_traces_in_loop)]

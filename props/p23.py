"""P23: gettables run the requested experiment and return the data of its setpoints."""
from __future__ import annotations

import itertools
import json
import math
import os
import zipfile

import numpy as np
from hypothesis import strategies as st

from vf import full, gen
from vf import qblox as Q
from vf.core import KEEP, Discard, Sub, Violation, expect, impossible_gap, ok, sut

ASSUMPTIONS = (
    "The instruments are dummies that return what the programs prepared on them make happen: the "
    "result of an acquisition is (delay between the end of the last drive pulse and the "
    "acquisition) + i (amplitude of that pulse), measured on the emulated programs of the last "
    "`prepare`.  Interaction with quantify-core (reshaping to arrays) is part of the loop.  "
    "always_initialize=False is documented to keep the program of the first call.")

N = itertools.count()
QS = full.QUBITS


def setup():
    from qblox_instruments import Cluster, ClusterType

    global CLUSTER, DEV, ELS
    T = ClusterType
    if "CLUSTER" in globals():
        return
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement

    CLUSTER = Cluster("cluster0", dummy_cfg={
        11: T.CLUSTER_QCM_RF, 12: T.CLUSTER_QCM_RF, 13: T.CLUSTER_QRM_RF, 14: T.CLUSTER_QRM_RF,
        15: T.CLUSTER_QRM_RF, 16: T.CLUSTER_QCM})
    DEV = QuantumDevice("p23dev")
    ELS = {}
    for q in QS:
        e = BasicTransmonElement(q)
        DEV.add_element(e)
        ELS[q] = e
    DEV.hardware_config(full.hw())
    KEEP.update({"cluster0", "p23dev", *QS})


# ---------------------------------------------------------------- simulated instruments
def results(comp):
    """[(qubit, t, delay, amplitude)] of the acquisitions of all emulated programs, in time."""
    seqs = Q.sequencers(comp)
    out = {}
    for q in QS:
        ro = Q.find(seqs, full.LANES[f"{q}ro"])
        if not ro or not ro[0].trace.acq:
            continue
        expect(len(ro) == 1, "%s is measured by %d sequencers", q, len(ro))
        ro = ro[0]
        mw = Q.find(seqs, full.LANES[f"{q}mw"])
        acqs = [a for a in sorted(ro.trace.acq, key=lambda a: a["t"]) if a.get("en") != 0]
        end = acqs[-1]["t"] + 1
        env = Q.envelope(mw[0], mw[0].trace, 0, end) if mw else np.zeros(end)
        last, res = 0, []
        for a in acqs:
            w = np.abs(env[last:a["t"]])
            nz = np.nonzero(w > 1e-5)[0]
            if len(nz):
                res.append((a, len(w) - 1 - nz[-1], float(np.max(w))))
            else:
                res.append((a, 0, 0.0))
            last = a["t"]
        out[q] = (ro, res)
    return out


def fake(comp):
    """Acquisition data per (module name, sequencer) in the form of the driver."""
    data = {}
    for q, (ro, res) in results(comp).items():
        bins = {}
        for a, d, amp in res:
            bins.setdefault(a["acq"], {}).setdefault(a["bin"], []).append((d, amp))
        out = {}
        n = ro.s.integration_length_acq
        for idx, (_, size) in ro.acqs.items():
            nan = [math.nan] * size
            e = {"integration": {"path0": list(nan), "path1": list(nan)}, "threshold": list(nan),
                 "avg_cnt": list(nan)}
            for b, vs in bins.get(idx, {}).items():
                d, a = np.mean([v[0] for v in vs]), np.mean([v[1] for v in vs])
                e["integration"]["path0"][b] = d * 1e-3 * (n or 1)
                e["integration"]["path1"][b] = a * (n or 1)
                e["threshold"][b] = float(np.mean([v[0] % 8 == 0 for v in vs]))
                e["avg_cnt"][b] = len(vs)
            sc = {f"path{i}": {"data": [0.0] * 16384, "out-of-range": False, "avg_cnt": 0}
                  for i in range(2)}
            out[str(idx)] = {"index": idx, "acquisition": {"scope": sc, "bins": e}}
        data[(ro.module, int(ro.name.replace("seq", "")))] = out
    return data


class Bench:
    """Coordinator whose instruments return `fake` of the programs prepared last."""

    def __init__(self, kind):
        from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
        from quantify_scheduler.instrument_coordinator.components.qblox import ClusterComponent

        self.log = []
        self.data = None
        self.loaded = None
        bench = self

        class IC(InstrumentCoordinator):
            def prepare(self, compiled):
                bench.log.append("prepare")
                bench.data = None
                super().prepare(compiled)
                bench.comp = compiled
                bench.data = fake(compiled)

            def start(self):
                bench.log.append("start")
                super().start()

            def stop(self, allow_failure=False):
                bench.log.append("stop")
                super().stop(allow_failure)

            def retrieve_acquisition(self):
                bench.log.append("retrieve")
                return super().retrieve_acquisition()

        self.ic = IC(f"ic{next(N)}", add_default_generic_icc=False)
        self.comp_ic = ClusterComponent(CLUSTER)
        self.ic.add_component(self.comp_ic)
        self.olds = []
        for m in CLUSTER.modules:
            if m.present():
                m.get_acquisitions = lambda seq, *a, m=m, **k: json.loads(json.dumps(
                    (bench.data or {}).get((m.name, seq), {})))
        CLUSTER.store_scope_acquisition = lambda *a: None

    def close(self):
        for m in CLUSTER.modules:
            m.__dict__.pop("get_acquisitions", None)
        CLUSTER.__dict__.pop("store_scope_acquisition", None)
        for o in (self.comp_ic, self.ic):
            try:
                o.close()
            except Exception:  # noqa: BLE001, S110
                pass


# ---------------------------------------------------------------- the experiment
def experiment(delays, amp, qubits, kind, proto, mode, indices, fail=False, repetitions=1):
    from quantify_scheduler import Schedule
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations import IdlePulse, Measure, SquarePulse, X

    if fail:
        raise ZeroDivisionError("asked to fail")
    s = Schedule("experiment", repetitions)
    for i, (d, a) in enumerate(np.broadcast(np.atleast_1d(delays), np.atleast_1d(amp))):
        s.add(IdlePulse(1e-6))
        for j, q in enumerate(qubits):
            if kind == "gate":
                p = s.add(X(q))
            else:
                p = s.add(SquarePulse(amp=float(a), duration=20e-9, port=f"{q}:mw",
                                      clock=f"{q}.01"))
            s.add(Measure(q, acq_protocol=proto, bin_mode=BinMode(mode),
                          **({"acq_index": i} if indices else {})),
                  ref_op=p, ref_pt="end", rel_time=float(d) + 8e-9 * j)
    s.add(IdlePulse(1e-6))
    return s


def value(x, state, q, j):
    """Expected result of setpoint j on qubit q."""
    d = round(float(state["delays"][j] if len(state["delays"]) > 1 else state["delays"][0]) * 1e9)
    d += 8 * x["qubits"].index(q) + round(state["delay"][q] * 1e9)
    a = state["amp"][j] if len(state["amp"]) > 1 else state["amp"][0]
    if x["proto"] == "ThresholdedAcquisition":
        return 1.0 if d % 8 == 0 else 0.0
    return complex(d * 1e-3, a)


def matrix(x, state):
    """{acquisition channel: (rows=repetitions or 1, setpoints)}"""
    out = {}
    n = max(len(state["delays"]), len(state["amp"]))
    for q in x["qubits"]:
        row = [value(x, state, q, j) for j in range(n)]
        out[state["channel"][q]] = np.array([row] * (state["reps"] if x["mode"] == "append" else 1))
    return out


def close_(got, want, tol=2e-4):
    """NaN never equal; amplitudes are quantised by the hardware."""
    got, want = np.asarray(got), np.asarray(want)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol))


def compare(x, state, got, what):
    want = matrix(x, state)
    if x["xarray"]:
        expect(set(got.data_vars) == set(want), "%s: acquisition channels %r, expected %r", what,
               sorted(got.data_vars), sorted(want))
        for ch, w in want.items():
            g = got[ch].values
            expect(close_(g, w if x["mode"] == "append" else w[0]),
                   "%s: channel %r holds %r, expected %r", what, ch, g, w)
        return
    cols = []
    for ch in sorted(want):
        v = want[ch].reshape(-1)
        if x["proto"] == "ThresholdedAcquisition":
            cols.append((v, 0.0))
        elif x["real_imag"]:
            cols += [(v.real, 0), (v.imag, 0)]
        else:
            cols += [(np.abs(v), 0), (np.angle(v, deg=True), 0.02)]
    expect(isinstance(got, tuple) and len(got) == len(cols), "%s: %d columns, expected %d", what,
           len(got), len(cols))
    for k, (w, tol) in enumerate(cols):
        g = np.asarray(got[k])
        expect(close_(g, w, 2e-4 + tol + 1e-3 * bool(tol) * float(np.max(np.abs(w)))),
               "%s: column %d is %r, expected %r", what, k, g.tolist(), np.asarray(w).tolist())


def report(b, g, x, state, what):
    """The diagnostics report contains the experiment that was run."""
    import quantify_core.data.handling as h

    from quantify_scheduler import Schedule
    from quantify_scheduler.schedules.schedule import CompiledSchedule

    h.set_datadir(os.path.join(os.getcwd(), "data"))
    with sut(f"{what}: report"):
        path = g.initialize_and_get_with_report()
    try:
        # dummies have no logs
        expect("completed_exp" in path or "failed_hw_log_retrieval" in path, "%s: report of a completed experiment is %s", what, path)
        z = zipfile.ZipFile(path)
        with sut(f"{what}: loading the schedule of the report"):
            s = Schedule.from_json(z.read("schedule.json").decode())
            c = CompiledSchedule.from_json(z.read("compiled_schedule.json").decode())
        expect(s.repetitions == state["reps"], "%s: report has %r repetitions, run with %r", what,
               s.repetitions, state["reps"])
        expect(c.compiled_instructions == json.loads(
            b.comp.to_json()) or c.repetitions == state["reps"], "%s: compiled schedule", what)
        kw = json.loads(z.read("gettable.json"))
        expect(kw["repetitions"] == state["reps"], "%s: reported %r", what, kw)
        got = np.atleast_1d(kw["evaluated_schedule_kwargs"]["delays"]).tolist()
        expect(got == list(state["delays"]), "%s: report says delays %r, run with %r", what, got,
               state["delays"])
        dev = json.loads(z.read("quantum_device.json"))
        expect("elements" in json.dumps(dev)[:10**6], "%s: device missing in report", what)
        hw = json.loads(z.read("hardware_cfg.json"))
        expect(hw == json.loads(json.dumps(DEV.hardware_config())), "%s: hardware configuration "
               "differs in the report", what)
    finally:
        os.remove(path)


def check(case):
    from qcodes.instrument.parameter import ManualParameter, Parameter

    from quantify_scheduler.gettables import ScheduleGettable
    from quantify_scheduler.gettables_profiled import ProfiledScheduleGettable

    setup()
    b = Bench(case)
    box = {"delays": None, "amp": None}
    if case.get("derived"):
        # parameters whose value follows from something else, and is only known by reading it
        p = {k: Parameter(f"p_{k}", get_cmd=lambda k=k: box[k]) for k in box}
    else:
        p = {k: ManualParameter(f"p_{k}", initial_value=None) for k in box}
    cur = {"reps": 1, "delays": None, "amp": None, "fail": [False, False],
           "delay": {q: 200e-9 for q in QS},
           "channel": {q: i for i, q in enumerate(QS)}}
    gs = []
    used, n = set(), 0

    def setp(k, v):
        cur[k] = v
        # scalars are what iterative experiments have
        v = None if v is None else (float(v[0]) if len(v) == 1 and case["scalar"] else np.array(v))
        if case.get("derived"):
            box[k] = v
        else:
            p[k].set(v)

    try:
        DEV.instr_instrument_coordinator(b.ic.name)
        DEV.cfg_sched_repetitions(1)
        for q in QS:
            ELS[q].measure.acq_delay(200e-9)
            ELS[q].measure.pulse_duration(100e-9)
            ELS[q].measure.integration_time(100e-9)
            ELS[q].measure.acq_channel(QS.index(q))
            ELS[q].clock_freqs.f01(full.F01[q])
            ELS[q].clock_freqs.f12(full.F01[q] - 2e8)
            ELS[q].clock_freqs.readout(full.FRO[q])
            ELS[q].rxy.amp180(0.3)
        for x in case["gets"]:
            kw = {"delays": p["delays"], "amp": p["amp"] if x["paramamp"] else x["amp"],
                  "qubits": x["qubits"], "kind": "pulse", "proto": x["proto"],
                  "mode": x["mode"], "indices": x["indices"]}
            fails = ManualParameter(f"fail{len(gs)}", initial_value=False)
            kw["fail"] = fails
            cls = ProfiledScheduleGettable if x.get("profiled") and not gs else ScheduleGettable
            g = cls(DEV, experiment, kw, num_channels=len(x["qubits"]), real_imag=x["real_imag"],
                    batched=x["batched"], always_initialize=x["always"],
                    return_xarray=x["xarray"])
            gs.append([g, False, fails])
            m = 1 if x["proto"] == "ThresholdedAcquisition" else 2
            want = (["I", "Q"] if x["real_imag"] else ["magn", "phase"]) * len(x["qubits"])
            expect(g.name == want and len(g.label) == len(want) == len(g.unit),
                   "names %r, labels %r", g.name, g.label, m=m)
        loaded = None

        def snapshot(x):
            s = json.loads(json.dumps(cur))
            s["channel"] = dict(cur["channel"])
            if not x["paramamp"]:
                s["amp"] = [x["amp"]]
            return s

        for step, a in enumerate(case["acts"]):
            what = f"step {step} {a}"
            if a[0] == "set":
                setp(a[1], a[2])
            elif a[0] == "reps":
                cur["reps"] = a[1]
                DEV.cfg_sched_repetitions(a[1])
            elif a[0] == "dev":
                cur["delay"][a[1]] = a[2]
                ELS[a[1]].measure.acq_delay(a[2])
            elif a[0] == "chan":
                cur["channel"] = dict(zip(QS, a[1]))
                for q in QS:
                    ELS[q].measure.acq_channel(cur["channel"][q])
            elif a[0] == "fail":
                k = a[1] % len(gs)
                gs[k][2].set(a[2])
                cur["fail"][k] = a[2]
            else:
                k = a[1] % len(gs)
                g, init, fails = gs[k]
                x = case["gets"][k]
                prep = a[0] in ("init", "report") or not init or x["always"]
                if a[0] == "report":
                    if cur["fail"][k] or any(v is None for v in (
                            cur["delays"], cur["amp"] if x["paramamp"] else 0)):
                        continue
                b.log.clear()
                bad = prep and (cur["fail"][k] or cur["delays"] is None
                                or (x["paramamp"] and cur["amp"] is None))
                if prep and not bad:
                    s = snapshot(x)
                    if len(s["delays"]) > 1 and len(s["amp"]) > 1 and \
                            len(s["delays"]) != len(s["amp"]):
                        bad = True
                if a[0] == "report":
                    if bad:
                        continue
                    want = matrix(x, s)
                    if not x["batched"] and not x["xarray"] and \
                            any(v.size != 1 for v in want.values()):
                        continue
                    if x["xarray"]:
                        continue
                    report(b, g, x, s, what)
                    gs[k][1], loaded = True, (s, x)
                    n += 1
                    continue
                if a[0] == "init":
                    try:
                        g.initialize()
                    except Exception as e:  # noqa: BLE001
                        if impossible_gap(e):
                            raise Discard("gap") from e
                        expect(bad, "%s raised %s: %s", what, type(e).__name__, e)
                        expect("prepare" not in b.log, "%s prepared after a failure", what)
                        continue
                    expect(not bad, "%s: initialised although the schedule cannot be made", what)
                    gs[k][1], loaded = True, (s, x)
                    expect(b.log == ["prepare"], "%s: calls %r", what, b.log)
                    continue
                # get
                exp = (s, x) if prep and not bad else loaded
                size_bad = False
                if not bad:
                    es, ex = exp
                    want = matrix(ex, es)
                    size_bad = (not x["xarray"] and not x["batched"]
                                and any(v.size != 1 for v in want.values()))
                try:
                    got = g.get() if a[0] == "get" else g()
                except Exception as e:  # noqa: BLE001
                    if impossible_gap(e):
                        raise Discard("gap") from e
                    expect(bad or size_bad, "%s raised %s: %s", what, type(e).__name__,
                           str(e)[:400])
                    if bad:
                        expect("start" not in b.log, "%s: started after a failure", what)
                    else:
                        expect(isinstance(e, ValueError), "%s: %s", what, e)
                        gs[k][1], loaded = True, exp
                        expect(b.log[-1] == "stop", "%s: %r", what, b.log)
                    used.add("refused")
                    continue
                expect(not bad, "%s: data although the schedule cannot be made", what)
                expect(not size_bad, "%s: %r although several values were measured", what, got)
                gs[k][1], loaded = True, exp
                mine = [v for v in b.log if v != "stop"]
                expect(mine == (["prepare"] if prep else []) + ["start", "retrieve"]
                       and b.log[-1] == "stop" and b.log[0] == "stop", "%s: calls %r", what, b.log)
                # the gettable decides on the form, the loaded program on the values
                compare({**ex, "xarray": x["xarray"], "real_imag": x["real_imag"]}, es, got, what)
                if g.compiled_schedule is not None and prep:
                    expect(g.compiled_schedule is b.comp and
                           g.compiled_schedule.repetitions == es["reps"],
                           "%s: compiled_schedule is not the one that was run", what)
                n += 1
                used |= {"append" if x["mode"] == "append" else "average",
                         "batched" if x["batched"] else "iterative"}
    finally:
        for g, *_ in gs:
            if hasattr(g, "profiled_instr_coordinator"):
                g.close()
        DEV.instr_instrument_coordinator(None)
        b.close()
    return ok(n >= 2, [f"gets={min(n, 5)}", *sorted(used)])


# ---------------------------------------------------------------- generators
AMP = st.sampled_from([0.1, 0.25, 0.4, 0.6, 0.33])
DELAY = gen.ns(12, 1200, 4)


@st.composite
def gettable(draw, multi=True):
    return {"qubits": draw(st.permutations(QS))[: draw(st.integers(1, 3))],
            "proto": draw(st.sampled_from(["SSBIntegrationComplex"] * 3 + ["ThresholdedAcquisition"])),
            "mode": draw(st.sampled_from(["average", "average", "append"])),
            "indices": draw(st.booleans()), "real_imag": draw(st.booleans()),
            "batched": draw(st.sampled_from([True, True, False])),
            "always": draw(st.sampled_from([True, True, False])),
            "xarray": draw(st.sampled_from([False, False, True])),
            "paramamp": draw(st.booleans()), "amp": draw(AMP)}


def setpoints(el, n):
    return st.lists(el, min_size=n[0], max_size=n[1])


@st.composite
def history(draw):
    k = draw(st.integers(1, 2))
    gets = [draw(gettable()) for _ in range(k)]
    if k == 1:
        gets[0]["profiled"] = draw(st.integers(0, 4)) == 0
    scalar = draw(st.booleans())
    one = any(not g["batched"] for g in gets)
    n = (1, 1) if one else (1, 5)
    acts = [["set", "delays", draw(setpoints(DELAY, n))], ["set", "amp", draw(setpoints(AMP, (1, 1)))]]
    for _ in range(draw(st.integers(2, 7))):
        kind = draw(st.integers(0, 13))
        w = draw(st.integers(0, 1))
        if kind == 0:
            acts.append(["reps", draw(st.integers(1, 4))])
        elif kind == 1:
            acts.append(["dev", draw(st.sampled_from(QS)), draw(gen.ns(120, 400, 4))])
        elif kind == 2:
            acts.append(["chan", draw(st.lists(st.integers(0, 9), min_size=3, max_size=3,
                                               unique=True))])
        elif kind == 3:
            f = draw(st.booleans())
            acts.append(["fail", w, True] if f else ["set", draw(st.sampled_from(
                ["delays", "amp"])), None])
            acts.append(["get", w])
            acts.append(["fail", w, False] if f else ["set", "delays", draw(setpoints(DELAY, n))])
            if not f:
                acts.append(["set", "amp", draw(setpoints(AMP, (1, 1)))])
        elif kind == 4:
            acts.append(["init", w])
        elif kind == 5:
            acts.append(["report", w])
        elif kind in (6, 7):
            acts.append(["set", "delays", draw(setpoints(DELAY, (1, 4)))])
        elif kind == 8:
            acts.append(["set", "amp", draw(setpoints(AMP, (1, 4)))])
        else:
            acts.append([draw(st.sampled_from(["get", "call"])), w])
    acts.append(["get", draw(st.integers(0, 1))])
    if draw(st.booleans()):
        acts += [["set", "delays", draw(setpoints(DELAY, n))],
                 ["set", "amp", draw(setpoints(AMP, (1, 1)))], ["get", draw(st.integers(0, 1))]]
    return {"gets": gets, "acts": acts, "scalar": scalar, "derived": draw(st.booleans())}


@st.composite
def equal_modes(draw):
    """The same setpoints measured in one batch and one at a time."""
    x = draw(gettable())
    x |= {"mode": "average", "always": True, "xarray": False}
    ds = draw(setpoints(DELAY, (2, 5)))
    acts = [["set", "amp", [draw(AMP)]], ["set", "delays", ds], ["get", 0]]
    for d in ds:
        acts += [["set", "delays", [d]], ["get", 1]]
    return {"gets": [{**x, "batched": True}, {**x, "batched": False}], "acts": acts,
            "scalar": True}


SUBS = [
    Sub("histories", history, check, quick=350, thorough=15000,
        rule="one or two gettables, parameters, device settings and repetitions changing between "
             "calls, failures in between; non-trivial: at least two data sets compared"),
    Sub("batched and iterative", equal_modes, check, quick=60, thorough=3000,
        rule="the same setpoints in one batch and one at a time"),
]

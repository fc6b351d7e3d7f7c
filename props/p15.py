"""P15: pulse compensation makes the net area of each compensated port zero, and nothing else."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from props.p06 import check_output
from props.p07 import check_carrier
from vf import build, core, qgen, wave
from vf import qblox as Q
from vf.core import Discard, Sub, Violation, expect, ok, sut
from vf.qgen import op, sec

ASSUMPTIONS = (
    "Areas are the sums of the reference samples on a 1 ns grid.  Blocks whose area is so small "
    "that it is only rounding noise, or whose compensation duration is within 1e-6 of a grid "
    "multiple, are discarded, as the duration is then not determined by the documentation.")

FL = ["fl0", "fl1"]
PLAY = ["fl0", "fl1", "mw0", "rf1"]
PORTS = {n: Q.LANES[n].port for n in PLAY}


class Bad(Exception):
    """The block may not be compensated (must be refused)."""


@st.composite
def params(draw, names=tuple(PLAY), grids=(4, 8, 12, 20, 4)):
    fl = [n for n in FL if n in names]
    ports = [PORTS[n] for n in draw(st.permutations(fl))[: draw(st.integers(1, 2))]]
    if draw(st.integers(0, 3)) == 0:
        ports.append(PORTS[draw(st.sampled_from(PLAY))])
    ports = sorted(set(ports))
    return {"max": {p: round(draw(st.floats(0.11, 0.98)), 3) + 0.00037 for p in ports},
            "grid": sec(draw(st.sampled_from(grids))), "rate": 1e9}


class Gen:
    def __init__(self, draw, kinds=("pulse",) * 5 + ("idle", "shift"), depth=1, names=None,
                 grids=(4, 4, 8, 12, 20), loops=0.3, **kw):
        self.draw, self.grids = draw, grids
        names = names or draw(st.sampled_from([["fl0"], FL, FL, ["fl1", "mw0"], [*FL, "mw0"],
                                               [*FL, "rf1"], PLAY]))
        self.names = sorted(names)
        self.kn = qgen.Knobs(self.names, list(kinds), depth=depth, items=(1, 5), loops=loops,
                             subs=0.2, reps=(1,), max_loop=3, **kw)
        self.b = qgen.Builder(draw, self.kn, {n: Q.LANES[n] for n in self.names})
        self.i = 0

    def plain(self, depth=1):
        self.i += 1
        d, total, used = self.b.block(depth, self.names, f"p{self.i}")
        return d

    def comp(self, depth):
        d = self.draw
        k = d(st.integers(0, 5))
        if depth and k == 0 and self.kn.loops > 0.1:
            body = {"t": "loop", "n": d(st.integers(1, 3)), "body": self.block(depth - 1)}
        elif depth and k <= 2:
            body = self.block(depth - 1)
        elif k == 3:
            l = Q.LANES[d(st.sampled_from([n for n in FL if n in self.names]))]
            body = d(qgen.pulse(l, True))
        else:
            body = self.plain()
            if d(st.integers(0, 4)):
                l = Q.LANES[d(st.sampled_from([n for n in FL if n in self.names]))]
                body = {"t": "sched", "name": f"w{self.i}", "reps": 1, "ops": [
                    {"op": d(qgen.pulse(l, True))},
                    {"op": op("IdlePulse", duration=sec(d(st.sampled_from([4, 11]))))},
                    {"op": body}]}
            if self.kn.loops > 0.1 and d(st.integers(0, 2)) == 0:
                body = {"t": "loop", "n": d(st.integers(1, 4)), "body": body}
        return {"t": "comp", "body": body, **d(params(tuple(self.names), self.grids))}

    def block(self, depth, least=0):
        """Blocks one after the other, with idle time between them."""
        d = self.draw
        self.i += 1
        items = [{"op": op("IdlePulse", duration=sec(d(st.sampled_from([4, 8, 20]))))}]
        n = d(st.integers(1, 3))
        for j in range(n):
            k = d(st.integers(0, 4))
            if k >= 2 or (j == n - 1 and least):
                x = self.comp(depth)
            elif k == 1 and depth and (self.kn.loops > 0.1 or depth == 2):
                x = {"t": "loop", "n": d(st.integers(1, 3)), "body": self.block(depth - 1)}
            else:
                x = self.plain()
            items.append({"op": x, "rel": sec(d(st.sampled_from([0, 0, 4, 7])))})
            items.append({"op": op("IdlePulse", duration=sec(d(st.sampled_from([4, 12, 40]))))})
        return {"t": "sched", "name": f"b{self.i}", "reps": 1, "ops": items}


@st.composite
def case(draw, depth=2):
    g = Gen(draw, loops=0.06)
    d = g.block(depth, 1)
    d["reps"] = draw(st.sampled_from([1, 1, 2]))
    d["share"] = draw(st.integers(0, 3)) == 0
    return {"d": d, "lanes": g.names}


def area(o):
    """Integral of a pulse in V s."""
    if o["c"] == "SquarePulse":
        return build_c(o["k"]["amp"]) * wave.dur_ns(o) * 1e-9
    return float(np.sum(wave.of(o).real)) * 1e-9


def build_c(v):
    return complex(*v["__c"]) if isinstance(v, dict) else v


def resolve(o, stats, strategy="asap"):
    """The same description with compensation blocks written out."""
    t = o["t"]
    if t == "comp":
        body = resolve(o["body"], stats, strategy)
        stats["blocks"] = stats.get("blocks", 0) + 1
        sums, ends, mag, looped = {}, {}, {}, False
        for t0, x, path in build.leaves(body, Q.leaf_dur, 0.0, strategy):
            k = x["k"]
            p = k.get("port")
            if p not in o["max"]:
                continue
            if x["c"] == "VoltageOffset":
                raise Bad("offset")
            if x["c"] not in Q.PULSES or k.get("clock", Q.BASE) != Q.BASE:
                continue
            if any(e[0] == "cond" for e in path if isinstance(e, tuple)):
                raise Bad("conditional")
            a = area(x)
            sums[p] = sums.get(p, 0.0) + a
            mag[p] = mag.get(p, 0.0) + float(np.sum(np.abs(wave.of(x)))) * 1e-9
            ends[p] = max(ends.get(p, 0.0), t0 + Q.leaf_dur(x))
            looped |= any(e[0] == "loop" for e in path if isinstance(e, tuple))
        stats["looped"] = stats.get("looped", False) or looped
        ops = [{"op": body, "rel": 0}]
        for p in sorted(sums):
            if mag[p] == 0:
                continue
            if abs(sums[p]) < 1e-9 * mag[p] + 1e-15:
                # rounding errors decide whether a pulse without amplitude is added
                stats["noise"] = stats.get("noise", 0) + 1
                if stats["choice"] >> (stats["noise"] - 1) & 1:
                    ops.append({"op": op("SquarePulse", amp=0.0, duration=o["grid"], port=p,
                                         clock=Q.BASE),
                                "rel": ends[p], "ref": 0, "pt": "start", "ptn": "start"})
                continue
            ratio = abs(sums[p]) / o["grid"] / o["max"][p]
            if abs(ratio - round(ratio)) < 1e-6 * max(1, ratio):
                raise Discard("duration on the boundary")
            dur = sec(math.ceil(ratio) * Q.ns_of(o["grid"]))
            stats["pulses"] = stats.get("pulses", 0) + 1
            amp = -sums[p] / dur
            expect(abs(amp) <= o["max"][p], "reference")
            ops.append({"op": op("SquarePulse", amp=amp, duration=dur, port=p, clock=Q.BASE),
                        "rel": ends[p], "ref": 0, "pt": "start", "ptn": "start"})
        if strategy == "alap":
            ops = [dict(x, ref=len(ops) - 1) if "ref" in x else x for x in ops[1:] + ops[:1]]
        return {"t": "sched", "name": "comp", "reps": 1, "ops": ops}
    if t == "loop":
        return dict(o, body=resolve(o["body"], stats, strategy))
    if t == "cond":
        return dict(o, body=resolve(o["body"], stats, strategy))
    if t == "sched":
        return dict(o, ops=[dict(it, op=resolve(it["op"], stats, strategy)) for it in o["ops"]])
    return o


def compiled_events(comp):
    """(start s, pulse info or acquisition info) of a schedule compiled to the device layer."""
    from quantify_scheduler.operations.control_flow_library import (
        ConditionalOperation,
        LoopOperation,
    )
    from quantify_scheduler.schedules.schedule import ScheduleBase
    out = []

    def walk(o, t):
        if isinstance(o, ScheduleBase):
            for s in o.schedulables.values():
                walk(o.operations[s["operation_id"]], t + s["abs_time"])
        elif isinstance(o, LoopOperation):
            for i in range(o.data["control_flow_info"]["repetitions"]):
                walk(o.body, t + i * o.body.duration)
        elif isinstance(o, ConditionalOperation):
            walk(o.body, t)
        else:
            for p in o.data.get("pulse_info") or []:
                out.append((t + p["t0"], p))
    walk(comp, 0.0)
    return out


def device_check(c):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler
    from quantify_scheduler.backends.graph_compilation import (
        DeviceCompilationConfig,
        SerialCompilationConfig,
    )
    strat = c["strategy"]
    try:
        ref, _ = next(variants(c["d"], strat))
    except Bad as e:
        ref = e
    cfg = SerialCompilationConfig(
        name="vf", device_compilation_config=DeviceCompilationConfig.model_validate(
            dict(Q.EMPTY_DEV, scheduling_strategy=strat)))

    def compiled(d):
        with sut("building the schedule"):
            s = build.make_schedule(d, Q.clocks_of(PLAY))
        return SerialCompiler("vf").compile(s, config if config is not None else cfg)
    config = None
    if c.get("gates") is not None:
        config = gate_config(c, strat)
        gated = to_gates(c["d"])
        el = c["gates"]
        if len({(v["grid"], v["rate"]) for v in el.values()}) > 1:
            try:
                compiled(gated)
            except Exception:
                return ok(True, ["refused elements"])
            expect(False, "device elements with different time grids or sampling rates are "
                   "compensated together: %s", el)
        if isinstance(ref, Bad):
            raise Discard("covered by the device sub")
        with sut("compiling a gate level pulse compensation"):
            got = compiled(gated)
        stats = any_variant(c["d"], strat, lambda d: compare(got, d, strat))
        return ok(stats.get("pulses", 0) > 0, [strat, f"pulses={min(stats.get('pulses', 0), 8)}"])
    if isinstance(ref, Bad):
        try:
            compiled(c["d"])
        except Exception:
            return ok(True, ["refused"])
        expect(False, "a block with an area that is not known (%s) is compensated", ref)
    with sut("compiling a schedule with pulse compensation"):
        got = compiled(c["d"])
    stats = any_variant(c["d"], strat, lambda d: compare(got, d, strat))
    return ok(stats.get("pulses", 0) > 0, [strat, f"blocks={min(stats.get('blocks', 0), 6)}",
                                           f"pulses={min(stats.get('pulses', 0), 8)}"])


_DEV = None


def gate_config(c, strat):
    """The compilation configuration of real device elements with these parameters."""
    global _DEV
    if _DEV is None:
        from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
        from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
        dev = QuantumDevice("vf_p15")
        _DEV = dev, [BasicTransmonElement(n) for n in ("pcq0", "pcq1")]
        core.KEEP.update({"vf_p15", "pcq0", "pcq1"})
        for e in _DEV[1]:
            dev.add_element(e)
            e.clock_freqs.f01(5e9)
            e.clock_freqs.f12(4.8e9)
            e.clock_freqs.readout(7e9)
            e.measure.acq_delay(1e-7)
            e.rxy.amp180(0.2)
    dev, els = _DEV
    dev.scheduling_strategy(strat)
    for e in els:
        v = c["gates"].get(e.name)
        if v is not None:
            e.pulse_compensation.max_compensation_amp(v["max"])
            e.pulse_compensation.time_grid(v["grid"])
            e.pulse_compensation.sampling_rate(v["rate"])
    return dev.generate_compilation_config()


def to_gates(o):
    """The same description with compensation blocks given by their device elements."""
    if o["t"] == "comp":
        return {"t": "comp", "body": to_gates(o["body"]),
                "qubits": [p.split(":")[0] for p in o["max"]]}
    if o["t"] == "sched":
        return dict(o, ops=[dict(it, op=to_gates(it["op"])) for it in o["ops"]])
    if o["t"] in ("loop", "cond"):
        return dict(o, body=to_gates(o["body"]))
    return o


@st.composite
def gate_case(draw):
    """Pulses on the ports of device elements, compensated with the elements' parameters."""
    c = draw(device_case())
    grid = sec(draw(st.sampled_from([4, 8, 20, 3])))
    els = {q: {"max": round(draw(st.floats(0.11, 0.98)), 3) + 0.00037, "grid": grid, "rate": 1e9}
           for q in ("pcq0", "pcq1")}
    port = {PORTS["fl0"]: "pcq0:mw", PORTS["fl1"]: "pcq1:mw"}
    multi = []

    def walk(o):
        if o["t"] == "comp":
            qs = sorted({port[p].split(":")[0] for p in o["max"] if p in port})
            if draw(st.integers(0, 1)):
                qs.reverse()
            multi.append(len(qs) > 1)
            return {"t": "comp", "body": walk(o["body"]), "grid": grid, "rate": 1e9,
                    "max": {f"{q}:mw": els[q]["max"] for q in qs}}
        if o["t"] == "sched":
            return dict(o, ops=[dict(it, op=walk(it["op"])) for it in o["ops"]])
        if o["t"] in ("loop", "cond"):
            return dict(o, body=walk(o["body"]))
        if o["t"] == "op" and o["k"].get("port") in port:
            return dict(o, k=dict(o["k"], port=port[o["k"]["port"]]))
        if o["t"] == "multi":
            return dict(o, ops=[walk(x) for x in o["ops"]])
        return o
    d = walk(c["d"])
    if any(multi) and draw(st.integers(0, 9)) == 0:
        els["pcq1"]["grid" if draw(st.booleans()) else "rate"] *= 2
    return dict(c, d=d, gates=els)


def compare(got, ref, strat):
    one = dict(ref, reps=1)
    want = [(round((t + (o["k"].get("t0") or 0)) * 1e10), o["k"]["port"],
             o["k"].get("clock", Q.BASE), round(wave.dur_ns(o) * 10), o)
            for t, o, _ in build.leaves(one, Q.leaf_dur, 0.0, strat) if o["c"] in Q.PULSES]
    have = [(round(t * 1e10), p["port"], p["clock"], round(p["duration"] * 1e10), p)
            for t, p in compiled_events(got) if p.get("wf_func")]
    want.sort(key=lambda e: (e[:4], str(e[4]["c"])))
    have.sort(key=lambda e: (e[:4], str(e[4]["wf_func"])))
    a, b = [e[:4] for e in have], [e[:4] for e in want]
    expect(a == b, "pulses with compensation at (0.1 ns, port, clock, duration): missing %s, "
           "unexpected %s", [e for e in b if e not in a][:4], [e for e in a if e not in b][:4])
    sq = sorted((*e[:4], round(e[4]["amp"].real, 9)) for e in have if e[4]["wf_func"].endswith(
        ".square"))
    ex = sorted((*e[:4], round(build_c(e[4]["k"]["amp"]).real, 9)) for e in want
                if e[4]["c"] == "SquarePulse")
    expect(len(sq) == len(ex) and all(x[:4] == y[:4] and abs(x[4] - y[4]) < 2e-8
                                      for x, y in zip(sq, ex)),
           "square pulses %s, expected %s", [x for x in sq if x not in ex][:3],
           [x for x in ex if x not in sq][:3])
    total = build.duration(one, Q.leaf_dur, strat) * ref.get("reps", 1)
    expect(abs(got.duration - total) < 1e-12,
           "schedule duration %s, expected %s", got.duration, total)


@st.composite
def device_case(draw):
    g = Gen(draw, grids=draw(st.sampled_from([(4, 8), (1, 3, 7), (12, 20, 100)])))
    d = g.block(2, 1)
    d["reps"] = draw(st.sampled_from([1, 1, 2]))
    d["share"] = draw(st.integers(0, 3)) == 0
    strategy = draw(st.sampled_from(["asap", "asap", "alap"]))
    k = draw(st.integers(0, 9))
    if k < 2:  # an area that is not known in advance
        l = Q.LANES[draw(st.sampled_from(FL))]
        if k == 0:
            x = op("VoltageOffset", offset_path_I=draw(st.sampled_from([0.1, 0.0])),
                   offset_path_Q=0.0, port=l.port, clock=l.clock)
        else:
            x = {"t": "cond", "q": "q0", "buf": 4e-9,
                 "body": draw(st.one_of(qgen.pulse(l), st.just(g.plain())))}
        body = g.plain()
        body["ops"].insert(draw(st.integers(0, len(body["ops"]) - 1)) and 0, {"op": x})
        body["ops"] = [{k: v for k, v in it.items() if k == "op"} for it in body["ops"]]
        d["ops"].insert(1, {"op": {"t": "comp", "body": body, **draw(params(tuple(g.names)))}})
    if strategy == "alap":
        alapify(d)
    return {"d": d, "lanes": g.names, "strategy": strategy}


def alapify(o):
    """Default timing for everything (the reference points of the ASAP strategy do not apply)."""
    if o["t"] == "sched":
        for it in o["ops"]:
            for k in ("ref", "pt", "ptn", "rel"):
                it.pop(k, None)
            alapify(it["op"])
    elif o["t"] in ("loop", "cond", "comp"):
        alapify(o["body"])


def variants(d, strategy="asap"):
    """The written out descriptions; several if areas are zero up to rounding errors."""
    choice = 0
    while True:
        stats = {"choice": choice}
        yield resolve(d, stats, strategy), stats
        k = stats.get("noise", 0)
        choice += 1
        if choice >> min(k, 4):
            return


def any_variant(d, strategy, judge):
    first = None
    for ref, stats in variants(d, strategy):
        try:
            judge(ref)
            return stats
        except Violation as e:
            first = first or e
    raise first


def check(c):
    with sut("building the schedule"):
        s = build.make_schedule(c["d"], Q.clocks_of(c["lanes"]))
    try:
        comp = Q.compile_schedule(s, Q.hardware(c["lanes"]))
    except Discard:
        raise
    except Exception as e:
        # "just after the last pulse" may be before the end of the control flow with that pulse
        _, stats = next(variants(c["d"]))
        if stats["looped"] and any(x in str(e) for x in (
                "Invalid timing", "during the control flow")):
            raise Discard("starts during control flow") from None
        raise Violation("compiling a schedule with pulse compensation: %s: %s" % (
            type(e).__name__, str(e)[:300])) from e

    def judge(d):
        ref = dict(c, d=d)
        evs, _, _ = check_output(ref, comp, what="output with pulse compensation")
        check_carrier(ref, comp, evs)
    stats = any_variant(c["d"], "asap", judge)
    return ok(stats.get("pulses", 0) > 0, [f"blocks={min(stats.get('blocks', 0), 6)}",
                                           f"pulses={min(stats.get('pulses', 0), 8)}"])


SUBS = [
    Sub("device", device_case, device_check, quick=1000, thorough=40000,
        rule="nested compensated blocks, sub-schedules, loops, conditionals and single operations, "
             "ASAP and ALAP, any grid, compiled to the device layer and compared with the same "
             "schedule with the compensation pulses written out; offsets and conditional pulses on "
             "compensated ports must be refused; non-trivial: a pulse is expected or refused"),
    Sub("gates", gate_case, device_check, quick=250, thorough=10000,
        rule="the same with blocks given by device elements (their ports, amplitudes, grids and "
             "sampling rates from real transmon elements), which must equal the explicit blocks; "
             "elements with different grids or rates must be refused; non-trivial as before"),
    Sub("blocks", case, check, quick=700, thorough=20000,
        rule="nested compensated blocks, sub-schedules, loops and single operations with pulses on "
             "up to two compensated and two other ports, compiled to Qblox and emulated; "
             "non-trivial: at least one compensation pulse is expected"),
]

"""Generator of Qblox-compilable schedules with known absolute times.

Every lane (port-clock) has a cursor, the earliest time at which the next instruction may be
issued; operations are placed at or after the cursors they occupy, each referenced to a random
earlier operation with random reference points, so that the intended absolute time is known
by construction (and the description is again solved by the reference model).
"""
from __future__ import annotations

from hypothesis import strategies as st

from vf import wave
from vf.qblox import BASE, LANES


def r12(x):
    return round(x, 12)


def sec(n):
    return r12(n * 1e-9)


def op(c, **k):
    return {"t": "op", "c": c, "k": k}


class Knobs:
    def __init__(self, lanes, kinds, depth=1, items=(2, 8), loops=0.35, subs=0.15, reps=(1, 2, 3),
                 max_loop=3, long_pulses=True, digital=(), gaps=None, big=False, minblock=1,
                 shared=True, fixed_dims=None, acq=None, end_pad=4, phase_step=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})


GAPS = st.one_of(st.just(0), st.integers(0, 12), st.integers(0, 60), st.integers(0, 300))
DUR = st.one_of(st.integers(4, 24), st.integers(4, 99), st.sampled_from([4, 8, 20, 40]))
LONG = st.one_of(st.integers(100, 400), st.sampled_from([100, 104, 500, 1000, 4096]),
                 st.integers(100, 3000))
A = st.one_of(st.sampled_from([0.1, 0.25, 0.5, 1.0, -1.0, -0.3, 0.017]),
              st.floats(-1, 1, allow_nan=False).map(lambda x: round(x, 4)))
AN = A.map(lambda x: round(0.995 * x, 5))
AS = A.map(lambda x: round(0.7 * x, 5))


@st.composite
def pulse(draw, lane, long_pulses=True, arbitrary=True, cls=None):
    kw = dict(port=lane.port, clock=lane.clock)
    if lane.baseband and draw(st.booleans()):
        kw.pop("clock")
    if draw(st.integers(0, 7)) == 0:
        kw["t0"] = sec(draw(st.integers(0, 30)))
    cplx = not lane.real
    names = ["SquarePulse", "SquarePulse"]
    if arbitrary:
        names += ["RampPulse", "StaircasePulse", "SoftSquarePulse", "GaussPulse", "NumericalPulse"]
        if cplx:
            names += ["DRAGPulse", "ChirpPulse", "SkewedHermitePulse"]
        names += ["SuddenNetZeroPulse"]
    c = cls or draw(st.sampled_from(names))
    d = draw(LONG) if long_pulses and draw(st.integers(0, 3)) == 0 else draw(DUR)
    if c == "SquarePulse":
        a = draw(A)
        if cplx and draw(st.booleans()):
            a = {"__c": [draw(AS), draw(AS)]}
        k = dict(amp=a, duration=sec(d))
    elif c == "RampPulse":
        a = draw(AS)
        k = dict(amp=a, duration=sec(min(d, 1900)))
        if draw(st.booleans()):
            lo, hi = max(-1, -1 - a), min(1, 1 - a)
            k["offset"] = round(lo + (hi - lo) * draw(st.floats(0, 1)), 4)
            k["offset"] = round(0.99 * min(max(k["offset"], lo), hi), 5)
    elif c == "StaircasePulse":
        k = dict(start_amp=draw(AN), final_amp=draw(AN), num_steps=draw(st.integers(2, 6)),
                 duration=sec(d))
    elif c == "SoftSquarePulse":
        k = dict(amp=draw(AN), duration=sec(max(d, 6)))
    elif c == "GaussPulse":
        k = dict(G_amp=draw(AN), phase=0.0, duration=sec(d))
        if cplx:
            k["phase"] = draw(st.sampled_from([0.0, 90.0, 33.0, -120.5]))
            k["G_amp"] = draw(AS)
        if draw(st.booleans()):
            k["sigma"] = sec(max(1, d // 5))
    elif c == "DRAGPulse":
        k = dict(G_amp=draw(AS), D_amp=draw(AS), phase=draw(st.sampled_from([0.0, 90.0, 45.0, -30.0])),
                 duration=sec(d))
    elif c == "ChirpPulse":
        k = dict(amp=draw(AS), duration=sec(d), start_freq=draw(st.sampled_from([0.0, 1e7, 5e7])),
                 end_freq=draw(st.sampled_from([0.0, 2e7, -4e7])))
    elif c == "SkewedHermitePulse":
        # the quadrature carries 1/time: keep it in range by a tiny skewness
        k = dict(duration=sec(d), amplitude=draw(AS),
                 skewness=draw(st.sampled_from([0.0, 1e-9, -2e-9])),
                 phase=draw(st.sampled_from([0.0, 30.0])))
    elif c == "SuddenNetZeroPulse":
        arm = draw(st.integers(3, 20))
        k = dict(amp_A=draw(AS), amp_B=draw(st.sampled_from([0.5, 1.0, -0.2])),
                 net_zero_A_scale=draw(st.sampled_from([1.0, 0.9])), t_pulse=sec(2 * arm),
                 t_phi=sec(draw(st.integers(1, 6))), t_integral_correction=sec(
                     draw(st.integers(6, 20))))
    else:
        n = draw(st.integers(3, 8))
        step = draw(st.integers(1, 10))
        sm = [draw(AN) for _ in range(n)]
        if cplx and draw(st.booleans()):
            sm = [{"__c": [draw(AS), draw(AS)]} for _ in range(n)]
        c = "NumericalPulse"
        step = max(step, -(-4 // (n - 1)))
        late = draw(st.sampled_from([0, 0, 0, step, 25]))
        k = dict(samples=sm, t_samples=[sec(late + i * step) for i in range(n)])
    return op(c, **k, **kw)


def snz_ok(o):
    """Peak of the integral correction must stay within the output range."""
    import numpy as np

    return bool(np.max(np.abs(wave.of(o))) <= 1.0)


class Builder:
    def __init__(self, draw, kn, lanes):
        self.draw, self.kn = draw, kn
        self.lanes = lanes  # name -> Lane
        self.dirty = set()  # lanes whose offset may be non-zero
        self.long = set()   # lanes with long pulses (no user offsets there)
        self.nopulse = set()
        self.mem = {}

    def lanes_of_clock(self, clock):
        return [n for n, l in self.lanes.items() if l.clock == clock]

    def block(self, depth, names, name="b"):
        """A schedule over the lanes `names` -> (desc, duration, used lane names)."""
        draw, kn = self.draw, self.kn
        items, ts = [], []  # ts: (start, end)
        cur = {n: 0 for n in names}
        # last boundary of a control flow operation on the lane: nothing may follow it within 3 ns
        edge = {n: None if depth == self.kn.depth else 0 for n in names}
        used = set()

        def fit(s, lanes):
            while True:
                bad = [edge[n] for n in lanes if edge[n] is not None and 0 < s - edge[n] < 4]
                if not bad:
                    return s
                s = max(bad) + 4

        def add(o, s, dur):
            it = {"op": o, "rel": 0.0}
            if not items:
                if s > 0:
                    add(op("IdlePulse", duration=sec(s)), 0, s)
                    it["ref"] = 0
                else:
                    items.append(it)
                    ts.append((s, s + dur))
                    return
            if len(items) and draw(st.booleans()):
                ref = draw(st.integers(max(0, len(items) - 4), len(items) - 1))
                it["ref"] = ref
            else:
                ref = len(items) - 1
                it.pop("ref", None)
            pt = draw(st.sampled_from([None, None, "start", "end", "center"]))
            ptn = draw(st.sampled_from([None, None, "start", "end", "center"]))
            it["pt"], it["ptn"] = pt, ptn
            fr = {None: 1.0, "start": 0.0, "center": 0.5, "end": 1.0}[pt]
            fn = {None: 0.0, "start": 0.0, "center": 0.5, "end": 1.0}[ptn]
            a, b = ts[ref]
            it["rel"] = r12((s + fn * dur - (a + fr * (b - a))) * 1e-9)
            items.append(it)
            ts.append((s, s + dur))

        n_items = draw(st.integers(*kn.items)) if depth == kn.depth else draw(st.integers(1, 4))
        for _ in range(n_items):
            x = draw(st.floats(0, 1, exclude_max=True))
            gap = draw(kn.gaps or GAPS)
            if depth > 0 and x < kn.loops + kn.subs:
                k = draw(st.integers(1, min(3, len(names))))
                sub = draw(st.permutations(names))[:k]
                body, d, u = self.block(depth - 1, sorted(sub), name + "i")
                if not u:
                    continue
                s = max(cur[n] for n in u) + gap
                if x < kn.loops:
                    cnt = draw(st.integers(1, kn.max_loop))
                    if len(body["ops"]) == 1 and draw(st.booleans()):
                        inner = body["ops"][0]["op"]
                        if inner["t"] == "op" and wave_len(inner) == d:
                            body = inner
                    o = {"t": "loop", "n": cnt, "body": body}
                    s += 4 if any(cur[n] for n in u) else 0
                    d *= cnt
                else:
                    o = body
                s = fit(s, u)
                add(o, s, d)
                for n in u:
                    cur[n] = edge[n] = s + d
                used |= u
                continue
            kind = draw(st.sampled_from(kn.kinds))
            if kind == "idle":
                s = draw(st.sampled_from(list(cur.values()))) if cur else 0
                add(op("IdlePulse", duration=sec(gap)), s, gap)
                continue
            n = draw(st.sampled_from(names))
            l = self.lanes[n]
            if kind == "pulse":
                if n in self.nopulse:
                    continue
                o = draw(pulse(l, kn.long_pulses and n not in self.dirty))
                if o["c"] == "SuddenNetZeroPulse" and not snz_ok(o):
                    continue
                d = wave.dur_ns(o)
                t0 = round((o["k"].get("t0", 0)) * 1e9)
                if o["c"] == "SquarePulse" and d >= 100:
                    self.long.add(n)
                    self.mem[n] = self.mem.get(n, 0) + 8
                else:
                    if self.mem.get(n, 0) + 2 * d > 15000:
                        continue
                    self.mem[n] = self.mem.get(n, 0) + 2 * d
                # the operation itself (not only its pulse) starts after what precedes it
                s = fit(cur[n] + gap + t0, [n]) - t0
                add(o, s, d + t0)
                cur[n] = s + t0 + max(d, 4)
                used.add(n)
            elif kind == "offset":
                if n in self.long:
                    continue
                self.dirty.add(n)
                s = fit(cur[n] + gap, [n])
                add(op("VoltageOffset", offset_path_I=draw(AS),
                       offset_path_Q=0.0 if l.real else draw(AS), port=l.port, clock=l.clock),
                    s, 0)
                cur[n] = s + 4
                used.add(n)
            elif kind in ("shift", "freq", "reset"):
                if l.baseband:
                    continue
                grp = self.lanes_of_clock(l.clock)
                if not all(g in names for g in grp):
                    continue
                s = fit(max(cur[g] for g in grp) + gap, grp)
                if kind == "shift":
                    o = op("ShiftClockPhase", clock=l.clock, phase_shift=draw(st.one_of(
                        st.sampled_from([90.0, 180.0, -90.0, 360.0, 0.0, 1.0, 720.5, -400.25]),
                        st.floats(-720, 720, allow_nan=False).map(lambda x: round(x, 3)))))
                elif kind == "reset":
                    o = op("ResetClockPhase", clock=l.clock)
                else:
                    o = op("SetClockFrequency", clock=l.clock, clock_freq_new=draw(st.one_of(
                        st.none(), st.integers(-150, 150).map(lambda m: l.freq + m * 1e6),
                        st.integers(-400_000_000, 400_000_000).map(
                            lambda m: (l.lo or 0) + m / 4))))
                add(o, s, 0)
                for g in grp:
                    cur[g] = s + 4
                used |= set(grp)
            elif kind == "acq":
                if not l.inp or kn.acq is None:
                    continue
                r = kn.acq(draw, l, n, self)
                if r is None:
                    continue
                o, d, busy = r if len(r) == 3 else (*r, 300)
                t0 = round(o["k"].get("t0", 0) * 1e9)
                s = fit(cur[n] + gap + t0, [n]) - t0
                add(o, s, d)
                cur[n] = s + busy
                used.add(n)
            else:
                raise KeyError(kind)
        # trailing padding
        end = max([e for _, e in ts] + [0])
        need = max([c for c in cur.values()] + [0])
        pad = draw(st.sampled_from([0, 0, 4, 40])) + kn.end_pad
        total = fit(max(end, need + pad), names)
        if not items:
            add(op("IdlePulse", duration=sec(max(total, 4))), 0, max(total, 4))
            total = max(total, 4)
        elif total > end:
            # padding that ends at `total`
            s = draw(st.integers(0, max(0, total - 1))) if draw(st.booleans()) else end
            add(op("IdlePulse", duration=sec(total - s)), s, total - s)
        if len(items) > 2 and draw(st.integers(0, 3)) == 0:
            items = reorder(draw, items, ts)
        return {"t": "sched", "name": name, "reps": 1, "ops": items}, total, used


def reorder(draw, items, ts):
    """Add the same operations in another order (kept for operations that start together)."""
    perm = list(draw(st.permutations(range(1, len(items)))))
    for t in {ts[i][0] for i in perm}:
        where = [j for j, i in enumerate(perm) if ts[i][0] == t]
        for j, i in zip(where, sorted(perm[j] for j in where)):
            perm[j] = i
    out = [items[0]]
    done = [0]
    for i in perm:
        ref = draw(st.integers(max(0, len(done) - 3), len(done) - 1))
        pt = draw(st.sampled_from(["start", "end"]))
        base = ts[done[ref]][0 if pt == "start" else 1]
        it = {k: v for k, v in items[i].items() if k not in ("ref", "pt", "ptn", "rel")}
        out.append(dict(it, rel=r12((ts[i][0] - base) * 1e-9), ref=ref, pt=pt, ptn="start"))
        done.append(i)
    return out


def wave_len(o):
    if o["c"] in ("IdlePulse",):
        return round(o["k"]["duration"] * 1e9)
    if "duration" in o["k"] or o["c"] in ("NumericalPulse", "SuddenNetZeroPulse"):
        return wave.dur_ns(o) + round((o["k"].get("t0", 0)) * 1e9)
    return -1


def repeat(draw, d, pad=4):
    """Sometimes use the whole schedule twice (once possibly in a loop); equal descriptions may
    become the same Python objects."""
    k = draw(st.integers(0, 7))
    if k > 2:
        return d
    if k > 0:
        body = dict(d, reps=1)
        again = body if k == 1 else {"t": "loop", "n": draw(st.integers(1, 3)), "body": body}
        items = [{"op": x} for x in draw(st.permutations([body, again]))]
        # control flow needs 4 ns before it
        items.insert(0, {"op": op("IdlePulse", duration=sec(pad))})
        items.insert(2, {"op": op("IdlePulse", duration=sec(pad))})
        items.append({"op": op("IdlePulse", duration=sec(pad))})
        d = {"t": "sched", "name": "twice", "reps": d.get("reps", 1), "ops": items}
    return dict(d, share=True)


@st.composite
def program(draw, kn):
    names = draw(st.permutations(kn.lanes))
    names = sorted(names[: draw(st.integers(1, len(names)))])
    b = Builder(draw, kn, {n: LANES[n] for n in names})
    d, total, used = b.block(kn.depth, names, "top")
    d["reps"] = draw(st.sampled_from(kn.reps))
    d = repeat(draw, d)
    return {"d": d, "lanes": names}

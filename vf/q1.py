"""Emulator of the Q1 sequence processor (the part that the compiler under test targets).

Semantics follow the documentation of the Q1 sequence processor: real-time parameter
instructions (set_mrk, set_freq, reset_ph, set_ph, set_ph_delta, set_awg_gain, set_awg_offs,
set_digital ...) are latched and take effect at the next real-time I/O instruction
(upd_param, play, acquire*); those, the waits, latch and sync instructions take time.  While
a condition (set_cond) is false every time-consuming real-time instruction is replaced by a
wait of the else-duration.  Time 0 is the release of wait_sync.
"""
from __future__ import annotations

import re

IMM_MAX = 2**32 - 1


class EmuError(Exception):
    """The program is not executable on the instrument."""


class Budget(Exception):
    """More instructions executed than the harness wants to spend."""


ARITY = {
    "illegal": 0, "stop": 0, "nop": 0, "jmp": 1, "loop": 2, "jge": 3, "jlt": 3, "move": 2,
    "not": 2, "add": 3, "sub": 3, "and": 3, "or": 3, "xor": 3, "asl": 3, "asr": 3,
    "set_mrk": 1, "set_freq": 1, "reset_ph": 0, "set_ph": 1, "set_ph_delta": 1,
    "set_awg_gain": 2, "set_awg_offs": 2, "set_digital": 3, "set_time_ref": 0,
    "set_scope_en": 1, "play": 3, "acquire": 3, "acquire_weighed": 5, "acquire_ttl": 4,
    "acquire_timetags": 5, "acquire_digital": 3, "wait": 1, "wait_sync": 1,
    "wait_trigger": 2, "upd_param": 1, "set_cond": 4, "set_latch_en": 2, "latch_rst": 1,
    "upd_thres": 3,
}
# instructions that may be given real-time registers / immediates; timing argument position
TIMED = {"wait": 0, "wait_sync": 0, "upd_param": 0, "play": 2, "acquire": 2,
         "acquire_weighed": 4, "acquire_ttl": 3, "acquire_timetags": 4,
         "set_latch_en": 1, "latch_rst": 0, "upd_thres": 2}
LINE = re.compile(r"^\s*(?:([A-Za-z_]\w*):)?\s*([a-z_]+)?\s*([^#]*?)\s*(?:#.*)?$", re.S)


def parse(text):
    """-> (list of (name, args), labels). args: int | ("R", n) | ("@", label)"""
    ins, labels = [], {}
    for ln, line in enumerate(text.split("\n"), 1):
        m = LINE.match(line)
        if not m:
            raise EmuError(f"line {ln}: cannot parse {line!r}")
        lab, name, rest = m.groups()
        if lab is not None:
            if lab in labels:
                raise EmuError(f"line {ln}: label {lab!r} defined twice")
            labels[lab] = len(ins)
        if not name:
            if rest:
                raise EmuError(f"line {ln}: cannot parse {line!r}")
            continue
        if name not in ARITY:
            raise EmuError(f"line {ln}: unknown instruction {name!r}")
        args = []
        for a in ([x.strip() for x in rest.split(",")] if rest else []):
            if re.fullmatch(r"-?\d+", a):
                args.append(int(a))
            elif re.fullmatch(r"R\d+", a):
                if int(a[1:]) > 63:
                    raise EmuError(f"line {ln}: no such register {a}")
                args.append(("R", int(a[1:])))
            elif re.fullmatch(r"@\w+", a):
                args.append(("@", a[1:]))
            else:
                raise EmuError(f"line {ln}: bad argument {a!r} in {line!r}")
        if len(args) != ARITY[name]:
            raise EmuError(f"line {ln}: {name} takes {ARITY[name]} arguments: {line!r}")
        ins.append((name, args))
    for name, args in ins:
        for a in args:
            if isinstance(a, tuple) and a[0] == "@" and a[1] not in labels:
                raise EmuError(f"undefined label {a[1]!r}")
    return ins, labels


RANGES = {"set_mrk": (0, 15), "set_freq": (-2_000_000_000, 2_000_000_000),
          "set_ph": (0, 1_000_000_000), "set_ph_delta": (0, 1_000_000_000),
          "set_awg_gain": (-32768, 32767), "set_awg_offs": (-32768, 32767)}


def signed(x):
    return x - 2**32 if x >= 2**31 else x


class Trace:
    def __init__(self):
        self.play = []   # (t, wave0, wave1, gainI, gainQ)
        self.offs = []   # (t, I, Q)
        self.phase = []  # (t, "reset"|"set"|"delta", steps)
        self.freq = []   # (t, steps)
        self.mrk = []    # (t, mask)
        self.digital = []  # (t, value, mask, fine)
        self.acq = []    # dict
        self.timeref = []
        self.latch_rst = []
        self.cond = []   # (t, enable, mask, op, else, taken)
        self.io = []     # times of all upd_param/play/acquire
        self.end = None
        self.executed = 0
        self.thres = {}  # counting thresholds
        self.reads = []  # times conditions were evaluated (with addresses)


OPS = {
    0: lambda c, n: c > 0, 1: lambda c, n: c == 0, 2: lambda c, n: c == n,
    3: lambda c, n: c != n, 4: lambda c, n: c % 2 == 1, 5: lambda c, n: c % 2 == 0,
}


def run(text, triggers=(), thresholds=None, budget=400_000):
    """Execute a program.

    triggers: list of (arrival time, address); thresholds: address -> (count, invert)
    """
    ins, labels = parse(text) if isinstance(text, str) else text
    trig = sorted(triggers)
    tp = 0
    tr = Trace()
    reg = [0] * 64
    t = 0
    pend = {}
    pdelta = []
    gain = [0, 0]
    cnt = [0] * 16
    latch = False
    enabled = False
    taken = True
    els = 4
    pc = 0
    n = len(ins)

    def v(a):
        return reg[a[1]] if isinstance(a, tuple) else a

    def upd():
        nonlocal pend, pdelta
        tr.io.append(t)
        for kind, x in pdelta:
            tr.phase.append((t, kind, x))
        if "freq" in pend:
            tr.freq.append((t, pend["freq"]))
        if "gain" in pend:
            gain[0], gain[1] = pend["gain"]
        if "offs" in pend:
            tr.offs.append((t, *pend["offs"]))
        if "mrk" in pend:
            tr.mrk.append((t, pend["mrk"]))
        if "dig" in pend:
            tr.digital.append((t, *pend["dig"]))
        if "tref" in pend:
            tr.timeref.append(t)
        pend, pdelta = {}, []

    def collect(upto):
        nonlocal tp
        while tp < len(trig) and trig[tp][0] <= upto:
            if latch:
                cnt[trig[tp][1]] += 1
            tp += 1

    while True:
        if pc >= n:
            raise EmuError("program runs past its last instruction")
        name, a = ins[pc]
        pc += 1
        tr.executed += 1
        if tr.executed > budget:
            raise Budget("too many instructions")
        # ---- classical
        if name == "move":
            reg[a[1][1]] = v(a[0]) & IMM_MAX
            continue
        if name == "loop":
            r = a[0][1]
            reg[r] = (reg[r] - 1) & IMM_MAX
            if reg[r] != 0:
                pc = labels[a[1][1]]
            continue
        if name == "add":
            reg[a[2][1]] = (v(a[0]) + v(a[1])) & IMM_MAX
            continue
        if name == "sub":
            reg[a[2][1]] = (v(a[0]) - v(a[1])) & IMM_MAX
            continue
        if name == "nop":
            continue
        if name == "stop":
            break
        if name == "jmp":
            pc = labels[a[0][1]]
            continue
        if name in ("jge", "jlt"):
            if (v(a[0]) >= v(a[1])) == (name == "jge"):
                pc = labels[a[2][1]]
            continue
        if name in ("and", "or", "xor", "asl", "asr"):
            x, y = v(a[0]), v(a[1])
            reg[a[2][1]] = {"and": x & y, "or": x | y, "xor": x ^ y, "asl": x << y,
                            "asr": x >> y}[name] & IMM_MAX
            continue
        if name == "not":
            reg[a[1][1]] = ~v(a[0]) & IMM_MAX
            continue
        if name == "illegal":
            raise EmuError("illegal instruction executed")
        # ---- real time
        if name == "set_cond":
            en, mask, op, els_ = (v(x) for x in a)
            enabled = bool(en)
            els = els_
            if enabled:
                if els < 4:
                    raise EmuError(f"else duration {els} ns")
                collect(t)
                sel = [i for i in range(1, 16) if mask >> (i - 1) & 1]
                hit = 0
                for i in sel:
                    c, inv = (thresholds or {}).get(i, (1, False))
                    hit += int((cnt[i] >= c) != bool(inv))
                taken = bool(OPS[op](hit, len(sel)))
                tr.cond.append((t, mask, op, els, taken, {i: cnt[i] for i in sel}))
            else:
                taken = True
            continue
        if name in TIMED:
            d = v(a[TIMED[name]])
            if not 4 <= d <= 65535:
                raise EmuError(f"{name} with a duration of {d} ns")
            if enabled and not taken:
                t += els
                continue
            if name == "wait":
                pass
            elif name == "wait_sync":
                # everything before it is preparation
                t = -d
                upd_keep = tr.executed
                thres = tr.thres
                tr.__init__()
                tr.executed, tr.thres = upd_keep, thres
            elif name == "upd_thres":
                tr.thres[v(a[0])] = v(a[1])
            elif name == "upd_param":
                upd()
            elif name == "play":
                upd()
                tr.play.append((t, v(a[0]), v(a[1]), gain[0], gain[1]))
            elif name == "acquire":
                upd()
                tr.acq.append(dict(t=t, kind=name, acq=v(a[0]), bin=v(a[1])))
            elif name == "acquire_weighed":
                upd()
                tr.acq.append(dict(t=t, kind=name, acq=v(a[0]), bin=v(a[1]), w0=v(a[2]),
                                   w1=v(a[3])))
            elif name == "acquire_ttl":
                upd()
                tr.acq.append(dict(t=t, kind=name, acq=v(a[0]), bin=v(a[1]), en=v(a[2])))
            elif name == "acquire_timetags":
                upd()
                tr.acq.append(dict(t=t, kind=name, acq=v(a[0]), bin=v(a[1]), en=v(a[2]),
                                   fine=v(a[3])))
            elif name == "set_latch_en":
                collect(t)
                latch = bool(v(a[0]))
            elif name == "latch_rst":
                collect(t)
                cnt = [0] * 16
                tr.latch_rst.append(t)
            t += d
            continue
        if enabled and not taken:
            continue
        if name in RANGES:
            lo, hi = RANGES[name]
            for x in a:
                y = signed(v(x)) if isinstance(x, tuple) else x
                if not lo <= y <= hi:
                    raise EmuError(f"{name} with an argument of {y}, the range is {lo} to {hi}")
        if name == "set_mrk":
            pend["mrk"] = v(a[0])
        elif name == "set_freq":
            pend["freq"] = signed(v(a[0])) if isinstance(a[0], tuple) else a[0]
        elif name == "reset_ph":
            pdelta = [("reset", 0)]
        elif name == "set_ph":
            pdelta.append(("set", v(a[0])))
        elif name == "set_ph_delta":
            pdelta.append(("delta", v(a[0])))
        elif name == "set_awg_gain":
            pend["gain"] = tuple(signed(v(x)) if isinstance(x, tuple) else x for x in a)
        elif name == "set_awg_offs":
            pend["offs"] = tuple(signed(v(x)) if isinstance(x, tuple) else x for x in a)
        elif name == "set_digital":
            pend["dig"] = tuple(v(x) for x in a)
        elif name == "set_time_ref":
            pend["tref"] = True
        elif name == "set_scope_en":
            pass
        else:
            raise EmuError(f"{name} is not supported by the emulator")
    tr.end = t
    tr.pending = bool(pend or pdelta)
    return tr

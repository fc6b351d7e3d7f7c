"""P19: device and hardware descriptions keep their meaning through storage."""
from __future__ import annotations

import contextlib
import copy
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from props import p02, p03, p04, p20
from vf import build, gen
from vf import device as D
from vf import qblox as Q
from vf.core import Known, Sub, Violation, expect, ok, sut

ASSUMPTIONS = (
    "A stored device keeps what its own parameters hold; references to other instruments and the "
    "hardware configuration (stored with its own methods) are not part of it. Acquisition "
    "channels are numbers or strings.")

KINDS = ("transmon", "spin", "sensor", "nv")
PREFIX = {"transmon": "q", "spin": "s", "sensor": "c", "nv": "n"}
EXTRA = {
    "pulse_compensation.max_compensation_amp": st.sampled_from([0.1, 0.5, 1]),
    "pulse_compensation.time_grid": st.sampled_from([1e-9, 4e-9]),
    "pulse_compensation.sampling_rate": st.sampled_from([1e9, 2e9]),
    "measure.acq_weight_type": st.sampled_from(["SSB", "Numerical"]),
    "measure.time_source": st.sampled_from(["!TimeSource.FIRST", "!TimeSource.SECOND"]),
    "measure.time_ref": st.sampled_from(["!TimeRef.START", "!TimeRef.END", "!TimeRef.PORT"]),
    "measure.acq_channel": st.sampled_from([3, "ch_0", "a b", "7"]),
}
PORTS = {"transmon": ("microwave", "flux", "readout"), "spin": ("microwave", "gate", "readout"),
         "sensor": ("gate", "readout"), "nv": ("microwave", "optical_control", "optical_readout")}
BASE_EXTRA = {k: [e for e in EXTRA if not (k == "nv" and "weight_type" in e)
                  and not (k != "nv" and ".time_" in e)] for k in KINDS}


def classes():
    from quantify_scheduler import BasicElectronicNVElement, BasicTransmonElement
    from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
    from quantify_scheduler.device_under_test.spin_edge import SpinEdge
    from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor

    return {"transmon": BasicTransmonElement, "spin": BasicSpinElement, "sensor": ChargeSensor,
            "nv": BasicElectronicNVElement, "square": CompositeSquareEdge, "spinedge": SpinEdge}


@st.composite
def values(draw, kind):
    base = [k for k in sorted(D.BASE[kind]) if k not in (
        "measure.pulse_type", "measure.acq_weights_a", "measure.acq_weights_b",
        "cr_count.acq_delay")]
    out = {}
    for k in draw(st.lists(st.sampled_from(base), max_size=9, unique=True)):
        out[k] = draw(p04.VALUES[k])
        if k.endswith("reference_magnitude") and out[k] is None:
            out.pop(k)
    for k in draw(st.lists(st.sampled_from(BASE_EXTRA[kind]), max_size=3, unique=True)):
        out[k] = draw(EXTRA[k])
    for k in draw(st.lists(st.sampled_from(PORTS[kind]), max_size=2, unique=True)):
        out["ports." + k] = draw(st.sampled_from(["p1:mw", "xx:res", "line 3", "a_b:c"]))
    if kind != "nv" and draw(st.integers(0, 2)) == 0:
        out["measure.acq_weights_a"], out["measure.acq_weights_b"] = draw(p04.weight_pair())
    return out


@st.composite
def devices(draw):
    n = draw(st.integers(1, 4))
    els, names = [], set()
    for _ in range(n):
        kind = draw(st.sampled_from(("transmon", "transmon", "spin", "spin", "sensor", "nv")))
        name = draw(st.sampled_from((PREFIX[kind], "D", "elem", "Qubit"))) + str(
            draw(st.integers(0, 12)))
        if name in names:
            continue
        names.add(name)
        els.append([name, kind, draw(values(kind))])
    edges = []
    pairs = [(a, b) for a in els for b in els if a is not b and (a[1], b[1]) in (
        ("transmon", "transmon"), ("spin", "spin"))]
    for a, b in draw(st.lists(st.sampled_from(pairs), max_size=3, unique_by=lambda p: (
            p[0][0], p[1][0]))) if pairs else ():
        kind = "square" if a[1] == "transmon" else "spinedge"
        v = {}
        for k in draw(st.lists(st.sampled_from(
                ["cz.square_amp", "cz.square_duration", f"cz.{a[0]}_phase_correction",
                 f"cz.{b[0]}_phase_correction"]
                + ["ports.gate"] * (kind == "spinedge")), max_size=4, unique=True)):
            v[k] = (draw(p04.ang) if k.endswith("correction") else
                    "bar:gate" if k == "ports.gate" else draw(p04.VALUES[k]))
        edges.append([a[0], b[0], kind, v])
    return {"els": els, "edges": edges,
            "rep": draw(st.sampled_from([None, 1, 7, 4096])),
            "strategy": draw(st.sampled_from([None, None, "asap", "alap"])),
            "keep": draw(st.sampled_from([None, None, True, False])),
            "numpy": draw(st.integers(0, 3)) == 0,
            "how": draw(st.sampled_from(["json", "json file", "yaml file", "dict", "element"])),
            "again": draw(st.booleans())}


def walk(o, pre=""):
    """All parameters of an instrument and its submodules."""
    out = {}
    for n, p in o.parameters.items():
        if n not in ("IDN", "timeout"):
            out[pre + n] = p.get()
    for n, m in o.submodules.items():
        out |= walk(m, pre + n + ".")
    return out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a):
        return math.isnan(b)
    return a == b and isinstance(a, str) == isinstance(b, str) and isinstance(
        a, bool) == isinstance(b, bool)


def value(v, npy):
    if isinstance(v, str) and v.startswith("!"):
        from quantify_scheduler import enums

        cls, m = v[1:].split(".")
        return getattr(getattr(enums, cls), m)
    v = build.val(v)
    if npy and isinstance(v, float):
        return np.float64(v)
    return v


def set_all(obj, vals, npy):
    for k, v in vals.items():
        if k.endswith("reference_magnitude"):
            v = [np.float64(v[0]) if npy else v[0], v[1]]
            D._set(obj, k, v)
        else:
            o = obj
            for p in k.split(".")[:-1]:
                o = o.submodules[p]
            o.parameters[k.split(".")[-1]](value(v, npy))


def make(c):
    from quantify_scheduler import QuantumDevice

    cls = classes()
    dev = QuantumDevice("dut")
    objs = {}
    for name, kind, vals in c["els"]:
        objs[name] = cls[kind](name)
        set_all(objs[name], vals, c["numpy"])
        dev.add_element(objs[name])
    for a, b, kind, vals in c["edges"]:
        e = cls[kind](a, b)
        objs[e.name] = e
        set_all(e, vals, c["numpy"])
        dev.add_edge(e)
    if c["rep"] is not None:
        dev.cfg_sched_repetitions(c["rep"])
    if c["strategy"] is not None:
        dev.scheduling_strategy(c["strategy"])
    if c["keep"] is not None:
        dev.keep_original_schedule(c["keep"])
    return dev, objs


def picture(dev, c):
    """Everything a user can read from a device and what it compiles to."""
    objs = {n: dev.get_element(n) for n in dev.elements()} | {
        n: dev.get_edge(n) for n in dev.edges()}
    out = {"elements": list(dev.elements()), "edges": list(dev.edges()),
           "types": {n: type(o).__name__ for n, o in objs.items()},
           "ends": {n: (dev.get_edge(n).parent_device_element.name,
                        dev.get_edge(n).child_device_element.name) for n in dev.edges()},
           "repetitions": dev.cfg_sched_repetitions(),
           "strategy": dev.scheduling_strategy(), "keep": dev.keep_original_schedule()}
    par = {n: walk(o) for n, o in objs.items()}
    return out, par


def compiled(dev, c):
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.operations.gate_library import CZ, Measure, Reset, Rxy, Rz

    s = Schedule("s", repetitions=dev.cfg_sched_repetitions())
    used = {}
    for name, kind, _ in c["els"]:
        o = dev.get_element(name)
        if kind != "sensor":
            s.add(Reset(name))
        if kind in ("transmon", "spin", "nv"):
            s.add(Rxy(theta=60.0, phi=20.0, qubit=name))
        if kind in ("transmon", "spin"):
            s.add(Rz(theta=33.0, qubit=name))
        if o.measure.acq_channel() in used:
            continue
        used[o.measure.acq_channel()] = 1
        s.add(Measure(name))
    for a, b, kind, _ in c["edges"]:
        s.add(CZ(a, b))
    cfg = dev.generate_compilation_config()
    try:
        comp = SerialCompiler("c").compile(s, cfg)
    except Exception as e:  # both devices must agree on this as well
        return type(e).__name__
    return [[float(t), k, D.plain(i)] for t, k, i in D.flatten(comp)]


def close(dev):
    from qcodes.instrument import Instrument

    for n in list(dev.edges()) + list(dev.elements()):
        with contextlib.suppress(KeyError):
            Instrument.find_instrument(n).close()
    dev.close()


def load(how, dev, tmp):
    """Store the device, close everything and load it again."""
    from quantify_scheduler import QuantumDevice

    if how == "dict":
        d = dev.to_dict()
        close(dev)
        return QuantumDevice.from_dict(d)
    if how == "json":
        t = dev.to_json()
        close(dev)
        return QuantumDevice.from_json(t)
    if how == "json file":
        p = dev.to_json_file(path=tmp, add_timestamp=False)
        close(dev)
        return QuantumDevice.from_json_file(p)
    if how == "yaml file":
        p = dev.to_yaml_file(path=tmp, add_timestamp=False)
        close(dev)
        return QuantumDevice.from_yaml_file(p)
    texts = [(n, type(dev.get_element(n)), dev.get_element(n).to_json()) for n in dev.elements()]
    etexts = [(n, type(dev.get_edge(n)), dev.get_edge(n).to_json()) for n in dev.edges()]
    new = (dev.cfg_sched_repetitions(), dev.scheduling_strategy(), dev.keep_original_schedule())
    close(dev)
    dev = QuantumDevice("dut")
    for _, cls, t in texts:
        dev.add_element(cls.from_json(t))
    for _, cls, t in etexts:
        dev.add_edge(cls.from_json(t))
    dev.cfg_sched_repetitions(new[0])
    dev.scheduling_strategy(new[1])
    dev.keep_original_schedule(new[2])
    return dev


def restore(dev, before, par):
    """Put back what is known to be lost (P19-reference-magnitudes, P19-device-settings): only
    where the loaded device has exactly the default instead."""
    if dev.scheduling_strategy() == "asap":
        dev.scheduling_strategy(before["strategy"])
    if dev.keep_original_schedule() is True:
        dev.keep_original_schedule(before["keep"])
    for n in dev.elements():
        o = dev.get_element(n)
        for sub in o.submodules.values():
            for name, ref in sub.submodules.items():
                if name == "reference_magnitude":
                    for k, p in ref.parameters.items():
                        v = next(v for q, v in par[n].items()
                                 if q.endswith(f"{sub.short_name}.{name}.{k}"))
                        if np.isnan(p()) and not np.isnan(v):
                            p(v)


def check_device(c):
    tmp = tempfile.mkdtemp(prefix="p19")
    try:
        with sut("building the device"):
            dev, objs = make(c)
        before, par = picture(dev, c)
        prog = compiled(dev, c)
        del objs
        for i in range(2 if c["again"] else 1):
            with sut(f"storing and loading the device ({c['how']})"):
                dev = load(c["how"], dev, tmp)
            restore(dev, before, par)
            after, par2 = picture(dev, c)
            for k in before:
                expect(after[k] == before[k], f"the loaded device has another {k}",
                       before=before[k], after=after[k], round=i)
            for n in par:
                expect(set(par[n]) == set(par2[n]), f"{n} has other parameters")
                for k, v in par[n].items():
                    expect(same(v, par2[n][k]),
                           f"parameter {k} of {n} changed when stored and loaded",
                           before=repr(v), after=repr(par2[n][k]))
            prog2 = compiled(dev, c)
            expect(type(prog) is type(prog2) and (
                prog == prog2 if isinstance(prog, str) else D_same(prog, prog2)),
                "the loaded device compiles a schedule differently",
                before=str(prog)[:600], after=str(prog2)[:600])
        n = sum(len(e[2]) for e in c["els"]) + sum(len(e[3]) for e in c["edges"])
        return ok(n >= 2, [c["how"]] + sorted({e[1] for e in c["els"]})
                  + ["refused"] * isinstance(prog, str) + ["edge"] * bool(c["edges"])
                  + ["numpy"] * c["numpy"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def D_same(a, b):
    return len(a) == len(b) and all(D.same(x, y) for x, y in zip(a, b))


# ----------------------------------------------------------------------- histories
NAMES = ["q0", "q1", "q2", "x"]


@st.composite
def history(draw):
    el = st.sampled_from(NAMES)
    pair = st.tuples(el, el).filter(lambda p: p[0] != p[1]).map(list)
    step = st.one_of(
        st.tuples(st.just("add"), el), st.tuples(st.just("add"), el),
        st.tuples(st.just("add"), el), st.tuples(st.just("remove"), el),
        st.tuples(st.just("edge"), pair), st.tuples(st.just("edge"), pair),
        st.tuples(st.just("remove edge"), pair), st.tuples(st.just("wrong"), el),
        st.tuples(st.just("wrong edge"), el), st.tuples(st.just("get"), el),
        st.tuples(st.just("get edge"), pair), st.tuples(st.just("set"), el),
        st.tuples(st.just("store"), st.sampled_from(["json", "yaml file", "dict"])))
    return {"steps": [list(x) for x in draw(st.lists(step, min_size=3, max_size=14))]}


def refused(what, exc, f):
    try:
        f()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: {type(e).__name__} instead of {exc.__name__}: {e}") from None
    raise Violation(f"{what} was accepted")


def check_history(c):
    import gc

    from quantify_scheduler import QuantumDevice

    cls = classes()
    tmp = tempfile.mkdtemp(prefix="p19")
    try:
        dev = QuantumDevice("dut")
        own = {n: cls["transmon"](n) for n in NAMES}
        edges = {}
        els, eds, vals = [], [], {}
        n_ok = 0
        for k, (what, x) in enumerate(c["steps"]):
            if what == "add":
                if x in els:
                    refused("adding an element twice", ValueError,
                            lambda x=x: dev.add_element(own[x]))
                else:
                    with sut("add_element"):
                        dev.add_element(own[x])
                    els.append(x)
            elif what == "remove":
                if x in els:
                    with sut("remove_element"):
                        dev.remove_element(x)
                    els.remove(x)
                else:
                    refused("removing a missing element", ValueError,
                            lambda x=x: dev.remove_element(x))
            elif what in ("edge", "remove edge", "get edge"):
                n = "_".join(x)
                if n not in edges:
                    edges[n] = cls["square"](*x)
                if what == "edge":
                    if n in eds:
                        refused("adding an edge twice", ValueError,
                                lambda n=n: dev.add_edge(edges[n]))
                    else:
                        with sut("add_edge"):
                            dev.add_edge(edges[n])
                        eds.append(n)
                elif what == "remove edge":
                    if n in eds:
                        with sut("remove_edge"):
                            dev.remove_edge(n)
                        eds.remove(n)
                    else:
                        refused("removing a missing edge", ValueError,
                                lambda n=n: dev.remove_edge(n))
                elif n in eds:
                    expect(dev.get_edge(n) is edges[n], "get_edge returned another object")
                else:
                    refused("get_edge of a missing edge", KeyError,
                            lambda n=n: dev.get_edge(n))
            elif what == "wrong":
                e = [v for v in edges.values()]
                refused("an edge added as an element", TypeError,
                        lambda: dev.add_element(e[0] if e else dev))
            elif what == "wrong edge":
                refused("an element added as an edge", TypeError,
                        lambda x=x: dev.add_edge(own[x]))
            elif what == "get":
                if x in els:
                    expect(dev.get_element(x) is own[x], "get_element returned another object")
                else:
                    refused("get_element of a missing element", KeyError,
                            lambda x=x: dev.get_element(x))
            elif what == "set":
                own[x].rxy.amp180((k + 1) / 100)
                vals[x] = (k + 1) / 100
            elif what == "store" and els and all(a in els for e in eds for a in e.split("_")):
                spare = [n for n in NAMES if n not in els]
                for n in [n for n in edges if n not in eds]:
                    edges.pop(n).close()
                for n in spare:
                    own.pop(n).close()
                    vals.pop(n, None)
                own = edges = None
                with sut("storing and loading the device"):
                    dev = load(x, dev, tmp)
                own = {n: dev.get_element(n) for n in els} | {
                    n: cls["transmon"](n) for n in spare}
                edges = {n: dev.get_edge(n) for n in eds}
                n_ok += 1
            expect(list(dev.elements()) == els, "elements are %s, should be %s",
                   dev.elements(), els)
            expect(list(dev.edges()) == eds, "edges are %s, should be %s", dev.edges(), eds)
        for n, v in vals.items():
            expect(own[n].rxy.amp180() == v, "amp180 of %s is not the value set last", n)
        dangling = not all(a in els for e in eds for a in e.split("_"))
        if not dangling:
            with sut("generate_device_config"):
                cfg = dev.generate_device_config()
            expect(sorted(cfg.elements) == sorted(els) and sorted(cfg.edges) == sorted(eds),
                   "the device configuration has %s and %s", sorted(cfg.elements),
                   sorted(cfg.edges))
            expect(sorted(cfg.clocks) == sorted(f"{n}.{x}" for n in els
                                                for x in ("01", "12", "ro")), "clocks")
        # objects added to a device live as long as the device
        keep = set(els) | set(eds)
        own = edges = None
        gc.collect()
        for n in keep:
            with sut("reading an added object after its other references are gone"):
                (dev.get_element if n in els else dev.get_edge)(n)
        return ok(len(c["steps"]) >= 5, ["stored"] * bool(n_ok) + ["edge"] * bool(eds))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------------- hardware
@st.composite
def hardware(draw):
    return {"c": draw(p20.case()), "int": draw(st.booleans()),
            "how": draw(st.lists(st.sampled_from(["file", "model"]),
                                 min_size=1, max_size=3))}


def compile_with(s, hw_model):
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.backends.graph_compilation import (
        DeviceCompilationConfig,
        SerialCompilationConfig,
    )

    cfg = SerialCompilationConfig(
        name="vf", device_compilation_config=DeviceCompilationConfig.model_validate(Q.EMPTY_DEV),
        hardware_compilation_config=hw_model)
    return p03.outcome(SerialCompiler("c"), copy.deepcopy(s), cfg)


def validate(hw):
    """The model of a hardware description through a quantum device, or the error type."""
    from quantify_scheduler import QuantumDevice

    dev = QuantumDevice("dut")
    try:
        dev.hardware_config(hw)
        return dev.generate_hardware_compilation_config()
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    finally:
        dev.close()


def check_hardware(c):
    from quantify_scheduler import QuantumDevice
    hw, s, *_ = p20.make(c["c"])
    if c["int"]:
        d = hw["hardware_description"]["cluster0"]
        d["modules"] = {int(k): v for k, v in d["modules"].items()}
    was = copy.deepcopy(hw)
    m = validate(hw)
    expect(hw == was, "validating a hardware description changed it")
    if isinstance(m, str):
        return ok(False, ["not valid"])
    ref = compile_with(s, m)
    for how in c["how"]:
        tmp = tempfile.mkdtemp(prefix="p19")
        try:
            with sut(f"storing and loading a hardware configuration ({how})"):
                if how == "file":
                    p = os.path.join(tmp, "hw.json")
                    dev = QuantumDevice("dut")
                    dev.hardware_config(hw)
                    dev.hardware_config.write_to_json_file(p)
                    dev.close()
                    dev = QuantumDevice("dut")
                    dev.hardware_config.load_from_json_file(p)
                    hw2 = dev.hardware_config()
                    dev.close()
                    m2 = validate(hw2)
                else:
                    m2 = type(m).model_validate_json(m.model_dump_json())
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        expect(type(m2) is type(m), "the loaded configuration is %s", m2)
        r = p02.ops.deep(p02.values(p02._flat(m)), p02.values(p02._flat(m2)))
        expect(r is None, f"the configuration changed when stored ({how}): %s", r)
        got = compile_with(s, m2)
        p03.same(ref, got, f"with the loaded configuration ({how})", schedule=False)
    return ok(ref[0] == "ok", [*c["how"], *(["refused"] if ref[0] != "ok" else [])])


# ----------------------------------------------------------------------- old style
def uniform(c):
    """The case with every setting that belongs to a channel or oscillator given there."""
    c = copy.deepcopy(c)
    for lo in c["los"].values():
        for k in [k for k in lo if k != "power"]:
            lo.pop(k)
        lo.setdefault("power", 0)
    for ch in c["chans"]:
        for k in ("att", "iatt", "ig", "igr", "mc_dc", "mc_lo_cal"):
            vs = [p[k] for p in ch["pcs"] if k in p]
            for p in ch["pcs"]:
                if vs:
                    p[k] = vs[0]
    groups = {}
    for i, ch in enumerate(c["chans"]):
        if ch.get("lo") or c["mods"][ch["mod"]] in p20.RF:
            groups.setdefault(ch.get("lo", i), []).extend(ch["pcs"])
        else:
            for p in ch["pcs"]:
                p.pop("lo", None)
    for ps in groups.values():
        vs = [p["lo"] for p in ps if "lo" in p]
        for p in ps:
            if vs:
                p["lo"] = vs[0]
    return c


def old_style(c, reorder):
    """The same hardware as a dictionary in the old format."""
    cl = {"instrument_type": "Cluster", "ref": "internal"}
    hw = {"backend": "quantify_scheduler.backends.qblox_backend.hardware_compile", "cluster0": cl}
    for m, t in c["mods"].items():
        cl[f"cluster0_module{m}"] = {"instrument_type": t}
    used = {ch["lo"]: next((p["lo"] for p in ch["pcs"] if "lo" in p), None)
            for ch in c["chans"] if ch.get("lo")}
    for ch in c["chans"]:
        d = {}
        cplx = ch["ch"].startswith("complex")
        p0 = ch["pcs"][0]
        if ch.get("lo"):
            d["lo_name"] = ch["lo"]
        elif "lo" in p0:
            d["lo_freq"] = p0["lo"]
        for k, o in (("mix_lo", "mix_lo"), ("dc", "downconverter_freq"),
                     ("lat", "distortion_correction_latency_compensation")):
            if ch.get(k) is not None:
                d[o] = ch[k]
        if "mc_dc" in p0:
            d["dc_mixer_offset_I"], d["dc_mixer_offset_Q"] = p0["mc_dc"]
        if "mc_lo_cal" in p0:
            d["auto_lo_cal"] = p0["mc_lo_cal"]
        for k, o in (("att", "output_att"), ("iatt", "input_att")):
            if k in p0:
                d[o] = p0[k]
        if "ig" in p0:
            d["input_gain_I"], d["input_gain_Q"] = p0["ig"]
        if "igr" in p0:
            d["input_gain_" + ch["ch"][-1]] = p0["igr"]
        pcs = []
        for p in ch["pcs"]:
            e = {"port": p["port"], "clock": p["clock"], **(p.get("seq") or {})}
            if "if" in p:
                e["interm_freq"] = p["if"]
            if "mc_seq" in p:
                e["mixer_amp_ratio"], e["mixer_phase_error_deg"] = p["mc_seq"]
            if "mc_side" in p:
                e["auto_sideband_cal"] = p["mc_side"]
            pcs.append(e)
            if "filt" in p:
                hw.setdefault("distortion_corrections", {})[
                    f"{p['port']}-{p['clock']}"] = copy.deepcopy(p["filt"])
        del cplx
        items = list(d.items())
        items.insert(0 if reorder else len(items), ("portclock_configs", pcs))
        cl[f"cluster0_module{ch['mod']}"][ch["ch"]] = dict(items)
    for n, f in used.items():
        hw[n] = {"instrument_type": "LocalOscillator", "power": c["los"][n]["power"],
                 **({} if f is None else {"frequency": f})}
    return hw


@st.composite
def old(draw):
    c = uniform(draw(p20.case()))
    lat = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 5)), max_size=2))
    return {"c": c, "reorder": draw(st.booleans()), "lat": lat}


def check_old(c):
    hw, s, *_ = p20.make(c["c"])
    for m in hw["hardware_description"]["cluster0"]["modules"].values():
        for k in [k for k, v in m.items() if v == {}]:
            m.pop(k)  # an empty channel description makes lists of default settings longer
    o = old_style(c["c"], c["reorder"])
    pcs = [f"{p['port']}-{p['clock']}" for ch in c["c"]["chans"] for p in ch["pcs"]]
    lat = {pcs[i % len(pcs)]: 4e-9 * n for i, n in c["lat"]}
    if lat:
        hw["hardware_options"]["latency_corrections"] = lat
        o["latency_corrections"] = dict(lat)
    was = copy.deepcopy(o)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m, mo = validate(hw), validate(o)
    expect(o == was, "reading an old-style hardware configuration changed it")
    if isinstance(m, str) or isinstance(mo, str):
        expect(isinstance(m, str) and isinstance(mo, str),
               "old-style configuration: %s, new-style: %s", str(mo)[:80], str(m)[:80])
        return ok(False, ["refused"])
    ref = compile_with(s, m)
    got = compile_with(s, mo)
    p03.same(ref, got, "with the old-style configuration", schedule=False)
    return ok(ref[0] == "ok", sorted(set(c["c"]["mods"].values())))


def _serial_json():
    """A complete compilation configuration written to JSON and validated again."""
    from quantify_scheduler.backends.graph_compilation import (
        DeviceCompilationConfig,
        SerialCompilationConfig,
    )

    cfg = SerialCompilationConfig(
        name="vf", device_compilation_config=DeviceCompilationConfig.model_validate(Q.EMPTY_DEV),
        hardware_compilation_config=Q.config(Q.hardware(["mw0"])).hardware_compilation_config)
    new = SerialCompilationConfig.model_validate_json(cfg.model_dump_json())
    a, b = cfg.hardware_compilation_config, new.hardware_compilation_config
    if p02.ops.deep(p02.values(p02._flat(a)), p02.values(p02._flat(b))):
        raise Violation("the hardware description came back different")


def _stored(f, g):
    from quantify_scheduler import QuantumDevice

    dev = QuantumDevice("dut")
    dev.add_element(classes()["transmon"]("q0"))
    f(dev)
    was, text = g(dev), dev.to_json()
    close(dev)
    dev = QuantumDevice.from_json(text)
    if g(dev) != was:
        raise Violation(f"{was} became {g(dev)}")


def _lost_reference():
    _stored(lambda d: d.get_element("q0").rxy.reference_magnitude.dBm(-10.0),
            lambda d: d.get_element("q0").rxy.reference_magnitude.dBm())


def _lost_settings():
    def f(d):
        d.scheduling_strategy("alap")
        d.keep_original_schedule(False)

    _stored(f, lambda d: (d.scheduling_strategy(), d.keep_original_schedule()))


KNOWN = [Known("P19-reference-magnitudes",
               "the reference magnitudes of rxy and measure are not part of a stored device "
               "element or quantum device and come back as NaN", _lost_reference),
         Known("P19-device-settings",
               "scheduling_strategy and keep_original_schedule are not part of a stored quantum "
               "device, so an alap device compiles asap once loaded", _lost_settings),
         Known("P19-serial-config-json",
               "a SerialCompilationConfig written to JSON and validated again has lost the "
               "backend-specific part of its hardware configuration (modules, channels, options), "
               "because pydantic writes the fields of the base classes only", _serial_json)]
SUBS = [
    Sub("devices", devices, check_device, quick=500, thorough=2500,
        rule="at least two parameters differ from their defaults"),
    Sub("histories", history, check_history, quick=200, thorough=4000,
        rule="at least five steps"),
    Sub("hardware", hardware, check_hardware, quick=250, thorough=4000,
        rule="the configuration is accepted"),
    Sub("old-style", old, check_old, quick=700, thorough=4000,
        rule="the configuration is accepted"),
]

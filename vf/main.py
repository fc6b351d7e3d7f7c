"""Runner: generated-input search for one property, sharded over processes."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vf import hypo  # noqa: E402

hypo.install()

from vf import core  # noqa: E402
from vf.core import Abort, Discard, Violation, canon  # noqa: E402


def _quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def seed_of(*parts) -> int:
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:6], "big")


CASE_CPU_S = 120


class CaseTimeout(BaseException):
    pass


def _on_prof(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Returns (status, info). status: ok|discard|fail"""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        info = sub.check(json.loads(json.dumps(case)))
        return "ok", info or {"nontrivial": True, "tags": []}
    except Discard as e:
        return "discard", str(e)
    except Violation as e:
        return "fail", str(e) + _tb_tail(e)
    except CaseTimeout:
        return "fail", f"no answer within {CASE_CPU_S} s of processor time"
    except Exception as e:  # noqa: BLE001
        return "fail", f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        _cleanup()


def _tb_tail(e):
    c = e.__cause__
    if c is None:
        return ""
    return "\n" + "".join(traceback.format_exception(type(c), c, c.__traceback__, limit=-6))


def _cleanup():
    m = sys.modules.get("qcodes")
    if m is not None:
        try:
            for inst in list(m.Instrument._all_instruments.values()):
                if inst.name not in core.KEEP:
                    inst.close()
        except Exception:  # noqa: BLE001
            pass


class Searcher:
    def __init__(self, deadline, shrink_s):
        self.deadline = deadline
        self.shrink_s = shrink_s

    def run(self, sub, n, seed):
        import hypothesis as hy
        from hypothesis import HealthCheck, Phase, given, settings

        res = dict(evals=0, nontrivial={}, discards=0, disc_reasons={}, tags={}, samples=[],
                   fail=None, stopped=False)
        st = {"first_fail": None}
        strat = sub.strategy()

        @hy.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  report_multiple_bugs=False, print_blob=False,
                  suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
        @given(strat)
        def prop(case):
            now = time.time()
            if st["first_fail"] is None:
                if now > self.deadline:
                    res["stopped"] = True
                    raise Abort
            elif now > st["first_fail"] + self.shrink_s:
                raise Abort
            status, info = run_case(sub, case)
            if st["first_fail"] is None:
                res["evals"] += 1
                if status == "ok":
                    for t in info["tags"]:
                        res["tags"][t] = res["tags"].get(t, 0) + 1
                    if info["nontrivial"]:
                        h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                        if h not in res["nontrivial"]:
                            res["nontrivial"][h] = 1
                            if len(res["samples"]) < 3 and len(canon(case)) < 6000:
                                res["samples"].append(case)
                elif status == "discard":
                    res["discards"] += 1
                    k = info[:160]
                    if len(res["disc_reasons"]) < 40 or k in res["disc_reasons"]:
                        res["disc_reasons"][k] = res["disc_reasons"].get(k, 0) + 1
            if status == "fail":
                if st["first_fail"] is None:
                    st["first_fail"] = time.time()
                size = len(canon(case))
                if res["fail"] is None or size <= res["fail"]["size"]:
                    res["fail"] = dict(size=size, case=case, msg=info, sub=sub.name)
                raise Violation(info.split("\n")[0][:200])

        try:
            prop()
        except Abort:
            pass
        except hy.errors.HypothesisException as e:
            if res["fail"] is None:
                raise RuntimeError(f"generator problem in {sub.name}: {e!r}") from e
        except Exception:  # noqa: BLE001
            if res["fail"] is None:
                raise
        return res


def merge(a, b):
    a["evals"] += b["evals"]
    a["discards"] += b["discards"]
    a["nontrivial"].update(b["nontrivial"])
    a["stopped"] = a["stopped"] or b["stopped"]
    for key in ("tags", "disc_reasons"):
        for k, v in b[key].items():
            a[key][k] = a[key].get(k, 0) + v
    a["samples"] = (a["samples"] + b["samples"])[:3]
    if b["fail"] and (a["fail"] is None or b["fail"]["size"] < a["fail"]["size"]):
        a["fail"] = b["fail"]
    return a


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    a.tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    replay = os.path.abspath(a.replay) if a.replay else None
    scratch = tempfile.mkdtemp(prefix="vf_")
    owner = os.getpid()
    rc = 2
    try:
        os.chdir(scratch)
        os.environ["HOME"] = scratch
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = scratch
        rc = _main(a, t0, scratch, replay)
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    finally:
        if os.getpid() == owner:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def _main(a, t0, scratch, replay):
    _quiet()
    import random

    random.seed(a.seed)
    mod = importlib.import_module(f"props.{a.prop.lower()}")
    subs = {s.name: s for s in mod.SUBS}
    if hasattr(mod, "setup"):
        mod.setup()

    if replay:
        d = json.load(open(replay))
        status, info = run_case(subs[d["sub"]], d["case"])
        print(status, info)
        if status == "fail":
            print(f"VIOLATION property={a.prop} replay={replay}")
            return 1
        return 0

    knowns = []
    for k in getattr(mod, "KNOWN", []):
        try:
            k.run()
            print(f"note: recorded finding {k.id} no longer reproduces")
        except Violation as e:
            print(f"KNOWN-FINDING: property={a.prop} {k.id}: {k.text}")
            knowns.append(f"{k.id}: {str(e)[:200]}")
        finally:
            _cleanup()

    fails = []
    # fixed regression cases first
    cdir = os.path.join(HERE, "corpus", a.prop)
    ncorpus = 0
    if os.path.isdir(cdir) and not a.only:
        for f in sorted(os.listdir(cdir)):
            d = json.load(open(os.path.join(cdir, f)))
            if d["sub"] not in subs:
                continue
            ncorpus += 1
            status, info = run_case(subs[d["sub"]], d["case"])
            if status == "fail":
                fails.append(dict(size=len(canon(d["case"])), case=d["case"], msg=info,
                                  sub=d["sub"]))

    budget = float(os.environ.get("VF_BUDGET", "240" if a.tier == "quick" else "3000"))
    deadline = t0 + budget
    shrink_s = 45 if a.tier == "quick" else 180
    work = []  # (sub, n, shard)
    for s in mod.SUBS:
        if a.only and s.name != a.only:
            continue
        n = max(1, int((s.quick if a.tier == "quick" else s.thorough) * a.scale))
        shards = min(a.jobs, max(1, n // 4))
        for i in range(shards):
            m = n // shards + (1 if i < n % shards else 0)
            if m:
                work.append((s.name, m, i))
    # one process per job slot; slot i takes shard i of each subcheck, starting at a
    # different subcheck so that a time limit does not starve the last ones
    slots = [[] for _ in range(a.jobs)]
    for s, m, i in work:
        slots[i % a.jobs].append((s, m, i))
    for i, sl in enumerate(slots):
        if sl:
            r = i % len(sl)
            slots[i] = sl[r:] + sl[:r]
    pids = {}
    stop_flag = os.path.join(scratch, "STOP")
    for i, sl in enumerate(slots):
        if not sl:
            continue
        out = os.path.join(scratch, f"out{i}.json")
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                wd = os.path.join(scratch, f"w{i}")
                os.makedirs(wd, exist_ok=True)
                os.chdir(wd)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                except Exception:  # noqa: BLE001
                    pass
                res = {}
                for s, m, shard in sl:
                    if os.path.exists(stop_flag) and s in res:
                        continue
                    sr = Searcher(deadline, shrink_s)
                    t1 = time.time()
                    r = sr.run(subs[s], m, seed_of(a.seed, a.prop, s, shard))
                    r["time"] = time.time() - t1
                    res[s] = r
                    if r["fail"]:
                        # one reproduction is enough; let the other slots finish early
                        break
                json.dump(res, open(out, "w"))
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids[pid] = (i, out)

    total = {}
    times = {}
    broken = []
    for pid, (i, out) in pids.items():
        _, status = os.waitpid(pid, 0)
        if status != 0:
            broken.append((i, status))
            continue
        for s, r in json.load(open(out)).items():
            times[s] = times.get(s, 0) + r.pop("time")
            total[s] = merge(total[s], r) if s in total else r
    ev = sum(r["evals"] for r in total.values()) + ncorpus
    nt = sum(len(r["nontrivial"]) for r in total.values())
    samples = []
    for s, r in total.items():
        samples += [{"sub": s, "case": c} for c in r["samples"][:2]]
    for r in total.values():
        if r["fail"]:
            fails.append(r["fail"])
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": nt,
        "rule": " | ".join(f"{s.name}: {s.rule}" for s in mod.SUBS if s.rule) or "see DESIGN.md",
        "samples": samples[:12],
        "per_subcheck": {
            s: dict(evaluations=r["evals"], distinct_nontrivial=len(r["nontrivial"]),
                    outside_domain=r["discards"],
                    outside_domain_reasons=dict(sorted(r["disc_reasons"].items(),
                                                       key=lambda kv: -kv[1])[:8]),
                    classes=r["tags"], stopped_by_time=r["stopped"],
                    cpu_s=round(times.get(s, 0), 1))
            for s, r in total.items()
        },
        "regression_cases": ncorpus,
        "known_findings_reproduced": knowns,
    }
    rec = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(fails),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(rec, open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w"), indent=1)
    for s, r in total.items():
        print(f"{a.prop}.{s}: evaluations={r['evals']} nontrivial={len(r['nontrivial'])} "
              f"outside={r['discards']} cpu={times.get(s, 0):.1f}s"
              + (" (time limit)" if r["stopped"] else ""))
    if fails:
        fails.sort(key=lambda f: f["size"])
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in fails[:3]:
            h = hashlib.sha1(canon(f["case"]).encode()).hexdigest()[:10]
            p = os.path.join(rdir, f"{a.prop}-{f['sub']}-{h}.json")
            json.dump({"sub": f["sub"], "case": f["case"], "message": f["msg"]},
                      open(p, "w"), indent=1)
            print(f"--- {a.prop}.{f['sub']}: {f['msg'][:3000]}")
            print(f"case: {canon(f['case'])[:3000]}")
            print(f"VIOLATION property={a.prop} replay={p}")
        return 1
    if broken:
        print(f"harness error: workers {broken} did not finish")
        return 2
    print(f"{a.prop}: held; evaluations={ev} distinct_nontrivial={nt} "
          f"wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    main()

#!/opt/venv/bin/python
"""Run the checks of one property: run.py C01 [--tier quick|thorough].

The parent starts worker processes, each of which drives every check of the
property with Hypothesis on its share of the cases; it then confirms any
failure in a fresh process, writes the evidence and reports.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

LIMITS = {"quick": 170.0, "thorough": 3000.0}  # generation seconds per worker


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    return e


# ---------------------------------------------------------------- worker side
def load(prop):
    import vf.boot  # noqa
    return importlib.import_module("props." + prop.lower())


class Hang(BaseException):
    pass


def run_case(check, case):
    """Run one case; return (recorder, None | (kind, message))."""
    import signal
    import traceback
    import numpy as np
    import vf.boot
    from vf.core import Recorder, Violation

    def on_alarm(*a):
        raise Hang()

    rec = Recorder()
    np.random.seed(20240229)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(check.hang))
    try:
        check.fn(json.loads(json.dumps(case)), rec)
        return rec, None
    except Violation as e:
        return rec, ("violation", str(e)[:2000])
    except Hang:
        return rec, ("violation", "no result within %d s" % check.hang)
    except Exception as e:
        tb = e.__traceback__
        inrepo = None
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if os.path.realpath(fn).startswith(
                    os.path.realpath(vf.boot.REPO) + os.sep):
                inrepo = "%s:%s" % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
            tb = tb.tb_next
        text = "".join(traceback.format_exception(e))[-1800:]
        if inrepo:
            return rec, ("violation", "%s raised in %s on a valid input: %s\n%s"
                         % (type(e).__name__, inrepo, str(e)[:300], text))
        if not isinstance(e, (MemoryError, OSError, ImportError, SyntaxError)):
            # the check could not make sense of what the code returned
            return rec, ("violation", "the result cannot be examined: %s: %s\n%s" % (
                type(e).__name__, str(e)[:300], text))
        return rec, ("error", text)
    finally:
        signal.alarm(0)
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass


def worker(prop, tier, seed, idx, nworkers, out):
    mod = load(prop)
    import hashlib
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from vf.core import case_hash

    t_end = time.time() + LIMITS[tier]
    res = {"evaluations": 0, "labels": {}, "hashes": [], "samples": [],
           "failures": [], "errors": [], "truncated": [], "per_check": {}}
    scale = float(os.environ.get("VF_SCALE", "1"))

    for check in mod.CHECKS:
        total = max(1, int(round((check.quick if tier == "quick" else check.thorough) * scale)))
        n = total // nworkers + (1 if (idx < total % nworkers) else 0)
        state = {"fail": None, "t_fail": None, "err": None, "hist": [], "n": 0,
                 "nt": 0, "stop": False, "seen": 0}

        def one(case):
            if state["stop"]:
                return
            if state.pop("skip", False):
                return  # Hypothesis starts with the minimal case: once is enough
            if state["fail"] is None and time.time() > t_end:
                if check.name not in res["truncated"]:
                    res["truncated"].append(check.name)
                return
            if state["t_fail"] and time.time() - state["t_fail"] > 25:
                state["stop"] = True
                return
            rec, bad = run_case(check, case)
            if state["fail"] is None:
                state["n"] += 1
                res["evaluations"] += 1
                state["hist"].append(case)
                del state["hist"][:-40]
                for lb in rec.labels:
                    lb = check.name + ":" + lb
                    res["labels"][lb] = res["labels"].get(lb, 0) + 1
                if rec.nt:
                    state["nt"] += 1
                    res["hashes"].append(case_hash(check.name, case))
                    if state["nt"] <= 6:  # keep a typical case, not the first
                        res["samples"] = [s for s in res["samples"] if s["check"] != check.name]
                        res["samples"].append({"check": check.name, "case": case})
            if bad is None:
                return
            kind, msg = bad
            if kind == "error":
                state["err"] = {"check": check.name, "case": case, "text": msg}
                state["stop"] = True
                raise RuntimeError("harness error")
            size = len(json.dumps(case))
            if state["fail"] is None:
                state["fail"] = {"check": check.name, "case": case, "msg": msg,
                                 "first": case, "size": size,
                                 "history": state["hist"][:-1]}
                state["t_fail"] = time.time()
            elif size <= state["fail"]["size"]:
                state["fail"].update(case=case, msg=msg, size=size)
            raise AssertionError("violation")

        try:
            for k, ex in enumerate(check.examples):
                if k % nworkers == idx and not state["fail"] and not state["stop"]:
                    one(ex)
        except (AssertionError, RuntimeError):
            pass
        if n and not state["fail"] and not state["stop"] and check.strategy is not None:
            sd = int(hashlib.sha256(("%s/%s/%s/%d/%d" % (
                prop, check.name, tier, seed, idx)).encode()).hexdigest()[:12], 16)
            test = given(check.strategy)(one)
            state["skip"] = idx > 0 or n == 1
            test = settings(
                max_examples=n + state["skip"], database=None, deadline=None, derandomize=False,
                suppress_health_check=list(HealthCheck), print_blob=False,
                phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
            )(test)
            test = hseed(sd)(test)
            try:
                test()
            except BaseException as e:  # noqa
                if not state["fail"] and not state["err"]:
                    import traceback
                    state["err"] = {"check": check.name, "case": None,
                                    "text": "".join(traceback.format_exception(e))[-1800:]}
        res["per_check"][check.name] = [state["n"], state["nt"]]
        if state["fail"]:
            res["failures"].append(state["fail"])
        if state["err"]:
            res["errors"].append(state["err"])
        with open(out + ".part", "w") as f:
            json.dump(res, f)
    os.replace(out + ".part", out)


def replay(prop, path, quiet=False):
    mod = load(prop)
    with open(path) as f:
        doc = json.load(f)
    check = {c.name: c for c in mod.CHECKS}[doc["check"]]
    for case in doc["cases"]:
        rec, bad = run_case(check, case)
        if bad and bad[0] == "violation":
            print("check %s: %s" % (check.name, bad[1]))
            print("case: %s" % json.dumps(case)[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if bad:
            print(bad[1])
            return 2
    print("replay passed")
    return 0


def known(prop):
    """Run the demonstrations of the listed known findings of a property."""
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        entries = [e for e in json.load(f)["known"] if e["property"] == prop]
    if not entries:
        return 0
    mod = load(prop)
    for e in entries:
        fails = mod.KNOWN[e["demo"]](e["case"])
        if fails:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
        else:
            print("note: known finding no longer fails: %s" % e["what"])
    return 0


# ---------------------------------------------------------------- parent side
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--known", action="store_true")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VF_WORKERS", "8")))
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        return replay(a.prop, a.replay)
    if a.known:
        return known(a.prop)
    if a.worker is not None:
        worker(a.prop, a.tier, seed, a.worker, a.workers, a.out)
        return 0

    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf-run-")
    try:
        return parent(a, seed, work, t0)
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)


def parent(a, seed, work, t0):
    procs = []
    for i in range(a.workers):
        out = os.path.join(work, "w%d.json" % i)
        log = open(os.path.join(work, "w%d.log" % i), "w")
        procs.append((i, out, log, subprocess.Popen(
            [PY, os.path.abspath(__file__), a.prop, "--tier", a.tier, "--worker", str(i),
             "--workers", str(a.workers), "--out", out],
            stdout=log, stderr=subprocess.STDOUT, env=env(), cwd=VERIF)))
    hard = t0 + LIMITS[a.tier] + 420
    rc, errors, results = 0, [], []
    kn = subprocess.run([PY, os.path.abspath(__file__), a.prop, "--known"],
                        capture_output=True, text=True, env=env(), cwd=VERIF)
    if kn.returncode:
        errors.append("known findings: " + kn.stdout[-500:] + kn.stderr[-1500:])
    print(kn.stdout, end="", flush=True)
    for i, out, log, p in procs:
        try:
            p.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("worker %d did not finish" % i)
        log.close()
        path = out if os.path.exists(out) else out + ".part"
        if os.path.exists(path):
            with open(path) as f:
                results.append(json.load(f))
        if not os.path.exists(out):
            with open(os.path.join(work, "w%d.log" % i)) as f:
                errors.append("worker %d: %s" % (i, f.read()[-1500:]))

    ev = {"evaluations": 0, "labels": {}, "per_check": {}}
    hashes, samples, fails, trunc = set(), {}, {}, set()
    for r in results:
        ev["evaluations"] += r["evaluations"]
        hashes.update(r["hashes"])
        trunc.update(r["truncated"])
        for k, v in r["labels"].items():
            ev["labels"][k] = ev["labels"].get(k, 0) + v
        for k, (n, nt) in r["per_check"].items():
            c = ev["per_check"].setdefault(k, {"cases": 0, "nontrivial": 0})
            c["cases"] += n
            c["nontrivial"] += nt
        for s in r["samples"]:
            samples.setdefault(s["check"], s)
        for e in r["errors"]:
            errors.append("check %s: %s\ncase: %s" % (e["check"], e["text"], json.dumps(e["case"])[:800]))
        for f in r["failures"]:
            cur = fails.get(f["check"])
            if cur is None or f["size"] < cur["size"]:
                fails[f["check"]] = f

    rdir = os.path.join(VERIF, "replays")
    nviol = 0
    for name, f in sorted(fails.items()):
        os.makedirs(rdir, exist_ok=True)
        confirmed = None
        for cases in ([f["case"]], [f["first"]], f["history"] + [f["first"]]):
            path = os.path.join(rdir, "%s-%s.json" % (a.prop, name))
            with open(path, "w") as fh:
                json.dump({"property": a.prop, "check": name, "cases": cases,
                           "message": f["msg"]}, fh, indent=1)
            r = subprocess.run([PY, os.path.abspath(__file__), a.prop, "--replay", path],
                               capture_output=True, text=True, env=env(), cwd=VERIF)
            if r.returncode == 1:
                confirmed = path
                break
        if confirmed:
            nviol += 1
            print("check %s failed: %s" % (name, f["msg"]))
            print("case: %s" % json.dumps(f["case"])[:2000])
            print("VIOLATION property=%s replay=%s" % (a.prop, confirmed), flush=True)
        else:
            errors.append("check %s failed but its replay does not: %s\ncase %s" % (
                name, f["msg"], json.dumps(f["case"])[:800]))

    sys.path.insert(0, VERIF)
    meta = json.loads(subprocess.run(
        [PY, "-c", "import sys,json;sys.path.insert(0,%r);import run;m=run.load(%r);"
         "print('META'+json.dumps([m.RULE, m.ASSUMPTIONS]))" % (VERIF, a.prop)],
        capture_output=True, text=True, env=env(), cwd=VERIF).stdout.split("META")[-1] or '["",[]]')
    samp = []
    for s in samples.values():
        txt = json.dumps(s)
        samp.append(s if len(txt) < 4000 else {"check": s["check"], "case": txt[:4000]})
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev["evaluations"], "distinct_nontrivial": len(hashes),
            "rule": meta[0], "samples": samp[:12], "per_check": ev["per_check"],
            "labels": dict(sorted(ev["labels"].items())[:200]),
            "truncated_by_time": sorted(trunc),
        },
        "assumptions": meta[1], "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s%s" % (
        a.prop, a.tier, ev["evaluations"], len(hashes), time.time() - t0,
        " (cut by time: %s)" % ",".join(sorted(trunc)) if trunc else ""))
    if nviol:
        return 1
    if errors:
        print("ERRORS:\n" + "\n".join(errors[:4]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

"""Entry point of the checks: builds the code under test, runs the workers, writes the evidence."""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import build
from .paths import EVIDENCE, KNOWN, REPLAYS, VERIF

HANG_S = 240


def known_entries(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fid:
            for line in fid:
                if line.strip():
                    e = json.loads(line)
                    if e.get("property") == pid and e.get("kind") == "finding":
                        out.append(e)
    return out


def write_replay(pid, sub, case, message, tb):
    os.makedirs(REPLAYS, exist_ok=True)
    data = {"property": pid, "sub": sub, "case": case, "message": message, "traceback": tb}
    h = hashlib.sha256(json.dumps([sub, case], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, "%s-%s.json" % (pid, h))
    with open(path, "w") as fid:
        json.dump(data, fid, indent=1)
    return os.path.relpath(path, VERIF)


def load_check(pid):
    """Read the definition of the check without importing the code under test (done in the workers)."""
    return pid


def replay(pid, path, ext):
    from .boot import boot

    boot(ext)
    from .core import Ctx, Skip, Violation

    check = importlib.import_module("vf.checks." + pid.lower()).CHECK
    with open(path) as fid:
        data = json.load(fid)
    if check.runner is not None and data["sub"] not in [s.name for s in check.subs]:
        sys.exit(check.runner.replay(data, path))
    sub = [s for s in check.subs if s.name == data["sub"]][0]
    try:
        sub.fn(data["case"], Ctx())
    except Skip:
        print("case outside of the domain")
        return 0
    except BaseException as e:
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("the property holds on the replayed case")
    return 0


def tail(path, n=4000):
    try:
        with open(path, errors="replace") as fid:
            return fid.read()[-n:]
    except OSError:
        return ""


def main():
    args = sys.argv[1:]
    t0 = time.time()
    try:
        ext = build.build_extension()
    except build.BuildError as e:
        print(e, file=sys.stderr)
        return 2
    if args and args[0] == "--build":
        print("built", ext)
        return 0
    pid = args[0]
    if len(args) >= 3 and args[1] == "--replay":
        return replay(pid, args[2], ext)
    only = []
    for a in args[1:]:
        if a.startswith("--sub="):
            only.append(a[6:])
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "3000"))
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    violation = None
    errors = []
    results = []
    try:
        meta = json.loads(
            subprocess.run(
                [sys.executable, "-m", "vf.meta", pid, ext], cwd=VERIF, stdout=subprocess.PIPE, check=True, text=True
            ).stdout.splitlines()[-1]
        )
        workers = min(workers, meta["workers"])
        procs = []
        for w in range(workers):
            spec = {
                "check": pid, "ext": ext, "tier": tier, "seed": seed, "worker": w, "workers": workers,
                "budget_s": budget, "shrink_seconds": 60 if tier == "quick" else 240, "only": only, "listed": [e["id"] for e in known_entries(pid)],
                "out": os.path.join(tmp, "out%d.json" % w), "case_file": os.path.join(tmp, "case%d.json" % w),
            }
            log = open(os.path.join(tmp, "log%d" % w), "w")
            p = subprocess.Popen(
                [sys.executable, "-m", "vf.worker", json.dumps(spec)], cwd=VERIF, stdout=log, stderr=log,
                start_new_session=True,
            )
            procs.append((p, spec, log))
        pending = list(procs)
        last_beat = {w: (None, time.time()) for w in range(workers)}
        while pending:
            time.sleep(0.05)
            for item in list(pending):
                p, spec, log = item
                rc = p.poll()
                if rc is None:
                    try:
                        m = os.stat(spec["case_file"]).st_mtime_ns
                    except OSError:
                        m = None
                    if last_beat[spec["worker"]][0] != m:
                        last_beat[spec["worker"]] = (m, time.time())
                        continue
                    elif m is not None and time.time() - last_beat[spec["worker"]][1] > HANG_S:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = "hang"
                    else:
                        continue
                pending.remove(item)
                log.close()
                if rc == 0 and os.path.exists(spec["out"]):
                    with open(spec["out"]) as fid:
                        r = json.load(fid)
                    results.append(r)
                    if r["error"]:
                        errors.append(r["error"])
                    if r["violation"] and violation is None:
                        violation = r["violation"]
                elif violation is None:
                    cur = None
                    try:
                        with open(spec["case_file"]) as fid:
                            cur = json.load(fid)
                    except (OSError, ValueError):
                        pass
                    logtext = tail(os.path.join(tmp, "log%d" % spec["worker"]))
                    crashed = rc == "hang" or (isinstance(rc, int) and rc < 0 and rc not in (-9, -15))
                    if cur is not None and crashed:
                        violation = {
                            "sub": cur["sub"], "case": cur["case"], "kind": "crash",
                            "message": "does not terminate" if rc == "hang" else "the process died with signal %d" % -rc,
                            "traceback": logtext,
                        }
                    else:
                        errors.append("worker ended with status %s\n%s" % (rc, logtext))
                if (violation or errors) and pending:
                    for q, _, l in pending:
                        try:
                            os.killpg(q.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        q.wait()
                        l.close()
                    pending = []
                    break
        fuzz = None
        if meta["runner"] and violation is None and not errors:
            check = importlib.import_module("vf.checks." + pid.lower() + "_fuzz")
            fuzz = check.run(tier, seed, tmp)
            if fuzz.get("violation"):
                violation = fuzz["violation"]
            if fuzz.get("error"):
                errors.append(fuzz["error"])
        known_lines = []
        if violation is None and not errors:
            for e in known_entries(pid):
                r = subprocess.run(
                    [sys.executable, "-m", "vf.known", pid, ext, json.dumps(e)], cwd=VERIF, stdout=subprocess.PIPE,
                    text=True,
                )
                if r.returncode == 0:
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
                elif r.returncode == 3:
                    pass  # the finding does not reproduce any more
                else:
                    errors.append("known finding %s could not be evaluated" % e.get("id"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # evidence
    evaluations = 0
    distinct = 0
    classes = {}
    samples = []
    known_hits = {}
    names = []
    for r in results:
        for n in r["subs"]:
            if n not in names:
                names.append(n)
    per_sub = {}
    for n in names:
        hs = set()
        ev = sk = ob = 0
        lab = {}
        smp = []
        for r in results:
            s = r["subs"].get(n)
            if not s:
                continue
            hs.update(s["hashes"])
            ev += s["evaluations"]
            sk += s["skipped"]
            ob += s["over_budget"]
            for k, v in s["labels"].items():
                lab[k] = lab.get(k, 0) + v
            for k, v in s["known"].items():
                known_hits[k] = known_hits.get(k, 0) + v
            smp += s["samples"]
        per_sub[n] = {"evaluations": ev, "distinct_nontrivial": len(hs), "outside_domain": sk, "not_run_time_budget": ob,
                      "classes": dict(sorted(lab.items()))}
        evaluations += ev
        distinct += len(hs)
        samples += [{"sub": n, "case": c} for c in smp[:3]]
    coverage = {
        "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": meta["rule"],
        "samples": samples, "sub_checks": per_sub,
    }
    if known_hits:
        coverage["known_finding_hits"] = known_hits
    if fuzz is not None:
        coverage["fuzzing"] = fuzz["evidence"]
        coverage["evaluations"] += fuzz["evidence"].get("executions", 0)
        coverage["distinct_nontrivial"] += fuzz["evidence"].get("corpus_units", 0)
        coverage["samples"] = (coverage["samples"] + fuzz["evidence"].get("samples", []))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if not only:
        with open(os.path.join(EVIDENCE, pid + ".json"), "w") as fid:
            json.dump(evidence, fid, indent=1)
    if violation:
        path = violation.get("replay") or write_replay(
            pid, violation["sub"], violation["case"], violation["message"], violation["traceback"]
        )
        print(violation["traceback"])
        print("sub-check %s: %s" % (violation["sub"], violation["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    for l in known_lines:
        print(l)
    for n, s in per_sub.items():
        print("%s %s: %d cases, %d distinct non trivial" % (pid, n, s["evaluations"], s["distinct_nontrivial"]))
    print("%s held on everything explored (%.1f s)" % (pid, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())

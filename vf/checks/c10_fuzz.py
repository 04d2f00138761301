"""Coverage guided fuzzing of the C++ header under sanitizers."""
import glob
import os
import random
import re
import subprocess
import tempfile

from .. import build
from ..paths import VERIF

SOURCE = os.path.join(VERIF, "fuzz", "scene_fuzzer.cc")
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:handle_abort=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def env():
    return dict(os.environ, **ENV)


def last_error(text):
    for pat in (r"ERROR: AddressSanitizer: [^\n]*", r"[^\n]*runtime error: [^\n]*", r"ERROR: libFuzzer: [^\n]*", r"[^\n]*(?:was modified|is rejected)[^\n]*"):
        m = re.search(pat, text)
        if m:
            return m.group(0)
    return "the fuzz target failed"


def reproduces(exe, path):
    r = subprocess.run([exe, "-timeout=20", "-rss_limit_mb=4000", path], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode != 0, r.stdout


def run(tier, seed, tmp):
    exe = build.build_fuzzer(SOURCE, "scene_fuzzer")
    jobs = 8
    runs, limit = (24000, 90) if tier == "quick" else (1500000, 1500)
    work = tempfile.mkdtemp(prefix="fuzz", dir=tmp)
    procs = []
    for j in range(jobs):
        d = os.path.join(work, "corpus%d" % j)
        os.makedirs(d)
        rng = random.Random(seed * 1000 + j)
        for k in range(48):
            n = rng.choice([24, 60, 120, 240, 480])
            with open(os.path.join(d, "seed%d" % k), "wb") as fid:
                fid.write(bytes(rng.randrange(256) for _ in range(n)))
        log = open(os.path.join(work, "log%d" % j), "w")
        p = subprocess.Popen(
            [exe, "-seed=%d" % (seed * 1000 + j + 1), "-runs=%d" % runs, "-max_total_time=%d" % limit, "-max_len=700", "-timeout=20",
             "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + os.path.join(work, "art%d-" % j), d],
            env=env(), stdout=log, stderr=log,
        )
        procs.append((p, log, d))
    executions = units = cov = 0
    violation = None
    error = None
    for j, (p, log, d) in enumerate(procs):
        p.wait()
        log.close()
        with open(log.name, errors="replace") as fid:
            text = fid.read()
        m = re.search(r"number_of_executed_units: (\d+)", text)
        executions += int(m.group(1)) if m else 0
        units += len(os.listdir(d))
        m = re.findall(r" cov: (\d+)", text)
        cov = max([cov] + [int(c) for c in m[-1:]])
        if p.returncode != 0 and violation is None:
            arts = glob.glob(os.path.join(work, "art%d-*" % j))
            if not arts:
                error = "the fuzzer failed without an artifact:\n" + text[-3000:]
                continue
            small = os.path.join(work, "small%d" % j)
            subprocess.run(
                [exe, "-minimize_crash=1", "-runs=20000", "-max_total_time=40", "-timeout=20", "-rss_limit_mb=3000", "-exact_artifact_path=" + small, arts[0]],
                env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            )
            best = small if os.path.exists(small) and reproduces(exe, small)[0] else arts[0]
            bad, out = reproduces(exe, best)
            if not bad:
                # e.g. killed for lack of memory: not a property of the input
                error = "the failure of the fuzzer does not reproduce:\n" + text[-3000:]
                continue
            with open(best, "rb") as fid:
                violation = {"sub": "fuzz", "case": {"hex": fid.read().hex()}, "kind": "crash", "message": last_error(out), "traceback": out[-6000:]}
    if violation:
        error = None
    samples = []
    for p, log, d in procs[:1]:
        for f in sorted(os.listdir(d))[:2]:
            with open(os.path.join(d, f), "rb") as fid:
                samples.append({"sub": "fuzz", "case": {"hex": fid.read().hex()}})
    evidence = {"executions": executions, "corpus_units": units, "edges_covered": cov, "jobs": jobs, "samples": samples}
    return {"violation": violation, "error": error, "evidence": evidence}


def replay(data, path):
    exe = build.build_fuzzer(SOURCE, "scene_fuzzer")
    with tempfile.NamedTemporaryFile(suffix=".bin") as fid:
        fid.write(bytes.fromhex(data["case"]["hex"]))
        fid.flush()
        bad, out = reproduces(exe, fid.name)
    print(out)
    if bad:
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1
    print("the property holds on the replayed case")
    return 0

"""Runs a share of the sub-checks of one check in a process of its own."""
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback


def main():
    spec = json.loads(sys.argv[1])
    faulthandler.enable()
    from .boot import boot

    boot(spec["ext"])
    from .core import Ctx, Skip, Violation, case_hash

    import hashlib

    from hypothesis import HealthCheck, Phase, given, seed, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = spec["shrink_seconds"]
    independent(engine)

    # the fitters and the mesh loaders print: keep stdout for the results
    devnull = open(os.devnull, "w")
    real_stdout = sys.stdout
    sys.stdout = devnull

    check = importlib.import_module("vf.checks." + spec["check"].lower()).CHECK
    listed = set(spec["listed"])
    deadline = time.time() + spec["budget_s"]
    result = {"subs": {}, "violation": None, "error": None}
    case_fd = os.open(spec["case_file"], os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    beat = [0]

    def record_current(sub, case):
        beat[0] += 1
        data = json.dumps({"sub": sub.name, "case": case, "n": beat[0]}).encode()
        os.ftruncate(case_fd, 0)
        os.pwrite(case_fd, data, 0)

    for sub in check.subs:
        if spec["only"] and sub.name not in spec["only"]:
            continue
        total = sub.thorough if spec["tier"] == "thorough" else sub.quick
        nw = spec["workers"]
        if sub.single_worker:
            n = total if spec["worker"] == 0 else 0
        else:
            n = total // nw + (1 if spec["worker"] < total % nw else 0)
        st = {"evaluations": 0, "skipped": 0, "over_budget": 0, "hashes": [], "labels": {}, "samples": [], "known": {}}
        result["subs"][sub.name] = st
        seen = set()
        last_fail = {}

        def one(case, sub=sub, st=st, seen=seen, last_fail=last_fail):
            if time.time() > deadline and not last_fail:
                st["over_budget"] += 1
                return
            record_current(sub, case)
            ctx = Ctx()
            st["evaluations"] += 1
            try:
                sub.fn(case, ctx)
                for kf in ctx.known:
                    if kf not in listed:
                        raise Violation("finding that is not listed: " + kf)
            except Skip as e:
                st["skipped"] += 1
                k = "skipped: " + str(e)
                st["labels"][k] = st["labels"].get(k, 0) + 1
                return
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException as e:
                tb = traceback.format_exc()
                last_fail["case"] = case
                last_fail["message"] = str(e) if isinstance(e, Violation) else "%s: %s" % (type(e).__name__, e)
                last_fail["kind"] = "violation" if isinstance(e, Violation) else "exception"
                last_fail["traceback"] = tb
                # the code under test raises BaseException objects, which hypothesis does not catch
                raise Violation(last_fail["message"]) from None
            for l in ctx.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            for kf in ctx.known:
                st["known"][kf] = st["known"].get(kf, 0) + 1
            if ctx.is_nontrivial:
                h = case_hash(case)
                if h not in seen:
                    seen.add(h)
                    if len(seen) in (2, 20, 100):
                        st["samples"].append(case)

        try:
            if spec["worker"] == 0:
                for ex in sub.examples:
                    one(ex)
            if n > 0:
                s = int(
                    hashlib.sha256(("%d|%s|%s|%d" % (spec["seed"], spec["check"], sub.name, spec["worker"])).encode())
                    .hexdigest()[:12],
                    16,
                )
                # hypothesis starts with the simplest case: one worker is enough for it
                skip = spec["worker"] != 0
                n += skip
                test = given(sub.strategy())(one_hypothesis(one, skip))
                test = settings(
                    max_examples=n,
                    database=None,
                    deadline=None,
                    derandomize=False,
                    report_multiple_bugs=False,
                    print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck),
                )(test)
                test = seed(s)(test)
                test()
        except Violation as e:
            result["violation"] = dict(last_fail, sub=sub.name)
        except BaseException as e:
            if last_fail:
                # e.g. flaky failure while shrinking: the recorded case did fail
                result["violation"] = dict(last_fail, sub=sub.name)
            else:
                result["error"] = "sub-check %s: %s" % (sub.name, traceback.format_exc())
        st["hashes"] = sorted(seen)
        if result["violation"] or result["error"]:
            break
    os.close(case_fd)
    tmp = spec["out"] + ".tmp"
    with open(tmp, "w") as fid:
        json.dump(result, fid)
    os.rename(tmp, spec["out"])
    real_stdout.flush()
    os._exit(0)


def independent(engine):
    """Cases are drawn independently and integers uniformly.

    Left alone, hypothesis favours small integers (hence the first values of lists of choices) and spends four cases out of
    five on repeating parts of the previous one, which for cases that only have a few choices are the same case again.
    """
    from hypothesis.internal.conjecture.providers import HypothesisProvider as P

    draw = P.draw_integer

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, **kw):
        if min_value is None or max_value is None or weights is not None:
            return draw(self, min_value, max_value, weights=weights, **kw)
        return self._random.randint(min_value, max_value)

    P.draw_integer = draw_integer
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None


def one_hypothesis(one, skip):
    calls = [0]

    def test(case):
        calls[0] += 1
        if skip and calls[0] == 1:
            return
        one(case)

    return test


if __name__ == "__main__":
    main()

"""Definitions shared by all the checks: sub-checks, contexts, violations."""
import hashlib
import json

import numpy as np


class Violation(AssertionError):
    """The code under test breaks the property on the current case."""


class Skip(Exception):
    """The generated case is outside of the domain of the property: counted, not judged."""


class Ctx:
    """Bookkeeping for one case."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self.known = []

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def close(self, a, b, msg, rtol=1e-9, atol=1e-9, mask=None):
        """Compare two arrays, with a magnitude aware tolerance, nan and infinities have to match."""
        a = np.asarray(a, dtype=np.float64)
        b = np.asarray(b, dtype=np.float64)
        if a.shape != b.shape:
            raise Violation("%s: shapes %s and %s differ" % (msg, a.shape, b.shape))
        if mask is not None:
            a = a[mask]
            b = b[mask]
        if a.size == 0:
            return
        fin = np.isfinite(b)
        same_nonfinite = np.where(fin, True, (a == b) | (np.isnan(a) & np.isnan(b)))
        scale = np.max(np.abs(b[fin])) if fin.any() else 0.0
        err = np.where(fin, np.abs(np.where(fin, a, 0) - np.where(fin, b, 0)), 0.0)
        bad = ~same_nonfinite | (fin & ~np.isfinite(a)) | (err > atol + rtol * scale)
        if bad.any():
            k = int(np.argmax(np.where(bad, np.where(np.isfinite(err), err, np.inf), -1)))
            raise Violation(
                "%s: %d of %d values differ, e.g. got %r expected %r (tolerance %.3g)"
                % (msg, int(bad.sum()), a.size, float(a.flat[k]), float(b.flat[k]), atol + rtol * scale)
            )

    def exact(self, a, b, msg):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation("%s: shapes %s and %s differ" % (msg, a.shape, b.shape))
        bad = ~((a == b) | ((a != a) & (b != b)))
        if bad.any():
            k = int(np.flatnonzero(bad.ravel())[0])
            raise Violation(
                "%s: %d of %d values differ, e.g. got %r expected %r"
                % (msg, int(bad.sum()), a.size, a.flat[k], b.flat[k])
            )


class Sub:
    """One generated check: a strategy giving json serialisable cases and a function judging one case."""

    def __init__(self, name, strategy, fn, quick, thorough, examples=(), single_worker=False):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.examples = list(examples)
        self.single_worker = single_worker


class Check:
    def __init__(self, pid, rule, subs, assumptions=(), known=None, runner=None, workers=8):
        self.pid = pid
        self.rule = rule
        self.subs = subs
        self.assumptions = list(assumptions)
        self.known = known  # function(entry) -> None or message, for the listed findings
        self.runner = runner  # custom driver (fuzzers)
        self.workers = workers


def case_bytes(case):
    return json.dumps(case, sort_keys=True).encode()


def case_hash(case):
    return hashlib.sha256(case_bytes(case)).hexdigest()[:16]

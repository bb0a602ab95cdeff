"""Verdict plumbing shared by all monitors: per-case context, event counters, violations."""
import hashlib
import json
import traceback
from collections import Counter

import numpy as np


class Violation(Exception):
    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class Inconclusive(Exception):
    pass


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    return repr(x)[:400]


def fingerprint(x):
    s = x if isinstance(x, (bytes, bytearray)) else repr(x).encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "big")


class Ctx(object):
    """What one worker observed."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.events = Counter()     # what the monitors saw
        self.kinds = set()          # fingerprints of distinct non-trivial cases
        self.samples = []
        self.known = {}             # known-finding key -> first witness
        self.known_n = Counter()
        self.cases = 0
        self.note = {}              # context of the case being run (goes into the replay file)

    # -- observations -------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += n

    def nontrivial(self, key):
        self.kinds.add(fingerprint(key))

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(jsonable(x))

    # -- verdicts -----------------------------------------------------
    def fail(self, what, **detail):
        raise Violation(what, **detail)

    def check(self, cond, what, **detail):
        self.events["assertions"] += 1
        if not cond:
            raise Violation(what, **detail)

    def eq(self, got, want, what, **detail):
        self.events["assertions"] += 1
        if not (got == want):
            raise Violation(what, got=got, want=want, **detail)

    def close(self, got, want, what, rtol=1e-9, atol=1e-12, **detail):
        """Numeric agreement; NaN and infinities never agree, shapes must match."""
        self.events["assertions"] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            raise Violation(what + " (not numeric: %s)" % e, got=got, want=want, **detail)
        if g.shape != w.shape or not np.all(np.isfinite(g)) or np.any(np.abs(g - w) > atol + rtol * np.abs(w)):
            raise Violation(what, got=got, want=want, **detail)

    def known_finding(self, key, what):
        self.known_n[key] += 1
        self.known.setdefault(key, what)

    def expect_raises(self, fn, what, exc=Exception, **detail):
        self.events["assertions"] += 1
        try:
            fn()
        except exc as e:
            self.events["refusals"] += 1
            return e
        raise Violation(what, **detail)


def describe_exception(e, repo):
    tb = traceback.extract_tb(e.__traceback__)
    frames = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb]
    return {"type": type(e).__name__, "message": str(e)[:500], "in_repo": any(f.filename.startswith(repo) for f in tb), "frames": frames[-8:]}


def dump(path, obj):
    with open(path, "w") as f:
        json.dump(jsonable(obj), f, indent=1)

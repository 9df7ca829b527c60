"""Case runner, three-valued verdicts, evidence and known findings.

A check is a module ``checks.<id>`` with

* ``PROPERTY``   the property id
* ``RULE``       how cases are made and what makes one non-trivial
* ``FAMILIES``   a list of ``Family(name, fn, quick, thorough)``; ``fn(ctx, rng, i)`` runs one case,
                 calls the real code and reports through ``ctx``
* ``MONITORS``   {counter name: minimum} of events the oracle must have judged in the run,
                 or the run is inconclusive (exit 2, never "held")
* ``warm(ctx)``  optional: called once before the workers are forked, compiles kernels

Every case has its own generator seeded by (VERIF_SEED, property, family, index), so what a case does
does not depend on how the cases are spread over the workers, and a replay runs exactly one case.
"""

import hashlib
import json
import os
import sys
import time
import traceback
import zlib
from collections import Counter

import numpy as np

VERIF = os.environ.get("VERIF_DIR", "/verif")
REPO = os.environ.get("VERIF_REPO", "/repo")


class Family:
    """A family of cases: how many are run in each tier."""

    def __init__(self, name, fn, quick, thorough, monitors=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough


class Violation(Exception):
    """The property was seen broken."""

    def __init__(self, key, msg, data=None):
        super().__init__(msg)
        self.key = key
        self.msg = msg
        self.data = data


class Skip(Exception):
    """The generated case is outside the property's domain."""


def jsonable(x, depth=0):
    """Make a value printable in JSON, briefly."""
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return repr(x.tolist())[:400]
        if x.size > 40:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:10].tolist())}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if x is None or isinstance(x, str):
        return x
    return repr(x)[:300]


def case_rng(seed, prop, family, index):
    """Generator for one case."""
    return np.random.default_rng(
        [int(seed) & 0xFFFFFFFF, zlib.crc32(prop.encode()), zlib.crc32(family.encode()), index & 0xFFFFFFFF]
    )


class Ctx:
    """What a case reports to."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.events = Counter()
        self.hashes = set()
        self.samples = []
        self.evaluations = 0
        self.violations = []
        self.stats = {}
        self._case = None

    # -- called by cases
    def seen(self, name, n=1):
        """The oracle judged ``n`` events of this kind."""
        self.events[name] += int(n)

    def sig(self, *parts):
        """Signature of a non-trivial case (distinct ones are counted)."""
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.ascontiguousarray(p).tobytes())
            else:
                h.update(repr(p).encode())
        self.hashes.add(h.hexdigest())

    def sample(self, **kw):
        """Keep a few cases written out."""
        if len(self.samples) < 2:
            self.samples.append(jsonable({"case": self._case, **kw}))

    def stat(self, name, value):
        """Track the extremes of a measured quantity."""
        v = float(value)
        lo, hi = self.stats.get(name, (v, v))
        self.stats[name] = (min(lo, v), max(hi, v))

    def check(self, ok, key, msg, **data):
        """Judge one observation."""
        self.events["checks"] += 1
        if not ok:
            raise Violation(key, msg() if callable(msg) else msg, data)

    def close(self, got, want, tol, key, what, **data):
        """Judge one numeric observation."""
        self.events["checks"] += 1
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Violation(key, f"{what}: shape {got.shape}, expected {want.shape}", data)
        err = np.abs(got - want)
        ok = bool(np.all(err <= tol))
        if not ok:
            raise Violation(
                key,
                f"{what}: got {jsonable(got)}, expected {jsonable(want)}, "
                f"largest difference {np.nanmax(err) if err.size else 0:.6g}",
                {"tol": jsonable(np.asarray(tol)), **data},
            )

    # -- called by the runner
    def run(self, fam, index):
        """Run one case. Returns True when it was clean."""
        self._case = [fam.name, index]
        rng = case_rng(self.seed, self.prop, fam.name, index)
        self.evaluations += 1
        np.random.seed(int(rng.integers(0, 2**31)))
        try:
            fam.fn(self, rng, index)
        except Skip:
            self.events["skipped"] += 1
            self.evaluations -= 1
        except Violation as v:
            self.add_violation(v.key, v.msg, v.data)
            return False
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:  # the code under test raised, or gave something unusable
            tb = traceback.format_exc()
            self.add_violation(
                f"exception:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}", {"traceback": tb[-3000:]}
            )
            return False
        return True

    def add_violation(self, key, msg, data):
        self.violations.append(
            {"key": key, "msg": msg, "family": self._case[0], "index": self._case[1], "data": jsonable(data or {})}
        )

    def dump(self):
        return {
            "events": dict(self.events),
            "hashes": sorted(self.hashes),
            "samples": self.samples,
            "evaluations": self.evaluations,
            "violations": self.violations,
            "stats": self.stats,
        }

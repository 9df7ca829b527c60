"""The same calls in several threads at once give what they give alone."""

import signal

import numpy as np

from checks import c22
from vlib.core import Family, Violation

PROPERTY = "C23"
RULE = (
    "the workloads of the other properties on objects and files of their own, in 4 to 12 threads of one process, mixed, and with many threads on one kind of work; "
    "kernels that release the interpreter lock run at once, the rest is switched every 10 to 1000 microseconds. A case counts as broken when its oracle is content alone and not "
    "among others, or when the process dies. Distinct and non-trivial: case run beside others"
)
ASSUMPTIONS = ["threads share no objects or files", "schedules are those the machine gives; they are perturbed, not enumerated"]
WORKERS = 3
CHECKS = ["C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24"]
HEAVY = c22.HEAVY | {("C12", "simple"), ("C01", "general")}
ALL = [(c, f.name) for c in CHECKS for f in c22.MODS[c].FAMILIES if (c, f.name) not in HEAVY]
SMALL = [a for a in ALL if a[0] in ("C01", "C02", "C03", "C06", "C07", "C08", "C19", "C20", "C13", "C09", "C11", "C12")]


def judge(ctx, jobs, n, rng):
    import os

    os.environ["LAB_SWITCH"] = str(float(rng.choice([1e-5, 1e-4, 1e-3])))
    done, over, rc = c22.lab(ctx, f"threads:{n}", jobs, 70 if ctx.tier == "quick" else 150)
    if rc is None:
        # whether it hangs for good: nothing here takes that long
        if len(done) < len(jobs) // 4:
            raise Violation("hang", f"{n} threads: only {len(done)} of {len(jobs)} cases came back", {"jobs": jobs})
        ctx.seen("out of time")
    elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
        raise Violation("signal", f"{n} threads: the process died with signal {-rc}", {"jobs": jobs})
    elif rc != 0:
        raise RuntimeError(f"the process failed (status {rc})")
    for key, r in done.items():
        ctx.seen("cases")
        ctx.events["checks"] += r["checks"]
        ctx.sig(*key)
    if isinstance(over, list):
        ctx.seen("pairs of workloads at once", len(over))
    odd = [k for k, r in done.items() if r["violation"]]
    if odd:
        alone, _, _ = c22.lab(ctx, "plain", [list(k) for k in odd], 200)
        for k in odd:
            v = done[k]["violation"]
            if k not in alone:
                continue
            p = alone[k]["violation"]
            if p is None or not c22.same(v, p):
                raise Violation(f"threads:{k[0]}.{k[1]}", f"among {n} threads case {k[0]} {k[1]}:{k[2]} gives {v['key']}: {v['msg'][:300]}; alone it {'is clean' if p is None else 'gives ' + p['key']}",
                                {"case": k, "threads": n, "data": v.get("data")})
            ctx.seen("broken alone too")


def mixed(ctx, rng, i):
    n = int(rng.choice([4, 8, 12]))
    jobs = [[c, f, int(rng.integers(0, 200))] for c, f in ALL for _ in range(3)]
    rng.shuffle(jobs)
    judge(ctx, jobs[: 100], n, rng)


def alike(ctx, rng, i):
    """Every thread on the same kind of work, on inputs of its own."""
    n = int(rng.choice([4, 8]))
    jobs = []
    picked = [SMALL[int(k)] for k in rng.permutation(len(SMALL))[:8]]
    for c, f in picked:
        heavy = c in ("C09", "C11", "C12", "C13", "C19", "C20") and f not in ("rules", "freq", "pix")
        first = int(rng.integers(0, 100))
        jobs += [[c, f, first + k] for k in range(n * (2 if heavy else 6))]
        ctx.seen(f"alike {c}.{f}")
    judge(ctx, jobs, n, rng)


FAMILIES = [Family("mixed", mixed, 3, 60), Family("alike", alike, 6, 80)]
MONITORS = {"cases": 300, "pairs of workloads at once": 300}

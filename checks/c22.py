"""Kernels stay inside their arrays, and nothing hangs on memory that nobody wrote."""

import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys

from vlib.core import VERIF, Family, Violation

PROPERTY = "C22"
RULE = (
    "the workloads of the other properties, in processes of their own: compiled with every array index checked; interpreted with every calculated index checked for being negative; interpreted with all memory that numpy hands "
    "out unwritten filled with one of several bytes. A case counts as broken when its oracle is content in the plain process and not there, or when the process dies. "
    "Distinct and non-trivial: case and environment"
)
ASSUMPTIONS = ["index checks in compiled code are those of numba, where a negative index within the length wraps; those are looked for in interpreted code, wherever the index is calculated and not written as a constant", "memory made by numpy.empty, empty_like and recarray is filled; memory that compiled code takes is not",
               "interpreted target recognition is given images of 64-bit numbers, in which compiled code calculates anyway"]
CHECKS = [f"C{k:02d}" for k in range(1, 21)] + ["C24"]
WORKERS = 8
MODES = ["bounds", "poison:255", "poison:65", "poison:127", "ends"]
MODS = {c: importlib.import_module(f"checks.{c.lower()}") for c in CHECKS}
ALL = [(c, f.name) for c in CHECKS for f in MODS[c].FAMILIES]
# heavy families come in fewer batches
HEAVY = {("C09", "large"), ("C11", "big"), ("C24", "after"), ("C14", "full"), ("C14", "glass"), ("C14", "chain")}


def lab(ctx, mode, jobs, limit):
    """Run jobs in an environment. Returns ({case: violation}, last case begun, return code)."""
    d = os.path.join(ctx.scratch, "lab")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    inp, out = os.path.join(d, "in.json"), os.path.join(d, "out.jsonl")
    with open(inp, "w") as f:
        json.dump(jobs, f)
    env = dict(os.environ, VERIF_SEED=str(ctx.seed), LAB_LIMIT=str(limit))
    base = os.environ["VERIF_SCRATCH"]
    env["NUMBA_CACHE_DIR"] = os.path.join(base, "numba" if mode != "bounds" else "numba.bounds")
    if mode == "bounds":
        env["NUMBA_BOUNDSCHECK"] = "1"
    elif mode != "plain" and not mode.startswith("threads"):
        env["NUMBA_DISABLE_JIT"] = "1"
    with open(os.path.join(d, "err"), "w") as err:
        p = subprocess.Popen([sys.executable, "-m", "vlib.lab", mode, os.path.join(d, "s"), inp, out], env=env, cwd=d, stdout=err, stderr=err)
        try:
            rc = p.wait(limit * 3 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
    done, begun = {}, None
    if os.path.exists(out):
        with open(out) as f:
            for ln in f:
                try:
                    r = json.loads(ln)
                except ValueError:
                    continue
                if "overlaps" in r:
                    begun = r["overlaps"]
                elif "start" in r:
                    begun = tuple(r["start"])
                else:
                    done[tuple(r["case"])] = r
    return done, begun, rc


def same(a, b, numbers=False):
    """Both broken, and in the same way; with the same numbers if asked for."""
    if a["key"] != b["key"]:
        return False
    return not numbers or plain_text(a["msg"]) == plain_text(b["msg"])


def plain_text(msg):
    """A message without places and with numbers to a few digits."""
    msg = re.sub(r"(/[\w.%#-]+)+", "/", msg)
    return re.sub(r"-?\d+\.\d*(e[-+]?\d+)?", lambda m: f"{float(m.group()):.4g}", msg)


def batch(mode):
    def case(ctx, rng, i):
        jobs = [[c, f, i] for k, (c, f) in enumerate(ALL) if (c, f) not in HEAVY or (i + k) % 6 == 0]
        done, begun, rc = lab(ctx, mode, jobs, 60 if ctx.tier == "quick" else 150)
        if rc is None:
            ctx.seen("out of time")
        elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            raise Violation(f"{mode}:signal", f"{mode}: the process died with signal {-rc} in case {begun}", {"case": begun})
        elif rc != 0:
            raise RuntimeError(f"the process failed (status {rc})")
        kind = mode.split(":")[0]
        for key, r in done.items():
            ctx.seen(f"cases {kind}")
            ctx.events["checks"] += r["checks"]
            ctx.sig(mode, *key)
        ctx.seen("indices", max([r["indices"] for r in done.values()], default=0))
        ctx.seen("arrays filled", max([r["poisoned"] for r in done.values()], default=0))
        odd = [k for k, r in done.items() if r["violation"]]
        if odd:
            refs = ["python", "poison:0"] if kind == "poison" else ["plain"]
            for ref in refs:
                plain, _, rc = lab(ctx, ref, [list(k) for k in odd], 200)
                for k in odd:
                    v, p = done[k]["violation"], plain.get(k, {}).get("violation")
                    if k not in plain:
                        continue
                    if p is None or not same(v, p, kind == "poison"):
                        raise Violation(f"{kind}:{k[0]}.{k[1]}", f"{mode}: case {k[0]} {k[1]}:{k[2]} gives {v['key']}: {v['msg'][:300]}; in a process of kind {ref} it {'is clean' if p is None else 'gives ' + p['key'] + ': ' + p['msg'][:300]}",
                                        {"case": k, "mode": mode, "data": v.get("data")})
                    ctx.seen("broken in a plain process too")

    return case


def warm(ctx):
    """Compile with index checks once, for all."""
    lab(ctx, "bounds", [[c, f, 0] for c, f in ALL if (c, f) not in HEAVY], 100)


FAMILIES = [Family(m, batch(m), {"bounds": 12, "ends": 6}.get(m, 4), {"bounds": 120}.get(m, 60)) for m in MODES]
MONITORS = {"cases bounds": 250, "cases poison": 250, "cases ends": 80, "indices": 1000000, "arrays filled": 20000}

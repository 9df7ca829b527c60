"""Runs cases of other checks in a changed environment and says how each went.

python -m vlib.lab MODE SCRATCH IN OUT   (IN: JSON list of [check, family, index]; OUT: one JSON line per case)

MODE plain    as it is
     bounds   compiled kernels check every array index (NUMBA_BOUNDSCHECK=1, set by the caller)
     python   kernels interpreted (NUMBA_DISABLE_JIT=1, set by the caller)
     threads:N  jobs shared out to N threads that run at once
     ends     interpreted, and an index that was calculated and came out negative (which wraps to the end) is refused
     poison:V interpreted, and memory that nobody has written holds the byte V instead of whatever was there
"""

import importlib
import json
import os
import sys
import time
import traceback

import numpy as np

POISONED = {"arrays": 0}


def poison(byte):
    """Make numpy hand out memory full of a given byte."""
    real_empty, real_like = np.empty, np.empty_like

    def fill(a):
        if a.size and not a.dtype.hasobject and a.flags.c_contiguous:
            a.view(np.ndarray).reshape(-1).view(np.uint8)[...] = byte
            POISONED["arrays"] += 1
        return a

    def empty(*a, **k):
        return fill(real_empty(*a, **k))

    def empty_like(*a, **k):
        return fill(real_like(*a, **k))

    class recarray(np.recarray):
        """A record array whose memory is poisoned when it is made."""

        def __new__(cls, shape, *a, **k):
            r = real_recarray.__new__(real_recarray, shape, *a, **k)
            if k.get("buf") is None:
                fill(r)
            return r

    real_recarray = np.recarray
    meta = type("meta", (type,), {"__instancecheck__": lambda c, o: isinstance(o, real_recarray), "__subclasscheck__": lambda c, o: issubclass(o, real_recarray)})
    np.empty, np.empty_like = empty, empty_like
    np.recarray = meta("recarray", (real_recarray,), {"__new__": recarray.__new__})


class Ends(BaseException):
    """An index that was calculated is negative."""


SUBSCRIPTS = {"indices": 0}


def look_at(x):
    """Looks at an index."""
    SUBSCRIPTS["indices"] += 1
    if isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) and x < 0:
        raise Ends(f"index {x} was calculated")
    return x


def guard_ends():
    """Have every calculated index in the package looked at."""
    import ast
    import importlib.abc
    import importlib.machinery

    import builtins

    builtins.ix_guard = look_at

    def literal(n):
        return isinstance(n, ast.Constant) or (isinstance(n, ast.UnaryOp) and isinstance(n.operand, ast.Constant))

    class Marker(ast.NodeTransformer):
        def look(self, n):
            if literal(n) or isinstance(n, ast.Starred):
                return n
            if isinstance(n, ast.Tuple):
                return ast.copy_location(ast.Tuple([self.look(e) for e in n.elts], n.ctx), n)
            if isinstance(n, ast.Slice):
                # a negative end of a slice takes from the other side
                return ast.copy_location(ast.Slice(n.lower and self.look(n.lower), n.upper and self.look(n.upper), n.step), n)
            return ast.copy_location(ast.Call(ast.Name("ix_guard", ast.Load()), [n], []), n)

        def visit_Subscript(self, n):
            self.generic_visit(n)
            n.slice = self.look(n.slice)
            return n

        def visit_AnnAssign(self, n):
            if n.value is not None:
                n.value = self.visit(n.value)
            n.target = self.visit(n.target)
            return n

        def visit_arguments(self, n):
            n.defaults = [self.visit(d) for d in n.defaults]
            return n

        def visit_FunctionDef(self, n):
            n.args = self.visit(n.args)
            n.body = [self.visit(b) for b in n.body]
            return n

    class Loader(importlib.machinery.SourceFileLoader):
        def get_code(self, name):
            path = self.get_filename(name)
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read(), path)
            return compile(ast.fix_missing_locations(Marker().visit(tree)), path, "exec", dont_inherit=True)

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name.split(".")[0] != "openptv_python":
                return None
            spec = importlib.machinery.PathFinder.find_spec(name, path, target)
            if spec and spec.origin and spec.origin.endswith(".py"):
                spec.loader = Loader(name, spec.origin)
            return spec

    sys.meta_path.insert(0, Finder())


def main():
    mode, scratch, inp, outp = sys.argv[1:5]
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    fd = os.open(os.path.join(scratch, "noise"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 1)
    from vlib.core import REPO, Ctx

    sys.path.insert(0, REPO)
    with open(inp) as f:
        jobs = json.load(f)
    if mode == "ends":
        guard_ends()
    mods = {}
    for check, _, _ in jobs:
        if check not in mods:
            mods[check] = importlib.import_module(f"checks.{check.lower()}")
    if "C11" in mods and os.environ.get("NUMBA_DISABLE_JIT"):
        # interpreted numpy would calculate in 8 bits where the compiled code calculates in 64
        real = mods["C11"].target_recognition
        mods["C11"].target_recognition = lambda img, *a, **k: real(img.astype(np.int64), *a, **k)
    if mode.startswith("poison"):
        poison(int(mode.split(":")[1]))
    if mode.startswith("threads"):
        return threads(int(mode.split(":")[1]), jobs, mods, scratch, outp)
    limit = float(os.environ.get("LAB_LIMIT", "120"))
    t0 = time.time()
    with open(outp, "w") as out:
        for check, fam, i in jobs:
            if time.time() - t0 > limit:
                break
            mod = mods[check]
            ctx = Ctx(check, "quick", int(os.environ.get("VERIF_SEED", "1")), scratch)
            t1 = time.time()
            out.write(json.dumps({"start": [check, fam, i]}) + "\n")
            out.flush()
            ctx.run({f.name: f for f in mod.FAMILIES}[fam], i)
            v = ctx.violations[-1] if ctx.violations else None
            out.write(json.dumps({"case": [check, fam, i], "violation": v, "checks": ctx.events.get("checks", 0), "s": round(time.time() - t1, 2), "poisoned": POISONED["arrays"], "indices": SUBSCRIPTS["indices"]}) + "\n")
            out.flush()


def threads(n, jobs, mods, scratch, outp):
    """All jobs, in n threads; how many ran at once is counted."""
    import threading

    from vlib.core import Ctx

    limit = float(os.environ.get("LAB_LIMIT", "120"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fams = {c: {f.name: f for f in m.FAMILIES} for c, m in mods.items()}
    sys.setswitchinterval(float(os.environ.get("LAB_SWITCH", "1e-4")))
    lock, t0 = threading.Lock(), time.time()
    gate = threading.Barrier(n)
    running, overlaps = set(), set()
    out = open(outp, "w")

    def say(d):
        with lock:
            out.write(json.dumps(d) + "\n")
            out.flush()

    def work(k):
        d = os.path.join(scratch, f"t{k}")
        os.makedirs(d, exist_ok=True)
        gate.wait()
        for check, fam, i in jobs[k::n]:
            if time.time() - t0 > limit:
                break
            ctx = Ctx(check, "quick", seed, d)
            me = f"{check}.{fam}"
            with lock:
                for o in running:
                    overlaps.add(tuple(sorted((me, o[1]))))
                running.add((k, me))
            t1 = time.time()
            ctx.run(fams[check][fam], i)
            with lock:
                running.discard((k, me))
            v = ctx.violations[-1] if ctx.violations else None
            say({"case": [check, fam, i], "violation": v, "checks": ctx.events.get("checks", 0), "s": round(time.time() - t1, 2), "poisoned": 0, "indices": 0})

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    say({"overlaps": sorted(overlaps)})
    out.close()


if __name__ == "__main__":
    try:
        main()
    except BaseException:
        traceback.print_exc()
        sys.exit(3)

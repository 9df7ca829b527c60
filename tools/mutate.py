"""mutate.py: random small changes to the code, to find what the checks do not see. Not part of any check.

usage: mutate.py run FILE.py N SEED [--fn NAME] [--lanes K]   -> lines in /tmp/mut/<file>.<seed>.log
"""
import ast
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

CHECKS = {
    "calibration.py": ["C04", "C05"], "correspondences.py": ["C10", "C09"], "epi.py": ["C08", "C02"], "find_candidate.py": ["C08"], "image_processing.py": ["C12"],
    "imgcoord.py": ["C01"], "multimed.py": ["C01", "C07", "C02"], "orientation.py": ["C06", "C14"], "parameters.py": ["C15"], "ray_tracing.py": ["C02"],
    "segmentation.py": ["C11"], "sortgrid.py": ["C13"], "track.py": ["C20", "C19", "C18", "C24"], "tracking_frame_buf.py": ["C16", "C17", "C18", "C10"],
    "tracking_run.py": ["C19", "C18"], "trafo.py": ["C03"], "vec_utils.py": ["C19", "C06"],
}
SKIP = {"peak_fit", "fast_box_blur_numba", "peak_fit_new", "__repr__", "__str__"}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult]}
PAIR = [("x", "y"), ("imx", "imy"), ("pix_x", "pix_y"), ("xmin", "xmax"), ("ymin", "ymax"), ("prev_frame", "next_frame"), ("p1", "p2"), ("k1", "k2"), ("nx", "ny"), ("n1", "n3"),
        ("dvxmin", "dvymin"), ("dvxmax", "dvymax"), ("PREV_NONE", "NEXT_NONE"), ("xh", "yh"), ("x0", "y0"), ("cnx", "cny"), ("i", "j"), ("omega", "phi"), ("z_min_lay", "z_max_lay")]
SWAP = {a: b for p in PAIR for a, b in (p, p[::-1])}


def mutants(src):
    tree = ast.parse(src)
    out = []
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, what, fn):
        a, b = seg(n)
        out.append((a, b, new, what, fn, n.lineno))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP:
                return
            name = f"{fn}.{n.name}" if fn else n.name
            for c in n.body:
                visit(c, name)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print":
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            return
        if not fn:
            if isinstance(n, (ast.Module,)):
                for c in ast.iter_child_nodes(n):
                    visit(c, fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            for k, op in enumerate(n.ops):
                for alt in CMP.get(type(op), []):
                    m = ast.Compare(n.left, [alt() if j == k else o for j, o in enumerate(n.ops)], n.comparators)
                    add(n, "(" + ast.unparse(m) + ")", "cmp", fn)
        if isinstance(n, ast.BinOp):
            for alt in BIN.get(type(n.op), []):
                add(n, "(" + ast.unparse(ast.BinOp(n.left, alt(), n.right)) + ")", "op", fn)
        if isinstance(n, ast.BoolOp):
            m = ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)
            add(n, "(" + ast.unparse(m) + ")", "bool", fn)
            for k in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != k]
                m = rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)
                add(n, "(" + ast.unparse(m) + ")", "drop", fn)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            for w in ({v + 1, v - 1} if isinstance(v, int) else {v * 2, v * 0.5} if v else {1.0}):
                add(n, f"({w!r})", "const", fn)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, repr(not n.value), "const", fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
            add(n, "(" + ast.unparse(n.operand) + ")", "unary", fn)
        if isinstance(n, ast.If):
            add(n.test, "not (" + ast.unparse(n.test) + ")", "not", fn)
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(n, ast.unparse(ast.Attribute(n.value, SWAP[n.attr], n.ctx)), "swap", fn)
        if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            add(n, SWAP[n.id], "swap", fn)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, "pass", "delete", fn)
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "delete", fn)
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") in ("copy", "deepcopy") :
            add(n, ast.unparse(n.args[0] if n.args else n.func.value), "nocopy", fn)
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("min", "max"):
            add(n, ("max" if n.func.id == "min" else "min") + ast.unparse(n)[3:], "minmax", fn)
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    visit(tree, "")
    return out


def run(file, n, seed, fn=None, lanes=2):
    src = open(f"/repo/openptv_python/{file}", encoding="utf-8").read()
    ms = mutants(src)
    if fn:
        ms = [m for m in ms if fn in m[4]]
    random.Random(seed).shuffle(ms)
    total = len(ms)
    os.makedirs("/tmp/mut", exist_ok=True)
    log = f"/tmp/mut/{file}.{seed}.log"
    open(log, "a").write(f"# {total} mutants\n")
    raw = src.encode()

    def one(k):
        a, b, new, what, f, line = ms[k]
        mut = (raw[:a] + new.encode() + raw[b:]).decode()
        d = f"/tmp/mut/{file}.{seed}.{k}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/v")
        os.makedirs(d + "/r")
        try:
            compile(mut, file, "exec")
            subprocess.run(["cp", "-r", "/repo/openptv_python", d + "/r/"], check=True)
            shutil.rmtree(d + "/r/openptv_python/__pycache__", ignore_errors=True)
            open(f"{d}/r/openptv_python/{file}", "w", encoding="utf-8").write(mut)
            subprocess.run(["cp", "-r", "/verif/run.sh", "/verif/vlib", "/verif/checks", "/verif/known-findings.json", d + "/v/"], check=True)
            got = []
            t = time.time()
            for c in CHECKS[file]:
                p = subprocess.run(["timeout", "400", "./run.sh", c], cwd=d + "/v", env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_CASE_CPU="30"), capture_output=True, text=True)
                got.append(p.returncode)
                if p.returncode == 1:
                    break
            verdict = "caught" if 1 in got else "SURVIVED" if set(got) == {0} else f"odd{got}"
            msg = [x for x in p.stdout.split("\n") if not x.startswith("VIOL")][0][:120] if p.stdout else ""
            s = f"{verdict} {file}:{line} {f} [{what}] {raw[a:b].decode()[:150]!r} -> {new[:150]!r} {time.time() - t:.0f}s {msg if verdict != 'SURVIVED' else ''}"
        except SyntaxError:
            s = f"invalid {file}:{line}"
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with open(log, "a") as fh:
            fh.write(s.replace("\n", " ") + "\n")

    with ThreadPoolExecutor(lanes) as ex:
        list(ex.map(one, range(min(n, total))))


if __name__ == "__main__":
    a = sys.argv[2:]
    fn = a[a.index("--fn") + 1] if "--fn" in a else None
    lanes = int(a[a.index("--lanes") + 1]) if "--lanes" in a else 2
    run(a[0], int(a[1]), int(a[2]), fn, lanes)

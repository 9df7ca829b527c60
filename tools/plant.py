"""plant.py: turn a description of a planted bug into /verif/seeded/<id>/.

Usage in a script: from plant import plant; plant(id, property, {file: [(old, new), ...]}, demo, needs, breaks)
"""
import json, os, subprocess, shutil, tempfile, sys

DEMO_SH = """#!/bin/bash
# exit 0: the property held; nonzero: broken. Run with the repository as the working directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export NUMBA_CACHE_DIR=$T/nc MPLCONFIGDIR=$T/mpl PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 NUMBA_CPU_NAME=generic NUMBA_CPU_FEATURES=
export PYTHONPATH=$PWD DEMO_REPO=$PWD DEMO_TMP=$T
cd "$T" || exit 3
/opt/venv/bin/python -W ignore "$D/demo.py"
"""

def plant(id, prop, edits, demo, needs, breaks, env=""):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="/tmp/plant.")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        blame = {}
        for f, subs in edits.items():
            p = f"{w}/r/openptv_python/{f}"
            s = open(p).read()
            for old, new in subs:
                assert s.count(old) == 1, (id, f, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
            compile(s, p, "exec")
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        # removed lines must be original ones
        base = "6e11f38"
        import re
        for f in edits:
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f"openptv_python/{f}"], capture_output=True, text=True).stdout.split("\n")
            old = subprocess.run(["git", "-C", "/repo", "rev-list", base], capture_output=True, text=True).stdout.split()
            n = 0
            cur = None
            for ln in subprocess.run(["git", "-C", w + "/r", "diff", "-U0", "--", f"openptv_python/{f}"], capture_output=True, text=True).stdout.split("\n"):
                m = re.match(r"@@ -(\d+)", ln)
                if m:
                    cur = int(m[1]); continue
                if ln.startswith("-") and not ln.startswith("---"):
                    h = bl[cur - 1].split()[0].lstrip("^")
                    own = not any(o.startswith(h) for o in old)
                    if own:
                        print(f"  {id}: line {cur} of {f} is from a fix: {ln}")
                    else:
                        n += 1
                    cur += 1
            if n == 0:
                print(f"  {id}: {f}: no original line changed")
        open(d + "/patch.diff", "w").write(diff)
        sh = DEMO_SH.replace("export PYTHONPATH", env + "\nexport PYTHONPATH") if env else DEMO_SH
        open(d + "/demo.sh", "w").write(sh)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)

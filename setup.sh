#!/bin/bash
# Nothing is compiled ahead of time: every check compiles /repo's kernels itself, from the current
# working tree.  Here we only make sure the interpreter and the repository can be found.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import numpy, scipy, numba, yaml
print("numpy", numpy.__version__, "numba", numba.__version__)
P
test -d "${VERIF_REPO:-/repo}/openptv_python"

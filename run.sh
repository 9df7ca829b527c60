#!/bin/bash
# run.sh <PROPERTY> [args]: run one runtime-monitoring check against /repo's working tree.
# The repository's kernels are compiled afresh (a new numba cache every time, because numba does
# not notice changes in a callee of another module) in a scratch directory that goes away.
set -u
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$(pwd)
export VERIF_DIR
export VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export PATH=/opt/venv/bin:$PATH LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export NUMBA_CPU_NAME=generic NUMBA_CPU_FEATURES=
export PYTHONPATH=$VERIF_DIR:$VERIF_REPO
export PYTHONWARNINGS=ignore
SCRATCH=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH=$SCRATCH NUMBA_CACHE_DIR=$SCRATCH/numba MPLCONFIGDIR=$SCRATCH/mpl TMPDIR=$SCRATCH
mkdir -p "$NUMBA_CACHE_DIR" "$MPLCONFIGDIR" "$VERIF_DIR/evidence"
/opt/venv/bin/python -m vlib.main "$@"
exit $?

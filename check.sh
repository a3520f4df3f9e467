#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   or   check.sh replay <FILE>
# Runs the generated-input check of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
SCRATCH=$(mktemp -d /tmp/verif_pbt.XXXXXX) || exit 2
export SCRATCH
trap 'case "$SCRATCH" in /tmp/verif_pbt.*) rm -rf -- "$SCRATCH";; esac' EXIT
mkdir -p "$SCRATCH/mpl" "$SCRATCH/pyc" "$SCRATCH/home"
export HOME="$SCRATCH/home" MPLCONFIGDIR="$SCRATCH/mpl" MPLBACKEND=Agg
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUNBUFFERED=1
export HYPOTHESIS_STORAGE_DIRECTORY="$SCRATCH/hyp"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export NUMBA_CACHE_DIR="$SCRATCH/numba" TMPDIR="$SCRATCH"
unset PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || { echo "no interpreter at $PY" >&2; exit 2; }
"$PY" -B -X pycache_prefix="$SCRATCH/pyc" -m pbt.run "$@"
RC=$?
exit $RC

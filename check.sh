#!/bin/bash
# check.sh <property id> [options]   -- one deterministic-simulation check (see DESIGN.md)
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export PYTHONHASHSEED=${VERIF_HASHSEED:-0}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset PYTHONPATH
PY=/opt/venv/bin/python
OUT=$("$PY" "$HERE/sim/build.py") || { echo "build of the simulator or of the native module failed"; exit 3; }
. "$OUT"
export VERIF_QM_SO VERIF_STATP_SO VERIF_STAT_SO VERIF_ALLOC_SO VERIF_SHIM_SO
export LD_PRELOAD="$VERIF_SHIM_SO"
cd "$HERE" || exit 3
exec "$PY" -X faulthandler "$HERE/sim/main.py" "$@"

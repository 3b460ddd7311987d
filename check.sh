#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [extra arguments of gwv.run]
# Runs one property's monitors against the code in /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
export HOME="${HOME:-/root}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$here"
export BILBY_ALLOW_PARAMETERS_AS_STATE=FALSE
export MPLBACKEND=Agg JAX_PLATFORMS=cpu TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m gwv.run "$id" "$@"

#!/bin/bash
# check.sh <property> [quick|thorough]   or   check.sh --replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="${SKM_REPO:-/repo}:$here" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/tmp
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
export JAX_DISABLE_MOST_OPTIMIZATIONS=1   # compile time dominates
exec /opt/venv/bin/python "$here/check.py" "$@"

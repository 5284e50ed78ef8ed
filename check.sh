#!/bin/bash
# check.sh <PROPERTY> [--thorough] [--replay FILE]: decide one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$here:${MC_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= JAX_PLATFORMS=cpu JAX_ENABLE_X64=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
cd "$here" && exec /opt/venv/bin/python -W ignore -m mc.core "$@"

#!/bin/bash
# ./run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--part NAME]
cd "$(dirname "$0")" || exit 2
unset XLA_FLAGS JAX_ENABLE_X64 JAX_DEBUG_NANS JAX_DISABLE_JIT JAX_COMPILATION_CACHE_DIR
export PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=2
export TFDS_DATA_DIR=/nonexistent NO_GCE_CHECK=true
export OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m swirlmon.run "$@"

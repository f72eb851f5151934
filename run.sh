#!/bin/bash
# usage: run.sh Cxx [--replay FILE] ; tier and seed from VERIF_TIER / VERIF_SEED
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=${MC_TQDM_DISABLE-1}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3
export XLA_FLAGS="--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
PY=/opt/venv/bin/python
exec "$PY" -B -W ignore -m mc.main "$@"

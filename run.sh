#!/bin/bash
# run.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/repo
export CUDA_VISIBLE_DEVICES= JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 KERAS_BACKEND=tensorflow MPLBACKEND=Agg
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1
export PYTHONWARNINGS=ignore
unset KYMATIO_BACKEND KYMATIO_CACHE
exec /opt/venv/bin/python -m harness.main "$1" "${2:-${VERIF_TIER:-quick}}"

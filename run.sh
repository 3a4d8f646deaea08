#!/bin/bash
# run.sh <PROPERTY> [--replay FILE] : one check against /repo's current working tree
cd "$(dirname "$0")" || exit 3
export TQDM_DISABLE=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
SCRATCH="$(mktemp -d /tmp/verif.XXXXXX)" || exit 3
export VERIF_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH" HOME="$SCRATCH"
trap 'rm -rf -- "$SCRATCH"' EXIT
PYTHONPATH="$(pwd):${VERIF_REPO:-/repo}" /opt/venv/bin/python -m mc.core "$@"

#!/bin/bash
# Run one check: bash run.sh C03   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 GLOO_SOCKET_IFNAME=lo CUDA_VISIBLE_DEVICES=
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python checks/"${1,,}".py

#!/bin/bash
# Usage: run.sh <property-id> [--replay FILE] | run.sh --build
# Tier and seed come from VERIF_TIER and VERIF_SEED.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/mplconfig}
unset PYTHONPATH DISPLAY WAYLAND_DISPLAY
export LIBGL_ALWAYS_SOFTWARE=1 GALLIUM_DRIVER=llvmpipe MESA_SHADER_CACHE_DISABLE=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OPENBLAS_CORETYPE=Haswell MKL_CBWR=COMPATIBLE ATEN_CPU_CAPABILITY=default
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
exec /opt/venv/bin/python -m vf.main "$@"

#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/mplconfig}
export PYTHONPATH=/repo:$PWD
if [ "$1" = --setup ]; then
  exec /opt/venv/bin/python -c "import mentpy, vmon.run, vmon.core, vmon.ref, vmon.gen; print('mentpy imported from', mentpy.__file__)"
fi
exec /opt/venv/bin/python -m vmon.run "$@"

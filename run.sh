#!/bin/bash
# run.sh <ID> [--tier quick|thorough] [--replay FILE] [--jobs N] [--only SUBSTR]
# Explores the property's bounded space on the code in /repo's working tree (pure Python: the
# tree is imported directly, never through cached bytecode).
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
if [ -z "$MPLCONFIGDIR" ]; then
  if [ -d /opt/venv/mplconfig ]; then export MPLCONFIGDIR=/opt/venv/mplconfig; fi
fi
exec /opt/venv/bin/python -W ignore -m mc.run "$@"

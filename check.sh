#!/bin/bash
# check.sh <PROPERTY> [options]   run one property's monitor against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
d=$(mktemp -d) && export MPLCONFIGDIR="$d"
/opt/venv/bin/python -W ignore -m vmon.run "$@"
rc=$?
rm -rf "$d"
exit $rc

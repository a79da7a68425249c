#!/bin/bash
# run.sh PROPERTY [tier]      run one check against /repo's working tree
# run.sh --replay FILE        replay a counterexample on the real code
export PYTHONPATH=/opt/pypath PYTHONNOUSERSITE=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$(dirname "$0")" || exit 2
[ "$1" = --setup ] && exec /opt/venv/bin/python -W ignore -c "import check; check.warm(); print(sorted(check.load()))"
exec /opt/venv/bin/python -W ignore check.py "$@"

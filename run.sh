#!/bin/sh
# usage: run.sh <property> quick|thorough   |   run.sh replay <file>
# Runs one check against the working tree of the repository (default /repo).
cd "$(dirname "$0")" || exit 2
export GEM_REPO="${GEM_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
# never reuse byte code of an earlier tree
PYTHONPYCACHEPREFIX=$(mktemp -d /tmp/gemmc.XXXXXX); export PYTHONPYCACHEPREFIX
MPLCONFIGDIR="$PYTHONPYCACHEPREFIX"; export MPLCONFIGDIR
export PYTHONPATH="$PWD:$GEM_REPO/src"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -W ignore -m gemmc.main "$@"
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc

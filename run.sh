#!/bin/bash
# ./run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--serial]
# Runs one check against the working tree of /repo (or of $VERIF_REPO, for experiments on copies).
here=$(cd "$(dirname "$0")" && pwd)
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
if [ "$1" = setup ]; then   # nothing to build: make sure the interpreter and its libraries are there
  exec /opt/venv/bin/python -W ignore -c 'import numpy, scipy, autograd, matplotlib, sqlite3; print("ready")'
fi
cd "$here" && exec /opt/venv/bin/python -W ignore -m mc.main "$@"

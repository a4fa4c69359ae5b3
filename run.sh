#!/bin/bash
# run.sh PROPERTY [quick|thorough] [extra args]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MDP_DISABLE_SKLEARN=1 MDP_DISABLE_MONKEYPATCH_PP=1 PYTHONHASHSEED=0
p=$1; t=${2:-quick}; shift; shift
exec /opt/venv/bin/python -W ignore -m symx.main "$p" --tier "$t" "$@"

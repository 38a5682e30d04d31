#!/bin/bash
# usage: check.sh check <ID> [quick|thorough] | replay <file> | selftest ...
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${DST_HASHSEED:-0}"
export MPLBACKEND=Agg SOURCE_DATE_EPOCH=0 LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
[ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m dst.main "$@"

#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="/repo:$PWD${PYTHONPATH:+:$PYTHONPATH}" PYTHONWARNINGS=ignore
export MPLCONFIGDIR="${TMPDIR:-/tmp}/verif-mpl-$$"
mkdir -p "$MPLCONFIGDIR"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -B -c 'import sys; from vlib.mc import main; sys.exit(main())' "$@"

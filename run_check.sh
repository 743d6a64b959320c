#!/bin/bash
# run_check.sh <property> <quick|thorough> [extra args]: run one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export MPLCONFIGDIR="$(mktemp -d /tmp/vp_mpl.XXXXXX)"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
id="$1"; tier="$2"; shift 2
"${VP_PYTHON:-/opt/venv/bin/python}" -W ignore "$here/harness/main.py" "$id" --tier "$tier" "$@"

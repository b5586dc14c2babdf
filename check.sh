#!/bin/bash
# check.sh <property id> [--tier quick|thorough] [--replay FILE]: runs one runtime-monitoring check.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONHASHSEED=0 MPLBACKEND=agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH=$VERIF_REPO:$here/harness
unset PYTHONHOME PYTHONSTARTUP
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 3
export VERIF_SCRATCH=$scratch MPLCONFIGDIR=$scratch/mpl PYTHONPYCACHEPREFIX=$scratch/pyc PYTHONDONTWRITEBYTECODE=1
mkdir -p "$MPLCONFIGDIR"
trap 'rm -rf "$scratch"' EXIT
cd "$here" || exit 3
python -W ignore harness/run.py "$@"
exit $?

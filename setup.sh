#!/bin/bash
# Prebuild the compiled extensions (plain and instrumented) from /repo's current sources; checks rebuild on change.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH=$VERIF_REPO:$here/harness PYTHONDONTWRITEBYTECODE=1
cd "$here" && python -W ignore harness/fbuild.py plain bounds asan

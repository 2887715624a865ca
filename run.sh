#!/bin/sh
# usage: run.sh C01 [--replay FILE] [--case NAME] [-v]
cd "$(dirname "$0")" || exit 2
PY=${VK_PYTHON:-/opt/venv/bin/python}
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONNOUSERSITE=1
unset TZ
exec "$PY" -m vk.core "$@"

#!/bin/sh
# Nothing to build: only see that what the checks need is there.
cd "$(dirname "$0")" || exit 2
PY=${VK_PYTHON:-/opt/venv/bin/python}
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo/src" "$PY" -c 'import v8serialize, vk.core, vk.gens, vk.refcodec' || exit 1
node -e 'require("node:v8")' || exit 1
echo ok

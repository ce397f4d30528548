#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree.
set -e
cd "$(dirname "$(readlink -f "$0")")"
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
import ast, glob
for f in glob.glob('mc/*.py') + glob.glob('checks/*.py'):
    ast.parse(open(f).read(), f)
print('ok')
PY

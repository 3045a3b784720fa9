#!/bin/bash
# nothing to build: the checks are Python and use the repository's own interpreter; verify that it works offline
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
cd "$here" && T=$(mktemp -d) && HOME=$T PYTHONPATH="$here:/repo" PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import numpy, astropy, pandas, scipy; import mc.core; print('setup ok')"; rc=$?
[ -n "$T" ] && rm -rf "$T"
exit $rc

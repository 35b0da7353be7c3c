#!/bin/bash
# Nothing to compile: the monitors import /repo's working tree. Sanity-check that this works offline.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env/env.sh >/dev/null 2>&1
cd "$here" && PYTHONPATH="/repo:$here" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import vlib.core, tianshou; print('ok', tianshou.__file__)"

#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env/env.sh >/dev/null 2>&1
export PYTHONPATH="/repo:$here" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export NUMBA_BOUNDSCHECK=1          # bounds sanitizer for the compiled kernels
export PYTHONWARNINGS="ignore" TQDM_DISABLE=1
cd "$here" || exit 3
exec /opt/venv/bin/python -u -m vlib.main "$@"

#!/bin/bash
# Nothing to compile: verify the interpreter and that the package under test imports from /repo.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="${TMPDIR:-/tmp}" PYTHONPATH="$(pwd):/repo" /opt/venv/bin/python -c "import numpy, pandas, sklearn, torch, mc.core; print('ok')"

#!/bin/bash
# Installs Hypothesis (from the offline wheelhouse) next to the checks. Safe to repeat.
set -eu
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
if ! PYTHONPATH="$PWD/.deps" "$PY" -c 'import hypothesis' 2>/dev/null; then
    "$PY" -m pip install -q --no-index --find-links /opt/veriftools/wheels --target "$PWD/.deps" hypothesis
fi
PYTHONPATH="$PWD/.deps" "$PY" -c 'import hypothesis; print("hypothesis", hypothesis.__version__)'

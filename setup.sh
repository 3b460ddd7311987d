#!/bin/bash
# Nothing to build: the checks import gwpopulation from /repo's working tree each time they run.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore -c "import gwv.core, gwv.ref, gwv.specs; print('ready')"

#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONOPTIMIZE
PY=/opt/venv/bin/python
exec "$PY" -X faulthandler -m mc.main "$@"

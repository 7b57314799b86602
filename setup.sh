#!/bin/bash
# Nothing has to be built: the checks import the library from /repo's working tree. This only verifies the tools.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import phamt; from mc import env, core, replay; print('ok', env.LIBDIR)"

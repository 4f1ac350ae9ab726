#!/bin/bash
# Nothing to compile: check that the interpreter, Hypothesis and the code under test import.
cd "$(dirname "$0")/.." || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "from harness.boot import boot; boot(); import hypothesis, skdecide; print('ok', hypothesis.__version__, skdecide.__file__)"

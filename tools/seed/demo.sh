#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here"
exec timeout 120 "$py" "$here/demo.py"

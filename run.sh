#!/bin/sh
# run.sh <PROPERTY> [--tier quick|thorough]   or   run.sh replay <file>
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -B "$here/check.py" "$@"

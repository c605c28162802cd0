#!/bin/bash
# run.sh C01 [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 PIP_NO_INDEX=1 PYTHONWARNINGS=ignore
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
exec /opt/venv/bin/python "$PWD/lib/main.py" "$@"

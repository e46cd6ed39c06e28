#!/bin/bash
# check.sh <property id> [quick|thorough]  -- run from anywhere
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -m harness "$@"

#!/bin/sh
# check.sh PROPERTY [quick|thorough]   decide one property
# check.sh replay FILE                 run one recorded violation again
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/harness/check.py" "$@"

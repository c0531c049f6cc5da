#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec python3 harness/check.py "$@"

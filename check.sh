#!/bin/bash
# ./check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 3
exec python3 engine/run.py "$@"

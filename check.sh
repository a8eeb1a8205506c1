#!/bin/bash
# ./check.sh <ID> [--replay FILE]
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec python3 check.py "$@"

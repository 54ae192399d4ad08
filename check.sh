#!/bin/bash
# check.sh ID [--thorough]
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export PYTHONHASHSEED=0
exec python3 tools/check.py "$@"

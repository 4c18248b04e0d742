#!/bin/bash
# run.sh <property id> [options]: rebuilds from /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
export LC_ALL=C
python3 tools/build.py || exit 2
exec build/e57check "$@"

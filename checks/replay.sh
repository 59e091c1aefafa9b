#!/bin/bash
# checks/replay.sh FILE: execute a recorded violation again, exactly, against /repo's working tree.
# TRACE=1 prints every system call, event and decision of the execution.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")/.." || exit 2
python3 tools/build.py || exit 2
exec build/consim replay "$f"

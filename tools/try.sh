#!/bin/bash
# tools/try.sh <patch> <checks...>: run checks against a patched /repo, then undo
p=$1; shift
git -C /repo apply "$p" || exit 2
cd /verif && (time timeout 900 python3 analysis/run.py "$@") 2>&1 | cut -c1-260 | grep -v "^user\|^sys\|^$" | tail -${LINES_MAX:-12}
git -C /repo checkout -- .

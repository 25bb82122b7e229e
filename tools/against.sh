#!/bin/bash
# against.sh PATCH ID...: applies a patch to /repo, runs the checks, undoes it.
p=$(realpath "$1"); shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
git apply ${REV:+-R} "$p" || exit 2
for i in "$@"; do (cd /verif && python3 check.py $i | cut -c1-330 | head -${LINES_MAX:-6}); done
git checkout -q -- . && git clean -fdq crates

#!/bin/bash
# try.sh PATCH ID...: applies a change to /repo, runs the given checks, undoes it. For experiments only.
p=$(realpath "$1"); shift
git -C /repo apply "$p" || { echo "does not apply: $p"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for i in "$@"; do
    ADVSIM_SHRINK=${ADVSIM_SHRINK:-8} "$(dirname "$0")/check.sh" "$i" 2>&1 | cut -c1-300; echo "exit ${PIPESTATUS[0]} $i $(basename "$p")"
done

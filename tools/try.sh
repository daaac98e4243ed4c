#!/bin/bash
# tools/try.sh PATCH ID...: runs checks against a planted change, and undoes it
cd "$(dirname "$0")/.." || exit 3
patch=$(realpath "$1"); shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$patch" || exit 3
for id in "$@"; do
  s=$(date +%s)
  ./check.sh "$id" > /tmp/try.out 2> /tmp/try.err
  echo "$id: exit $? in $(( $(date +%s) - s )) s: $(grep -a '^VIOLATION' /tmp/try.out) $(grep -a error /tmp/try.err | head -3)"
done

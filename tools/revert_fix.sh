#!/bin/bash
# revert_fix.sh COMMIT CHECK...: takes a "fix:" commit of /repo back in its working tree, runs the checks, and undoes that. Not used by any check.
c=$1; shift
git -C /repo diff --quiet HEAD || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo reset -q --hard HEAD' EXIT
git -C /repo diff "$c" "$c^" -- src | git -C /repo apply --3way - >/dev/null 2>&1 || { echo "$c: cannot be taken back by itself"; exit 2; }
for k in "$@"; do
    start=$(date +%s)
    out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} ./check.sh "$k" 2>&1); rc=$?
    echo "$c $k rc=$rc $(( $(date +%s) - start ))s $(grep -m1 "^$k" <<<"$out" | cut -c1-250)"
done

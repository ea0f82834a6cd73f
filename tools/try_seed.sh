#!/bin/bash
# try_seed.sh ID [CHECK...]: applies a planted change to /repo, runs the checks (its property's by default) and undoes it. Not used by any check.
id=$1; shift
checks=${*:-$(python3 -c "import json; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "/verif/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in $checks; do
    start=$(date +%s)
    out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} ./check.sh "$c" 2>&1); rc=$?
    echo "$id $c rc=$rc $(( $(date +%s) - start ))s $(grep -m1 VIOLATION <<<"$out")"
    [ $rc = 0 ] || [ $rc = 1 ] || tail -5 <<<"$out"
    [ $rc = 1 ] && grep -m2 -iE 'what|violat|reason' <<<"$out" | tail -1 | cut -c1-300
done

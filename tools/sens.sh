#!/bin/bash
# usage: sens.sh OUT [seed ids..]: which checks catch which planted bugs.
# Works on /repo: applies each patch, runs the checks, and undoes it.
out="$1"; shift
cd /verif || exit 2
export HARNESS_CASES="${HARNESS_CASES:-}"; [ -z "$HARNESS_CASES" ] && unset HARNESS_CASES
for id in ${@:-$(ls seeded)}; do
    [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
    git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    own=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    caught=""
    for p in ${PROPS:-$own}; do
        r=$(timeout 900 ./run.sh check $p quick 2>&1); rc=$?
        [ $rc = 1 ] && caught="$caught $p"
        [ $rc != 0 ] && [ $rc != 1 ] && caught="$caught $p:rc$rc"
    done
    git -C /repo checkout -q -- .
    echo "$id own=$own caught:$caught" | tee -a "$out"
done

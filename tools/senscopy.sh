#!/bin/bash
# usage: senscopy.sh OUT ids..: like sens.sh, on copies of /repo and /verif in /tmp/senscopy.
out="$1"; shift
d=/tmp/senscopy
rm -rf /tmp/senscopy; mkdir -p $d/verif
cp -a /repo $d/repo
cp -a /verif/harness /verif/run.sh /verif/known-findings.txt $d/verif/
sed -i "s#/repo#$d/repo#g" $d/verif/run.sh $d/verif/harness/Cargo.toml
cd $d/verif || exit 2
./run.sh build > $d/build.log 2>&1 || { tail $d/build.log; exit 2; }
for id in "$@"; do
    git -C $d/repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    own=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    caught=""
    for p in ${PROPS:-$own}; do
        timeout 900 ./run.sh check $p quick > $d/check.log 2>&1; rc=$?
        [ $rc = 1 ] && caught="$caught $p"
        [ $rc != 0 ] && [ $rc != 1 ] && caught="$caught $p:rc$rc"
    done
    git -C $d/repo checkout -q -- .
    echo "$id own=$own caught:$caught" | tee -a "$out"
done
rm -rf /tmp/senscopy

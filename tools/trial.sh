#!/bin/bash
# trial.sh ID...: runs the check of each planted bug's property against it, in
# a scratch copy of /repo. (PROP=Cxx runs another check; ARGS adds flags.)
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  d=$(mktemp -d /tmp/trial.XXXXXX); git clone -q /repo $d
  git -C $d apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$d"; continue; }
  s=$(date +%s)
  bash check.sh $p ${TIER:-quick} -repo $d -noevidence $ARGS > /tmp/trial-$id.log 2>&1; r=$?
  rm -rf "$d"
  echo "$id $p rc=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/trial-$id.log)"
done

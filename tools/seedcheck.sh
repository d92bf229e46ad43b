#!/bin/bash
# seedcheck.sh ID...: applies each seeded change to a scratch copy of /repo and runs its property's quick check there.
for id in "$@"; do
  P=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' /verif/seeded/$id/meta.json)
  W=$(mktemp -d /tmp/sc.XXXXXX); cp -a /repo $W/repo
  (cd $W/repo && git apply /verif/seeded/$id/patch.diff) || { echo "$id does not apply"; rm -rf "$W"; continue; }
  s=$(date +%s)
  VERIF_REPO=$W/repo VERIF_OUT=$W/out VERIF_EVIDENCE=$W/ev.json /verif/check $P quick > $W/o 2>&1; rc=$?
  echo "$id $P rc=$rc $(grep -c '^VIOLATION' $W/o) violations $(( $(date +%s)-s ))s: $(grep -m1 'what:' $W/o | cut -c1-160)"
  rm -rf "$W"
done

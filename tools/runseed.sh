#!/bin/bash
# runseed.sh [ID ...]: apply each planted bug to a scratch copy of /repo, run its property's quick check on it
cd "$(dirname "$0")/.."
w=$(mktemp -d /tmp/runseed-XXXXXX)
cp -a ${SEED_REPO:-/repo} $w/repo
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C $w/repo apply --whitespace=nowarn $PWD/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  t=$(date +%s); VERIF_DEV_REPO=$w/repo VERIF_DEV_EVID=$w/evidence ./check $p quick > $w/out 2>&1; rc=$?
  git -C $w/repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(grep -c '^VIOLATION' $w/out)"
done
rm -rf "$w"

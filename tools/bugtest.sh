#!/bin/bash
# bugtest.sh [ID ...]: run each planted bug's property check (quick) against a scratch copy of /repo with the bug applied.
# JOBS=n runs n at a time. (The registered checks themselves read /repo; VF_REPO is only set here.)
cd /verif
one() {
  id=$1; d=$(mktemp -d /tmp/bt.XXXXXX)
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  cp -a /repo "$d/repo"
  if git -C "$d/repo" apply "/verif/seeded/$id/patch.diff"; then
    s=$(date +%s); mkdir "$d/ev"
    VF_REPO=$d/repo VF_EVIDENCE=$d/ev timeout 1200 bash check.sh "$p" >"$d/out" 2>&1; rc=$?
    echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep VIOLATION "$d/out" | cut -c1-140 | tail -1)"
  else echo "$id: patch does not apply"; fi
  rm -rf "$d"
}
export -f one
printf '%s\n' ${@:-$(ls seeded)} | xargs -P "${JOBS:-1}" -I{} bash -c 'one {}'

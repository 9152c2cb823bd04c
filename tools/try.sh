#!/bin/bash
# usage: tools/try.sh BUG... : runs the check of its property (or those named
# in $PROPS) against a scratch copy of /repo with the planted bug applied.
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  d=$(mktemp -d /tmp/try.XXXXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" apply "/verif/seeded/$b/patch.diff" || exit 1
  for q in ${PROPS:-$p}; do
    t=$(date +%s)
    out=$(VSIM_REPO=$d/repo ./check.sh "$q" ${TIER:-quick} 2>&1); rc=$?
    echo "$b $q exit=$rc $(($(date +%s)-t))s $(echo "$out" | grep -E '^VIOLATION|die|error|violation in' | head -3 | cut -c1-300)"
    [ $rc = 1 ] || echo "$out" | tail -5
  done
  rm -rf "$d"
done

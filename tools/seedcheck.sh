#!/bin/sh
# tools/seedcheck.sh [ID...]   runs each planted bug's check on a scratch copy of /repo with the bug applied
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  t=$(mktemp -d /tmp/seedcheck.XXXXXX)
  cp -a /repo "$t/repo"
  p=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' seeded/$id/meta.json)
  if git -C "$t/repo" apply "$PWD/seeded/$id/patch.diff"; then
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO="$t/repo" ./run_check $p > "$t/out" 2>&1
    r=$?
    v=$(grep -c "^VIOLATION property=$p " "$t/out")
    echo "$id $p rc=$r violation_lines=$v $(( $(date +%s) - s ))s"
    [ $r = 1 ] && [ $v -gt 0 ] || tail -3 "$t/out"
  fi
  rm -rf "$t"
done

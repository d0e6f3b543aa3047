#!/bin/bash
# seedcheck.sh SEED ID...: runs the checks ID... (quick) on a scratch copy of /repo with the seeded change applied
s=$1; shift
w=$(mktemp -d /tmp/seedcheck.XXXXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" && git -C "$w/repo" apply /verif/seeded/$s/patch.diff || exit 2
cp -a /verif "$w/verif" 2>/dev/null
for id in "$@"; do
  t0=$(date +%s)
  VERIF_REPO="$w/repo" VERIF_SEED=${VERIF_SEED:-1} bash "$w/verif/check.sh" $id quick > "$w/out" 2>&1; rc=$?
  echo "$s $id rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION "$w/out" | cut -c1-200)"
done

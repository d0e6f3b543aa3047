#!/bin/bash
# bash build.sh <property> <outdir>: compiles the harness, overlaid into /repo's module, from /repo's working tree.
# Prints the path of the binary. Variants: race detector (props C01), in-package exports (V..), worker counts (all).
set -u
id=${1:?property}; out=${2:?outdir}
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
. "$verif/env.sh"
mkdir -p "$out"
ov="$out/overlay.json"
lid=$(echo "$id" | tr A-Z a-z)
mk_overlay() { # $1: tune 0/1
  {
    echo '{"Replace": {'
    for f in "$verif"/harness/*.go; do echo "\"$repo/verifharness/$(basename "$f")\": \"$f\","; done
    if [ "$1" = 1 ]; then
      for p in a2l ihex32 srec19; do echo "\"$repo/$p/zz_verif_tune.go\": \"$verif/harness/tune/$p.go.txt\","; done
    fi
    if [ -f "$verif/harness/export/$lid.go.txt" ]; then
      echo "\"$repo/zz_verif_export_$lid.go\": \"$verif/harness/export/$lid.go.txt\","
    fi
    if [ -f "$verif/harness/export/$lid.a2l.txt" ]; then
      echo "\"$repo/a2l/zz_verif_export_$lid.go\": \"$verif/harness/export/$lid.a2l.txt\","
    fi
    echo "\"$repo/verifharness/zz_empty.go\": \"$verif/harness/empty.go.txt\""
    echo '}}'
  } > "$ov"
}
race=()
case "$id" in C01) race=(-race); export CGO_ENABLED=1;; esac
tags="verif$lid"
bin="$out/verifharness"
cd "$repo" || exit 2
mk_overlay 1
if go build -overlay "$ov" "${race[@]}" -tags "veriftune,$tags" -o "$bin" ./verifharness 2>"$out/err1"; then
  echo "$bin"; exit 0
fi
mk_overlay 0
if go build -overlay "$ov" "${race[@]}" -tags "$tags" -o "$bin" ./verifharness 2>"$out/err2"; then
  echo "the number of workers could not be set from outside (internal name changed); the processor count of the process was varied instead" > "$bin.note"
  echo "$bin"; exit 0
fi
cat "$out/err1" "$out/err2" >&2
if go build ./... ; then exit 3; fi
exit 2

#!/bin/bash
# bash check.sh <property> <quick|thorough>: builds the harness from /repo's working tree and runs one check.
set -u
id=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}
verif=$(cd "$(dirname "$0")" && pwd)
seed=${VERIF_SEED:-1}
mkdir -p "$verif/.build" "$verif/evidence"
out=$(mktemp -d "$verif/.build/$id.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
bin=$(bash "$verif/build.sh" "$id" "$out"); rc=$?
if [ $rc -ne 0 ]; then
  if [ $rc -eq 3 ]; then
    # the code under test builds, but the internal functions this monitor attaches to have other names or signatures:
    # nothing can be observed, nothing is concluded.
    echo "INCONCLUSIVE: $id: the monitored functions could not be attached to; nothing was observed"
    cat > "$verif/evidence/$id.json" <<J
{"property": "$id", "tier": "$tier", "seed": $seed, "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "nothing was run: the functions this monitor attaches to are not there under their names", "samples": []}, "assumptions": [], "wall_s": 0, "violations": 0}
J
    exit 0
  fi
  echo "the code under test does not build" >&2
  exit 2
fi
note=""
[ -f "$bin.note" ] && note=$(cat "$bin.note")
budget=480; [ "$tier" = thorough ] && budget=780; budget=${VERIF_BUDGET:-$budget}
"$bin" check -prop "$id" -tier "$tier" -seed "$seed" -verif "$verif" -budget "$budget" -note "$note"

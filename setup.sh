#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
set -u
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
out=$(mktemp -d .build/setup.XXXXXX) || exit 1
out=$(cd "$out" && pwd)
trap 'rm -rf "$out"' EXIT
bash build.sh H01 "$out/a" >/dev/null || exit 1
bash build.sh C01 "$out/b" >/dev/null || exit 1
exit 0

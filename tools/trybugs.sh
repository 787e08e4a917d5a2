#!/bin/sh
# usage: trybugs.sh [id ...]: runs each planted bug's own check against a scratch copy of /repo and says whether it is caught
cd "$(dirname "$0")/.." || exit 1
. ./tools/env.sh
(cd govc && GOFLAGS=-mod=mod go build -o ../bin/govc .) || exit 2
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d /tmp/trybug.XXXXXX)
  cp -a /repo/. "$t/repo"; git -C "$t/repo" apply "$PWD/seeded/$id/patch.diff" || echo "patch does not apply"
  mkdir -p "$t/verif"; cp -a contracts lemmas known_findings.txt harness tools "$t/verif/" 2>/dev/null; mkdir -p "$t/verif/evidence" "$t/verif/replay"
  s=$(date +%s)
  GOVC_REPO="$t/repo" GOVC_VERIF="$t/verif" ./bin/govc check "$prop" > "$t/out" 2>&1; rc=$?
  e=$(date +%s)
  echo "$id $prop rc=$rc $((e-s))s $(grep -m2 VIOLATION "$t/out" | cut -c1-200 | tr '\n' ' ')"
  mkdir -p /tmp/t/bugs; cp "$t/out" "/tmp/t/bugs/$id.out"
  rm -rf "$t"
done

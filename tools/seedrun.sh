#!/bin/bash
# seedrun.sh [ID...]: runs the owning check (or $PROP) of each planted bug in a scratch copy.
cd "$(dirname "$0")/.."
bin=$(mktemp -d /tmp/seedrun.XXXXXX)
trap 'rm -rf "$bin"' EXIT
(cd checker && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$bin/vpcheck" .) || exit 2
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
mkdir "$bin/v"; cp known_findings.txt "$bin/v/" 2>/dev/null
for id in "${ids[@]}"; do
  rm -rf "$bin/r"; cp -a /repo "$bin/r"
  git -C "$bin/r" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  out=$("$bin/vpcheck" -prop "$p" -repo "$bin/r" -verif "$bin/v" 2>&1); rc=$?
  echo "$id: $p exit $rc"
  echo "$out" | grep -v "^$p:" | grep -A1 '^\[1\]' | cut -c1-220
done

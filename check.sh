#!/bin/bash
# check.sh PROPERTY: builds the checker and decides one property on /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
bin=$(mktemp -d /tmp/vpcheck.XXXXXX) || exit 2
(cd "$here/checker" && go build -o "$bin/vpcheck" .) || { rm -rf "$bin"; exit 2; }
"$bin/vpcheck" -prop "$1" -repo "${VP_REPO:-/repo}" -verif "$here"
rc=$?
rm -rf "$bin"
exit $rc

#!/bin/bash
# Runs demo_test.go as an in-package test of the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
cp "$here/helper.go.txt" "$tmp/zz_helper_test.go"
printf '{"Replace":{"%s/zz_demo_test.go":"%s/zz_demo_test.go","%s/zz_helper_test.go":"%s/zz_helper_test.go"}}' "$repo" "$tmp" "$repo" "$tmp" > "$tmp/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go test -vet=off -overlay "$tmp/overlay.json" RACEFLAG -count=1 -timeout 120s -run '^TestDemo' . < /dev/null

#!/bin/bash
# cwd: the repository. Compiles the demonstration into the module through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp go.mod go.sum "$w"/
printf '{"Replace":{"%s/internal/zzdemo/kit_test.go":"%s/kit_test.go","%s/internal/zzdemo/demo_test.go":"%s/demo_test.go"}}' \
  "$PWD" "$here" "$PWD" "$here" > "$w/overlay.json"
export TMPDIR="$w"
go test -c -o "$w/demo" -overlay "$w/overlay.json" -modfile "$w/go.mod" -vet=off ./internal/zzdemo || exit 2
cd "$w" && ./demo -test.count=1 -test.timeout=120s

#!/bin/bash
# Compiles main.go, which lies beside this script, inside the module of the repository, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
cp go.mod go.sum "$tmp/"
echo "{\"Replace\": {\"$PWD/zzdemo/main.go\": \"$here/main.go\"}}" > "$tmp/overlay.json"
go build -mod=mod -modfile="$tmp/go.mod" -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 1
cd "$tmp" && timeout 60 ./demo

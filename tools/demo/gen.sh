#!/bin/bash
# Generates the code for the model that lies beside this script, compiles main.go with it, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
cp go.mod go.sum "$tmp/"
go build -mod=mod -modfile="$tmp/go.mod" -o "$tmp/metamodel" ./cmd/metamodel || exit 1
mkdir -p "$tmp/demo/cmd"
sed 's#^module .*#module demo#' tests/go/go.mod > "$tmp/demo/go.mod"
cp tests/go/go.sum "$tmp/demo/go.sum"
cp "$here/main.go" "$tmp/demo/cmd/main.go"
cd "$tmp/demo" || exit 1
"$tmp/metamodel" generate go --model="$here/model" --base=demo/api --output="$tmp/demo/api" || exit 1
go build -o "$tmp/run" ./cmd || exit 1
timeout 60 "$tmp/run"

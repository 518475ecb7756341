#!/bin/bash
# builds the symbolic executor from engine/ (vendored, offline)
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/engine" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local HOME="${HOME:-/root}"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$here/bin"
exec 9>"$here/bin/.lock"; flock 9
go build -o "$here/bin/symgo" .

#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/goenv.sh >/dev/null 2>&1
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp "$here/main.go.txt" "$t/main.go"
cat > "$t/go.mod" <<M
module demo

go 1.23.0

require (
	github.com/MatProGo-dev/SymbolicMath.go v0.0.0
	gonum.org/v1/gonum v0.16.0
)

replace github.com/MatProGo-dev/SymbolicMath.go => $repo
M
cp "$repo/go.sum" "$t/go.sum"
cd "$t" && GOFLAGS=-mod=mod go run . 

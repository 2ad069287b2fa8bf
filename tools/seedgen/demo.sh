#!/bin/bash
# Runs demo_test.go inside a scratch copy of the packages of the current directory, with
# stand-ins (stubs/) for the two modules that are not available offline.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
cp -r pkg cmd "$w/" || exit 2
find "$w/pkg" "$w/cmd" -name '*_test.go' -delete
cp -r "$here/stubs" "$w/stubs" || exit 2
cp "$here/demo.mod" "$w/go.mod" && cp "$here/demo.sum" "$w/go.sum" || exit 2
cp "$here/demo_test.go" "$here/helper_test.go" "$w/@PKG@/" || exit 2
cd "$w" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
timeout 280 go test -count=1 -vet=off -timeout 270s -run 'TestDemo' "./@PKG@"

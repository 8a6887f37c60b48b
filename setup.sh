#!/bin/bash
# Builds the symbolic executor from the committed source (offline).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off GOWORK=off
mkdir -p "$here/.build"
cd "$here/engine"
sum=$(cat go.mod *.go | sha256sum | cut -c1-16)
if [ ! -x "$here/.build/engine-$sum" ]; then
  # build from a scratch copy, so that go never writes to the committed go.mod
  tmp=$(mktemp -d)
  cp go.mod *.go "$tmp/"
  (cd "$tmp" && go build -o "$here/.build/engine-$sum.$$" .)
  mv "$here/.build/engine-$sum.$$" "$here/.build/engine-$sum"
  rm -rf "$tmp"
fi
echo "$here/.build/engine-$sum"

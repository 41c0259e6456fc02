#!/bin/bash
# Exit 0 if the library in the current directory behaves, nonzero if the
# demonstrated bug is there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "${tmp:?}"' EXIT
cp -r "$here"/. "$tmp"/ || exit 2
cd "$tmp" || exit 2
go mod edit -replace "github.com/emersion/go-mls=$repo" || exit 2
GOFLAGS=-mod=readonly go test -vet=off -count=1 -timeout 200s .

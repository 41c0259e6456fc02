#!/bin/bash
# replay.sh FILE: repeat the run of a replay file and print its trace.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1") || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "${tmp:?}"' EXIT
cd "$here/sim" && GOFLAGS=-mod=readonly go test -c -vet=off -o "$tmp/sim.test" ./runner || exit 2
cd "$here" || exit 2
VERIF_ROLE=replay VERIF_REPLAY=$file "$tmp/sim.test"

#!/bin/bash
# selftest.sh: prove that runs are repeatable (VERIF_RUNS per profile).
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "${tmp:?}"' EXIT
cd "$here/sim" && GOFLAGS=-mod=readonly go test -c -vet=off -o "$tmp/sim.test" ./runner || exit 2
cd "$here" || exit 2
VERIF_ROLE=selftest "$tmp/sim.test"

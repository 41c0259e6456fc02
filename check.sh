#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator with /repo's working
# tree and run the property's profile. Exit codes: see README in DESIGN.md.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "${tmp:?}"' EXIT
cd "$here/sim" || exit 2
if ! GOFLAGS=-mod=readonly go test -c -vet=off -o "$tmp/sim.test" ./runner >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "error: the simulator does not build" >&2
	exit 2
fi
cd "$here" || exit 2
VERIF_ROLE=driver VERIF_PROP=$prop VERIF_DIR=$here "$tmp/sim.test"

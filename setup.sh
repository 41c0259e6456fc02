#!/bin/bash
# setup.sh: check that the simulator builds offline; checks build it themselves.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$here/sim"
GOFLAGS=-mod=readonly go test -c -vet=off -o /dev/null ./runner

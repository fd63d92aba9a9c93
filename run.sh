#!/bin/bash
# Usage: run.sh Cxx   (VERIF_TIER=quick|thorough)
# Builds the checker against /repo's working tree and runs one check.
set -u
ID=$1
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then
	export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3
fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=readonly GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=readonly
export VERIF_DIR=${VERIF_DIR:-$HERE}
export MC_SRC=$HERE/mc
SCRATCH=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
export MC_SCRATCH=$SCRATCH
cleanup() { [ -n "$SCRATCH" ] && rm -rf -- "$SCRATCH"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
mkdir -p "$VERIF_DIR/evidence"
(cd "$HERE/mc" && go build -o "$SCRATCH/mc" .) || { echo "run.sh: the checker does not build" >&2; exit 2; }
"$SCRATCH/mc" run "$ID"
rc=$?
exit $rc

#!/bin/bash
# Warms the build cache; run.sh rebuilds whatever a check needs.
cd "$(dirname "$0")" || exit 1
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then
	export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3
fi
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=readonly
cd mc && go build -o /dev/null . 

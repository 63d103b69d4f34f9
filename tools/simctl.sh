#!/bin/bash
# Builds simctl and runs it.
root=$(cd "$(dirname "$0")/.." && pwd)
export SIM_ROOT=$root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go}
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=${SIM_GOCACHE:-/tmp/influx-spout-sim-gocache}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
tmp=$(mktemp -d /tmp/simctl.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$root/simctl" && go build -trimpath -o "$tmp/simctl" .) || exit 2
"$tmp/simctl" "$@"
exit $?

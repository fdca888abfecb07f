#!/bin/bash
# run.sh PROPERTY quick|thorough: builds the monitor against /repo's
# working tree, and runs the check of the property.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
PID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off GOTOOLCHAIN=local
export OCMON_DIR=$V
mkdir -p build
BIN=$V/build/ocmon
ARGS=()
export CGO_ENABLED=0
case $PID in
C19)
	export CGO_ENABLED=1
	ARGS=(-race)
	BIN=$V/build/ocmon-race
	;;
esac
(cd harness && go build "${ARGS[@]}" -o "$BIN" .) || {
	echo "the monitor does not build with the current tree" >&2
	exit 2
}
exec "$BIN" run "$PID" "$TIER" "$SEED"

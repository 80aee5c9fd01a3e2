#!/bin/bash
# usage: check.sh ID            check one property (VERIF_TIER=quick|thorough)
#        check.sh replay FILE   replay a violation
#        check.sh build         only build
# Builds the explorer from /repo's working tree (rewritten for the controlled scheduler) and runs it.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")/.." && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off CGO_ENABLED=0
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
W="$(mktemp -d "${TMPDIR:-/tmp}/mc-build-XXXXXX")" || exit 2
export MC_TMP="$W"
trap 'rm -rf "$W"' EXIT
cp -r "$VERIF_DIR/mc" "$W/mc" || exit 2
cd "$W/mc" || exit 2
if go build -o "$W/instr" ./instr && "$W/instr" -dir "$W/mc" -out "$W/ov" ./cmd/mc &&
	go build -trimpath -overlay "$W/ov/overlay.json" -o "$W/run" ./cmd/mc; then
	:
else
	echo "note: instrumented build failed, running without scheduler"
	export MC_PLAIN=1
	go build -trimpath -o "$W/run" ./cmd/mc || exit 2
fi
export MC_GOSYNC="$W/gosync"
case "$1" in
build) exit 0 ;;
replay) "$W/run" replay "$2" ;;
count) "$W/run" count "$2" ;;
C23 | C26 | C29 | C31 | C33 | all-cli)
	(cd /repo && go build -trimpath -o "$MC_GOSYNC" ./cmd/gosync) || exit 2
	"$W/run" check "$1"
	;;
*) "$W/run" check "$1" ;;
esac

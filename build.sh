#!/bin/bash
# Builds the harness (plain or with the race detector) and the command line tool from the current tree of /repo.
# usage: build.sh [plain] [race] [cli]
VERIF="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$VERIF/.build"
exec 9>"$VERIF/.build/lock"
flock 9
for what in "$@"; do
	case "$what" in
	plain) (cd "$VERIF/harness" && GOFLAGS=-mod=mod go build -buildvcs=false -o "$VERIF/.build/vh" .) || exit 2 ;;
	race) (cd "$VERIF/harness" && GOFLAGS=-mod=mod CGO_ENABLED=1 go build -race -buildvcs=false -o "$VERIF/.build/vh-race" .) || exit 2 ;;
	cli) (cd /repo && go build -buildvcs=false -o "$VERIF/.build/chaff" ./cli) || exit 2 ;;
	esac
done

#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the engine, regenerates the encoding from the current tree of $VERIF_REPO (default /repo) and decides PROPERTY.
set -u
cd "$(dirname "$0")" || exit 1
root=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GOTOOLCHAIN=local VERIF_ROOT="$root"
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$(mktemp -d /tmp/d1verif.XXXXXX)
trap 'rm -rf "$bin"' EXIT
if ! (cd engine && go build -o "$bin/eng" .) >"$bin/log" 2>&1; then
	cat "$bin/log"
	echo "NOT-DECIDED property=$prop the engine does not build"
	exit 2
fi
"$bin/eng" check -prop "$prop" -tier "$tier" "${@:3}"
rc=$?
[ $rc -eq 1 ] && exit 1
exit $rc

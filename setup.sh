#!/bin/bash
# Builds the engine once (checks the toolchain and warms the build cache); every check builds what it needs itself.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GOTOOLCHAIN=local
bin=$(mktemp -d /tmp/d1verif.XXXXXX)
trap 'rm -rf "$bin"' EXIT
(cd engine && go build -o "$bin/eng" .)
"$bin/eng" list >/dev/null
z3-new --version

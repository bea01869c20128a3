#!/bin/bash
# Checks that the framework builds offline from the committed files.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
bash "$here/harness/genall.sh" || exit 1
(cd "$here/engine" && go build -o "$work/engine" .) || exit 1
(cd "$here/harness" && go build -o "$work/replay" ./cmd/replay) || exit 1
mkdir -p "$here/evidence"
echo "setup ok: $(z3-new --version)"

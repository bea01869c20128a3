#!/bin/bash
# check.sh PROPERTY [engine flags]: decides one property against /repo's working tree.
# Builds the engine and the harness from the committed sources, then runs it.
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?usage: check.sh PROPERTY}
shift
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-check-XXXXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
(cd "$here/engine" && go build -o "$work/engine" .) || { echo "ERROR: the engine does not build"; exit 2; }
TMPDIR=$work "$work/engine" -verif "$here" -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "$@"

#!/bin/bash
# mirror.sh PATCH PROP [flags]: runs the check of PROP in copies of /repo (with PATCH) and /verif.
set -u
patch=$(realpath "$1"); prop=$2; shift 2
w=$(mktemp -d /tmp/mirror-XXXXXX); trap 'rm -rf -- "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/verif"
(cd /verif && cp -r MANIFEST.json check.sh setup.sh engine harness known_findings.txt properties.jsonl "$w/verif/")
sed -i "s#=> /repo#=> $w/repo#" "$w/verif/harness/go.mod"
(cd "$w/repo" && git checkout -q -- . && git apply "$patch") || { echo "does not apply"; exit 3; }
mkdir -p "$w/verif/evidence"
(cd "$w/verif" && ./check.sh $prop "$@")

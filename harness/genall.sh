#!/bin/bash
# regenerates props/all.go, the harness table of the native replayer
cd "$(dirname "$0")/props" || exit 1
{
echo "// Code generated by genall.sh. DO NOT EDIT."
echo
echo "package props"
echo
echo "var All = map[string]func(){"
grep -ho '^func C[0-9][0-9]_[A-Za-z0-9_]*()' *.go | sed 's/^func //; s/()$//' | LC_ALL=C sort | while read -r f; do echo "	\"$f\": $f,"; done
echo "}"
} > all.go.tmp && mv all.go.tmp all.go

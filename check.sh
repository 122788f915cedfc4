#!/bin/bash
# usage: check.sh <property> [quick|thorough]: builds the analyser and runs one check.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GEO_VERIF="$PWD" GEO_SPEC="$PWD/spec"
mkdir -p bin evidence
b="$PWD/bin/geoverif"
if [ ! -x "$b" ] || [ -n "$(find tool -name '*.go' -newer "$b" -print -quit)" ]; then
	t=$(mktemp "$PWD/bin/build.XXXXXX")
	(cd tool && go build -o "$t" .) || { rm -f "$t"; exit 2; }
	mv -f "$t" "$b"
fi
[ "$1" = --build ] && exit 0
exec "$b" check "$1" "${2:-${VERIF_TIER:-quick}}"

#!/bin/bash
# build.sh TMP: the check, with the library's statements and moved elements
# counted; without, when the library cannot be instrumented.
TMP=$1
cd "$(dirname "$0")/.." || exit 3
mkdir -p "$TMP/ov"
go build -o "$TMP/instrument" ./instrument || exit 3
if "$TMP/instrument" /repo "$TMP/ov" costs 2>"$TMP/instrument.log" &&
  go build -overlay "$TMP/ov/overlay.json" -o "$TMP/check" ./c34 2>"$TMP/overlay.log"; then
  exit 0
fi
go build -o "$TMP/check" ./c34 || exit 3

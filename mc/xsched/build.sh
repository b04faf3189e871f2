#!/bin/bash
# build.sh TMP PACKAGE: the check itself, and the schedule exploration on an
# instrumented copy of the library ($TMP/xsched, with the race detector when it
# can be built).
TMP=$1
cd "$(dirname "$0")/.." || exit 3
go build -o "$TMP/check" "./$2" || exit 3
mkdir -p "$TMP/ov"
rm -f -- "$TMP/xsched"
go build -o "$TMP/instrument" ./instrument || exit 3
"$TMP/instrument" /repo "$TMP/ov" 2>"$TMP/instrument.log" || exit 0
CGO_ENABLED=1 go build -race -overlay "$TMP/ov/overlay.json" -gcflags='verifmc/mcrt=-race=false -l' -o "$TMP/xsched" ./xsched 2>"$TMP/race.log" ||
  go build -overlay "$TMP/ov/overlay.json" -o "$TMP/xsched" ./xsched 2>"$TMP/xsched.log"
exit 0

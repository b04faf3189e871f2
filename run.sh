#!/bin/bash
# run.sh <property id> [quick|thorough]
# Builds the check of one property against /repo's current working tree and
# runs it. Exit 0: held. Exit 1 with a VIOLATION line: broken.
set -u
cd "$(dirname "$0")" || exit 3
ROOT=$PWD
ID=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
export MC_ROOT=$ROOT
TMP=$(mktemp -d /tmp/gostmc.XXXXXXXX) || exit 3
trap 'rm -rf -- "$TMP"' EXIT
export MC_TMP=$TMP
dir=$(echo "$ID" | tr 'A-Z' 'a-z')
if [ -x "$ROOT/mc/$dir/build.sh" ]; then
  "$ROOT/mc/$dir/build.sh" "$TMP" || { echo "cannot build the check of $ID"; exit 3; }
else
  (cd "$ROOT/mc" && go build -o "$TMP/check" "./$dir") || { echo "cannot build the check of $ID"; exit 3; }
fi
"$TMP/check"
exit $?

#!/bin/bash
# replay.sh out/<id>-<n>.json: re-runs the part of the check that reported the
# violation (the exploration is deterministic) and shows the case again.
set -u
F=$(realpath "$1")
cd "$(dirname "$0")" || exit 3
eval "$(python3 - "$F" <<'P'
import json,sys,shlex
d=json.load(open(sys.argv[1]))
print("ID=%s TIER=%s PART=%s"%(shlex.quote(d["property"]),shlex.quote(d["tier"]),shlex.quote(d["part"])))
print("echo %s"%shlex.quote("case: "+d["case"]))
P
)"
MC_PART="$PART" exec bash ./run.sh "$ID" "$TIER"

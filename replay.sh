#!/bin/bash
# Usage: replay.sh FILE : runs a recorded violation natively, against /repo's current tree.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
d="$V/build/replay-$$"
mkdir -p "$d"
trap 'rm -rf "$d"' EXIT
eval "$(python3 - "$1" <<'P'
import json, sys
f = json.load(open(sys.argv[1]))
print("p=%s" % ("on" if f["profile"] == "debug" else "off"))
print("a='%s %s %s %s'" % (f["entry"], ",".join(map(str, f["params"])) or "-", ",".join(map(str, f["inputs"])) or "-", ",".join("%d:%d" % tuple(x) for x in f["schedule"]) or "-"))
P
)"
bash "$V/build_replay.sh" "$d" $p >/dev/null 2>&1
timeout 60 "$d/x86_64-unknown-linux-gnu/debug/replay" $a

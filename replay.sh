#!/bin/bash
# replay.sh FILE: runs a counterexample against the real code in /repo
cd "$(dirname "$0")" || exit 1
f=$(realpath "$1")
./setup.sh || exit 2
python3 - "$f" <<'P' | ./bin/replay "$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["harness"])' "$f")"
import json,sys
print(json.dumps(json.load(open(sys.argv[1]))["inputs"]))
P

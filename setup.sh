#!/bin/bash
# Nothing to build ahead of time: every check rebuilds what it needs from /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3 - <<'P' || exit 1
import json; json.load(open("MANIFEST.json")); [json.loads(l) for l in open("properties.jsonl")]
P
python3 -m compileall -q lib checks tools >/dev/null 2>&1
exit 0

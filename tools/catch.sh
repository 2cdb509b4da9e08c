#!/bin/bash
# Development tool: catch.sh ID [PROP...]: run checks against a scratch copy with the planted bug.
H=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; shift
P=${*:-$(/usr/bin/python3 -c "import json;print(json.load(open('$H/seeded/$ID/meta.json'))['property'])")}
SC=/tmp/catch-$ID
rm -rf "$SC"; cp -a /repo "$SC"; git -C "$SC" apply "$H/seeded/$ID/patch.diff" || exit 9
for p in $P; do
  O=$(VERIF_REPO=$SC VERIF_OUT=$SC/out VERIF_SHOW=1 timeout 900 /opt/venv/bin/python "$H/check.py" "$p" --tier quick 2>&1); R=$?
  echo "$ID $p exit=$R $(echo "$O" | grep -v VIOLATION | head -1 | cut -c1-200)"
done
rm -rf "$SC"

#!/bin/bash
# catch.sh ID [PROP...]   apply a planted bug to /repo, run the property's quick check (or those given), undo.
here="$(cd "$(dirname "$0")/.." && pwd)"
id=$1; shift
ps="$*"; [ -n "$ps" ] || ps=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
git -C /repo apply $here/seeded/$id/patch.diff || exit 2
for p in $ps; do s=$(date +%s); "$here/check" $p quick >/tmp/catch.$id.$p 2>&1; r=$?; echo "$id $p rc=$r $(( $(date +%s)-s ))s $(grep -v '^KNOWN' /tmp/catch.$id.$p | sed -n 1,40p | grep -v '^replay file\|^VIOLATION' | tail -2 | cut -c1-160 | head -1)"; done
git -C /repo checkout -q -- .

#!/bin/bash
# runs all (or the given) checks in parallel on the current facts
cd "$(dirname "$0")/../.."
python3 -c "import sys; sys.path.insert(0,'lib'); import build; build.facts()" >/dev/null 2>&1
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for i in $ids; do echo $i; done | xargs -P 7 -I{} sh -c 's=$(date +%s); o=$(python3 verify.py {} 2>&1); r=$?; echo "{} rc=$r $(( $(date +%s)-s ))s $(echo "$o" | head -8 | cut -c1-300)"'

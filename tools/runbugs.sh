#!/bin/bash
# developer tool: runs the check of the property of each planted bug against it (applies it to /repo and undoes it)
cd /verif; for d in ${@:-seeded/*}; do d=seeded/$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply /verif/$d/patch.diff || continue
 o=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $p quick 2>&1); rc=$?
 git -C /repo checkout -q -- .
 echo "$(basename $d) $p rc=$rc $(echo "$o" | grep -E '^(VIOLATION|PROOF)' | cut -c1-160 | head -2 | tr '\n' ' ')"; done

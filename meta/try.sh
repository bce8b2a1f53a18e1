#!/bin/bash
# try.sh ID...: apply each planted change to /repo, run the check of its property, undo
cd /repo && git diff --quiet || { echo DIRTY; exit 1; }
for ID in "$@"; do
PROP=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 1
cd /verif; S=$(date +%s); OUT=$(./check.sh $PROP ${TIER:-quick} 2>&1); RC=$?
git -C /repo checkout -- .
echo "$ID $PROP rc=$RC $(( $(date +%s)-S ))s"; echo "$OUT" | tail -3 | cut -c1-200
done

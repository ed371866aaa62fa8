#!/bin/bash
# tools/caught.sh ID...: applies each planted bug to /repo, runs its property's
# check, undoes it, and records the outcome in tools/caught.json.
cd /verif
for ID in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$ID/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID does not apply"; continue; }
  ./check.sh $P > /tmp/caught.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$P" /tmp/caught.out; then R="$P"; else R="missed by $P (rc=$rc)"; fi
  echo "$ID: $R: $(grep -B2 '^VIOLATION' /tmp/caught.out | head -1 | cut -c1-150)"
  python3 - "$ID" "$R" <<'P'
import json,os,sys
p='/verif/tools/caught.json'; d=json.load(open(p)) if os.path.exists(p) else {}
d[sys.argv[1]]=sys.argv[2]; json.dump(d,open(p,'w'),indent=1,sort_keys=True)
P
done

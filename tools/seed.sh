#!/bin/bash
# tools/seed.sh ID: confirms a planted bug in a scratch copy: the patch applies,
# the code builds, the stable tests pass, the demo passes without and fails with it.
set -u
ID=$1
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed_XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
mkdir "$W/vp"; cp -a /opt/vp/support /opt/vp/results.py "$W/vp/"
for f in test.sh build.sh; do cp /opt/vp/$f "$W/vp/"; done
sed -i "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" "$W"/vp/*.sh "$W"/vp/support/env.sh "$W"/vp/support/check.py "$W"/vp/support/pytest.ini
cp -a "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cd "$W/repo"
git checkout -q -- . 
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; r1=$?
bash "$W/vp/build.sh" >"$W/b" 2>&1; rb=$?
if [ "${2:-}" != notest ]; then
bash "$W/vp/test.sh" "$W/out.json" >"$W/t" 2>&1
python3 - "$W/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
bad=sorted(b-set(o['passed']))
print('tests:', 'all stable pass' if not bad else f'{len(bad)} FAIL {bad[:4]}')
P
fi
echo "$ID: demo unchanged rc=$r0 (want 0), patched rc=$r1 (want !=0), build rc=$rb"
[ $r0 = 0 ] || tail -5 "$W/d0"
[ $r1 != 0 ] && tail -2 "$W/d1"

#!/bin/bash
# seed.sh ID [nocheck] : confirm a planted bug in a scratch copy and run its check on it
id=$1; S=/verif/seeded/$id; W=$(mktemp -d /tmp/seedXXXX)
cp -a /repo "$W/r"; mkdir -p "$W/rep" "$W/d"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp "$S"/* "$W/d/"; rm -f "$W/d/meta.json" "$W/d/patch.diff"
unshare -Urm bash -c "
mount --bind $W/r /repo; mount --bind $W/rep /opt/vp/reports
cd /repo; bash $W/d/demo.sh >$W/demo0 2>&1; echo demo unpatched \$?
git apply $S/patch.diff || exit 9
bash /opt/vp/build.sh >/dev/null 2>&1; echo build \$?
bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1
cd /repo; bash $W/d/demo.sh >$W/demo1 2>&1; echo demo patched \$?
tail -2 $W/demo1
" 
python3 - <<P
import json
o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('tests lost', sorted(set(b['stable'])-set(o['passed']))[:3])
P
if [ "$2" != nocheck ]; then
  git -C "$W/r" apply "$S/patch.diff"
  t=$(date +%s)
  for p in ${2:-$prop}; do
  VERIF_REPO=$W/r timeout 900 /verif/run.sh --property $p --tier ${TIER:-quick} > "$W/chk" 2>&1; rc=$?
  echo "RESULT $id $p rc=$rc $(( $(date +%s)-t ))s $(grep -m1 VIOLATION $W/chk) | $(grep -A3 -m1 VIOLATION $W/chk | grep -v VIOL | head -2| cut -c1-160 | tr '\n' ' ')"
  done
fi
rm -rf "$W"

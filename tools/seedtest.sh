#!/bin/bash
# seedtest.sh ID...: (development aid) apply each planted bug to /repo, build, run tests, demo and its check; undo
rc=0
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  T=$(mktemp -d /tmp/seedt.XXXX); cp -r $d $T/d; rm -f $T/d/patch.diff $T/d/meta.json
  cd /repo
  [ -n "$SKIPBASE" ] || { bash $T/d/demo.sh >$T/base.log 2>&1; echo "$id demo on base: $?"; }
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPTEST" ]; then
    bash /opt/vp/build.sh >$T/b.log 2>&1 || echo "$id BUILD FAILED"
    bash /opt/vp/test.sh $T/out.json >$T/t.log 2>&1
    python3 - $T/out.json $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bp=b.get('passed') or b.get('stable') or b
miss=[t for t in bp if t not in o['passed']]
print(sys.argv[2],'tests: missing',miss[:5],len(miss))
P
  fi
  bash $T/d/demo.sh >$T/demo.log 2>&1; echo "$id demo with patch: $?"; tail -3 $T/demo.log
  (cd /verif && timeout 900 bash -c "$(python3 -c "
import json
m=json.load(open('/verif/MANIFEST.json'))
cs=m.get('checks') or m.get('properties')
print([c for c in cs if c.get('property')=='$prop' or c.get('id')=='$prop' or c.get('property_id')=='$prop'][0]['quick_cmd'] or [c for c in cs if c.get('property')=='$prop' or c.get('id')=='$prop' or c.get('property_id')=='$prop'][0]['quick'])")" > $T/check.log 2>&1); echo "$id check $prop exit $?"; grep -E 'VIOLATION|KNOWN' $T/check.log | head -3
  git -C /repo checkout -- . 
  rm -rf "$T"
done

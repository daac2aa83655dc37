#!/bin/bash
# seedcheck.sh ID...: confirms planted changes: demo passes without, builds + tests pass with, demo fails with; then runs the property's check.
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- . ; git -C /repo clean -fdq' EXIT
for id in "$@"; do
  D=/verif/seeded/$id; S=/tmp/seedrun.$$; mkdir -p $S; cp -r $D $S/x
  p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  if [ -z "$NODEMO" ]; then
  bash /opt/vp/build.sh >$S/b0 2>&1 || echo "$id: base build fails"
  timeout 300 bash $S/x/demo.sh >$S/d0 2>&1; r0=$?
  git apply $D/patch.diff || { echo "$id: patch fails"; continue; }
  bash /opt/vp/build.sh >$S/b1 2>&1; rb=$?
  timeout 300 bash $S/x/demo.sh >$S/d1 2>&1; r1=$?
  echo "$id: demo unpatched=$r0 build=$rb demo patched=$r1: $(tail -1 $S/d1 | cut -c1-150)"
  else git apply $D/patch.diff || { echo "$id: patch fails"; continue; }; fi
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $S/t.json >$S/t 2>&1; python3 - $S/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
t=t.get('tests',t); 
def ok(n):
    if isinstance(t,list): return any((x.get('id') or x.get('name'))==n and (x.get('status') or x.get('outcome')) in('passed','pass') for x in t)
    v=t.get(n); return v in('passed','pass',True) or (isinstance(v,dict) and v.get('status')in('passed','pass'))
if 'passed' in t and isinstance(t['passed'],list): bad=[n for n in b if n not in t['passed']]
else: bad=[n for n in b if not ok(n)]
print("  stable tests failing:",len(bad),bad[:3])
P
  fi
  if [ -z "$NOCHECK" ]; then ( cd /verif; timeout 900 env VERIF_SEED=1 VERIF_TIER=quick python3 run.py $p >$S/c 2>&1; echo "  check $p exit=$? $(grep -c VIOLATION $S/c) $(grep VIOLATION $S/c|head -1|cut -c1-120)" ); fi
  git checkout -q -- .; rm -rf $S
done

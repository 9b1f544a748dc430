#!/bin/bash
# usage: try.sh SLOT ID...   Confirms planted bugs in scratch copy /tmp/wt/rSLOT, mounted over /repo privately:
# builds, stable tests, demo on both trees, then the property's check (quick) against the copy.
SLOT=$1; shift
R=/tmp/wt/r$SLOT
[ -d $R ] || cp -a /repo $R
for ID in "$@"; do
  O=/tmp/wt/log.$ID; mkdir -p $O /tmp/wt/l$SLOT
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  git -C $R checkout -q -- . ; git -C $R clean -fdq
  git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  unshare -Urmn bash -c "mount --bind $R /repo && mount --bind /tmp/wt/l$SLOT /opt/vp/logs && ip link set lo up
    cd /repo
    bash /opt/vp/build.sh >$O/build0 2>&1 || echo BUILD0
    bash /verif/seeded/$ID/demo.sh >$O/demo0 2>&1; echo \$? >$O/rc0
    git apply /verif/seeded/$ID/patch.diff || echo NOAPPLY
    bash /opt/vp/build.sh >$O/build1 2>&1; echo \$? >$O/rcb
    bash /opt/vp/test.sh $O/tests.json >$O/tests 2>&1
    bash /verif/seeded/$ID/demo.sh >$O/demo1 2>&1; echo \$? >$O/rc1" >$O/ns 2>&1
  T=$(python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); 
s=set(b['stable'])
try: o=json.load(open('$O/tests.json'))
except Exception as e: print('notests', e); raise SystemExit
p=set(o.get('passed') or [])
m=sorted(s-p); print(len(s)-len(m), 'of', len(s), m[:3])
X
)
  echo "$ID: clean=$(cat $O/rc0) build=$(cat $O/rcb) tests=[$T] patched=$(cat $O/rc1)"
  if [ -z "$NOCHECK" ]; then
    ( cd /verif; MC_REPO=$R MC_BUILD=/tmp/wt/b$SLOT MC_OUT=/tmp/wt/ev$SLOT timeout 900 ./check $P --jobs ${JOBS:-8} >$O/check 2>&1; echo "   check $P rc=$?  $(grep -m1 '^VIOLATION' $O/check)  $(grep -c . $O/check) lines" )
    grep -v '^VIOLATION' $O/check | head -3 | cut -c1-200
  fi
  git -C $R checkout -q -- .
done

#!/bin/bash
cd /repo || exit 1
rm -rf /tmp/am0 /tmp/am1; mkdir /tmp/am0 /tmp/am1
git archive HEAD | tar x -C /tmp/am0
cp -a /tmp/am0/. /tmp/am1/; for f in $(git diff --name-only HEAD); do cp $f /tmp/am1/$f; done
for d in am0 am1; do (cd /tmp/$d && PYTHONHASHSEED=0 python3 amalgamation/amalgamation.py >/dev/null 2>&1); done
git checkout -q lib/Distribution
for x in c h; do
  diff -u /tmp/am0/lib/Distribution/embedDB.$x /tmp/am1/lib/Distribution/embedDB.$x > /tmp/am.diff || patch -l -F2 --no-backup-if-mismatch lib/Distribution/embedDB.$x /tmp/am.diff || { echo MIRROR FAILED $x; exit 1; }
done
git status --short
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
miss=sorted(b-set(t['passed'])); print('missing',len(miss),miss[:10]); sys.exit(bool(miss))
P
git status --short
[ -n "$1" ] && git commit -qam "$1" && git log --oneline | head -1

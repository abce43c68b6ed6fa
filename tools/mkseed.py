#!/usr/bin/env python3
"""mkseed.py DIR ID: DIR/ID has edit.json [[file, old, new], ...], demo.c, meta.json; writes /verif/seeded/ID and confirms it:
the patch touches original lines only, builds, passes the stable tests, demo 0 without and nonzero with it; then runs the check."""
import json, os, shutil, subprocess, sys
D, ID = sys.argv[1], sys.argv[2]
S = os.path.join(D, ID); O = '/verif/seeded/' + ID
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh('git -C /repo status --porcelain').stdout == '', 'dirty'
meta = json.load(open(S + '/meta.json'))
os.makedirs(O, exist_ok=True)
try:
    for f, a, b in json.load(open(S + '/edit.json')):
        p = '/repo/' + f; s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = sh('git -C /repo diff').stdout
    open(O + '/patch.diff', 'w').write(diff)
    # changed lines must be original
    cur = None; bad = []
    for l in sh('git -C /repo diff -U0').stdout.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]
        if l.startswith('@@'):
            o = l.split()[1][1:]; st, n = (o.split(',') + ['1'])[:2]
            if int(n):
                for x in sh('git -C /repo blame -s -L %s,+%s HEAD -- %s' % (st, n, cur)).stdout.split('\n'):
                    if x and not x.startswith('^'): bad.append(x)
    if bad: print('NOT ORIGINAL LINES', bad)
    r = sh('bash /opt/vp/build.sh')
    print('build', r.returncode)
    t = sh('bash /opt/vp/test.sh /tmp/seed-t.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); got = json.load(open('/tmp/seed-t.json'))
    miss = sorted(base - set(got['passed'])); print('missing tests', len(miss), miss[:4])
    for f in ('demo.c', 'demo.sh', 't.h', 'meta.json', 'Arduino.h'):
        src = S + '/' + f if os.path.exists(S + '/' + f) else D + '/' + f
        if os.path.exists(src): shutil.copy(src, O + '/' + f)
    os.chmod(O + '/demo.sh', 0o755)
    a = sh('bash %s/demo.sh' % O, cwd='/repo'); print('demo with patch', a.returncode, a.stdout[-200:].strip(), a.stderr[-200:])
    c = sh('VERIF_SEED=1 python3 /verif/check.py %s' % meta['property'], cwd='/verif'); print('check', c.returncode, c.stdout[-600:], c.stderr[-600:])
    for o in sys.argv[3:]:
        c2 = sh('VERIF_SEED=1 python3 /verif/check.py %s' % o, cwd='/verif'); print('check', o, c2.returncode, c2.stdout[-300:], c2.stderr[-300:])
finally:
    sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
b = sh('bash %s/demo.sh' % O, cwd='/repo'); print('demo without', b.returncode, b.stdout[-200:], b.stderr[-300:])
ok = not bad and r.returncode == 0 and not miss and a.returncode != 0 and b.returncode == 0
print('%s counts=%s caught=%s' % (ID, ok, c.returncode == 1))

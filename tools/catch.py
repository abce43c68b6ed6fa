"""catch.py [ids]: applies every seeded bug to /repo in turn, runs the check of its property and prints a table for DESIGN.md.
With --table only rewrites the table of DESIGN.md from tools/catch.txt."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = V + '/tools/catch.txt'
res = dict(l.split() for l in open(OUT)) if os.path.exists(OUT) else {}
ids = [x for x in sys.argv[1:] if x[0] != '-'] or sorted(os.path.basename(d) for d in glob.glob(V + '/seeded/*'))
if '--table' not in sys.argv:
    for i in ids:
        p = json.load(open(V + '/seeded/%s/meta.json' % i))['property']
        subprocess.run(['git', '-C', '/repo', 'apply', V + '/seeded/%s/patch.diff' % i], check=True)
        try: q = subprocess.run(['python3', V + '/check.py', p], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1'))
        finally: subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
        res[i] = p if q.returncode == 1 and 'VIOLATION property=%s ' % p in q.stdout else 'missed'
        print(i, res[i], flush=True)
        open(OUT, 'w').write(''.join('%s %s\n' % x for x in sorted(res.items())))
rows = ['| seeded bug | needs | caught by |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')):
    i = os.path.basename(d); m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), res.get(i, '?')))
t = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- end of seeds -->'
t = t[:t.index(a) + len(a)] + '\n'.join(rows) + '\n' + t[t.index(b):]
open(V + '/DESIGN.md', 'w').write(t)

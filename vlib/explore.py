"""developer tool: explore.py family n seed [key=val] -> tag histogram, first scripts"""
import sys, os, random, collections, tempfile, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, run
fam, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
kw = {}; exe='drv'; show=3
for a in sys.argv[4:]:
    k, v = a.split('=')
    if k == 'exe': exe = v
    elif k == 'show': show = int(v)
    else: kw[k] = (v == '1' if v in '01' and k not in ('E','n','nx') else (v if k=='keys' else eval(v)))
wd = tempfile.mkdtemp(prefix='vx'); bd = os.environ.get('BD') or os.path.join(wd, 'b')
if not os.environ.get('BD'): run.build(bd)
traces = [(i, getattr(gen, fam)(random.Random('%d-%s-%d' % (seed, fam, i)), **kw)) for i in range(n)]
t0 = time.time()
js = run.run_jobs(run.batches(os.path.join(bd, exe), traces, wd, 8))
h = collections.Counter(); first = {}
for j in js:
    for a, t, op, tags in j.bad:
        for x in tags:
            h[(op, x)] += 1; first.setdefault((op, x), set()).add(t)
print('events', sum(j.nev for j in js), 'wall %.1f' % (time.time() - t0), 'drv %.1f' % max(j.t_drv for j in js), 'tlc %.1f' % max(j.t_tlc for j in js))
bt=set()
for k, v in h.most_common(): print(k, v, 'traces', len(first[k]), sorted(first[k])[:8]); bt|=first[k]
print('bad traces', len(bt), 'of', n)
byid = dict(traces)
open('/tmp/lastx.txt','w').write('\n'.join('### %d\n%s' % (t, '\n'.join(l)) for t, l in traces))
shutil.rmtree(wd)

"""C12: exhaustive design model of the learned index (TLC), its behaviours replayed on the code, and random long histories."""
import os, random, re
import big, fn, run
LEVEL = 'exploration'


def keys_of(r, n, w):
    m = (1 << (8 * w)) - 1
    style = r.choice(['lin', 'rand', 'clus', 'exp', 'step', 'top', 'zig', 'runs', 'dense'])
    n = min(n, m // 2 + 1)
    k, out = r.choice([0, 0, 1, r.randrange(max(1, m // 4))]), []
    if style == 'top': k = max(0, m - 3 * n)
    if style == 'rand':
        return sorted(r.sample(range(m), n) if m < 1 << 20 else {r.randrange(m) for _ in range(n)})
    for i in range(n):
        if k > m: break
        out.append(k)
        room = max(1, (m - k) // max(1, n - i))
        if style == 'lin': g = max(1, room // 2) if i == 0 or r.random() < 0.02 else g
        elif style == 'clus': g = 1 if r.random() < 0.85 else r.randint(1, max(1, room))
        elif style == 'exp': g = max(1, min(room * 4, (1 << min(60, i // 2))))
        elif style == 'step': g = 1 if i % 7 else max(1, room)
        elif style == 'zig': g = 1 if i % 2 else max(1, min(room, 1000))
        elif style == 'runs':
            if i % 11 == 0: step = r.choice([1, 2, 5, 50, max(1, room // 3)])
            g = max(1, min(step, room))
        else: g = r.randint(1, 2)
        k += g
    return out


def near(r, ks, m, count):
    out = []
    for _ in range(count):
        i = r.randrange(len(ks))
        x = r.random()
        if x < 0.35: v = ks[i]
        elif x < 0.6: v = ks[i] - 1
        elif x < 0.7: v = ks[i] + 1
        elif x < 0.9 and i + 1 < len(ks): v = r.randint(ks[i], ks[i + 1])
        else: v = r.choice([0, m, ks[-1], ks[0], ks[-1] + 1, ks[-1] - 1])
        out.append(max(0, min(m, v)))
    return out


def script(r, big):
    w = r.choice([1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 8, 8])
    m = (1 << (8 * w)) - 1
    size = r.choice([4, 4, 5, 6, 8, 10, 20, 60])
    err = r.choice([0, 1, 1, 1, 1, 2, 3, 4, 8])
    ks = keys_of(r, r.choice([3, 10, 40, 80, 150] + ([400] if big else [])), w)
    base = r.choice([0, 0, 0, 1, 7, 1000, 70000, 2000000000])
    off = r.choice([0, 0, 0, (1 << 31) - 20, 1 << 31, 3 << 30, (1 << 32) - 5000])
    lines = ['I %d %d %d %d' % (size, err, w, off)]
    if off: base = 0
    cnt = 0
    for i, k in enumerate(ks):
        lines.append('A %d %d' % (k, base + i))
        if r.random() < 0.04: lines.append('E %d' % r.choice([1, 1, 2, 3, size - 1, 0]))
        if i < 4 or r.random() < 0.1 or i == len(ks) - 1:
            lines.append('F ' + ' '.join(str(x) for x in near(r, ks[:i + 1], m, 24)))
    return lines + ['Z']


def replay(ops, err, size):
    """one behaviour of the design model: after every step every key is searched"""
    lines, k, page, first = ['I %d %d %d' % (size, err, 4)], 0, 0, 0
    for o in ops:
        if o > 0:
            k += o
            if not page: first = k
            lines.append('A %d %d' % (k, page)); page += 1
        else:
            lines.append('E %d' % -o)
    lines.append('F ' + ' '.join(str(x) for x in range(max(0, first - 1), k + 2)))
    return lines + ['Z']


def check(res, tier, seed, wd, bd, scale):
    exes = {'s': wd + '/b/sdrv', 'sa': wd + '/b/sdrv-asan'}
    fn.compile_driver('sdrv.c', exes['s']); fn.compile_driver('sdrv.c', exes['sa'], asan=True)
    models = [(6, 4, 1, (1, 3, 9)), (6, 4, 0, (1, 2, 5)), (7, 4, 1, (1, 4, 11))]
    if tier != 'quick': models += [(8, 4, 1, (1, 2, 7)), (8, 5, 1, (1, 3, 20)), (8, 4, 2, (1, 5, 30)), (7, 5, 0, (1, 2, 3)), (9, 4, 1, (1, 6, 6))]
    traces, t = [], 0
    mc = [0, 0]
    for L, size, err, g in models:
        out, n, rc = run.tlc('EmbedDBSplineMC.tla', 'EmbedDBSplineMC.cfg', dict(G1=str(g[0]), G2=str(g[1]), G3=str(g[2]), LEN=str(L), SIZE=str(size), ERR=str(err)), wd, workers=8)
        if 'No error has been found' not in out: raise run.CheckError('design model of the learned index: ' + out[-3000:])
        mc[0] += n[0]; mc[1] += n[1]
        for o in re.findall(r'<<\s*"OPS",\s*<<([^>]*)>>\s*>>', out.replace('\n', ' ')):
            traces.append((t, 's', replay([int(x) for x in o.split(',')], err, size))); t += 1
    res.extra['design_model'] = dict(module='EmbedDBSplineMC', models=len(models), generated=mc[0], distinct=mc[1], behaviours_replayed=len(traces))
    for i in range(int(500 * scale)):
        r = random.Random('C12-%d-%d' % (seed, i))
        traces.append((t, 'sa' if i % 10 == 0 else 's', script(r, i % 5 == 0))); t += 1
    rank = {}
    for tid, x, lines in traces:
        vals = set()
        for l in lines:
            f = l.split()
            if f[0] == 'A': vals.add(int(f[1]))
            elif f[0] == 'F': vals.update(int(v) for v in f[1:])
        rank[tid] = {v: i for i, v in enumerate(sorted(vals))}
    def merge(evs):
        for e in evs:
            rk = rank[e['t']]
            if e['op'] == 'sa': e['k'] = rk[int(e['k'])]
            elif e['op'] == 'sf':
                k0 = int(e['k0'])
                e['k0'] = rk[k0] if k0 in rk else sum(1 for v in rk if v < k0)
                for q in e['q']: q[0] = rk[int(q[0])]
    fn.run_traces(res, exes, traces, 'EmbedDBSplineTrace', wd, 'spline', merge=merge, per=2000)
    # the index inside the store: its bracket decides what lookups find
    big.check(res, seed, wd, big.READ | {'iter', 'died'}, [('points', 24), ('pages', 6)], 'C12', scale)

"""Stores of realistic and extreme sizes (driver/gdrv.c, spec/EmbedDBBulk.tla): many pages, big pages and erase blocks,
long variable data, many index points, page ids beyond 16 bits."""
import os, random
import fn
from gen import INDEX, MAXMIN, SUM, BMAP, VDATA, RLC, BIN, NOCLEAN, header, recsize

READ = {'get_phantom', 'get_missing', 'get_wrong', 'getv_phantom', 'getv_missing', 'getv_wrong'}
KEEP = {'next_page', 'retention', 'min_back', 'flush_failed', 'put_refused', 'open_refused'}
VAR = {'var_deleted', 'var_wrong'}
REC = {'rec_next', 'rec_retention', 'rec_dropped', 'rec_content'}
DISC = {'disc_dirty', 'disc_range'}
SHAPES = ['pages', 'ids', 'bigpage', 'bigblock', 'points', 'index', 'longvar', 'manyvar', 'medium', 'medium']


def config(r, shape):
    c = dict(fl=0, ks=r.choice([4, 4, 8]), ds=r.choice([4, 4, 8]), bm=8, err=r.choice([0, 1, 1, 2, 8]), spl=r.choice([8, 30, 30, 300]), er=r.choice([0, 1, 2]), E=r.choice([1, 2, 4, 8]),
             NI=0, NV=0, kind=r.randrange(5), kb=r.choice([0, 1, 5000, 100000]), kst=r.choice([1, 1, 3, 10, 97]), M=100)
    fl = 0
    if r.random() < .25: fl |= BIN
    if r.random() < .2: fl |= MAXMIN
    if r.random() < .15: fl |= NOCLEAN
    R = r.choice([1, 2, 3])
    if shape in ('index',) or shape in ('medium', 'bigpage', 'ids') and r.random() < .3: fl |= INDEX | BMAP; c['bm'] = r.choice([8, 16, 64])
    if shape in ('longvar', 'manyvar') or shape == 'medium' and r.random() < .3: fl |= VDATA
    if shape in ('bigblock', 'medium', 'bigpage', 'ids') and r.random() < .35: fl |= RLC
    if shape == 'longvar' and r.random() < .25: fl |= RLC
    c['fl'] = fl
    if fl & INDEX and c['bm'] > 8: c['M'] = r.choice([100, 1000])
    low = 24 + (c['ks'] + 8 if fl & VDATA else 0) + (16 if fl & INDEX else 0)
    minb = 4 if fl & (RLC | INDEX) else 2
    if shape == 'pages': c['N'] = c['E'] * (r.choice([65536, 70000, 66000, 131072 + 64]) // c['E']); c['er'] = r.choice([0, 1])
    elif shape == 'ids': c['E'] = r.choice([1, 2, 4]); c['N'] = c['E'] * r.choice([4, 8, 25])
    elif shape == 'bigblock': c['E'] = r.choice([127, 128, 200, 255, 256, 257, 300, 1000, 16384, 20000, 32768, 40000, 65535]); c['N'] = c['E'] * (minb + r.choice([0, 1, 2]) * (c['E'] < 2000))
    elif shape == 'bigpage': R = 0; c['N'] = c['E'] * (minb + r.choice([0, 1, 3])); c['ps'] = r.choice([4096, 8192, 16384, 32767, 32768, 40000, 65024, 65535, 65534])
    elif shape == 'points': c['N'] = c['E'] * (r.choice([1000, 3000, 9000]) // c['E']); c['spl'] = r.choice([200, 255, 256, 257, 300, 1000, 3000]); c['err'] = r.choice([0, 1]); c['fl'] &= ~BIN; c['kind'] = r.choice([1, 2, 3, 3])
    elif shape == 'index': c['E'] = r.choice([1, 2, 4]); c['N'] = c['E'] * r.choice([20, 100, 500]); c['NI'] = c['E'] * r.choice([2, 3, 40])
    elif shape == 'longvar': c['ps'] = r.choice([64, 512, 512, 4096, 65535]); c['N'] = c['E'] * r.choice([4, 8]); R = 0
    elif shape == 'manyvar': c['ps'] = r.choice([48, 64, 128]); c['N'] = c['E'] * (20000 // c['E']); c['NV'] = c['E'] * (r.choice([66000, 100000, 140000]) // c['E']); R = 0
    else: R = 0; c['ps'] = r.choice([128, 512, 512, 1024]); c['N'] = c['E'] * r.choice([minb, 8, 30, 100])
    if fl & INDEX and not c['NI']: c['NI'] = c['E'] * r.choice([2, 4])
    if R: c['ps'] = max(low, header(c) + R * recsize(c))
    c['ps'] = max(c['ps'], low, header(c) + recsize(c))
    c['R'] = (c['ps'] - header(c)) // recsize(c)
    c['buf'] = 2 + (2 if fl & INDEX else 0) + (2 if fl & VDATA else 0)
    return c


def reads(r, c, n, back):
    q = lambda: r.choice(['@%d' % r.randrange(0, back + 5), '@%d' % r.randrange(0, 3 * c['R'] + 1), '@%d' % (back + r.randrange(-3 * c['R'] - 3, 3 * c['R'] + 3)), '%d' % r.randrange(0, 10), '@%d' % min(back, r.choice([127, 128, 255, 256, 32767, 32768, 65535, 65536]))])
    L = ['G ' + ' '.join(q() for _ in range(n))]
    if c['fl'] & VDATA: L.append('V %d ' % r.choice([0, 0, 7, 1000, c['ps']]) + ' '.join(q() for _ in range(max(4, n // 4))))
    b = lambda: '-' if r.random() < .5 else q()
    for _ in range(2):
        d0, d1 = r.randrange(-0, c['M']), r.randrange(0, c['M'])
        if d0 > d1: d0, d1 = d1, d0
        L.append('S %s %s %s' % (b(), b(), r.choice(['- -', '- -', '%d %d' % (d0, d1), '- %d' % d1, '%d -' % d0])))
    return L


def script(r, shape):
    c = config(r, shape)
    cap = (c['N'] - (2 * c['E'] if c['fl'] & RLC else 0)) * c['R']
    lens = [-1]
    if c['fl'] & VDATA:
        if shape == 'longvar':
            lens = [r.choice([65530, 65535, 65536, 65537, 70000, 131072, 200000, 40000]) for _ in range(3)] + [r.choice([0, 5, 300])]
            k = r.choice([10, 25])
            c['NV'] = c['E'] * (6 + sum(2 + (x + 4) // (c['ps'] - c['ks'] - 4) for x in lens) * k // c['E'])
        elif shape == 'manyvar': lens = [r.choice([1, 20, 30, 100])]
        else: c['NV'] = c['E'] * r.choice([3, 10, 60]); lens = [-1, 0, 10, 100]
        room = (c['ps'] - c['ks'] - 4) * max(1, c['NV'] - c['E'] - 1) - 8
        lens = [min(x, room) for x in lens]
    L = ['I ' + ' '.join('%s=%s' % (k, v) for k, v in c.items() if k != 'R'), 'O reset']
    total, big = 0, False
    def fill(n, x=False):
        nonlocal total
        total += n
        L.append(('X %d ' % r.randrange(1, max(2, n // max(1, c['R']) * (3 if c['fl'] & RLC else 1) + 2)) if x else 'P ') + '%d %d' % (n, r.choice(lens)))
    if shape == 'longvar':
        for _ in range(k): fill(1); L.append('V %d @0 @1 @2' % r.choice([0, 100, 65535, 65536, c['ps'], 0]))
        steps = [1, 2]
    elif shape == 'manyvar': steps = [max(10, int(c['NV'] * (c['ps'] - 12) / (lens[0] + 4 + 4) * f)) for f in (.3, .5, .5)]; steps = [min(x, 200000) for x in steps]
    elif shape == 'ids': steps = [65530 * c['R'] if not c['fl'] & RLC else 66000, r.choice([10, 30]) * c['R'], c['N'] * c['R']]
    elif shape == 'pages': steps = [int(c['N'] * c['R'] * f) for f in (.6, .39, .2, .9)]
    elif shape == 'bigblock': steps = [min(150000, int(cap * f) + r.randrange(3)) for f in (.4, .7, .3, .8)]
    elif shape == 'bigpage': steps = [min(120000, int(cap * f) + r.randrange(3)) for f in (.3, .8, .7)]
    else: steps = [min(60000, int(cap * f) + r.randrange(3)) for f in (.3, .8, 1.1)]
    for s in steps:
        if r.random() < .25 and s > 2 and not c['fl'] & VDATA:
            fill(s, True); L.append('O keep')
        else: fill(s)
        back = min(total, cap)
        L += reads(r, c, 30, back)
        if r.random() < .4: fill(r.choice([1, c['R'], c['R'] + 1])); L.append('U')
        if r.random() < .5:
            if c['fl'] & VDATA: L.append('U')
            L += [r.choice(['C', 'D']), 'O keep'] + reads(r, c, 20, back)
            fill(r.randrange(1, 3 * c['R'] + 2)); L += reads(r, c, 20, back)
    return L


def check(res, seed, wd, tags, shapes, name, scale=1.0, asan=True, dist=False):
    exes = {'g': wd + '/gb/gdrv'}
    fn.compile_driver('gdrv.c', exes['g'], flags=fn.MEM)
    if asan: exes['ga'] = wd + '/gb/gdrv-asan'; fn.compile_driver('gdrv.c', exes['ga'], asan=True, flags=fn.MEM)
    if dist: exes['gd'] = wd + '/gb/gdrv-dist'; fn.compile_driver('gdrv.c', exes['gd'], dist=True, flags=fn.MEM)
    traces, t = [], 0
    for shape, n in shapes:
        for i in range(max(1, int(n * scale))):
            r = random.Random('%s-%s-%d-%d' % (name, shape, seed, i))
            traces.append((t, 'gd' if dist and i % 2 else 'ga' if asan and i % 6 == 5 else 'g', script(r, shape))); t += 1
    fn.run_traces(res, exes, traces, 'EmbedDBBulkTrace', wd, 'big', tags=tags, per=60)


if __name__ == '__main__':
    import sys, collections, tempfile, time
    class R: pass
    res = R(); res.cov = dict(states=0, transitions=0, traces=0, evaluations=0, distinct=0, ops=collections.Counter()); res.violations = []; res.samples = []
    t0 = time.time()
    with tempfile.TemporaryDirectory() as wd:
        check(res, int(sys.argv[1]), wd, None, [(s, int(sys.argv[2])) for s in sys.argv[3:] or SHAPES], 'dev')
    print(res.cov, time.time() - t0)
    for w, tx in res.violations[:12]: print(w); print(tx if len(res.violations) < 3 else '')
    import pickle; pickle.dump(res.violations, open('/tmp/big.pkl', 'wb'))

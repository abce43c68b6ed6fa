"""Random query trees over random rows: text for the driver and the same tree as JSON for TLC."""
import random
import fn

def hx(b): return bytes(b).hex() if b else '""'

def le(v, w): return list((v % (1 << (8 * w))).to_bytes(w, 'little'))

def value(r, w, style):
    m = 1 << (8 * w)
    x = r.random()
    if style == 'few': return le(r.choice([0, 1, 2, 3]), w)
    if style == 'edge' or x < 0.35:
        return le(r.choice([0, 1, 2, m - 1, m - 2, m // 2, m // 2 - 1, m // 2 + 1, 127, 128, 255, 256, 129, m - 128, m - 129]), w)
    if style == 'small' or x < 0.6: return le(r.randint(-300, 300), w)
    return [r.randrange(256) for _ in range(w)]

def schema(r, key=None, ncols=None, wide=False):
    if wide:
        n = r.choice([3, 6, 12, 20, 40, 90])
        return [key or r.choice([1, 4, 8])] + [r.choice([1, 1, 2, 4, 8, 30, 100, 127, 127] if n < 40 else [1, 2, 4, 8, 8, 16]) * r.choice([1, -1]) for _ in range(n - 1)]
    n = ncols or r.randint(2, 6)
    ws = [r.choice([1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 8]) for _ in range(n)]
    sch = [w * r.choice([1, -1]) for w in ws]
    sch[0] = key or r.choice([1, 2, 3, 4, 4, 4, 5, 8])
    if r.random() < 0.12: sch[r.randrange(1, n)] = r.choice([9, 12, 16, 24, -9, -16])
    return sch

class Tree:
    """sch: column widths of the output, key: first column ascending, distinct and unsigned, avg: columns holding averages"""
    def __init__(self, toks, js, sch, rows, key, avg=()):
        self.toks, self.js, self.sch, self.rows, self.key, self.avg = toks, js, sch, rows, key, set(avg)

def keys(r, n, w, dense):
    m = 1 << (8 * w)
    step, low = getattr(r, 'grid', None) or (1, 0)
    if dense and step > 1:    # keys of both sides of a join lie on one coarse grid, so that they agree in some of their bytes only
        ks, k = [], r.choice([0, 0, 1, 2])
        for _ in range(n):
            ks.append(k * step + (r.randint(0, low) if r.random() < .3 else 0)); k += r.randint(1, 2)
        return sorted({x for x in ks if x < m})
    out, k = [], r.choice([0, 0, 1, r.randrange(min(m, 1 << 20))]) if dense or w == 1 else r.randrange(m // 2)
    top = min(3, m // (n + 1)) if dense else max(1, (m - k) // (n + 1))
    for _ in range(n):
        if k >= m: break
        out.append(k); k += r.randint(1, max(1, top))
    return out

def base(r, key=None, dense=True, scan=None, maxn=None):
    wide = r.random() < .1
    sch = schema(r, key, wide=wide)
    n = (r.choice([1, 2, 3, 5, 8]) if wide else r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40])) if maxn is None else maxn
    sty = r.choice(['any', 'edge', 'small', 'few', 'few'])
    ks = keys(r, n, sch[0], dense)
    rows = [[b for b in le(k, sch[0])] + [b for w in sch[1:] for b in value(r, abs(w), sty)] for k in ks]
    col = [str(len(sch))] + [str(c) for c in sch]
    if scan is None: scan = r.random() < 0.5
    if scan:
        m = 1 << (8 * sch[0])
        lo = hi = []
        if r.random() < 0.5 and ks: lo = le(max(0, min(m - 1, r.choice(ks) + r.randint(-2, 2))), sch[0])
        if r.random() < 0.5 and ks: hi = le(max(0, min(m - 1, r.choice(ks) + r.randint(-2, 2))), sch[0])
        ps = max(r.choice([256, 512]), 40 + sum(abs(x) for x in sch))
        ks, ds = sch[0], sum(abs(x) for x in sch[1:])
        toks = ['scan'] + col + [str(ks), str(ds)] + [bytes(lo).hex() if lo else '-', bytes(hi).hex() if hi else '-', str(ps), str(r.randint(0, len(rows))), str(len(rows))]
        js = dict(t='scan', sch=sch, rows=rows, lo=lo, hi=hi, ks=ks, ds=ds)
    else:
        toks = ['src'] + col + [str(len(rows))]
        js = dict(t='src', sch=sch, rows=rows)
    return Tree(toks + [bytes(x).hex() for x in rows], js, sch, rows, True)

def unsorted(r):
    t = base(r, scan=False)
    w = abs(t.sch[0])
    sty = r.choice(['few', 'few', 'edge', 'any'])
    if r.random() < 0.5: t.sch[0] = -w
    rows = [value(r, w, sty) + x[w:] for x in t.rows]
    if r.random() < 0.7 and rows:   # runs of equal values
        out = []
        for x in rows: out += [x[:w] + y[w:] for y in [r.choice(rows) for _ in range(r.choice([1, 1, 2, 5]))]]
        rows = out
    toks = ['src', str(len(t.sch))] + [str(c) for c in t.sch] + [str(len(rows))] + [bytes(x).hex() for x in rows]
    return Tree(toks, dict(t='src', sch=t.sch, rows=rows), t.sch, rows, False)

def colvals(t, c):
    o = sum(abs(x) for x in t.sch[:c]); w = abs(t.sch[c])
    return [x[o:o + w] for x in t.rows if len(x) >= o + w]

def unfit(r):
    """a query that is refused: a scan with the wrong schema, or a join of keys that do not compare"""
    if r.random() < .5:
        t = base(r, key=r.choice([1, 2, 4, 8]), scan=True)
        ks, ds = t.js['ks'], t.js['ds']
        x = r.random()
        if x < .25: t.sch[0] = -ks; k2, d2 = ks, ds
        elif x < .5: k2, d2 = r.choice([k for k in (1, 2, 4, 8) if k != ks]), ds; d2 = max(1, ks + ds - k2) if r.random() < .7 else ds
        elif x < .8: k2, d2 = ks, max(1, ds + r.choice([-1, 1, 2, 8, -2]))
        else: k2, d2 = r.choice([1, 2, 4, 8]), r.randint(1, 20)
        if (k2, d2) == (t.sch[0], ds): d2 += 1
        n = len(t.sch) + 1
        toks = ['scan', str(n - 1)] + [str(c) for c in t.sch] + [str(k2), str(d2)] + ['-', '-', str(max(256, 40 + k2 + d2)), str(r.randint(0, 5)), str(len(t.rows))]
        t.toks = toks + [bytes(x).hex() for x in t.rows]
        t.js.update(sch=t.sch, ks=k2, ds=d2, lo=[], hi=[])
        t.key = False
        return t
    k = r.choice([1, 2, 4, 8])
    if r.random() < .5: a, b = sorted_tree(r, 1, k, False), sorted_tree(r, 1, r.choice([x for x in (1, 2, 3, 4, 5, 8) if x != k]), False)
    else:
        a = b = None
        while not a or a.sch[0] > 0 and b.sch[0] > 0: a, b = unsorted(r), unsorted(r)
        if r.random() < .3: a = sorted_tree(r, 1, abs(b.sch[0]), False)
        if a.sch[0] > 0 and b.sch[0] > 0: return unfit(r)
    if r.random() < .5: a, b = b, a
    return join(r, a, b)

def select(r, t):
    cs = [c for c in range(len(t.sch)) if c not in t.avg]
    if not cs: return t
    c = r.choice(cs); o = r.randrange(6); w = abs(t.sch[c])
    vs = colvals(t, c)
    v = value(r, w, 'any')
    if vs and r.random() < 0.6:
        v = r.choice(vs)
        if r.random() < 0.5: v = le(int.from_bytes(bytes(v), 'little') + r.choice([-1, 0, 1, 256, -256]), w)
    return Tree(['sel', str(c), str(o), bytes(v).hex()] + t.toks, dict(t='sel', c=c, o=o, v=v, x=t.js), t.sch, t.rows, t.key, t.avg)

def project(r, t, keep0=False):
    n = len(t.sch)
    c = sorted(r.sample(range(n), r.randint(1, n)))
    if keep0 and 0 not in c: c = [0] + c
    off = [sum(abs(x) for x in t.sch[:i]) for i in range(n)]
    rows = [sum((x[off[i]:off[i] + abs(t.sch[i])] for i in c), []) for x in t.rows]
    return Tree(['proj', str(len(c))] + [str(x) for x in c] + t.toks, dict(t='proj', c=c, x=t.js), [t.sch[i] for i in c], rows,
                t.key and c[0] == 0, {j for j, i in enumerate(c) if i in t.avg})

def join(r, t, u):
    return Tree(['join'] + t.toks + u.toks, dict(t='join', x=t.js, y=u.js), t.sch + u.sch,
                [random.Random(1).choice(t.rows) + y for y in u.rows] if t.rows else [], t.key and u.key, t.avg | {len(t.sch) + i for i in u.avg})

def agg(r, t):
    ok = [c for c in range(len(t.sch)) if c not in t.avg]
    num = [c for c in ok if abs(t.sch[c]) <= 8]
    fs, sch, avg = [], [], set()
    for i in range(r.randint(1, 6) if r.random() < .95 else r.choice([20, 40, 100])):
        k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6])
        if k in (1, 4) and not num: k = 0
        if k in (2, 3, 5, 6) and not ok: k = 0
        c = 0 if k == 0 else r.choice(num if k in (1, 2, 3, 4) and num else ok)
        if k == 4: avg.add(i); f = (4, c + 100 * r.choice([4, 8]))
        else: f = (k, c)
        fs.append(f)
        sch.append({0: 4, 1: -8}.get(k, f[1] // 100 if k == 4 else t.sch[c]))
    g = r.choice([0, 1, 2, 2, 2, 3, 3]); a = 0
    if g == 2:
        if ok: a = r.choice(ok)
        else: g = 0
    if g == 3:
        if 0 in t.avg: g = 0
        a = r.randrange(0, 8)
    key = False
    if t.key and g in (1, 3) and t.sch[0] > 0 and 0 not in t.avg and r.random() < 0.5:
        fs[0] = (r.choice([5, 6]), 0); sch[0] = t.sch[0]; avg.discard(0); key = True
    if t.js['t'] == 'cyc' or t.js.get('sel'): g, a = 2, 0
    toks = ['agg', str(g), str(a), str(len(fs))] + [str(x) for f in fs for x in f]
    rows = [] if key is False else [x[:abs(sch[0])] + [0] * sum(abs(c) for c in sch[1:]) for x in t.rows]
    return Tree(toks + t.toks, dict(t='agg', g=g, a=a, f=[list(f) for f in fs], x=t.js), sch, rows, key, avg)

def cyc(r):
    """an aggregation over groups that are much longer than what can be enumerated"""
    sch = schema(r, r.choice([1, 2, 4]))
    m = r.choice([1, 2, 3, 7, 16, 50])
    n = r.choice([300, 40000, 70000, 140000, 200000])
    L = r.choice([n, n, 65536, 65535, 65537, 32768, 32769, 256, 257, 1000, 100000, n // 3])
    L = max(L, n // 50 + 1, n // 250 + 1)
    sty = r.choice(['any', 'edge', 'small', 'few'])
    rows = [sum((value(r, abs(w), sty) for w in sch[1:]), []) for _ in range(m)]
    toks = ['cyc', str(len(sch))] + [str(c) for c in sch] + [str(n), str(L), str(m)] + [bytes(x).hex() for x in rows]
    js = dict(t='cyc', sch=sch, rows=rows, n=n, L=L, sel=[])
    if r.random() < .4:
        c = r.randrange(1, len(sch)); o = r.randrange(6); off = sum(abs(x) for x in sch[1:c])
        v = r.choice(rows)[off:off + abs(sch[c])]
        toks = ['sel', str(c), str(o), bytes(v).hex()] + toks
        js['sel'] = dict(c=c, o=o, v=v)
    t = Tree(toks, js, sch, [], False)
    for _ in range(9):
        u = agg(r, t)
        if not any(f[0] in (2, 3, 4) and abs(sch[f[1] % 100]) > 8 for f in u.js['f']): return u
    return u

def maxkey(t): return t.sch[0]

def sorted_tree(r, depth, key, agg_ok):
    t = base(r, key=key, dense=r.random() < 0.8)
    for _ in range(r.randrange(depth + 1)):
        x = r.random()
        if x < 0.5: t = select(r, t)
        elif x < 0.8: t = project(r, t, True)
        elif agg_ok:
            u = agg(r, t)
            if u.key: t = u
    return t

def tree(r, aggs):
    if aggs and r.random() < .06: return cyc(r)
    x = r.random()
    if r.random() < .06: t = unfit(r)
    elif x < 0.4: t = sorted_tree(r, 3, None, aggs)
    elif x < 0.6: t = unsorted(r)
    else:
        k = r.choice([1, 2, 3, 4, 4, 5, 6, 8, 8])
        if r.random() < .4: r.grid = (1 << 8 * r.randrange(k)) + r.choice([0, 0, 1, -1]), r.choice([0, 1, 3])
        t = join(r, sorted_tree(r, 2, k, aggs), sorted_tree(r, 2, k, aggs))
        if r.random() < 0.25: t = join(r, t, sorted_tree(r, 1, k, aggs))
        r.grid = None
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        t = select(r, t) if r.random() < 0.6 else project(r, t)
    if aggs:
        t = agg(r, t)
        if r.random() < 0.3: t = select(r, t) if r.random() < 0.5 else project(r, t)
    return t

def script(r, aggs):
    """one or two queries whose executions interleave"""
    k = r.choice([1, 1, 1, 2])
    trees, lines = [], []
    for s in range(k):
        t = tree(r, aggs)
        trees.append(t.js)
        lines.append('Q %d %s' % (s, ' '.join(t.toks)))
        if r.random() < .15: lines.append('I %d' % s)
    if r.random() < .3:
        for _ in range(r.randint(1, 3)):
            n = r.choice([1, 2, 3, 8, 40])
            bad = r.randrange(n) if r.random() < .6 else -1
            cols = [[r.choice([1, 2, 4, 8, 127, r.randint(1, 127)]), r.randrange(2)] for _ in range(n)]
            if bad >= 0: cols[bad] = r.choice([[0, 0], [0, 1], [-1, 1], [-4, 0], [4, 2], [4, -1], [-127, 1]])
            lines.append('N %d %s' % (n, ' '.join('%d %d' % tuple(c) for c in cols)))
    if k == 2:
        for _ in range(r.randint(2, 8)): lines.append('X %d %d' % (r.randrange(2), r.choice([1, 1, 2, 3, 7])))
    for s in range(k):
        lines.append('X %d %d' % (s, 400 if r.random() < .9 else r.randrange(0, 4))); lines.append('C %d %d' % (s, r.randrange(2)))
    return lines, trees

RESULT = {'schema', 'extra_row', 'missing_row', 'wrong_row', 'died'}


def check(res, seed, wd, aggs, count, acount, pid, tags=RESULT):
    exes = {'q': wd + '/b/qdrv', 'qa': wd + '/b/qdrv-asan'}
    fn.compile_driver('qdrv.c', exes['q']); fn.compile_driver('qdrv.c', exes['qa'], asan=True)
    traces, trees = [], {}
    for i in range(count + acount):
        r = random.Random('%s-%d-%d' % (pid, seed, i))
        lines, tr = script(r, aggs)
        if sum(len(l) for l in lines) > 200000: continue
        trees[i] = tr
        traces.append((i, 'q' if i < count else 'qa', lines))
    def merge(evs):
        for e in evs:
            if e['op'] == 'q': e['tree'] = trees[e['t']][e['s']]
    fn.run_traces(res, exes, traces, 'EmbedDBQueryTrace', wd, 'query', merge=merge, tags=tags)

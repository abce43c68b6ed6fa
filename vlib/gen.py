"""Scenario generators: each returns the script of one trace (list of lines).

Scripts contain only stimuli.  What has to come out is decided by TLC from the
TLA+ specification (spec/EmbedDB.tla)."""
import random

INDEX, MAXMIN, SUM, BMAP, VDATA, RLC, BIN, NOCLEAN = 1, 2, 4, 8, 16, 64, 128, 256


def header(c):
    h = 6
    if c['fl'] & (INDEX | BMAP):
        h += c['bm'] // 8
    if c['fl'] & MAXMIN:
        h = max(h, 14) + 2 * c['ks'] + 2 * c['ds']
    return h


def recsize(c):
    return c['ks'] + c['ds'] + (4 if c['fl'] & VDATA else 0)


KMS = ['lin', 'rand', 'clus', 'exp', 'step', 'huge']


def config(r, vdata=None, rlc=None, index=None, binary=None, maxmin=None, erase=None, big=False, keys=None, wide=True, E=None, need=400):
    """A random valid configuration.  need: how many distinct keys the trace wants."""
    c = {}
    p = lambda v, q: (r.random() < q) if v is None else v
    fl = 0
    if p(vdata, 0.3): fl |= VDATA
    if p(rlc, 0.25): fl |= RLC
    if p(index, 0.3): fl |= INDEX | BMAP
    elif r.random() < 0.15 and index is None: fl |= BMAP
    if p(binary, 0.2): fl |= BIN
    if p(maxmin, 0.15): fl |= MAXMIN
    if r.random() < 0.15: fl |= NOCLEAN
    c['fl'] = fl
    c['ks'] = r.choice([4, 4, 4, 8, 8, 2, 3, 5, 6, 7]) if wide else 4
    c['ds'] = r.choice([4, 4, 8, 12, 2, 1, 5, 20]) if wide else 4
    if fl & (INDEX | BMAP):
        c['bm'] = r.choice([8, 16, 64])
        c['ds'] = max(c['ds'], 2 if c['bm'] == 8 else 4)
        c['spread'] = r.choice([100, 100, 800])
    else:
        c['bm'] = 8
        c['spread'] = 100
    R = r.choice([1, 2, 2, 3, 3, 4, 5, 7]) if not big else r.choice([20, 60, 130, 200]) if big != 'huge' else r.choice([127, 128, 129, 254, 255, 256, 257, 270, 300, 330, 500])
    if big == 'huge': c['ds'] = r.choice([4, 4, 2, 8]) if not fl & (INDEX | BMAP) else 4
    ps = header(c) + R * recsize(c) + r.choice([0, 0, 1, 3]) % recsize(c)
    low = 24
    if fl & VDATA: low = max(low, c['ks'] + 4 + 8)
    if fl & INDEX: low = max(low, 16 + 2 * (c['bm'] // 8))
    ps = max(ps, low)
    if r.random() < 0.5: ps = (ps + 3) // 4 * 4
    c['ps'] = ps
    c['R'] = (ps - header(c)) // recsize(c)
    c['E'] = E if E else r.choice([1, 2, 2, 2, 3, 4])
    minb = 4 if fl & (RLC | INDEX) else 2
    c['N'] = c['E'] * (minb + r.choice([0, 0, 1, 1, 2, 4]))
    if big == 'huge': c['E'] = r.choice([1, 1, 2]); c['N'] = c['E'] * minb
    c['NI'] = c['E'] * r.choice([2, 2, 3, 4])
    c['NV'] = c['E'] * r.choice([2, 2, 3, 4, 6, 10])
    c['buf'] = 2 + (2 if fl & INDEX else 0) + (2 if fl & VDATA else 0)
    c['spl'] = r.choice([4, 4, 5, 8, 30])
    c['err'] = r.choice([0, 1, 1, 1, 2, 4, 16])
    c['er'] = r.choice([0, 1, 2, 2, 3]) if erase is None else erase
    if fl & VDATA and c['E'] == 1 and c['er'] == 3: c['er'] = 2   # an erased page of zero bytes looks like page 0 holding key 0
    km = keys or r.choice(KMS)
    bits = 8 * c['ks']
    if c['ks'] <= 2: km = r.choice(['lin', 'rand'])
    step = r.choice([1, 1, 2, 7])
    if bits >= 24 and r.random() < 0.5: step = r.choice([10, 100, 1000])
    if bits >= 40 and r.random() < 0.5: step = 10 ** r.choice([4, 6])
    if c['ks'] == 3: step = min(step, 1000)
    base = 0
    x = r.random()
    span = 6000 * step * 30
    if x < 0.3: base = 0
    elif x < 0.6: base = r.randrange(1, 50)
    elif bits >= 32 and km in ('lin', 'rand') and x < 0.8:
        base = (1 << (bits - 1)) - need * step // 2      # straddle the sign bit
    elif x < 0.9: base = r.randrange(1, 5000)
    if bits == 64 and base >= 1 << 63: base = 1 << 62
    c['km'], c['kb'], c['kst'] = km, base, step
    # the comparators users take from the utility library work on signed integers
    c['cmp'] = 0
    if c['ks'] == 4 and base < 1 << 30 and r.random() < 0.4: c['cmp'] = 1
    if c['ks'] == 8 and r.random() < 0.5: c['cmp'] = 2
    return c


def cfgline(i, c):
    ks = ['ks', 'ds', 'ps', 'N', 'E', 'NI', 'NV', 'buf', 'fl', 'spl', 'err', 'bm', 'cmp', 'er', 'km', 'kb', 'kst'] + [k for k in ('nofile', 'noopen') if k in c]
    return 'CFG %d ' % i + ' '.join('%s=%s' % (k, c[k]) for k in ks)


def d(r, c):
    """data value"""
    if c['ds'] >= 4 and (c['bm'] > 8 or not c['fl'] & (INDEX | BMAP)) and (c['ps'] + c['N'] + c['spl']) % 4 == 0 and r.random() < .35:
        return str(r.choice([2147483647, -2147483647, 2147483646, 1 << 30, -(1 << 30), 1999999999, -1500000000, r.randrange(-1900000000, 1900000000)]))
    if c['spread'] == 800 and c['ds'] >= 2:
        return str(r.choice([r.randrange(0, 1000), r.randrange(300, 500), 320, 330, 331, 321, 769, 770, 771, -r.randrange(0, 50)]))
    lim = 100
    return str(r.choice([r.randrange(0, lim), r.randrange(0, lim), r.choice([9, 10, 11, 19, 20, 59, 60, 99, 100]), -r.randrange(1, 20)]))


def vlen(r, c):
    cap = c['ps'] - c['ks'] - 4
    big = cap * max(1, min(3, c['NV'] - c['E'] - 1))
    return str(r.choice([0, 1, r.randrange(0, cap + 1), r.randrange(0, 9), cap - 4, cap - 8, cap, cap + 1,
                         r.randrange(0, max(1, big)), -1, -1]) if r.random() < 0.8 else r.randrange(0, 12))


def clampv(v, c):
    """variable values must fit in the variable area (capacity minus the block being erased and the current page)"""
    cap = c['ps'] - c['ks'] - 4
    mx = max(0, cap * (c['NV'] - c['E'] - 1) - 8)
    return str(min(int(v), mx))


def put(r, c, i=0, step=None):
    s = step or ('+%d' % r.choice([1, 1, 1, 1, 2, 3]))
    if not c['fl'] & VDATA and r.random() < 0.01:     # calls for variable data on a store without
        return r.choice(['PV %d %s %s 3', 'PV %d %s %s -1', 'IT %d - - 0 0 0 1 0 # %s %s']) % (i, s, d(r, c)) if r.random() < .7 else 'GV %d @%d 0' % (i, r.randrange(4))
    if c['fl'] & VDATA and r.random() < 0.8:
        return 'PV %d %s %s %s' % (i, s, d(r, c), clampv(vlen(r, c), c))
    return 'P %d %s %s' % (i, s, d(r, c))


def bounds(r, c, back=60):
    def tok():
        x = r.random()
        if x < 0.35: return '-'
        if x < 0.45: return '+%d' % r.randrange(0, 4)
        return '@%d' % r.randrange(0, back)
    return tok(), tok()


def hasd(r, c):
    h = r.choice([0, 0, 1, 2, 3, 3])
    a, b = int(d(r, c)), int(d(r, c))
    if r.random() < 0.75 and a > b: a, b = b, a
    return '%d %d %d' % (h, a, b)


def it(r, c, i=0, back=60, dprob=None):
    a, b = bounds(r, c, back)
    h = hasd(r, c)
    return 'IT %d %s %s %s %d %d' % (i, a, b, h, 1 if c['fl'] & VDATA and r.random() < 0.7 else 0, r.choice([0, 0, 1, 3, -1]))


def cap_records(c):
    return (c['N'] - (2 * c['E'] if c['fl'] & RLC else 0)) * c['R']


def gall(r, c, i=0):
    back = min(cap_records(c) + 3 * c['R'], 130)
    return 'GALL %d @%d +3 %d' % (i, back * 2 if r.random() < .2 else back, r.randrange(3))


def gvall(r, c, i=0):
    back = min(cap_records(c) + 2 * c['R'], 60)
    return 'GVALL %d @%d +2 %d' % (i, back, r.choice([0, 0, 1, 5, -2]))


def dup(r, c, i=0):
    s = '@%d' % r.choice([0, 0, 0, 1, 2, 5, 11])
    if c['fl'] & VDATA and r.random() < 0.6:
        return 'PV %d %s %s %s' % (i, s, d(r, c), clampv(vlen(r, c), c))
    return 'P %d %s %s' % (i, s, d(r, c))


def flush_rate(r):
    return r.choice([0, 0, 0.03, 0.1, 0.3])


def reopen(r):
    return r.choice([['CL 0', 'OPEN 0 keep'], ['F 0', 'CL 0', 'OPEN 0 keep'], ['DROP 0', 'OPEN 0 keep'], ['F 0', 'LOSS 0', 'OPEN 0 keep'], [loss(r), 'OPEN 0 keep']])


def loss(r):
    """the power fails, and all files, or only some, lose what was not flushed"""
    return 'LOSS 0 %d' % r.choice([7, 7, 7, 1, 2, 3, 4, 5, 6])


def reopen_x(r, c):
    """as reopen; the index may have been lost"""
    L = reopen(r)
    return L[:-1] + ['RM 0 1'] + L[-1:] if c['fl'] & INDEX and r.random() < .3 else L


def core(r, n=90, reads=0.5, reopens=0.02, dups=0.05, **kw):
    """inserts, flushes, lookups, iterations, wraps, reopens"""
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    if r.random() < 0.3: L += ['GALL 0 0 4 0', 'IT 0 - - 0 0 0 0 0']
    fr = flush_rate(r)
    m = min(n, int(cap_records(c) * 2.6) + 8)
    extra = max(0, m)
    for j in range(extra):
        L.append(put(r, c))
        if r.random() < fr: L.append('F 0')
        if r.random() < dups: L.append(dup(r, c))
        if r.random() < reads:
            x = r.random()
            if x < 0.45: L.append('G 0 @%d' % r.choice([0, 1, r.randrange(0, 2 * cap_records(c) + 2), cap_records(c), r.randrange(0, cap_records(c) + 1)]))
            elif x < 0.6: L.append(it(r, c, back=cap_records(c) + 5))
            elif x < 0.7: L.append('AUD 0')
            elif x < 0.8: L.append(gall(r, c))
            elif c['fl'] & VDATA: L.append(r.choice(['GV 0 @%d %d' % (r.randrange(0, cap_records(c) + 2), r.choice([0, 1, 4, -3])), gvall(r, c)]))
        if r.random() < reopens: L += reopen(r)
    L += ['AUD 0', gall(r, c)]
    for _ in range(3): L.append(it(r, c, back=cap_records(c) + 5))
    if c['fl'] & VDATA: L.append(gvall(r, c))
    return L


def large(r, **kw):
    """pages of hundreds of records"""
    c = config(r, big='huge', vdata=False, rlc=r.random() < .15, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    R = c['R']
    for j in range(int(R * r.choice([0.6, 1.2, 1.7, 2.3]))):
        L.append('P 0 +1 %s' % d(r, c))
        x = r.random()
        if x < 0.02: L.append('P 0 @%d %s' % (r.choice([0, 1, 100, 127, 128, 129, 200, 255, 256, 257, 300, r.randrange(0, R + 1)]), d(r, c)))
        elif x < 0.05: L.append('G 0 @%d' % r.choice([0, 1, 127, 128, 129, 255, 256, 257, r.randrange(0, 2 * R)]))
        elif x < 0.056: L.append(it(r, c, back=2 * R))
        elif x < 0.059: L.append('F 0')
        elif x < 0.062: L += reopen(r)
        elif x < 0.065: L.append('GALL 0 @%d +2 %d' % (r.choice([R // 2, R, 2 * R]), r.randrange(3)))
    L += ['P 0 @%d 1' % r.randrange(0, R), 'AUD 0', 'GALL 0 @%d +2 %d' % (2 * R, r.randrange(3)), it(r, c, back=R)]
    if r.random() < .6: L += ['F 0'] if r.random() < .5 else []
    L += reopen(r) + ['P 0 @0 1', 'AUD 0', 'P 0 +1 1', 'AUD 0', 'GALL 0 @%d +2 %d' % (2 * R, r.randrange(3))]
    return L


def fill_pattern(r, c, m, reads=0.2):
    L = []
    fr = flush_rate(r)
    for j in range(m):
        L.append(put(r, c))
        if r.random() < fr: L.append('F 0')
        if r.random() < reads: L.append(r.choice(['G 0 @%d' % r.randrange(0, cap_records(c) + 2), gall(r, c), it(r, c, back=cap_records(c))]))
    return L


def filt(r, n=70, **kw):
    """filtered iterations against an indexed store"""
    kw.setdefault('index', True)
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    fr = flush_rate(r)
    m = min(n, int(cap_records(c) * 2.6) + 8)
    for j in range(m):
        L.append(put(r, c))
        if r.random() < fr: L.append('F 0')
        if r.random() < 0.2:
            for _ in range(r.choice([1, 3])):
                L.append('IT 0 - - %s 0 0' % hasd(r, c) if r.random() < .7 else it(r, c, back=cap_records(c) + 4))
        if r.random() < 0.04: L += reopen_x(r, c)
    for _ in range(8): L.append('IT 0 - - %s 0 0' % hasd(r, c))
    L.append('AUD 0')
    return L


def after_open(r, c, m=None):
    """what is done after a recovery, run by forked branches"""
    m = m if m is not None else r.choice([1, 2, c['R'] + 1, c['R'] * c['E'] + 2])
    m = min(m, 14)
    L = ['AUD 0', gall(r, c)]
    if c['fl'] & VDATA: L.append(gvall(r, c))
    for j in range(m):
        L.append(put(r, c))
        if r.random() < 0.15: L.append('F 0')
    L += ['F 0', 'AUD 0', gall(r, c), it(r, c, back=cap_records(c))]
    if c['fl'] & VDATA: L.append(gvall(r, c))
    return L


def crash(r, n=40, nx=10, deep=0.3, dups=0.0, **kw):
    """a crash at every storage mutation of several operations, then recovery and continued use"""
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    # what happens after the crash
    L += ['DEF rec', 'OPEN 0 keep'] + after_open(r, c) + ['END']
    # crash inside recovery, recover again; then repeat
    L += ['DEF rec2', 'OPEN 0 keep', 'AUD 0', 'CL 0', 'OPEN 0 keep', 'AUD 0'] + after_open(r, c, 2) + ['END']
    L += ['DEF recx', 'X rec2 20 OPEN 0 keep', 'AUD 0'] + [put(r, c) for _ in range(min(10, c['R'] + 1))] + ['X rec 20 F 0', 'AUD 0', 'END']
    m = min(n, int(cap_records(c) * 2.2) + 2)
    fr = flush_rate(r)
    # block boundaries and wraps are where storage mutations happen: spread crash points over the whole history
    pts = set(r.sample(range(m), min(m, nx)))
    for j in range(m):
        op = put(r, c)
        if r.random() < dups: op = dup(r, c)
        w = '' if j not in pts else ('X %s 12 ' % ('recx' if r.random() < deep else 'rec'))
        L.append(w + op)
        if r.random() < fr:
            L.append(('X rec 12 ' if r.random() < 0.5 else '') + 'F 0')
        if r.random() < 0.06:
            L += r.choice([['DROP 0'], ['CL 0'], ['F 0', 'LOSS 0'], [loss(r)]])
            L += ['X rec2 20 OPEN 0 keep', 'AUD 0']
        if r.random() < 0.1: L.append('AUD 0')
    L += ['B rec'] if False else []
    L += ['F 0', 'AUD 0']
    return L


def power(r, n=40, nx=10, masks=(7, 7, 7, 1, 2, 3, 4, 5, 6), **kw):
    """the power is lost at every storage call of several operations: what was not flushed is gone"""
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    lose = lambda prog, most: 'XL %d %s %d ' % (r.choice(masks), prog, most)
    L += ['DEF rec', 'OPEN 0 keep'] + after_open(r, c) + ['END']
    L += ['DEF rec2', 'OPEN 0 keep', 'AUD 0', 'LOSS 0 %d' % r.choice(masks), 'OPEN 0 keep', 'AUD 0'] + after_open(r, c, 2) + ['LOSS 0 %d' % r.choice(masks), 'OPEN 0 keep', 'AUD 0', 'END']
    L += ['DEF recx', lose('rec2', 20) + 'OPEN 0 keep', 'AUD 0'] + [put(r, c) for _ in range(min(10, c['R'] + 1))] + [lose('rec', 20) + 'F 0', 'AUD 0', 'END']
    m = min(n, int(cap_records(c) * 2.2) + 2)
    fr = flush_rate(r)
    pts = set(r.sample(range(m), min(m, nx)))
    for j in range(m):
        L.append(('' if j not in pts else lose('recx' if r.random() < .3 else 'rec', 16)) + put(r, c))
        if r.random() < fr: L.append((lose('rec', 16) if r.random() < 0.5 else '') + 'F 0')
        if r.random() < 0.06: L += ['LOSS 0 %d' % r.choice(masks)] + [lose('rec2', 20) + 'OPEN 0 keep', 'AUD 0']
        if r.random() < 0.1: L.append('AUD 0')
    return L + ['F 0', 'AUD 0', 'LOSS 0', 'OPEN 0 keep', 'AUD 0']


def boundary(r, n=60, **kw):
    """crash at every insert around page/block/wrap boundaries of one geometry: the operation that writes a page"""
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset', 'DEF rec', 'OPEN 0 keep', 'AUD 0', put(r, c), put(r, c), 'F 0', 'AUD 0', gall(r, c), 'CL 0', 'OPEN 0 keep', 'AUD 0', 'END']
    flushy = r.random() < 0.6
    tot = c['N'] * 2 + c['E'] + 1
    ops = 0
    lo = r.choice([0, 0, c['N'] - c['E'] - 1, c['N']])
    for pg in range(tot):
        if ops > n: break
        k = r.randrange(1, c['R'] + 1) if flushy else c['R']
        k = min(k, 6)
        for q in range(k):
            first = (q == 0)
            L.append(('X rec 10 ' if first and pg >= lo and not flushy else '') + put(r, c))
            ops += pg >= lo
        if flushy:
            L.append(('X rec 10 ' if pg >= lo else '') + 'F 0')
    L.append('AUD 0')
    return L


def fault(r, n=40, nx=8, **kw):
    """every storage call of an operation fails once (or for a while)"""
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    L += ['DEF go', 'AUD 0', gall(r, c), put(r, c), put(r, c), 'F 0', 'AUD 0', gall(r, c)] + ([gvall(r, c)] if c['fl'] & VDATA else []) + \
         ['END', 'DEF gor', 'AUD 0'] + reopen_x(r, c) + ['AUD 0', gall(r, c), put(r, c), put(r, c), 'F 0', 'AUD 0'] + ([gvall(r, c)] if c['fl'] & VDATA else []) + ['CL 0', 'OPEN 0 keep', 'AUD 0', 'END', 'DEF itn', 'AUD 0', 'IN 0 0 2', gall(r, c), 'IN 0 0 500', put(r, c), 'F 0', 'AUD 0', 'END']
    m = min(n, int(cap_records(c) * 2.2) + 2)
    rd = r.choice([0, 0.1, 0.25])
    pts = set(r.sample(range(m), min(m, nx)))
    fr = flush_rate(r)
    for j in range(m):
        op = put(r, c)
        w = '' if j not in pts else ('Y %s %d %d 8 ' % (r.choice(['go', 'go', 'gor']), r.choice([1, 1, 1, 2, 3]), r.choice([7, 2, 4, 1, 6, 15, 8])))
        L.append(w + op)
        if r.random() < fr: L.append(('Y %s 1 %d 8 ' % (r.choice(['go', 'gor']), r.choice([7, 8, 15])) if r.random() < .5 else '') + 'F 0')
        if r.random() < 0.15:
            L.append('Y go %d 1 6 G 0 @%d' % (r.choice([1, 2]), r.randrange(0, cap_records(c) + 1)))
        if c['fl'] & VDATA and r.random() < 0.1:
            L.append('Y go %d 7 8 GV 0 @%d %d' % (r.choice([1, 2]), r.randrange(0, cap_records(c) + 1), r.choice([0, 0, 1, 7])))
        if r.random() < rd: L.append('Y go %d 1 12 %s' % (r.choice([1, 1, 2, 5]), it(r, c, back=cap_records(c)) if r.random() < .7 else 'IT 0 - - 0 0 0 %d 0' % r.choice([0, 1 if c['fl'] & VDATA else 0])))
        if r.random() < rd / 2: L.append('Y go %d 1 10 %s' % (r.choice([1, 2, 3]), gvall(r, c) if c['fl'] & VDATA and r.random() < .6 else gall(r, c)))
        if r.random() < rd:
            L += ['II 0 0 - - %s %d' % ('0 0 0' if r.random() < .7 else hasd(r, c), 1 if c['fl'] & VDATA and r.random() < .5 else 0)] + (['IN 0 0 %d' % r.choice([1, 2, c['R']])] if r.random() < .5 else [])
            L += ['Y itn 1 %d 12 IN 0 0 %d' % (r.choice([1, 1, 7]), r.choice([1, c['R'], 2 * c['R'] + 1, 500]))]
            if r.random() < .5: L += ['Y itn 1 7 10 ' + put(r, c), 'IN 0 0 1']
            L += ['IN 0 0 500']
    L += ['AUD 0', gall(r, c)]
    return L


def iters(r, n=60, **kw):
    """iterators that stay open while the store changes"""
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    m = min(n, int(cap_records(c) * 2.2) + 6)
    L += [put(r, c) for _ in range(r.randrange(0, cap_records(c) + 4))]
    fr = flush_rate(r)
    for j in range(m):
        x = r.random()
        s = r.randrange(3)
        if x < 0.12:
            a, b = bounds(r, c, cap_records(c) + 3)
            if r.random() < .5: a, b = '-', '-'
            L.append('II 0 %d %s %s %s %d' % (s, a, b, hasd(r, c) if r.random() < .5 else '0 0 0', 1 if c['fl'] & VDATA and r.random() < .5 else 0))
        elif x < 0.5:
            L.append('IN 0 %d %d' % (s, r.choice([1, 1, 2, 3, c['R'], 50])))
        elif x < 0.85:
            L.append(put(r, c))
            if r.random() < fr: L.append('F 0')
        elif x < 0.93:
            L.append('G 0 @%d' % r.randrange(0, cap_records(c) + 2))
        elif x < 0.96 and c['fl'] & VDATA:
            L.append('GV 0 @%d 0' % r.randrange(0, cap_records(c) + 2))
        else:
            L.append(it(r, c, back=cap_records(c)))
    for s in range(3): L.append('IN 0 %d 500' % s)
    L.append('AUD 0')
    return L


def multi(r, n=60, **kw):
    """several instances interleaved; each is judged by its own copy of the specification"""
    k = r.choice([2, 2, 3])
    cs = [config(r, **kw) for _ in range(k)]
    L = []
    for i, c in enumerate(cs):
        L += [cfgline(i, c)]
    for i in range(k): L.append('OPEN %d reset' % i)
    for j in range(n):
        i = r.randrange(k)
        c = cs[i]
        x = r.random()
        if x < 0.55: L.append(put(r, c, i))
        elif x < 0.62: L.append('F %d' % i)
        elif x < 0.75: L.append('G %d @%d' % (i, r.randrange(0, cap_records(c) + 2)))
        elif x < 0.82: L.append(it(r, c, i, back=cap_records(c)))
        elif x < 0.86: L.append('II %d %d - - 0 0 0 0' % (i, i * 2 + r.randrange(2)))
        elif x < 0.93: L.append('IN %d %d %d' % (i, i * 2 + r.randrange(2), r.choice([1, 2, 5])))
        elif x < 0.95 and c['fl'] & VDATA: L.append(gvall(r, c, i))
        elif x < 0.97: L += ['CL %d' % i, 'OPEN %d keep' % i]
        else: L.append('AUD %d' % i)
    for i in range(k): L += ['AUD %d' % i, gall(r, cs[i], i)]
    return L


def lookups(r, n=60, **kw):
    """lookups of every key in changing orders, interleaved with other reads: stale buffers, search modes, page estimates"""
    kw.setdefault('vdata', r.random() < 0.2)
    c = config(r, **kw)
    if r.random() < 0.4: c['N'] = c['E'] * r.choice([8, 12, 20, 40])
    c['err'] = r.choice([0, 1, 1, 2, 3, 8, 32])
    L = [cfgline(0, c), 'OPEN 0 reset']
    m = min(int(cap_records(c) * r.choice([0.4, 1.0, 1.7])) + 5, 260)
    fr = flush_rate(r)
    for j in range(m):
        L.append(put(r, c))
        if r.random() < fr: L.append('F 0')
        if r.random() < 0.08: L.append(gall(r, c))
        if r.random() < 0.05: L.append(it(r, c, back=cap_records(c)))
        if c['fl'] & VDATA and r.random() < 0.05: L.append(gvall(r, c))
        for _ in range(r.choice([0, 0, 0, 1, 4])):
            L.append('G 0 @%d' % r.randrange(-2, cap_records(c) + 4))
    back = cap_records(c) + 3 * c['R']
    for mode in (0, 1, 2): L.append('GALL 0 @%d +3 %d' % (min(back * 2, 500), mode))
    for _ in range(20): L.append('G 0 @%d' % r.randrange(0, back))
    L += ['CL 0', 'OPEN 0 keep', 'GALL 0 @%d +3 2' % min(back * 2, 500), put(r, c), 'GALL 0 @%d +3 1' % min(back * 2, 500)]
    return L


def order(r, n=40, **kw):
    """attempts to insert keys that are not ascending at every kind of position"""
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset', 'P 0 0 5'] if r.random() < .3 else [cfgline(0, c), 'OPEN 0 reset']
    L += ['DEF rec', 'OPEN 0 keep', dup(r, c), 'P 0 @0 1', 'P 0 @1 1', put(r, c), 'P 0 @0 3', 'AUD 0', 'F 0', 'P 0 @0 1', 'AUD 0', 'END']
    for j in range(min(n, int(cap_records(c) * 2) + 4)):
        x = r.random()
        L.append(put(r, c))
        if x < 0.2: L.append('F 0')
        elif x < 0.3: L += reopen(r)
        elif x < 0.36: L += ['X rec 6 ' + put(r, c)]
        for _ in range(r.choice([0, 1, 1, 2])): L.append(dup(r, c))
        if r.random() < 0.1: L += ['P 0 %d 7' % r.randrange(0, 5)]
        if r.random() < 0.15: L.append(it(r, c, back=cap_records(c)))
        if r.random() < 0.25: L += ['AUD 0', 'G 0 @0']
        if c['fl'] & VDATA and r.random() < 0.1: L.append(gvall(r, c))
    L += ['F 0', 'P 0 @0 1', 'P 0 @1 1', 'AUD 0', gall(r, c)]
    return L


def iterate(r, n=40, **kw):
    """iterations with every combination of bounds"""
    kw.setdefault('index', r.random() < 0.15)
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset', it(r, c, back=5)]
    m = min(int(cap_records(c) * r.choice([0.2, 0.6, 1.0, 1.6])) + r.randrange(0, 4), 200)
    fr = flush_rate(r)
    v = 1 if c['fl'] & VDATA else 0
    for j in range(m):
        L.append(put(r, c))
        if r.random() < fr: L.append('F 0')
        if r.random() < 0.03: L.append('IT 0 - - 0 0 0 0 0')
        if r.random() < 0.02: L += reopen(r)
    back = cap_records(c) + c['R'] + 3
    if r.random() < .3: L.append('F 0')
    for _ in range(30):
        a, b = r.randrange(-3, back), r.randrange(-3, back)
        if r.random() < 0.8 and a < b: a, b = b, a
        if r.random() < 0.2: b = a
        ta = '-' if r.random() < 0.25 else '@%d' % a
        tb = '-' if r.random() < 0.25 else '@%d' % b
        h = hasd(r, c) if r.random() < 0.5 else '0 0 0'
        L.append('IT 0 %s %s %s %d %d' % (ta, tb, h, v and r.randrange(2), r.choice([0, 0, 1, 3])))
        if r.random() < 0.1: L.append('G 0 @%d' % r.randrange(0, back))
    L.append('AUD 0')
    return L


def wrap(r, n=None, **kw):
    """many laps around a small allocation with different amounts of partially filled pages"""
    kw.setdefault('vdata', r.random() < 0.2)
    c = config(r, **kw)
    while c['R'] > 4:
        c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    laps = r.choice([2, 3, 4])
    pages = min(c['N'] * laps + r.randrange(0, c['N'] + 1), 110)
    full = r.choice([0.0, 0.5, 0.9, 1.0])
    rd = r.choice([0.05, 0.15, 0.4])
    for pg in range(pages):
        if r.random() < full:
            L += [put(r, c) for _ in range(c['R'])]
        else:
            L += [put(r, c) for _ in range(r.randrange(1, c['R'] + 1))]
            L.append('F 0')
        if r.random() < rd: L.append(r.choice(['AUD 0', gall(r, c), 'IT 0 - - 0 0 0 0 0', it(r, c, back=cap_records(c) + 3)]))
        if r.random() < 0.04: L += reopen(r)
    L += ['AUD 0', gall(r, c), 'IT 0 - - 0 0 0 0 0', 'CL 0', 'OPEN 0 keep', put(r, c), 'AUD 0']
    return L


def vardata(r, n=50, roomy=None, reopens=0.0, **kw):
    """variable data of every length relative to the page boundaries, read in chunks of every size"""
    kw['vdata'] = True
    c = config(r, **kw)
    if roomy is None: roomy = r.random() < .5
    c['NV'] = c['E'] * (r.choice([40, 60]) if roomy else r.choice([2, 2, 3, 4, 5]))
    L = [cfgline(0, c), 'OPEN 0 reset']
    cap = c['ps'] - c['ks'] - 4
    fr = flush_rate(r)
    mode = r.randrange(4)
    m = min(n, int(cap_records(c) * 2.2) + 6)
    for j in range(m):
        if mode == 0: v = vlen(r, c)
        elif mode == 1: v = str(r.choice([cap - 4 + r.randrange(-2, 3), cap + r.randrange(-2, 3), 2 * cap - 4 + r.randrange(-2, 3)]))
        elif mode == 2: v = str(r.randrange(0, max(2, cap // 2)))
        else: v = str(r.choice([0, 0, 1, 2, 3, 4, -1, 5, cap * 2 + r.randrange(0, 9)]))
        v = clampv(v if int(v) >= -1 else '0', c)
        if r.random() < 0.1: L.append('P 0 +1 %s' % d(r, c))
        else: L.append('PV 0 +%d %s %s' % (r.choice([1, 1, 2]), d(r, c), v))
        if r.random() < fr: L.append('F 0')
        x = r.random()
        if x < 0.1: L.append('GV 0 @%d %d' % (r.randrange(0, 12), r.choice([0, 1, 2, 5, -1, -7, cap, cap - 4, cap + 1])))
        elif x < 0.17: L.append('GVALL 0 @40 +2 %d' % r.choice([0, 1, 3, -2, cap, cap - 4]))
        elif x < 0.22: L.append('IT 0 - - 0 0 0 1 %d' % r.choice([0, 1, 4, -3, cap]))
        elif x < 0.26: L.append('G 0 @%d' % r.randrange(0, 12))
        elif x < 0.29: L.append(dup(r, c))
        if r.random() < reopens: L += reopen(r)
    L += ['AUD 0', 'GVALL 0 @60 +2 0', 'GVALL 0 @60 +2 -5', 'F 0', 'GVALL 0 @60 +2 %d' % r.choice([1, 3, cap, cap - 4]), 'IT 0 - - 0 0 0 1 1', 'CL 0', 'OPEN 0 keep', 'GVALL 0 @60 +2 0', put(r, c), 'AUD 0']
    return L


def cycles(r, n=8, **kw):
    """crash (or stop) / reopen / insert cycles, reopening repeatedly, as one long history"""
    c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset']
    for y in range(n):
        k = min(r.choice([1, c['R'], c['R'] * c['E'], cap_records(c)]) + r.randrange(0, 3), 40)
        fr = r.choice([0, 0.1, 0.5])
        for j in range(k):
            L.append(put(r, c))
            if r.random() < fr: L.append('F 0')
        if r.random() < .4: L.append('F 0')
        # one crash in the middle of an operation becomes the history: every branch goes on with the next cycles
        L += r.choice([['DROP 0'], ['CL 0'], ['DROP 0'], ['F 0', 'LOSS 0'], [loss(r)]])
        L += ['OPEN 0 keep', 'AUD 0', 'DROP 0', 'OPEN 0 keep', 'AUD 0', gall(r, c)]
        if r.random() < 0.3: L += ['CL 0', 'OPEN 0 keep', 'AUD 0']
        if c['fl'] & VDATA: L.append(gvall(r, c))
        if r.random() < 0.5: L += ['DEF r%d' % y, 'OPEN 0 keep', 'AUD 0', 'DROP 0', 'X z%d 12 OPEN 0 keep' % y, 'AUD 0', put(r, c), put(r, c), 'F 0', 'AUD 0', gall(r, c), 'END',
                                   'DEF z%d' % y, 'OPEN 0 keep', 'AUD 0', put(r, c), 'F 0', 'DROP 0', 'OPEN 0 keep', 'AUD 0', 'END', 'X r%d 12 %s' % (y, put(r, c))]
    L += ['AUD 0', gall(r, c)]
    return L


def configs(r, n=30, **kw):
    """configurations with every field around its limits, then use of the ones that are accepted"""
    c = config(r, **kw)
    fl, e = c['fl'], c['E']
    minb = 4 if fl & (RLC | INDEX) else 2
    need = 2 + (2 if fl & INDEX else 0) + (2 if fl & VDATA else 0)

    def pages(lo):
        return r.choice([e * r.randrange(0, lo + 2), e * lo, e * lo - 1, e * lo + 1, e * (lo - 1), e * (lo + 1), 1, e + 1, r.randrange(0, 12)])

    def around():
        h = header(c)
        lo = 6 + (c['bm'] // 8 if fl & (INDEX | BMAP) else 0) + (2 * c['ks'] + 2 * c['ds'] if fl & MAXMIN else 0)
        return max(0, r.choice([lo, h]) + recsize(c) + r.randrange(-3, 4))
    what = r.choice([[], ['N'], ['NI'], ['NV'], ['E'], ['ks'], ['buf'], ['buf'], ['spl'], ['bm'], ['ps'], ['ps'], ['nofile'], ['noopen'], ['noopen'], ['N', 'E'], ['NI', 'ps'], ['ks', 'ps'], ['ks', 'N'], ['buf', 'N'], ['E', 'NV', 'NI']])
    for w in what:
        if w == 'N': c['N'] = max(0, pages(minb))
        elif w == 'NI': c['NI'] = max(0, pages(2))
        elif w == 'NV': c['NV'] = max(0, pages(2))
        elif w == 'E': c['E'] = r.choice([0, 0, 1, 2, 3, 4, 5, 7])
        elif w == 'ks':
            c['ks'] = r.choice([0, 1, 1, 8, 9, 9, 10, 12, 16])
            if c['ks'] == 1: c['km'], c['kb'], c['kst'] = 'lin', r.choice([0, 1, 60, 127]), 1
            if c['ks'] not in (4, 8): c['cmp'] = 0
        elif w == 'buf': c['buf'] = r.choice([0, 1, 2, 3, 4, 5, 6, 7, need, need - 1, need + 1])
        elif w == 'spl': c['spl'] = r.choice([0, 1, 2, 3, 4, 5, 100])
        elif w == 'bm' and fl & INDEX: c['bm'] = r.choice([0, 8, 16, 64])
        elif w == 'ps': c['ps'] = around()
        elif w == 'noopen': c['noopen'] = r.randrange(1, 8)
        elif w == 'nofile': c['nofile'] = r.randrange(0, 8)
    if fl & VDATA and c['E'] == 1 and c['er'] == 3: c['er'] = 2
    if fl & (INDEX | BMAP): c['ds'] = max(c['ds'], 2 if c['bm'] <= 8 else 4)
    o = dict(c)                     # sizes the operations are chosen with
    o['ps'] = max(c['ps'], c['ks'] + 20); o['R'] = max(1, (c['ps'] - header(c)) // max(1, recsize(c))); o['N'] = max(c['N'], 4)
    if c['ks'] == 1: o['R'] = min(o['R'], 20)
    L = [cfgline(0, c), 'OPEN 0 %s' % r.choice(['reset', 'reset', 'reset', 'reset', 'keep'])]
    if r.random() < .1: L += ['OPEN 0 reset']
    m = min(n, int(cap_records(o) * 2.5) + 5)
    fr = flush_rate(r)
    for j in range(m):
        L.append(put(r, o))
        if r.random() < fr: L.append('F 0')
        if r.random() < .15: L.append(r.choice(['AUD 0', gall(r, o), it(r, o)]))
        if r.random() < .02: L += reopen(r)
    L += ['AUD 0', gall(r, o), it(r, o)]
    if fl & VDATA: L.append(gvall(r, o))
    L += ['F 0'] + reopen(r) + ['P 0 +1 1', 'AUD 0', gall(r, o)]
    if r.random() < .3:     # nothing to keep: has to be refused, and a fresh store has to be possible afterwards
        L += [r.choice(['CL 0', 'DROP 0']), 'RM 0 0', 'OPEN 0 keep', 'OPEN 0 reset', put(r, o), put(r, o), 'F 0', 'AUD 0'] + reopen(r) + ['AUD 0']
    return L


def reconf(r, n=40, **kw):
    """an existing store is opened with configurations that have to be refused, then with others for what lives in memory only"""
    c = config(r, **kw)
    fl, e = c['fl'], c['E']
    minb = 4 if fl & (RLC | INDEX) else 2
    need = 2 + (2 if fl & INDEX else 0) + (2 if fl & VDATA else 0)
    L = [cfgline(0, c), 'OPEN 0 reset']
    m = min(n, int(cap_records(c) * 2.2) + 5)
    fr = flush_rate(r)

    def use(k):
        out = []
        for j in range(k):
            out.append(put(r, c))
            if r.random() < fr: out.append('F 0')
        return out
    L += use(r.choice([0, 1, m]))
    back = 'MOD 0 N=%d E=%d NI=%d NV=%d buf=%d spl=%d ks=%d nofile=0 noopen=0' % (c['N'], e, c['NI'], c['NV'], c['buf'], c['spl'], c['ks'])
    for _ in range(r.choice([1, 2, 3])):
        if r.random() < .5: L.append('F 0')
        L.append(r.choice(['CL 0', 'DROP 0', 'CL 0']))
        for _ in range(r.choice([1, 1, 2])):
            ch = ['E=0', 'buf=%d' % r.randrange(0, need), 'ks=%d' % r.choice([0, 9, 12, 16]), 'N=%d' % r.randrange(0, minb * e), 'nofile=1', 'noopen=1']
            if e > 1: ch += ['N=%d' % (c['N'] + r.randrange(1, e)), 'N=%d' % (c['N'] - r.randrange(1, e))]
            if fl & VDATA:
                ch += ['NV=%d' % r.randrange(0, e), 'nofile=4', 'noopen=4', 'buf=%d' % (need - 1)]
                if e > 1: ch += ['NV=%d' % (c['NV'] + r.randrange(1, e)), 'NV=%d' % (c['NV'] - r.randrange(1, e))]
            if fl & INDEX:
                ch += ['NI=%d' % r.randrange(0, 2 * e), 'nofile=2', 'noopen=2', 'buf=%d' % (need - 1)]
                if e > 1: ch += ['NI=%d' % (c['NI'] + r.randrange(1, e)), 'NI=%d' % (c['NI'] - r.randrange(1, e))]
            if not fl & BIN: ch += ['spl=%d' % r.randrange(0, 4)]
            L += ['MOD 0 ' + r.choice(ch), 'OPEN 0 keep', back]
        if r.random() < .4: L += ['MOD 0 buf=%d' % (need + r.choice([0, 0, 1, 3])), 'MOD 0 spl=%d' % r.choice([4, 5, 8, 30, 100]), 'MOD 0 err=%d' % r.choice([1, 1, 2, 5, 20])]
        L += ['OPEN 0 keep', 'AUD 0', gall(r, c)] + use(r.choice([0, 2, m])) + ['AUD 0', it(r, c, back=cap_records(c))]
        if fl & VDATA: L.append(gvall(r, c))
    L += ['F 0'] + reopen(r) + ['AUD 0', gall(r, c)]
    return L


def aged(r, n=40, **kw):
    """a store whose logical page ids have become large: used, stopped, grown old, used again with crashes"""
    c = config(r, **kw)
    while c['R'] > 3: c = config(r, **kw)
    L = [cfgline(0, c), 'OPEN 0 reset', 'DEF rec', 'OPEN 0 keep'] + after_open(r, c) + ['END']
    full = r.choice([0.5, 0.9, 1.0])

    def pages(k):
        out = []
        for _ in range(k):
            if r.random() < full: out += [put(r, c) for _ in range(c['R'])]
            else: out += [put(r, c) for _ in range(r.randrange(1, c['R'] + 1))] + ['F 0']
            if r.random() < .1: out.append(r.choice(['AUD 0', gall(r, c), it(r, c, back=cap_records(c))]))
        return out
    L += pages(c['N'] + r.randrange(1, 2 * c['E'] + 2))
    L += r.choice([['F 0'], []]) + [r.choice(['CL 0', 'DROP 0'])]
    L += ['AGE 0 %d' % (r.choice([65535, 65536, 65536, 65540, 131072, 1 << 24, 1 << 30, 2147480000, 32768, 256, 1000, 1 << 31, 1 << 31, (1 << 31) + 1000, 3 << 30, (1 << 32) - 9000]) + r.randrange(-2, c['N']))]
    L += ['OPEN 0 keep', 'AUD 0', gall(r, c), 'IT 0 - - 0 0 0 0 0']
    if c['fl'] & VDATA: L.append(gvall(r, c))
    body = pages(min(c['N'] + r.randrange(1, c['N']), 40))
    pts = set(r.sample(range(len(body)), min(6, len(body))))
    for j, l in enumerate(body):
        L.append(('X rec 10 ' if j in pts and l[0] in 'PF' else '') + l)
        if r.random() < .05: L.append('G 0 @%d' % r.randrange(0, cap_records(c) + 2))
        if r.random() < .03: L += ['IT 0 - - %s 0 0' % hasd(r, c)]
        if r.random() < .03: L += reopen_x(r, c)
    L += ['AUD 0', gall(r, c), it(r, c, back=cap_records(c))]
    if c['fl'] & VDATA: L.append(gvall(r, c))
    return L + ['CL 0', 'OPEN 0 keep', 'AUD 0', gall(r, c)]


def stats(r, **kw):
    """any history, with the statistics read (and sometimes reset) in between"""
    f = r.choice([core, core, wrap, filt, vardata, fault, iters, cycles, multi, crash])
    L, out, inside = f(r, **kw), [], False
    for x in L:
        out.append(x)
        w = x.split()
        if w[0] == 'DEF': inside = True
        if w[0] == 'END': inside = False
        elif not inside and w[0] not in ('CFG', 'DEF', 'MOD', 'X', 'XL', 'XJ', 'XJL', 'Y', 'B', 'T', 'CL', 'DROP', 'LOSS', 'RM', 'AGE', 'SAVE', 'LOAD') and r.random() < .25:
            out.append('ST %s%s' % (w[1], ' reset' if r.random() < .1 else ''))
        elif inside and w[0] != 'DEF' and r.random() < .1: out.append('ST %s' % w[1])
    return out + ['ST 0']

"""Behaviours of the design model (spec/EmbedDBDesign.tla): TLC checks a small store exhaustively and prints behaviours, which become driver scripts."""
import random, re
from concurrent.futures import ThreadPoolExecutor
import run

DEF = dict(N=4, E=1, NV=0, R=2, rlc=0, er=1, K0=1, depth=14, crashes=2, L1=0, L2=0, keep=20, mix=0, fl=0, loss=0)


def model(m, seed, wd):
    m = dict(DEF, **m)
    vd = 1 if m['NV'] else 0
    # smallest page that holds R records and its header
    ps = m.get('ps') or 6 + m['R'] * (8 + 4 * vd) + 2
    env = dict(D_N=m['N'], D_E=m['E'], D_NV=m['NV'], D_R=m['R'], D_RLC=m['rlc'], D_VD=vd, D_ER=m['er'], D_PS=ps, D_K0=m['K0'], D_DEPTH=m['depth'], D_CRASHES=m['crashes'],
               D_L1=m['L1'], D_L2=m['L2'], D_MIX=m['mix'], D_LOSS=m['loss'], D_KEEP=m['keep'], D_PICK=seed)
    out, n, rc = run.tlc('EmbedDBDesign.tla', 'EmbedDBDesign.cfg', {k: str(v) for k, v in env.items()}, wd, workers=m.get('workers', 2), timeout=3000)
    if 'No error has been found' not in out: raise run.CheckError('design model %s: %s' % (m, out[-3000:]))
    beh = [(int(a), int(b), o) for a, b, o in re.findall(r'<<\s*"OPS",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out.replace('\n', ' '))]
    m['ps'] = ps
    return m, n, beh


class Script(list):
    """driver lines and the counters the design ends with"""
    expect = None


def script(m, nx, mn, ops, r, audit):
    """driver lines of one behaviour"""
    vd = 1 if m['NV'] else 0
    fl = (16 if vd else 0) | (64 if m['rlc'] else 0) | m['fl']
    spl = 8
    if r.random() < .5: fl |= 128      # without the learned index
    NI = m['N'] if fl & 1 else 0
    L = Script()
    L.append('CFG 0 ks=4 ds=4 ps=%d N=%d E=%d NI=%d NV=%d buf=%d fl=%d spl=%d err=%d bm=8 cmp=0 er=%d km=lin kb=%d kst=%d' % (
        m['ps'], m['N'], m['E'], NI, m['NV'], 2 + 2 * vd, fl, spl, r.choice([0, 1, 2]), m['er'] and r.choice([1, 2]) if not vd else m['er'], m['K0'], 1 if m['K0'] == 0 else r.choice([1, 3])))
    L.append('OPEN 0 reset')
    one = lambda o: 'P 0 +1 ~%d' % r.randrange(99) if o == 'P' else 'PV 0 +1 ~%d %s' % (r.randrange(99), o[1:]) if o[0] == 'V' else 'F 0' if o == 'F' else 'OPEN 0 keep' if o == 'O' else 'DROP 0' if o == 'D' else 'GV 0 @0 %d' % r.choice([1, 5, 64])
    up = True
    for o in ops.strip(';').split(';'):
        if o[0] == 'Y':
            mask, j, w = o[1:].split(' ')
            L.append('XJL %s %s %s' % (mask, j, one(w))); up = False
        elif o[0] == 'L': L.append('LOSS 0 ' + o[1:]); up = False
        elif o[0] == 'X':
            j, w = o[1:].split(' ')
            L.append('XJ %s %s' % (j, one(w))); up = False
        else:
            L.append(one(o))
            up = True if o == 'O' else False if o == 'D' else up
            if up and r.random() < audit: L.append('AUD 0')
    if not up: L.append('OPEN 0 keep')
    else: L.expect = (nx, mn)
    L += ['AUD 0', 'GALL 0 0 %d 0' % (sum(c in 'PV' for c in ops) + 2)]
    if vd: L.append('GVALL 0 0 %d %d' % (sum(c in 'PV' for c in ops) + 2, r.choice([3, 64])))
    return L


def scripts(models, cnt, seed, wd, res):
    with ThreadPoolExecutor(4) as ex: done = list(ex.map(lambda m: model(m, seed, wd), models))
    x = res.extra.setdefault('design_model', dict(module='EmbedDBDesign', models=[], generated=0, distinct=0, behaviours=0, behaviours_replayed=0))
    out = []
    for m, n, beh in done:
        r = random.Random('design-%d-%s' % (seed, sorted(m.items())))
        beh.sort(); r.shuffle(beh)
        k = beh[:cnt]
        x['models'].append({a: b for a, b in m.items() if a not in ('keep', 'mix', 'workers')}); x['generated'] += n[0]; x['distinct'] += n[1]; x['behaviours'] += len(beh); x['behaviours_replayed'] += len(k)
        out += [script(m, a, b, o, r, .15) for a, b, o in k]
    return out

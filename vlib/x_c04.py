"""C04, function level: every supplied bitmap family around every bucket boundary, and the comparators."""
import random
import fn
LEVEL = 'exploration'
EDGE = {8: [-32768, -1, 0, 10, 20, 30, 40, 50, 60, 100, 255, 256, 32767],
        16: [-2 ** 31, -32768, -1, 0] + [320 + 30 * i for i in range(17)] + [32767, 65536, 65856, 2 ** 31 - 1],
        64: [-2 ** 31, -32768, -1, 0, 128, 255, 256] + [320 + 10 * i for i in range(66)] + [32767, 65536, 65856, 2 ** 31 - 1]}
LIM = {8: (-32768, 32767), 16: (-2 ** 31, 2 ** 31 - 1), 64: (-2 ** 31, 2 ** 31 - 1)}


def lines(seed, scale):
    r = random.Random('bm%d' % seed)
    out = []
    for f in (8, 16, 64):
        lo, hi = LIM[f]
        vals = sorted({max(lo, min(hi, e + x)) for e in EDGE[f] for x in (-1, 0, 1)})
        bounds = vals if f == 8 else sorted(set(r.sample(vals, min(len(vals), int(60 * scale ** .5)))) | {lo, hi, 320, 321, vals[-5]})
        for v in vals + [r.randint(lo, hi) for _ in range(60)]:
            for b in ('00' * (f // 8), ''.join('%02x' % r.randrange(256) for _ in range(f // 8))):
                out.append('U %d %d %s' % (f, v, b))
        for a in ['-'] + bounds:
            for b in ['-'] + bounds:
                if a != '-' and b != '-' and a > b and r.random() < .9: continue
                near = [max(lo, min(hi, x + y)) for x in (a, b) if x != '-' for y in (-1, 0, 1)]
                q = near + r.sample(vals, min(len(vals), 14)) + [r.randint(lo if a == '-' else a, hi if b == '-' else b) for _ in range(4) if a == '-' or b == '-' or a <= b]
                out.append('R %d %s %s %s' % (f, a, b, ' '.join(map(str, q))))
    for w in (4, 8):
        def num():
            x = r.random()
            m = 1 << (8 * w - 1)
            if x < .3: return r.choice([0, 1, -1, m - 1, -m, -m + 1, 1 << 31, -(1 << 31), (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 127, 128, 255, 256]) % (2 * m)
            if x < .6: return r.randrange(2 * m)
            return r.randrange(1 << r.randrange(1, 8 * w))
        for _ in range(int(700 * scale ** .5)):
            a = num(); b = a if r.random() < .1 else (a + r.choice([1, -1, 256, 1 << 31])) % (1 << 8 * w) if r.random() < .3 else num()
            out.append('C %d %s %s' % (w, a.to_bytes(w, 'little').hex(), b.to_bytes(w, 'little').hex()))
    return out


def traces(seed, scale, exes=('b', 'ba')):
    L = lines(seed, scale)
    return [(i, exes[(i // 40) % len(exes)], L[i:i + 40]) for i in range(0, len(L), 40)]


def check(res, tier, seed, wd, bd, scale):
    exes = {'b': wd + '/fb/bdrv', 'ba': wd + '/fb/bdrv-asan'}
    fn.compile_driver('bdrv.c', exes['b']); fn.compile_driver('bdrv.c', exes['ba'], asan=True)
    fn.run_traces(res, exes, traces(seed, scale), 'EmbedDBBitmapTrace', wd, 'bitmap', per=4000)

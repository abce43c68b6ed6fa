"""C19: the desktop storage interface against the contract of page storage, with processes killed in between."""
import glob, os, random
import fn
LEVEL = 'fault_enumeration'


def script(r, mock, big, sizes=(4, 16, 31, 64, 100, 512, 512, 1000, 4096, 5000), lim=.12):
    ps = r.choice(sizes) if not big else r.choice([512, 4096, 65536])
    nf = r.choice([1, 1, 2, 3])
    L = ['Q %d %d %d' % (mock, ps, r.randrange(1 << 30))] + ['N %d' % f for f in range(nf)]
    opened, made, top, vid = [0] * nf, [0] * nf, [0] * nf, 1
    limit = r.random() < lim and not big
    n = r.choice([10, 30, 60])
    hurt = 0 if limit else r.choice([0, 0, .15, .4])
    far = [0, 1, 2 ** 31 // ps - 1, 2 ** 31 // ps, 2 ** 32 // ps - 1, 2 ** 32 // ps, 2 ** 32 // ps + 1, 2 ** 33 // ps + 3] if big else []
    far = [x for x in far if x * ps < 2 ** 34 and x < 2 ** 31]
    def page(f):
        if far and r.random() < .5: return r.choice(far)
        x = r.random()
        return r.randrange(0, top[f] + 1) if x < .5 else top[f] if x < .8 else r.randrange(0, 40)
    for j in range(n):
        f = r.randrange(nf)
        if limit and j == n // 2: L.append('L %d' % (ps * r.randrange(0, 30) + r.choice([0, 0, ps // 2])))
        if not opened[f]:
            m = r.choice([0, 1, 1]) if made[f] else r.choice([0, 0, 1])
            L.append('O %d %d' % (f, m))
            if m == 0 or made[f]: opened[f] = made[f] = 1
            if m == 0: top[f] = 0
            continue
        x = r.random()
        if x < .87 and r.random() < hurt: L.append('H %d %d' % (r.choice([0, 0, 0, 1, 5]), r.choice([1, 2, 4, 8, 15])))
        if x < .42:
            p = page(f); L.append('W %d %d %d' % (f, p, vid)); vid += 1
            if hurt and r.random() < .5: L.append('R %d %d' % (f, p))
            if p < 1 << 16: top[f] = max(top[f], p + 1)
        elif x < .72: L.append('R %d %d' % (f, page(f) + r.choice([0, 0, 0, 1])))
        elif x < .78 and not far:
            a = r.randrange(0, top[f] + 1); b = a + r.choice([1, 1, 2, 4])
            L.append('E %d %d %d' % (f, a, b)); top[f] = max(top[f], b)
        elif x < .87: L.append('S %d' % f)
        elif x < .93: L.append(r.choice(['C %d', 'D %d']) % f); opened[f] = 0; L += ['N %d' % f] if L[-1][0] == 'D' else []
        elif x < .97:
            L += ['K'] + ['N %d' % g for g in range(nf)]; opened = [0] * nf
            L.insert(len(L) - nf, L[0])
            limit = False
        else:
            L += ['R %d %d' % (f, p) for p in range(min(top[f] + 2, 45))]
    for f in range(nf):
        if not opened[f] and made[f]: L.append('O %d 1' % f)
        if made[f]: L += ['R %d %d' % (f, p) for p in (far or range(min(top[f] + 2, 45)))]
        if made[f] and r.random() < .5:
            L += ['S %d' % f, 'K', L[0]] + ['N %d' % g for g in range(nf)] + ['O %d 1' % f] + ['R %d %d' % (f, p) for p in (far or range(min(top[f] + 2, 45)))]
            opened = [0] * nf
            opened[f] = 1
    return L


def traces(seed, scale):
    out = []
    for i in range(int(700 * scale)):
        r = random.Random('C19-%d-%d' % (seed, i))
        out.append((i, ('f', 'f', 'f', 'fa', 'fd')[i % 5], script(r, i % 2, i % 9 == 0)))
    return out


def check(res, tier, seed, wd, bd, scale):
    exes = {'f': wd + '/ff/fdrv', 'fa': wd + '/ff/fdrv-asan', 'fd': wd + '/ff/fdrv-dist'}
    wrap = ['-Wl,--wrap=%s' % x for x in ('fread', 'fwrite', 'fflush', 'fseek')]
    lib = sorted(glob.glob(fn.REPO + '/lib/Desktop-File-Interface/*.c'))
    fn.compile_driver('fdrv.c', exes['f'], extra=lib, flags=wrap); fn.compile_driver('fdrv.c', exes['fa'], asan=True, extra=lib, flags=wrap); fn.compile_driver('fdrv.c', exes['fd'], dist=True, extra=lib, flags=wrap)
    sc = wd + '/scratch'
    os.makedirs(sc)
    os.environ['SCRATCH'] = sc
    fn.run_traces(res, exes, traces(seed, scale), 'EmbedDBFilesTrace', wd, 'files', per=4000)

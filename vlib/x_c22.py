"""C22: the SD card and dataflash adapters against the contract of page storage, on simulated devices."""
import os, random, subprocess
import fn, run, x_c19
LEVEL = 'fault_enumeration'
R = fn.REPO


def compile_all(wd):
    st = os.path.join(fn.H, 'stubs')
    os.makedirs(wd + '/fc', exist_ok=True)
    exes = {}
    for name, d, srcs in (('sd', 'SDIF', ['lib/SD-File-Interface/SDFileInterface.c', 'lib/SD-Wrapper/sdcard_c_iface.cpp']),
                          ('df', 'DFIF', ['lib/Dataflash-File-Interface/dataflashFileInterface.c', 'lib/Dataflash-Wrapper/dataflash_c_iface.cpp'])):
        for san in ('', '-fsanitize=address'):
            objs = []
            # the stand-ins come first; the wrapper's other device must be there too for the simulated cards
            other = 'lib/Dataflash-Wrapper/dataflash_c_iface.cpp' if name == 'sd' else 'lib/SD-Wrapper/sdcard_c_iface.cpp'
            for s in [os.path.join(R, x) for x in srcs + [other]] + [st + '/cards.cpp', fn.H + '/fdrv.c']:
                o = wd + '/fc/%s%d%s.o' % (name, len(objs), 'a' if san else '')
                cmd = ['g++' if s.endswith('.cpp') else 'gcc', '-w', '-g', '-O1', '-c', '-DARDUINO' if '/lib/' in s or s.endswith('cards.cpp') else '-D' + d, '-I' + st, '-I' + fn.H] + ([san] if san else [])
                if s.endswith('dataflashFileInterface.c'): cmd += ['-Ddfread=vt_dfread', '-Ddfwrite=vt_dfwrite']
                if s.endswith('.c') and '/lib/' in s: cmd += ['-include', 'stdlib.h', '-include', 'stdio.h']
                cmd += ['-I%s/%s' % (R, i) for i in ('src', 'lib/SD-Wrapper', 'lib/Dataflash-Wrapper', 'lib/SD-File-Interface', 'lib/Dataflash-File-Interface')] + [s, '-o', o]
                q = subprocess.run(cmd, capture_output=True, text=True)
                if q.returncode: raise run.CheckError('driver build failed:\n' + q.stderr[-3000:])
                objs.append(o)
            e = wd + '/fc/' + name + ('a' if san else '')
            q = subprocess.run(['g++'] + ([san] if san else []) + objs + ['-o', e], capture_output=True, text=True)
            if q.returncode: raise run.CheckError('driver build failed:\n' + q.stderr[-3000:])
            exes[name + ('a' if san else '')] = e
    return exes


def df_script(r):
    ps = r.choice([4, 16, 31, 64, 256, 512, 528])
    nf = r.choice([1, 2, 3])
    caps = [r.choice([1, 2, 7, 40]) for _ in range(nf)]
    starts, at = [], r.choice([0, 0, 5, 4000 - sum(caps)])
    for c in caps:
        starts.append(at); at += c
    area = ['A %d %d %d' % (f, starts[f], caps[f]) for f in range(nf)]
    L = ['Q 0 %d %d' % (ps, r.randrange(1 << 30))] + area
    for f in range(nf): L.append('O %d 1' % f)
    vid, hurt = 1, r.choice([0, 0, .2])
    for j in range(r.choice([10, 40, 90])):
        f = r.randrange(nf)
        p = r.choice([r.randrange(0, caps[f]), r.randrange(0, caps[f]), 0, caps[f] - 1, caps[f], caps[f] + 1, 2 ** 31, 2 ** 32 - 1])
        x = r.random()
        if r.random() < hurt: L.append('H %d %d' % (r.choice([0, 0, 1]), r.choice([1, 2, 3])))
        if x < .45: L.append('W %d %d %d' % (f, p, vid)); vid += 1
        elif x < .85: L.append('R %d %d' % (f, p))
        elif x < .9: L.append('S %d' % f)
        elif x < .94: L += ['C %d' % f, 'O %d 1' % f]
        else: L += ['S %d' % g for g in range(nf)] + ['K', L[0]] + area + ['O %d 1' % g for g in range(nf)]
    for f in range(nf): L += ['R %d %d' % (f, p) for p in range(caps[f] + 1)]
    return L


def check(res, tier, seed, wd, bd, scale):
    exes = compile_all(wd)
    T = []
    for i in range(int(600 * scale)):
        r = random.Random('C22-%d-%d' % (seed, i))
        if i % 3 == 2: T.append((i, 'dfa' if i % 12 == 2 else 'df', df_script(r)))
        else: T.append((i, 'sda' if i % 12 == 0 else 'sd', x_c19.script(r, 0, False, (4, 16, 31, 64, 100, 512, 512, 1000, 32767, 32768, 65535), .25)))
    fn.run_traces(res, exes, T, 'EmbedDBFilesTrace', wd, 'cards', per=4000)

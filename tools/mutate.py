#!/usr/bin/env python3
"""mutate.py WORKER NWORKERS SEED COUNT OUT [FILE..]: plants small random changes in original lines of the library (in a scratch copy), keeps those that
compile and pass the stable desktop tests, and shows which of them the generated scripts do not notice.  Not a check: used to find weak spots."""
import collections, json, os, random, re, shutil, subprocess, sys, hashlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(sys.argv[1]); NW = int(sys.argv[2]); SEED = sys.argv[3]; COUNT = int(sys.argv[4]); OUT = sys.argv[5]
FILES = sys.argv[6:] or ['src/embedDB/embedDB.c']
D = '/tmp/mt/w%d' % W
os.environ['REPO'] = D; os.environ['VERIF_JOBS'] = '1'
sys.path.insert(0, os.path.join(H, 'vlib'))
import gen, run, fn, query, x_c12, x_c04
INCF = '-I. -I/usr/share/cmock/vendor/unity/src/ -I src/ -Ilib/EmbedDB-Utility/ -Ilib/Desktop-File-Interface/ -D TEST'.split()
LIBF = {'embedDB': 'src/embedDB/embedDB.c', 'spline': 'src/spline/spline.c', 'embedDBUtility': 'lib/EmbedDB-Utility/embedDBUtility.c', 'desktopFileInterface': 'lib/Desktop-File-Interface/desktopFileInterface.c',
        'schema': 'src/query-interface/schema.c', 'advancedQueries': 'src/query-interface/advancedQueries.c'}
BASE = {x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x.startswith('src/')}
LINE = re.compile(r":\d+:(\w+):(PASS|FAIL|IGNORE)\b")


def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)


def setup():
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + D, shell=True, check=True)
    shutil.rmtree(D + '/data', ignore_errors=True); os.symlink('/repo/data', D + '/data')
    os.makedirs(D + '/o')
    for n, f in LIBF.items(): assert sh(['gcc', '-w', '-c'] + INCF + [f, '-o', 'o/%s.o' % n], cwd=D).returncode == 0, f
    sh(['gcc', '-w', '-c'] + INCF + ['/usr/share/cmock/vendor/unity/src/unity.c', '-o', 'o/unity.o'], cwd=D)
    for s in os.listdir(D + '/test'):
        if s == 'test_advanced_queries': continue
        r = sh(['gcc', '-w', '-c'] + INCF + ['test/%s/%s.cpp' % (s, s), '-o', 'o/t_%s.o' % s], cwd=D); assert r.returncode == 0, r.stderr[-500:]


def tests():
    """passed test ids"""
    ps, got = [], collections.Counter()
    for s in sorted(x for x in os.listdir(D + '/test') if x != 'test_advanced_queries'):
        d = D + '/run/' + s
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/build/artifacts'); os.symlink('/repo/data', d + '/data')
        r = sh(['gcc'] + ['o/%s.o' % n for n in list(LIBF) + ['unity', 't_' + s]] + ['-lm', '-o', d + '/x'], cwd=D)
        if r.returncode: return set()
        ps.append((s, subprocess.Popen(['timeout', '25', 'stdbuf', '-oL', d + '/x'], cwd=d, stdout=open(d + '/log', 'w'), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)))
    ok, bad = set(), set()
    for s, p in ps:
        p.wait(); c = collections.Counter()
        for t, v in LINE.findall(open(D + '/run/' + s + '/log', errors='replace').read()):
            c[t] += 1
            i = 'src/%s/%s' % (s, t) + ('#%d' % c[t] if c[t] > 1 else '')
            (ok if v == 'PASS' else bad).add(i)
    shutil.rmtree(D + '/run', ignore_errors=True)
    return ok - bad


OPS = [('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), (' + 1', ''), (' - 1', ''), (' + ', ' - '), (' - ', ' + '), (' + 1', ' + 2'), (' - 1', ' - 2'),
       ('++', '--'), ('--', '++'), (' += ', ' -= '), (' -= ', ' += '), (' % ', ' / '), ('return 0', 'return -1'), ('return -1', 'return 0'), ('return 1', 'return 0'), ('min(', 'max('), ('max(', 'min('),
       ('NULL', '(void *)1'), ('true', 'false'), ('false', 'true'), (' * ', ' + '), (' 0', ' 1'), (' 1', ' 2'), (' 2', ' 3'), (' 2', ' 1'), (' 3', ' 2'), ('EMBEDDB_DATA_WRITE_BUFFER', 'EMBEDDB_DATA_READ_BUFFER'),
       ('minDataPageId', 'nextDataPageId'), ('nextDataPageId', 'minDataPageId'), ('eraseSizeInPages', 'pageSize'), ('numDataPages', 'nextDataPageId'), ('keySize', 'dataSize'), ('dataSize', 'keySize'), ('currentVarLoc', '0'), ('uint32_t', 'uint16_t'), ('id_t', 'uint16_t'), ('uint32_t', 'uint8_t'), ('uint64_t', 'uint32_t'), ('int64_t', 'int32_t'), ('count_t', 'uint8_t'), ('size_t', 'uint16_t')]


def mutants(path):
    bl = sh(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', path]).stdout.split('\n')
    src = open('/repo/' + path).read().split('\n')
    out, body = [], 0
    for i, l in enumerate(src):
        t = l.strip()
        if not bl[i].startswith('^') or not t or t.startswith(('//', '*', '/*', '#', 'printf', 'return;')) or 'printf' in t or not l.startswith(' '): continue
        if t.endswith(';') and not t.startswith(('return', 'int', 'uint', 'void', 'size_t', 'break', 'continue', 'id_t', 'embedDB', 'const', 'char', 'bool', '}', 'count_t', 'free(', 'float')):
            out.append((i, l, l.replace(t, ';')))
        m = re.match(r'(\s*(?:\} else )?if \()(.*)(\) \{?)$', l)
        if m:
            out.append((i, l, m[1] + '1 || (' + m[2] + ')' + m[3])); out.append((i, l, m[1] + '0 && (' + m[2] + ')' + m[3]))
            for c in ('&&', '||'):
                if c in m[2]:
                    a, b = m[2].split(c, 1)
                    for x in (a.strip(), b.strip()):
                        if x.count('(') == x.count(')'): out.append((i, l, m[1] + x + m[3]))
        if t in ('break;', 'continue;'): out.append((i, l, l.replace(t, ';')))
        for a, b in OPS:
            for q in re.finditer(re.escape(a), l):
                if a.strip() in ('<', '>') and ('->' in l[q.start() - 1:q.end() + 1] or '<<' in l or '>>' in l): continue
                if a.strip() == '-' and l[q.start():q.start() + 2] == '->': continue
                if re.match(r'\w', a[-1]) and q.end() < len(l) and re.match(r'[\w]', l[q.end()]): continue
                if re.match(r'\w', a[0]) and q.start() and re.match(r'[\w]', l[q.start() - 1]): continue
                out.append((i, l, l[:q.start()] + b + l[q.end():]))
    return [(path,) + m for m in dict.fromkeys(out)]


FAM = ['core', 'filt', 'crash', 'boundary', 'fault', 'iters', 'lookups', 'order', 'iterate', 'wrap', 'vardata', 'cycles', 'configs', 'multi', 'large']
CNT = dict(large=.1, crash=.5, fault=.5, boundary=.5)


def detect(path):
    """tags noticed by growing batches of scripts"""
    wd = D + '/d'
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    try:
        if 'query' in path:
            fn.compile_driver('qdrv.c', wd + '/q')
            for rd, n in ((0, 60), (1, 300)):
                class R: pass
                res = R(); res.cov = dict(states=0, transitions=0, traces=0, evaluations=0, distinct=0, ops=collections.Counter()); res.violations = []; res.samples = []
                tr, trees = [], {}
                for i in range(n):
                    l, t = query.script(random.Random('mq%d-%d' % (rd, i)), i % 2)
                    if sum(map(len, l)) < 200000: tr.append((i, 'q', l)); trees[i] = t
                def merge(evs):
                    for e in evs:
                        if e['op'] == 'q': e['tree'] = trees[e['t']][e['s']]
                bad = fn.run_traces(res, {'q': wd + '/q'}, tr, 'EmbedDBQueryTrace', wd, 'q', merge=merge)
                if bad: return sorted({g for c in bad.values() for _, g in c})
            return []
        fn.compile_driver('driver.c', wd + '/drv')
        seen = set()
        for rd, n in ((0, 4), (1, 14), (2, 40)):
            tr, t = [], 0
            for f in FAM:
                for i in range(max(1, int(n * CNT.get(f, 1)))):
                    tr.append((t, getattr(gen, f)(random.Random('mu%d-%s-%d' % (rd, f, i))))); t += 1
            random.Random(rd).shuffle(tr)
            for z in range(0, len(tr), 60):
                j = run.Job('m', wd + '/drv', tr[z:z + 60], wd).run()
                seen = {g for b in j.bad for g in b[3]} - {'KF1', 'var_layout'}
                if seen: return sorted(seen)
        return []
    except run.CheckError as e:
        return ['CHECKERROR ' + str(e)[:100]]


def main():
    setup()
    base = tests()
    assert BASE <= base, sorted(BASE - base)[:5]
    ms = [m for f in FILES for m in mutants(f)]
    r = random.Random(SEED); r.shuffle(ms)
    ms = ms[:COUNT][W::NW]
    out = open(OUT + '.%d' % W, 'a')
    for path, i, old, new in ms:
        src = open('/repo/' + path).read().split('\n')
        assert src[i] == old
        src[i] = new
        open(D + '/' + path, 'w').write('\n'.join(src))
        n = [k for k, v in LIBF.items() if v == path]
        st = 'nocompile'
        if not n or sh(['gcc', '-w', '-c'] + INCF + [path, '-o', 'o/%s.o' % n[0]], cwd=D).returncode == 0:
            st = 'tests' if not BASE <= tests() else None
            if st is None:
                d = detect(path)
                st = 'caught ' + ','.join(d)[:200] if d else 'SURVIVED'
        out.write(json.dumps([path, i + 1, old.strip(), new.strip(), st]) + '\n'); out.flush()
        shutil.copy('/repo/' + path, D + '/' + path)
        if n: sh(['gcc', '-w', '-c'] + INCF + [path, '-o', 'o/%s.o' % n[0]], cwd=D)


main()

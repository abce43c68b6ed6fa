"""Build the drivers from /repo, run scripts, and have TLC judge the recorded events."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class CheckError(Exception):
    pass


def build(out):
    r = subprocess.run(['bash', os.path.join(HERE, 'driver', 'build.sh'), out], capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('driver build failed:\n' + r.stderr[-4000:])


def tlc(spec, cfg, env, workdir, heap='3g', workers=2, extra=(), timeout=800):
    """run TLC; returns (stdout, distinct states)"""
    meta = tempfile.mkdtemp(dir=workdir, prefix='tlc')
    e = dict(os.environ)
    e.update(env)
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss16m', '-cp',
           '/opt/veriftools/tla/tla2tools.jar:' + CM, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [spec]
    r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.stdout)
    n = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return r.stdout, n, r.returncode


def _cm():
    d = '/opt/veriftools/tla'
    return ':'.join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.jar') and f != 'tla2tools.jar')


CM = _cm()


def run_driver(exe, script, out, timeout=300):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1'
    err = open(out + '.err', 'w')
    p = subprocess.Popen([exe, script, out], stdout=subprocess.DEVNULL, stderr=err, env=env, start_new_session=True)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        rc = 'timeout'
    finally:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    err.close()
    if rc != 0:
        raise CheckError('driver ended with %s on %s: %s' % (rc, script, open(out + '.err').read()[-500:]))


def load(out):
    ev = []
    for l in open(out):
        try:
            ev.append(json.loads(l))
        except ValueError:
            raise CheckError('unreadable driver event in %s: %s' % (out, l[:200]))
    return ev


def forest(evs, path):
    """events sorted, renumbered from 1, children listed; events judged in one TLC run"""
    evs.sort(key=lambda e: e['n'])
    ren = {e['n']: i + 1 for i, e in enumerate(evs)}
    kids = {0: []}
    for e in evs:
        kids.setdefault(ren[e['n']], [])
        kids[ren.get(e['p'], 0)].append(ren[e['n']])
    with open(path + '.nd', 'w') as f:
        for e in evs:
            x = dict(e)
            x['c'] = kids[ren[e['n']]]
            f.write(json.dumps(x, separators=(',', ':')) + '\n')
    json.dump(kids[0], open(path + '.roots', 'w'))
    return ren


BADRE = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*\{([^}]*)\}\s*>>')


def judge(evs, path, workers=1, module='EmbedDBTrace'):
    """TLC on the recorded events -> list of (event index, trace id, op, tags), states"""
    if not evs:
        return [], (0, 0)
    forest(evs, path)
    out, n, rc = tlc(module + '.tla', module + '.cfg', {'TRACE': path + '.nd', 'ROOTS': path + '.roots'}, os.path.dirname(path), workers=workers)
    if 'Model checking completed. No error has been found' not in out or n[1] != len(evs) + 1:
        raise CheckError('TLC did not consume all %d events of %s (states %s): %s' % (len(evs), path, n, out[-3000:]))
    flat = out.replace('\n', ' ')
    bad = [(int(a), int(b), c, sorted(x.strip().strip('"') for x in t.split(',')))
           for a, b, c, t in BADRE.findall(flat)]
    if flat.count('"BAD"') != len(bad):
        raise CheckError('unparsed BAD lines: ' + out[-2000:])
    return bad, n


class Job:
    """a batch of traces run by one driver process and judged by one TLC process"""
    def __init__(self, ident, exe, traces, wd):
        self.id, self.exe, self.traces, self.wd = ident, exe, traces, wd   # traces: [(trace id, lines)]

    def run(self):
        p = os.path.join(self.wd, 'j%s' % self.id)
        with open(p + '.scr', 'w') as f:
            for t, lines in self.traces:
                f.write('T %d\n' % t + '\n'.join(lines) + '\n')
        t0 = time.time()
        run_driver(self.exe, p + '.scr', p + '.out')
        self.t_drv = time.time() - t0
        self.evs = load(p + '.out')
        self.nev = len(self.evs)
        self.ops = {}
        for e in self.evs:
            self.ops[e['op']] = self.ops.get(e['op'], 0) + 1
        t0 = time.time()
        self.bad, self.states = judge(self.evs, p)
        self.t_tlc = time.time() - t0
        self.stderr = open(p + '.out.err').read()
        for x in ('.scr', '.nd', '.roots', '.out', '.out.err'):
            try: os.unlink(p + x)
            except OSError: pass
        return self


def run_jobs(jobs, nproc=NPROC):
    with ThreadPoolExecutor(nproc) as ex:
        return list(ex.map(lambda j: j.run(), jobs))


def batches(exe, traces, wd, k, prefix=''):
    out = [[] for _ in range(k)]
    for i, t in enumerate(traces):
        out[i % k].append(t)
    return [Job('%s%d' % (prefix, i), exe, b, wd) for i, b in enumerate(out) if b]

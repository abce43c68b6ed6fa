"""Function-level checks: a small driver records events, TLC judges them with the module given."""
import collections, glob, os, subprocess
import run

REPO = os.environ.get('REPO', '/repo')
H = os.path.join(run.HERE, 'driver')
LIB = [os.path.relpath(x, REPO) for d in ('src/*', 'lib/EmbedDB-Utility') for x in sorted(glob.glob('%s/%s/*.c' % (REPO, d)))]
MEM = ['-D%s=lib_%s' % (x, x) for x in ('malloc', 'calloc', 'realloc', 'free')]   # memory is accounted for, see driver/mem.h
INC = ['', 'src', 'lib/EmbedDB-Utility', 'lib/Desktop-File-Interface']


def compile_driver(drv, out, asan=False, dist=False, extra=(), flags=()):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ['gcc', '-w', '-g', '-O1', '-fno-omit-frame-pointer'] + (['-fsanitize=address'] if asan else []) + (MEM if drv in ('driver.c', 'qdrv.c') else []) + list(flags) + ['-I' + H]
    if dist:
        cmd += ['-DDIST', '-DDISTB', '-I%s/lib/Distribution' % REPO, '-I%s/lib/Desktop-File-Interface' % REPO, os.path.join(H, drv), REPO + '/lib/Distribution/embedDB.c']
    else:
        cmd += ['-I' + os.path.join(REPO, i) for i in INC] + [os.path.join(H, drv)] + [os.path.join(REPO, s) for s in LIB]
    cmd += [os.path.join(REPO, s) for s in extra] + ['-lm', '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise run.CheckError('driver build failed:\n' + r.stderr[-4000:])
    return out


class FJob:
    def __init__(self, ident, exe, traces, wd, module, merge=None):
        self.id, self.exe, self.traces, self.wd, self.module, self.merge = ident, exe, traces, wd, module, merge

    def run(self):
        p = os.path.join(self.wd, 'f%s' % self.id)
        with open(p + '.scr', 'w') as f:
            for t, lines in self.traces:
                f.write('T %d\n' % t + '\n'.join(lines) + '\n')
        run.run_driver(self.exe, p + '.scr', p + '.out')
        self.evs = run.load(p + '.out')
        self.nev = len(self.evs)
        self.ops = collections.Counter(e['op'] for e in self.evs)
        if self.merge:
            self.merge(self.evs)
        self.bad, self.states = run.judge(self.evs, p, module=self.module)
        for x in ('.scr', '.nd', '.roots', '.out', '.out.err'):
            try: os.unlink(p + x)
            except OSError: pass
        return self


def run_traces(res, exes, traces, module, wd, name, merge=None, per=400, tags=None):
    """traces: [(id, exe name, lines)]; exes: name -> path"""
    by = {t: (x, l) for t, x, l in traces}
    jobs = []
    for x in exes:
        mine = [(t, l) for t, e, l in traces if e == x]
        k = max(1, min(run.NPROC, len(mine)))
        bs = [mine[i::k] for i in range(k)]
        for b in bs:
            for q in range(0, len(b), per):
                if b[q:q + per]:
                    jobs.append(FJob('%s-%s-%d' % (name, x, len(jobs)), exes[x], b[q:q + per], wd, module, merge))
    bad = collections.defaultdict(collections.Counter)
    for j in run.run_jobs(jobs):
        res.cov['states'] += j.states[1]
        res.cov['transitions'] += j.nev
        res.cov['traces'] += len(j.traces)
        res.cov['ops'].update(j.ops)
        for node, t, op, tg in j.bad:
            for g in tg:
                if tags is None or g in tags: bad[t][(op, g)] += 1
    res.cov['evaluations'] += len(traces)
    res.cov['distinct'] += len({'\n'.join(l) for _, _, l in traces})
    for t in sorted(bad)[:40]:
        x, lines = by[t]
        res.violations.append(('%s trace %d (%s): %s' % (name, t, x, ', '.join('%s/%s x%d' % (o, g, c) for (o, g), c in bad[t].most_common(6))),
                               '# driver %s\nT %d\n' % (x, t) + '\n'.join(lines) + '\n'))
    if traces:
        res.samples.append({'family': name, 'script': [l[:300] for l in traces[0][2][:20]]})
    return bad

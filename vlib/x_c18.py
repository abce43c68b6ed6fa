"""C18: the single-file distribution and the library take the same steps on the same histories.

Every script runs on the library, on the distribution, and (for stores that are closed and reopened) alternately on
both, the storage images going from one to the other at every reopening.  TLC judges the alternating run with the
store specification, and that the observable steps of all runs are the same."""
import collections, os, random
import big, fn, gen, run, query, x_c04, x_c12
LEVEL = 'exploration'
MF = {'bulk': fn.MEM}
HIDDEN = ('n', 'p', 't', 'c', 'mu', 'nx', 'mn')   # what is compared: calls and their results, not how storage was used


def plain(lines):
    """crash enumeration and branches depend on the order of storage calls, which may differ: leave them out"""
    out, skip = [], False
    for l in lines:
        if l.startswith('DEF '): skip = True
        if not skip:
            w = l.split(' ')
            if w[0] == 'X': l = ' '.join(w[3:])
            if w[0] == 'XL': l = ' '.join(w[4:])
            if w[0] not in ('B', 'Y'): out.append(l)
        if l == 'END': skip = False
    return out


def split(lines, most=5):
    """at the reopenings"""
    segs = [[]]
    for i, l in enumerate(lines):
        if l.startswith('OPEN 0 keep') and i > 1 and len(segs) < most and lines[i - 1].split(' ')[0] in ('CL', 'DROP', 'LOSS'):
            segs[-1].append('SAVE 0'); segs.append([lines[0], 'LOAD 0'])
        segs[-1].append(l)
    return segs


def view(e):
    return {k: v for k, v in e.items() if k not in HIDDEN}


class TJob:
    def __init__(self, ident, wd, traces, exes, twin):
        self.id, self.wd, self.traces, self.exes, self.twin = ident, wd, traces, exes, twin

    def exec(self, exe, p, traces):
        with open(p + '.scr', 'w') as f:
            for t, lines in traces: f.write('T %d\n' % t + '\n'.join(lines) + '\n')
        run.run_driver(exe, p + '.scr', p + '.out')
        ev = collections.defaultdict(list)
        for e in sorted(run.load(p + '.out'), key=lambda e: e['n']): ev[e['t']].append(e)
        for x in ('.scr', '.out', '.out.err'): os.unlink(p + x)
        return ev

    def run(self):
        p = os.path.join(self.wd, 'tw%s' % self.id)
        a, b = self.exec(self.exes[0], p, self.traces), self.exec(self.exes[1], p, self.traces)
        self.bad, self.states, self.nev, self.ops = [], 0, 0, collections.Counter()
        cmp = [('results', a, b)]
        if self.twin:
            os.environ['IMGDIR'] = self.wd + '/img'
            tw, parts = collections.defaultdict(list), {t: split(l) for t, l in self.traces}
            for s in range(max(len(x) for x in parts.values())):
                # the library starts on even traces, the distribution on odd ones
                for h in (0, 1):
                    mine = [(t, x[s]) for t, x in parts.items() if len(x) > s and (s + t) % 2 == h]
                    for t, evs in (self.exec(self.exes[h], p, mine) if mine else {}).items():
                        if s and tw[t] and tw[t][-1]['op'] == 'died': continue
                        tw[t] += evs if s == 0 else [e for e in evs if e['op'] != 'cfg']
            n, allev = 0, []
            for t in sorted(tw):
                prev = 0
                for e in tw[t]:
                    n += 1; e['n'], e['p'] = n, prev; prev = n
                    allev.append(dict(e))
            bad, st = run.judge(allev, p)
            self.bad += [(x[1], x[2], g) for x in bad for g in x[3] if g not in ('KF1', 'var_layout')]
            self.states += st[1]; self.nev += len(allev)
            cmp.append(('images', a, tw))
        evs = []
        for what, x, y in cmp:
            for t, _ in self.traces:
                prev = 0
                for i in range(max(len(x[t]), len(y[t]))):
                    u, v = x[t][i] if i < len(x[t]) else None, y[t][i] if i < len(y[t]) else None
                    gone = u is None or v is None
                    e = dict(n=len(evs) + 1, p=prev, t=t, op=(u or v)['op'], what='missing' if gone or u['op'] != v['op'] else what, x=view(u or v), y=view(v or u))
                    evs.append(e); prev = e['n']
                    if gone or 'died' in (u['op'], v['op']): break
        self.ops.update(e['op'] for e in evs)
        bad, st = run.judge(evs, p, module='EmbedDBTwin')
        self.states += st[1]; self.nev += len(evs)
        self.bad += [(x[1], x[2], g) for x in bad for g in x[3]]
        for x in ('.nd', '.roots'): os.unlink(p + x)
        return self


FAMS = [('core', 130, {}), ('cycles', 90, {}), ('filt', 110, {}), ('wrap', 60, {}), ('vardata', 60, dict(reopens=.05)), ('lookups', 50, {}), ('iters', 60, {}), ('multi', 30, {}),
        ('iterate', 40, {}), ('configs', 90, {}), ('reconf', 60, {}), ('aged', 30, {}), ('large', 12, {})]


def check(res, tier, seed, wd, bd, scale):
    os.makedirs(wd + '/img')
    run.build(bd)
    exes = {'store': (bd + '/drv', bd + '/drv-dist')}
    for k, d in (('query', 'qdrv.c'), ('spline', 'sdrv.c'), ('bitmap', 'bdrv.c'), ('bulk', 'gdrv.c')):
        exes[k] = (wd + '/e/' + k, wd + '/e/' + k + '-dist')
        fn.compile_driver(d, exes[k][0], flags=MF.get(k, ())); fn.compile_driver(d, exes[k][1], dist=True, flags=MF.get(k, ()))
    T, t = collections.defaultdict(list), 0
    for fi, (fam, cnt, kw) in enumerate(FAMS):
        for i in range(int(cnt * scale)):
            r = random.Random('C18-%d-%s-%d' % (seed, fam, i))
            T['multi' if fam in ('multi', 'iters') else 'store'].append((t, plain(getattr(gen, fam)(r, **kw)))); t += 1
    for i in range(int(1400 * scale)):
        lines, _ = query.script(random.Random('C18q-%d-%d' % (seed, i)), i % 3)
        if sum(len(l) for l in lines) < 200000: T['query'].append((t, lines)); t += 1
    for i in range(int(150 * scale)):
        T['spline'].append((t, x_c12.script(random.Random('C18s-%d-%d' % (seed, i)), False))); t += 1
    for _, _, lines in x_c04.traces(seed, scale * .2):
        T['bitmap'].append((t, lines)); t += 1
    for shape, cnt in (('medium', 24), ('bigpage', 12), ('bigblock', 8), ('index', 8), ('longvar', 10), ('points', 6), ('pages', 4)):
        for i in range(int(cnt * scale)):
            L = big.script(random.Random('C18b-%s-%d-%d' % (shape, seed, i)), shape)
            T['bulk'].append((t, ['P ' + l.split(' ', 2)[2] if l[0] == 'X' else l for l in L])); t += 1
    jobs, by = [], {}
    for k in T:
        n = max(1, min(run.NPROC, len(T[k])))
        for q in range(n):
            part = T[k][q::n]
            for z in range(0, len(part), 150):
                jobs.append(TJob(len(jobs), wd, part[z:z + 150], exes['store' if k == 'multi' else k], k == 'store'))
        by.update({t: (k, l) for t, l in T[k]})
    bad = collections.defaultdict(collections.Counter)
    for j in run.run_jobs(jobs):
        res.cov['states'] += j.states; res.cov['transitions'] += j.nev; res.cov['traces'] += len(j.traces); res.cov['ops'].update(j.ops)
        for t, op, g in j.bad: bad[t][(op, g)] += 1
    res.cov['evaluations'] += len(by); res.cov['distinct'] += len({'\n'.join(l) for _, l in by.values()})
    for t in sorted(bad)[:40]:
        k, l = by[t]
        # a fault both builds share is not a difference between them
        if not any(g in ('results_differ', 'steps_differ', 'image_not_shared') for _, g in bad[t]): continue
        res.violations.append(('%s trace %d: %s' % (k, t, ', '.join('%s/%s x%d' % (o, g, c) for (o, g), c in bad[t].most_common(6))), '# driver %s and %s-dist\nT %d\n' % (k, k, t) + '\n'.join(l) + '\n'))
    res.samples.append({'family': 'core', 'script': by[0][1][:30]})

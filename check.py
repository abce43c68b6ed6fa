#!/usr/bin/env python3
"""check.py PROPERTY : run the scenarios of one property against the code in /repo and let TLC judge them.

Exit 0: the property held on everything explored.  Exit 1: a line
VIOLATION property=<id> replay=<path>.  Anything else: the check itself failed."""
import collections, json, os, random, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vlib'))
import big, design, gen, run
from plan import PLAN


class Result:
    """what a check covered and found"""
    def __init__(self, pid):
        self.pid = pid
        self.violations = []          # (description, replay text)
        self.known = collections.Counter()
        self.cov = dict(states=0, transitions=0, traces=0, evaluations=0, distinct=0, ops=collections.Counter())
        self.samples = []
        self.notes = []
        self.extra = {}


def known_findings():
    out = {}
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('KNOWN '):
            _, tag, prop, text = l.split(' ', 3)
            out[tag] = (prop.split('=')[1].split(','), text)
    return out


def store_check(pid, res, tier, seed, wd, bd, scale):
    plan = PLAN[pid]
    jobs, bytrace, tid = [], {}, 0
    k = run.NPROC
    batches = collections.defaultdict(lambda: [[] for _ in range(k)])
    n = 0
    for ri, (exe, fam, cnt, kw) in enumerate(plan['runs']):
        if fam == 'design': made = design.scripts(kw['models'] if tier == 'quick' else kw['deep'], int(cnt * scale), seed, wd, res)
        else: made = (getattr(gen, fam)(random.Random('%s-%d-%d-%d' % (pid, seed, ri, i)), **kw) for i in range(int(cnt * scale)))
        for lines in made:
            bytrace[tid] = (exe, fam, lines)
            batches[exe][n % k].append((tid, lines))
            tid += 1; n += 1
    out = []
    for exe in batches:
        per = max(1, 400 if tier == 'quick' else 60)      # traces per TLC run
        for b in batches[exe]:
            for q in range(0, len(b), per):
                out.append(run.Job('%s%d' % (exe, len(out)), os.path.join(bd, exe), b[q:q + per], wd))
    random.Random(seed).shuffle(out)
    bad = collections.defaultdict(list)
    known = known_findings()
    agree = collections.Counter()
    for j in run.run_jobs(out):
        res.cov['states'] += j.states[1]
        res.cov['transitions'] += j.nev
        res.cov['traces'] += len(j.traces)
        res.cov['ops'].update(j.ops)
        for t, lines in j.traces:
            if getattr(lines, 'expect', None):
                a = [e for e in j.evs if e['t'] == t and e['op'] == 'gall']
                agree[bool(a) and (a[-1]['nx'], a[-1]['mn']) == lines.expect] += 1
        for node, t, op, tags in j.bad:
            for x in tags:
                if x in known:
                    if pid in known[x][0]: res.known[x] += 1
                elif x in plan['tags']:
                    bad[t].append((op, x))
    if agree: res.extra['design_model']['behaviours_ending_with_the_counters_of_the_design'] = '%d of %d' % (agree[True], sum(agree.values()))
    res.cov['evaluations'] += res.cov['traces']
    res.cov['distinct'] += len({'\n'.join(v[2]) for v in bytrace.values()})
    for t in sorted(bad)[:1] + sorted(bad)[1:40]:
        exe, fam, lines = bytrace[t]
        tags = collections.Counter(bad[t])
        if set(x for _, x in bad[t]) <= {'died'} and not confirm(exe, lines, wd, bd, plan['tags']):
            res.notes.append('trace %d: died once, not reproduced' % t)
            continue
        res.violations.append(('%s trace %d (%s): %s' % (fam, t, exe, ', '.join('%s/%s x%d' % (o, x, c) for (o, x), c in tags.most_common(6))),
                               '# driver %s\n' % exe + 'T %d\n' % t + '\n'.join(lines) + '\n'))
    if bytrace:
        a = bytrace[min(bytrace)]
        res.samples.append({'family': a[1], 'script': a[2][:30]})


def confirm(exe, lines, wd, bd, tags):
    j = run.Job('confirm', os.path.join(bd, exe), [(1, lines)], wd).run()
    return any(set(x[3]) & tags for x in j.bad)


def special(pid):
    try:
        import importlib
        return importlib.import_module('x_' + pid.lower())
    except ModuleNotFoundError as e:
        if e.name != 'x_' + pid.lower(): raise
        return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = 1.0 if tier == 'quick' else float(os.environ.get('VERIF_SCALE', '12'))
    t0 = time.time()
    res = Result(pid)
    wd = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        bd = os.path.join(wd, 'b')
        m = special(pid)
        if pid in PLAN:
            run.build(bd)
            store_check(pid, res, tier, seed, wd, bd, scale)
            if 'big' in PLAN[pid]: big.check(res, seed, wd, PLAN[pid]['tags'], PLAN[pid]['big'], pid, scale)
        if m: m.check(res, tier, seed, wd, bd, scale)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    wall = time.time() - t0
    level = PLAN[pid]['level'] if pid in PLAN else m.LEVEL
    c = res.cov
    cov = dict(evaluations=c['evaluations'], distinct_nontrivial=c['distinct'],
               rule='a case is one generated script (configuration and operations), or one tuple of inputs for the function-level specifications; counted as distinct by its text',
               samples=res.samples[:4] or ['none'], states=c['states'], transitions=c['transitions'],
               traces_validated_against_impl=c['traces'], operations=dict(c['ops']))
    cov.update(res.extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=len(res.violations),
              assumptions=['storage device model of driver/driver.c: page writes and erases are atomic and ordered, a crash keeps a prefix of them', 'TLC evaluates the TLA+ specification correctly'] + res.notes)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    kf = known_findings()
    for tag in sorted(res.known):
        print('KNOWN-FINDING: property=%s %s (%d observations)' % (pid, kf[tag][1], res.known[tag]))
    print('%s %s: %d scripts, %d events judged by TLC, %.1f s' % (pid, tier, c['evaluations'], c['transitions'], wall))
    if not res.violations:
        return 0
    rd = os.path.join(HERE, 'out', pid)
    os.makedirs(rd, exist_ok=True)
    for i, (what, text) in enumerate(res.violations[:10]):
        path = os.path.join(rd, 'replay-%d.txt' % i)
        open(path, 'w').write('# %s\n# %s\n%s' % (pid, what, text))
        print('  ' + what)
        if i == 0: first = path
    print('VIOLATION property=%s replay=%s' % (pid, first))
    return 1


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)

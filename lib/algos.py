"""C20 (and the algorithm side of C05, C06, C21): what passes between the algorithm and its components, judged by algo.qnt."""
import copy
from run import *
import points, worlds

def options(c, rng, tight=False):
    o = opts_of(c, abs_tol=rng.choice([1e-6, 1e-8, 1e-4, 1e-10]))
    S = lambda n, x: o.__setitem__(IX[n], float(x))
    if rng.random() < .6: S('beta', rng.choice([.5, .1, .75, .9, .99, .3]))
    if rng.random() < .6: S('eta', rng.choice([1e-8, 1e-12, .1, .25, .4, .499]))
    if rng.random() < .6: S('max_linesearch_iters', rng.choice([1, 2, 3, 5, 12, 20]))
    S('nonmonotone_linesearch', rng.random() < .5)
    if rng.random() < .3: S('max_inner_iters', rng.choice([1, 2, 3, 6, 10]))
    if tight or rng.random() < .3: S('max_newton_iters', rng.choice([1, 2, 3, 5, 8, 13]))
    if rng.random() < .2: S('max_prox_iters', rng.choice([1, 2, 3]))
    if rng.random() < .4: S('delta', rng.choice([.001, .05, .5, .99]))
    if rng.random() < .4: S('inner_tol_max', rng.choice([1e-8, 1e-3, 1., 100.]))
    if rng.random() < .3: S('inner_tol_min', rng.choice([1e-14, 1e-10, 1e-6, 1e-2]))
    S('inner_tol_max', max(o[IX['inner_tol_max']], o[IX['inner_tol_min']]))
    if rng.random() < .5:
        s = rng.choice([1e-6, 1e-4, 1e-2, 1., .1]); S('sigma_max', max(s, 1e-6)); S('sigma0', s)
    S('sigma_max', max(o[IX['sigma_max']], o[IX['sigma0']])); S('sigma_min', min(o[IX['sigma_min']], o[IX['sigma0']]))
    S('check_feasibility', rng.random() < .75)
    return o

CLEAN = dict(fi=0, fs=0, fa=0, fv=0, f=[])

def plan(rng, fail=.08):
    p = dict(fi=0, fs=0, fa=0, fv=0, f=[])
    t = rng.random()
    if t < fail: p['fi'] = rng.choice([1, 1, 2, 3, 5])
    elif t < 2 * fail: p['fs'] = rng.choice([1, 2, 3, 5])
    elif t < 2 * fail + .1: p['fa'] = rng.choice([1, 1, 2, 3]); p['fv'] = rng.choice([0, 1, 2, 3, 3])
    t = rng.random()
    if t < .7:
        m = rng.choice([[1.0], [1.0, 1.0, 3.0], [1.0, 8.0, .25, 3.0], [.25, .5], [1.0, -1.0], [1.0, 30.0, -.125, 2.0], [1.875, 1.9375, 1.99]])
        p['f'] = [rng.choice(m) for _ in range(rng.choice([3, 8, 20]))]
    return p

def cmd(slot, cid, p, g):
    return 'S %d %d %d %d %d %d %s ' % (slot, cid, p['fi'], p['fs'], p['fa'], p['fv'], vec(p['f'])) + ' '.join(vec(x) for x in g)

def events(c, o, g, r):
    ix = lambda n: o[IX[n]]
    D = fv([ix(n) for n in ('alpha', 'beta', 'eta', 'delta', 'abs_tol', 'rel_tol', 'stall_tol', 'infeas_tol', 'inner_tol_max', 'inner_tol_min', 'sigma0')]) + fv(flat(g[:3]))
    ev = [([1] + [int(ix(n)) for n in ('max_newton_iters', 'max_prox_iters', 'max_inner_iters', 'max_linesearch_iters', 'check_feasibility', 'nonmonotone_linesearch')] + prob_ints(c), D)]
    for e in r['ev']: ev.append(([e['t'], e['a'], e['b']], fv(e['d'])))
    ev.append(([4, r['exc'], r['flag'], r['newton'], r['prox'], r['untouched']], fv(r['res'] + flat([r[k] for k in 'zlvy']))))
    return ev

def same(a, b): return int(all(a[k] == b[k] for k in ('exc', 'flag', 'newton', 'prox', 'res', 'z', 'l', 'v', 'y', 'ev')))

def judge(run, b, jobs, wanted, crash=None):
    """Each job: a solve under its plan, then an undisturbed one on the same object and on a fresh one."""
    def verdict(js):
        def group(j):
            o = ' '.join(map(num, j['o'])); clean = cmd(1, 0, CLEAN, j['g'])
            return [cmd_case(0, j['c']), 'A 0 0', 'O 0 ' + o, cmd(0, 0, j['p'], j['g']), 'A 1 0', 'O 1 ' + o, cmd(0, 0, CLEAN, j['g']), clean]
        rs = run_driver(b, [group(j) for j in js], run.d, 'al')
        evs = []; ix = []; out = {}
        for i, (j, r) in enumerate(zip(js, rs)):
            j['rec'] = None
            if r[-1].get('k') != 'S':
                if crash: out[i] = ([crash], r[-1])
                continue
            j['rec'] = r[3]
            e = events(j['c'], j['o'], j['g'], r[3])[:120]
            e.append(([5, same(r[6], r[7])], []))
            if j.get('more'): e += events(j['c'], j['o'], j['g'], r[6])[:120]
            evs.append(e); ix.append(i)
        bad = validate(run.d, 'algo', evs, shard=200, stateful=True)
        k = 0; base = []
        for e in evs: base.append(k); k += len(e)
        import bisect
        for g, codes in sorted(bad.items()):
            w = [c for c in codes if c // 100 in wanted or c in wanted]
            t = bisect.bisect_right(base, g) - 1; i = ix[t]
            if w and i not in out:
                r = js[i]['rec']
                out[i] = (w, dict(event=g - base[t], of=len(evs[t]), flag=r['flag'], exc=r['exc'], newton=r['newton'], prox=r['prox'], options=js[i]['o'], plan=js[i]['p']))
        return out, k
    bad, n = verdict(jobs)
    run.evals += n
    run.nontriv += sum(1 for j in jobs if j['rec'] and j['rec']['newton'] >= 2)
    run.samples += [dict(options=j['o'], plan=j['p'], flag=j['rec']['flag'], newton=j['rec']['newton'], prox=j['rec']['prox']) for j in jobs[:1] if j['rec']]
    if bad:
        ids = sorted(bad)[:20]
        b2, _ = verdict([jobs[i] for i in ids])
        for k, i in enumerate(ids):
            if k in b2: run.reject(b2[k][0], b2[k][1], dict(case=jobs[i]['c'], options=jobs[i]['o'], plan=jobs[i]['p'], guess=jobs[i]['g']))

RULE = 'recorded runs of the algorithm over its components (directions distorted, components made to fail, small budgets), every event judged by algo.qnt'
BUDGET = {2009, 2012, 2016, 2017, 2020, 2021, 2023, 2024}

def extra(run, k, n, wanted, fail=.08, tight=False, more=False, crash=None):
    """A round of algorithm runs for a property decided mainly elsewhere."""
    b = driver(run)
    if RULE not in run.rules: run.rules.append(RULE)
    if not b: return
    cs = points.gen(run, 900 + k, n, '[0, 0, 1, 1, 2, 3, 5]', budgets=0, maxz=4, kinds='[0, 0, 1]')
    judge(run, b, [dict(c=c, o=options(c, run.rng, tight), p=plan(run.rng, fail), g=guess_of(c), more=more) for c in cs], wanted, crash)

def driver(run):
    b = build('algo', 'algo.cc', need=False)
    if b is None and not any('template' in a for a in run.assume): run.assume.append('the algorithm template changed: driver does not build, nothing judged')
    return b

def C20(run):
    worlds.check(run, ['Line', 'Window'], {2091})
    b = driver(run)
    run.rules.append('dense and MPC problems, options varied over line search, tolerances and budgets, directions distorted and components made to fail; every Newton step, feasibility '
                     'check and ending is one event of algo.qnt; non-trivial: a run with at least two Newton steps')
    for k in run.rounds(1):
        if not b: continue
        cs = points.gen(run, k, 160, '[0, 0, 1, 1, 2, 3, 5]', budgets=0, maxz=4, kinds='[0, 0, 1]')
        judge(run, b, [dict(c=c, o=options(c, run.rng), p=plan(run.rng), g=guess_of(c)) for c in cs], {20}, None)

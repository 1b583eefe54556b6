"""Single solves judged by api_solve.qnt: C01-C04, C19, C21 (and parts of C05)."""
from run import *
import worlds, copy

def stall_pass(run, binp, jobs, bad, dropcode=102):
    """SUCCESS with a residual above the tolerance is allowed after a stalled proximal step: fetch the
    previous proximal iterate (a run with one iteration less) and let the specification decide again."""
    redo = [i for i in bad if dropcode in bad[i] and jobs[i]['rec']['prox'] >= 1]
    if not redo: return
    groups = []
    for i in redo:
        j = jobs[i]; o = list(j['o']); o[15] = max(1, j['rec']['prox'] - 1)
        groups.append([cmd_case(0, j['c'], j.get('arr')), cmd_new(0, j['c']), cmd_opts(0, o), cmd_solve(0, 0, j['g'])])
    rs = run_driver(binp, groups, run.d, 'stall')
    ev = []; ix = []
    for i, r in zip(redo, rs):
        j = jobs[i]; g = j['g']
        if len(r) < 4 or r[3].get('exc', 1) != 0: continue
        prev = r[3] if j['rec']['prox'] > 1 else dict(z=hexs(g[0]), l=hexs(g[1]), v=hexs(g[2]))
        ev.append(solve_event(j['c'], j['o'], g, j['rec'], nan=j['nan'], prev=prev, pure=j['pure'])); ix.append(i)
    b2 = validate(run.d, 'api_solve', ev, tag='st')
    for k, i in enumerate(ix):
        if k in b2: bad[i] = b2[k]
        else: del bad[i]

def execute(run, binp, jobs):
    """jobs: dicts with c, o, g (and optionally arr, nan, pure, pre: commands before). Fills rec."""
    groups = []
    for j in jobs:
        cmds = [cmd_case(0, j['c'], j.get('arr')), cmd_new(0, j['c'], j.get('v4', False)), cmd_opts(0, j['o'])]
        cmds.append(cmd_solve(0, 0, j['g'], j.get('iface', 0)))
        groups.append(cmds)
    rs = run_driver(binp, groups, run.d)
    for j, cmds, r in zip(jobs, groups, rs):
        j['cmds'] = cmds
        j['rec'] = r[3] if len(r) > 3 and r[3].get('k') == 'S' else None
        j['crash'] = r[-1] if j['rec'] is None else None

def judge(run, binp, jobs, wanted, crash_code=None, nontrivial=lambda j: True, keep=None):
    execute(run, binp, jobs)
    if keep: jobs = [j for j in jobs if j['rec'] is None or keep(j)]
    def verdict(js):
        live = [j for j in js if j['rec'] is not None]
        ev = [solve_event(j['c'], j['o'], j['g'], j['rec'], nan=j.setdefault('nan', 0), pure=j.setdefault('pure', 0)) for j in live]
        bad = validate(run.d, 'api_solve', ev)
        stall_pass(run, binp, live, bad)
        out = {}
        for i, codes in bad.items():
            w = [x for x in codes if x // 100 in wanted or x in wanted]
            if w: out[id(live[i])] = w
        if crash_code:
            for j in js:
                if j['rec'] is None: out[id(j)] = [crash_code]
        return out
    bad = verdict(jobs)
    run.evals += len(jobs)
    seen = set()
    for j in jobs:
        if j['rec'] is not None and nontrivial(j):
            key = json.dumps([prob_ints(j['c']), j['o'], j['g']], default=str)
            if key not in seen: seen.add(key); run.nontriv += 1
    for j in jobs[:2]:
        if j['rec']: run.samples.append(describe(j))
    if bad:                      # confirm by running again
        again = [j for j in jobs if id(j) in bad][:40]
        execute(run, binp, again)
        bad2 = verdict(again)
        for j in again:
            if id(j) in bad2:
                if set(bad2[id(j)]) <= {406} and j['rec'] and j['rec']['flag'] == 2:     # out of budget: with an ample one the status must come out
                    q = dict(j, o=j['o'][:14] + [20000.0, 5000.0] + j['o'][16:]); execute(run, binp, [q])
                    if id(q) not in verdict([q]): continue
                run.reject(bad2[id(j)], describe(j), dict(commands=j['cmds'], record=j['rec'], crash=j['crash']))

def describe(j):
    c, r = j['c'], j['rec'] or {}
    return dict(family=c['fam'], interface='mpc' if c['mpc'] else 'dense', nz=c['nz'], nl=c['nl'], nv=c['nv'], pure=j.get('pure', 0),
                flag=r.get('flag'), exc=r.get('exc'), newton=r.get('newton'), prox=r.get('prox'),
                residual=float.fromhex(r['res'][0]) if r.get('res') else None, options=j['o'], nan=j.get('nan', 0))

def gen(run, k, n, fams, kinds='[0, 0, 1]', maxz=6, optmode=3, budgets=1, guess=1, big=0):
    return generate(run.d, 'gen', dict(FAMS=fams, KINDS=kinds, MAXZ=maxz, OPTMODE=optmode, BUDGETS=budgets, GUESS=guess, BIG=big), n, run.seed(k), tag='g%d_' % k)

def blank(c, rng):
    """Some of f, b, h set to zero (the status of the problem is then unknown)."""
    c['fam'] = 5; zero = lambda v: [0] * len(v)
    t = rng.sample(['f', 'b', 'h', 'none', 'none'], rng.choice([1, 1, 2]))
    if c['mpc']:
        for s in c['st']:
            if 'f' in t: s['q'] = zero(s['q']); s['r'] = zero(s['r'])
            if 'b' in t: s['d'] = zero(s['d'])
            if 'h' in t: s['c'] = zero(s['c'])
        if 'h' in t: c['x0'] = zero(c['x0'])
    else:
        for q in t:
            if q != 'none': c[q] = zero(c[q])
    return c

def forcing(c):
    """The norm of (f, h, b)."""
    a = arrays(c)
    return math.sqrt(sum(x * x for k in (('q', 'r', 'c', 'd', 'x0') if c['mpc'] else ('f', 'h', 'b')) for x in a[k][3]))

def pure_of(optmode): return {0: 1, 1: 2}.get(optmode, 0)

def C01(run):
    worlds.check(run, ['Stop'], {191})
    b = build('api', 'api.cc')
    run.rules.append('problems with exactly known status drawn by the Quint generator gen.qnt (dense and MPC, all families), random options, '
                     'budgets and guesses; one solve each, judged by api_solve.qnt in exact arithmetic; non-trivial: SUCCESS after at least one Newton step')
    for k in run.rounds(1):
        cs = gen(run, 3 * k, 420, '[0, 0, 1, 1, 5]') + gen(run, 3 * k + 1, 150, '[2, 3, 4, 5]') + gen(run, 3 * k + 2, 100, '[0, 1, 5]', optmode=2, budgets=0)
        jobs = [dict(c=c, o=opts_of(c), g=guess_of(c), iface=c['sel'][0] % 4, v4=c['sel'][1] % 4 == 0) for c in cs]
        for i, j in enumerate(jobs):
            if i % 6 == 0: j['o'][10] = [1.0, 3.0, 30.0, 1e3, 1e-2, 1e-3][j['c']['sel'][4] % 6]     # large stall tolerances
        judge(run, b, jobs, {1}, nontrivial=lambda j: j['rec']['exc'] == 0 and j['rec']['flag'] == 0 and j['rec']['newton'] > 0)
        # the tolerance placed at what the solver itself makes of the guess: SUCCESS there claims the guess is that good
        again = []
        for j in jobs[::2]:
            r = j['rec']
            if not r or r['exc'] or not 1e-9 < float.fromhex(r['res'][1]) < 1e9: continue
            for side in (1 + 1e-6, 1 - 1e-6):
                o = list(j['o']); o[8] = float.fromhex(r['res'][1]) * side; o[9] = 0.0
                if j['c']['sel'][5] % 3 == 0: o[9] = o[8] / (1 + forcing(j['c'])); o[8] = 1e-12
                again.append(dict(c=j['c'], o=o, g=j['g'], iface=j['iface']))
        judge(run, b, again, {1}, nontrivial=lambda j: j['rec']['exc'] == 0 and j['rec']['flag'] == 0)

def C02(run):
    worlds.check(run, ['Time'], {291})
    b = build('api', 'api.cc')
    run.rules.append('as C01 with budgets that often run out; margin, initial residual, residual and dual signs of every returned point recomputed exactly; '
                     'non-trivial: SUCCESS or MAXITERATIONS after at least one Newton step')
    for k in run.rounds(1):
        cs = gen(run, 3 * k, 450, '[0, 0, 1, 2, 3, 5]') + gen(run, 3 * k + 1, 200, '[0, 1, 5]', optmode=2, budgets=0)
        jobs = [dict(c=c, o=opts_of(c), g=guess_of(c), iface=c['sel'][0] % 4, v4=c['sel'][1] % 4 == 0) for c in cs]
        for j in jobs[::3]: j['o'][14] = 1 + j['c']['sel'][2] % 9
        for j in jobs[1::3]: j['o'][15] = 1 + j['c']['sel'][2] % 3
        judge(run, b, jobs, {2}, nontrivial=lambda j: j['rec']['exc'] == 0 and j['rec']['flag'] in (0, 2) and j['rec']['newton'] > 0)

def C03(run):
    worlds.check(run, ['Feas'], {391})
    b = build('api', 'api.cc')
    run.rules.append('infeasible, unbounded, doubly infeasible and arbitrary problems with varied infeasibility tolerances; every infeasibility verdict must '
                     'carry its certificate (exact arithmetic); verdicts with the check disabled are rejected; non-trivial: an infeasibility verdict was returned')
    for k in run.rounds(1):
        cs = gen(run, 3 * k, 400, '[2, 3, 4, 5]', budgets=0) + gen(run, 3 * k + 1, 120, '[2, 3, 4]', optmode=2, budgets=0, guess=0) + \
             gen(run, 3 * k + 2, 80, '[0, 1, 1, 5]', budgets=0)
        jobs = [dict(c=c, o=opts_of(c), g=guess_of(c), iface=c['sel'][0] % 4) for c in cs]
        for i, j in enumerate(jobs):
            if i < 400 and i % 5 != 0: j['o'][18] = 1.0
            if i % 3 == 0: j['o'][11] = [1e-2, 1e-1, 0.5, 1e-3, 1.0, 10.0, 1e3][j['c']['sel'][3] % 7]     # generous tolerances accept early: the verdict sits near its boundary
        # loose tolerances leave only the sign conditions to decide; vanishing f, b, h put those on their boundary
        for c in gen(run, 3 * k + 500, 220, '[0, 1, 1, 2, 3, 5, 5]', budgets=0, kinds='[0, 0, 1]'):
            c = blank(copy.deepcopy(c), run.rng)
            j = dict(c=c, o=opts_of(c), g=guess_of(c), iface=c['sel'][0] % 4)
            j['o'][18] = 1.0; j['o'][11] = run.rng.choice([.5, 1.0, 3.0, 10.0, 1e3]); jobs.append(j)
        judge(run, b, jobs, {3}, nontrivial=lambda j: j['rec']['exc'] == 0 and j['rec']['flag'] >= 3)
        # the same problems from other guesses and with other parameters: only verdicts have something to show
        more = []
        for j in jobs[k % 2::2]:
            for _ in range(6):
                c, rng = j['c'], run.rng; w = rng.choice([.25, 1, 1, 3, 30, 1000])
                draw = lambda n: [w * rng.randint(-4, 4) for _ in range(n)]
                q = dict(c=c, o=list(j['o']), g=[draw(c['nz']), draw(c['nl']), draw(c['nv']), draw(c['nv'])], iface=rng.randrange(4))
                q['o'][11] = rng.choice([1e-8, 1e-6, 1e-3, 1e-2, .1, .5, 3.0]); q['o'][0] = rng.choice([1e-8, 1e-6, 1e-4, 1e-2, .1])
                more.append(q)
        seen = set()
        def keep(j):
            r = j['rec']
            if r['exc'] or r['flag'] < 3: return False
            key = (id(j['c']), tuple(x[:8] for q in 'zlv' for x in r[q]))      # much the same certificate
            if key in seen: return False
            seen.add(key); return True
        judge(run, b, more, {3}, nontrivial=lambda j: True, keep=keep)

def C04(run):
    b = build('api', 'api.cc')
    run.rules.append('feasible strictly convex problems (optimum known exactly), inconsistent strictly convex problems (Farkas certificate known) and unbounded '
                     'feasible problems (recession direction known) under default and reliable options, guesses with v >= 0; non-trivial: all (each has a definite expected outcome)')
    for k in run.rounds(1):
        jobs = []
        for m, n, f in ((0, 260, '[0, 2, 2]'), (1, 200, '[0, 3]'), (0, 60, '[3, 4]'), (1, 60, '[2, 4]')):
            for c in gen(run, 5 * k + len(jobs) % 97, n, f, optmode=m, budgets=0, guess=0, maxz=8):
                g = guess_of(c)
                if c['sel'][7] % 2 == 0:
                    w = [[1, 10, 100, 500], [1, 3, 10, 20]][m][c['sel'][8] % 4]; g = [[w * x for x in p] for p in g[:3]] + g[3:]
                jobs.append(dict(c=c, o=opts_of(c), g=g, pure=m + 1, iface=c['sel'][0] % 4))
        judge(run, b, jobs, {4}, crash_code=499)
        many(run, b, jobs)

def many(run, b, jobs, K=24):
    """Each problem solved K more times from other guesses and through other interfaces: status.qnt."""
    groups = []; sets = []
    for n, j in enumerate(jobs):
        c, rng = j['c'], random.Random(run.seed(n) + 17 * j['c']['sel'][9 % len(j['c']['sel'])])
        cmds = [cmd_case(0, c), cmd_new(0, c), cmd_opts(0, j['o'])]; gs = []
        for _ in range(3 * K if c['fam'] == 2 and j['pure'] == 1 else K):
            w = rng.choice([.25, 1, 1] + [[10, 100, 500], [3, 10, 20]][j['pure'] - 1]); e = rng.random()
            draw = lambda k, lo: [w * rng.randint(lo, 4) if rng.random() < e else 0.0 for _ in range(k)]
            g = [draw(c['nz'], -4), draw(c['nl'], -4), draw(c['nv'], 0), [float(rng.randint(-4, 4)) for _ in range(c['nv'])]]
            f = rng.randrange(4); gs.append((g, f)); cmds.append(cmd_solve(0, 0, g, f))
        groups.append(cmds); sets.append(gs)
    rs = run_driver(b, groups, run.d, 'many')
    ev = []; ix = []
    for n, (j, r) in enumerate(zip(jobs, rs)):
        c = j['c']; out = [x for x in r if x.get('k') == 'S']
        run.evals += len(out); run.nontriv += len(out)
        for k in range(0, len(out), 12):
            part = out[k:k + 12]
            ev.append(([c['fam'], j['pure'], int(j['o'][18] != 0), c['nz'], len(part)] + [v for x in part for v in (x['exc'], x['flag'])] + c['tz'],
                       fv([v for x in part for v in (x['z'] if c['fam'] == 0 else ['0x0p+0'] * c['nz'])]))); ix.append((n, k))
        if len(out) < len(gs): run.reject([499], dict(describe(j), what='a solve crashed'), dict(commands=groups[n], crash=r[-1]))
    bad = validate(run.d, 'status', ev, tag='many', shard=400)
    again = []
    for e, idx in bad.items():
        n, k = ix[e]
        for i in idx:
            g, f = sets[n][k + i]; again.append(dict(c=jobs[n]['c'], o=jobs[n]['o'], g=g, pure=jobs[n]['pure'], iface=f))
    if again: judge(run, b, again[:200], {4}, crash_code=499)

def C19(run):
    import sessions
    worlds.check(run, ['Stop'], {1991})
    b = build('api', 'api.cc')
    run.rules.append('solutions returned by a first solve (and exactly known optima) passed back as guesses, with garbage (also NaN) in y and tolerances just above their residual: '
                     'api_solve.qnt decides exactly whether the guess meets the tolerance and then requires SUCCESS, zero iterations and bit-identical z,l,v; the same calls with other '
                     'y values must have identical results (session.qnt); non-trivial: guesses that meet the tolerance')
    for k in run.rounds(1):
        cs = gen(run, 2 * k, 300, '[0, 0, 1, 5]', optmode=3, maxz=5) + gen(run, 2 * k + 1, 120, '[0, 1]', optmode=2, budgets=0, maxz=6)
        first = [dict(c=c, o=opts_of(c), g=guess_of(c), iface=c['sel'][0] % 4) for c in cs]
        execute(run, b, first)
        jobs = []
        for n, j in enumerate(first):
            c, r, o = j['c'], j['rec'], list(j['o'])
            if not r or r['exc'] or not all(math.isfinite(float.fromhex(x)) for x in r['z'] + r['l'] + r['v']): continue
            y = [[float('nan')] * len(r['y']), [1e9] * len(r['y']), r['y'], [-3.5] * len(r['y'])][c['sel'][6] % 4]
            g = [r['z'], r['l'], r['v'], y]
            res = float.fromhex(r['res'][0])
            w = c['sel'][7] % 4
            if w == 1 and r['flag'] in (0, 2) and 1e-9 < res < 1e6: o[8] = res * (1 + 1e-5); o[9] = 0.0     # just met
            if w == 2 and r['flag'] in (0, 2) and 1e-9 < res < 1e6: o[8] = res * (1 - 1e-5); o[9] = 0.0     # just missed
            if w == 0 and r['flag'] in (0, 2) and 1e-9 < res < 1e6:      # the same through the relative tolerance
                o[8] = 1e-12; o[9] = res * (1 + 1e-5 * (1 - 2 * (n // 4 % 2))) / (1 + forcing(c))
            if w == 3: o[14] = 1.0; o[15] = 1.0
            jobs.append(dict(c=c, o=o, g=g, iface=c['sel'][8] % 4))
            if c['fam'] in (0, 1) and n % 3 == 0:        # the exact optimum
                s = 1.0
                jobs.append(dict(c=c, o=j['o'], g=[[float(x) for x in c[q]] for q in ('tz', 'tl', 'tv')] + [y], iface=0))
        judge(run, b, jobs, {19}, crash_code=1990, nontrivial=lambda j: j['rec']['exc'] == 0 and j['rec']['flag'] == 0 and j['rec']['newton'] == 0)
        # y is ignored
        ss = []
        for j in jobs[::4]:
            c = j['c']; s = sessions.Session(); s.case(0, c, arrays(c), c['mpc'], sessions.dims4(c), False); s.new(0, c['mpc'], sessions.dims4(c)); s.opts(0, j['o'])
            for g3 in (j['g'][:3], guess_of(c)[:3]):
                for y in ([0.0], [float('nan')], [1e300], [-float('inf')], [-2.0]): s.solve(0, 0, g3 + [y * len(j['g'][3])], run.rng.choice([0, 2]))
            ss.append(s)
        sessions.judge(run, b, ss, {701}, rule_nontrivial=2)

def C21(run):
    import sessions, algos
    worlds.check(run, ['Feas'], {2191, 2192})
    b = build('api', 'api.cc')
    run.rules.append('a NaN in one entry of every data array and of z, l, v in turn, indefinite and semidefinite Hessians, small regularisation; no NaN input may end in SUCCESS, nothing '
                     'but std::runtime_error may escape, no call may crash or hang; after failures the solver object must behave as before (session.qnt); non-trivial: solves that '
                     'threw or contained a NaN')
    for k in run.rounds(1):
        cs = gen(run, 2 * k, 150, '[0, 1, 2, 3, 5]', optmode=3, maxz=5, kinds='[0, 1]')
        jobs = []
        for c in cs:
            a0 = arrays(c); g0 = guess_of(c); o = opts_of(c)
            spots = [q for q in sorted(a0) if a0[q][3]]
            if c['mpc']: spots = run.rng.sample(spots, 6)
            for q in spots:
                v = list(a0[q][3]); v[run.rng.randrange(len(v))] = float('nan')
                a = dict(a0); a[q] = a0[q][:3] + (v,)
                jobs.append(dict(c=c, o=o, g=g0, arr=a, nan=1, iface=c['sel'][0] % 4))
            for q in range(3):
                if g0[q]:
                    g = [list(x) for x in g0]; g[q][run.rng.randrange(len(g[q]))] = float('nan')
                    jobs.append(dict(c=c, o=o, g=g, nan=1, iface=c['sel'][1] % 4))
        cs2 = gen(run, 2 * k + 1, 200, '[0, 2, 5]', optmode=3, maxz=5)
        import copy
        for c in cs2:                                    # indefinite Hessians
            c = copy.deepcopy(c); r = run.rng
            if c['mpc']:

                s = r.choice(c['st']); q = r.choice('QR'); s[q] = [[-3 * x for x in row] for row in s[q]]
            else: c['H'] = [[(-3 if r.random() < .8 else 0) * x for x in row] for row in c['H']]
            c['fam'] = 5
            jobs.append(dict(c=c, o=opts_of(c), g=guess_of(c), iface=c['sel'][0] % 4))
        judge(run, b, jobs, {21}, crash_code=2190, nontrivial=lambda j: j['nan'] or j['rec']['exc'] != 0)
        ss = []
        for c in cs[:60]:
            rng = run.rng
            s = sessions.Session(); a0 = arrays(c); vs = sessions.variants(c, rng); d = sessions.dims4(c)
            for n, (a, must) in enumerate(vs): s.case(n, c, a, c['mpc'], d, must)
            s.new(0, c['mpc'], d); s.opts(0, opts_of(c)); g = sessions.cguesses(c, rng)
            s.solve(0, 0, g[0])
            for _ in range(5):
                s.solve(0, rng.choice([3, 4, 5]), g[rng.choice([0, 1, 3])], rng.randrange(4))
                s.solve(0, 0, g[0], rng.randrange(4))
            ss.append(s)
        sessions.judge(run, b, ss, {2102, 2103, 701}, crash_code=2191)
        algos.extra(run, k, 80, {21}, fail=.35, more=True, crash=2190)

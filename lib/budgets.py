"""C05, C06: families of runs under smaller budgets, judged by budget.qnt."""
from run import *
import worlds
import points, algos

def point_bits(r): return [bits(x) for k in 'zlvy' for x in r[k]]
def out_bits(r): return [r['exc'], r['flag'], r['newton'], r['prox']] + [bits(x) for x in r['res'][:2]] + point_bits(r) if r['exc'] == 0 else [r['exc']]

def family(run, binp, cs, opts):
    """Base runs, then the runs each base run calls for."""
    def grp(i, runs):
        return [cmd_case(0, cs[i]), cmd_new(0, cs[i])] + [x for o in runs for x in (cmd_opts(0, o), cmd_solve(0, 0, guess_of(cs[i])))]
    base = run_driver(binp, [grp(i, [opts[i]]) for i in range(len(cs))], run.d, 'base')
    plan = []
    for i, (c, o, r) in enumerate(zip(cs, opts, base)):
        r = r[-1]
        if r.get('k') != 'S' or r['exc'] != 0 or not all(math.isfinite(float.fromhex(x)) for x in r['z'] + r['l'] + r['v']): plan.append(None); continue
        N, K = r['newton'], r['prox']
        nP = min(K + 1, int(o[15]), 9)
        js = sorted(set(list(range(1, min(N, 8) + 1)) + [N, N + 1] + [1 + (c['sel'][4] + 37 * t) % max(N, 1) for t in range(3)]))
        js = [j for j in js if 1 <= j <= int(o[14])][:14]
        runs = []
        for k in range(1, nP + 1): p = list(o); p[15] = k; runs.append(p)
        for j in js: p = list(o); p[14] = j; runs.append(p)
        for j in js: p = list(o); p[15] = 1; p[16] = j; p[14] = j + 1000; p[18] = 0; runs.append(p)
        plan.append((r, nP, js, runs))
    rs = run_driver(binp, [grp(i, pl[3]) if pl else [] for i, pl in enumerate(plan)], run.d, 'fam', timeout=240)
    ev = []; ix = []
    for i, (pl, rr) in enumerate(zip(plan, rs)):
        if not pl: continue
        r, nP, js, runs = pl
        rr = [x for x in rr if x.get('k') == 'S' or x.get('k') in ('crash', 'hang')]
        if len(rr) != len(runs) or any(x['k'] != 'S' for x in rr): ev.append(None); ix.append(i); continue
        P, Nn, In = rr[:nP], rr[nP:nP + len(js)], rr[nP + len(js):]
        c, o = cs[i], opts[i]
        if nP < r['prox']:                       # judge only what the known iterates cover
            keep = [t for t, j in enumerate(js) if P and P[-1]['exc'] == 0 and j <= P[-1]['newton']]
            js = [js[t] for t in keep]; Nn = [Nn[t] for t in keep]; In = [In[t] for t in keep]
        N1 = P[0]['newton'] if P and P[0]['exc'] == 0 and r['prox'] >= 1 else r['newton']
        I = [r['flag'], r['newton'], r['prox'], int(o[14]), int(o[15]), int(o[16]), int(o[18] != 0), nP]
        D = fv([o[3]]) + fv(flat(guess_of(c)[:3]))
        base_b = out_bits(r)
        g = guess_of(c); gb = [bits(x) for x in flat(g[:3])]
        for x in P:
            I += [x['exc'], x['flag'], x['newton'], x['prox'], int(out_bits(x) == base_b)]
            D += fv(flat([x[k] for k in 'zlvy']))
        I.append(len(js))
        for j, x, y in zip(js, Nn, In):
            n3 = len(gb)
            q = x['prox'] if x['exc'] == 0 else -1
            isprox = 0
            if q == 0: isprox = int(point_bits(x)[:n3] == gb)
            elif 0 < q <= nP: isprox = int(point_bits(x) == point_bits(P[q - 1]))
            known = int(j <= N1 and y['exc'] == 0 and y['newton'] == j and x['exc'] == 0 and q == 0)
            I += [j, x['exc'], x['flag'], x['newton'], x['prox'], int(out_bits(x) == base_b), isprox, int(known and point_bits(x) == point_bits(y)), known]
            D += fv(flat([x[k] for k in 'zlvy'])) + fv(flat([y[k] for k in 'zlvy']))
        ev.append((I + prob_ints(c), D)); ix.append(i)
    return base, plan, ev, ix

def judge(run, binp, cs, opts, wanted, crash):
    base, plan, ev, ix = family(run, binp, cs, opts)
    bad = {}
    live = [k for k, e in enumerate(ev) if e is not None]
    b = validate(run.d, 'budget', [ev[k] for k in live], shard=60)
    for n, k in enumerate(live):
        if n in b:
            w = [x for x in b[n] if x // 100 in wanted]
            if w: bad[ix[k]] = w
    for k, e in enumerate(ev):
        if e is None and crash: bad[ix[k]] = [crash]
    if crash:
        for i, r in enumerate(base):
            if r[-1].get('k') in ('hang', 'crash'): bad[i] = [crash]
    return base, plan, bad

def check(run, wanted, crash, fams, n, seedoff, algo):
    b = build('api', 'api.cc')
    for k in run.rounds(1):
        cs = points.gen(run, 2 * k + seedoff, n, fams, budgets=1, maxz=5, kinds='[0, 0, 1]')
        # include budgets that differ from the presets, and few inner iterations
        opts = [opts_of(c) for c in cs]
        for i, o in enumerate(opts):
            if i % 4 == 1: o[16] = 1 + cs[i]['sel'][5] % 6
        base, plan, bad = judge(run, b, cs, opts, wanted, crash)
        for i, pl in enumerate(plan):
            if pl:
                run.evals += 1 + len(pl[3])
                if pl[0]['newton'] >= 2: run.nontriv += 1
        run.samples += [dict(base=dict(flag=pl[0]['flag'], newton=pl[0]['newton'], prox=pl[0]['prox']), budgets_newton=pl[2], prox_runs=pl[1]) for pl in plan[:3] if pl]
        if bad:
            ids = sorted(bad)[:20]
            _, pl2, bad2 = judge(run, b, [cs[i] for i in ids], [opts[i] for i in ids], wanted, crash)
            for t, i in enumerate(ids):
                if t in bad2:
                    run.reject(bad2[t], dict(base=plan[i][0] if plan[i] else None, budgets=plan[i][2] if plan[i] else None),
                               dict(case=cs[i], options=opts[i]))
        algos.extra(run, 2 * k + seedoff, 70, algo, fail=.01, tight=True, crash=crash)

def C05(run):
    worlds.check(run, ['Time'], {591, 590})
    run.rules.append('a base run and the runs with max_prox_iters = 1..K+1 and up to 14 Newton budgets; flags, counts and points must be those of a prefix of the base run '
                     '(budget.qnt); no run may hang; non-trivial: base runs with at least two Newton iterations')
    check(run, {5}, 590, '[0, 1, 2, 3, 5]', 170, 0, algos.BUDGET)

def C06(run):
    worlds.check(run, ['Time'], {691})
    run.rules.append('the same families: the point returned at each Newton timeout must be no worse (exact residuals) than the proximal iterate it started from, and in the first '
                     'subproblem exactly the better of guess and projected inner iterate; non-trivial: base runs with at least two Newton iterations')
    check(run, {6}, None, '[0, 0, 1, 2, 5]', 170, 50, {604, 605})

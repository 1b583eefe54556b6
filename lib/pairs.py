"""C09: MPC problems through both interfaces, judged by pair.qnt."""
from run import *
import points

def stacked(c):
    """Dense arrays of an MPC case.  The entries are checked against ofMpc by the specification (code 900)."""
    N, nx, nu, nc = c['N'], c['nx'], c['nu'], c['nc']
    w = nx + nu; n = (N + 1) * w; one = 2 ** c['ds']
    H = [[0] * n for _ in range(n)]; G = [[0] * n for _ in range((N + 1) * nx)]; A = [[0] * n for _ in range((N + 1) * nc)]
    f = []; h = []; b = []
    for i, s in enumerate(c['st']):
        o = i * w
        for a in range(nx):
            for j in range(nx): H[o + a][o + j] = s['Q'][a][j]
            for j in range(nu): H[o + a][o + nx + j] = s['S'][j][a]
        for a in range(nu):
            for j in range(nx): H[o + nx + a][o + j] = s['S'][a][j]
            for j in range(nu): H[o + nx + a][o + nx + j] = s['R'][a][j]
        f += s['q'] + s['r']
        for a in range(nx): G[i * nx + a][o + a] = -one
        if i == 0: h += [-x for x in c['x0']]
        else:
            p = c['st'][i - 1]; o1 = o - w
            for a in range(nx):
                for j in range(nx): G[i * nx + a][o1 + j] = p['A'][a][j]
                for j in range(nu): G[i * nx + a][o1 + nx + j] = p['B'][a][j]
            h += [-x for x in p['c']]
        for k in range(nc):
            for j in range(nx): A[i * nc + k][o + j] = s['E'][k][j]
            for j in range(nu): A[i * nc + k][o + nx + j] = s['L'][k][j]
        b += [-x for x in s['d']]
    return dict(mpc=0, N=0, nx=nx, nu=nu, nc=nc, nz=n, nl=len(h), nv=len(b), ds=c['ds'], H=H, f=f, G=G, h=h, A=A, b=b)

def C09(run):
    b = build('api', 'api.cc')
    run.rules.append('time-varying MPC problems solved through both interfaces from a common guess; the dense problem is the specification\'s stacking; initial residuals, flags and '
                     'minimisers must agree; non-trivial: both solvers took at least one Newton step')
    for k in run.rounds(1):
        jobs = []
        for m, n, fams in ((0, 110, '[0, 0, 2]'), (1, 70, '[0, 3]'), (3, 100, '[0, 1, 2, 3, 5]')):
            for c in points.gen(run, 4 * k + m, n, fams, kinds='[1]', optmode=m, budgets=0, guess=0): jobs.append((c, points.pure_of(m)))
        def run_jobs(jobs):
            gr = []
            for c, pure in jobs:
                d = stacked(c); g = guess_of(c); o = opts_of(c)
                gr.append([cmd_case(0, c), cmd_case(1, d), cmd_new(0, c, c['sel'][1] % 3 == 0), cmd_new(1, d), cmd_opts(0, o), cmd_opts(1, o),
                           cmd_solve(0, 0, g, c['sel'][0] % 4), cmd_solve(1, 1, g)])
            rs = run_driver(b, gr, run.d)
            ev = []; ix = []
            for i, ((c, pure), r) in enumerate(zip(jobs, rs)):
                if r[-1].get('k') != 'S' or len(r) != 8: continue
                m, d = r[6], r[7]; sc = stacked(c); o = opts_of(c)
                st = flat([sc['H'], sc['f'], sc['G'], sc['h'], sc['A'], sc['b']])
                I = [c['fam'], pure, d['exc'], d['flag'], m['exc'], m['flag'], len(st)] + st + prob_ints(c)
                D = fv([o[3], d['res'][1], m['res'][1]]) + fv(flat(guess_of(c)[:3])) + fv(flat([d[x] for x in 'zlvy'])) + fv(flat([m[x] for x in 'zlvy']))
                ev.append((I, D)); ix.append((i, d, m))
            bad = validate(run.d, 'pair', ev, shard=60)
            return {ix[i][0]: (codes, ix[i][1], ix[i][2]) for i, codes in bad.items()}, ix
        bad, ix = run_jobs(jobs)
        run.evals += len(ix)
        run.nontriv += sum(1 for _, d, m in ix if d['newton'] > 0 and m['newton'] > 0)
        run.samples += [dict(nz=jobs[i][0]['nz'], dense=[d['flag'], d['newton']], mpc=[m['flag'], m['newton']]) for i, d, m in ix[:3]]
        if bad:
            ids = sorted(bad)[:20]
            b2, _ = run_jobs([jobs[i] for i in ids])
            for t, i in enumerate(ids):
                if t in b2:
                    codes, d, m = b2[t]
                    if 900 in codes: raise CheckError('harness stacking differs from the specification')
                    run.reject(codes, dict(dense=[d['exc'], d['flag'], d['res']], mpc=[m['exc'], m['flag'], m['res']]), dict(case=jobs[i][0]))

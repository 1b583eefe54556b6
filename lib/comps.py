"""C13-C17: histories of operations on the components, judged by comp.qnt."""
import copy
from run import *
import points

OPS = {'W': 0, 'D': 1, 'M': 2, 'VN': 10, 'VS': 11, 'VI': 12, 'VF': 13, 'VC': 14, 'VA': 15, 'VP': 16,
       'RN': 20, 'RL': 21, 'RF': 22, 'RG': 23, 'RI': 24, 'RT': 25, 'RP': 26, 'FN': 30, 'FC': 31, 'LN': 40, 'LL': 41, 'LI': 42, 'LS': 43}
A0 = 0.95

def indefinite(c, rng):
    """One block of one stage of an MPC Hessian made indefinite."""
    c = copy.deepcopy(c); c['indef'] = 1; s = rng.choice(c['st'] + [c['st'][-1]] * 2); q = rng.choice('QR'); k = rng.choice([2, 3, 5, 9])
    s[q] = [[x - (k if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(s[q])]
    return c

def tweak(c, rng):
    """Another problem of the same size (integer data, same scale, the Hessian no less definite)."""
    c = copy.deepcopy(c); t = [-2, -1, -1, 0, 0, 1, 1, 2, 3]
    def rows(M): return [[x + rng.choice(t) if rng.random() < .5 else x for x in r] for r in M]
    def vec_(v): return [x + rng.choice(t) if rng.random() < .6 else x for x in v]
    def plus(M, k): return [[x + (k if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(M)]
    k = rng.choice([0, 1, 3])
    if c['mpc']:
        for i, s in enumerate(c['st']):
            s['Q'] = plus(s['Q'], k); s['R'] = plus(s['R'], k + rng.choice([0, 2]))
            for n in ('E', 'L') + (('A', 'B') if i < c['N'] else ()): s[n] = rows(s[n])
            for n in ('q', 'r', 'd') + (('c',) if i < c['N'] else ()): s[n] = vec_(s[n])
        c['x0'] = vec_(c['x0'])
    else:
        c['H'] = plus(c['H'], k); c['G'] = rows(c['G']); c['A'] = rows(c['A'])
        for n in 'fhb': c[n] = vec_(c[n])
    return c

class Hist:
    """One history: driver commands and, per command, how to turn its record into an event."""
    def __init__(self, cs, rng):
        self.cs, self.rng = cs, rng; c = cs[0]
        self.nz, self.nl, self.nv = c['nz'], c['nl'], c['nv']
        self.cmds = []; self.how = []
        for i, q in enumerate(cs): self.add(cmd_case(i, q), None)
        self.add('W 0', ('W', [c['mpc'], self.nz, self.nl, self.nv], [A0]))
        for i, q in enumerate(cs):
            pd = 2 if q.get('indef') else int(q['fam'] in (0, 2))
            self.add('D %d %d %d' % (i, i, rng.random() < .5), ('D', [i, pd] + prob_ints(q), None))
    def add(self, cmd, how): self.cmds.append(cmd); self.how.append(how)
    def op(self, name, ints=(), dbl=()):
        self.add(' '.join([name] + [str(i) for i in ints] + [num(x) for x in dbl]), (name, list(ints), list(dbl)))
    def setx(self, k, z, l, v):
        self.add('VS %d %s %s %s' % (k, vec(z), vec(l), vec(v)), ('VS', [k], z + l + v))
    def gemv(self, s, o, a, b, x, y, null=0):
        self.add('M %d %d %s %s %s %s %d' % (s, o, num(a), num(b), vec(x), vec(y), null), ('M', [s, o, int(not null), len(x), len(y)], [a, b] + x + y))
    def events(self, recs):
        ev = []
        for cmd, how, r in zip(self.cmds, self.how, recs):
            if how is None: continue
            name, ints, dbl = how
            if name == 'D': D = r['y'] or ['nan']; extra = []
            elif name == 'M': D = dbl + r['y']; extra = [len(r['y'])]
            else: D = dbl; extra = []
            I = [OPS[name], r['exc'], r['flag'], r['untouched'], r['intact']] + ints + extra + [len(D)]
            ev.append((I, fv(D) + fv(r['st'])))
        return ev

    # ---- material
    def point(self):
        r = self.rng; c = self.cs[r.randrange(2)]; m = r.random(); s = r.choice([1, 1, 2, 8])
        if m < .35:      # around the witness: active and weakly active constraints are met exactly
            z = [float(x) for x in c['tz']]; l = [float(x) for x in c['tl']]; v = [float(x) for x in c['tv']]
            if r.random() < .4: v = [x if r.random() < .6 else 0.0 for x in v]
        elif m < .85:
            z, l, v = ([r.randrange(-6, 7) / s for _ in range(n)] for n in (self.nz, self.nl, self.nv))
            if r.random() < .4: v = [max(x, 0.0) if r.random() < .8 else 0.0 for x in v]
        else:
            z, l, v = ([r.gauss(0, 1) * 10 ** r.randrange(-3, 4) for _ in range(n)] for n in (self.nz, self.nl, self.nv))
        return z, l, v
    def scalar(self): return self.rng.choice([1.0, -1.0, .5, -.25, 2.0, .1, 1 / 3, -1.7, 0.0, self.rng.random(), -self.rng.random() * 5])
    def sigma(self, bad=.05):
        r = self.rng
        if self.cs[0].get('indef'): return r.uniform(.1, 1)       # no exact singularities
        if r.random() < bad: return r.choice([0.0, -1.0, -1e-8])
        return r.choice([1.0, .25, 2.0 ** -6, 2.0 ** -6, 2.0 ** -12, 2.0 ** -20, 1e-4, 1e-8 if r.random() < .3 else .5])
    def alpha(self): return self.rng.choice([.95, .95, .5, .001, .999, self.rng.random()])

def mix_ops(h, n, w):
    """n random operations with weights w over the groups v (variables), r (residuals), f (checker), s (solver), m (operators)."""
    r = h.rng; g = ''.join(k * w[k] for k in w)
    linked = {'x': [0, 0, 0], 'r': [0, 0], 'f': 0, 'l': 0}; fac = [False]; relink = 0 if r.random() < .75 else 1
    def var(): return r.randrange(3)
    for _ in range(n):
        k = r.choice(g)
        if k == 'v':
            t = r.random(); a = var()
            if t < .12 or (not linked['x'][a] and r.random() < .6): h.op('VN', [a, r.randrange(2) if relink else 0]); linked['x'][a] = 1
            elif t < .40:
                h.setx(a, *h.point())
                if r.random() < .9: h.op('VI', [a])
            elif t < .46: h.op('VI', [a])
            elif t < .52: h.op('VF', [a], [r.choice([0.0, 1.0, -2.0, .1, .375])])
            elif t < .64: b = var(); h.op('VC', [a, b]); linked['x'][a] = linked['x'][b]
            elif t < .88: h.add('VA %d %s %d' % (a, num(s := h.scalar()), b := var()), ('VA', [a, b], [s]))
            else: h.op('VP', [a])
        elif k == 'r':
            t = r.random(); a = r.randrange(2)
            if t < .08 or (not linked['r'][a] and r.random() < .7): h.op('RN', [a, r.randrange(2) if relink else 0]); linked['r'][a] = 1
            elif t < .16: h.op('RL', [a], [h.alpha()])
            elif t < .24: h.op('RF', [a], [r.choice([0.0, 1.0, -2.0, .1])])
            elif t < .38: h.op('RG', [a])
            elif t < .62: x, b = var(), var(); s = h.sigma(0); h.add('RI %d %d %d %s' % (a, x, b, num(s)), ('RI', [a, x, b], [s]))
            elif t < .78: x = var(); h.add('RT %d %d' % (a, x), ('RT', [a, x, x], [0.0]))
            else: x = var(); h.add('RP %d %d' % (a, x), ('RP', [a, x, x], [0.0]))
        elif k == 'f':
            if not linked['f'] and r.random() < .8 or r.random() < .04: h.op('FN', [r.randrange(2)]); linked['f'] = 1
            else: h.op('FC', [var()], [r.choice([2.0 ** -10, 1e-8, 1.0, .125])])
        elif k == 's':
            t = r.random()
            if not linked['l'] and r.random() < .9 or t < .06: h.op('LN', [r.randrange(2)]); linked['l'] = 1; fac[0] = False
            elif t < .14: h.op('LL', [], [h.alpha()])
            elif t < .5 or not fac[0]: a, b = var(), var() ; h.op('LI', [a, b if r.random() < .7 else a], [h.sigma()]); fac[0] = bool(linked['l'])
            else: h.op('LS', [r.randrange(2), var()])
        else:
            gemv_op(h)

def gemv_op(h):
    r = h.rng; s = r.randrange(2); o = r.randrange(8); nz, nl, nv = h.nz, h.nl, h.nv
    nin = [nz, nz, nz, nv, nl, 0, 0, 0][o]; nout = [nz, nv, nl, nz, nz, nz, nl, nv][o]
    a = r.choice([1.0, -1.0, 1.0, -1.0, 0.0, 2.0, -.5, 3.0, -2.25]); b = r.choice([0.0, 1.0, 0.0, 1.0, -1.0, 2.0, -.5, -2.25, .25])
    x = [r.randrange(-8, 9) / r.choice([1, 2, 16]) for _ in range(nin)]; y = [r.randrange(-8, 9) / r.choice([1, 4]) for _ in range(nout)]
    if b == 0.0 and o < 5 and r.random() < .5: y = [r.choice([float('nan'), float('inf'), 1e300, t]) for t in y]
    null = 0
    if h.cs[0]['mpc'] and r.random() < .08:
        t = r.randrange(3)
        if t == 0: null = 1
        elif t == 1 and o < 5: x = x + [1.0] if r.random() < .5 else x[:-1]
        else: y = y + [1.0] if r.random() < .5 else y[:-1]
    h.gemv(s, o, a, b, x, y, null)

def dirs(h, n):
    """Directions for the checker: certificates of the problem, scaled, perturbed, and with ties at the tolerance."""
    r = h.rng; h.op('FC', [0], [1.0]) if r.random() < .2 else None
    h.op('FN', [0])
    for t in range(3): h.op('VN', [t, 0])
    for _ in range(n):
        i = r.randrange(2); c = h.cs[i]
        if r.random() < .3: h.op('FN', [i])
        z = [float(x) for x in c['tz']] if r.random() < .8 else h.point()[0]
        l = [float(x) for x in c['tl']] if r.random() < .8 else h.point()[1]
        v = [float(x) for x in c['tv']] if r.random() < .8 else h.point()[2]
        if r.random() < .15: z = [0.0] * h.nz
        if r.random() < .15: l, v = [0.0] * h.nl, [0.0] * h.nv
        tol = r.choice([1e-8, 2.0 ** -8, 2.0 ** -4, .5, 1.0, 2.0 ** -20])
        for w in (z, l, v):
            t = r.random()
            if t < .45 and w:                       # a component moved by a multiple of the tolerance times the norm
                k = r.randrange(len(w)); m = max([abs(x) for x in w] + [1.0])
                w[k] += r.choice([1, -1]) * m * tol * r.choice([1, .5, 2, .25, 3])
            elif t < .55: w[:] = [-x for x in w]
            elif t < .65: s = r.choice([2.0 ** -40, 2.0 ** -46, 2.0 ** -47, 2.0 ** -48, 2.0 ** -60, 2.0 ** 20]); w[:] = [x * s for x in w]
        k = r.randrange(3); h.setx(k, z, l, v); h.op('FC', [k], [tol])

def solves(h):
    """Factorise at a point, solve for several right-hand sides, go on with other problems."""
    r = h.rng
    if r.random() < .3: h.op('LI', [0, 1], [1.0])
    for t in range(3): h.op('VN', [t, 0])
    for t in range(2): h.op('RN', [t, 0])
    for _ in range(r.choice([2, 3])):
        i = r.randrange(2); h.op('LN', [i])
        for t in range(3): h.op('VN', [t, i])
        for t in range(2): h.op('RN', [t, i])
        if r.random() < .6: h.op('LL', [], [h.alpha()])
        for _ in range(r.choice([1, 2])):
            z, l, v = h.point(); h.setx(0, z, l, v); h.op('VI', [0])
            tie = r.random() < .5
            if tie: h.op('VC', [1, 0])
            else: h.setx(1, *h.point()); h.op('VI', [1])
            s = h.sigma()
            h.op('LI', [0, 1], [s])
            if s <= 0: continue
            if r.random() < .2: h.op('LL', [], [h.alpha()])
            if r.random() < .3: h.setx(1, *h.point())
            for _ in range(r.choice([1, 2, 3])):
                k = r.randrange(2); t = r.random()
                if t < .4: h.add('RI %d 0 1 %s' % (k, num(s)), ('RI', [k, 0, 1], [s]))
                elif t < .8: x = r.randrange(2); h.add('RP %d %d' % (k, x), ('RP', [k, x, x], [0.0]))
                else: h.op('RF', [k], [r.choice([1.0, -2.0, .1])])
                if r.random() < .5: h.op('RG', [k])
                h.op('LS', [k, 2])
            if r.random() < .5: h.add('VA 0 %s 2' % num(a := r.choice([1.0, .75, .5625])), ('VA', [0, 2], [a]))

def judge(run, b, hs, wanted, crash, nontrivial):
    def verdict(hs):
        rs = run_driver(b, [h.cmds for h in hs], run.d, 'comp')
        evs = []; ix = []; out = {}
        for i, (h, r) in enumerate(zip(hs, rs)):
            if r[-1].get('k') in ('crash', 'hang') or any(x.get('exc') == 3 for x in r):
                x = [x for x in r if x.get('exc') == 3 or x.get('k') in ('crash', 'hang')][0]
                out[i] = ([crash], x)
            else: evs.append(h.events(r)); ix.append(i)
        bad = validate(run.d, 'comp', evs, shard=300, stateful=True)
        base = []; k = 0
        for e in evs: base.append(k); k += len(e)
        import bisect
        for g, codes in bad.items():
            w = [c for c in codes if c // 100 in wanted]
            if not w: continue
            t = bisect.bisect_right(base, g) - 1; i = ix[t]
            if i not in out:
                cmds = [c for c, q in zip(hs[i].cmds, hs[i].how) if q is not None]
                out[i] = (w, dict(operation=cmds[g - base[t]], position=g - base[t]))
        return out, sum(map(len, evs))
    bad, n = verdict(hs)
    run.evals += n
    run.nontriv += sum(1 for h in hs if nontrivial(h))
    run.samples += [[c for c, q in zip(h.cmds, h.how) if q][3:11] for h in hs[:2]]
    if bad:
        ids = sorted(bad)[:20]
        b2, _ = verdict([hs[i] for i in ids])
        for k, i in enumerate(ids):
            if k in b2: run.reject(b2[k][0], b2[k][1], dict(commands=hs[i].cmds))

def hists(run, k, n, fams, fill, kinds='[0, 0, 1]', maxz=5, big=0, indef=False):
    out = []
    for c in points.gen(run, k, n, fams, kinds=kinds, maxz=maxz, optmode=0, budgets=0, big=big):
        if indef: c = indefinite(c, run.rng)
        h = Hist([c, indefinite(c, run.rng) if indef else tweak(c, run.rng)], run.rng); fill(h); out.append(h)
    return out

def driver(run):
    b = build('comp', 'comp.cc', need=False)
    if b is None: run.assume.append('the component interfaces changed: driver does not build, nothing judged')
    return b

def C13(run):
    b = driver(run)
    run.rules.append('every operator on random dense and MPC data with scalings in {0,+-1,2,-1/2,3,-9/4}, dyadic vectors (exact), NaN/Inf output contents for b=0, wrong sizes '
                     'and null outputs for MPC, owned and mapped data; non-trivial: a history (>= 30 products on two problems)')
    for k in run.rounds(1):
        if b: judge(run, b, hists(run, k, 110, '[0, 1, 5]', lambda h: [gemv_op(h) for _ in range(34)], '[0, 1, 1]') + hists(run, k + 700, 10, '[0, 1, 5]', lambda h: [gemv_op(h) for _ in range(34)], '[0, 1, 1]', 10, 1), {13}, 1390, lambda h: len(h.cmds) > 30)

def C14(run):
    b = driver(run)
    run.rules.append('factorisations at integer, witness (kinks of the Fischer-Burmeister function) and random points, sigma from 1 to 1e-8, several right-hand sides, problems switched; '
                     'V dx = r checked with exactly evaluated C, D; non-trivial: a history with at least three solves')
    for k in run.rounds(1):
        if b: judge(run, b, hists(run, k, 120, '[0, 0, 1, 2, 5]', solves, '[0, 1]', 6) + hists(run, k + 700, 16, '[0, 0, 1, 2, 5]', solves, '[0, 1]', 10, 1) +
                    hists(run, k + 800, 34, '[0, 1, 5]', solves, '[1]', indef=True), {14}, 1490, lambda h: sum(c.startswith('LS') for c in h.cmds) >= 3)

def C15(run):
    b = driver(run)
    run.rules.append('random histories of link, assignment, margin initialisation, fill, copy, scaled addition, projection on three variables, starting unlinked, plus residuals and '
                     'solver writes; non-trivial: a history with at least six scaled additions')
    for k in run.rounds(1):
        if b: judge(run, b, hists(run, k, 200, '[0, 1, 2, 5]', lambda h: mix_ops(h, 45, dict(v=12, r=1, s=2))), {15}, 1590, lambda h: sum(c.startswith('VA') for c in h.cmds) >= 6)

def C16(run):
    b = driver(run)
    run.rules.append('residual operations (inner, natural, penalised, fill, negate, alpha, link) interleaved with changing variables; non-trivial: a history with at least six evaluations')
    for k in run.rounds(1):
        if b: judge(run, b, hists(run, k, 170, '[0, 1, 2, 5]', lambda h: mix_ops(h, 45, dict(v=8, r=12, f=1))), {16}, 1690, lambda h: sum(c[:2] in ('RI', 'RT', 'RP') for c in h.cmds) >= 6)

def C17(run):
    b = driver(run)
    run.rules.append('exact certificates of generated infeasible and unbounded problems, scaled, negated and moved by multiples of the tolerance (ties decided exactly where double '
                     'arithmetic is exact), tiny directions around 1e-14; non-trivial: a history with at least ten checks')
    for k in run.rounds(1):
        if b: judge(run, b, hists(run, k, 220, '[2, 3, 4, 4, 0, 5]', lambda h: dirs(h, 22), '[0, 0, 1]'), {17}, 1790, lambda h: sum(c.startswith('FC') for c in h.cmds) >= 10)

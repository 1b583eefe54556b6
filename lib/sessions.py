"""Histories of solver objects judged by session.qnt: C07, C08, C11, C19, C12 (display independence), C21."""
from run import *
import worlds
import copy

class Interner(dict):
    def id(self, x):
        k = json.dumps(x)
        return self.setdefault(k, len(self))

NANB = 0x7ff8000000000000
def cbits(h):
    x = float.fromhex(h)
    return NANB if x != x else bits(h)

def shape_of(kind, arr, g):
    gs = [len(x) for x in g]
    if kind == 0:
        A = arr
        return [A['H'][1], A['H'][2], len(A['f'][3]), A['G'][1], A['G'][2], len(A['h'][3]), A['A'][1], A['A'][2], len(A['b'][3])] + gs
    o = []
    for k in MARR: o += list(arr[k][:3])
    return o + [len(arr['x0'][3])] + gs

class Session:
    """A list of commands with the knowledge needed to turn the records into events."""
    def __init__(self):
        self.cmds = []; self.meta = []; self.cases = {}; self.probs = Interner(); self.guesses = Interner(); self.kinds = {}; self.disp = {}
        self.add('P', ('preset',)); self.unique = False
    def add(self, cmd, meta): self.cmds.append(cmd); self.meta.append(meta)
    def case(self, cid, c, arr, kind, dim, must):
        self.cases[cid] = (arr, kind, must)
        self.add(cmd_case(cid, c, arr, kind, dim), None)
    def new(self, slot, kind, d, v4=False):
        k = 2 if v4 and kind else kind
        self.kinds[slot] = kind; self.disp[slot] = 1
        self.add('N %d %d %d %d %d %d' % ((slot, k) + tuple(d)), ('new', slot, kind, d))
    def opts(self, slot, o): self.disp[slot] = int(o[20]); self.add(cmd_opts(slot, o), ('opts', slot, o))
    def drop(self, slot): self.add('D %d' % slot, None)
    def call(self, slot, cid, g, iface=0, ds=0): return ('solve', slot, cid, g, iface, ds, self.disp[slot])
    def solve(self, slot, cid, g, iface=0, ds=0):
        self.add(cmd_solve(slot, cid, g, iface, ds), self.call(slot, cid, g, iface, ds))
    def nest(self, outer, subs):
        """outer: a call; subs: (line, call) to run in the middle of it, after it printed that many lines"""
        w = lambda m: cmd_solve(*m[1:6])[2:]
        self.add('I %s %d %s' % (w(outer), len(subs), ' '.join('%d %s' % (n, w(m)) for n, m in subs)), ('many', [outer], [m for _, m in subs]))
    def threads(self, calls):
        w = lambda m: cmd_solve(*m[1:6])[2:]
        self.add('T %d %s' % (len(calls), ' '.join('%d %s' % (len(t), ' '.join(map(w, t))) for t in calls)), ('many', [], [m for t in calls for m in t]))

    def events(self, recs):
        ev = [([9], [])]; where = [0]
        for n, (m, r) in enumerate(zip(self.meta, recs)):
            if m is None or r.get('k') in ('crash', 'hang'): continue
            self.at = n
            if m[0] == 'released': e = ([7, r['u']], [])
            elif m[0] == 'preset': e = ([5], fv(r['dd']))
            elif m[0] == 'new': e = ([1, m[1], m[2]] + list(m[3]) + [r['exc']], [])
            elif m[0] == 'opts': e = ([2, m[1], r['exc']], fv(m[2]))
            elif m[0] == 'many':
                for mm, rr in [(x, r) for x in m[1]] + list(zip(m[2], r['sub'])):
                    if rr.get('done', 1): ev.append(self.outcome(mm, rr)); where.append(n)
                continue
            else: e = self.outcome(m, r)
            ev.append(e); where.append(n)
        return ev, where

    def outcome(self, m, r):
        _, slot, cid, g, iface, ds, disp = m
        arr, kind, must = self.cases[cid]
        sh = shape_of(kind, arr, g)
        gid = self.at if self.unique else self.guesses.id([hexs(x) for x in g[:3]]); pid = self.probs.id([kind, arr])
        out = [r['exc']] if r['exc'] else [0, r['flag'], r['newton'], r['prox']] + [cbits(x) for x in r['res'][:2] + r['z'] + r['l'] + r['v'] + r['y']]
        # stdout may be written only by the default stream and only when display is on
        quiet = int(bool((r['stdout'] == 0) if (not ds or disp == 0) else (r['exc'] or r['stdout'] > 0)))
        if disp == 0 and r['log']: quiet = 0
        nanb = any(x != x for x in flat([a[3] for a in arr.values()])) or any(isinstance(x, float) and x != x for x in flat(g[:3]))
        return ([3, slot, pid, gid, r['exc'], r['canary'], r['intact'], r['untouched'], quiet, int(must and not nanb)] + [len(sh)] + sh + [len(out)] + out, [])

def judge(run, binp, sess, wanted, crash_code=None, spec='session', rule_nontrivial=2):
    def verdict(ss):
        rs = run_driver(binp, [s.cmds for s in ss], run.d)
        evs = [s.events(r) for s, r in zip(ss, rs)]
        # several sessions share a trace module; they use distinct slots only within themselves, so each gets its own machine
        out = {}
        b = validate(run.d, spec, [e for e, _ in evs], stateful=True, shard=300)
        pos = 0
        for s, (e, where), r in zip(ss, evs, rs):
            for i in range(len(e)):
                if pos + i in b:
                    w = [x for x in b[pos + i] if x // 100 in wanted or x in wanted]
                    if w: out.setdefault(id(s), []).append((w, s.cmds[where[i]][:300], r[where[i]]))
            pos += len(e)
            if crash_code and r[-1].get('k') in ('crash', 'hang'):
                out.setdefault(id(s), []).append(([crash_code], r[-1].get('at', '')[:300], r[-1]))
        return out, rs
    bad, rs = verdict(sess)
    for s, r in zip(sess, rs):
        solves = [x for x in r if x.get('k') in ('S', 'I')] + [y for x in r for y in x.get('sub', []) if y['done']]
        run.evals += len(solves)
        if len(set((x['exc'], x['flag']) for x in solves)) >= rule_nontrivial: run.nontriv += 1
    for s, r in list(zip(sess, rs))[:1]:
        run.samples.append([dict(cmd=c[:80], exc=x.get('exc'), flag=x.get('flag'), newton=x.get('newton')) for c, x in zip(s.cmds, r)][:12])
    if bad:
        again = [s for s in sess if id(s) in bad][:10]
        b2, _ = verdict(again)
        for s in again:
            if id(s) in b2:
                w, cmd, rec = b2[id(s)][0]
                run.reject(w, dict(command=cmd, exc=rec.get('exc'), flag=rec.get('flag')), dict(session=s.cmds, rejected=[x[:2] for x in b2[id(s)]]))

# ------------------------------------------------------------------ building histories
def variants(c, rng):
    """Problems of the same size: the generated one and modifications of unknown status."""
    a0 = arrays(c); kind = c['mpc']
    out = [(a0, c['fam'] in (0, 2))]
    def mod(f):
        a = {k: (v[0], v[1], v[2], list(v[3])) for k, v in a0.items()}
        f(a); return a
    lin, rhs, cost = (('f',), 'b', ('H',)) if not kind else (('q', 'r'), 'd', ('Q', 'R', 'S'))
    def neg(a):
        for k in lin: a[k] = a[k][:3] + ([-x + 1 for x in a[k][3]],)
    def tight(a): a[rhs] = a[rhs][:3] + ([x + (7 if kind else -7) * rng.choice([0, 1, 1]) for x in a[rhs][3]],)
    def flatten(a):
        for k in cost: a[k] = a[k][:3] + ([0.0 for x in a[k][3]],)
    def indef(a):
        for k in cost[:2]: a[k] = a[k][:3] + ([-3 * x for x in a[k][3]],)
    def nan(a):
        k = rng.choice(sorted(k for k in a if a[k][3])); v = list(a[k][3]); v[rng.randrange(len(v))] = float('nan'); a[k] = a[k][:3] + (v,)
    pd = c['fam'] in (0, 2)
    out += [(mod(neg), pd), (mod(tight), pd), (mod(flatten), False), (mod(indef), False), (mod(nan), False)]
    return out

def bend(arr, rng):
    """A malformed version: one array gets an inconsistent size."""
    a = {k: (v[0], v[1], v[2], list(v[3])) for k, v in arr.items()}
    k = rng.choice(sorted(a)); l, r, cc, d = a[k]
    how = rng.randrange(3)
    if k in 'fhb' and 'H' in a or k == 'x0': how = 1
    if how == 0: l += rng.choice([1, -1]) if 'H' not in a else 0
    if how == 1 or (how == 0 and 'H' in a): r += rng.choice([1, -1, 2])
    if how == 2: cc += rng.choice([1, -1, 2])
    l, r, cc = max(l, 0), max(r, 0), max(cc, 0)
    if (l, r, cc) == arr[k][:3]: r += 1
    d = [1.0] * (l * r * cc)
    a[k] = (l, r, cc, d)
    return a

def dims4(c): return (c['N'], c['nx'], c['nu'], c['nc']) if c['mpc'] else (c['nz'], c['nl'], c['nv'], 0)

def cguesses(c, rng):
    g = guess_of(c)
    zero = [[0.0] * len(x) for x in g]
    far = [[30.0 * x + 1 for x in y] for y in g]
    bad = copy.deepcopy(g); k = rng.randrange(3)
    if bad[k]: bad[k][rng.randrange(len(bad[k]))] = float('nan')
    return [g, zero, far, bad]

def copts(c, rng):
    o = opts_of(c)
    d = [1e-8, 1e-6, 1e-12, .95, .75, 1e-8, .2, .1, 1e-6, 1e-12, 1e-10, 1e-8, 1e-2, 1e-12, 200, 30, 50, 20, 1, 1, 0]
    r = [1e-4, 1e-2, 1e-10, .95, .9, 1e-8, .2, .1, 1e-4, 1e-6, 1e-10, 1e-8, 1e-2, 1e-12, 500, 100, 50, 40, 1, 0, 0]
    tiny = list(d); tiny[14] = rng.randrange(1, 6)
    tiny2 = list(r); tiny2[15] = 1
    one = list(o); one[3] = rng.choice([.3, .5, .8]); one[16] = rng.randrange(2, 20)
    return [d, r, tiny, tiny2, o, one]

def history(cases, rng, length):
    """Interleaved use of solver objects for the given cases (one or two sizes)."""
    s = Session(); pools = []; cid = 0
    for c in cases:
        ps = []
        for a, must in variants(c, rng):
            s.case(cid, c, a, c['mpc'], dims4(c), must); ps.append((cid, a)); cid += 1
        for _ in range(3):
            a = bend(arrays(c), rng)
            s.case(cid, c, a, c['mpc'], dims4(c), False); ps.append((cid, a)); cid += 1
        pools.append((c, ps, cguesses(c, rng), copts(c, rng)))
    keys = []
    slots = {}
    nslot = 3
    cur = {}
    for sl in range(nslot):
        i = sl % len(cases); c = cases[i]; s.new(sl, c['mpc'], dims4(c), rng.random() < .3); slots[sl] = i; cur[sl] = None
    for step in range(length):
        sl = rng.randrange(nslot); i = slots[sl]; c, ps, gs, os = pools[i]
        x = rng.random()
        if x < .22:
            o = list(rng.choice(os)); o[20] = rng.choice([0, 0, 1, 2, 3])
            s.opts(sl, o); cur[sl] = o
        elif x < .28:
            s.new(rng.randrange(nslot, nslot + 3), c['mpc'], [d if rng.random() < .7 else -d if rng.random() < .5 else 0 for d in dims4(c)])
        elif x < .34:
            i = rng.randrange(len(cases)); c = cases[i]
            s.drop(sl); s.new(sl, c['mpc'], dims4(c)); slots[sl] = i; cur[sl] = None
        else:
            w = rng.random()
            pi = rng.randrange(0, 3) if w < .6 else rng.randrange(3, 6) if w < .85 else rng.randrange(6, 9)
            g = copy.deepcopy(gs[rng.randrange(3) if rng.random() < .9 else 3])
            if rng.random() < .06:
                k = rng.randrange(4); g[k] = g[k] + [1.0] if rng.random() < .5 or not g[k] else g[k][:-1]
            if rng.random() < .3 and g[3]: g[3][rng.randrange(len(g[3]))] = rng.choice([1e3, -2.5, float('nan')])
            s.solve(sl, ps[pi][0], g, 0, int(rng.random() < .15))
            keys.append((i, cur[sl], ps[pi][0], g))
    # afterwards: every call again on a fresh object that has never done anything else
    rng.shuffle(keys)
    for n, (i, o, pid, g) in enumerate(keys[:14]):
        c = cases[i]; sl = 20 + n
        s.new(sl, c['mpc'], dims4(c))
        if o is not None: s.opts(sl, o)
        s.solve(sl, pid, g)
    return s

def gen(run, k, n, fams, **kw):
    import points
    return points.gen(run, k, n, fams, **kw)

def C07(run):
    worlds.check(run, ['Line'], {791})
    b = build('api', 'api.cc')
    run.rules.append('random histories over two sizes and three live solver objects: option updates, recreated objects, infeasible, unbounded, indefinite, NaN and malformed '
                     'problems, timeouts; then every call repeated on a fresh object; session.qnt remembers all outcomes (bit patterns) and requires equality; '
                     'counted as non-trivial: a history with at least four different (exception, flag) outcomes')
    for k in run.rounds(1):
        cs = gen(run, k, 96, '[0, 0, 1, 2, 3, 5]', budgets=0, kinds='[0, 1]', maxz=4)
        ss = [history([cs[2 * i], cs[2 * i + 1]], run.rng, 26) for i in range(48)]
        judge(run, b, ss, {7, 1003}, rule_nontrivial=4)

def C08(run):
    b = build('api', 'api.cc')
    run.rules.append('each solve repeated through every combination of owned and mapped problem data and guess (four dense, six MPC), canaries around all mapped arrays, '
                     'data compared afterwards; outcomes must be bit-identical; non-trivial: a session with at least two different outcomes')
    for k in run.rounds(1):
        cs = gen(run, k, 110, '[0, 1, 2, 3, 5]', budgets=1, kinds='[0, 1]', maxz=5)
        ss = []
        for c in cs:
            s = Session(); rng = run.rng
            vs = variants(c, rng)
            use = [vs[0]] + rng.sample(vs[1:], 2)
            o = opts_of(c)
            s.new(0, c['mpc'], dims4(c)); s.opts(0, o)
            for cid, (a, must) in enumerate(use):
                s.case(cid, c, a, c['mpc'], dims4(c), must)
                for g in cguesses(c, rng)[:2]:
                    for iface in ([0, 1, 2, 3] if not c['mpc'] else [0, 1, 2, 3, 5, 7]): s.solve(0, cid, g, iface)
            ss.append(s)
        judge(run, b, ss, {8, 701}, rule_nontrivial=2)

def C11(run):
    b = build('api', 'api.cc')
    run.rules.append('constructor sizes (valid and not) and problems or guesses in which one array has an inconsistent size, through owned and mapped interfaces, between valid '
                     'solves that must be unaffected; which calls are malformed is decided by session.qnt from the sizes; non-trivial: a session with an accepted and a rejected solve')
    for k in run.rounds(1):
        cs = gen(run, k, 120, '[0, 2]', budgets=0, optmode=2, kinds='[0, 1]', maxz=5)
        ss = []
        for c in cs:
            s = Session(); rng = run.rng; d = dims4(c)
            for t in range(6):
                e = list(d)
                for j in range(4 if c['mpc'] else 3):
                    if rng.random() < .4: e[j] = rng.choice([0, -1, -3, e[j], 1])
                s.new(10 + t, c['mpc'], e, rng.random() < .5)
            s.new(0, c['mpc'], d); s.opts(0, opts_of(c))
            g = guess_of(c); a0 = arrays(c)
            s.case(0, c, a0, c['mpc'], d, True); s.solve(0, 0, g)
            for t in range(14):
                x = rng.random(); gg = copy.deepcopy(g); cid = 0
                if x < .6:
                    cid = t + 1; s.case(cid, c, bend(a0, rng), c['mpc'], d, False)
                else:
                    q = rng.randrange(4); gg[q] = gg[q] + [0.5] if rng.random() < .5 or not gg[q] else gg[q][:-1]
                s.solve(0, cid, gg, rng.choice([0, 1, 2, 3]))
                if t % 4 == 3: s.solve(0, 0, g)
            # a consistent problem of another size on this solver, and a wrong solver for this problem
            e = list(d); j = rng.randrange(4 if c['mpc'] else 3); e[j] += 1
            s.new(1, c['mpc'], e); s.solve(1, 0, g)
            s.solve(0, 0, g)
            ss.append(s)
        judge(run, b, ss, {11, 701}, crash_code=1190, rule_nontrivial=2)

def C24(run):
    b = build('api', 'api.cc')
    run.rules.append('four problems of different sizes and kinds; each solved once on a fresh object alone (twice, in opposite orders), then on fresh objects with solves of others (and of '
                     'itself) running inside it at points chosen among its printed lines, then on fresh objects in eight threads at once; session.qnt remembers the outcome (bit patterns) of '
                     'each call and requires equality; non-trivial: a session with at least three different outcomes')
    nested = 0
    for k in run.rounds(1):
        cs = gen(run, k, 80, '[0, 0, 0, 1, 2, 3, 5]', budgets=0, kinds='[0, 1]', maxz=5)
        ss = []
        for t in range(20):
            s = Session(); rng = run.rng; four = cs[4 * t:4 * t + 4]; sets = []; n = [0]
            for i, c in enumerate(four):
                a, must = variants(c, rng)[0 if rng.random() < .7 else rng.randrange(6)]
                s.case(i, c, a, c['mpc'], dims4(c), must)
                o = list(rng.choice(copts(c, rng))); o[20] = rng.choice([2, 3, 3]); sets.append((c, o, cguesses(c, rng)[rng.randrange(3)]))
            def fresh(i):
                c, o, g = sets[i]; n[0] += 1
                s.new(n[0], c['mpc'], dims4(c)); s.opts(n[0], o); return s.call(n[0], i, g)
            order = list(range(4)); rng.shuffle(order)
            for i in order + order[::-1]: m = fresh(i); s.solve(*m[1:6])
            for i in order:
                for _ in range(2):
                    lines = sorted(rng.sample(range(1, 14), 4)) if rng.random() < .6 else [1, 2, 3, 4]
                    subs = [(l, fresh(rng.randrange(4))) for l in lines]
                    s.nest(fresh(i), subs)
            s.threads([[fresh((x + y * (1 + x // 4)) % 4) for y in range(6)] for x in range(8)])
            ss.append(s)
        judge(run, b, ss, {701}, crash_code=2490, rule_nontrivial=3)

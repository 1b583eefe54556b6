"""C10: option validation, storage and use."""
from run import *
import points, sessions

def dval(m, e):
    if e == 999: return math.copysign(float('inf'), m)
    return float('%de%d' % (m, e))
def ovec(c): return [dval(m, e) for m, e in zip(c['m'], c['e'])] + [float(c['display'])]

def vevent(kind, a, b, exc=0, exc2=0, idem=1):
    a = hexs(a); b = hexs(b)
    i = lambda o: [int(float.fromhex(x)) for x in o[14:]]
    return [kind, exc, exc2, idem] + i(a) + i(b), fv(a[:14]) + fv(b[:14])

def C10(run):
    b = build('api', 'api.cc')
    priv = build('priv', 'priv.cc', flags=('-DPRIV',), need=False); own = build('own', 'priv.cc', need=False)
    run.rules.append('option vectors with fields below, at, inside and above their ranges (optgen.qnt); what validation makes of them, what is stored by FBstabAlgorithm, FBstabDense and '
                     'FBstabMpc and the presets are judged by options.qnt; strictly convex feasible problems are solved under such options (no exception) and again under the '
                     'validated options (identical result, session.qnt); non-trivial: vectors in which validation must change a field, plus solves')
    if not priv: run.assume.append('parameters stored inside FBstabDense/FBstabMpc not read (their private layout changed)')
    for k in run.rounds(1):
        ocs = generate(run.d, 'optgen', {}, 700, run.seed(2 * k), tag='o%d_' % k)
        vecs = [ovec(c) for c in ocs]
        def vcheck(vs):
            ev = []; what = []
            rs = run_driver(b, [['V ' + ' '.join(map(num, v))] for v in vs] + [['W ' + ' '.join(map(num, v))] for v in vs[:24]] + [['P']], run.d, 'v')
            valid = []
            for v, r in zip(vs, rs[:len(vs)]):
                r = r[0]
                if r.get('k') != 'V': valid.append(None); continue
                valid.append(r['o']); ev.append(vevent(0, v, r['o'], r['exc'], r['exc2'], r['idem'])); what.append(dict(call='ValidateOptions', options=v, after=r['o'], exc=r['exc']))
            for p in rs[len(vs):]:       # the last one: presets from scratch, the others: on top of other values
                for kk, kind in (('dd', 1), ('md', 1), ('dr', 2), ('mr', 2)):
                    ev.append(vevent(kind, p[0][kk], p[0][kk])); what.append(dict(call='preset ' + kk, after=p[0][kk]))
            for binp, names in ((priv, ('FBstabDense', 'FBstabMpc')), (own, ('FBstabAlgorithm',))):
                if not binp: continue
                rs = run_driver(binp, [['U ' + ' '.join(map(num, v))] for v in vs], run.d, 'u')
                for v, r in zip(vs, rs):
                    if r[0].get('k') != 'U': continue
                    for nm, g in zip(names, r[0]['got']):
                        ev.append(vevent(3, v, g['o'], g['exc'])); what.append(dict(call='UpdateOptions of ' + nm, options=v, stored=g['o'], exc=g['exc']))
            bad = validate(run.d, 'options', ev, shard=300, tag='v')
            return valid, ev, {i: (bad[i], what[i]) for i in bad}
        valid, ev, bad = vcheck(vecs)
        run.evals += len(ev)
        run.nontriv += sum(1 for v, w in zip(vecs, valid) if w and hexs(v) != w)
        run.samples += [dict(options=v, validated=[float.fromhex(x) for x in w]) for v, w in zip(vecs[:2], valid) if w]
        for i in sorted(bad)[:10]: run.reject(bad[i][0], bad[i][1], bad[i][1])
        # solves
        cs = points.gen(run, 2 * k + 1, 230, '[0]', kinds='[0, 0, 1]', optmode=0, budgets=0, maxz=5)
        items = []
        for i, c in enumerate(cs):
            v = list(vecs[i]); w = valid[i]
            for j in (14, 15, 16, 17):
                if v[j] > 1000: v[j] = 150.0
            v[20] = 0.0
            items.append((c, v))
        def solves(items):
            rs = run_driver(b, [['V ' + ' '.join(map(num, v))] for _, v in items], run.d, 'w')
            ss = []; js = []
            for (c, v), r in zip(items, rs):
                if r[0].get('k') != 'V' or r[0]['exc']: ss.append(None); continue
                w = [float.fromhex(x) for x in r[0]['o']]
                s = sessions.Session(); s.case(0, c, arrays(c), c['mpc'], sessions.dims4(c), True)
                s.new(0, c['mpc'], sessions.dims4(c)); g = guess_of(c)
                for o in (v, w):
                    s.disp[0] = 0; s.add(cmd_opts(0, o), ('opts', 0, w))       # both must act like the validated vector
                    s.solve(0, 0, g)
                s.w = w; ss.append(s)
            live = [i for i, s in enumerate(ss) if s]
            rr = run_driver(b, [ss[i].cmds for i in live], run.d, 'z', timeout=200)
            evs = [ss[i].events(r)[0] for i, r in zip(live, rr)]
            bad = {}
            v1 = validate(run.d, 'session', evs, stateful=True, shard=300, tag='s'); pos = 0
            for i, e in zip(live, evs):
                for n in range(len(e)):
                    w = [x for x in v1.get(pos + n, []) if x in (701, 1003, 1104, 2102)]
                    if w: bad.setdefault(i, []).extend(w)
                pos += len(e)
            for i, r in zip(live, rr):
                if r[-1].get('k') in ('crash', 'hang'): bad.setdefault(i, []).append(1091)
            return bad, rr, len(live)
        bad, rr, n = solves(items)
        run.evals += 2 * n; run.nontriv += n
        run.samples.append([dict(flag=r[-1].get('flag'), newton=r[-1].get('newton')) for r in rr[:5]])
        if bad:
            ids = sorted(bad)[:20]
            b2, r2, _ = solves([items[i] for i in ids])
            for t, i in enumerate(ids):
                if t in b2: run.reject(sorted(set(b2[t])), dict(call='Solve', options=items[i][1]), dict(case=items[i][0], options=items[i][1]))

"""C12: what solves print, judged by log.qnt; display independence by session.qnt."""
from run import *
import points, sessions, copy

F = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)'
def rx(s): return re.compile(r'^\s*' + s.replace('#I', r'(-?\d+)').replace('#F', '(' + F + ')') + r'\s*$')
MSG = {'Success': 0, 'Divergence': 1, 'Iteration limit exceeded': 2, 'Primal Infeasibility': 3, 'Dual Infeasibility': 4, 'Primal-Dual Infeasibility': 5}
SEP = r'[\s,|;]+'
KINDS = [(3, rx(r'Time elapsed:.*')), (4, rx(r'Proximal iterations:\s*#I out of\s*#I')), (5, rx(r'Newton iterations:\s*#I out of\s*#I')),
         (6, rx(r'\|rz\|\s+\|rl\|\s+\|rv\|\s+Tolerance')), (8, rx(r'prox iter\s+newton iters\s+\|rz\|\s+\|rl\|\s+\|rv\|\s+Inner res\s+Inner tol')),
         (10, rx(r'Begin Prox Iter:\s*#I,\s*Total Newton Iters:\s*#I,\s*Residual:\s*#F')),
         (11, rx(r'Iter\s+Step Size\s+\|rz\|\s+\|rl\|\s+\|rv\|')), (13, rx(r'Exiting inner loop\. Inner residual:\s*#F,\s*Inner tolerance:\s*#F')),
         (9, rx(r'#I\s+#I\s+#F\s+#F\s+#F\s+#F\s+#F')), (12, rx(r'#I\s+#F\s+#F\s+#F\s+#F')), (7, rx(r'#F\s+#F\s+#F\s+#F'))]
NI = {4: 2, 5: 2, 9: 2, 10: 2, 12: 1}

def classify(line):
    if not line.strip(): return (0, [], [])
    m = re.match(r'^\s*Optimization completed!.*Exit code:\s*(.*?)\s*$', line)
    if m: return (1, [MSG.get(m.group(1), -1)], [])
    for k, r in KINDS:
        m = r.match(line)
        if m:
            g = list(m.groups()); n = NI.get(k, 0)
            return (k, [int(x) for x in g[:n]], [float(x) for x in g[n:]])
    return (99, [], [])

def lines_of(log):
    t = ''.join(log)
    return [classify(l) for l in t.split('\n')] if t else []

def event(c, o, g, rec, pre):
    """pre: records of the runs with max_prox_iters = 1.. (only the regular ones, in order)."""
    P = []
    for k, x in enumerate(pre):
        if x.get('k') != 'S' or x['exc'] or x['flag'] != 2 or x['prox'] != k + 1: break
        P.append(x)
    ls = lines_of(rec['log'])
    I = [int(o[20]), rec['flag'], rec['newton'], rec['prox'], int(o[14]), int(o[15]), int(o[16]), len(P)] + [x['newton'] for x in P] + prob_ints(c) + [len(ls)]
    X = []
    for t, i, x in ls: I += [t, len(i)] + i + [len(x)]; X += x
    D = fv([rec['res'][0], rec['res'][1], o[8], o[9], o[4], o[3]]) + fv([x['res'][0] for x in P]) + fv(flat(g[:3])) + fv(flat([rec[k] for k in 'zlvy'])) + fv(X)
    return I, D

def C12(run):
    b = build('api', 'api.cc')
    run.rules.append('each case solved with every display level through a recording stream and through the default stream (what reached stdout); log.qnt parses what was printed and compares it with what '
                     'the solve and its prefix runs returned; session.qnt requires identical results for all levels and an untouched stdout; non-trivial: at least two proximal iterations')
    for k in run.rounds(1):
        cs = points.gen(run, 2 * k, 150, '[0, 1, 2, 3, 5]', budgets=1, kinds='[0, 0, 1]', maxz=4)
        opts = []
        for i, c in enumerate(cs):
            o = opts_of(c)
            if i % 4 == 1: o[16] = 1 + c['sel'][5] % 6
            if i % 4 == 2: o[14] = 2 + c['sel'][5] % 9
            if i % 4 == 3: o[15] = 1 + c['sel'][5] % 4
            opts.append(o)
        def jobs(ids):
            gr = []; ss = []
            for i in ids:
                c, o = cs[i], opts[i]; g = guess_of(c)
                s = sessions.Session(); s.case(0, c, arrays(c), c['mpc'], sessions.dims4(c), False); s.new(0, c['mpc'], sessions.dims4(c))
                for lv in (0, 1, 2, 3):
                    p = list(o); p[20] = lv; s.opts(0, p); s.solve(0, 0, g)
                    s.solve(0, 0, g, 0, 1)
                for q in range(1, min(int(o[15]) - 1, 8) + 1):
                    p = list(o); p[20] = 0; p[15] = q; s.opts(0, p); s.solve(0, 0, g)
                ss.append(s)
            return ss
        def verdict(ids):
            ss = jobs(ids)
            rs = run_driver(b, [s.cmds for s in ss], run.d)
            bad = {}
            ev = []; ix = []
            for i, s, r in zip(ids, ss, rs):
                sv = [x for x in r if x.get('k') == 'S']
                if len(sv) < 8: continue
                pre = sv[8:]
                for lv in (0, 1, 2, 3):
                    o = list(opts[i]); o[20] = lv; x = sv[2 * lv]
                    if x['exc'] == 0: ev.append(event(cs[i], o, guess_of(cs[i]), x, pre)); ix.append(i)
                    x = sv[2 * lv + 1]      # the same through the default stream: what reached stdout
                    if x['exc'] == 0: ev.append(event(cs[i], o, guess_of(cs[i]), dict(x, log=x['text']), pre)); ix.append(i)
            for n, codes in validate(run.d, 'log', ev, shard=80).items():
                w = [x for x in codes if x // 100 == 12]
                if w: bad.setdefault(ix[n], []).extend(w)
            evs = [s.events(r)[0] for s, r in zip(ss, rs)]
            v2 = validate(run.d, 'session', evs, stateful=True, shard=300, tag='s')
            pos = 0
            for i, e in zip(ids, evs):
                for n in range(len(e)):
                    if pos + n in v2:
                        w = [x for x in v2[pos + n] if x in (701, 1201)]
                        if w: bad.setdefault(i, []).extend(w)
                pos += len(e)
            return bad, len(ev), rs
        bad, n, rs = verdict(list(range(len(cs))))
        run.evals += n
        for r in rs:
            sv = [x for x in r if x.get('k') == 'S']
            if len(sv) >= 8 and sv[0]['exc'] == 0 and sv[0]['prox'] >= 2: run.nontriv += 1
        for i, r in list(enumerate(rs))[:2]:
            sv = [x for x in r if x.get('k') == 'S']
            if len(sv) >= 8: run.samples.append(dict(flag=sv[0]['flag'], newton=sv[0]['newton'], prox=sv[0]['prox'], iter_log=''.join(sv[4]['log'])[:800]))
        if bad:
            ids = sorted(bad)[:20]
            b2, _, rs2 = verdict(ids)
            for i, r in zip(ids, rs2):
                if i in b2:
                    sv = [x for x in r if x.get('k') == 'S']
                    run.reject(sorted(set(b2[i])), dict(flag=sv[0].get('flag'), exc=sv[0].get('exc')), dict(case=cs[i], options=opts[i], logs=[''.join(x['log']) for x in sv[:8]]))

"""C28: the time a solve reports, judged by stopwatch.qnt."""
from run import *
import points, sessions, logs

def C28(run):
    b = build('api', 'api.cc')
    run.rules.append('several solves in turn on one object, with every display level, printing to a stream that keeps the processor busy for 0.4 ms per line; stopwatch.qnt brackets the '
                     'reported time between the processor time spent from the first line to the completion message and the duration of the call; non-trivial: at least 1 ms spent printing')
    run.assume.append('the clock of the machine is not set back while a solve runs')
    for k in run.rounds(1):
        cs = points.gen(run, 2 * k, 60, '[0, 1, 2, 3, 5]', budgets=1, kinds='[0, 0, 1]', maxz=4)
        ss = []
        for n, c in enumerate(cs):
            s = sessions.Session(); s.case(0, c, arrays(c), c['mpc'], sessions.dims4(c), False); s.new(0, c['mpc'], sessions.dims4(c))
            o = opts_of(c); g = guess_of(c); s.lv = []
            for lv in ([2, 0, 3, 1] if n % 2 else [1, 3, 2, 0]):
                p = list(o); p[20] = lv; s.opts(0, p)
                s.add('Y 0.4 ' + cmd_solve(0, 0, g)[2:], None); s.lv.append(lv)
            ss.append(s)
        def verdict(ss):
            rs = run_driver(b, [s.cmds for s in ss], run.d); ev = []; ix = []
            for i, (s, r) in enumerate(zip(ss, rs)):
                for lv, x in zip(s.lv, [x for x in r if x.get('k') == 'Y']):
                    kinds = []; ms = []
                    for l in x['log']:
                        m = re.search(r'Time elapsed:\s*(%s)' % logs.F, l)
                        kinds.append(1 if 'Optimization completed' in l else 2 if m else 0)
                        if m: ms.append(float(m.group(1)))
                    ev.append(([lv, x['exc'], len(kinds)] + kinds, fv([x['res'][2]] + x['took'] + x['stamps']) + fv(ms[:1]))); ix.append((i, x))
            return [(ix[n][0], c, ix[n][1]) for n, c in validate(run.d, 'stopwatch', ev, shard=100).items()], ix
        bad, ix = verdict(ss)
        run.evals += len(ix)
        for i, x in ix:
            st = [float.fromhex(t) for t in x['stamps']]
            if len(st) > 2 and st[-1] - st[0] > 1e-3: run.nontriv += 1
        if k == 0: run.samples += [dict(flag=x['flag'], solve_time=float.fromhex(x['res'][2]), call=float.fromhex(x['took'][0]), lines=len(x['log'])) for _, x in ix[:3]]
        if bad:
            ids = sorted(set(i for i, _, _ in bad))[:10]
            for _, codes, x in verdict([ss[i] for i in ids])[0]:
                run.reject(codes, dict(solve_time=x['res'][2], took=x['took']), dict(record=x))

"""C25: memory discipline. The histories of the other checks run in builds that stop at an access outside the memory
of an object or argument, and in two builds whose fresh memory (heap and stack) holds different garbage."""
from run import *
import sessions, comps, seqs, copy
SAN = ('-DVERIF_ASSERT_ABORTS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,enum,bool', '-g1', '-Wl,--unresolved-symbols=ignore-all')
ENVS = {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=77', 'UBSAN_OPTIONS': 'print_stacktrace=0'}
FILL = [(('-ftrivial-auto-var-init=pattern',), {'GLIBC_TUNABLES': 'glibc.malloc.perturb=85'}), (('-ftrivial-auto-var-init=zero',), {'GLIBC_TUNABLES': 'glibc.malloc.perturb=170'})]

def works(flags, env):
    """Can this sandbox compile and run such a build at all?"""
    t = os.path.join(WORK, 'probe-%d' % os.getpid()); os.makedirs(WORK, exist_ok=True)
    open(t + '.cc', 'w').write('#include <vector>\nint main(int c, char**) { std::vector<int> v(c); return v[0]; }\n')
    ok = subprocess.run(['g++', *flags, t + '.cc', '-o', t], capture_output=True).returncode == 0 and subprocess.run([t], capture_output=True, env=dict(os.environ, **env)).returncode == 0
    for x in (t, t + '.cc'):
        if os.path.exists(x): os.remove(x)
    return ok

def material(run, k, n):
    """Sessions: histories of good and bad calls (as for C07 and C11), and calls inside and beside each other."""
    rng = run.rng
    cs = sessions.gen(run, k, 2 * n, '[0, 0, 1, 2, 3, 5]', budgets=0, kinds='[0, 1]', maxz=4) + sessions.gen(run, k + 500, max(2, n // 3), '[0, 0, 1, 2, 5]', budgets=0, kinds='[0, 1]', maxz=10, big=1)
    ss = [sessions.history(cs[2 * i:2 * i + 2], rng, 22) for i in range(len(cs) // 2)]
    for s in ss:      # every interface
        for i, (c, m) in enumerate(zip(s.cmds, s.meta)):
            if m and m[0] == 'solve' and rng.random() < .5:
                iface = rng.choice([0, 1, 2, 3, 5, 7]); w = c.split(' ', 4)
                s.cmds[i] = 'S %s %s %d %s %s' % (w[1], w[2], iface, w[4].split(' ', 1)[0], w[4].split(' ', 1)[1]); s.meta[i] = m[:4] + (iface,) + m[5:]
    return ss

def triple(s):
    """The session three times, everything destroyed after each."""
    t = copy.copy(s); c, m = list(s.cmds), list(s.meta)
    t.cmds = (c + ['U']) * 3; t.meta = (m + [('released',)]) * 3
    return t

def faults(run, binp, groups, tag, what):
    """Groups whose process did not end normally, judged (and confirmed) one by one."""
    rs = run_driver(binp, groups, run.d, tag, env=ENVS)
    ends = [(i, r[-1]) for i, r in enumerate(rs) if r[-1].get('k') == 'crash'][:4]
    run.evals += sum(len(r) for r in rs)
    for i, x in ends:
        again = run_driver(binp, [groups[i]], run.d, tag, env=ENVS)[0][-1]
        bad = validate(run.d, 'session', [[([9], []), ([8, int(again.get('k') == 'crash')], [])]], stateful=True)
        if bad: run.reject([2501], dict(part=what, command=again['at'][:200], fault=again['err'][:300]), dict(commands=groups[i]))
    return rs

def digest(x):
    h = hashlib.sha256(json.dumps(x, sort_keys=True).encode()).digest()
    return [int.from_bytes(h[k:k + 4], 'little') for k in (0, 4, 8, 12)]

def prebuild():
    san = works(SAN, ENVS)
    with cf.ThreadPoolExecutor(2) as ex:      # (each build is itself parallel)
        jobs = [ex.submit(build, 'api', 'api.cc', f) for f, _ in FILL] + [ex.submit(build, 'comp', 'comp.cc', f, False) for f, _ in FILL]
        if san: jobs += [ex.submit(build, m, m + '.cc', SAN, m == 'api') for m in ('api', 'comp', 'seq', 'objs', 'protocol', 'ldl')]
        return san, [j.result() for j in jobs]

def C25(run):
    run.rules.append('histories of valid, malformed, infeasible and NaN calls through every interface (session), random operations on the components (misuse included), matrix sequences, input structures and sparse factorisations, in an '
                     'address- and undefined-behaviour-sanitised build: the machine has no faulting step, and memory in use after destroying everything must not grow from one repetition to the '
                     'next; the sessions also run in two builds with different garbage in fresh memory, call by call with equal outcomes; non-trivial: a session with at least four different outcomes')
    san, got = prebuild()
    fill, cfill = got[:2], got[2:4]; got = got[2:]; api = got[2] if san else None
    if not san: run.assume.append('no sanitised build can run here: only the dependence on garbage was explored')
    for k in run.rounds(1):
        n = 24
        ss = material(run, k, n)
        if san:
            ts = [triple(s) for s in ss[::3]] + [s for i, s in enumerate(ss) if i % 3]
            rs = faults(run, api, [t.cmds for t in ts], 'san', 'solver')
            evs = [([([9], [])] + [([7, x['u']], []) for x in r if x.get('k') == 'U']) for t, r in zip(ts, rs)]
            bad = validate(run.d, 'session', evs, stateful=True)
            if bad:
                pos = 0
                for t, e in zip(ts, evs):
                    if any(pos + i in bad for i in range(len(e))):
                        r2 = run_driver(api, [t.cmds], run.d, 'san', env=ENVS)[0]
                        e2 = [([9], [])] + [([7, x['u']], []) for x in r2 if x.get('k') == 'U']
                        if validate(run.d, 'session', [e2], stateful=True): run.reject([2502], dict(memory_in_use=[x[0][1] for x in e2[1:]]), dict(commands=t.cmds))
                    pos += len(e)
            if got[3]:
                hs = comps.hists(run, k + 900, 24, '[0, 1, 2, 5]', lambda h: comps.mix_ops(h, 60, dict(v=4, r=4, f=2, s=4, m=6))) + comps.hists(run, k + 950, 8, '[0, 1, 2, 5]', lambda h: comps.mix_ops(h, 60, dict(v=4, r=4, f=2, s=4, m=6)), '[0, 1]', 10, 1)
                faults(run, got[3], [h.cmds for h in hs], 'comp', 'components')
            for b, spec, w in ((got[4], 'seq', 3), (got[5], 'objs', 4), (got[6], 'protocol', -1), (got[7], 'ldl', -1)):
                if not b: continue
                ops = generate(run.d, spec, {}, 240 if w > 0 else 960, run.seed(k + 40), tag='m%d_' % k); hs = []
                for o in ops:
                    if o[0] == 0: hs.append([])
                    if hs: hs[-1].append(' '.join(map(str, [len(o) - w] + o if w > 0 else o)))
                faults(run, b, hs, spec, 'containers')
        # garbage
        for s in ss: s.unique = True
        def both(ss):
            rr = [run_driver(b, [s.cmds for s in ss], run.d, 'g%d' % i, env=FILL[i][1]) for i, b in enumerate(fill)]
            evs = [s.events(a)[0] + s.events(c)[0][1:] for s, a, c in zip(ss, *rr)]
            bad = validate(run.d, 'session', evs, stateful=True, shard=400); out = set(); pos = 0
            for i, e in enumerate(evs):
                if any(701 in bad.get(pos + j, []) for j in range(len(e))): out.add(i)
                pos += len(e)
            return out, rr
        out, rr = both(ss)
        for s, a in zip(ss, rr[0]):
            sv = [x for x in a if x.get('k') == 'S']; run.evals += 2 * len(sv); run.nontriv += len(set((x['exc'], x['flag']) for x in sv)) >= 4
        run.samples += [ss[0].cmds[-3][:200]]
        if out:
            l = sorted(out)[:4]; o2, _ = both([ss[i] for i in l])
            for j, i in enumerate(l):
                if j in o2: run.reject([2503], dict(what='outcome depends on the contents of uninitialised memory'), dict(session=ss[i].cmds))
        if all(cfill):
            hs = comps.hists(run, k + 970, 24, '[0, 1, 2, 5]', lambda h: comps.mix_ops(h, 60, dict(v=4, r=4, f=2, s=4, m=6)))
            def seen(hs):
                rr = [run_driver(b, [h.cmds for h in hs], run.d, 'h%d' % i, env=FILL[i][1]) for i, b in enumerate(cfill)]
                evs = [[([9], [])] + [([10, 1, j] + digest(x), []) for r in rs for j, x in enumerate(r)] for rs in zip(*rr)]
                bad = validate(run.d, 'session', evs, stateful=True, shard=4000); out = []; pos = 0
                run.evals += sum(map(len, evs))
                for i, e in enumerate(evs):
                    b = [j for j in range(len(e)) if pos + j in bad]
                    if b: out.append((i, hs[i].cmds[(b[0] - 1) % len(hs[i].cmds)]))
                    pos += len(e)
                return out
            for i, cmd in seen(hs)[:4]:
                if seen([hs[i]]): run.reject([2503], dict(what='observation depends on the contents of uninitialised memory', command=cmd), dict(commands=hs[i].cmds))

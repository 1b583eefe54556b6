"""C18, C23, C26: histories of operations on containers, generated and judged by seq.qnt and objs.qnt."""
from run import *

def histories(run, driver, spec, n, code, line, event):
    b = build(driver, driver + '.cc', need=False)
    if b is None: run.assume.append('the %s driver does not build against this tree: nothing explored' % driver); return
    for k in run.rounds(1):
        ops = generate(run.d, spec, {}, n, run.seed(k), tag='s%d_' % k)
        hs = []
        for o in ops:
            if o[0] == 0 or not hs: hs.append([])
            if o[0] == 0 or hs[-1]: hs[-1].append(o)
        hs = [h for h in hs if h and h[0][0] == 0]
        def verdict(hs):
            rs = run_driver(b, [[line(o) for o in h] for h in hs], run.d, 'q')
            evs = []; what = []; out = []
            for h, r in zip(hs, rs):
                e = []
                for o, x in zip(h, r):
                    if x['k'] != 's': out.append(([code], x, h)); break
                    e.append((event(o, x), [])); what.append((h, o, x))
                evs.append(e)
            bad = validate(run.d, spec, evs, shard=300, stateful=True)
            return out + [(bad[g], dict(operation=what[g][1], observed=what[g][2]), what[g][0]) for g in sorted(bad)], len(what)
        bad, m = verdict(hs)
        run.evals += m; run.nontriv += sum(len(h) > 55 for h in hs); run.samples += [h[:8] for h in hs[:1]]
        seen = []
        for codes, w, h in bad:
            if h in seen or len(seen) > 8: continue
            seen.append(h)
            again, _ = verdict([h])
            if again: run.reject(again[0][0], again[0][1], dict(history=h))

def C18(run):
    run.rules.append('operations drawn by the generator of seq.qnt (constructions with bad and good sizes, element and storage writes, copies, moves, maps of user memory and of owned '
                     'sequences); after each everything visible is compared with the specification; non-trivial: a history of 60 operations')
    histories(run, 'seq', 'seq', 960, 1890, lambda o: ' '.join(map(str, [len(o) - 3] + o)), lambda o, x: [len(o) - 3] + o[:-3] + [x['exc']] + x['o'])

def C23(run):
    run.rules.append('operations drawn by the generator of objs.qnt (owned structures of all kinds constructed over dirty memory; references to guesses and to dense and MPC data over user memory '
                     'and owned arrays, filled, written through, copied, re-pointed; the memory behind them written); after each the whole memory and every field of every live structure is '
                     'compared with the specification; non-trivial: a history of 60 operations')
    histories(run, 'objs', 'objs', 960, 2390, lambda o: ' '.join(map(str, [len(o) - 4] + o)), lambda o, x: [len(o) - 4] + o[:-4] + [len(x['r'])] + x['r'] + x['o'])

def C26(run):
    run.rules.append('calls drawn by the generator of protocol.qnt on linked and unlinked, prepared and unprepared components of two (equal, nearly equal or different) shapes, constructors with '
                     'good and bad sizes and missing parts; each must be refused with a runtime_error or return, as the specification\'s protocol state says; non-trivial: a history of 60 calls')
    histories(run, 'protocol', 'protocol', 6000 if not run.thorough else 20000, 2690, lambda o: ' '.join(map(str, o)), lambda o, x: [len(o)] + o + [x['got']])

def C27(run):
    run.rules.append('operations drawn by the generator of ldl.qnt (analysis of random, banded and arrow patterns, repeated factorisation with other values, repeated solution, copies) on three wrapper '
                     'objects over a stand-in for the QDLDL package; each solution must solve the system factored last, exactly; non-trivial: a history of 60 operations')
    run.assume.append('the QDLDL package is not installed: harness/qdldl stands in for it')
    histories(run, 'ldl', 'ldl', 9600, 2790, lambda o: ' '.join(map(str, o)), lambda o, x: [len(o)] + o + [x['exc']] + x['x'])

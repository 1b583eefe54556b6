"""C22 (and the control-flow side of C01-C03, C05, C06, C19-C21): behaviours of spec/tla/Prox.tla, enumerated by TLC, replayed into the real algorithm."""
import subprocess
from run import *

TLA = os.path.join(SPEC, 'tla')
RULE = ('behaviours of Prox.tla enumerated by TLC (component answers on both sides of every comparison, ties exact) or simulated with larger budgets, each replayed into the real '
        'algorithm template over components answering from the behaviour\'s tables')

def explore(run, name, simulate=0, seed=0):
    """Behaviours of one configuration; TLC checks the invariants of Prox.tla on the way."""
    d = os.path.join(run.d, 'tlc-%s-%d' % (name, seed)); os.makedirs(d, exist_ok=True)
    for f in ('Prox.tla', 'MCProx.tla'): shutil.copy(os.path.join(TLA, f), d)
    cfg = open(os.path.join(TLA, 'MCProx.cfg')).read().replace('<- All', '<- ' + name)
    open(os.path.join(d, 'MCProx.cfg'), 'w').write(cfg)
    out = os.path.join(d, 'behaviours')
    cmd = ['tlc', '-config', 'MCProx.cfg', '-workers', str(NCPU), '-metadir', os.path.join(d, 'meta')]
    if simulate: cmd += ['-simulate', 'num=%d' % max(1, simulate // NCPU), '-depth', '400', '-seed', str(seed), '-aril', str(seed)]
    r = subprocess.run(cmd + ['MCProx.tla'], cwd=d, capture_output=True, text=True, env=dict(os.environ, BEHAVIOURS=out, JAVA_TOOL_OPTIONS='-Djava.io.tmpdir=' + d), timeout=800)
    ok = 'No error has been found' in r.stdout if not simulate else ('traces generated' in r.stdout and 'rror' not in r.stdout)
    if not ok or not os.path.exists(out): raise CheckError('TLC on %s failed:\n%s' % (name, r.stdout[-3000:] + r.stderr[-1000:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0', r.stdout)
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    return out, int(m.group(2)) if m else 0, int(m.group(1)) if m else 0

def replay(run, binp, path, d):
    """Cut into shards; returns (behaviours, newton steps, behaviours with at least two, mismatches)."""
    lines = sum(1 for _ in open(path)); per = -(-lines // NCPU); files = []
    subprocess.run(['split', '-l', str(max(per, 1)), path, path + '.s'], check=True)
    files = sorted(glob.glob(path + '.s*'))
    def one(f):
        r = subprocess.run([binp, f, f + '.out'], capture_output=True, text=True, timeout=600)
        if r.returncode != 0: return f, None, r
        return f, [json.loads(l) for l in open(f + '.out')], r
    tot = newton = multi = 0; bad = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f, rs, r in ex.map(one, files):
            if rs is None:                            # crashed or hung: find the line
                bad.append(dict(codes=[2290, 590, 2190], got='driver ended with %d: %s' % (r.returncode, r.stderr[-300:]), want=None, behaviour=f)); continue
            tot += rs[-1]['total']; newton += rs[-1]['newton']; multi += rs[-1]['multi']; bad += rs[:-1]
    for f in files: os.remove(f)
    return tot, newton, multi, bad

def check(run, names, wanted, sims=()):
    b = build('world', 'world.cc', need=False)
    if RULE not in run.rules: run.rules.append(RULE)
    if b is None:
        if not any('template' in a for a in run.assume): run.assume.append('the algorithm template changed: driver does not build, behaviours not replayed')
        return
    for name, sim, seed in [(n, 0, 0) for n in names] + list(sims):
        path, states, trans = explore(run, name, sim, seed)
        t, newton, multi, bad = replay(run, b, path, run.d)
        run.evals += t; run.nontriv += multi
        run.extra.setdefault('tlc', []).append(dict(configuration=name, simulated=bool(sim), states=states, transitions=trans, behaviours=t, newton_steps=newton))
        if len(run.samples) < 4: run.samples.append(dict(configuration=name, behaviour=open(path).readline().strip()[:400]))
        for x in bad[:200]:
            w = [c for c in x['codes'] if c in wanted or c // 100 in wanted]
            if w and len(run.rejects) < 20: run.reject(w, dict(configuration=name, got=x['got'], want=x['want']), dict(behaviour=x['behaviour']))
        os.remove(path)

def C22(run):
    s = run.seed(0)
    if run.thorough:
        check(run, ['LineDeep', 'WindowDeep', 'StopDeep', 'TimeDeep', 'FeasDeep'], {22}, [('Wild', 60000, s), ('WildEnd', 60000, s)])
    else:
        check(run, ['Line', 'Window', 'Stop', 'Time', 'Feas'], {22}, [('Wild', 8000, s % 100000), ('WildEnd', 4000, s % 100000)])
    t = run.extra.get('tlc', [])
    run.extra.update(states=sum(x['states'] for x in t), transitions=sum(x['transitions'] for x in t), traces_validated_against_impl=sum(x['behaviours'] for x in t), exhaustive=False,
                     bounds='each configuration of MCProx.tla is enumerated completely; Wild and WildEnd are sampled')

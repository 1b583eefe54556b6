"""Glue between the specifications (Quint / TLA+) and the drivers.  No verdict is taken here:
this file builds the drivers from /repo's working tree, runs the specification's generator,
packs recorded behaviour into trace modules and reads back what the specification decided."""
import concurrent.futures as cf, fcntl, fractions, glob, hashlib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(__file__))
import quintx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')      # another tree only while developing
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')
WORK = os.path.join(VERIF, 'work')
SB = 128
NCPU = min(8, os.cpu_count() or 4)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

class CheckError(Exception):
    pass

def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)
T0 = time.time()

# ------------------------------------------------------------------ building
def repo_sources():
    fs = []
    for d in ('fbstab', 'tools'):
        for r, _, names in os.walk(os.path.join(REPO, d)):
            for n in names:
                if n.endswith(('.h', '.cc', '.hpp', '.cpp', '.c')):
                    fs.append(os.path.join(r, n))
    return sorted(fs)

def lib_sources():
    """Library translation units of the tree under test: every .cc below fbstab/ that is not test code."""
    return [f for f in repo_sources() if f.endswith('.cc') and f.startswith(REPO + '/fbstab/') and '/test/' not in f
            and '/unit_tests/' not in f and '/matlab/' not in f and '/benchmark' not in f]

CXX = ['g++', '-O1', '-std=c++14', '-w', '-include', os.path.join(HARN, 'assert_throw.h'),
       '-I' + REPO, '-I' + HARN, '-I/usr/include/eigen3']

def tree_hash(extra):
    h = hashlib.sha256()
    for f in repo_sources() + sorted(f for f in glob.glob(HARN + '/**', recursive=True) if os.path.isfile(f)):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]

def build(name, main, flags=(), need=True):
    """Compile the driver `main` with the library sources of the working tree.  Returns the binary, or
    None if it does not compile and need is False."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash((CXX, tuple(flags)))
    d = os.path.join(BUILD, key)
    binp = os.path.join(d, name)
    with open(os.path.join(BUILD, 'lock-' + key), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binp): return binp
        if os.path.exists(binp + '.failed') and not need: return None
        os.makedirs(d, exist_ok=True)
        for old in sorted((x for x in glob.glob(BUILD + '/*') if os.path.isdir(x) and x != d), key=os.path.getmtime)[:-16]:
            shutil.rmtree(old, ignore_errors=True)
        jobs = []
        for s in lib_sources() + [os.path.join(HARN, main)]:
            o = os.path.join(d, hashlib.md5((s + repr(flags)).encode()).hexdigest()[:12] + '.o')
            jobs.append((s, o))
        def cc(job):
            s, o = job
            if os.path.exists(o): return (0, '', s)
            r = subprocess.run(CXX + list(flags) + ['-c', s, '-o', o + '.tmp.o'], capture_output=True, text=True)
            if r.returncode == 0: os.rename(o + '.tmp.o', o)
            return (r.returncode, r.stderr, s)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(cc, jobs))
        bad = [r for r in res if r[0]]
        err = ''
        if not bad:
            r = subprocess.run(['g++', *flags, *[o for _, o in jobs], '-o', binp + '.tmp'], capture_output=True, text=True)
            if r.returncode == 0:
                os.rename(binp + '.tmp', binp)
                return binp
            err = r.stderr
        else:
            err = bad[0][2] + ': ' + bad[0][1]
        if need: raise CheckError('driver %s does not build:\n%s' % (name, err[:3000]))
        open(binp + '.failed', 'w').write(err)
        log('driver', name, 'does not build against this tree:', err[:400])
        return None

# ------------------------------------------------------------------ Quint
def workdir(tag):
    d = os.path.join(WORK, tag + '-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d

_expanded = {}
def put_specs(d):
    for f in glob.glob(SPEC + '/*.qnt'):
        b = os.path.basename(f)
        if b not in _expanded: _expanded[b] = quintx.expand(open(f).read())
        p = os.path.join(d, b)
        if not os.path.exists(p): open(p, 'w').write(_expanded[b])

ENV = dict(os.environ, NODE_OPTIONS='--max-old-space-size=3000 --stack-size=8000')
ENV.pop('NODE_OPTIONS')

QSIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'qsim.js')
_speclock = {}

def quint_host(d, modname, spec, job, consts=None, timeout=800):
    """One process of Quint's evaluator on the machine `spec` (an instance with constants, if any)."""
    put_specs(d)
    key = hashlib.sha256(repr((sorted(_expanded.items()), spec, sorted(consts or {}), job['exprs'], open(QSIM).read(), 'v2')).encode()).hexdigest()[:20]
    main = 'm_%s_%s' % (spec, job['mode'])
    f = os.path.join(d, main + '.qnt')
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(BUILD, 'q-%s.bin' % key)
    job = dict(job, file=f, main=main, cache=cache)
    if consts: job['consts'] = {k: json.loads(str(v)) for k, v in consts.items()}
    def go(job, tag):
        jf = os.path.join(d, '%s-%s.job' % (modname, tag)); job['out'] = jf + '.out'
        json.dump(job, open(jf, 'w'))
        r = subprocess.run(['node', '--stack-size=16000', '--max-old-space-size=3500', QSIM, jf], capture_output=True, text=True, timeout=timeout, cwd=d)
        os.remove(jf)
        if r.returncode != 0: raise CheckError('%s (%s) failed: %s' % (spec, tag, r.stderr[-3000:]))
        if job['mode'] == 'parse': return None
        o = json.load(open(job['out'])); os.remove(job['out'])
        return o
    if not os.path.exists(cache):
        with _lock(spec):
            if not os.path.exists(cache):
                inst = '(' + ', '.join('%s = %s' % kv for kv in consts.items()) + ')' if consts else ''
                open(f, 'w').write('module %s { import %s%s.* from "./%s" }\n' % (main, spec, inst, spec))
                go(dict(job, mode='parse'), 'parse')
                for old in sorted(glob.glob(BUILD + '/q-*.bin'), key=os.path.getmtime)[:-60]: os.remove(old)
    return go(job, 'run')

def _lock(k):
    import threading
    return _speclock.setdefault(k, threading.Lock())

def unstr(x):
    if isinstance(x, str) and re.fullmatch(r'-?[0-9]+', x): return int(x)
    if isinstance(x, list): return [unstr(y) for y in x]
    if isinstance(x, dict): return {k: unstr(v) for k, v in x.items()}
    return x

def generate(d, spec, consts, n, seed, var='case', invariant='sound', tag='g'):
    """n states of the generator machine `spec`, drawn by Quint's evaluator in parallel shards."""
    shards = min(NCPU, max(1, n // 12))
    per = -(-n // shards)
    exprs = ['init', 'step'] + ([invariant] if invariant else [])
    def one(k):
        return unstr(quint_host(d, '%s%d' % (tag, k), spec, dict(mode='gen', exprs=exprs, init='init', step='step', invariant=invariant, var=var,
                                n=per, seed=str(seed * 1000003 + k * 7919 + 17)), consts))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        out = [c for l in ex.map(one, range(shards)) for c in l]
    return out[:n]

# ------------------------------------------------------------------ packing
WI, WD = 64, 256
NAN, PINF, NINF = -(1 << (WD - 1)), (1 << (WD - 1)) - 1, -(1 << (WD - 1)) + 1

def fx(s):
    """A double (hex string or float) as an integer multiple of 2^-SB (nearest; exact for |x| >= 2^-75)."""
    x = float.fromhex(s) if isinstance(s, str) else float(s)
    if x != x: return NAN
    if x in (float('inf'), float('-inf')): return PINF if x > 0 else NINF
    m, e = x.as_integer_ratio()
    v = (m << SB) / e if False else None
    q, r = divmod(m << SB, e)
    if 2 * r >= e: q += 1
    return max(NINF + 1, min(PINF - 1, q))

def pack(xs, w):
    off = 1 << (w - 1)
    b = bytearray()
    nb = w // 8
    b += len(xs).to_bytes(nb, 'little')
    for x in xs:
        b += (x + off).to_bytes(nb, 'little')
    return int.from_bytes(bytes(b), 'little')

def flat(x):
    if isinstance(x, list):
        o = []
        for y in x: o += flat(y)
        return o
    return [x]

def validate(d, spec, events, init='0', shard=120, tag='t', stateful=False, extra=''):
    """events: list of (ints, doubles-as-fixed-point).  Runs the trace machine of `spec` over them.
    Returns {event index: [codes]} of the events the specification does not accept."""
    put_specs(d)
    if not events: return {}
    if stateful:             # a list of histories, each starting with an event that resets the machine
        nm = min(len(events), max(NCPU, -(-sum(map(len, events)) // shard)))
        chunks = []; k = 0; per = -(-len(events) // nm)
        for i in range(0, len(events), per):
            evs = [e for h in events[i:i + per] for e in h]
            chunks.append((k, evs)); k += len(evs)
    elif not stateful:
        n = len(events)
        per = max(1, min(shard, -(-n // NCPU)))
        chunks = [(i, events[i:i + per]) for i in range(0, n, per)]
    def one(ci):
        base, evs = chunks[ci]
        ef = os.path.join(d, '%s%d.events' % (tag, ci))
        json.dump([['%x' % pack(i, WI), '%x' % pack(x, WD)] for i, x in evs], open(ef, 'w'))
        last = unstr(quint_host(d, '%s%d' % (tag, ci), spec, dict(mode='trace', exprs=['start', 'consume(0, 0)'], events=ef)))
        os.remove(ef)
        if last['idx'] != len(evs):
            raise CheckError('trace machine stopped at event %d of %d (%s)' % (last['idx'], len(evs), spec))
        return [(base + b[0], b[1:]) for b in last['bad']]
    out = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for l in ex.map(one, range(len(chunks))):
            for i, codes in l: out[i] = codes
    return out

# ------------------------------------------------------------------ drivers
LIMIT = ['prlimit', '--as=%d' % (3 << 30), '--']     # a driver gone wild must not take the sandbox's memory (not under ASan, whose shadow is larger)
def run_driver(binp, lines, d, tag='drv', timeout=300, shards=None, env=None):
    """Run command lines through the driver in parallel (each element of `lines` is a list of commands that
    must stay together).  Returns per group the list of JSON records; a group whose process crashed or hung
    carries a final record {'k': 'crash'|'hang', ...}."""
    groups = lines
    shards = shards or min(NCPU, max(1, len(groups)))
    assign = [list(range(k, len(groups), shards)) for k in range(shards)]
    res = [None] * len(groups)
    def runfile(name, cmds, tmo):
        fi, fo = os.path.join(d, name + '.in'), os.path.join(d, name + '.out')
        open(fi, 'w').write('\n'.join(cmds) + '\n')
        so = open(os.path.join(d, name + '.stdout'), 'w+')
        try:
            p = subprocess.run((LIMIT if not env else []) + [binp, fi, fo], stdout=so, stderr=subprocess.PIPE, timeout=tmo, env=dict(os.environ, **(env or {})))
            rc = p.returncode; err = p.stderr.decode(errors='replace')
            m = re.search(r'(ERROR: AddressSanitizer.*|.*runtime error:.*)', err); err = m.group(1)[:400] if m else err[-400:]
        except subprocess.TimeoutExpired:
            rc, err = 'hang', ''
        recs = []
        if os.path.exists(fo):
            for l in open(fo, errors='replace'):
                try: recs.append(json.loads(l))
                except ValueError: pass
        for ext in ('.in', '.out', '.stdout'):
            try: os.remove(os.path.join(d, name + ext))
            except OSError: pass
        return rc, err, recs
    def one(k):
        gs = assign[k]
        if not gs: return
        cmds = [c for g in gs for c in groups[g]]
        rc, err, recs = runfile('%s%d' % (tag, k), cmds, timeout)
        if rc == 0 and len(recs) == len(cmds):
            i = 0
            for g in gs:
                res[g] = recs[i:i + len(groups[g])]; i += len(groups[g])
            return
        for g in gs:      # isolate the culprit: one process per group
            rc, err, recs = runfile('%s%d_%d' % (tag, k, g), groups[g], 60)
            if rc == 0 and len(recs) == len(groups[g]): res[g] = recs
            else:
                kind = 'hang' if rc == 'hang' else 'crash'
                res[g] = recs + [{'k': kind, 'at': groups[g][len(recs)] if len(recs) < len(groups[g]) else '', 'rc': str(rc), 'err': err}]
    with cf.ThreadPoolExecutor(shards) as ex:
        list(ex.map(one, range(shards)))
    return res

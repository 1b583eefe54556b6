"""One check run: rounds of cases, confirmation of rejections, evidence."""
import random
from api import *

class Run:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.d = workdir(pid)
        self.evals = 0; self.nontriv = 0; self.rejects = []; self.samples = []; self.extra = {}
        self.rules = []; self.assume = []
        self.rng = random.Random(SEED * 7919 + hash_id(pid))
        self.thorough = TIER == 'thorough'
        self.known = load_known(pid)
        self.hit_known = set()

    def seed(self, k): return SEED * 1009 + k * 31 + hash_id(self.pid)

    def rounds(self, n):
        """Round numbers: at least 2 n of them, and as many as the time allows."""
        k = 0
        while k < 2 * n or time.time() - T0 < float(os.environ.get('VERIF_SECONDS', 540 if self.thorough else 22)):
            yield k
            k += 1

    def reject(self, codes, what, replay):
        """A rejected, confirmed behaviour."""
        for k, pat in self.known:
            if re.search(pat, json.dumps([codes, what])):
                self.hit_known.add(k); return
        self.rejects.append((codes, what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(evaluations=self.evals, distinct_nontrivial=self.nontriv, rule=' | '.join(self.rules), samples=self.samples[:4])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier='thorough' if self.thorough else 'quick', seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - T0, 2), violations=len(self.rejects))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        shutil.rmtree(self.d, ignore_errors=True)
        for k in sorted(self.hit_known):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.rejects:
            rd = os.path.join(WORK, 'replay'); os.makedirs(rd, exist_ok=True)
            for i, (codes, what, replay) in enumerate(self.rejects[:10]):
                p = os.path.join(rd, '%s-%d.json' % (self.pid, i))
                json.dump(dict(property=self.pid, codes=codes, what=what, replay=replay), open(p, 'w'), indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('  codes %s: %s' % (codes, what))
            print('%d rejected behaviours' % len(self.rejects))
            sys.exit(1)
        print('%s: %d behaviours judged, %d non-trivial, none rejected (%.0f s)' % (self.pid, self.evals, self.nontriv, time.time() - T0))
        sys.exit(0)

def hash_id(s): return int(hashlib.md5(s.encode()).hexdigest()[:6], 16)

def load_known(pid):
    """known_findings.txt: 'open: property=<id> match=<regex> <what fails>'.  Fixed entries suppress nothing."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(3), m.group(2)))
    return out

"""Public-API sessions: turning generated cases into driver commands and records into events."""
import math
from common import *

FIELDS = ['sigma0', 'sigma_max', 'sigma_min', 'alpha', 'beta', 'eta', 'delta', 'gamma', 'abs_tol', 'rel_tol', 'stall_tol',
          'infeas_tol', 'inner_tol_max', 'inner_tol_min', 'max_newton_iters', 'max_prox_iters', 'max_inner_iters',
          'max_linesearch_iters', 'check_feasibility', 'nonmonotone_linesearch', 'display_level']
IX = {n: i for i, n in enumerate(FIELDS)}
MARR = ['Q', 'R', 'S', 'q', 'r', 'A', 'B', 'c', 'E', 'L', 'd']

def opts_of(c, **over):
    o = [float('%de%d' % (m, e)) for m, e in zip(c['om'], c['oe'])] + [0.0]
    for k, v in over.items(): o[IX[k]] = float(v)
    return o

def num(x):
    return repr(float(x)) if math.isfinite(x) else ('nan' if x != x else ('inf' if x > 0 else '-inf'))

def colmajor(M, r, c):
    return [M[i][j] for j in range(c) for i in range(r)]

def arrays(c):
    """name -> (len, rows, cols, flat column-major values), real numbers."""
    s = 2.0 ** -c['ds']
    f = lambda l: [x * s for x in l]
    if not c['mpc']:
        nz, nl, nv = c['nz'], c['nl'], c['nv']
        return {'H': (1, nz, nz, f(colmajor(c['H'], nz, nz))), 'f': (1, nz, 1, f(c['f'])), 'G': (1, nl, nz, f(colmajor(c['G'], nl, nz))),
                'h': (1, nl, 1, f(c['h'])), 'A': (1, nv, nz, f(colmajor(c['A'], nv, nz))), 'b': (1, nv, 1, f(c['b']))}
    N, nx, nu, nc = c['N'], c['nx'], c['nu'], c['nc']
    shp = {'Q': (nx, nx), 'R': (nu, nu), 'S': (nu, nx), 'q': (nx, 1), 'r': (nu, 1), 'A': (nx, nx), 'B': (nx, nu), 'c': (nx, 1),
           'E': (nc, nx), 'L': (nc, nu), 'd': (nc, 1)}
    o = {}
    for k in MARR:
        r, cc = shp[k]
        n = N if k in 'ABc' else N + 1
        o[k] = (n, r, cc, [x * s for i in range(n) for x in (colmajor(c['st'][i][k], r, cc) if cc > 1 or k in 'QRSABEL' else c['st'][i][k])])
    o['x0'] = (1, nx, 1, f(c['x0']))
    return o

def dims(c):
    return (1, c['N'], c['nx'], c['nu'], c['nc']) if c['mpc'] else (0, c['nz'], c['nl'], c['nv'], 0)

def cmd_case(cid, c, arr=None, kind=None, dim=None):
    a = arr or arrays(c)
    k = dims(c) if kind is None else (kind,) + tuple(dim)
    return 'C %d %d %d %d %d %d %d ' % ((cid,) + k + (len(a),)) + \
        ' '.join('%s %d %d %d %s' % (n, l, r, cc, ' '.join(map(num, d))) for n, (l, r, cc, d) in a.items())

def cmd_new(slot, c, v4=False):
    k = dims(c)
    return 'N %d %d %d %d %d %d' % ((slot, 2 if v4 and k[0] else k[0]) + k[1:])

def cmd_opts(slot, o): return 'O %d ' % slot + ' '.join(map(num, o))

def vec(l): return '%d %s' % (len(l), ' '.join(x if isinstance(x, str) else num(x) for x in l))

def guess_of(c):
    s = 2.0 ** -c['gs']
    return [[x * s for x in c[k]] for k in ('gz', 'gl', 'gv')] + [[float(x) for x in c['gy']]]

def cmd_solve(slot, cid, g, iface=0, ds=0):
    return ('S %d %d %d %d ' % (slot, cid, iface, ds) + ' '.join(vec(x) for x in g)).rstrip()

def hexs(l): return [x if isinstance(x, str) else float(x).hex() for x in l]

def prob_ints(c):
    h = [c['mpc'], c['N'], c['nx'], c['nu'], c['nc'], c['nz'], c['nl'], c['nv'], c['ds']]
    if not c['mpc']:
        return h + flat([c['H'], c['f'], c['G'], c['h'], c['A'], c['b']])
    o = h
    for i, s in enumerate(c['st']):
        o = o + flat([s[k] for k in ('Q', 'R', 'S', 'q', 'r', 'E', 'L', 'd')])
        if i < c['N']: o = o + flat([s['A'], s['B'], s['c']])
    return o + c['x0']

def fv(l): return [fx(x) for x in l]

def bits(s):
    import struct
    v = float.fromhex(s) if isinstance(s, str) else float(s)
    return struct.unpack('<q', struct.pack('<d', v))[0]

def solve_event(c, o, g, rec, nan=0, prev=None, pure=1):
    """The api_solve event of one solve."""
    same = int(all([bits(a) for a in hexs(g[i])] == [bits(b) for b in rec[k]] for i, k in enumerate('zlv')))
    I = [c['fam'], rec['exc'], rec['flag'], rec['newton'], rec['prox'], int(o[14]), int(o[15]), int(o[16]), int(o[18] != 0), same, pure, nan,
         1 if prev else 0] + prob_ints(c) + c['tz'] + c['tl'] + c['tv']
    D = fv([o[3], o[8], o[9], o[10], o[11], rec['res'][0], rec['res'][1]]) + fv(flat(g[:3])) + fv(flat([rec[k] for k in 'zlvy']))
    if prev: D += fv(flat([prev[k] for k in 'zlv']))
    return I, D

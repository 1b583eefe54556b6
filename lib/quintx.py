"""Inline the four higher-order helpers of linalg.qnt before simulation.

Quint 0.32's TypeScript simulator keeps the parameters of a user-defined operator in one
register per operator, so a higher-order operator that is re-entered from its own argument
(tabulate inside tabulate) is evaluated wrongly.  The specifications are written with
tabulate/listMap/all_/allBelow; this step replaces each call by the fold that defines it.
It is a pure beta-reduction of the definitions in linalg.qnt.
"""
import re

def _match(s, i):
    """s[i] is an opening bracket: index of the closing one."""
    d = 0
    while i < len(s):
        c = s[i]
        if c in '([{': d += 1
        elif c in ')]}':
            d -= 1
            if d == 0: return i
        elif c == '"':
            i = s.index('"', i + 1)
        elif c == '/' and s[i:i + 2] == '//':
            i = s.index('\n', i)
            continue
        i += 1
    raise ValueError('unbalanced')

def _split(s):
    out, d, j, i = [], 0, 0, 0
    while i < len(s):
        c = s[i]
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        elif c == ',' and d == 0:
            out.append(s[j:i]); j = i + 1
        i += 1
    out.append(s[j:])
    return out

PAT = re.compile(r'(\.(?:listMap|all_)|\b(?:tabulate|allBelow|listMap|all_))\(')

def expand(text):
    cnt = [0]
    def rec(s):
        out, i = [], 0
        while True:
            m = PAT.search(s, i)
            if not m:
                out.append(s[i:]); return ''.join(out)
            line = s[s.rfind('\n', 0, m.start()) + 1:m.start()]
            if 'def ' in line and line.rstrip().endswith('def') or '//' in line:
                out.append(s[i:m.end()]); i = m.end(); continue
            out.append(s[i:m.start()])
            o = m.end() - 1
            e = _match(s, o)
            args = s[o + 1:e]
            name = m.group(1)
            if name.startswith('.'):
                recv, lam = '', args
                name = name[1:]
                pre = '.'
            else:
                parts = _split(args)
                first = parts[0]
                lam = ','.join(parts[1:])
                pre = ('range(0, %s).' if name in ('tabulate', 'allBelow') else '(%s).') % rec(first).strip()
            p, body = lam.split('=>', 1)
            p = p.strip().strip('()')
            cnt[0] += 1
            a = 'acc%d' % cnt[0]
            body = rec(body).strip()
            if name in ('tabulate', 'listMap'):
                out.append('%sfoldl([], (%s, %s) => %s.append(%s))' % (pre, a, p, a, body))
            else:
                out.append('%sfoldl(true, (%s, %s) => if (%s) %s else false)' % (pre, a, p, a, body))
            i = e + 1
    return rec(text)

if __name__ == '__main__':
    import sys
    sys.stdout.write(expand(open(sys.argv[1]).read()))

"""Conditional constant propagation: the constants a function can return for given constant arguments."""
from .flow import Flow
from .program import walk

UNKNOWN = object()
IDENT = ('dtype',)      # members that give the bound constant of the object they are called on


def wrap(v, t):
    if isinstance(v, bool):
        v = int(v)
    w = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1),
         'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}.get(t)
    if t == 'bool':
        return int(bool(v))
    if w is None or not isinstance(v, int):
        return v
    b, s = w
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


class ConstProp(Flow):
    def __init__(self, P, depth=0):
        Flow.__init__(self, P)
        self.depth = depth
        self.rets = []

    def join(self, a, b):
        return {k: v for k, v in a.items() if k in b and b[k] == v}

    # ---- values
    def val(self, n, st):
        if n is None:
            return UNKNOWN
        k = n['k']
        if 'cv' in n:
            return n['cv']
        if k == 'lit':
            return n.get('v') if not isinstance(n.get('v'), bool) else int(n['v'])
        if k == 'en':
            return n['v']
        if k == 'var':
            return st.get(n['v'], UNKNOWN)
        if k == 'gv':
            g = next((g for g in self.P.G.values() if g['n'] == n['q']), None)
            if g and g.get('const') and isinstance(g.get('init'), dict):
                return self.val(g['init'], {})
            return UNKNOWN
        if k == 'init':
            r = [self.val(c, st) for c in n['c']]
            return r if len(r) != 1 or 'scalar' not in n else r[0]
        if k in ('cast', 'icast', 'upcast', 'defarg'):
            if not n.get('c'):
                return UNKNOWN
            v = self.val(n['c'][0], st)
            return v if v is UNKNOWN else wrap(v, n.get('t')) if isinstance(v, (int, bool)) else v
        if k == 'mem':
            return self.val(n['c'][0], st) if n.get('c') else UNKNOWN
        if k == 'ctor' and len(n.get('c', ())) == 1:
            return self.val(n['c'][0], st)
        if k == 'sub':
            a, b = self.val(n['c'][0], st), self.val(n['c'][1], st)
            if isinstance(a, list) and isinstance(b, int):
                if 0 <= b < len(a):
                    return a[b]
                self.bad_index = (n['l'], b, len(a))
            return UNKNOWN
        if k == 'cond':
            c = self.val(n['c'][0], st)
            if isinstance(c, int):
                return self.val(n['c'][1 if c else 2], st)
            a, b = self.val(n['c'][1], st), self.val(n['c'][2], st)
            return a if a == b else UNKNOWN
        if k == 'un':
            v = self.val(n['c'][0], st)
            if isinstance(v, int):
                return {'!': int(not v), '-': -v, '+': v, '~': ~v}.get(n['op'], UNKNOWN)
            return UNKNOWN
        if k == 'bin':
            op = n['op']
            a = self.val(n['c'][0], st)
            if op == '&&' and isinstance(a, int) and not a:
                return 0
            if op == '||' and isinstance(a, int) and a:
                return 1
            b = self.val(n['c'][1], st)
            if not isinstance(a, int) or not isinstance(b, int):
                if op == '&&' and b == 0 or op == '||' and isinstance(b, int) and b:
                    return int(bool(b))
                return UNKNOWN
            try:
                r = {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b,
                     '>=': lambda: a >= b, '&&': lambda: a and b, '||': lambda: a or b, '+': lambda: a + b, '-': lambda: a - b,
                     '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b,
                     '>>': lambda: a >> b, '/': lambda: int(a / b), '%': lambda: a - b * int(a / b), ',': lambda: b}[op]()
            except (KeyError, ZeroDivisionError, ValueError):
                return UNKNOWN
            return int(r)
        if k in ('call', 'mcall', 'ocall') and n.get('f'):
            d = self.P.D.get(n['f'])
            if d is None:
                return UNKNOWN
            if k == 'mcall' and (d['n'] in IDENT or d['n'].startswith('operator ')) and len(n['c']) == 1:
                v = self.val(n['c'][0], st)
                if v is not UNKNOWN:
                    return v
            F = self.P.body_of(n['f'])
            args = n['c'][1:] if k == 'mcall' else n['c']
            if F is None or self.depth > 6 or k == 'ocall' and d.get('cls'):
                return UNKNOWN
            vs = [self.val(a, st) for a in args]
            if any(v is UNKNOWN for v in vs):
                return UNKNOWN
            r = returns(self.P, F, vs, self.depth + 1)
            if r is not None and len(r) == 1:
                return r[0]
        return UNKNOWN

    # ---- flow
    def cond(self, c, st):
        if st is None or c is None:
            return Flow.cond(self, c, st)
        v = self.val(c, st)
        if isinstance(v, int):
            st = self.ev(c, st) if c['k'] not in ('bin', 'un', 'lit') else st
            return (st, None) if v else (None, st)
        return Flow.cond(self, c, st)

    def set(self, st, var, v):
        st = dict(st)
        if v is UNKNOWN:
            st.pop(var, None)
        else:
            st[var] = v
        return st

    def declare(self, vd, st):
        return self.set(st, vd['v'], self.val(vd.get('init'), st) if vd.get('init') is not None else UNKNOWN)

    def on(self, n, st):
        k = n['k']
        if k == 'asg' and n['c'][0] and n['c'][0]['k'] == 'var':
            v = UNKNOWN
            if n.get('op', '=') == '=':
                v = self.val(n['c'][1], st)
            else:
                a, b = st.get(n['c'][0]['v'], UNKNOWN), self.val(n['c'][1], st)
                if isinstance(a, int) and isinstance(b, int):
                    v = self.val({'k': 'bin', 'op': n['op'][:-1], 'c': [{'k': 'lit', 'v': a}, {'k': 'lit', 'v': b}]}, st)
            return self.set(st, n['c'][0]['v'], v)
        if k == 'un' and n['op'] in ('++', '--', 'p++', 'p--', '&') or k == 'un' and ('++' in n['op'] or '--' in n['op']):
            if n['c'][0]['k'] == 'var':
                return self.set(st, n['c'][0]['v'], UNKNOWN)
        return st

    def case_entry(self, sw, case, st):
        v = self.val(sw['cond'], st)
        if not isinstance(v, int):
            return st
        if case['k'] == 'case':
            return st if case['v'] == v or case.get('hi') is not None and case['v'] <= v <= case['hi'] else None
        for c in walk(sw['body']):
            if c['k'] == 'case' and (c['v'] == v or c.get('hi') is not None and c['v'] <= v <= c['hi']):
                return None
        return st

    def no_case(self, sw, st):
        v = self.val(sw['cond'], st)
        if isinstance(v, int) and any(c['k'] == 'case' and c['v'] == v for c in walk(sw['body'])):
            return None
        return st

    def ret(self, n, st):
        self.rets.append(self.val(n['c'][0], st) if n['c'] and n['c'][0] is not None else None)
        return st


def returns(P, F, args, depth=0, ps=None):
    """The constants F may return (None if one of them cannot be determined); an empty list if it never returns."""
    cp = ConstProp(P, depth)
    st = {}
    for i, v in zip(ps if ps is not None else F['ps'], args):
        if v is not UNKNOWN:
            st[i] = v
    cp.bad_index = None
    cp.run(F, st)
    if any(r is UNKNOWN for r in cp.rets):
        return None
    out = []
    for r in cp.rets:
        if r not in out:
            out.append(r)
    return out

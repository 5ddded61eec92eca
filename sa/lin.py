"""Linear facts over integer expressions along the paths of a function.

State: set of facts (terms, const) meaning  sum(coef*term) + const >= 0  over mathematical integers.
Terms are structural keys of variables, members and pure size-like calls. A fact dies when one of the
things its terms mention may have changed. Values are assumed to fit their types, except that comparing
a signed value converted to unsigned is read with its wrap-around (a negative value is huge)."""
import re
from math import gcd

from .flow import Flow
from .program import walk
from .sem import strip, key

PURE = {'size', 'count', 'dims', 'length', 'capacity', 'height', 'width', 'channels', 'base', 'empty', 'fields_count',
        'input_count', 'output_count', 'nargs', 'rows', 'cols'}
LIMITS = (127, 255, 32767, 65535, 2147483647, 4294967295)
CONTAINER = re.compile(r'^std::(__cxx11::)?(vector|deque|basic_string)<')
UNS = ('unsigned', 'size_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'size_type', 'unsigned int', 'unsigned long')


def subkeys(k):
    yield k
    if isinstance(k, tuple):
        for x in k:
            if isinstance(x, tuple):
                yield from subkeys(x)


def norm(d, c):
    return (tuple(sorted(((k, v) for k, v in d.items() if v), key=repr)), c)


def add(a, b, m=1):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) + m * v
    return ({k: v for k, v in d.items() if v}, a[1] + m * b[1])


class Lin(Flow):
    MAXIT = 8

    def __init__(self, P, canon=None):
        Flow.__init__(self, P)
        self.imp = {}
        self.canon = canon      # optional: expression -> linear form

    # -- facts
    def join(self, a, b):
        if a == b:
            return a
        da, db = {}, {}
        for t, c in a:
            if t != 'or':
                da[t] = min(c, da.get(t, c))
        for t, c in b:
            if t != 'or':
                db[t] = min(c, db.get(t, c))
        out = set(f for f in a if f[0] == 'or' and f in b)
        for t, c in da.items():
            if t in db:
                out.add((t, max(c, db[t])))
        # a fact of one side that the other side implies
        for x, other in ((a, b), (b, a)):
            for t, c in x:
                if t != 'or' and (t not in da or t not in db):
                    if self.implied((dict(t), c), other, 3):
                        out.add((t, c))
        return frozenset(out)

    def either(self, states):
        """One of several cases of a value: their join, with the cases themselves remembered."""
        out = None
        for r in states:
            out = r if out is None else self.join(out, r)
        if len(states) in (2, 3) and sum(1 for f in out if f[0] == 'or') < 3:
            alt = [frozenset(f for f in r if f not in out and f[0] != 'or') for r in states]
            if all(alt):
                out = frozenset(out | {('or', tuple(sorted(alt, key=repr)))})
        return out

    def widen(self, old, new):
        self.wc[-1] += 1
        ls = self.limits()
        was = {}
        for f in old:
            if f[0] != 'or':
                was[f[0]] = f[1]
        out = set()
        for f in new:
            if f in old or f[1] in LIMITS:
                out.add(f)
            elif f[0] != 'or' and self.wc[-1] < 4 and f[0] in was:
                c = [x for x in ls if x >= f[1]]
                if c:
                    out.add((f[0], min(c)))
        return frozenset(out)

    def _loop(self, n, st, *a, **k):
        self.wc = getattr(self, 'wc', [])
        self.wc.append(0)
        try:
            return Flow._loop(self, n, st, *a, **k)
        finally:
            self.wc.pop()

    def limits(self):
        """Constants that bound something in this function."""
        m = self.__dict__.setdefault('_limits', {})
        F = self.Fn
        if id(F) not in m:
            out = set()
            for x in walk(F['body']):
                if x['k'] == 'bin' and x.get('op') in ('<', '<=', '>', '>=', '==', '!='):
                    for y in x['c']:
                        z = self.lin(y) if y is not None else None
                        if z is not None and not z[0] and abs(z[1]) < 1 << 33:
                            for e in (-1, 0, 1):
                                out.add(z[1] + e)
                                out.add(-z[1] + e)
            m[id(F)] = sorted(out) if len(out) < 200 else []
        return m[id(F)]

    def assume(self, st, lf):
        """adds lf >= 0"""
        if not lf[0]:
            return st if lf[1] >= 0 else None
        t, c = norm(lf[0], lf[1])
        if self.implied((dict((k, -v) for k, v in t), -c - 1), st, 3):
            return None
        return frozenset(st | {(t, c)})

    def implied(self, g, st, depth=4):
        """g >= 0 follows from the facts: the facts and -g-1 >= 0 have no common solution (Fourier-Motzkin)."""
        if not g[0]:
            return g[1] >= 0
        mk = (norm(*g), st)
        r = self.imp.get(mk)
        if r is None:
            if len(self.imp) > 20000:
                self.imp.clear()
            ors = [f[1] for f in st if f[0] == 'or']
            base = frozenset(f for f in st if f[0] != 'or')
            r = self.imp[mk] = self.split(g, base, ors)
        return r

    def split(self, g, st, ors):
        if self.entails(g, st):
            return True
        return bool(ors) and all(self.split(g, st | alt, ors[1:]) for alt in ors[0]) or \
            len(ors) > 1 and self.split(g, st, ors[1:])

    def entails(self, g, st):
        rows = {}

        def put(d, c):
            d = {k: v for k, v in d.items() if v}
            if not d:
                return c >= 0
            q = 0
            for v in d.values():
                q = gcd(q, abs(v))
            if q > 1:
                d = {k: v // q for k, v in d.items()}
                c = c // q          # integers: round down
            t = tuple(sorted(d.items(), key=repr))
            if t not in rows or c < rows[t]:
                rows[t] = c
            return True
        seen, todo, facts = set(), list(g[0]), [f for f in st]
        rel = set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            if self.nonneg(k):
                rel.add((((k, 1),), 0))
            for f in facts:
                if f not in rel and any(x == k for x, _ in f[0]):
                    rel.add(f)
                    todo.extend(x for x, _ in f[0])
        put({k: -v for k, v in g[0].items()}, -g[1] - 1)
        for t, c in sorted(rel, key=repr):
            if not put(dict(t), c):
                return True
        left = set(seen)
        while left:
            cost = {}
            for k in left:
                p = sum(1 for t in rows for x, v in t if x == k and v > 0)
                m = sum(1 for t in rows for x, v in t if x == k and v < 0)
                cost[k] = (p * m - p - m, repr(k))
            k = min(left, key=lambda x: cost[x])
            left.discard(k)
            pos, neg, rest = [], [], {}
            for t, c in rows.items():
                d = dict(t)
                v = d.get(k, 0)
                if v > 0:
                    pos.append((d, c))
                elif v < 0:
                    neg.append((d, c))
                else:
                    rest[t] = c
            if len(pos) * len(neg) + len(rest) > 600:
                return False
            rows = rest
            for d, c in pos:
                for e, b in neg:
                    m, n = -e[k], d[k]
                    r = {x: d.get(x, 0) * m + e.get(x, 0) * n for x in set(d) | set(e)}
                    if not put(r, c * m + b * n):
                        return True
        return False

    def nonneg(self, k):
        return isinstance(k, tuple) and k and k[0] in ('size', 'uns')

    # -- expressions
    def isuns(self, n):
        t = (n.get('t') or '').replace('const ', '').replace('&', '').strip() if n else ''
        return t.startswith('unsigned') or t in UNS or t.split('::')[-1] in UNS

    def lin(self, n, st=None):
        """({term: coef}, const) or None"""
        if n is None:
            return None
        if 'cv' in n:
            return ({}, n['cv'])
        k = n['k']
        if self.canon:
            r = self.canon(n)
            if r is not None:
                return r
        if k in ('cast', 'icast', 'upcast', 'defarg', 'definit') and n.get('c'):
            return self.lin(n['c'][0], st)
        if k == 'lit':
            v = n.get('v')
            if isinstance(v, bool) or not isinstance(v, int):
                return None
            return ({}, v)
        if k == 'ctor' and len([c for c in n['c'] if c is not None]) == 1:
            return self.lin(n['c'][0], st)
        if k == 'init' and len(n.get('c') or ()) == 1:
            return self.lin(n['c'][0], st)
        if k == 'bin' and n['op'] in '+-':
            a, b = self.lin(n['c'][0], st), self.lin(n['c'][1], st)
            if a is None or b is None:
                return None
            return add(a, b, 1 if n['op'] == '+' else -1)
        if k == 'bin' and n['op'] == '*':
            a, b = self.lin(n['c'][0], st), self.lin(n['c'][1], st)
            if a is not None and b is not None:
                if not a[0]:
                    return ({x: v * a[1] for x, v in b[0].items() if v * a[1]}, a[1] * b[1])
                if not b[0]:
                    return ({x: v * b[1] for x, v in a[0].items() if v * b[1]}, a[1] * b[1])
        if k == 'un' and n['op'] == '-':
            a = self.lin(n['c'][0], st)
            return None if a is None else ({x: -v for x, v in a[0].items()}, -a[1])
        if k == 'un' and n['op'] == '+':
            return self.lin(n['c'][0], st)
        if k == 'un' and n['op'] in ('++', '--'):
            # asked for after it took effect
            a = self.lin(n['c'][0], st)
            return None if a is None else (a[0], a[1] + ((-1 if n['op'] == '++' else 1) if n.get('post') else 0))
        t = self.term(n)
        return None if t is None else ({t: 1}, 0)

    def term(self, n):
        k = n['k']
        if k == 'var':
            return ('uns', ('v', n['v'])) if self.vuns(n['v']) else ('v', n['v'])
        if k == 'mem':
            kk = key(n)
            if kk is None:
                return None
            return ('uns', kk) if self.isuns(n) else ('i', kk)
        if k == 'mcall' and n.get('f') and len(n['c']) == 1:
            d = self.P.D[n['f']]
            if d.get('const') and d['n'] in PURE or d['n'] in ('size', 'length') :
                kk = key(n['c'][0])
                if kk is None:
                    return None
                return ('size', 'size' if d['n'] == 'length' and CONTAINER.match(d.get('cls') or '') else d['n'], kk)
        kk = key(n)
        if kk is not None and k in ('mcall', 'call', 'ocall') and n.get('f') and self.P.D[n['f']].get('const'):
            return ('c', kk)
        return None

    def vuns(self, v, F=None):
        L = (F or self.Fn)['locals']
        if v < len(L):
            t = L[v]['t'].replace('const ', '').replace('&', '').strip()
            return t.startswith('unsigned') or t in UNS or t.split('::')[-1] in UNS
        return False

    # -- refinement
    def refine(self, c, truth, st):
        n = strip(c)
        if n is None:
            return st
        if n['k'] == 'mcall' and n.get('f') and self.P.D[n['f']]['n'] == 'empty':
            kk = key(n['c'][0])
            if kk is not None:
                s = ({('size', 'size', kk): 1}, 0)
                if truth:
                    return self.assume(st, ({('size', 'size', kk): -1}, 0))
                return self.assume(st, (s[0], -1))
            return st
        if n['k'] in ('var', 'mem', 'mcall') or n['k'] == 'bin' and n['op'] in '+-*%&':
            lf = self.lin(n, st)
            if lf is not None and not truth and n['k'] != 'bin':
                st = self.assume(st, lf)
                return self.assume(st, ({k: -v for k, v in lf[0].items()}, -lf[1])) if st is not None else None
            if lf is not None and truth and len(lf[0]) == 1 and self.nonneg(next(iter(lf[0]))):
                return self.assume(st, (lf[0], lf[1] - 1))
            return st
        if n['k'] != 'bin' or n['op'] not in ('==', '!=', '<', '<=', '>', '>='):
            return st
        A, B = n['c']
        a, b = self.lin(A, st), self.lin(B, st)
        if a is None or b is None:
            return st
        op = n['op']
        if not truth:
            op = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
        # signed operand converted to unsigned for the comparison
        wa, wb = self.wraps(A, a, st), self.wraps(B, b, st)
        if op == '==':
            if wa or wb:
                return st
            st = self.assume(st, add(a, b, -1))
            return self.assume(st, add(b, a, -1)) if st is not None else None
        if op == '!=':
            # boundary sharpening
            d = add(a, b, -1)
            e = add(b, a, -1)
            if self.implied(d, st, 3) and not wa and not wb:
                return self.assume(st, (d[0], d[1] - 1))
            if self.implied(e, st, 3) and not wa and not wb:
                return self.assume(st, (e[0], e[1] - 1))
            return st
        if op in ('>', '>='):
            a, b, wa, wb = b, a, wb, wa
            op = '<' if op == '>' else '<='
        # a < b or a <= b
        if wb:
            return st           # b may be a wrapped negative
        st = self.assume(st, (lambda f: (f[0], f[1] - (1 if op == '<' else 0)))(add(b, a, -1)))
        if wa and st is not None:
            st = self.assume(st, a)
        return st

    def wraps(self, n, lf, st):
        """n is a signed value implicitly or explicitly turned unsigned, and not known non-negative"""
        x = n
        conv = False
        while x is not None and x['k'] in ('cast', 'icast', 'upcast') and x.get('c'):
            if self.isuns(x):
                conv = True
            x = x['c'][0]
        if not conv or x is None or self.isuns(x) or 'cv' in x:
            return False
        if x['k'] == 'var' and self.vuns(x['v']):
            return False
        if x['k'] == 'mcall' and x.get('f') and self.P.D[x['f']]['n'] in ('size', 'count', 'length', 'dims'):
            return False
        return not self.implied(lf, st, 3)

    # -- changes
    def kill(self, st, pred):
        if not st:
            return st
        return frozenset(f for f in st if not any(pred(s) for s in self.mentions(f)))

    def mentions(self, f):
        if f[0] == 'or':
            for alt in f[1]:
                for g in alt:
                    yield from self.mentions(g)
            return
        for k, _ in f[0]:
            yield from subkeys(k)

    def kill_key(self, st, kk):
        return self.kill(st, lambda s: s == kk)

    def setv(self, st, kk, term, lf):
        """the thing with key kk gets the value lf"""
        if lf is not None and term in lf[0] and lf[0][term] == 1:
            # x = x + e: shift the facts about x when e does not involve x
            e = add(lf, ({term: 1}, 0), -1)
            out = set()
            for t, c in st:
                if t == 'or':
                    if not any(s == kk for s in self.mentions((t, c))):
                        out.add((t, c))
                    continue
                d = dict(t)
                m = d.get(term)
                if m is None:
                    if not any(s == kk for k, _ in t for s in subkeys(k)):
                        out.add((t, c))
                    continue
                if any(s == kk for k, _ in t if k != term for s in subkeys(k)):
                    continue
                r = add((d, c), e, -m)
                out.add(norm(r[0], r[1]))
            return frozenset(out)
        st = self.kill_key(st, kk)
        if lf is not None and not any(s == kk for k in lf[0] for s in subkeys(k)):
            d = add(({term: 1}, 0), lf, -1)
            st = frozenset(st | {norm(d[0], d[1]), norm({k: -v for k, v in d[0].items()}, -d[1])})
        return st

    def declare(self, vd, st):
        kk = ('v', vd['v'])
        st = self.kill_key(st, kk)
        if vd.get('init') is None:
            return st
        init = vd['init']
        cs = self.cases(init, st)
        t = ('uns', kk) if self.vuns(vd['v']) else kk
        out = self.either([self.setv(s, kk, t, lf) for s, lf in cs]) if cs else None
        st2 = out if out is not None else st
        # a container made with a given size
        lf = self.made(init, st)
        if lf is not None:
            sz = ('size', 'size', kk)
            d = add(({sz: 1}, 0), lf, -1)
            st2 = frozenset(st2 | {norm(d[0], d[1]), norm({k: -v for k, v in d[0].items()}, -d[1])})
        return st2

    def made(self, init, st):
        """The number of elements of a container that an expression makes."""
        x = strip(init)
        if x is not None and x['k'] == 'ctor' and len([c for c in x.get('c') or () if c is not None]) >= 1 and 'vector' in (self.P.D.get(x.get('f'), {}).get('cls') or '') \
                and x['c'][0] is not None and x['c'][0]['k'] == 'init':
            x = x['c'][0]
        if x is not None and x['k'] == 'init':
            m = re.search(r'\[(\d+)\]$', x.get('t') or '')
            if m:
                return ({}, int(m.group(1)))
        while x is not None and x['k'] in ('cast', 'ctor') and len(x.get('c') or ()) == 1 and (strip(x['c'][0]) or {}).get('k') == 'ctor' and 'vector' in (strip(x['c'][0]).get('t') or ''):
            x = strip(x['c'][0])
        if x is not None and x['k'] == 'ctor' and x.get('c') and x.get('f') and 'vector' in (self.P.D[x['f']].get('cls') or ''):
            a = x['c'][0]
            lf = self.lin(a, st) if a is not None and a['k'] != 'init' else None
            if lf is not None and len(x['c']) <= 3 and 'vector' not in (a.get('t') or ''):
                return lf
        # a function that answers with as many elements as one of its arguments says
        y = x
        while y is not None and y['k'] == 'ctor' and len([c for c in y.get('c') or () if c is not None]) == 1:
            y = strip(y['c'][0])
        if y is not None and y['k'] == 'call' and y.get('f') and 'std::vector<' in (self.P.D[y['f']].get('ret') or ''):
            for i, what in returned(self.P, y['f']):
                a = y['c'][i] if i < len(y.get('c') or ()) else None
                kk = key(strip(a)) if a is not None and strip(a) is not None else None
                if what == 'size' and kk is not None:
                    return ({('size', 'size', kk): 1}, 0)
                if what == 'value' and a is not None and self.lin(a, st) is not None:
                    return self.lin(a, st)
        return None

    def cases(self, n, st):
        """[(state, linear form)] of a value, following conditional expressions"""
        x = n
        while x is not None and x['k'] in ('cast', 'icast', 'upcast') and x.get('c') and 'cv' not in x:
            x = x['c'][0]
        if x is not None and x['k'] == 'cond':
            t, f = self.cond(x['c'][0], st)
            out = []
            if t is not None:
                out += self.cases(x['c'][1], t)
            if f is not None:
                out += self.cases(x['c'][2], f)
            return out
        if x is not None and x['k'] == 'bin' and x['op'] in '+-' and 'cv' not in x:
            out = []
            for s, a in self.cases(x['c'][0], st):
                for s2, b in self.cases(x['c'][1], s):
                    out.append((s2, None if a is None or b is None else add(a, b, 1 if x['op'] == '+' else -1)))
            return out
        if x is not None and x['k'] == 'call' and x.get('f') and self.P.D[x['f']]['qn'] in ('std::min', 'std::max') and len(x['c']) == 2:
            a, b = self.lin(x['c'][0], st), self.lin(x['c'][1], st)
            if a is not None and b is not None:
                mn = self.P.D[x['f']]['qn'] == 'std::min'
                out = []
                d = add(b, a, -1) if mn else add(a, b, -1)
                s = self.assume(st, d)
                if s is not None:
                    out.append((s, a))
                d2 = add(a, b, -1) if mn else add(b, a, -1)
                s = self.assume(st, d2)
                if s is not None:
                    out.append((s, b))
                return out
        return [(st, self.lin(n, st))]

    def range_var(self, n, st):
        return self.kill_key(st, ('v', n['v'])) if 'v' in n else st

    def leave(self, vs, st):
        for v in vs:
            st = self.kill_key(st, ('v', v['v']))
        return st

    def target(self, l):
        l = strip(l)
        if l is None:
            return None, None
        kk = key(l)
        if kk is None:
            return None, None
        return kk, self.term(l)

    def on(self, n, st):
        k = n['k']
        if k == 'asg':
            kk, t = self.target(n['c'][0])
            if kk is None:
                l = strip(n['c'][0])
                return st if l is None else self.unknown_write(l, st)
            if n['op'] == '=':
                cs = self.cases(n['c'][1], st)
                out = self.either([self.setv(s, kk, t, lf) if t is not None else self.kill_key(s, kk) for s, lf in cs]) if cs else None
                return out if out is not None else self.kill_key(st, kk)
            if n['op'] in ('+=', '-=') and t is not None:
                lf = self.lin(n['c'][1], st)
                if lf is not None:
                    return self.setv(st, kk, t, add(({t: 1}, 0), lf, 1 if n['op'] == '+=' else -1))
            return self.kill_key(st, kk)
        if k == 'un' and '++' in n['op'] or k == 'un' and '--' in n['op']:
            kk, t = self.target(n['c'][0])
            if kk is None:
                return st
            if t is None:
                return self.kill_key(st, kk)
            return self.setv(st, kk, t, ({t: 1}, 1 if '++' in n['op'] else -1))
        if k == 'un' and n['op'] == '&':
            return st
        if k in ('call', 'mcall', 'ocall', 'ctor', 'new'):
            return self.effects(n, st)
        return st

    def unknown_write(self, l, st):
        return st

    def effects(self, n, st):
        d = self.P.D.get(n.get('f')) if n.get('f') else None
        args = n.get('c') or []
        if (n['k'] == 'mcall' or n['k'] == 'ocall' and (d is None or d.get('cls') and n.get('m', 1))) and args:
            o = strip(args[0])
            const = d is not None and (d.get('const') or d['n'] in ('operator[]', 'at', 'begin', 'end', 'data', 'back', 'front', 'top', 'rbegin', 'rend', 'find', 'get', 'operator*', 'operator->'))
            if d is not None and d['n'] in ('resize', 'assign') and 'vector' in (d.get('cls') or '') and len(args) >= 2:
                kk = key(o)
                if kk is not None:
                    lf = self.lin(args[1], st)
                    st = self.kill_key(st, kk)
                    if lf is not None:
                        sz = ('size', 'size', kk)
                        e = add(({sz: 1}, 0), lf, -1)
                        st = frozenset(st | {norm(e[0], e[1]), norm({k: -v for k, v in e[0].items()}, -e[1])})
                    return st
            if d is not None and d['n'] in ('push_back', 'emplace_back') and o is not None:
                kk = key(o)
                if kk is not None:
                    sz = ('size', 'size', kk)
                    return self.setv(st, sz, sz, ({sz: 1}, 1))
            if n['k'] == 'ocall' and n.get('op') == '=' and len(args) == 2 and o is not None and CONTAINER.match((d or {}).get('cls') or ''):
                kk, k2 = key(o), key(strip(args[1])) if strip(args[1]) is not None else None
                if kk is not None and kk != k2:
                    made = self.made(args[1], st)
                    st = self.kill_key(st, kk)
                    if made is not None and not any(s == kk for k in made[0] for s in subkeys(k)):
                        e = add(({('size', 'size', kk): 1}, 0), made, -1)
                        return frozenset(st | {norm(e[0], e[1]), norm({k: -v for k, v in e[0].items()}, -e[1])})
                    if k2 is not None and not any(s == kk for s in subkeys(k2)):
                        sz, s2 = ('size', 'size', kk), ('size', 'size', k2)
                        st = frozenset(st | {norm({sz: 1, s2: -1}, 0), norm({sz: -1, s2: 1}, 0)})
                    return st
            if not const and o is not None:
                kk = key(o)
                if o['k'] == 'this':
                    st = self.kill(st, lambda s: isinstance(s, tuple) and s and s[0] == 'this' or s == 'this')
                elif kk is not None:
                    st = self.kill_key(st, kk)
            if n['k'] == 'mcall':
                args = args[1:]
        ps = (d or {}).get('ps') or []
        off = 1 if n['k'] == 'ocall' and d is not None and len(args) == len(ps) + 1 else 0
        for i, a in enumerate(args):
            if a is None:
                continue
            x = strip(a)
            if x is None:
                continue
            pt = ps[i - off]['t'] if 0 <= i - off < len(ps) else ''
            byref = ('&' in pt and 'const' not in pt) or (d is None)
            addr = x['k'] == 'un' and x['op'] == '&'
            if addr:
                x = strip(x['c'][0])
                byref = 'const' not in pt
            if byref and x is not None and x['k'] in ('var', 'mem'):
                kk = key(x)
                if kk is not None:
                    st = self.kill_key(st, kk)
        return st

    def unstable(self, st):
        return frozenset() if st is not None else None


def returned(P, f):
    """[(parameter, 'size' or 'value')]: every vector f returns has that many elements"""
    mem = P.__dict__.setdefault('_returned', {})
    if f in mem:
        return mem[f]
    mem[f] = []
    d, F = P.D.get(f) or {}, P.body_of(f)
    if F is None or d.get('dep') or d.get('virt') or (d.get('qn') or '').startswith('std::') or sum(1 for _ in walk(F['body'])) > 400:
        return []
    G = Rets(P)
    try:
        G.run(F, frozenset())
    except RecursionError:
        return []
    out = []
    for i, v in enumerate(F['ps']):
        t = F['locals'][v]['t']
        vec = CONTAINER.match(re.sub(r'^const ', '', t)) or 'std::vector<' in t
        if '&' in t and 'const' not in t or not G.rets or None in G.rets:
            continue
        p = ('size', 'size', ('v', v)) if vec else ('uns', ('v', v)) if G.vuns_of(F, v) else ('v', v)
        if all(G.implied(({('size', 'size', kk): 1, p: -1}, 0), s) and G.implied(({('size', 'size', kk): -1, p: 1}, 0), s) for kk, s in G.rets):
            out.append((i, 'size' if vec else 'value'))
    mem[f] = out
    return out


class Rets(Lin):
    def __init__(self, P):
        Lin.__init__(self, P)
        self.rets = []

    def vuns_of(self, F, v):
        return self.vuns(v)

    def x_ret(self, n, st):
        e = strip(n['c'][0]) if n.get('c') and n['c'][0] is not None else None
        while e is not None and (e['k'] == 'ctor' or e['k'] == 'call' and (self.P.D.get(e.get('f')) or {}).get('qn') == 'std::move') and len(e.get('c') or ()) == 1:
            e = strip(e['c'][0])
        self.rets.append((key(e), st) if e is not None and e['k'] == 'var' else None)
        return Lin.x_ret(self, n, st)

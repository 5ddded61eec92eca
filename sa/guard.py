"""Index uses and whether the facts on the path bound them by the container they index."""
import re
from .program import walk
from .sem import strip, key
from .lin import Lin, add, norm, subkeys

CONT = re.compile(r'^std::(vector|array|deque|basic_string)\b|^ts::otl::(vector|string)\b')


def base_type(P, n):
    t = (n.get('t') or '') if n is not None else ''
    return t


class Guard(Lin):
    """Runs Lin and records every index use with the state it happens in."""

    def __init__(self, P):
        Lin.__init__(self, P)
        self.uses = {}      # id(node) -> [node, container expr, index expr, proved low, proved high]
        self.posts = {}
        self.acc = {}
        self.pre = {}       # helper -> [(form that has to be >= 0 where it is called, what)]
        self.open = {}      # id(node) -> unproved forms, as far as they are over parameters and members
        self.calls = {}     # id(call) -> [node, helper, what, proved]
        self.sites = []     # (node, container, index, state) of every positional access
        self.keeps = {}
        self.offsets = []   # (node, integer operand, state) of pointer arithmetic
        self.final = []     # states at normal exits

    def x_ret(self, n, st):
        self.final.append(st)
        return Lin.x_ret(self, n, st)

    def cont_len(self, c):
        """The number of elements of an indexed thing, as a linear form, or None."""
        s = strip(c)
        if s is None:
            return None
        kk = key(s)
        t = self.typ(s)
        m = re.search(r'\[(\d+)\]$', t) or re.match(r'^(?:const )?std::array<.*, (\d+)>', t)
        if m:
            return ({}, int(m.group(1)))
        if kk is None:
            return None
        return ({('size', 'size', kk): 1}, 0)

    def origin(self, n):
        """An expression that is begin() or end() of a container, or a local that only ever is."""
        s = strip(n)
        while s is not None and s['k'] == 'ctor' and s.get('c') and len(s['c']) == 1:
            s = strip(s['c'][0])
        if s is None:
            return None
        if s['k'] == 'mcall' and s.get('c') and s.get('f'):
            nm = (self.P.D.get(s['f']) or {}).get('n')
            if nm in ('begin', 'cbegin', 'end', 'cend'):
                return ('begin' if nm in ('begin', 'cbegin') else 'end', s['c'][0])
        if s['k'] == 'var':
            ini = [x for x in walk(self.Fn['body']) if x['k'] == 'vdecl' and x['v'] == s['v'] and x.get('init') is not None]
            if len(ini) == 1 and not any(x['k'] in ('asg', 'un', 'ocall') and x.get('op') in ('=', '++', '--', '+=', '-=') and
                                         (strip(x['c'][0]) or {}).get('k') == 'var' and strip(x['c'][0])['v'] == s['v'] for x in walk(self.Fn['body'])):
                return self.origin(ini[0]['init'])
        return None

    def typ(self, s):
        if s['k'] == 'var':
            L = self.Fn['locals']
            return L[s['v']]['t'] if s['v'] < len(L) else ''
        return s.get('t') or ''

    def check(self, n, c, i, st, neg=False, strict=True):
        """0 <= i < length of c (or i <= length)"""
        L = self.cont_len(c)
        lo = hi = True
        self.sites.append((n, c, i, st))
        for s, x in self.cases(i, st):
            if x is None:
                lo = hi = False
                self.open[id(n)] = None
                break
            if L is not None and not (self.nneg(i, x, s) and self.implied((lambda g: (g[0], g[1] - (1 if strict else 0)))(add(L, x, -1)), s)):
                g = add(L, x, -1)
                fs = [(x, 'low')] if not self.nneg(i, x, s) else []
                fs.append(((g[0], g[1] - (1 if strict else 0)), 'high'))
                if id(n) not in self.open or self.open[id(n)] is not None:
                    self.open.setdefault(id(n), []).extend(fs)
            elif L is None:
                self.open[id(n)] = None
            lo = lo and self.nneg(i, x, s)
            g = add(L, x, -1) if L is not None else None
            hi = hi and g is not None and self.implied((g[0], g[1] - (1 if strict else 0)), s)
        u = self.uses.setdefault(id(n), [n, c, i, True, True])
        u[3] = u[3] and lo
        u[4] = u[4] and hi

    def at(self, n, c, i, st):
        self.sites.append((n, c, i, st))

    def needs(self, n, st):
        f = n['f']
        F = self.P.body_of(f)
        args = list(n.get('c') or [])
        this = None
        if n['k'] == 'mcall' and args:
            this = key(strip(args[0]))
            args = args[1:]
        m = {('v', v): a for v, a in zip(F['ps'], args)}
        for (t, c), what in self.pre[f]:
            lf = ({}, c)
            for k, q in t:
                x = self.rename(k, m, this, st)
                if x is None:
                    lf = None
                    break
                lf = add(lf, x, q)
            ok = lf is not None and self.implied(lf, st)
            u = self.calls.setdefault((id(n), what), [n, f, what, True, lf])
            u[3] = u[3] and ok

    def some(self, n, c, st):
        """c has at least one element"""
        L = self.cont_len(c)
        u = self.uses.setdefault(id(n), [n, c, None, True, True])
        u[4] = u[4] and L is not None and self.implied((L[0], L[1] - 1), st)

    def lin(self, n, st=None):
        if n is not None and n['k'] == 'mcall' and n.get('f') and len(n.get('c') or ()) == 1 and 'cv' not in n:
            r = self.accessor(n)
            if r is not None:
                return r
        return Lin.lin(self, n, st)

    def cases(self, n, st):
        x = n
        while x is not None and x['k'] in ('cast', 'icast', 'upcast') and x.get('c') and 'cv' not in x:
            x = x['c'][0]
        if x is not None and x['k'] in ('call', 'mcall') and x.get('f') and 'cv' not in x and self.lin(x, st) is None:
            e = self.inline(x)
            if e is not None:
                self.inl = getattr(self, 'inl', 0) + 1
                try:
                    if self.inl < 5:
                        return self.cases(e, st)
                finally:
                    self.inl -= 1
        r = self.ranged(x, st) if x is not None and 'cv' not in x else None
        return r if r is not None else Lin.cases(self, n, st)

    def ranged(self, x, st):
        """Values whose range is known whatever they are computed from: remainders, masks, bytes."""
        lo = hi = None
        k = x['k']
        if k == 'bin' and x.get('op') in ('%', '&', '>>') and x['c'][0] is not None and x['c'][1] is not None:
            a, b = x['c']
            z = Lin.lin(self, b, st)
            if z is not None and not z[0]:
                if x['op'] == '%' and z[1] > 0:
                    hi = z[1] - 1
                    va = self.lin(a, st)
                    if self.isuns(x) or va is not None and self.nneg(a, va, st):
                        lo = 0
                    else:
                        lo = -hi
                        ra = self.ranged(strip(a), st) if strip(a) is not None else None
                elif x['op'] == '&' and z[1] >= 0:
                    lo, hi = 0, z[1]
                elif x['op'] == '>>' and 0 <= z[1] < 64:
                    w = self.width(strip(a))
                    if w is not None:
                        lo, hi = 0, (1 << w) - 1 >> z[1]
        elif k in ('var', 'mem', 'sub', 'ocall', 'un', 'call', 'mcall'):
            if self.lin(x, st) is None:
                w = self.width(x)
                if w is not None:
                    lo, hi = 0, (1 << w) - 1
            else:
                w = self.width(x)
                if w is not None and w <= 8:
                    v = self.lin(x, st)
                    s2 = self.assume(st, ({q: -c for q, c in v[0].items()}, (1 << w) - 1 - v[1]))
                    return [(s2, v)] if s2 is not None else []
        if hi is None:
            return None
        t = ('tmp', id(x))
        s2 = self.kill(st, lambda q: q == t)
        s2 = frozenset(s2 | {(((t, 1),), -lo), (((t, -1),), hi)})
        return [(s2, ({t: 1}, 0))]

    def width(self, x):
        if x is None:
            return None
        t = self.typ(x).replace('const ', '').replace('&', '').strip()
        return {'unsigned char': 8, 'uint8_t': 8, 'bool': 1, 'unsigned short': 16, 'uint16_t': 16}.get(t)

    def inline(self, n):
        """The value of a call of a function that only decides between expressions, as an expression here."""
        f = n['f']
        d = self.P.D.get(f) or {}
        F = self.P.body_of(f)
        if F is None or d.get('dep') or d.get('virt') or n.get('virt') or (d.get('qn') or '').startswith('std::'):
            return None
        args = list(n.get('c') or [])
        this = None
        if n['k'] == 'mcall':
            this, args = args[0], args[1:]
        if len(args) != len(F['ps']) or F.get('inits'):
            return None
        m = dict(zip(F['ps'], args))

        def sub(x):
            if x is None:
                return None
            if x['k'] == 'var':
                return m.get(x['v'])
            if x['k'] == 'this':
                return this
            if x['k'] in ('lambda', 'asg', 'throw', 'new') or x['k'] == 'un' and x.get('op') not in ('-', '!', '+', '*'):
                return None
            y = dict(x)
            if x.get('c'):
                y['c'] = [sub(z) for z in x['c']]
                if any(z is None and o is not None for z, o in zip(y['c'], x['c'])):
                    return None
            return y

        def value(ss):
            if not ss:
                return None
            s = ss[0]
            if s is None or s['k'] == 'null':
                return value(ss[1:])
            if s['k'] == 'block':
                return value(list(s['c']) + ss[1:])
            if s['k'] == 'ret' and s.get('c'):
                return sub(s['c'][0])
            if s['k'] in ('if', 'ocall', 'call', 'mcall') and len(ss) > 1 and not any(y['k'] in ('ret', 'asg', 'lambda') or y['k'] == 'un' and y.get('op') in ('++', '--') for y in walk(s)):
                return value(ss[1:])
            if s['k'] == 'if' and not s.get('init') and not s.get('var'):
                c, a, b = sub(s['cond']), value([s['then']]), value([s['else']] if s.get('else') else ss[1:])
                if c is not None and a is not None and b is not None:
                    return {'k': 'cond', 'c': [c, a, b], 'l': s['l'], 't': d.get('ret')}
            return None
        return value([F['body']])

    def refine(self, c, truth, st):
        n = strip(c)
        if n is not None and n['k'] == 'var':
            e = self.meaning(n['v'])
            if e is not None:
                self.meant = getattr(self, 'meant', 0) + 1
                try:
                    if self.meant < 4:
                        keep = self.sites, self.uses, self.open, self.calls, self.offsets
                        self.sites, self.uses, self.open, self.calls, self.offsets = [], {}, {}, {}, []
                        try:
                            t, f = self.cond(e, st)
                        finally:
                            self.sites, self.uses, self.open, self.calls, self.offsets = keep
                        return t if truth else f
                finally:
                    self.meant -= 1
        return Lin.refine(self, c, truth, st)

    def meaning(self, v):
        """The condition a local boolean stands for, when nothing it mentions changes in this function."""
        L = self.Fn['locals']
        if v >= len(L) or L[v]['t'].replace('const ', '') != 'bool' or L[v].get('p'):
            return None
        mem = self.__dict__.setdefault('_mean', {})
        kk = (id(self.Fn), v)
        if kk in mem:
            return mem[kk]
        mem[kk] = None
        changed = set()
        ini = []
        for x in walk(self.Fn['body']):
            if x['k'] == 'vdecl' and x['v'] == v:
                ini.append(x.get('init'))
            if x['k'] in ('asg', 'ocall') and (x.get('op') or '').endswith('=') and x.get('op') not in ('==', '!=', '<=', '>=') or \
                    x['k'] in ('un', 'ocall') and x.get('op') in ('++', '--', '&'):
                o = strip(x['c'][0]) if x.get('c') else None
                if o is not None:
                    changed.add(repr(key(o)))
            if x['k'] == 'mcall' and x.get('c') and x.get('f') and not (self.P.D.get(x['f']) or {}).get('const'):
                o = strip(x['c'][0])
                if o is not None:
                    changed.add(repr(key(o)))
        if len(ini) == 1 and ini[0] is not None and repr(('v', v)) not in changed:
            e = ini[0]
            if not any(repr(key(x)) in changed for x in walk(e) if x['k'] in ('var', 'mem', 'this')) and not any(x['k'] in ('asg', 'lambda', 'throw') for x in walk(e)):
                mem[kk] = e
        return mem[kk]

    def accessor(self, n):
        """A call of a const method that only returns an expression over the object's members."""
        f = n['f']
        d = self.P.D.get(f) or {}
        if not d.get('const') or (d.get('qn') or '').startswith('std::') or CONT.match(d.get('cls') or '') or n.get('virt') or d.get('virt'):
            return None
        o = key(strip(n['c'][0]))
        if o is None:
            return None
        a = self.acc.get(f)
        if a is None:
            self.acc[f] = a = self._accessor(f)
        if not a:
            return None
        return ({self.subst(k, o): v for k, v in a[0].items()}, a[1])

    def _accessor(self, f):
        F = self.P.body_of(f)
        b = F['body'] if F is not None else None
        ss = [s for s in b['c'] if s is not None] if b is not None and b['k'] == 'block' else []
        if len(ss) != 1 or ss[0]['k'] != 'ret' or not ss[0].get('c'):
            return False
        keep, self.Fn = self.Fn, F
        self.acc[f] = False
        try:
            r = self.lin(ss[0]['c'][0])
        finally:
            self.Fn = keep
        if r is None or not r[0] or not all(self.onthis(k) for k in r[0]):
            return False
        return r

    def nneg(self, i, x, st):
        s = i
        while s is not None and s['k'] in ('cast', 'icast', 'upcast', 'ctor') and s.get('c') and 'cv' not in s:
            s = s['c'][0]
        if s is not None and s['k'] in ('var', 'mem', 'call', 'mcall', 'ocall', 'sub') and (self.isuns(s) or s['k'] == 'var' and self.vuns(s['v'])):
            return True
        return self.implied(x, st)

    def on(self, n, st):
        k = n['k']
        c = n.get('c') or ()
        if k == 'ocall' and n.get('op') == '[]' and len(c) == 2:
            d = self.P.D.get(n.get('f')) or {}
            if CONT.match(d.get('cls') or '') or CONT.match((d.get('qn') or '')):
                self.check(n, c[0], c[1], st)
        elif k == 'sub' and len(c) == 2:
            self.check(n, c[0], c[1], st)
        elif k == 'bin' and n.get('op') == '+' and len(c) == 2 and (n.get('t') or '').rstrip().endswith('*'):
            i = c[1] if self.typ(strip(c[0]) or {'k': ''}).rstrip().endswith('*') or not self.typ(strip(c[1]) or {'k': ''}).rstrip().endswith('*') else c[0]
            self.offsets.append((n, i, st))
        elif k == 'ocall' and n.get('op') in ('+', '-') and len(c) == 2:
            b, i = strip(c[0]), c[1]
            while b is not None and b['k'] == 'ocall' and b.get('op') == n['op'] and len(b['c']) == 2:
                i = {'k': 'bin', 'op': '+', 'c': [b['c'][1], i], 'l': n['l'], 't': 'long'}
                b = strip(b['c'][0])
            b = self.origin(b) if b is not None else None
            if b is not None and (b[0] == 'begin') == (n['op'] == '+'):
                self.check(n, b[1], i, st, strict=False)
        elif k == 'mcall' and len(c) == 2 and n.get('f') and (self.P.D.get(n['f']) or {}).get('n') == 'at':
            self.at(n, c[0], c[1], st)
        elif k == 'mcall' and c and n.get('f'):
            d = self.P.D.get(n['f']) or {}
            if d.get('n') in ('back', 'front', 'pop_back', 'top', 'pop', 'pop_front') and re.match(r'^std::(vector|deque|stack|queue|list)<', d.get('cls') or ''):
                self.some(n, c[0], st)
        if k in ('call', 'mcall') and n.get('f') in self.pre:
            self.needs(n, st)
        st = Lin.on(self, n, st)
        if st is not None and k in ('call', 'mcall') and n.get('f'):
            st = self.post(n, st)
        return st

    def effects(self, n, st):
        """A method of this object that only touches some members leaves the facts about the others."""
        c = n.get('c') or ()
        if n['k'] == 'mcall' and c and n.get('f') and not n.get('virt'):
            o = strip(c[0])
            if o is not None and o['k'] == 'this':
                w = self.touches(n['f'])
                if (self.P.D.get(n['f']) or {}).get('const'):
                    w = self.mutables() if w is None else w & self.mutables()
                if w is not None:
                    def hit(s):
                        return isinstance(s, tuple) and len(s) == 3 and s[0] == 'mem' and s[2] == ('this',) and s[1] in w
                    st = self.kill(st, hit)
                    n2 = dict(n)
                    n2['k'] = 'call'
                    n2['c'] = list(c[1:])
                    return Lin.effects(self, n2, st)
        return Lin.effects(self, n, st)

    def mutables(self):
        m = getattr(self.P, '_mutables', None)
        if m is None:
            m = self.P._mutables = {'%s::%s' % (q, f['n']) for q, r in self.P.R.items() for f in r.get('fields', ()) if f.get('mut')}
        return m

    def touches(self, f, depth=0):
        """Members of this mentioned by a method and the methods it calls on this; None if it hands this on."""
        if f in self.keeps:
            return self.keeps[f]
        self.keeps[f] = set()
        d = self.P.D.get(f) or {}
        F = self.P.body_of(f)
        if F is None or depth > 4:
            self.keeps[f] = None
            return None
        out = set()
        allowed = set()
        for x in walk(F['body']):
            if x['k'] == 'mem' and x.get('c') and (strip(x['c'][0]) or {}).get('k') == 'this':
                out.add(x['q'])
                allowed.add(id(strip(x['c'][0])))
            if x['k'] == 'mcall' and x.get('c') and (strip(x['c'][0]) or {}).get('k') == 'this':
                sub = self.touches(x['f'], depth + 1) if x.get('f') and not x.get('virt') else None
                if sub is None:
                    out = None
                    break
                out |= sub
                allowed.add(id(strip(x['c'][0])))
        if out is not None and any(x['k'] == 'this' and id(x) not in allowed for x in walk(F['body'])):
            out = None
        self.keeps[f] = out
        return out

    # ------------------------------------------------------------ what a helper that returns has established
    def post(self, n, st):
        f = n['f']
        fs = self.posts.get(f)
        if fs is None:
            fs = self.posts[f] = ()
            fs = self.posts[f] = self.established(f)
        if not fs:
            return st
        F = self.P.body_of(f)
        args = (n.get('c') or [])
        isM = n['k'] == 'mcall'
        this = key(args[0]) if isM and args else None
        if isM:
            args = args[1:]
        m = {}
        for v, a in zip(F['ps'], args):
            m[('v', v)] = a
        for t, c in fs:
            lf = ({}, c)
            for k, q in t:
                x = self.rename(k, m, this, st)
                if x is None:
                    lf = None
                    break
                lf = add(lf, x, q)
            if lf is not None:
                s2 = self.assume(st, lf)
                if s2 is not None:
                    st = s2
            # a bound from above of an unsigned parameter: what was converted to it is not negative either
            if len(t) == 1 and t[0][1] == -1 and t[0][0][0] == 'uns' and 0 <= c < 1 << 31 and t[0][0][1] in m:
                x = self.lin(m[t[0][0][1]], st)
                s2 = self.assume(st, x) if x is not None else None
                if s2 is not None:
                    st = s2
        return st

    def rename(self, k, m, this, st):
        raw = k
        if k[0] == 'uns':
            k = k[1]
        if k in m:
            return self.lin(m[k], st)
        if k[0] == 'size' and k[2] in m:
            kk = key(strip(m[k[2]]))
            return ({('size', k[1], kk): 1}, 0) if kk is not None else None
        if k[0] == 'size' and self.onthis(k[2]) and this is not None:
            return ({('size', k[1], self.subst(k[2], this)): 1}, 0)
        if k[0] in ('i', 'mem', 'c') and self.onthis(k) and this is not None:
            return ({self.subst(raw, this): 1}, 0)
        return None

    def onthis(self, k):
        return k == ('this',) or isinstance(k, tuple) and any(isinstance(x, tuple) and self.onthis(x) for x in k)

    def subst(self, k, this):
        if k == ('this',):
            return this
        return tuple(self.subst(x, this) if isinstance(x, tuple) else x for x in k)

    def established(self, f):
        d = self.P.D.get(f) or {}
        F = self.P.body_of(f)
        if F is None or d.get('dep') or d.get('virt') or (d.get('qn') or '').startswith('std::'):
            return ()
        if len(F['locals']) > 40 or sum(1 for _ in walk(F['body'])) > 400:
            return ()
        if not any(x['k'] in ('throw', 'bin') for x in walk(F['body'])):
            return ()
        ps = set(F['ps'])
        if any(x['k'] in ('asg', 'un') and x.get('op') in ('=', '+=', '-=', '++', '--') and (strip(x['c'][0]) or {}).get('k') == 'var' and strip(x['c'][0])['v'] in ps for x in walk(F['body'])):
            return ()
        if getattr(self, 'nest', 0) > 3:
            return ()
        G = Guard(self.P)
        G.nest = getattr(self, 'nest', 0) + 1
        G.posts = self.posts
        try:
            ex = G.run(F, frozenset())
        except RecursionError:
            return ()
        out = None
        for kind, n, s in ex:
            if kind == 'throw' or s is None:
                continue
            s = frozenset(x for x in s if x[0] != 'or')
            out = s if out is None else G.join(out, s)
        if not out:
            return ()
        keep = []
        for t, c in out:
            if t == 'or':
                continue
            if all(self.over(k, ps) for k, _ in t):
                keep.append((t, c))
        return tuple(sorted(keep, key=repr))

    def leave(self, vs, st):
        for v in vs:
            st = self.without(st, ('v', v['v']))
        return super().leave(vs, st)

    def without(self, st, kk):
        """The facts, and what follows from pairs of them about more than a variable that goes out of scope."""
        out = set()
        for v in (kk, ('uns', kk)):
            pos = [(dict(t), c) for t, c in st if t != 'or' and dict(t).get(v, 0) == 1]
            neg = [(dict(t), c) for t, c in st if t != 'or' and dict(t).get(v, 0) == -1]
            if len(pos) * len(neg) > 60:
                continue
            for a in pos:
                for b in neg:
                    t, c = add(a, b)
                    if t:
                        out.add(norm(t, c))
        return frozenset(st | out) if out else st

    def over(self, k, ps):
        if k[0] == 'uns':
            k = k[1]
        if k[0] == 'v':
            return k[1] in ps
        if k[0] == 'size':
            return k[2][0] == 'v' and k[2][1] in ps or self.onthis(k[2])
        if k[0] in ('i', 'mem'):
            return self.onthis(k)
        if k[0] == 'c':
            return self.onthis(k) and not any(x[0] == 'v' for x in subkeys(k) if isinstance(x, tuple) and x)
        return False


def uses(P, fid):
    F = P.body_of(fid)
    G = Guard(P)
    ini = frozenset()
    G.run(F, ini)
    return list(G.uses.values())

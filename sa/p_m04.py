"""M04: storage of a fixed size is never indexed outside of it."""
import re
from .program import walk
from .sem import strip, key
from .locks import plain
from .guard import Guard
from .lin import add, norm

ARR = re.compile(r'\[(\d+)\]$')
STD = re.compile(r'^(?:const )?std::array<.*, (\d+)>$')
INT = re.compile(r'^(const )?(unsigned |signed )?(char|int|long|short|size_t|std::size_t|u?int(8|16|32|64)_t|unsigned)$')
ITER = re.compile(r'^std::(initializer_list|vector|array|basic_string)\b')
SCOPE = re.compile(r'^(src|include)/(?!kernels/|third/|.*\bdragon/)')
COPY = {'memcpy', 'memmove', 'strcpy', 'memset', 'strncpy'}


def arrays(P):
    """class -> {array member: number of elements}"""
    out = {}
    for q, r in P.R.items():
        fs = {}
        for f in r.get('fields', ()):
            m = ARR.search(f['t']) or STD.match(f['t'])
            if m and int(m.group(1)) > 0:
                fs['%s::%s' % (q, f['n'])] = int(m.group(1))
        if fs:
            out[q] = fs
    return out


class Cap(Guard):
    """Guard that knows the sizes of the array members of this object and follows its accessors."""

    MAXIT = 20

    def __init__(self, P, posts=None):
        Guard.__init__(self, P)
        self.copies = []
        self.handed = {}
        if posts is not None:
            self.posts = posts

    def accessor(self, n):
        o = strip(n['c'][0])
        f = n['f']
        d = self.P.D.get(f) or {}
        if o is not None and o['k'] == 'this' and d.get('const') and not d.get('virt') and (d.get('cls') or '').startswith('ts::'):
            if f not in self.acc:
                self.acc[f] = self._accessor(f)
            a = self.acc[f]
            return a if a else None
        return Guard.accessor(self, n)

    def _accessor(self, f):
        F = self.P.body_of(f)
        b = F['body'] if F is not None else None
        ss = [s for s in b['c'] if s is not None] if b is not None and b['k'] == 'block' else []
        if len(ss) != 1 or ss[0]['k'] != 'ret' or not ss[0].get('c'):
            return False
        keep, self.Fn = self.Fn, F
        self.acc[f] = False
        try:
            r = self.lin(ss[0]['c'][0])
        finally:
            self.Fn = keep
        if r is None or not all(self.onthis(k) for k in r[0]):
            return False
        return r

    def ranged(self, x, st):
        if x['k'] == 'bin' and x.get('op') == '/' and all(x['c']):
            z = self.lin(x['c'][1], st)
            a = self.lin(x['c'][0], st)
            if z is not None and not z[0] and z[1] > 0 and a is not None and self.nneg(x['c'][0], a, st):
                t = ('tmp', id(x))
                s2 = self.kill(st, lambda q: q == t)
                lo = add(a, ({t: z[1]}, 0), -1)                       # a - c*t >= 0
                hi = add(({t: z[1]}, z[1] - 1), a, -1)                # c*t + c-1 - a >= 0
                s2 = frozenset(s2 | {norm(*lo), norm(*hi), (((t, 1),), 0)})
                return [(s2, ({t: 1}, 0))]
        return Guard.ranged(self, x, st)

    def ctor_init(self, i, st):
        if not i.get('fld') or i.get('init') is None:
            if i.get('deleg'):
                return frozenset(st | self.inv)
            return st
        kk = ('mem', i['q'], ('this',))
        node = {'k': 'mem', 'q': i['q'], 'n': i['fld'], 'c': [{'k': 'this', 'c': [], 'l': i.get('l', 0)}], 't': self.ftype(i['q']), 'l': i.get('l', 0)}
        t = self.term(node)
        if t is None:
            return st
        cs = self.cases(i['init'], st)
        return self.either([self.setv(s, kk, t, lf) for s, lf in cs]) if cs else st

    def ftype(self, q):
        m = self.__dict__.setdefault('_ft', {})
        if q not in m:
            r = self.P.R.get(q.rsplit('::', 1)[0]) or {}
            m[q] = next((f['t'] for f in r.get('fields', ()) if f['n'] == q.rsplit('::', 1)[1]), '')
        return m[q]

    def on(self, n, st):
        if n['k'] == 'call' and n.get('f') and (self.P.D.get(n['f']) or {}).get('n') in COPY and len(n.get('c') or ()) >= 2:
            self.copies.append((n, st))
        if n['k'] == 'mcall' and n.get('f') and len(n.get('c') or ()) == 3 and (self.P.D.get(n['f']) or {}).get('n') in ('read', 'write', 'getline'):
            self.copies.append((n, st))
        if n['k'] == 'mcall' and self.cap is not None and n.get('f') and (strip(n['c'][0]) or {}).get('k') == 'this' \
                and (self.P.D.get(n['f']) or {}).get('acc') in (1, 2):
            for j, a in enumerate(n['c'][1:]):
                ok = a is not None and all(x is not None and self.implied(add(({self.cap[1]: 1}, 0), x, -1), s) for s, x in self.cases(a, st))
                self.handed[(n['f'], j)] = self.handed.get((n['f'], j), True) and ok
        if n['k'] == 'asg' and n.get('op') == '=' and (strip(n['c'][0]) or {}).get('k') == 'un' and strip(n['c'][0]).get('op') == '*' \
                and (strip(strip(n['c'][0])['c'][0]) or {}).get('k') == 'this':
            st = Guard.on(self, n, st)
            return frozenset(st | self.inv) if st is not None else None
        if n['k'] == 'ocall' and n.get('op') == '=' and n.get('c') and (strip(n['c'][0]) or {}).get('k') == 'un' and strip(n['c'][0]).get('op') == '*' \
                and (strip(strip(n['c'][0])['c'][0]) or {}).get('k') == 'this':
            st = Guard.on(self, n, st)
            return frozenset(st | self.inv) if st is not None else None
        if n['k'] == 'ocall' and n.get('op') in ('++', '--') and n.get('c') and (strip(n['c'][0]) or {}).get('k') == 'var':
            v = strip(n['c'][0])
            t = self.term(v)
            return self.setv(st, ('v', v['v']), t, ({t: 1}, 1 if n['op'] == '++' else -1))
        st2 = Guard.on(self, n, st)
        if st2 is not None and n['k'] == 'mcall' and n.get('c') and (strip(n['c'][0]) or {}).get('k') == 'this' and st2 is not st:
            st2 = frozenset(st2 | self.inv)
        return st2

    inv = frozenset()

    def join(self, a, b):
        r = Guard.join(self, a, b)
        if a != b:
            more = [f for f in self.inv if f not in r and self.implied((dict(f[0]), f[1]), a) and self.implied((dict(f[0]), f[1]), b)]
            if more:
                r = frozenset(r | set(more))
        return r

    def widen(self, old, new):
        r = Guard.widen(self, old, new)
        more = self.inv & new
        if self.wc[-1] > 5:
            r = frozenset(f for f in r if f in old)
        return r if more <= r else frozenset(r | more)

    def kill(self, st, pred):
        r = Guard.kill(self, st, pred)
        if r is not st and len(r) != len(st) and self.inv:
            more = [f for f in self.inv if f not in r and not any(pred(s) for s in self.mentions(f)) and self.implied((dict(f[0]), f[1]), st)]
            if more:
                r = frozenset(r | set(more))
        return r

    def kill_key(self, st, kk):
        # what equals a value that is lost takes its place
        for t in (kk, ('uns', kk), ('i', kk)):
            eq = None
            for ts, c in st:
                if ts != 'or' and dict(ts).get(t) == 1 and (tuple((k, -q) for k, q in ts), -c) in st:
                    eq = add((dict(ts), c), ({t: 1}, 0), -1)
                    break
            if eq is None:
                continue
            more = set()
            for ts, c in st:
                q = dict(ts).get(t) if ts != 'or' else None
                if q:
                    r = add(add((dict(ts), c), ({t: 1}, 0), -q), eq, -q)
                    if r[0]:
                        more.add(norm(*r))
            st = frozenset(st | more)
        return Guard.kill_key(self, st, kk)

    def cases(self, n, st):
        s = n
        while s is not None and s['k'] in ('cast', 'icast', 'upcast') and s.get('c') and 'cv' not in s:
            s = s['c'][0]
        if s is not None and s['k'] == 'mcall' and self.cap is not None and s.get('f') and (strip(s['c'][0]) or {}).get('k') == 'this' and len(s['c']) > 1:
            e = self.inline(s)
            if e is not None:
                return self.cases(e, st)
        # the distance of an iterator of this container from its first element
        if s is not None and s['k'] == 'bin' and s.get('op') == '-' and self.cap is not None and all(s['c']):
            a, b = strip(s['c'][0]), strip(s['c'][1])
            if b is not None and b['k'] == 'mem' and b.get('q') in self.cap[0] and a is not None and a['k'] == 'var':
                t = ('uns', ('tmp', id(s)))
                return [(frozenset(st | {norm({self.cap[1]: 1, t: -1}, 0)}), ({t: 1}, 0))]
        return Guard.cases(self, n, st)

    cap = None

    def term(self, n):
        if n['k'] == 'call' and n.get('f') and len(n.get('c') or ()) == 1 and (self.P.D.get(n['f']) or {}).get('qn') in ('strlen', 'std::strlen'):
            k = key(strip(n['c'][0]))
            return ('uns', ('strlen', k)) if k is not None else None
        return Guard.term(self, n)

    def lin(self, n, st=None):
        # an iterator over a list or array of the standard library counts as its distance from begin()
        if n is not None and n['k'] in ('mcall', 'call') and n.get('f') and len(n.get('c') or ()) == 1 and 'cv' not in n:
            d = self.P.D.get(n['f']) or {}
            if d.get('n') in ('begin', 'end', 'cbegin', 'cend') and ITER.match(d.get('cls') or ''):
                k = key(strip(n['c'][0]))
                if k is not None:
                    return ({}, 0) if 'begin' in d['n'] else ({('size', 'size', k): 1}, 0)
        return Guard.lin(self, n, st)

    def refine(self, c, truth, st):
        n = strip(c)
        if n is not None and n['k'] == 'ocall' and n.get('op') in ('==', '!=', '<', '<=', '>', '>=') and len(n.get('c') or ()) == 2 and 'iterator' in str(self.P.D.get(n.get('f'), {}).get('ps')):
            c = dict(n, k='bin')
        return Guard.refine(self, c, truth, st)

    def x_rfor(self, n, st):
        st = self.ev(n['range'], st)
        if st is None:
            return None
        t = ('uns', ('rpos', id(n)))
        s = strip(n['range'])
        size = None
        if s is not None:
            N = length(self.P, self.Fn, s)
            size = ({}, N) if N is not None else ({('size', 'size', key(s)): 1}, 0) if key(s) is not None else None
        st = self.kill(st, lambda q: q == t)
        st = frozenset(st | {norm({t: 1}, 0), norm({t: -1}, 0)})
        for k, c in self.consts(st).items():
            if k != t and c == 0:
                st = frozenset(st | {norm({t: 1, k: -1}, 0), norm({t: -1, k: 1}, 0)})
        if size is not None:
            st = frozenset(st | {norm(*add(size, ({t: 1}, 0), -1))})

        def pre(s2):
            s2 = self.range_var(n, s2)
            if size is not None and s2 is not None:
                s2 = self.assume(s2, add(size, ({t: 1}, 1), -1))
            return self.setv(s2, t[1], t, ({t: 1}, 1)) if s2 is not None else None
        return self._loop(n, st, None, n['body'], None, pre=pre)

    def consts(self, st):
        vals = {}
        for ts, c in st:
            if ts != 'or' and len(ts) == 1 and abs(ts[0][1]) == 1 and (ts[0][0][0] == 'v' or ts[0][0][0] == 'uns' and ts[0][0][1][0] in ('v', 'rpos', 'ghost')):
                vals.setdefault(ts[0][0], {})[ts[0][1]] = c
        return {k: -m[1] for k, m in vals.items() if 1 in m and -1 in m and m[1] == -m[-1]}

    def declare(self, vd, st):
        # counters that start together are compared with each other
        st = Guard.declare(self, vd, st)
        if st is None or vd.get('init') is None:
            return st
        t = ('uns', ('v', vd['v'])) if self.vuns(vd['v']) else ('v', vd['v'])
        i = strip(vd['init'])
        if i is not None and i['k'] == 'mcall' and i.get('f') and len(i['c']) == 1 and self.lin(i, st) == ({}, 0):
            e = (self.P.D.get(i['f']) or {})
            k = key(strip(i['c'][0]))
            if e.get('n') in ('begin', 'cbegin') and k is not None:
                st = frozenset(st | {norm({('size', 'size', k): 1, t: -1}, 0)})
        v = self.consts(st)
        if t in v:
            for k, c in v.items():
                if k != t and c == v[t]:
                    st = frozenset(st | {norm({t: 1, k: -1}, 0), norm({t: -1, k: 1}, 0)})
        return st


# ---------------------------------------------------------------- what always holds of a member
def invariants(P, classes, runner):
    """class -> facts every constructor establishes and every member function keeps."""
    out = {}
    for cls, fs in classes.items():
        r = P.R[cls]
        ints = [f for f in r.get('fields', ()) if INT.match(f['t'].strip())]
        if not ints:
            continue
        ms = [(fid, d, F) for fid, d, F in P.functions() if d.get('cls') == cls and not d.get('dep') and not d.get('static')]
        if not ms:
            continue
        cand = set()
        for f in ints:
            q = '%s::%s' % (cls, f['n'])
            if written_outside(P, cls, q):
                continue
            uns = f['t'].replace('const ', '').startswith(('unsigned', 'size_t', 'uint', 'std::size_t'))
            t = ('uns' if uns else 'i', ('mem', q, ('this',)))
            cand.add((((t, 1),), 0))
            for N in sorted(set(fs.values())):
                cand.add((((t, -1),), N))
                cand.add((((t, -1),), N - 1))
        ts = [('uns' if f['t'].replace('const ', '').startswith(('unsigned', 'size_t', 'uint', 'std::size_t')) else 'i', ('mem', '%s::%s' % (cls, f['n']), ('this',)))
              for f in ints if not written_outside(P, cls, '%s::%s' % (cls, f['n']))]
        if len(ts) <= 5:
            cand |= {norm({a: 1, b: -1}, 0) for a in ts for b in ts if a != b}
        while cand:
            inv = frozenset(cand)
            lost = set()
            for fid, d, F in sorted(ms, key=lambda m: m[1].get('acc') or 0):
                if d.get('dtor') or d.get('const') or d.get('defaulted') or d.get('implicit'):
                    continue
                if not d.get('ctor') and not changes(F, cls):
                    continue
                G, ends = runner(fid, d, F, inv)
                for s in [s for k, n, s in ends if s is not None and k != 'throw'] + G.final:
                    for t, c in inv:
                        if (t, c) not in lost and not G.implied((dict(t), c), s):
                            lost.add((t, c))
            if not lost:
                break
            cand -= lost
        out[cls] = frozenset(cand)
    return out


def changes(F, cls):
    for x in walk(F['body']):
        if x['k'] in ('asg', 'un') and x.get('c'):
            o = strip(x['c'][0])
            if o is not None and (o['k'] == 'mem' and (o.get('q') or '').startswith(cls) or o['k'] == 'un'):
                return True
        if x['k'] in ('mcall', 'ocall', 'ctor'):
            return True
    return False


def written_outside(P, cls, q):
    m = getattr(P, '_written', None)
    if m is None:
        m = P._written = {}
        for fid, d, F in P.functions():
            for x in walk(F['body']):
                if x['k'] in ('asg', 'un') and x.get('c') and (x['k'] == 'asg' or x.get('op') in ('++', '--', '&')):
                    o = strip(x['c'][0])
                    if o is not None and o['k'] == 'mem' and o.get('q'):
                        m.setdefault(o['q'], set()).add(d.get('cls'))
    return any(c != cls for c in m.get(q, ()))


# What a caller of these has to see to, as with the standard containers they are modelled on.
def demands(P, d, F):
    out = set()
    cls = d.get('cls') or ''
    if not cls.startswith('ts::otl::vector<'):
        return out
    q = cls + '::m_size'
    m = ('i', ('mem', q, ('this',)))
    if d['n'] in ('pop_back', 'back', 'front'):
        out.add((((m, 1),), -1))
    return out


def runner(P, classes, posts):
    handed = {}

    def cap(d):
        fs = classes.get(d.get('cls') or '')
        if not fs or not d['cls'].startswith('ts::otl::'):
            return None
        ints = [f for f in P.R[d['cls']]['fields'] if INT.match(f['t'].strip())]
        return (set(fs), ('i', ('mem', '%s::%s' % (d['cls'], ints[0]['n']), ('this',)))) if len(ints) == 1 else None

    def go(fid, d, F, inv):
        G = Cap(P, posts)
        G.inv = inv
        G.cap = cap(d)
        ini = frozenset() if d.get('ctor') else inv | demands(P, d, F)
        if G.cap is not None and d.get('acc') in (1, 2):
            for j, v in enumerate(F['ps']):
                if handed.get((fid, j)) and G.vuns(v, F):
                    ini = ini | {norm({G.cap[1]: 1, ('uns', ('v', v)): -1}, 0)}
        ends = G.run(F, ini)
        for k, ok in G.handed.items():
            handed[k] = handed.get(k, True) and ok
        return G, ends
    return go


def unchecked(P, d, F, i):
    """operator[] hands its argument on, as the one of the standard containers does."""
    s = strip(i) if i is not None else None
    return d['n'] == 'operator[]' and s is not None and s['k'] == 'var' and s['v'] in F['ps']


def check(P, R):
    R.rule('M04.write', 'An element of a member or local array of fixed size is only taken at a position that is proved to lie inside it, from the values the position is computed from and what every constructor and member function is shown to keep true of the members.')
    R.rule('M04.copy', 'What is copied into or out of an array of fixed size starts inside it and is proved not to be longer than the rest of it.')
    R.rule('M04.size', 'The number of elements a fixed-capacity container says it has is never negative and never above its capacity.')
    classes = arrays(P)
    posts = {}
    go = runner(P, classes, posts)
    inv = invariants(P, classes, go)
    for cls, fs in classes.items():
        if not cls.startswith('ts::otl::'):
            continue
        for f in P.R[cls].get('fields', ()):
            if not INT.match(f['t'].strip()):
                continue
            q = '%s::%s' % (cls, f['n'])
            N = max(fs.values())
            R.ob('M04.size', q)
            t = ('i', ('mem', q, ('this',)))
            have = inv.get(cls, ())
            lo, hi = (((t, 1),), 0) in have, (((t, -1),), N) in have
            if not (lo and hi):
                R.bad('M04.size', plain(q), '%s:%d' % (P.R[cls].get('file'), f.get('l') or P.R[cls].get('line') or 0),
                      'a function of %s can leave %s %s' % (plain(cls), f['n'], 'above the capacity of %d' % N if not hi else 'below 0'))
    for fid, d, F in P.functions():
        f = F.get('file') or d.get('file') or ''
        if d.get('dep') or not SCOPE.match(f) or not wanted(P, F):
            continue
        G, ends = go(fid, d, F, inv.get(d.get('cls') or '', frozenset()))
        seen = set()
        for n, c, i, lo, hi in G.uses.values():
            N = length(P, F, c)
            if N is None or i is None or unchecked(P, d, F, i):
                continue
            R.ob('M04.write', '%s|%s' % (d['qn'], n['l']))
            if not (lo and hi) and (n['l'], lo, hi) not in seen and not table(P, d, F, n, c, i):
                seen.add((n['l'], lo, hi))
                R.bad('M04.write', '%s|%s' % (plain(d['qn']), name(c)), P.loc(fid, n['l']), '%s takes an element of %s (%d elements) at a position not shown to be %s'
                      % (d['qn'], name(c), N, 'at least 0' if hi else 'below %d' % N))
        copies(P, R, fid, d, F, G)
    R.floor('M04.write', 100)
    R.floor('M04.copy', 3)
    R.floor('M04.size', 1)


def name(c):
    s = strip(c)
    return s.get('n') or 'it' if s is not None else 'it'


def length(P, F, c):
    s = strip(c)
    if s is None:
        return None
    t = F['locals'][s['v']]['t'] if s['k'] == 'var' and s['v'] < len(F['locals']) else s.get('t') or ''
    m = ARR.search(t) or STD.match(t)
    return int(m.group(1)) if m and int(m.group(1)) > 0 else None


def wanted(P, F):
    for x in walk(F['body']):
        if x['k'] in ('sub', 'ocall') and x.get('c') and (x['k'] == 'sub' or x.get('op') == '[]'):
            if length(P, F, x['c'][0]) is not None and 'cv' not in (strip(x['c'][1]) or {}):
                return True
            if length(P, F, x['c'][0]) is not None:
                return True
        if x['k'] in ('call', 'mcall') and x.get('f') and (P.D.get(x['f']) or {}).get('n') in COPY | {'read', 'write'}:
            return True
        if x['k'] == 'bin' and x.get('op') == '+' and length(P, F, x['c'][0]) is not None:
            return True
    return False


def table(P, d, F, n, c, i):
    """A table indexed by element types: D04 looks up every pair."""
    s = strip(i)
    t = F['locals'][s['v']]['t'] if s is not None and s['k'] == 'var' and s['v'] < len(F['locals']) else (s or {}).get('t') or ''
    return t.replace('const ', '').replace('&', '').strip() in ('ts::DTYPE', 'DTYPE')


def place(P, G, F, e, st):
    """(array, offset in elements) a pointer expression points into"""
    s = strip(e)
    off = ({}, 0)
    while s is not None:
        N = length(P, F, s)
        if N is not None:
            return s, N, off
        if s['k'] == 'bin' and s.get('op') == '+' and len(s['c']) == 2:
            a, b = s['c']
            x = G.lin(b, st)
            if x is None:
                return None
            off = add(off, x)
            s = strip(a)
            continue
        if s['k'] == 'un' and s.get('op') == '&' and (strip(s['c'][0]) or {}).get('k') == 'sub':
            u = strip(s['c'][0])
            x = G.lin(u['c'][1], st)
            if x is None:
                return None
            off = add(off, x)
            s = strip(u['c'][0])
            continue
        return None
    return None


SIZES = {'char': 1, 'unsigned char': 1, 'uint8_t': 1, 'signed char': 1, 'bool': 1, 'short': 2, 'int': 4, 'unsigned int': 4, 'uint32_t': 4, 'int32_t': 4, 'float': 4,
         'double': 8, 'long': 8, 'unsigned long': 8, 'size_t': 8, 'int64_t': 8, 'uint64_t': 8}


def copies(P, R, fid, d, F, G):
    for n, st in G.copies:
        nm = P.D[n['f']]['n']
        if n['k'] == 'mcall':
            n = dict(n, c=[n['c'][1], None, n['c'][2]])
        for j, what in ((0, 'into'), (1, 'out of')):
            if n['c'][j] is None or j == 1 and nm in ('memset', 'strcpy', 'strncpy'):
                continue
            pl = place(P, G, F, n['c'][j], st)
            if pl is None:
                continue
            a, N, off = pl
            t = F['locals'][a['v']]['t'] if a['k'] == 'var' else a.get('t') or ''
            w = SIZES.get(ARR.sub('', t).replace('const ', '').strip())
            if w is None:
                continue
            R.ob('M04.copy', '%s|%s|%d' % (d['qn'], n['l'], j))
            if nm == 'strcpy':
                need = string_len(P, G, n['c'][1], st)
                ok = need is not None and G.implied(off, st) and G.implied(add(({}, N - 1), add(need, off), -1), st)
            else:
                b = G.lin(n['c'][2], st) if len(n['c']) == 3 else None
                ok = b is not None and G.implied(off, st) and G.implied(add(({}, N * w), add(({k: v * w for k, v in off[0].items()}, off[1] * w), b), -1), st)
            if not ok:
                R.bad('M04.copy', '%s|%s|%s' % (plain(d['qn']), name(a), what), P.loc(fid, n['l']), '%s copies %s %s (%d elements) without having shown that all of it lies there' % (d['qn'], what, name(a), N))


def string_len(P, G, e, st):
    s = strip(e)
    if s is None:
        return None
    if s['k'] == 'mcall' and (P.D.get(s.get('f')) or {}).get('n') in ('c_str', 'data') and s.get('c'):
        k = key(strip(s['c'][0]))
        return ({('size', 'size', k): 1}, 0) if k is not None else None
    k = key(s)
    return ({('uns', ('strlen', k)): 1}, 0) if k is not None else None

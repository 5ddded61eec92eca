"""O06: members and local variables are given a value before they are read (definite assignment)."""
import re
from .flow import Flow
from .program import walk, children, AnalysisError
from .sem import strip
from .locks import plain
from .p_o02 import Fields, Prog, T
from .registry import operators, strconst

SCOPE = re.compile(r'^(src|include)/(?!kernels/(gpu|rknn)|third/)')
SCALAR = re.compile(r'^(const |volatile )*((unsigned |signed |long |short )*(bool|char|int|short|long|float|double|unsigned|wchar_t|size_t|__int128)|(std::)?(size_t|u?int\d+_t|ptrdiff_t)|[\w:<>, ]+ ?\*( ?const)?|.*\(\*\)\(.*)$')
SMART = re.compile(r'^(const )?(std::(shared_ptr|unique_ptr)<|ts::Operator::shared$)')
DEREF = {'operator->', 'operator*'}
DEPTH = 8



def opaque(t):
    return 'type-parameter' in t or 'dependent' in t


class Silent:
    def __getattr__(self, n):
        return lambda *a, **k: None


class Assign(Flow):
    """State: (keys assigned, keys possibly assigned or decided elsewhere). Keys: ('m', member) of this object, (depth, local)."""
    MAXIT = 8

    def __init__(self, P, cls, chk):
        Flow.__init__(self, P)
        self.cls, self.chk = cls, chk
        self.mro = ([cls] + P.bases_of(cls)) if cls else []
        self.depth = 0
        self.stack = []
        self.fields = chk.fields(self.mro) if cls else {}

    # ('=', key, val): the local flag is known to be val; ('?', key, val, x): x holds whenever the flag is val
    def join(self, a, b):
        o = a & b
        flags = {x[1] for x in (a ^ b) if x[0] in ('=', '?')}
        for f in flags:
            for v in (False, True):
                ka = None if ('=', f, not v) in a else a | {x[3] for x in a if x[0] == '?' and x[1:3] == (f, v)}
                kb = None if ('=', f, not v) in b else b | {x[3] for x in b if x[0] == '?' and x[1:3] == (f, v)}
                k = kb if ka is None else ka if kb is None else ka & kb
                if k:
                    o = o | {('?', f, v, x) for x in k - o if x[0] not in ('=', '?', 'N', 'L')}
        return o

    def flag(self, key, val, st):
        """the local at key now holds val (None: something else)"""
        if key is None or key[0] == 'm':
            return st
        st = frozenset(x for x in st if not (x[0] in ('=', '?') and x[1] == key))
        return st if val is None else st | {('=', key, val)}

    def const(self, n):
        n = strip(n)
        v = n.get('cv', n.get('v') if n['k'] == 'lit' else None) if n is not None and n['k'] != 'var' else None
        return bool(int(v)) if isinstance(v, (int, bool)) else None

    def known(self, n, truth, st):
        while n is not None and n['k'] == 'un' and n.get('op') == '!':
            n, truth = strip(n['c'][0]), not truth
        if n is None or n['k'] != 'var':
            return st
        key = (self.depth, n['v'])
        if ('=', key, not truth) in st:
            return None
        return st | {('=', key, truth)} | {x[3] for x in st if x[0] == '?' and x[1:3] == (key, truth)}

    def refine(self, c, truth, st):
        n = strip(c)
        if n is None:
            return st
        st = self.known(n, truth, st)
        if st is None:
            return None
        if n['k'] == 'mcall' and n.get('f') in self.chk.HAS and self.this(n['c'][0]) and not truth:
            s = strconst(self.P, n['c'][1])
            if s is not None and self.chk.decl.get(self.cls, {}).get(s) == 'req':
                return None         # init of the base class has rejected that
        t = self.nonnull(n, truth)
        if t is not None:
            return st | {t}
        return st

    def nonnull(self, n, truth):
        """the smart pointer member known to hold something when n is truth"""
        n = strip(n)
        if n is None:
            return None
        if n['k'] == 'mcall' and n.get('f') and self.P.D[n['f']]['n'] in ('operator bool', 'get'):
            return self.nonnull(n['c'][0], truth)
        if n['k'] in ('bin', 'ocall') and n.get('op') in ('==', '!=') and len(n['c']) == 2:
            for x, y in (n['c'], n['c'][::-1]):
                y = strip(y)
                if y is not None and (y['k'] == 'null' or y['k'] == 'lit' and not y.get('v')):
                    return self.nonnull(x, truth if n['op'] == '!=' else not truth)
            return None
        return self.k(n)[0] if truth and self.smart(n) else None

    def smart(self, n):
        return n is not None and n['k'] == 'mem' and bool(n.get('q')) and n['q'] and bool(self.fields) and plain(n['q']) in self.fields \
            and bool(SMART.match(self.fields[plain(n['q'])]['t']))

    # -- which object
    def this(self, n):
        n = strip(n)
        if n is not None and n['k'] == 'un' and n.get('op') == '*':
            n = strip(n['c'][0])
        return n is not None and n['k'] == 'this'

    def k(self, n):
        """key of the thing an lvalue names (a whole tracked variable or member), and whether all of it"""
        whole = True
        while n is not None:
            s = strip(n)
            if s is None:
                return None, False
            if s['k'] == 'var':
                return (self.depth, s['v']), whole
            if s['k'] in ('mem', 'dmem'):
                if s.get('c') and self.this(s['c'][0]) or not s.get('c'):
                    return (('m', plain(s['q'])) if s.get('q') else None), whole
                if not s.get('arrow') and s.get('c'):
                    n, whole = s['c'][0], False
                    continue
                return None, False
            if s['k'] == 'sub':
                b = strip(s['c'][0])
                while b is not None and b['k'] == 'sub':
                    b = strip(b['c'][0])
                if b is not None and b['k'] in ('var', 'mem') and self.is_array(b):
                    n, whole = b, False
                    continue
                return None, False
            return None, False
        return None, False

    def is_array(self, b):
        t = self.type(b)
        return t is not None and t.rstrip().endswith(']')

    def type(self, b):
        if b['k'] == 'var':
            L = self.Fn['locals']
            L = L[b['v']] if isinstance(L, list) else L.get(b['v'])
            return L['t'] if L else None
        if b['k'] == 'mem':
            f = self.fields.get(plain(b['q']))
            return f['t'] if f else b.get('t')
        return None

    def tracked(self, key, st):
        if key is None:
            return False
        if key[0] == 'm':
            return key[1] in self.fields
        return ('L',) + key in st

    def array(self, key):
        if key[0] == 'm':
            t = self.fields[key[1]]['t']
        else:
            t = self.Fn['locals'][key[1]]['t']
        return t.rstrip().endswith(']')

    # -- reads and writes
    # an array counts as untouched, ('N', key), until something may have stored into it: its elements are not told apart
    def read(self, n, st):
        key, whole = self.k(n)
        if key is None or not self.tracked(key, st):
            return st
        if self.array(key):
            if ('N', key) in st:
                self.chk.unset(self, key, n, st)
                return st - {('N', key)}
            return st
        if key in st:
            return st
        if key[0] == 'm' and any(t != key[1] and self.chk.together(self.cls, t, key[1]) for t in self.chk.mentions(self.Fn)):
            return st
        self.chk.unset(self, key, n, st)
        return st | {key}

    def write(self, n, st):
        key, whole = self.k(n)
        st = self.flag(key, None, st)
        if key is not None and self.tracked(key, st):
            return st | {key} if not self.array(key) else st - {('N', key)}
        return st

    def escape(self, n, st):
        """the address or a reference of it is given away: taken as assigned there"""
        return self.write(n, st)

    def ctx(self):
        """ids of nodes of this function that are not read where they stand"""
        return self.chk.context(self.Fn)

    def on(self, n, st):
        k = n['k']
        if k in ('var', 'mem', 'sub'):
            w = self.ctx().get(id(n))
            if w == 'w' or w == 'part':
                return st
            if w == 'ref' or k != 'sub' and self.whole_array(n):
                return self.escape(n, st)
            if self.smart(n):
                return st
            return self.read(n, st)
        if k == 'ocall' and n.get('op') == '=' and len(n['c']) == 2 and self.smart(strip(n['c'][0])):
            r = strip(n['c'][1])
            null = r is not None and (r['k'] in ('null', 'zero') or r['k'] == 'ctor' and (not r.get('c') or strip(r['c'][0]) is not None and strip(r['c'][0])['k'] == 'null'))
            key, _ = self.k(n['c'][0])
            return st - {key} if null else self.write(n['c'][0], st)
        if k == 'ocall' and n.get('op') in ('->', '*') and len(n['c']) == 1 and self.smart(strip(n['c'][0])):
            return self.read(n['c'][0], st)
        if k == 'mcall' and self.smart(strip(n['c'][0])) and n.get('f') and self.P.D[n['f']]['n'] == 'reset':
            return self.write(n['c'][0], st)
        if k == 'asg':
            if n['op'] == '=':
                key, whole = self.k(n['c'][0])
                return self.flag(key if whole else None, self.const(n['c'][1]), self.write(n['c'][0], st))
            st = self.read(n['c'][0], st)
            return self.write(n['c'][0], st)
        if k == 'lambda':
            for x in walk(n['body']):
                if x['k'] == 'mem' and x.get('c') and self.this(x['c'][0]) and self.chk.context_of(n).get(id(x)) is None:
                    st = self.read(x, st)
            for c in n.get('caps') or ():
                if c.get('v') is not None:
                    key = (self.depth, c['v'])
                    if c.get('ref'):
                        st = self.flag(key, None, st) | {key}
            return st
        if k in ('call', 'mcall', 'ctor') and n.get('f'):
            return self.call_site(n, st)
        return st

    def whole_array(self, n):
        """an array named as such turns into a pointer to its elements"""
        return self.is_array(n)

    def declare(self, vd, st):
        v = vd['v']
        L = self.Fn['locals'][v]
        key = (self.depth, v)
        st = self.flag(key, self.const(vd['init']) if vd.get('init') is not None else None, st - {key, ('L',) + key, ('N', key)})
        if vd.get('init') is None and not L.get('st') and self.chk.tracks(L['t']):
            self.chk.seen(self, vd)
            st = st | {('L',) + key}
            return st | {('N', key)} if self.array(key) else st
        return st

    def leave(self, vs, st):
        return st

    def x_omp(self, n, st):
        return Flow.x_omp(self, n, st)

    # -- calls on this
    def call_site(self, n, st):
        P = self.P
        if not self.cls:
            return st
        args = n['c'][1:] if n['k'] == 'mcall' else n.get('c') or ()
        for i, a in enumerate(args):
            a = strip(a)
            while a is not None and a['k'] == 'ctor' and len(a.get('c') or ()) == 1:
                a = strip(a['c'][0])        # a copy of it
            if self.smart(a) and self.chk.follows(n['f'], i):
                st = self.read(a, st)
        if n['k'] == 'mcall' and self.this(n['c'][0]):
            g, args = (self.resolve(n['f']) if n.get('virt') else n['f']), n['c'][1:]
            return self.enter(g, st)
        return st

    def members(self, st):
        return frozenset(x for x in st if x[0] == 'm' or x[0] == 'N' and x[1][0] == 'm')

    def begin(self):
        return frozenset(('N', ('m', q)) for q in self.fields if self.array(('m', q)))

    def resolve(self, fid):
        P, d = self.P, self.P.D[fid]
        if not d.get('virt'):
            return fid
        ov = P.all_overriders(fid) | {fid}
        for c in self.mro:
            for f in P.by_qn.get('%s::%s' % (c, d['n']), ()):
                if f in ov:
                    return f
        return fid

    def enter(self, g, st):
        B = self.P.body_of(g)
        if B is None or g in self.stack or len(self.stack) >= DEPTH or not self.fields:
            return st
        save = (self.exits, self.loops, self.scopes, self.trys, self.Fn)
        self.depth += 1
        self.stack.append(g)
        out = None
        for kind, node, s in self.run(B, self.members(st)):
            if kind in ('ret', 'fall'):
                out = self.J(out, self.members(s))
        self.stack.pop()
        self.depth -= 1
        self.exits, self.loops, self.scopes, self.trys, self.Fn = save
        return None if out is None else out | frozenset(x for x in st if x not in self.members(st))

    # -- constructors
    def ctor_init(self, i, st):
        if i.get('base') or i.get('deleg'):
            n = strip(i['init']) if i.get('init') is not None else None
            if n is not None and n['k'] == 'ctor' and n.get('f'):
                return self.construct(self.P.D[n['f']]['cls'], st, n['f'])
            if isinstance(i.get('base'), str):
                return self.construct(i['base'], st)
            return st
        q = i.get('q')
        if q and i.get('init') is not None:
            return (st | {('m', plain(q))}) - {('N', ('m', plain(q)))}
        return st

    def construct(self, c, st, f=None):
        P = self.P
        if f is not None and P.body_of(f) is not None and not P.D[f].get('implicit') and not P.D[f].get('defaulted'):
            return self.enter(f, st)
        cs = [x for x in self.chk.ctors.get(c, ())] if f is None else []
        if cs:
            out = None
            for x in cs:
                out = self.J(out, self.enter(x, st))
            return out
        r = P.R.get(c) or {}
        for b in r.get('bases', ()):
            st = self.construct(b['t'], st)
            if st is None:
                return None
        ms = frozenset(('m', plain('%s::%s' % (c, x['n']))) for x in r.get('fields', ()) if x.get('init') is not None)
        return (st | ms) - {('N', x) for x in ms}


class Check:
    def together(self, cls, t, m):
        """Whoever gives member t a value (other than a null one) gives m one in the same function."""
        k = (cls, t, m)
        if k not in self._tog:
            self._tog[k] = False
            n = ok = 0
            for fid in self.methods(cls):
                F = self.P.body_of(fid)
                if F is None or self.P.D[fid].get('ctor'):
                    continue
                w = self.stores(F)
                if t in w:
                    n += 1
                    ok += m in w
            self._tog[k] = n > 0 and n == ok
        return self._tog[k]

    def methods(self, cls):
        if self._by is None:
            self._by = {}
            for fid, d, F in self.P.functions():
                self._by.setdefault(d.get('cls'), []).append(fid)
        return self._by.get(cls, ())

    def follows(self, fid, i):
        """Does the function dereference its parameter i without ever testing it?"""
        k = ('d', fid, i)
        if k not in self._ctx:
            r, B = False, self.P.body_of(fid)
            if B is not None and i < len(B['ps']):
                v = B['ps'][i]
                tested = False
                for x in walk(B['body']):
                    c = [strip(y) for y in x.get('c') or ()]
                    hit = bool(c) and c[0] is not None and c[0]['k'] == 'var' and c[0].get('v') == v
                    if x['k'] == 'ocall' and x.get('op') in ('->', '*') and len(c) == 1 and hit:
                        r = True
                    elif x['k'] == 'mcall' and hit or x['k'] in ('ocall', 'bin') and x.get('op') in ('==', '!='):
                        tested = True
                r = r and not tested
            self._ctx[k] = (r, B)
        return self._ctx[k][0]

    def mentions(self, F):
        k = ('m', id(F))
        if k not in self._ctx:
            self._ctx[k] = ({plain(x['q']) for x in walk(F['body']) if x['k'] == 'mem' and x.get('q')}, F)
        return self._ctx[k][0]

    def inside(self, fid):
        """Only called on this, by the class itself."""
        if self._calls is None:
            self._calls = {}
            for f, d, F in self.P.functions():
                for x in walk(F['body']):
                    if x['k'] in ('mcall', 'call') and x.get('f'):
                        on = x['k'] == 'mcall' and x.get('c') and strip(x['c'][0]) is not None and strip(x['c'][0])['k'] == 'this'
                        self._calls.setdefault(x['f'], set()).add(bool(on))
        return self._calls.get(fid) == {True} and not self.P.D[fid].get('virt')

    def stores(self, F):
        out = set()
        for x in walk(F['body']):
            c = x.get('c') or ()
            if x['k'] in ('asg', 'ocall') and x.get('op') == '=' and len(c) == 2:
                l, r = strip(c[0]), strip(c[1])
                while r is not None and r['k'] in ('ctor', 'init') and len(r.get('c') or ()) == 1:
                    r = strip(r['c'][0])
                null = r is not None and (r['k'] in ('null', 'zero') or r['k'] == 'lit' and r.get('v') in (0, False, None))
                if l is not None and l['k'] == 'mem' and not null:
                    out.add(plain(l['q']))
        return out

    def __init__(self, P, R):
        self._by = self._calls = None
        self.ops = set(P.all_derived('ts::Operator'))
        self._tog, self.decl, self.HAS = {}, {}, set(P.need('ts::Operator::has'))
        self.P, self.R = P, R
        self._ctx, self._fields = {}, {}
        self.ctors = {}
        self.found = {}
        self.rule = 'O06.local'
        for fid, d, F in P.functions(lambda d: d.get('ctor') and not d.get('implicit') and not d.get('defaulted')):
            if d.get('dep') or d['cls'].endswith('<>') or F.get('dep'):
                continue
            self.ctors.setdefault(d['cls'], []).append(fid)

    def tracks(self, t):
        if opaque(t):
            return bool(re.match(r'^(const )?type-parameter-\d+-\d+(\[\w+\])*$', t))
        t = re.sub(r'(\[\w*\])+$', '', t).strip()
        return bool(SCALAR.match(t)) or t in self.P.E or self.podtype(t)

    def podtype(self, t):
        r = self.P.R.get(plain(t))
        return bool(r and r.get('pod'))

    def fields(self, mro):
        m = {}
        for c in mro:
            for f in (self.P.R.get(c) or {}).get('fields', ()):
                if f.get('n') and (self.tracks(f['t']) or c in self.ops and SMART.match(f['t'])):
                    m[plain('%s::%s' % (c, f['n']))] = f
        return m

    def context_of(self, lam):
        k = ('l', id(lam))
        if k not in self._ctx:
            self._ctx[k] = (self.build(lam['body']), lam)
        return self._ctx[k][0]

    def context(self, F):
        k = id(F)
        if k not in self._ctx:
            m = self.build(F['body'])
            for i in F.get('inits', ()):
                if i.get('init') is not None:
                    m.update(self.build(i['init']))
            self._ctx[k] = (m, F)
        return self._ctx[k][0]

    def build(self, body):
        m = {}

        def lhs(n, w):
            s = n
            first = True
            while s is not None and s['k'] in ('cast', 'icast', 'upcast', 'mem', 'dmem', 'sub', 'var'):
                if s['k'] in ('mem', 'dmem', 'sub', 'var'):
                    m[id(s)] = w if first or m.get(id(s)) is None else m[id(s)]
                    first = False
                    if s['k'] == 'mem' and s.get('arrow') or s['k'] == 'var':
                        if s['k'] == 'mem' and s.get('c') and s['c'][0] is not None and s['c'][0]['k'] != 'this':
                            pass
                        break
                if not s.get('c'):
                    break
                s = s['c'][0]

        for x in walk(body):
            k = x['k']
            c = x.get('c') or ()
            if k == 'asg' and x['op'] == '=':
                lhs(c[0], 'w')
            elif k == 'asg':
                lhs(c[0], 'w')
            elif k == 'un' and x.get('op') == '&':
                lhs(c[0], 'ref')
            elif k in ('call', 'mcall', 'ctor', 'new', 'ocall') and x.get('f'):
                d = self.P.D.get(x['f'])
                ps = d.get('ps') or () if d else ()
                off = 1 if k == 'mcall' or k == 'ocall' and d and d.get('m', d.get('cls')) and len(ps) < len(c) else 0
                for i, a in enumerate(c[off:]):
                    if a is None:
                        continue
                    t = ps[i]['t'] if i < len(ps) else ''
                    if t.endswith('&') and not t.startswith('const '):
                        lhs(a, 'ref')
                if off and k == 'ocall' and x.get('op') in ('=', '>>'):
                    lhs(c[0], 'w')
            elif k == 'ocall' and c or k in ('call', 'mcall', 'new') and not x.get('f') or k == 'dctor' or k == 'x' and 'Asm' in x.get('x', ''):
                for a in c:
                    if a is not None:
                        lhs(a, 'ref')
            elif k in ('mem', 'dmem', 'sub') and c and c[0] is not None:
                # reading a part reads the whole: reported once, at the outermost
                if c[0]['k'] in ('mem', 'dmem', 'sub', 'var') and not x.get('arrow'):
                    m.setdefault(id(c[0]), 'part')
            elif k == 'decl' or k == 'vdecl':
                for v in (c if k == 'decl' else [x]):
                    if v.get('init') is not None and v.get('rf'):
                        lhs(v['init'], 'ref')
            elif k == 'sizeof':
                for y in walk(x):
                    m[id(y)] = 'w'
        return m

    def seen(self, fl, vd):
        self.R.ob(self.rule, '%s:%s' % (fl.Fn['file'], vd.get('l')))

    def unset(self, fl, key, n, st):
        P, R = self.P, self.R
        F = fl.Fn
        if key[0] == 'm':
            if F['file'] and not SCOPE.match(F['file']):
                return
            name = key[1].split('::')[-1]
            k = 'O06.member|%s|%s' % (key[1], F.get('id'))
            if k in self.found:
                return
            self.found[k] = 1
            R.bad('O06.member', '%s|%s' % (key[1], P.D[F['id']]['qn']), '%s:%s' % (F['file'], n.get('l')),
                  '%s reads %s, which nothing has set on some path (class %s)' % (P.D[F['id']]['qn'], key[1], fl.cls))
            return
        name = F['locals'][key[1]]['n']
        k = (F['file'], n.get('l'), name)
        if k in self.found:
            return
        self.found[k] = 1
        R.bad('O06.local', '%s|%s' % (P.D[F['id']]['qn'], name), '%s:%s' % (F['file'], n.get('l')),
              '%s reads the local variable %s, which is not set on some path' % (P.D[F['id']]['qn'], name))


def check(P, R):
    R.rule('O06.local', 'A local variable declared without a value is assigned on every path before it is read.')
    R.rule('O06.member', 'A member of an operator (or any class) that no constructor sets is assigned on every path of init, or of the function itself, before it is read.')
    C = Check(P, R)
    for fid, d, F in P.functions():
        if not SCOPE.match(F['file'] or '') or d.get('implicit'):
            continue
        fl = Assign(P, None, C)
        fl.stack = [fid]
        fl.run(F, frozenset())
    R.floor('O06.local', 50)
    C.rule = 'O06.member'
    members(P, R, C)


def members(P, R, C):
    roots = {}
    for f in P.find('ts::Operator::run') + P.find('ts::Operator::infer') + P.find('ts::Operator::init'):
        d = P.D[f]
        if d.get('virt'):
            roots[d['n']] = f
    if set(roots) != {'run', 'infer', 'init'}:
        raise AnalysisError('anchor vanished: virtual functions of ts::Operator')
    ops = set(P.all_derived('ts::Operator'))
    g = Prog(P, Silent())
    g.root_init = roots['init']
    for fid, d, F in P.functions(lambda d: d.get('ctor') and not d.get('implicit') and not d.get('defaulted')):
        g.ctors.setdefault(d['cls'], []).append(fid)
    for c in sorted(ops):
        fl = Fields(P, c, g)
        start(fl)
        st = fl.construct(c, T((), frozenset(), ()))
        if st is not None:
            C.decl[c] = dict(st.decl)
    for c in sorted(ops):
        fl = Assign(P, c, C)
        if not fl.fields:
            continue
        for q in fl.fields:
            R.ob('O06.member', q)
        start(fl)
        st = fl.construct(c, fl.begin())
        if st is None:
            continue
        for m in ('init', 'infer', 'run'):
            start(fl)
            s2 = fl.enter(fl.resolve(roots[m]), st)
            if m == 'init':
                st = s2 if s2 is not None else st
    byc = {}
    for fid, d, F in P.functions():
        if d.get('cls') and not d.get('static') and not d.get('implicit') and SCOPE.match(F['file'] or ''):
            byc.setdefault(d['cls'], []).append((fid, d, F))
    for c, fs in sorted(byc.items()):
        if c in ops or c not in P.R or c.endswith('<>'):
            continue
        fl = Assign(P, c, C)
        if not fl.fields or not C.ctors.get(c):
            continue
        for q in fl.fields:
            R.ob('O06.member', q)
        start(fl)
        st = fl.construct(c, fl.begin())
        if st is None:
            continue
        for fid, d, F in fs:
            if d.get('ctor') or C.inside(fid):
                continue
            start(fl)
            fl.enter(fid, st)


def start(fl):
    fl.exits, fl.loops, fl.scopes, fl.trys, fl.Fn = [], [], [], [], None
    fl.depth = 0
    fl.stack = []

"""Symbolic extraction of a file format from the code that writes or reads it.

A writer or reader is walked once in evaluation order; every function it hands its stream to is walked in place. The result is a tree of
tokens: 'fix' (a field of constant width), 'var' (a run of a computed number of elements), 'loop' (a body repeated a computed number of
times), 'alt' (fields that are only there under a condition). Counts, written values and destinations are kept as terms over the
function's parameters, with accessors and constructors expanded, so that a writer's and a reader's tree can be compared."""
import re
from .program import walk, children
from .sem import strip
from .p_e01 import Plain

WIDTH = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
         'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'int8_t': 1, 'uint8_t': 1, 'int16_t': 2, 'uint16_t': 2,
         'int32_t': 4, 'uint32_t': 4, 'int64_t': 8, 'uint64_t': 8, 'size_t': 8}
STREAM = re.compile(r'\bts::(\w*Stream(Reader|Writer)?(V2)?)\b')
SAME = {'begin', 'end', 'cbegin', 'cend', 'data', 'c_str', 'get', 'move', 'forward', 'weak_memory', 'c_shared', 'shared', 'operator->', 'front', 'ref', 'cref'}


def width(t):
    t = t.replace('const ', '').replace('volatile ', '').rstrip('&* ').strip()
    if t.startswith('ts::') or t.startswith('std::'):
        t2 = t.split('::')[-1]
        return WIDTH.get(t2)
    return WIDTH.get(t)


def has(t, r):
    return t == r or isinstance(t, tuple) and any(has(x, r) for x in t if isinstance(x, tuple))


def skips_empty(cond, toks):
    """The condition only asks whether the runs that depend on it have elements."""
    return bool(toks) and all(x['k'] in ('var', 'loop') and any(has(cond, s) for s in ([x['count']] + ([x['count'][1]] if x['count'][0] == 'size' else []))) for x in toks)


def hollow(toks):
    return all(t['k'] == 'alt' and hollow(t['a']) and hollow(t['b']) for t in toks)


def fold(o, a, b):
    if a[0] == 'c' and b[0] == 'c' and all(isinstance(x, int) for x in (a[1], b[1])) and o in ('+', '-', '*'):
        return ('c', {'+': a[1] + b[1], '-': a[1] - b[1], '*': a[1] * b[1]}[o])
    if o in ('+', '-') and b == ('c', 0):
        return a
    return ('op', o, a, b)


class Extract:
    def __init__(self, P):
        self.P = P
        self.mem = {}
        self.tokens = []
        self.cur = self.tokens
        self.path = ()
        self.n = 0
        self.reads = 0
        self.writes = []          # (destination, value, function, line)
        self.sinks = []           # (function, object, arguments)
        self.depth = 0
        self.used = []            # terms that decide counts and conditions
        self.plain = Plain(P)
        self.frames = []
        self.lams = {}

    # ------------------------------------------------------------ terms
    def cell(self):
        self.n += 1
        return ('cell', self.n)

    def rd(self, L):
        if L in self.mem:
            return self.mem[L]
        k = L[0]
        if k == 'fld':
            b = self.rd(L[1])
            if b[0] == 'new':
                for f, v in b[3]:
                    if f == L[2]:
                        return v
            if b[0] == 'pair' and L[2] in ('first', 'second'):
                return b[1 if L[2] == 'first' else 2]
            return ('fld', b, L[2])
        if k == 'elem':
            return self.elem(self.rd(L[1]), L[2])
        if k == 'val':
            return L[1]
        if k == 'cell':
            return ('obj', L[1])
        return L

    def elem(self, b, i):
        if b[0] == 'filled':
            return self.elem(b[1], i) if b[1][0] in ('vec', 'list') and b[1][2] is not None else ('elem', b, i)
        if b[0] in ('vec', 'list') and b[2] is not None:
            return ('at', b[2], i) if i and i[0] != 'it' else b[2]
        return ('elem', b, i)

    def wr(self, L, v, line):
        self.writes.append((L, v, self.frames[-1][0] if self.frames else None, line))
        if L[0] == 'elem':
            b = self.rd(L[1])
            if b[0] in ('vec', 'filled'):
                self.mem[L[1]] = ('vec', self.size(b), v)
            return
        for k in [k for k in self.mem if k[0] in ('fld', 'elem') and self.under(k, L)]:
            del self.mem[k]
        self.mem[L] = v

    def under(self, k, L):
        while k[0] in ('fld', 'elem'):
            k = k[1]
            if k == L:
                return True
        return False

    def size(self, v):
        if v[0] == 'vec':
            return v[1]
        if v[0] == 'filled':
            return self.size(v[1])
        if v[0] == 'call' and v[1] == 'alloc' and v[3]:
            return v[3][0] if len(v[3]) == 1 else v[3][-1]
        return ('size', v)

    # ------------------------------------------------------------ expressions
    def env(self):
        return self.frames[-1][1]

    def lv(self, n):
        n = strip(n)
        if n is None:
            return ('val', ('?',))
        k = n['k']
        c = n.get('c') or ()
        if k == 'var':
            e = self.env()
            if n['v'] not in e:
                e[n['v']] = self.cell()
            return e[n['v']]
        if k == 'this':
            return self.frames[-1][2]
        if k == 'mem' and c:
            return ('fld', self.lv(c[0]), n['n'])
        if k == 'un' and n['op'] == '*' or k == 'ocall' and n['op'] in ('*', '->') and len(c) == 1:
            v = self.ev(c[0])
            if v[0] == 'addr':
                return v[1]
            if v[0] == 'iter':
                return ('elem', v[1], v[2])
            b = self.lv(c[0])
            return b
        if k == 'un' and n['op'] == '&':
            return ('val', ('addr', self.lv(c[0])))
        if k == 'sub' or k == 'ocall' and n['op'] == '[]':
            return ('elem', self.lv(c[0]), self.ev(c[1]))
        if k in ('mcall', 'call') and n.get('f'):
            d = self.P.D.get(n['f'], {})
            if d.get('n') in SAME and (k == 'mcall' and len(c) == 1 or k == 'call' and len(c) == 1):
                return self.lv(c[0])
            if d.get('n') == 'at' and len(c) == 2:
                return ('elem', self.lv(c[0]), self.ev(c[1]))
            r = self.inline(n, d, True)
            if r is not None:
                return r
        if k == 'cond' and len(c) == 3:
            return ('val', self.ev(n))
        return ('val', self.ev(n))

    def ev(self, n):
        n = strip(n)
        if n is None:
            return ('?',)
        if isinstance(n.get('cv'), (int, bool)):
            return ('c', int(n['cv']))
        k = n['k']
        c = n.get('c') or ()
        if k == 'lit':
            return ('c', n.get('v'))
        if k == 'en':
            return ('c', n.get('v'))
        if k == 'gv':
            return ('g', n['q'])
        if k in ('var', 'this', 'sub') or k == 'mem' and c:
            return self.rd(self.lv(n))
        if k == 'asg':
            v = self.ev(c[1])
            L = self.lv(c[0])
            if n['op'] != '=':
                v = fold(n['op'][:-1], self.rd(L), v)
            self.wr(L, v, n.get('l'))
            return v
        if k == 'un':
            if n['op'] in ('++', '--'):
                L = self.lv(c[0])
                old = self.rd(L)
                new = fold(n['op'][0], old, ('c', 1))
                self.wr(L, new, n.get('l'))
                return old if n.get('post') else new
            if n['op'] == '&':
                return ('addr', self.lv(c[0]))
            if n['op'] == '*':
                return self.rd(self.lv(n))
            return ('op', n['op'], self.ev(c[0]))
        if k == 'bin':
            a, b = self.ev(c[0]), self.ev(c[1])
            return fold(n['op'], a, b)
        if k == 'cond' and len(c) == 3:
            return ('phi', self.ev(c[1]), self.ev(c[2]), self.ev(c[0]))
        if k == 'ocall':
            op = n['op']
            if op == '=' and len(c) == 2:
                v = self.ev(c[1])
                self.wr(self.lv(c[0]), v, n.get('l'))
                return v
            if op in ('*', '->', '[]'):
                return self.rd(self.lv(n))
            if op in ('++', '--'):
                return self.ev(c[0])
            if op == '()' and c:
                lam = self.ev(c[0])
                if lam[0] == 'lambda' and lam[1] in self.lams and self.depth < 12:
                    return self.closure(self.lams[lam[1]], c[1:])
            args = [self.ev(x) for x in c]
            if any(a == ('stream',) for a in args) and n.get('f'):
                return self.call(n, self.P.D.get(n['f'], {}), c, None)
            return ('op', op) + tuple(args)
        if k in ('call', 'mcall'):
            d = self.P.D.get(n.get('f'), {}) if n.get('f') else {}
            return self.callv(n, d, c)
        if k == 'ctor' or k == 'init':
            return self.ctor(n, c)
        if k == 'new':
            for x in c:
                v = self.ev(x)
            return ('new', n.get('t', ''), tuple(self.ev(x) for x in c), ())
        if k == 'lambda':
            self.lams[id(n)] = n
            return ('lambda', id(n))
        for x in children(n):
            self.ev(x)
        return ('?',)

    def ctor(self, n, c):
        d = self.P.D.get(n.get('f'), {}) if n.get('f') else {}
        args = [self.ev(x) for x in c if x is not None and x.get('k') != 'defarg' or x is not None and x.get('k') == 'defarg' and False]
        ps = d.get('ps', ())
        if d.get('ctor') in ('copy', 'move') and args:
            return args[0]
        t = n.get('t', '')
        if re.match(r'^(const )?std::(vector|basic_string|string)|^(const )?ts::otl::vector', t) and args:
            if args[0][0] == 'iter' or len(args) == 2 and args[0] == args[1]:
                return args[0]
            p0 = ps[0]['t'] if ps else ''
            if p0 in ('unsigned long', 'size_t', 'int', 'unsigned int') or p0.endswith('size_type'):
                return ('vec', args[0], args[1] if len(args) > 1 else None)
            return args[0]
        if 'pair<' in t.split('(')[0] and len(args) == 2:
            return ('pair', args[0], args[1])
        flds = ()
        F = self.P.body_of(n['f']) if n.get('f') else None
        if F is not None and self.depth < 12 and F.get('inits'):
            env = {}
            for v, a in zip(F['ps'], args):
                env[v] = ('val', a)
            self.frames.append((n['f'], env, ('val', ('?',))))
            self.depth += 1
            out = []
            for i in F['inits']:
                if i.get('fld') and i.get('init') is not None:
                    out.append((i['fld'], self.ev(i['init'])))
            self.depth -= 1
            self.frames.pop()
            flds = tuple(out)
        if len(args) == 1 and not flds and not (t.startswith('ts::') and 'Prototype' in t):
            if d.get('cls', '').startswith('std::') or not d:
                return args[0]
        return ('new', t, tuple(args), flds)

    def callv(self, n, d, c):
        name = d.get('n', '?')
        isM = n['k'] == 'mcall'
        cls = d.get('cls') or ''
        if any((a is not None and self.is_stream(a)) for a in c):
            return self.call(n, d, c, isM)
        if name in SAME and len(c) == 1:
            return self.ev(c[0])
        if name == 'make_pair' and len(c) == 2:
            return ('pair', self.ev(c[0]), self.ev(c[1]))
        if isM and c:
            if name in ('size', 'length', 'count') and len(c) == 1 and (cls.startswith('std::') or name == 'size'):
                return self.size(self.ev(c[0]))
            if name == 'resize' or name == 'assign' and len(c) == 3:
                L = self.lv(c[0])
                self.wr(L, ('vec', self.ev(c[1]), None), n.get('l'))
                return ('?',)
            if name in ('push_back', 'emplace_back', 'insert', 'emplace', 'push') and cls.startswith('std::'):
                L = self.lv(c[0])
                args = [self.ev(x) for x in c[1:]]
                v = args[0] if len(args) == 1 else ('pair',) + tuple(args)
                if self.rd(L)[0] in ('list', 'vec', 'obj', 'new') and name in ('push_back', 'emplace_back'):
                    self.wr(L, ('list', self.path, v), n.get('l'))
                else:
                    self.writes.append((L, v, self.frames[-1][0], n.get('l')))
                return ('?',)
            if name == 'clear' and cls.startswith('std::'):
                L = self.lv(c[0])
                self.mem[L] = ('list', None, None)
                return ('?',)
            if name in ('at', 'operator[]') and len(c) == 2:
                return self.rd(self.lv(n))
        r = self.inline(n, d, False)
        if r is not None:
            return r
        obj = self.ev(c[0]) if isM and c else None
        args = tuple(self.ev(x) for x in (c[1:] if isM else c))
        self.sinks.append((n.get('f'), obj, args))
        return ('call', name, obj, args)

    def inline(self, n, d, ref):
        """An accessor: a function whose body only returns an expression."""
        f = n.get('f')
        F = self.P.body_of(f) if f else None
        if F is None or self.depth > 8 or d.get('virt') and n.get('virt'):
            return None
        b = F['body']
        ss = [s for s in b['c'] if s is not None] if b is not None and b['k'] == 'block' else []
        if len(ss) != 1 or ss[0]['k'] != 'ret' or not ss[0].get('c'):
            return None
        if (d.get('qn') or '').startswith('std::'):
            return None
        c = n.get('c') or ()
        isM = n['k'] == 'mcall'
        args = c[1:] if isM else c
        env = {}
        for v, a in zip(F['ps'], args):
            env[v] = ('val', self.ev(a)) if not F['locals'][v]['t'].endswith('&') else self.lv(a)
        this = self.lv(c[0]) if isM and c else ('val', ('?',))
        if this[0] == 'val' and this[1][0] == 'addr':
            this = this[1][1]
        self.frames.append((f, env, this))
        self.depth += 1
        try:
            e = ss[0]['c'][0]
            r = self.lv(e) if ref else self.ev(e)
        finally:
            self.depth -= 1
            self.frames.pop()
        return r

    def is_stream(self, a):
        s = strip(a)
        if s is None:
            return False
        if s['k'] == 'var':
            e = self.env()
            if s['v'] in e and self.rd(e[s['v']]) == ('stream',):
                return True
            return False
        if s['k'] == 'un' and s['op'] in ('&', '*'):
            return self.is_stream(s['c'][0])
        if s['k'] == 'ocall' and s['op'] == '*':
            return self.is_stream(s['c'][0])
        if s['k'] == 'call' and self.P.D.get(s.get('f'), {}).get('n') in SAME and len(s['c']) == 1:
            return self.is_stream(s['c'][0])
        return False

    def tok(self, **t):
        t['at'] = (self.frames[-1][0], t.pop('line'))
        t['path'] = self.path + (len(self.cur),)
        self.cur.append(t)
        return t

    def call(self, n, d, c, isM):
        """A call that gets the stream."""
        qn = d.get('qn', '?')
        l = n.get('l')
        if qn in ('ts::binio::read', 'ts::binio::write'):
            w = width((d.get('targs') or ['?'])[0])
            pt = d['ps'][1]['t']
            m = re.search(r'\[(\d+)\]', pt)
            if len(c) == 2:
                if m:
                    w = w * int(m.group(1)) if w else None
                return self.field(qn.endswith('read'), w, c[1], l)
            return self.run_(qn.endswith('read'), w, self.ev(c[2]), c[1], l)
        s0 = isM and self.is_stream(c[0])
        if s0:
            nm = d.get('n')
            if nm in ('read', 'write') and len(c) == 3:
                a = strip(c[1])
                sz = c[2]
                while strip(sz) is not None and strip(sz)['k'] in ('cast', 'icast'):
                    sz = strip(sz)
                s = strip(sz)
                if isinstance(sz.get('cv'), int) or s is not None and (isinstance(s.get('cv'), int) or s['k'] in ('sizeof', 'lit')):
                    w = sz.get('cv', s.get('cv', s.get('v')))
                    t = a['c'][0] if a is not None and a['k'] == 'un' and a['op'] == '&' else a
                    return self.field(nm == 'read', w if isinstance(w, int) else None, t, l)
                return self.run_(nm == 'read', 1, self.ev(sz), c[1], l)
            self.tok(k='op', name=nm, line=l)
            return ('?',)
        f = n.get('f')
        F = self.P.body_of(f) if f else None
        if F is None or self.depth > 12:
            self.tok(k='opaque', name=qn, line=l)
            return ('?',)
        args = c[1:] if isM else c
        env = {}
        for v, a in zip(F['ps'], args):
            t = F['locals'][v]['t']
            if self.is_stream(a):
                env[v] = ('val', ('stream',))
            elif t.endswith('&') and not self.temp(a):
                env[v] = self.lv(a)
            else:
                cl = self.cell()
                self.mem[cl] = self.ev(a)
                env[v] = cl
        this = self.lv(c[0]) if isM else ('val', ('?',))
        if this[0] == 'val' and this[1][0] == 'addr':
            this = this[1][1]
        return self.body(f, F, env, this)

    def closure(self, lam, args):
        fid, env, this = self.frames[-1]
        F = self.P.body_of(fid)
        for v, a in zip(lam['ps'], args):
            t = F['locals'][v]['t'] if v < len(F['locals']) else ''
            if self.is_stream(a):
                env[v] = ('val', ('stream',))
            elif t.endswith('&') and not self.temp(a):
                env[v] = self.lv(a)
            else:
                x = self.ev(a)
                env[v] = self.cell()
                self.mem[env[v]] = x
        self.depth += 1
        keep, self.ret = self.cur, None
        self.stmt(lam['body'])
        r, self.ret, self.cur = self.ret, None, keep
        self.depth -= 1
        return r if r is not None else ('?',)

    def temp(self, a):
        s = strip(a)
        return s is not None and s['k'] in ('ctor', 'lit', 'bin', 'new')

    def body(self, f, F, env, this):
        self.frames.append((f, env, this))
        self.depth += 1
        self.ret = None
        keep = self.cur
        self.stmt(F['body'])
        # an early return made the rest of the function conditional
        self.cur = keep
        r = self.ret
        self.ret = None
        self.depth -= 1
        self.frames.pop()
        return r if r is not None else ('?',)

    def field(self, rd, w, e, l):
        if rd:
            self.reads += 1
            r = ('R', self.reads)
            L = self.lv(e)
            t = self.tok(k='fix', w=w, dst=L, id=r, line=l)
            self.wr(L, r, l)
        else:
            self.tok(k='fix', w=w, val=self.ev(e), line=l)
        return ('?',)

    def run_(self, rd, w, count, e, l):
        self.used.append(count)
        if rd:
            self.reads += 1
            r = ('R', self.reads)
            L = self.lv(e)
            if L[0] == 'val' and L[1][0] == 'addr':
                L = L[1][1]
            if L[0] == 'elem' and L[2] == ('c', 0):
                L = L[1]
            self.tok(k='var', w=w, count=count, dst=L, id=r, line=l)
            old = self.rd(L)
            self.writes.append((L, r, self.frames[-1][0], l))
            if L[0] != 'val':
                self.mem[L] = ('filled', old, r)
        else:
            self.tok(k='var', w=w, count=count, val=self.ev(e), line=l)
        return ('?',)

    # ------------------------------------------------------------ statements
    def ends(self, s):
        """How control can leave a statement: it always throws."""
        if s is None:
            return False
        A = self.plain
        A.Fn = self.P.body_of(self.frames[-1][0])
        A.exits, A.loops, A.scopes, A.trys = [], [{'brk': None, 'cont': None, 'depth': 1}], [[]], []
        try:
            st = A.ex(s, True)
        except Exception:
            return False
        L = A.loops[0]
        return st is None and L['brk'] is None and L['cont'] is None and not any(e[0] == 'ret' for e in A.exits)

    def stmt(self, s):
        """Returns 'ret' if the statement always returns or throws."""
        if s is None:
            return None
        k = s['k']
        if k == 'block':
            for i, x in enumerate(s['c']):
                r = self.stmt(x)
                if r:
                    return r
            return None
        if k == 'decl':
            for x in s['c']:
                if x is not None and x['k'] == 'vdecl':
                    self.decl(x)
            return None
        if k == 'ret':
            c = s.get('c') or ()
            v = self.ev(c[0]) if c and c[0] is not None else ('?',)
            self.ret = v
            return 'ret'
        if k == 'if':
            return self.if_(s)
        if k in ('for', 'rfor', 'while', 'do'):
            self.loop(s)
            return None
        if k == 'try':
            self.stmt(s['body'] if s.get('body') is not None else s['c'][0])
            return None
        if k == 'switch':
            before = len(self.cur)
            for x in children(s):
                self.stmt(x) if x['k'] in ('block',) else self.ev(x)
            if len(self.cur) != before:
                self.tok(k='opaque', name='switch', line=s.get('l'))
            return None
        if k in ('break', 'continue', 'goto'):
            return k
        if k in ('case', 'default', 'label'):
            for x in children(s):
                self.stmt(x)
            return None
        if k == 'throw':
            return 'throw'
        self.ev(s)
        return None

    def decl(self, x):
        F = self.P.body_of(self.frames[-1][0])
        t = F['locals'][x['v']]['t'] if F is not None and x['v'] < len(F['locals']) else ''
        e = self.env()
        if x.get('init') is None:
            e[x['v']] = self.cell()
            return
        if t.endswith('&') and not self.temp(x['init']):
            e[x['v']] = self.lv(x['init'])
            return
        v = self.ev(x['init'])
        cl = self.cell()
        e[x['v']] = cl
        if v[0] == 'new' and not v[2]:
            self.mem.pop(cl, None)
            if v[3]:
                self.mem[cl] = v
            return
        self.mem[cl] = v

    def if_(self, s):
        cond = self.ev(s['cond']) if s.get('cond') is not None else ('?',)
        outs = []
        m0 = dict(self.mem)
        cur = self.cur
        for b in (s.get('then'), s.get('else')):
            self.mem = dict(m0)
            mine = self.cur = []
            thr = b is not None and self.ends(b)
            r = None
            if not thr:
                r = self.stmt(b)
            outs.append((mine, self.mem, 'throw' if thr else r))
        self.cur = cur
        (ta, ma, ra), (tb, mb, rb) = outs
        if ra == 'throw' and rb == 'throw':
            return 'throw'
        if ra == 'throw':
            self.cur += tb
            self.mem = mb
            return rb
        if rb == 'throw':
            self.cur += ta
            self.mem = ma
            return ra
        if skips_empty(cond, ta) and not tb and not rb and not ra:
            self.cur += ta
            self.mem = ma
            return None
        self.mem = {k: (ma[k] if ma.get(k) == mb.get(k) else ('phi', ma.get(k, self.old(m0, k)), mb.get(k, self.old(m0, k)), cond)) for k in set(ma) | set(mb)}
        if ta or tb or (ra or rb) and not (ra and rb):
            self.used.append(cond)
            t = self.tok(k='alt', cond=cond, a=ta, b=tb, ra=ra, rb=rb, line=s.get('l'))
            if (ra or rb) and not (ra and rb):
                # what follows belongs to the branch that goes on
                rest = t['b'] if ra else t['a']
                self.mem = mb if ra else ma
                self.cur = rest
        if ra and rb:
            return ra
        return None

    def old(self, m0, k):
        m, self.mem = self.mem, m0
        v = self.rd(k)
        self.mem = m
        return v

    def loop(self, s):
        cur, path = self.cur, self.path
        lid = ('it',) + path + (len(cur), s.get('l') if False else 0)
        count = ('?',)
        k = s['k']
        e = self.env()
        after = None
        if k == 'rfor':
            L = self.lv(s['range'])
            count = self.size(self.rd(L))
            v = s['v'] if not isinstance(s['v'], dict) else s['v']['v']
            lid = ('it',) + path + (len(cur),)
            e[v] = ('elem', L, lid)
            F = self.P.body_of(self.frames[-1][0])
            if not F['locals'][v]['t'].endswith('&'):
                cl = self.cell()
                self.mem[cl] = self.rd(('elem', L, lid))
                e[v] = cl
        elif k == 'for':
            lid = ('it',) + path + (len(cur),)
            count, var, start, box = self.counted(s)
            if var is not None:
                cl = self.cell()
                e[var] = cl
                self.mem[cl] = ('iter', box, lid) if box is not None else lid
        else:
            lid = ('it',) + path + (len(cur),)
            count = self.whiles(s, lid) if k == 'while' else None
            if count is None:
                count = ('while', self.ev(s['cond']) if s.get('cond') is not None else ('?',))
        body = self.cur = []
        self.path = path + (len(cur),)
        m0 = dict(self.mem)
        self.stmt(s.get('body'))
        self.cur, self.path = cur, path
        for key in m0:
            if self.mem.get(key) != m0[key] and key[0] == 'cell' and m0[key][0] in ('c', 'op', 'it'):
                self.mem[key] = ('after', self.mem.get(key, ('?',)))
        if not hollow(body):
            self.used.append(count)
            self.tok(k='loop', count=count, body=body, line=s.get('l'))

    def whiles(self, s, lid):
        """while (n-- > 0), while (n > 0) { ...; --n; }, while (i < n) { ...; ++i; }"""
        c = strip(s.get('cond')) if s.get('cond') is not None else None
        if c is None:
            return None
        top = s.get('body')
        top = top['c'] if top is not None and top['k'] == 'block' else [top]

        def steps(v, sign):
            n = 0
            for x in walk(top):
                t = strip(x['c'][0]) if x['k'] in ('un', 'asg') and x.get('c') else None
                if t is not None and t['k'] == 'var' and t['v'] == v and (x['k'] == 'asg' or x['op'] in ('++', '--')):
                    if x in top and (x['op'] == sign * 2 or x['op'] == sign + '=' and (x['c'][1].get('cv') == 1 or strip(x['c'][1]).get('v') == 1)):
                        n += 1
                    else:
                        return False
            return n == 1
        op, a, b = '!=', c, None
        if c['k'] == 'bin' and len(c['c']) == 2:
            op, a, b = c['op'], strip(c['c'][0]), self.ev(c['c'][1])
        zero = b is None or b == ('c', 0)
        if a is None:
            return None
        if a['k'] == 'un' and a['op'] == '--' and a.get('post') and zero and op in ('>', '!='):
            L = self.lv(a['c'][0])
            v = self.rd(L)
            self.ev(a)
            return v
        if a['k'] != 'var':
            return None
        L = self.lv(a)
        if zero and op in ('>', '!=') and steps(a['v'], '-'):
            return self.rd(L)
        if op in ('<', '!=') and b is not None and steps(a['v'], '+'):
            cnt = fold('-', b, self.rd(L))
            self.mem[L] = lid
            return cnt
        return None

    def counted(self, s):
        """(number of repetitions, counter, first value, container for iterators)"""
        init, cond = s.get('init'), strip(s.get('cond')) if s.get('cond') is not None else None
        var, start = None, None
        if init is not None:
            for x in walk(init):
                if x['k'] == 'vdecl' and x.get('init') is not None:
                    self.decl(x)
                    if var is None:
                        var, start = x['v'], self.ev(x['init'])
                elif x['k'] == 'asg' and strip(x['c'][0])['k'] == 'var' and var is None:
                    var, start = strip(x['c'][0])['v'], self.ev(x['c'][1])
        if cond is not None and var is None and cond.get('k') in ('bin', 'var') and s.get('inc') is not None:
            a = strip(cond['c'][0]) if cond['k'] == 'bin' else cond
            i = strip(s['inc'])
            zero = cond['k'] == 'var' or cond['op'] in ('>', '!=') and self.ev(cond['c'][1]) == ('c', 0)
            if a['k'] == 'var' and zero and i['k'] == 'un' and i['op'] == '--' and strip(i['c'][0]).get('v') == a['v']:
                return self.rd(self.lv(a)), None, None, None
        if cond is None or var is None or len(cond.get('c') or ()) != 2:
            return ('?',), var, start, None
        a, b = strip(cond['c'][0]), strip(cond['c'][1])
        op = cond['op']
        if b is not None and b['k'] == 'var' and b['v'] == var:
            a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if a is None or a['k'] != 'var' or a['v'] != var:
            return ('?',), var, start, None
        si = strip(s['init']['c'][0]['init']) if init is not None and init['k'] == 'decl' and init['c'] and init['c'][0].get('init') is not None else None
        while si is not None and si['k'] == 'ctor' and si.get('c'):
            si = strip(si['c'][0])
        if si is not None and si['k'] == 'mcall' and self.P.D.get(si.get('f'), {}).get('n') in ('begin', 'cbegin'):
            L = self.lv(si['c'][0])
            return self.size(self.rd(L)), var, start, L
        n = self.ev(b)
        if op in ('<', '!='):
            cnt = fold('-', n, start)
        elif op == '<=':
            cnt = ('op', '+', n, ('c', 1)) if start == ('c', 0) else n if start == ('c', 1) else ('op', '-', n, start)
        elif op in ('>', '>='):
            cnt = start if n == ('c', 0) and op == '>' else ('op', '-', start, n)
        else:
            cnt = ('?',)
        return cnt, var, start, None


def extract(P, fid):
    X = Extract(P)
    F = P.body_of(fid)
    d = P.D[fid]
    env = {}
    for i, v in enumerate(F['ps']):
        t = F['locals'][v]['t']
        env[v] = ('val', ('stream',)) if STREAM.search(t) and '<' not in t else ('par', d['ps'][i]['t'].replace('const ', '').rstrip('& '), i)
    r = X.body(fid, F, env, ('this',))
    X.result = r
    return X

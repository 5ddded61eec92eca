"""Which element type does each tensor have? A forward dataflow over element-type symbols.

State: key of a tensor / prototype / DTYPE valued place -> symbol; symbol -> set of possible element types (absent: any).
A symbol is shared by everything that provably has the same element type (views, reshapes, x.dtype(), tensors made with x.dtype()).
"""
from .flow import Flow
from .program import walk, fnodes
from .sem import strip, key, targets

TENSORISH = ('ts::Tensor', 'ts::Tensor::Prototype', 'ts::TensorPrototype', 'ts::DTYPE')
SAME = {'view', 'reshape', 'clone', 'weak', 'strong', 'flatten', 'slice', 'clone_shared', 'proto', 'dtype', 'get', 'operator*', 'operator->',
        'sync', 'broadcast'}
ELEM = {'bool': {21}, 'signed char': {1}, 'unsigned char': {2}, 'short': {3}, 'unsigned short': {4}, 'int': {5}, 'unsigned int': {6}, 'long': {7},
        'unsigned long': {8}, 'float': {10}, 'double': {11}, 'char': {13}, 'long long': {7}, 'unsigned long long': {8},
        'char16_t': {14}, 'char32_t': {15}}
SIZE = {'bool': 1, 'signed char': 1, 'unsigned char': 1, 'char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
        'unsigned long': 8, 'float': 4, 'double': 8, 'long long': 8, 'unsigned long long': 8, 'char16_t': 2, 'char32_t': 4}


def bare(t):
    t = (t or '').replace('const ', '').replace('&', '').replace('*', '').strip()
    return t


def tensorish(t):
    return bare(t) in TENSORISH


def const_index(n):
    n = strip(n)
    if n is None:
        return None
    if n['k'] == 'lit' and isinstance(n.get('v'), int):
        return n['v']
    return n.get('cv')


def is_stack(P, n):
    d = P.D.get(n.get('f')) if n.get('f') else None
    return d is not None and d.get('cls') == 'ts::Stack'


def place(n):
    """Key of an assignable place: variables, members, and constant elements of vectors."""
    n = strip(n)
    if n is not None and (n['k'] == 'ocall' and n['op'] == '[]' or n['k'] == 'sub') and len(n['c']) == 2:
        i = const_index(n['c'][1])
        if i is not None:
            b = strip(n['c'][0])
            if b is not None and b['k'] in ('var', 'mem'):
                return ('idx', key(b), i)
        return None
    if n is not None and n['k'] in ('var', 'mem'):
        return key(n)
    return None


class DT(Flow):
    MAXIT = 6

    def __init__(self, A):
        Flow.__init__(self, A.P)
        self.A = A
        self.n = 0

    # state = (env dict, facts dict), treated as immutable
    def join(self, a, b):
        if a is b:
            return a
        ea, fa = a
        eb, fb = b
        env, facts = {}, {}
        for k, s in ea.items():
            t = eb.get(k)
            if t is None:
                continue
            if k == 'size':
                env[k] = min(s, t)
                continue
            if s == t:
                env[k] = s
            else:
                env[k] = ('j', k)
        done = set()
        for k, s in env.items():
            if s in done or k == 'size':
                continue
            done.add(s)
            x, y = self.facts(ea[k], a), self.facts(eb[k], b)
            if s[0] == 'j' and s[1] == k and (ea[k] != s or eb[k] != s):
                pass
            if x is not None and y is not None:
                facts[s] = (x[0] | y[0], x[1] or y[1])
        return (env, facts)

    def x_if(self, n, st):
        return Flow.x_if(self, n, st)

    def fresh(self, n, tag=0):
        return ('e', n.get('l'), id(n), tag)

    def const(self, sets, st):
        """Symbol of a known set."""
        s = ('c',) + tuple(sorted(sets))
        return s

    def facts(self, s, st):
        if s is None:
            return None
        if s[0] == 'c':
            return (frozenset(s[1:]), False)
        return st[1].get(s)

    def sym(self, n, st):
        """Element-type symbol of an expression (tensor, prototype, pointer to one, or DTYPE)."""
        n = strip(n)
        if n is None:
            return None
        k = n['k']
        P = self.P
        if k == 'en':
            return ('c', n['v']) if n['q'].startswith('ts::') else None
        if k == 'lit':
            return ('c', n['v']) if isinstance(n.get('v'), int) else None
        if k == 'cond':
            a, b = self.sym(n['c'][1], st), self.sym(n['c'][2], st)
            if a == b:
                return a
            x, y = self.facts(a, st), self.facts(b, st)
            if x and y:
                return self.const(x[0] | y[0], st)
            return None
        if k in ('var', 'gv', 'mem', 'this', 'sub'):
            kk = key(n)
            s = st[0].get(kk)
            if s is not None:
                return s
            if k == 'mem':
                f = self.A.field.get(n['q'])
                if f:
                    return self.const(f[0], st)
                return ('m', kk)
            if k == 'gv':
                g = self.A.gconst.get(n['q'])
                if g is not None:
                    return ('c', g)
            if k == 'var' or k == 'gv':
                return ('u', kk)
            return ('u', kk)
        if k == 'un' and n['op'] in ('*', '&'):
            return self.sym(n['c'][0], st)
        if k in ('mcall', 'ocall', 'call', 'ctor', 'new'):
            f = n.get('f')
            d = P.D.get(f) if f else None
            if d is None:
                return None
            nm, q = d['n'], d['qn']
            cls = d.get('cls') or ''
            args = n['c'][1:] if k == 'mcall' else n['c']
            ret = bare(d.get('ret'))
            if cls == 'ts::Stack' and (nm in ('index', 'operator[]')):
                i = const_index(n['c'][1]) if len(n['c']) > 1 else None
                if i is not None and (i == 0 or 0 < i < st[0].get('size', 0)):
                    return st[0].get(('o', i), ('o', i))
                return ('s', n.get('l'), id(n))
            pl = place(n)
            if pl is not None:
                return st[0].get(pl, ('u', pl))
            if k == 'mcall' and nm in SAME and n['c']:
                if nm in ('clone', 'get') and cls not in TENSORISH and 'shared_ptr' not in cls:
                    return self.call_sym(n, d, st)
                return self.sym(n['c'][0], st)
            if k == 'ocall' and n['op'] in ('*', '->') and len(n['c']) == 1:
                return self.sym(n['c'][0], st)
            if k == 'ocall' and n['op'] == '=' and len(n['c']) == 2:
                return self.sym(n['c'][1], st)
            if q in ('std::move', 'std::forward', 'std::make_shared') and len(args) == 1:
                return self.sym(args[0], st)
            if q in ('ts::tensor::cast', 'ts::tensor::clone') and args:
                return self.sym(args[0], st)
            if q in ('ts::tensor::build',) or (q == 'ts::tensor::from'):
                if args and d['ps'] and bare(d['ps'][0]['t']) == 'ts::DTYPE':
                    return self.sym(args[0], st)
            if nm in ('build', 'from') and (cls.startswith('ts::tensor_builder<') or q in ('ts::tensor::from', 'ts::tensor::build')):
                t = (d.get('targs') or d.get('ctargs') or [None])[0]
                if t in ELEM:
                    return self.const(ELEM[t], st)
                if q == 'ts::tensor::from' and d['ps'] and 'string' in d['ps'][0]['t'] + str(t):
                    return ('c', 13)
            if (k in ('ctor',) and bare(n.get('t')) in TENSORISH) or (nm in ('push', 'make', 'clone_push') and 'Stack' in cls) or \
                    q == 'std::make_shared' and 'ts::Tensor' in str(d.get('targs')):
                if not args:
                    return ('c', 0) if k == 'ctor' else None
                for a, p in zip(args, d['ps']):
                    if tensorish(p['t']):
                        return self.sym(a, st)
                return None
            if ret in TENSORISH or k == 'mcall' and nm == 'operator->':
                return self.call_sym(n, d, st)
            if 'ts::Tensor' in str(d.get('ret')) and nm in ('operator[]', 'at', 'front', 'back'):
                kk = key(n)
                return st[0].get(kk, ('u', kk))
            return None
        return None

    def call_sym(self, n, d, st):
        r = self.A.ret.get(n['f'])
        if r:
            return self.const(r[0], st)
        r = self.A.retsym.get(n['f'])
        if r is not None:
            if r[0] == 'o':
                return r
            args = n['c'][1:] if n['k'] == 'mcall' else n['c']
            if r[1] < len(args):
                return self.sym(args[r[1]], st)
        if d['n'] == 'get' and 'std::string' in str(d['ps'][:1]) or d['n'] == 'get' and 'basic_string' in str(d['ps'][:1]) or d['n'] == 'get' and 'otl::string' in str(d['ps'][:1]):
            return ('p', n.get('l'), id(n))
        if 'index' == d['n'] or d['n'] == 'top':
            # an operand: the same slot gives the same tensor until the stack changes; only used through variables
            return ('e', n.get('l'), id(n))
        return ('e', n.get('l'), id(n))

    def set(self, st, k, s):
        env = dict(st[0])
        # anything keyed through k is stale
        if s is None:
            env.pop(k, None)
            env[k] = ('x', k, self.n)
            self.n += 1
            env.pop(k, None)
            facts = st[1]
            if ('u', k) in facts or ('m', k) in facts:
                facts = {a: b for a, b in facts.items() if a not in (('u', k), ('m', k))}
            return (env, facts)
        env[k] = s
        return (env, st[1])

    def narrow(self, st, s, vals, width=False):
        """State in which symbol s is in vals (None if impossible)."""
        if s is None:
            return st
        cur = self.facts(s, st)
        if cur is not None:
            v = cur[0] & vals
            if not v:
                return None
            if v == cur[0]:
                return st
            width = cur[1] or width
        else:
            v = frozenset(vals)
        if s[0] == 'c':
            return st
        f = dict(st[1])
        f[s] = (v, width)
        return (st[0], f)

    def wsym(self, c, st):
        """Symbol whose width the expression c is."""
        c = strip(c)
        if c is None:
            return None
        if c['k'] == 'var':
            return st[0].get(('w',) + (c['v'],))
        if c['k'] in ('mcall', 'call') and c.get('f'):
            d = self.P.D[c['f']]
            if d['n'] == 'type_bytes' and c['c']:
                return self.sym(c['c'][0], st)
        return None

    def declare(self, v, st):
        t = v.get('t') or (self.Fn['locals'][v['v']]['t'] if v['v'] < len(self.Fn['locals']) else '')
        if tensorish(t) or 'shared_ptr<ts::Tensor>' in t:
            s = self.sym(v['init'], st) if v.get('init') is not None else None
            return self.set(st, ('v', v['v']), s)
        if v.get('init') is not None:
            w = self.wsym(v['init'], st)
            if w is not None:
                return self.set(st, ('w', v['v']), w)
        return st

    def range_var(self, n, st):
        if n.get('v') is not None:
            return self.set(st, ('v', n['v']), None)
        return st

    def on(self, n, st):
        k = n['k']
        if k == 'asg' or (k == 'ocall' and n['op'] == '=' and len(n['c']) == 2):
            l = strip(n['c'][0])
            pl = place(l)
            if pl is not None and pl[0] == 'idx':
                b = strip(l['c'][0])
                if 'ts::Tensor' in self.A.place_type(self.Fn, b) or 'std::vector' in self.A.place_type(self.Fn, b):
                    return self.set(st, pl, self.sym(n['c'][1], st))
            if l is not None and l['k'] in ('var', 'mem'):
                t = self.A.place_type(self.Fn, l)
                if tensorish(t):
                    s = self.sym(n['c'][1], st)
                    if l['k'] == 'mem':
                        self.A.note_field(l['q'], self.facts(s, st))
                        if self.facts(s, st) is None:
                            s = None
                    return self.set(st, key(l), s)
        elif k in ('call', 'mcall', 'ctor', 'ocall') and n.get('f'):
            self.A.note_call(self, n, st)
            # a tensor handed out by non-const reference may be replaced
            d = self.P.D.get(n['f'])
            if d is not None and d['n'] == 'infer':
                st = self.after_infer(n, d, st)
            if d is not None:
                args = n['c'][1:] if k == 'mcall' else n['c']
                for a, p in zip(args, d['ps']):
                    t = p['t']
                    if (t.endswith('&') or t.endswith('*')) and not t.startswith('const ') and bare(t) == 'ts::Tensor':
                        x = strip(a)
                        if x is not None and x['k'] == 'un' and x['op'] == '&':
                            x = strip(x['c'][0])
                        if x is not None and x['k'] in ('var', 'mem') and self.A.reassigns(n['f'], d['ps'].index(p)):
                            st = self.set(st, key(x), None)
        self.A.visit(self, n, st)
        return st

    def after_infer(self, n, d, st):
        o = self.A.outs.get(n['f'])
        args = n['c'][1:] if n['k'] == 'mcall' else n['c']
        for a, p in zip(args, d['ps']):
            if 'Prototype' in p['t'] and 'vector' in p['t']:
                b = strip(a)
                if b is None or b['k'] not in ('var', 'mem'):
                    continue
                kb = key(b)
                env = {k: v for k, v in st[0].items() if not (isinstance(k, tuple) and k[0] == 'idx' and k[1] == kb)}
                for i, s in (o or {}).items():
                    env[('idx', kb, i)] = s
                st = (env, st[1])
        return st

    def outs_of(self, st):
        F, d = self.Fn, self.P.D[self.fid]
        for v, p in zip(F['ps'], d['ps']):
            if 'Prototype' in p['t'] and 'vector' in p['t']:
                r = {}
                for k, s in st[0].items():
                    if isinstance(k, tuple) and k[0] == 'idx' and k[1] == ('v', v):
                        f = self.facts(s, st)
                        if s is not None and s[0] in ('o', 'c'):
                            r[k[2]] = s
                        elif f is not None:
                            r[k[2]] = self.const(f[0], st)
                return r
        return None

    def ret(self, n, st):
        if self.P.D[self.fid]['n'] == 'infer':
            o = self.outs_of(st)
            if o is not None:
                self.A.note_outs(self.fid, o)
        if n['c'] and n['c'][0] is not None and tensorish(self.P.D[self.fid].get('ret')):
            s = self.sym(n['c'][0], st)
            r = None
            if s is not None and s[0] == 'o':
                r = s
            elif s is not None and s[0] == 'u' and s[1][0] == 'v' and s[1][1] in self.Fn['ps']:
                r = ('arg', self.Fn['ps'].index(s[1][1]))
            self.A.note_retsym(self.fid, r)
        if n['c'] and n['c'][0] is not None and tensorish(self.P.D[self.fid].get('ret')):
            self.A.note_ret(self.fid, self.facts(self.sym(n['c'][0], st), st))
        return st

    def ctor_init(self, i, st):
        if i.get('fld') and i.get('init') is not None:
            pass
        return st

    def refine(self, c, truth, st):
        c = strip(c)
        if c['k'] in ('bin', 'ocall') and c.get('op') in ('==', '!=', '>=', '>', '<') and len(c['c']) == 2:
            a = strip(c['c'][0])
            if a is not None and a['k'] == 'mcall' and is_stack(self.P, a) and self.P.D[a['f']]['n'] == 'size':
                x = const_index(c['c'][1])
                if isinstance(x, int) and (c['op'] in ('==', '>=', '>') if truth else c['op'] in ('!=', '<')):
                    env = dict(st[0])
                    env['size'] = max(env.get('size', 0), x + (c['op'] == '>'))
                    return (env, st[1])
        if c['k'] in ('bin', 'ocall') and c.get('op') in ('==', '!=') and len(c['c']) == 2:
            eq = (c['op'] == '==') == truth
            for a, b in (c['c'], c['c'][::-1]):
                w = self.wsym(a, st)
                if w is not None:
                    v = strip(b)
                    x = v.get('v') if v['k'] == 'lit' else v.get('cv')
                    if isinstance(x, int):
                        s = frozenset(d for d, n in self.A.width.items() if n == x)
                        return self.narrow(st, w, s if eq else self.A.all - s, True)
            A, B = self.dts(c['c'][0]), self.dts(c['c'][1])
            if A and B:
                sa, sb = self.sym(c['c'][0], st), self.sym(c['c'][1], st)
                fa, fb = self.facts(sa, st), self.facts(sb, st)
                if eq:
                    if fb:
                        st = self.narrow(st, sa, fb[0], fb[1])
                    if st is not None and fa:
                        st = self.narrow(st, sb, fa[0], fa[1])
                    if st is not None and sa and sb and sa[0] != 'c' and sb[0] != 'c':
                        st = self.unify(st, sa, sb)
                    return st
                if fb and len(fb[0]) == 1:
                    st = self.narrow(st, sa, self.A.all - fb[0])
                if st is not None and fa and len(fa[0]) == 1:
                    st = self.narrow(st, sb, self.A.all - fa[0])
                return st
        if c['k'] == 'mcall' and c.get('f') and self.P.D[c['f']]['n'] == 'empty' and not truth and c['c']:
            s = self.sym(c['c'][0], st)
            f = self.facts(s, st)
            if f and 0 in f[0]:
                return self.narrow(st, s, self.A.all - {0})
        if c['k'] == 'call' and c.get('f') and len(c['c']) == 1 and self.dts(c['c'][0]):
            vals = self.A.predicate(c['f'])
            if vals is not None:
                return self.narrow(st, self.sym(c['c'][0], st), vals if truth else self.A.all - vals)
        return st

    def unify(self, st, a, b):
        if a == b:
            return st
        env = {k: (a if s == b else s) for k, s in st[0].items()}
        if b[0] == 'o':
            env[b] = a
        if b[0] in ('u', 'm'):
            env[b[1]] = a
        return (env, st[1])

    def dts(self, n):
        n = strip(n)
        if n is None:
            return False
        if n['k'] == 'en':
            return n['q'].startswith('ts::') and n['q'].count('::') == 1 and n['v'] in self.A.all
        if n['k'] in ('var', 'mem', 'gv'):
            return bare(self.A.place_type(self.Fn, n)) == 'ts::DTYPE'
        if n['k'] in ('mcall', 'call') and n.get('f'):
            return bare(self.P.D[n['f']].get('ret')) == 'ts::DTYPE'
        return False

    def cases(self, sw, st):
        return frozenset(c['v'] for c in walk(sw['body']) if c['k'] == 'case')

    def case_entry(self, sw, case, st):
        c = strip(sw['cond'])
        w = self.wsym(c, st)
        if w is not None:
            if case['k'] == 'default':
                s = self.cases(sw, st)
                return self.narrow(st, w, frozenset(d for d, n in self.A.width.items() if n not in s), True)
            return self.narrow(st, w, frozenset(d for d, n in self.A.width.items() if n == case['v']), True)
        if self.dts(c):
            s = self.sym(c, st)
            if case['k'] == 'default':
                return self.narrow(st, s, self.A.all - self.cases(sw, st))
            return self.narrow(st, s, frozenset([case['v']]))
        return st


class Analysis:
    """Runs DT over the program a few times, each round using the parameter/field/result facts of the previous one."""

    def __init__(self, P, rounds=7, select=None):
        self.P = P
        E = P.need_enum('ts::DTYPE')
        self.names = {v: q.split('::')[-1] for q, v, l in E['c']}
        self.all = frozenset(self.names)
        from .constprop import returns
        fb = P.need('ts::type_bytes')[0]
        self.width = {}
        for v in self.names:
            r = returns(P, P.F(fb), [v])
            self.width[v] = r[0] if r and len(r) == 1 else None
        self.gconst = {}
        self.field, self.ret, self.param, self.part = {}, {}, {}, {}
        self.retsym, self.outs = {}, {}
        self._pred = {}
        self._re = {}
        self.select = select
        self.sites = None
        self.final = False
        todo = [(fid, d, F) for fid, d, F in P.functions() if self.relevant(d, F)]
        self.analysed = len(todo)
        for r in range(rounds):
            self.final = r == rounds - 1
            self.nf, self.nr, self.np, self.npart = {}, {}, {}, {}
            self.nrs, self.no = {}, {}
            self.sites = {}
            self.scan_defaults()
            for fid, d, F in todo:
                self.one(fid, d, F)
            self.field = {k: v for k, v in self.nf.items() if v is not None}
            self.ret = {k: v for k, v in self.nr.items() if v is not None}
            self.param = {k: v for k, v in self.np.items() if v is not None}
            self.part = self.npart
            self.retsym = {k: v for k, v in self.nrs.items() if v is not None}
            self.outs = self.no

    def relevant(self, d, F):
        if (F.get('file') or '').startswith('@'):
            return False
        if any(tensorish(p['t']) for p in d['ps']) or any(tensorish(l.get('t')) for l in F['locals']):
            return True
        return any(n['k'] == 'mcall' and n.get('f') and (self.P.D[n['f']].get('cls') or '') == 'ts::Tensor' for n in fnodes(F))

    def one(self, fid, d, F):
        fl = DT(self)
        fl.fid = fid
        env, facts = {}, {}
        part = self.part.get(fid)
        for i, (v, p) in enumerate(zip(F['ps'], d['ps'])):
            if not tensorish(p['t']):
                continue
            s = ('u', ('v', v))
            if part and part.get(i, i) != i:
                s = ('u', ('v', F['ps'][part[i]]))
            env[('v', v)] = s
            f = self.param.get((fid, i))
            if f is not None:
                o = facts.get(s)
                facts[s] = f if o is None else (o[0] & f[0] or f[0], o[1] or f[1])
        fl.run(F, (env, facts))

    def scan_defaults(self):
        pass

    def place_type(self, F, n):
        if n['k'] == 'var':
            l = F['locals']
            i = n['v']
            return l[i]['t'] if i < len(l) else ''
        if n['k'] == 'mem':
            return self.ftypes().get(n['q'], '')
        if n['k'] == 'gv':
            for g in self.P.G.values():
                if g['n'] == n['q']:
                    return g['t']
        return ''

    def ftypes(self):
        if not hasattr(self, '_ft'):
            self._ft = {}
            for c, r in self.P.R.items():
                for f in r['fields']:
                    self._ft['%s::%s' % (c, f['n'])] = f['t']
        return self._ft

    def merge(self, m, k, f):
        if k in m:
            o = m[k]
            m[k] = None if o is None or f is None else (o[0] | f[0], o[1] or f[1])
        else:
            m[k] = f

    def note_field(self, q, f):
        self.merge(self.nf, q, f)

    def note_ret(self, fid, f):
        self.merge(self.nr, fid, f)

    def note_retsym(self, fid, r):
        self.nrs[fid] = r if self.nrs.get(fid, r) == r else None

    def note_outs(self, fid, o):
        c = self.no.get(fid)
        self.no[fid] = o if c is None else {k: v for k, v in o.items() if c.get(k) == v}

    def note_call(self, fl, n, st):
        d = self.P.D[n['f']]
        args = n['c'][1:] if n['k'] == 'mcall' else n['c']
        fids = None
        first, part = {}, {}
        for i, (a, p) in enumerate(zip(args, d['ps'])):
            if not tensorish(p['t']):
                continue
            s = fl.sym(a, st)
            f = fl.facts(s, st)
            part[i] = first.setdefault(s, i) if s is not None else i
            if fids is None:
                fids = [n['f']]
                if d.get('virt'):
                    fids += list(self.P.all_overriders(n['f']))
            for x in fids:
                self.merge(self.np, (x, i), f)
        for x in fids or ():
            o = self.npart.get(x)
            if o is None:
                self.npart[x] = part
            else:
                g = {}
                self.npart[x] = {i: g.setdefault((o.get(i, i), part[i]), i) for i in part}

    def reassigns(self, fid, i, depth=0):
        """May the function give the tensor it gets by reference in parameter i another element type?"""
        kk = (fid, i)
        if kk in self._re:
            return self._re[kk]
        self._re[kk] = False
        F = self.P.body_of(fid)
        d = self.P.D[fid]
        r = False
        fids = [fid] + (list(self.P.all_overriders(fid)) if d.get('virt') else [])
        for x in fids:
            F = self.P.body_of(x)
            if F is None or i >= len(F['ps']):
                continue
            v = F['ps'][i]
            for n in fnodes(F):
                if n['k'] in ('asg', 'ocall') and n.get('op') == '=' and n['c']:
                    l = strip(n['c'][0])
                    if l is not None and (l['k'] == 'var' and l['v'] == v or l['k'] == 'un' and l['op'] == '*' and strip(l['c'][0]).get('v') == v):
                        r = True
                if n['k'] in ('call', 'mcall') and n.get('f') and depth < 4:
                    dd = self.P.D[n['f']]
                    args = n['c'][1:] if n['k'] == 'mcall' else n['c']
                    for j, (a, p) in enumerate(zip(args, dd['ps'])):
                        a = strip(a)
                        if a is not None and a['k'] == 'var' and a['v'] == v and p['t'].endswith('&') and not p['t'].startswith('const '):
                            r = r or self.reassigns(n['f'], j, depth + 1)
        self._re[kk] = r
        return r

    def predicate(self, fid):
        """The set of element types a boolean function accepts (None if not determined)."""
        if fid in self._pred:
            return self._pred[fid]
        from .constprop import returns
        r = None
        F = self.P.body_of(fid)
        d = self.P.D[fid]
        if F is not None and len(d['ps']) == 1 and bare(d['ps'][0]['t']) == 'ts::DTYPE' and d['ret'] == 'bool':
            s = set()
            r = s
            for v in self.all:
                x = returns(self.P, F, [v])
                if x is None or len(x) != 1:
                    r = None
                    break
                if x[0]:
                    s.add(v)
            r = frozenset(r) if r is not None else None
        self._pred[fid] = r
        return r

    def visit(self, fl, n, st):
        if not self.final or n['k'] != 'mcall' or not n.get('f'):
            return
        d = self.P.D[n['f']]
        if d['n'] != 'data' or d.get('cls') not in ('ts::Tensor',) or not d.get('targs'):
            return
        s = fl.sym(n['c'][0], st)
        f = fl.facts(s, st)
        k = (fl.fid, id(n))
        o = self.sites.get(k)
        if o is not None:
            if o[3] is None:
                return
            if f is not None:
                f = (o[3][0] | f[0], o[3][1] or f[1])
        self.sites[k] = (fl.fid, n, d['targs'][0], f, s)

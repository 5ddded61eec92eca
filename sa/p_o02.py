"""O02: operators only rely on parameters they declare or test for."""
from collections import namedtuple
from .flow import Flow
from .program import walk, fnodes, AnalysisError
from .sem import strip, key
from .registry import strconst, operators
from .ops import fget, fset

T = namedtuple('T', 'decl has env')
# decl: name -> 'req' | 'opt' | 'def' declared by now; has: names certainly present ((object key, name)); env: locals

# pairs of optional parameters that must be given together: reading the missing one is how an incomplete pair is rejected
PAIRED = {('ts::cpu::PriorBox', x) for x in ('img_h', 'img_w', 'step_h', 'step_w')}


class Fields(Flow):
    """Runs constructors and initialisation of one operator class with calls on this resolved in the class."""
    MAXIT = 6
    DEPTH = 10

    def __init__(self, P, cls, prog):
        Flow.__init__(self, P)
        self.cls, self.p = cls, prog
        self.mro = [cls] + P.bases_of(cls)
        self.depth = 0
        self.stack = []
        self.gets = []
        self.infield = None

    def resolve(self, fid):
        P, d = self.P, self.P.D[fid]
        if not d.get('virt'):
            return fid
        ov = P.all_overriders(fid) | {fid}
        for c in self.mro:
            for f in P.by_qn.get('%s::%s' % (c, d['n']), ()):
                if f in ov:
                    return f
        return fid

    def join(self, a, b):
        if a == b:
            return a
        dec = []
        for k, v in a.decl:
            w = fget(b.decl, k)
            if w is not None:
                dec.append((k, v if v == w else 'opt'))
        return T(tuple(dec), a.has & b.has, tuple(x for x in a.env if x in b.env))

    # -- names and objects
    def names(self, n, st):
        """Set of constant strings the expression can be, or None."""
        n = strip(n)
        while n is not None and n['k'] == 'ctor' and len([c for c in n['c'] if c is not None and c['k'] != 'defarg']) == 1:
            n = strip(n['c'][0])
        if n is None:
            return None
        if n['k'] == 'var':
            v = fget(st.env, (self.depth, n['v']))
            return v[1] if v and v[0] == 'str' else None
        if n['k'] == 'cond':
            a, b = self.names(n['c'][1], st), self.names(n['c'][2], st)
            return a | b if a and b else None
        s = strconst(self.P, n)
        return frozenset([s]) if s is not None else None

    def obj(self, n, st):
        """'this' or a key of another operator object"""
        n = strip(n)
        while n is not None and n['k'] in ('ocall', 'un') and n.get('op') in ('->', '*') or n is not None and n['k'] == 'mcall' and n.get('f') \
                and self.P.D[n['f']]['n'] in ('operator->', 'operator*', 'get'):
            n = strip(n['c'][0])
        if n is None:
            return None
        if n['k'] == 'this':
            return 'this'
        k = key(n)
        return (self.depth, k) if k is not None and k[0] == 'v' else k

    def bind(self, st, k, n):
        r = self.names(n, st) if n is not None else None
        if r:
            return st._replace(env=fset(st.env, k, ('str', r)))
        f = self.hasfact(n, st) if n is not None else None
        return st._replace(env=fset(st.env, k, ('has', f) if f else None))

    def hasfact(self, n, st):
        """facts that hold when the boolean is true"""
        n = strip(n)
        if n is None:
            return None
        if n['k'] == 'mcall' and n.get('f') in self.p.HAS:
            o, s = self.obj(n['c'][0], st), self.names(n['c'][1], st)
            if o is not None and s is not None and len(s) == 1:
                return frozenset([(o, next(iter(s)))])
            if o is not None:
                kk = key(strip(n['c'][1]))
                if kk is not None:
                    return frozenset([(o, (self.depth, kk))])
            return None
        if n['k'] == 'var':
            v = fget(st.env, (self.depth, n['v']))
            return v[1] if v and v[0] == 'has' else None
        if n['k'] == 'bin' and n['op'] == '&&':
            a, b = self.hasfact(n['c'][0], st), self.hasfact(n['c'][1], st)
            return (a or frozenset()) | (b or frozenset()) or None
        if n['k'] == 'mem':
            v = fget(st.env, ('m', n['q']))
            return v[1] if v and v[0] == 'has' else None
        if n['k'] in ('call', 'mcall') and n.get('f'):
            # a helper returning has(name)
            B = self.P.body_of(n['f'])
            if B is not None and len(self.stack) < self.DEPTH:
                rets = [x for x in walk(B['body']) if x['k'] == 'ret']
                if len(rets) == 1 and rets[0].get('c'):
                    args = n['c'][1:] if n['k'] == 'mcall' else n['c']
                    if n['k'] == 'mcall' and self.obj(n['c'][0], st) != 'this':
                        return None
                    D = self.depth + 1
                    env = ()
                    for i, pi in enumerate(B['ps']):
                        if i < len(args) and args[i] is not None:
                            s = self.names(args[i], st)
                            if s:
                                env = fset(env, (D, pi), ('str', s))
                    self.depth = D
                    self.stack.append(n['f'])
                    r = self.hasfact(rets[0]['c'][0], st._replace(env=env))
                    self.stack.pop()
                    self.depth = D - 1
                    return r
        return None

    # -- hooks
    def declare(self, vd, st):
        return self.bind(st, (self.depth, vd['v']), vd.get('init'))

    def leave(self, vs, st):
        return st

    def range_var(self, n, st):
        if 'v' not in n:
            return st
        kk = ('v', n['v'])
        return st._replace(env=fset(st.env, (self.depth, n['v']), None),
                           has=frozenset(x for x in st.has if x[1] != (self.depth, kk)))

    def refine(self, c, truth, st):
        n = strip(c)
        if n is not None and truth:
            f = self.hasfact(n, st)
            if f:
                return st._replace(has=st.has | f)
        return st

    def on(self, n, st):
        k = n['k']
        if k == 'asg' and n['op'] == '=':
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var':
                return self.bind(st, (self.depth, l['v']), n['c'][1])
            if l is not None and l['k'] == 'mem' and l.get('c') and strip(l['c'][0]) is not None and strip(l['c'][0])['k'] == 'this':
                return self.bind(st, ('m', l['q']), n['c'][1])
            return st
        if k == 'mcall' and n.get('f'):
            p, f = self.p, n['f']
            if f in p.GET or f in p.HAS or f in p.SET or f in p.FIELD:
                o = self.obj(n['c'][0], st)
                ns = self.names(n['c'][1], st)
                if f in p.FIELD:
                    if o == 'this' and ns:
                        a = strip(n['c'][2])
                        v = a.get('v') if a is not None and a['k'] == 'en' else a.get('cv') if a is not None else None
                        kind = None
                        if v == p.REQ:
                            kind = 'req'
                        elif v == p.OPT:
                            kind = 'opt'
                        dv = strip(n['c'][3]) if len(n['c']) > 3 else None
                        if dv is not None and dv['k'] != 'defarg' and not (dv['k'] == 'ctor' and not dv['c']):
                            kind = 'def'
                        for s in ns:
                            if kind == 'opt' and fget(st.decl, s) == 'def':
                                continue
                            st = st._replace(decl=fset(st.decl, s, kind or 'opt'))
                    elif o == 'this':
                        self.p.odd(self, n, 'field')
                    return st
                if f in p.GET:
                    self.get(n, o, ns, st)
                    if o is not None and ns and len(ns) == 1:
                        st = st._replace(has=st.has | {(o, next(iter(ns)))})    # the read succeeded
                    return st
                if f in p.SET:
                    kk = key(strip(n['c'][1]))
                    add = [(o, s) for s in ns] if ns and len(ns) == 1 else [(o, (self.depth, kk))] if kk is not None and not ns else []
                    if o is not None:
                        st = st._replace(has=st.has | frozenset(add))
                    return st
                return st
            if f in p.CLEARF and self.obj(n['c'][0], st) == 'this':
                return st._replace(decl=tuple((k, v) for k, v in st.decl if v == 'def'))
            if f in p.CLEARP:
                return st._replace(has=frozenset())
        if k == 'mcall' and n.get('f') and self.obj(n['c'][0], st) == 'this':
            g = self.resolve(n['f']) if n.get('virt') else n['f']
            return self.call(g, n['c'][1:], st)
        return st

    def get(self, n, o, ns, st):
        if o != 'this' or len(self.stack) == 0:
            return
        if self.trys:
            self.p.R.ob('O02.get')
            return          # a missing parameter is caught here
        p = self.p
        p.R.ob('O02.get')
        kk = key(strip(n['c'][1]))
        if kk is not None and ('this', (self.depth, kk)) in st.has:
            return
        if not ns:
            if self.infn() in p.WRAP:
                return
            p.odd(self, n, 'get')
            return
        for s in ns:
            if (self.cls, s) in PAIRED:
                continue
            if s.startswith('#') and s[1:] in p.retention:
                continue
            if fget(st.decl, s) in ('req', 'def') or ('this', s) in st.has:
                continue
            d = fget(st.decl, s)
            p.R.bad('O02.get', '%s %s %s' % (self.cls if self.cls in self.P.D[self.infn()]['qn'] else self.P.D[self.infn()]['qn'], self.P.D[self.infn()]['n'], s),
                    self.P.loc(self.infn(), n.get('l')),
                    '%s reads parameter "%s", which %s (class %s)' % (self.P.D[self.infn()]['qn'], s,
                                                         'is optional without a default and not known to be present' if d else 'it does not declare', self.cls))

    def infn(self):
        return self.stack[-1]

    def call(self, g, args, st):
        P = self.P
        B = P.body_of(g)
        if g == self.p.root_init:
            return st._replace(has=st.has | frozenset(('this', k) for k, v in st.decl if v == 'req'))
        if B is None or len(self.stack) >= self.DEPTH or g in self.stack:
            return st
        if not self.p.relevant(g, self):
            return st
        D = self.depth + 1
        env = tuple(x for x in st.env if x[0][0] == 'm')
        for i, pi in enumerate(B['ps']):
            if i < len(args) and args[i] is not None:
                s = self.names(args[i], st)
                if s:
                    env = fset(env, (D, pi), ('str', s))
        save = (self.exits, self.loops, self.scopes, self.trys, self.Fn)
        # a handler around the call also covers the callee
        self.depth = D
        self.stack.append(g)
        trys = self.trys
        ex = self.run2(B, st._replace(env=env), trys)
        self.stack.pop()
        self.depth = D - 1
        self.exits, self.loops, self.scopes, self.trys, self.Fn = save
        out = None
        for kind, node, s in ex:
            if kind in ('ret', 'fall'):
                out = self.J(out, s)
        if out is None:
            return None
        return out._replace(env=tuple(x for x in out.env if x[0][0] == 'm') + tuple(x for x in st.env if x[0][0] != 'm'),
                            has=frozenset(x for x in out.has if not self.local(x, D)))

    def local(self, x, D):
        return any(isinstance(y, tuple) and y and y[0] == D for y in x)

    def run2(self, B, st, trys):
        ex = self.run(B, st)
        return ex

    # -- constructors
    def ctor_init(self, i, st):
        if i.get('base') or i.get('deleg'):
            n = i.get('init')
            n = strip(n) if n is not None else None
            if n is not None and n['k'] == 'ctor' and n.get('f'):
                return self.construct(self.P.D[n['f']]['cls'], st, n['f'], n['c'])
            b = i['base'] if isinstance(i.get('base'), str) else None
            if b:
                return self.construct(b, st)
        return st

    def construct(self, c, st, f=None, args=()):
        """Run constructor f of class c (or any it has), or those of its bases when it is implicit."""
        if f is not None and self.P.body_of(f) is not None and not self.P.D[f].get('implicit') and not self.P.D[f].get('defaulted'):
            return self.call(f, args, st)
        cs = [x for x in self.p.ctors.get(c, ()) if not is_copy(self.P, x)] if f is None else []
        if cs:
            out = None
            for x in cs:
                out = self.J(out, self.call(x, (), st))
            return out
        for b in (self.P.R.get(c) or {}).get('bases', ()):
            st = self.construct(b['t'], st)
            if st is None:
                return None
        return st


class Prog:
    def __init__(self, P, R):
        self.P, self.R = P, R
        o = 'ts::Operator::'
        self.GET, self.HAS, self.SET = set(P.need(o + 'get')), set(P.need(o + 'has')), set(P.need(o + 'set'))
        self.FIELD = set(P.need(o + 'field'))
        self.CLEARF, self.CLEARP = set(P.find(o + 'clear_fields')), set(P.find(o + 'clear_params'))
        e = P.E.get('ts::Operator::FieldAttr')
        if not e:
            raise AnalysisError('anchor vanished: ts::Operator::FieldAttr')
        v = {c[0].split('::')[-1]: c[1] for c in e['c']}
        self.REQ, self.OPT = v['REQUIRED'], v['OPTIONAL']
        self.WRAP = self.GET | self.HAS | self.SET | self.FIELD
        self.ctors = {}
        self.odds = 0
        self.retention = set()
        for q, g in P.G.items():
            if g['n'].startswith('ts::Bubble::RetentionParam::') and g.get('init') is not None:
                s = strconst(P, g['init'])
                if s:
                    self.retention.add(s.lstrip('#'))

    def odd(self, fl, n, what):
        self.odds += 1

    def relevant(self, g, fl):
        """Does the function (or anything it calls on this) touch parameters?"""
        return g not in self.WRAP


def check(P, R):
    R.rule('O02.get', 'Every parameter an operator class reads from itself (in construction, init, infer and run, through helpers) is, on every path, '
                      'declared required, declared with a default, or known to be present by a has() test or an earlier set().')
    R.rule('O02.init', 'When init() of an operator class returns, every parameter the class declares as required is known to be there: the base '
                       'initialisation (shown to reject missing ones) ran, or the parameter was read.')
    R.rule('O02.inner', 'Every parameter an operator sets on an operator it creates itself is declared by every class registered under that name.')
    g = Prog(P, R)
    roots = {}
    for f in P.find('ts::Operator::run') + P.find('ts::Operator::infer') + P.find('ts::Operator::init'):
        d = P.D[f]
        if d.get('virt'):
            roots[d['n']] = f
    if set(roots) != {'run', 'infer', 'init'}:
        raise AnalysisError('anchor vanished: virtual functions of ts::Operator')
    g.root_init = roots['init']
    decls = {}
    n = 0
    prod = set()
    for x in operators(P):
        prod |= x[2]
    for fid, d, F in P.functions(lambda d: True):
        for x in fnodes(F):
            if x['k'] == 'call' and x.get('f') and P.D[x['f']]['qn'] == 'std::make_shared':
                prod.add(P.D[x['f']]['ret'].split('shared_ptr<', 1)[-1].rsplit('>', 1)[0].strip())
            elif x['k'] == 'new':
                prod.add((x.get('t') or '').replace('*', '').strip())
    for fid, d, F in P.functions(lambda d: d.get('ctor') and not d.get('implicit') and not d.get('defaulted')):
        g.ctors.setdefault(d['cls'], []).append(fid)
    for c in sorted(P.all_derived('ts::Operator')):
        if c not in prod:
            continue        # never created itself
        fl = Fields(P, c, g)
        fl.exits, fl.loops, fl.scopes, fl.trys, fl.Fn = [], [], [], [], None
        st = fl.construct(c, T((), frozenset(), ()))
        if st is None:
            continue
        decls[c] = dict(st.decl)
        n += 1
        for m in ('init', 'infer', 'run'):
            f = fl.resolve(roots[m])
            if P.body_of(f) is None:
                continue
            s2 = fl_call(fl, f, T(st.decl, frozenset(), st.env))
            if m == 'init' and s2 is not None:
                R.ob('O02.init', c)
                miss = sorted(k for k, v in st.decl if v == 'req' and ('this', k) not in s2.has)
                if miss:
                    R.bad('O02.init', '%s %s' % (P.D[f]['qn'], ','.join(miss)), P.loc(f),
                          '%s of class %s can return without the required parameter(s) %s' % (P.D[f]['qn'], c, ', '.join(miss)))
                # members remembering has() of init; parameters cannot be removed afterwards
                st = T(st.decl, frozenset(x for x in s2.has if x[0] == 'this' and isinstance(x[1], str)), s2.env)
            elif m != 'init':
                pass
    R.floor('O02.get', 300)
    R.extra['operator_classes'] = n
    R.extra['reads_of_computed_names'] = g.odds
    base_rejects(P, R, g, roots['init'])
    R.floor('O02.init', 100)
    inner(P, R, g, decls)
    R.assume('Parameters named #... are set by the framework when an operator is created for a node; operators reading them test or are created that way.')
    return decls


def is_copy(P, f):
    d = P.D[f]
    return len(d['ps']) == 1 and '&' in d['ps'][0]['t'] and d['cls'] in d['ps'][0]['t']


def fl_call(fl, f, st):
    fl.exits, fl.loops, fl.scopes, fl.trys, fl.Fn = [], [], [], [], None
    fl.depth = 0
    return fl.call(f, [], st)


def base_rejects(P, R, g, root):
    """Operator::init never returns while check_params() is false."""
    class F(Flow):
        def join(self, a, b):
            return a and b

        def refine(self, c, truth, st):
            n = strip(c)
            if n is not None and n['k'] == 'mcall' and n.get('f') in chk:
                return st or truth
            if n is not None and n['k'] == 'mcall' and n.get('f') and P.D[n['f']]['n'] == 'empty' and n['c']:
                return st or truth      # the list of unsatisfied fields is empty
            return st
    chk = set(P.need('ts::Operator::check_params'))
    f = F(P)
    ex = f.run(P.body_of(root), False)
    ok = all(s for k, n, s in ex if k in ('ret', 'fall'))
    R.ob('O02.init', 'ts::Operator::init')
    if not ok:
        R.bad('O02.init', 'ts::Operator::init', P.loc(root), 'the base initialisation may return although required parameters are missing')


def inner(P, R, g, decls):
    regs = {}
    for dev, nm, cls, f, l, how in operators(P):
        regs.setdefault(nm, set()).update(cls)
    # member or local -> operator names it is created with
    for c in sorted(P.all_derived('ts::Operator')):
        pass
    made = {}
    for fid, d, F in P.functions(lambda d: True):
        for n in fnodes(F):
            src = dst = None
            if n['k'] == 'ocall' and n['op'] == '=' and len(n['c']) == 2:
                dst, src = n['c']
            elif n['k'] == 'asg' and n['op'] == '=':
                dst, src = n['c']
            elif n['k'] == 'vdecl' and n.get('init') is not None:
                dst, src = {'k': 'var', 'v': n['v']}, n['init']
            if src is None:
                continue
            x = strip(src)
            while x is not None and x['k'] == 'ctor' and len(x['c']) == 1:
                x = strip(x['c'][0])
            if x is None or x['k'] != 'call' or not x.get('f') or not P.D[x['f']]['qn'].startswith('ts::OperatorCreator::Create'):
                continue
            s = strconst(P, x['c'][1]) if len(x['c']) > 1 else None
            k = key(strip(dst))
            if k is None:
                continue
            kk = (fid, k) if k[0] == 'v' else k
            made.setdefault(kk, set()).add(s)
    for fid, d, F in P.functions(lambda d: True):
        for n in fnodes(F):
            if n['k'] != 'mcall' or n.get('f') not in g.SET:
                continue
            o = strip(n['c'][0])
            while o is not None and o['k'] in ('ocall', 'un') and o.get('op') in ('->', '*'):
                o = strip(o['c'][0])
            if o is None or o['k'] == 'this':
                continue
            k = key(o)
            if k is None:
                continue
            m = made.get((fid, k) if k[0] == 'v' else k)
            s = strconst(P, n['c'][1])
            if not m or None in m or s is None or s.startswith('#'):
                continue
            for nm in m:
                for c in regs.get(nm, ()):
                    if c not in decls:
                        continue
                    R.ob('O02.inner', '%s sets %s of %s' % (d['qn'], s, c))
                    if s not in decls[c]:
                        R.bad('O02.inner', '%s %s %s' % (d['qn'], nm, s), P.loc(fid, n.get('l')),
                              '%s sets parameter "%s" of the %s operator it creates, but %s does not declare it' % (d['qn'], s, nm, c))
    R.floor('O02.inner', 20)

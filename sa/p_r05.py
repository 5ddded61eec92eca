"""R05: an image filter never runs a configuration other than its current one."""
import re
from .program import walk, children, AnalysisError
from .sem import strip
from .flow import Flow
from .p_r04 import cond_tree, implies_lits, const_of, is_null
from .locks import plain, makes_new

REC = 'ts::ImageFilter::Implement'
FILTER = 'ts::ImageFilter'


def check(P, R):
    R.rule('R05.dirty', 'Whoever changes the pipeline of a filter (steps added through the bound graph, parameters set, graph replaced) leaves the '
                        'filter marked as not compiled.')
    R.rule('R05.compile', 'The filter is marked compiled only where its program was just compiled from its present graph, or the graph is known to '
                          'hold no step and no older program is kept.')
    R.rule('R05.run', 'The compiled program is used (run, handed out to be run) only where the filter was compiled since the call began or is known to be.')
    R.rule('R05.copy', 'A copied filter gets a graph of its own, and takes over the compiled mark only together with a copy of the compiled program.')
    r = P.need_rec(REC)
    role = {}
    for f in r['fields']:
        t = f['t']
        if t == 'bool':
            role.setdefault('flag', []).append(REC + '::' + f['n'])
        elif 'Program' in t:
            role.setdefault('program', []).append(REC + '::' + f['n'])
        elif 'Graph' in t:
            role.setdefault('graph', []).append(REC + '::' + f['n'])
    if set(role) != {'flag', 'program', 'graph'}:
        raise AnalysisError('anchor vanished: the compiled mark, program and graph of ' + REC)
    M = Mutators(P, role)
    clears_program = {}
    users = []
    inner = {}
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        if any(n['k'] == 'mem' and n['q'].startswith(REC + '::') for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ())])):
            users.append((fid, d, F))
    if len(users) < 5:
        raise AnalysisError('anchor vanished: functions that use ' + REC)
    called = {n['f'] for fid, d, F in users for n in walk(F['body']) if n['k'] == 'mcall' and n.get('f') and n['c'] and strip(n['c'][0]) is not None and strip(n['c'][0])['k'] == 'this'}
    for fid, d, F in users:
        if d.get('cls') == REC and (d.get('implicit') or d.get('defaulted')):
            continue
        if d.get('acc') == 2 and fid in called and not d.get('ctor'):
            continue     # judged where it is called
        h = Filter(P, M, role)
        ex = h.run(F, START)
        R.ob('R05.run', d['qn'])
        for n, why in h.bad_run:
            R.bad('R05.run', d['qn'], P.loc(fid, n.get('l')), '%s %s' % (d['qn'], why))
        if h.changes:
            R.ob('R05.dirty', d['qn'])
        if h.marks:
            R.ob('R05.compile', d['qn'])
        for n, why in h.bad_mark:
            R.bad('R05.compile', d['qn'], P.loc(fid, n.get('l')), '%s %s' % (d['qn'], why))
        for kind, n, st in ex:
            if kind == 'throw':
                continue
            for p in st or ():
                if p.dirty and p.flag != 'F' and not d.get('ctor'):
                    R.bad('R05.dirty', d['qn'], P.loc(fid, h.changes[-1].get('l')),
                          '%s changes the pipeline but can leave the filter marked as compiled' % d['qn'])
                if p.replaced and p.prog == 'old' and not h.always_resets(P, M, role) and not d.get('ctor'):
                    R.bad('R05.compile', d['qn'] + '|program', P.loc(fid), '%s empties the pipeline but keeps the program compiled from the old one' % d['qn'])
        if d.get('ctor') and d.get('cls') == FILTER:
            copy(P, R, M, role, fid, d, F)
    # programs taken from a filter by other code
    prog_fn = {fid for fid, d, F in users if d.get('cls') == FILTER and 'Program' in (d.get('ret') or '')}
    comp_fn = compilers(P, users, role)
    for fid, d, F in P.functions(lambda d: not d.get('dep') and d.get('cls') != FILTER):
        us = [n for n in walk(F['body']) if n['k'] == 'mcall' and n.get('f') in prog_fn]
        if not us:
            continue
        R.ob('R05.run', d['qn'])
        t = Taker(P, prog_fn, comp_fn)
        t.run(F, frozenset())
        for n in t.bad:
            R.bad('R05.run', d['qn'], P.loc(fid, n.get('l')), '%s takes the program of a filter that it did not have compiled first' % d['qn'])
    R.floor('R05.dirty', 8)
    R.floor('R05.run', 10)
    R.floor('R05.compile', 1)
    R.floor('R05.copy', 1)


def compilers(P, users, role):
    """Methods after which the filter is compiled."""
    out = set()
    for fid, d, F in users:
        if d.get('cls') == FILTER and any(n['k'] == 'asg' and strip(n['c'][0]) is not None and strip(n['c'][0]).get('q') in role['flag'] and const_of(n['c'][1]) for n in walk(F['body'])):
            out.add(fid)
    grow = True
    while grow:
        grow = False
        for fid, d, F in users:
            if fid not in out and d.get('cls') == FILTER and d['n'] == 'run':
                out.add(fid)
                grow = True
    return out


class Mutators:
    """Which calls change the graph they work on."""
    def __init__(self, P, role):
        self.P, self.role = P, role
        self.memo = {}

    def call(self, n, depth=0):
        """n changes a graph, or a node's parameters."""
        P = self.P
        f = n.get('f')
        d = P.D.get(f)
        if d is None:
            return False
        q = d['qn']
        cls = d.get('cls') or ''
        if cls == 'ts::Graph' and not d.get('const') and n['k'] == 'mcall' and d['n'] not in ('nodes', 'find_by_bubble'):
            return True
        if cls == 'ts::Bubble' and not d.get('const') and n['k'] == 'mcall' and d['n'].startswith(('set', 'clear')):
            return True
        if q == 'ts::Node::Link':
            return True
        if q.startswith('ts::Graph::') or q.startswith('ts::Module::'):
            return False
        if n['k'] == 'call' and f not in self.memo:
            self.memo[f] = False
            B = P.body_of(f)
            if B is not None and depth < 5 and d['file'].startswith(('src', 'include')) and not local_graph(P, B):
                self.memo[f] = any(x['k'] in ('call', 'mcall') and self.call(x, depth + 1) for x in walk(B['body']))
        return self.memo.get(f, False) if n['k'] == 'call' else False


def local_graph(P, B):
    """The function binds or builds a graph of its own."""
    for x in walk(B['body']):
        if x['k'] == 'vdecl' and x.get('init') is not None:
            t = B['locals'][x['v']]['t']
            if t == 'ts::Graph' or 'shared_ptr<ts::Graph>' in t and makes_new(P, x['init']):
                return True
    return False


class St:
    __slots__ = ('dirty', 'flag', 'prog', 'small', 'replaced')

    def __init__(self, dirty=False, flag='?', prog='old', small=False, replaced=False):
        self.dirty, self.flag, self.prog, self.small, self.replaced = dirty, flag, prog, small, replaced

    def k(self):
        return (self.dirty, self.flag, self.prog, self.small, self.replaced)

    def __eq__(self, o):
        return self.k() == o.k()

    def __hash__(self):
        return hash(self.k())

    def w(self, **kw):
        s = St(*self.k())
        for a, b in kw.items():
            setattr(s, a, b)
        return s


START = frozenset([St()])


class Filter(Flow):
    """State: set of St. flag: ? T F; prog: old (as on entry), null, new (of the present graph), copy."""
    def __init__(self, P, M, role):
        super().__init__(P)
        self.M, self.role = M, role
        self.changes, self.marks = [], []
        self.bad_run, self.bad_mark = [], []
        self.depth = 0

    def join(self, a, b):
        return a | b

    def each(self, st, f):
        out = {f(p) for p in st} - {None}
        return frozenset(out) if out else None

    def mine(self, n, kind):
        """n designates the given member of this object's implementation."""
        n = strip(n)
        if n is None or n['k'] != 'mem' or n['q'] not in self.role[kind]:
            return False
        b = strip(n['c'][0]) if n.get('c') else None
        while b is not None and b['k'] in ('ocall', 'mcall', 'un') and b.get('c'):
            b = strip(b['c'][0])
        while b is not None and b['k'] == 'mem' and b.get('c'):
            b = strip(b['c'][0])
        return b is None or b['k'] == 'this' or b['k'] == 'var' and (self.Fn['locals'][b['v']]['t'].rstrip().endswith(('&', '*')) and not self.Fn['locals'][b['v']]['t'].startswith('const')
                                                                    or 'Declare' in self.Fn['locals'][b['v']]['t'])

    def leaf_zero(self, c):
        """(kind, truth->zero?) for conditions on the flag or the program."""
        t = cond2(self.P, c)
        return t

    def refine(self, c, truth, st):
        c = strip(c)
        while c is not None and c['k'] in ('icast', 'cast') and c.get('c'):
            c = strip(c['c'][0])
        if c is None:
            return st
        P = self.P
        if self.mine(c, 'flag'):
            return self.each(st, lambda p: None if p.flag == ('F' if truth else 'T') else p.w(flag='T' if truth else 'F'))
        x = c
        op = None
        if c['k'] in ('bin', 'ocall') and c.get('op') in ('==', '!=') and len(c['c']) == 2:
            a, b = c['c']
            if is_null(a):
                a, b = b, a
            if is_null(b) or const_of(b) is not None:
                x, op = strip(a), c['op']
                if const_of(b):
                    op = '!=' if op == '==' else '=='
                if self.mine(x, 'flag'):
                    v = truth == (op == '!=')
                    return self.each(st, lambda p: None if p.flag == ('F' if v else 'T') else p.w(flag='T' if v else 'F'))
        if x is not None and x['k'] == 'mcall' and P.D.get(x.get('f'), {}).get('n', '').startswith('operator ') and x['c']:
            x = strip(x['c'][0])
        if x is not None and self.mine(x, 'program'):
            nonnull = truth if op is None else truth == (op == '!=')
            if not nonnull:
                return self.each(st, lambda p: p.w(prog='null' if p.prog in ('old', 'null') else p.prog))
            return self.each(st, lambda p: None if p.prog == 'null' else p)
        if c['k'] == 'bin' and c['op'] in ('>', '<', '>=', '<=', '==', '!='):
            a, b, op = c['c'][0], c['c'][1], c['op']
            if const_of(a) is not None:
                a, b = b, a
                op = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
            k = const_of(b)
            s = strip(a)
            while s is not None and s['k'] in ('cast', 'icast') and s.get('c'):
                s = strip(s['c'][0])
            if isinstance(k, int) and s is not None and s['k'] == 'mcall' and P.D.get(s.get('f'), {}).get('n') == 'size' and self.on_graph(s):
                small = (op, truth) in (('>', False), ('<=', True)) and k <= 1 or (op, truth) in (('<', True), ('>=', False)) and k <= 2 or \
                    (op, truth) in (('==', True), ('!=', False)) and k <= 1
                if small:
                    return self.each(st, lambda p: p.w(small=True))
        return st

    def on_graph(self, n):
        return any(self.mine(x, 'graph') for x in walk(n) if x['k'] == 'mem') or any(x['k'] == 'var' and x['v'] in self.graph_vars() for x in walk(n))

    def graph_vars(self):
        out = set()
        for x in walk(self.Fn['body']):
            if x['k'] == 'vdecl' and x.get('init') is not None and any(y['k'] == 'mem' and y['q'] in self.role['graph'] for y in walk(x['init'])):
                if re.search(r'Graph|Node', self.Fn['locals'][x['v']]['t']):
                    out.add(x['v'])
        return out

    def change(self, n, st):
        self.changes.append(n)
        return self.each(st, lambda p: p.w(dirty=p.flag != 'F' or p.dirty, prog='old' if p.prog == 'new' else p.prog, small=False))

    def on(self, n, st):
        P = self.P
        k = n['k']
        if k == 'asg' or k == 'ocall' and n['op'] == '=' and len(n['c']) == 2:
            l, r = n['c'][0], n['c'][1]
            if self.mine(l, 'flag'):
                v = const_of(r)
                if v == 0 and v is not None:
                    return self.each(st, lambda p: p.w(flag='F', dirty=False))
                self.marks.append(n)
                if v is None and any(x['k'] == 'mem' and x['q'] in self.role['flag'] for x in walk(r)):
                    return self.each(st, lambda p: p.w(flag='C', dirty=False))
                for p in st:
                    ok = p.prog == 'new' or p.small and p.prog in ('old', 'null') and True
                    if not ok:
                        self.bad_mark.append((n, 'marks the filter as compiled without compiling the present pipeline'))
                return self.each(st, lambda p: p.w(flag='T', dirty=False))
            if self.mine(l, 'program'):
                if is_null(r):
                    return self.each(st, lambda p: p.w(prog='null'))
                comp = [x for x in walk(r) if x['k'] == 'call' and P.D.get(x.get('f'), {}).get('qn') == 'ts::Program::Compile']
                comp = comp or [x for x in walk(r) if x['k'] == 'call' and self.compiles(x.get('f'))]
                if comp or self.from_compile(r):
                    return self.each(st, lambda p: p.w(prog='new'))
                return self.each(st, lambda p: p.w(prog='copy'))
            if self.mine(l, 'graph'):
                self.changes.append(n)
                return self.each(st, lambda p: p.w(dirty=p.flag != 'F' or p.dirty, replaced=p.replaced or p.prog != 'null', prog=p.prog if p.prog != 'new' else 'old'))
        if k == 'mcall' and n.get('f') and n['c']:
            d = P.D.get(n['f'], {})
            if d.get('n') == 'reset' and self.mine(n['c'][0], 'program'):
                return self.each(st, lambda p: p.w(prog='null'))
            if d.get('n') == 'reset' and self.mine(n['c'][0], 'graph'):
                self.changes.append(n)
                return self.each(st, lambda p: p.w(dirty=p.flag != 'F' or p.dirty, replaced=p.replaced or p.prog != 'null'))
            if d.get('n') == 'swap' and any(self.mine(a, kk) for a in n['c'] for kk in ('program', 'graph')):
                return self.each(st, lambda p: p.w(prog='copy' if self.mine(n['c'][0], 'program') else p.prog))
            o = strip(n['c'][0])
            if o is not None and o['k'] == 'this' and d.get('cls') == FILTER and self.depth < 4:
                B = P.body_of(n['f'])
                if B is not None:
                    return self.inline(n, B, st)
        if k in ('call', 'mcall') and self.M.call(n):
            st = self.change(n, st)
        if k == 'mem' and self.mine(n, 'program'):
            p = self.parent(n)
            if not self.tested(n):
                for s in st:
                    if s.flag not in ('T', 'C') and not self.written(n) and not self.handed(n):
                        self.bad_run.append((n, 'uses the compiled program where the filter may have been changed since'))
                        break
        return st

    def parent(self, n):
        return None

    def chain(self, n):
        if not hasattr(self, '_par'):
            self._par = {}
        key = id(self.Fn['body'])
        if key not in self._par:
            from .locks import parents
            m = {}
            for b in [self.Fn['body']] + [i.get('init') for i in self.Fn.get('inits', ())]:
                if b is not None:
                    m.update(parents(b))
            self._par[key] = m
        m = self._par[key]
        p = m.get(id(n))
        while p is not None:
            yield p
            p = m.get(id(p))

    def tested(self, n):
        """Only compared with null."""
        last = n
        for p in self.chain(n):
            if p['k'] in ('icast', 'cast', 'upcast'):
                last = p
                continue
            if p['k'] == 'mcall' and self.P.D.get(p.get('f'), {}).get('n', '').startswith('operator bool'):
                return True
            if p['k'] in ('bin', 'ocall') and p.get('op') in ('==', '!='):
                return True
            if p['k'] == 'un' and p['op'] == '!' or p['k'] == 'if' and p.get('cond') is last:
                return True
            return False
        return False

    def written(self, n):
        last = n
        for p in self.chain(n):
            if p['k'] in ('icast', 'cast', 'upcast'):
                last = p
                continue
            if p['k'] in ('asg', 'ocall') and p.get('op') == '=' and p['c'][0] is last:
                return True
            if p['k'] == 'mcall' and p['c'][0] is last and self.P.D.get(p.get('f'), {}).get('n') in ('reset', 'swap'):
                return True
            return False
        return False

    def handed(self, n):
        """The accessor that hands the program out: its users are checked instead."""
        for p in self.chain(n):
            if p['k'] in ('icast', 'cast', 'upcast', 'ctor'):
                continue
            return p['k'] == 'ret'
        return False

    def compiles(self, f, depth=0):
        P = self.P
        B = P.body_of(f) if f else None
        if B is None or depth > 3 or not P.D[f]['file'].startswith('src'):
            return False
        return any(x['k'] == 'call' and x.get('f') and (P.D[x['f']]['qn'] == 'ts::Program::Compile' or self.compiles(x['f'], depth + 1)) for x in walk(B['body']))

    def from_compile(self, r):
        vs = {x['v'] for x in walk(r) if x['k'] == 'var'}
        for x in walk(self.Fn['body']):
            if x['k'] == 'vdecl' and x['v'] in vs and x.get('init') is not None:
                for y in walk(x['init']):
                    if y['k'] == 'call' and y.get('f') and (self.P.D[y['f']]['qn'] == 'ts::Program::Compile' or self.compiles(y['f'])):
                        return True
        return False

    def inline(self, n, B, st):
        save = self.Fn
        self.Fn = B
        self.depth += 1
        ex = self.run_body(B, B['body'], st)
        self.depth -= 1
        self.Fn = save
        out = None
        for kind, x, s in ex:
            if kind in ('ret', 'fall'):
                out = self.J(out, s)
        return out

    def always_resets(self, P, M, role):
        """Every function that marks the filter compiled also settles the program on the path without steps."""
        if not hasattr(P, '_r05_resets'):
            ok = None
            for fid, d, F in P.functions(lambda d: d.get('cls') == FILTER):
                if not any(n['k'] == 'asg' and strip(n['c'][0]) is not None and strip(n['c'][0]).get('q') in role['flag'] and const_of(n['c'][1]) for n in walk(F['body'])):
                    continue
                h = Settled(P, M, role)
                h.run(F, START)
                ok = h.ok and ok is not False
            P._r05_resets = bool(ok)
        return P._r05_resets


class Settled(Filter):
    ok = True

    def on(self, n, st):
        if (n['k'] == 'asg') and self.mine(n['c'][0], 'flag') and const_of(n['c'][1]):
            if any(p.prog == 'old' for p in st):
                self.ok = False
        return super().on(n, st)


def cond2(P, c):
    return None


def copy(P, R, M, role, fid, d, F):
    """Constructors that take another filter's implementation."""
    ps = [p for p in d['ps'] if 'ImageFilter' in p['t']]
    if not ps:
        return
    R.ob('R05.copy', d['qn'])
    src = set(F['ps'])
    nodes = list(walk([F['body']] + [i.get('init') for i in F.get('inits', ())]))
    got = {}
    for n in nodes:
        if n['k'] == 'asg' or n['k'] == 'ocall' and n['op'] == '=' and len(n['c']) == 2:
            l = strip(n['c'][0])
            for kind in ('flag', 'program', 'graph'):
                if l is not None and l['k'] == 'mem' and l['q'] in role[kind]:
                    b = strip(l['c'][0]) if l.get('c') else None
                    root = b
                    while root is not None and root.get('c'):
                        root = strip(root['c'][0])
                    if root is not None and root['k'] == 'var' and root['v'] in src:
                        continue
                    got.setdefault(kind, []).append(n)
    whole = any(n['k'] == 'ocall' and n['op'] == '=' and 'Implement' in (strip(n['c'][0]).get('t') or '') for n in nodes if n['k'] == 'ocall' and n.get('c'))
    # graph: never the same object
    for n in got.get('graph', ()):
        r = strip(n['c'][1])
        while r is not None and r['k'] in ('ctor', 'call', 'cast', 'icast') and len(r.get('c', ())) == 1 and (r['k'] != 'call' or P.D.get(r.get('f'), {}).get('qn') == 'std::move'):
            r = strip(r['c'][0])
        if r is not None and r['k'] == 'mem' and r['q'] in role['graph']:
            R.bad('R05.copy', d['qn'] + '|graph', P.loc(fid, n.get('l')), '%s shares the graph with the filter it copies: changing one changes the other without its knowing' % d['qn'])
    if whole:
        R.bad('R05.copy', d['qn'] + '|graph', P.loc(fid), '%s shares the graph with the filter it copies' % d['qn'])
    takes_flag = any(const_of(n['c'][1]) != 0 for n in got.get('flag', ()))
    if not got.get('graph') and not whole:
        R.bad('R05.copy', d['qn'] + '|graph', P.loc(fid), '%s does not copy the pipeline' % d['qn'])
    if takes_flag:
        prog = got.get('program', ())
        good = any(any(x['k'] == 'mem' and x['q'] in role['program'] for x in walk(n['c'][1])) for n in prog)
        if not good:
            R.bad('R05.copy', d['qn'] + '|flag', P.loc(fid), '%s takes over the compiled mark without the compiled program' % d['qn'])


class Taker(Flow):
    """State: filters (root variable or member) compiled on every path."""
    def __init__(self, P, takes, comps):
        super().__init__(P)
        self.takes, self.comps, self.bad = takes, comps, []

    def join(self, a, b):
        return a & b

    def root(self, n):
        n = strip(n)
        while n is not None and n['k'] in ('ocall', 'un', 'mcall') and n.get('c'):
            n = strip(n['c'][0])
        if n is None:
            return None
        return (n['k'], n.get('v'), n.get('q'))

    def on(self, n, st):
        if n['k'] == 'mcall' and n.get('f') in self.comps:
            return st | {self.root(n['c'][0])}
        if n['k'] == 'mcall' and n.get('f') in self.takes and self.root(n['c'][0]) not in st:
            self.bad.append(n)
        if n['k'] == 'mcall' and n.get('f') and self.P.D[n['f']].get('cls') == FILTER and not self.P.D[n['f']].get('const') and n['f'] not in self.comps:
            return st - {self.root(n['c'][0])}
        return st

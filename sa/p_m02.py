"""M02: raw resources have one owner, are released on every path, and never twice."""
import re
from .program import walk, children
from .sem import strip, key, is_zero
from .flow import Flow
from .locks import plain
from .throws import Explicit

SCOPE = re.compile(r'^(src|include)/(?!third|kernels/gpu)')
ACQ = {'malloc': 'malloc', 'calloc': 'malloc', 'aligned_alloc': 'malloc', 'strdup': 'malloc', 'fopen': 'fopen', 'popen': 'popen',
       'dlopen': 'dlopen', 'opendir': 'opendir', '__cxxabiv1::__cxa_demangle': 'malloc', 'abi::__cxa_demangle': 'malloc'}
REL = {'free': 'malloc', 'fclose': 'fopen', 'pclose': 'popen', 'dlclose': 'dlopen', 'closedir': 'opendir'}
SMARTS = re.compile(r'^std::(__)?(unique_ptr|shared_ptr)<')
ALLOC = re.compile(r'void \*\(int, (unsigned long|size_t|std::size_t), void \*, (unsigned long|size_t|std::size_t)\)')
CONTAINER = re.compile(r'^(const )?std::(vector|deque|list|set|queue|stack|map|unordered_map)<')
PUSH = ('push_back', 'emplace_back', 'push', 'emplace', 'insert', 'push_front')
DEPTH = 4


def std(q):
    return q[5:] if q.startswith('std::') else q


def peel(n):
    """through conversions and single-argument moves"""
    while True:
        n = strip(n)
        if n is not None and n.get('c') and (n['k'] in ('call', 'dcall', 'x') and moves(n) or n.get('x') == 'ParenListExpr' and len(n['c']) == 1):
            n = n['c'][0]
            continue
        return n


def pkey(n):
    return re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', repr(key(n))))


def moves(n):
    d = D.get(n.get('f') or '')
    if d is not None:
        return d['qn'] in ('std::move', 'std::forward') and len(n['c']) == 1
    fp = n.get('fp')
    return bool(fp) and fp.get('n') in ('move', 'forward') and bool(fp.get('fs'))


D = {}


class Facts:
    """What the program's functions and classes do with raw resources."""

    def __init__(self, P):
        self.P = P
        D.clear()
        D.update({f: d for f, d in P.D.items() if d['qn'] in ('std::move', 'std::forward')})
        self.takes = {}       # (fid, i) -> 'release' | 'keep'
        self.gives = {}       # fid -> kind of what it returns, owned by the caller
        self.released = {}    # member -> [(fid, node)]
        self.stored = {}      # member -> [(fid, node)]
        self.cur = ''         # the class whose function is looked at
        self.loops = set()    # names of the member containers of other objects whose elements a function releases
        self.guards = {}      # member -> keys of the conditions around its releases
        self.block = None     # the block the allocator being looked at is to replace
        self.fns = [(fid, d, F) for fid, d, F in P.functions() if SCOPE.match(F.get('file') or d.get('file') or '')]
        for rnd in range(4):
            n = (len(self.takes), len(self.gives), len(self.released), len(self.stored))
            for fid, d, F in self.fns:
                self.scan(fid, d, F)
            if n == (len(self.takes), len(self.gives), len(self.released), len(self.stored)):
                break

    # -- what expressions are
    def fname(self, n):
        d = self.P.D.get(n.get('f') or '')
        return std(d['qn']) if d else ''

    def acquires(self, n):
        """The kind of resource the expression has just created (None: it has not)."""
        n = strip(n)
        if n is None:
            return None
        if n['k'] == 'new':
            return None if n.get('place') else 'new[]' if 'size' in n else 'new'
        if n['k'] == 'call' and n.get('f'):
            q = self.fname(n)
            if q in ACQ and not self.P.has(n['f']):
                return ACQ[q]
            if q == 'realloc':
                return 'malloc'
            if self.is_alloc(self.P.D.get(n['f']) or {}):
                return None if is_zero(n['c'][1]) else 'hard'
            return self.gives.get(n['f'])
        if n['k'] == 'mcall' and n.get('f'):
            d = self.P.D[n['f']]
            if d['n'] == 'release' and (d.get('cls') or '').startswith('std::unique_ptr<'):
                return 'new'
            return self.gives.get(n['f']) if not n.get('virt') else None
        if n['k'] == 'ocall' and n.get('op') == '()' and n.get('c') and len(n['c']) == 5 and self.allocator(n['c'][0]) and not is_zero(n['c'][2]):
            return 'hard'
        return None

    def allocator(self, n):
        n = strip(n)
        return n is not None and bool(ALLOC.search(n.get('t') or ''))

    def releases(self, n):
        """[(expression, kind)] the node releases"""
        k = n['k']
        if k == 'del':
            return [(n['c'][0], 'new[]' if n.get('arr') else 'new')]
        if k == 'call' and n.get('f'):
            q = self.fname(n)
            c = n.get('c') or ()
            if q in REL and not self.P.has(n['f']) and c:
                return [(c[0], REL[q])]
            if self.is_alloc(self.P.D.get(n['f']) or {}) and len(c) == 4:
                return [(c[2], 'hard')]
            return [(a, None) for i, a in enumerate(c) if self.takes.get((n['f'], i)) == 'release']
        if k == 'mcall' and n.get('f'):
            return [(a, None) for i, a in enumerate(n['c'][1:]) if self.takes.get((n['f'], i)) == 'release'
                    or self.block is not None and re.search(r'free|releas|dealloc|dispos', self.P.D[n['f']]['n']) and (strip(a) or {}).get('v') == self.block]
        if k == 'ocall' and n.get('op') == '()' and n.get('c'):
            if len(n['c']) == 5 and (self.allocator(n['c'][0]) or self.block is not None and (strip(n['c'][3]) or {}).get('v') == self.block):
                return [(n['c'][3], 'hard')]
            o = strip(n['c'][0])
            if o is not None and o['k'] == 'mem' and re.search(r'delet|destroy|free|releas', o['n'], re.I) and len(n['c']) == 2:
                return [(n['c'][1], None)]
            if self.block is not None and len(n['c']) == 3 and (strip(n['c'][2]) or {}).get('v') == self.block and (n.get('t') or 'void') == 'void':
                return [(n['c'][2], None)]
        if k == 'dcall' and n.get('c'):
            o = strip(n['c'][0])
            if o is not None and o['k'] in ('mem', 'dmem') and re.search(r'delet|destroy|free|releas', o['n'], re.I) and len(n['c']) == 2:
                return [(n['c'][1], None)]
        return []

    def keeps(self, n, i):
        """argument i of the call is taken over by what is called"""
        d = self.P.D.get(n.get('f') or '')
        if n['k'] == 'ctor' and SMARTS.match(n.get('t') or (d or {}).get('cls') or ''):
            return i == 0
        if d is not None:
            if d['n'] == 'reset' and SMARTS.match(d.get('cls') or '') and i == 0:
                return True
            if self.takes.get((n['f'], i)) == 'keep':
                return True
        return False

    # -- members
    def member(self, n, al=None):
        """the member of this object (or an element of it) an expression names"""
        n = peel(n)
        el = False
        while n is not None and (n['k'] == 'sub' or n['k'] == 'ocall' and n.get('op') in ('[]', '*') or n['k'] == 'mcall' and n.get('f') and self.P.D[n['f']]['n'] in ('at', 'front', 'back')
                                 or n['k'] == 'un' and n.get('op') == '*'):
            n, el = strip(n['c'][0]), True
        if n is None:
            return None
        if n['k'] == 'var' and al and n['v'] in al:
            return al[n['v']]
        if n['k'] == 'mem' and n.get('q'):
            b = strip(n['c'][0]) if n.get('c') else None
            if b is None or b['k'] == 'this':
                return plain(n['q']), el
        if n['k'] == 'dmem' and n.get('c') and (strip(n['c'][0]) or {}).get('k') == 'this':
            return '%s::%s' % (self.cur, n['n']), el
        return None

    def aliases(self, F):
        """range-for variables over a member container, references and iterators into it"""
        al = {}
        for x in walk(F['body']):
            if x['k'] == 'rfor':
                m = self.member(x['range'], al)
                if m:
                    al[x['v']] = (m[0], True)
            elif x['k'] == 'vdecl' and x.get('init') is not None:
                t = F['locals'][x['v']]['t'] if F.get('locals') else ''
                m = self.member(x['init'], al)
                if m and t.rstrip().endswith('&'):
                    al[x['v']] = m
                i = strip(x['init'])
                while i is not None and i['k'] == 'ctor' and len(i.get('c') or ()) == 1:
                    i = strip(i['c'][0])
                if i is not None and i['k'] == 'mcall' and i.get('f') and self.P.D[i['f']]['n'] in ('begin', 'cbegin', 'rbegin'):
                    m = self.member(i['c'][0], al)
                    if m:
                        al[x['v']] = (m[0], True)
        return al

    def lent(self, F):
        """pointers copied from a member: {local: member}"""
        out = {}
        for x in walk(F['body']):
            if x['k'] == 'vdecl' and x.get('init') is not None and F.get('locals') and not F['locals'][x['v']]['t'].rstrip().endswith('&'):
                m = self.member(x['init'])
                if m and not m[1]:
                    out[x['v']] = m[0]
        return out

    def sharer(self, x):
        n = strip(x['c'][0]) if x.get('c') else None
        if n is not None and n['k'] in ('mem', 'dmem') and re.search(r'count|ref', n['n']) and n.get('c'):
            o = strip(n['c'][0])
            if o is not None and o['k'] == 'var':
                return o
        return None

    def outer(self, F):
        """range-for variables over a container member of some other object: the member's name"""
        o = F.get('_outer')
        if o is None:
            o, copies = {}, {}
            for x in walk(F['body']):
                if x['k'] == 'vdecl' and x.get('init') is not None:
                    i = strip(x['init'])
                    while i is not None and i['k'] == 'ctor' and len(i.get('c') or ()) == 1:
                        i = strip(i['c'][0])
                    if i is not None and i['k'] == 'mem':
                        copies[x['v']] = i['n']
            for x in walk(F['body']):
                if x['k'] == 'rfor':
                    r = strip(x['range'])
                    if r is not None and r['k'] == 'mem':
                        o[x['v']] = r['n']
                    elif r is not None and r['k'] == 'var' and r['v'] in copies:
                        o[x['v']] = copies[r['v']]
            F['_outer'], F['_copies'] = o, copies
        return o

    def scan(self, fid, d, F):
        P = self.P
        self.cur = plain(d.get('cls') or '')
        al = self.aliases(F)
        lent = self.lended = self.lent(F)
        ps = {v: i for i, v in enumerate(F.get('ps', ()))}
        owned = {}      # locals that may hold something created here
        roots = [F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]
        assigned = set()
        for x in walk(roots):
            if x['k'] == 'vdecl' and x.get('init') is not None and self.acquires(x['init']):
                owned[x['v']] = self.acquires(x['init'])
            elif x['k'] == 'asg':
                l = strip(x['c'][0])
                if l is not None and l['k'] == 'var':
                    assigned.add(l['v'])
                    if self.acquires(x['c'][1]):
                        owned[l['v']] = self.acquires(x['c'][1])
                m = self.member(x['c'][0], al)
                r = peel(x['c'][1])
                if m and (self.acquires(r) or r is not None and r['k'] == 'var' and r['v'] in owned):
                    self.stored.setdefault(m[0], {})[(fid, id(x))] = x
                if m and r is not None and r['k'] == 'var' and r['v'] in ps and m[0] in self.released and d.get('ctor'):
                    self.takes.setdefault((fid, ps[r['v']]), 'keep')
            elif x['k'] == 'mcall' and x.get('f') and P.D[x['f']]['n'] in PUSH:
                m = self.member(x['c'][0], al)
                if m:
                    for a in x['c'][1:]:
                        r = peel(a)
                        if self.acquires(r) or r is not None and r['k'] == 'var' and r['v'] in owned:
                            self.stored.setdefault(m[0], {})[(fid, id(x))] = x
            for e, kind in self.releases(x):
                m = self.member(e, al)
                o = peel(e)
                if o is not None and o['k'] == 'var' and o['v'] in self.outer(F):
                    self.loops.add(self.outer(F)[o['v']])
                while o is not None and (o['k'] == 'sub' or o['k'] == 'ocall' and o.get('op') in ('[]', '*') or o['k'] == 'mcall' and o.get('f') and P.D[o['f']]['n'] == 'at'):
                    o = peel(o['c'][0])
                    if o is not None and o['k'] == 'mem':
                        self.loops.add(o['n'])
                    elif o is not None and o['k'] == 'var' and (self.outer(F), o['v'] in F['_copies'])[1]:
                        self.loops.add(F['_copies'][o['v']])
                o = peel(e)
                if o is not None and o['k'] == 'var' and o['v'] in lent:
                    m = lent[o['v']], False
                if m:
                    self.released.setdefault(m[0], {})[(fid, id(x))] = x
                s = peel(e)
                if s is not None and s['k'] == 'var' and s['v'] in ps and s['v'] not in assigned and not self.is_alloc(d):
                    t = F['locals'][s['v']]['t'].rstrip()
                    if t.endswith('*'):
                        self.takes[(fid, ps[s['v']])] = 'release'
            if x['k'] in ('un', 'ocall') and x.get('op') == '--':
                m = self.share(x)
                o = self.sharer(x)
                if o is not None and o['v'] in lent:
                    m = lent[o['v']]
                if m:
                    self.released.setdefault(m, {})[(fid, id(x))] = x
            if x['k'] in ('ctor', 'mcall', 'call'):
                c = x.get('c') or ()
                for i, a in enumerate(c[1:] if x['k'] == 'mcall' else c):
                    s = peel(a)
                    if s is None or not self.keeps(x, i):
                        continue
                    for v in [s] if s['k'] == 'var' else [peel(y) for y in walk(s) if y['k'] == 'var'] if s['k'] in ('init', 'ctor') and CONTAINER.match(s.get('t') or '') else ():
                        if v['v'] in ps and F['locals'][v['v']]['t'].rstrip().endswith('*'):
                            self.takes.setdefault((fid, ps[v['v']]), 'keep')
        for i in F.get('inits', ()):
            if i.get('fld') and i.get('init') is not None:
                q = plain(i.get('q') or i['fld'])
                if self.acquires(i['init']):
                    self.stored.setdefault(q, {})[(fid, id(i))] = i['init']
                s = peel(i['init'])
                while s is not None and s['k'] in ('ctor', 'call') and len(s.get('c') or ()) == 1:
                    s = peel(s['c'][0])
                if s is not None and s['k'] == 'var' and s['v'] in ps and (q in self.released or self.deep(q)):
                    self.takes.setdefault((fid, ps[s['v']]), 'keep')
        if (d.get('ret') or '').rstrip().endswith('*') and not d.get('virt'):
            ks = set()
            for x in self.own_returns(F['body']):
                if x.get('c') and x['c'][0] is not None:
                    r = peel(x['c'][0])
                    if is_zero(r) or r is not None and r['k'] == 'null':
                        continue
                    ks.add(self.acquires(r) or (r is not None and r['k'] == 'var' and owned.get(r['v'])) or None)
            if len(ks) == 1 and None not in ks:
                self.gives[fid] = ks.pop()
        # the conditions around releases
        self.guarded(F['body'], (), fid, al)

    def deep(self, q):
        """released by somebody who walks the object from outside (a tree's nodes)"""
        n = q.rsplit('::', 1)
        return any(x == n[1] for x in self.loops)

    def own_returns(self, body):
        todo = [body]
        while todo:
            n = todo.pop()
            if n is None:
                continue
            if n['k'] == 'ret':
                yield n
            if n['k'] != 'lambda':
                todo.extend(children(n))

    def is_alloc(self, d):
        ps = [p['t'] for p in d.get('ps', ())]
        return len(ps) == 4 and (d.get('ret') or '').strip() == 'void *' and ps[0] == 'int' and ps[2].strip() == 'void *'

    def share(self, x):
        """the member whose reference count the node changes"""
        n = strip(x['c'][0]) if x.get('c') else None
        if n is not None and n['k'] in ('mem', 'dmem') and re.search(r'count|ref', n['n']) and n.get('c'):
            m = self.member(n['c'][0])
            return m[0] if m else None
        return None

    def guarded(self, n, conds, fid, al):
        if n is None:
            return
        if n['k'] == 'if' and n.get('cond') is not None:
            cs, todo = [], [n['cond']]
            while todo:
                c = strip(todo.pop())
                if c is not None and c['k'] == 'bin' and c['op'] == '&&':
                    todo.extend(c['c'])
                elif c is not None and not any(y['k'] in ('un', 'ocall') and y.get('op') in ('--', '++') or y['k'] == 'asg' for y in walk(c)):
                    cs.append(pkey(c))
            self.guarded(n.get('then'), conds + tuple(cs), fid, al)
            self.guarded(n.get('else'), conds, fid, al)
            self.guarded(n['cond'], conds, fid, al)
            return
        for e, kind in self.releases(n):
            m = self.member(e, al)
            o = peel(e)
            if not m and o is not None and o['k'] == 'var' and o['v'] in self.lended:
                m = (self.lended[o['v']], False)
            if m:
                self.guards.setdefault(m[0], set()).update(conds)
        for c in children(n):
            self.guarded(c, conds, fid, al)


class Throws(Explicit):
    STD = re.compile(r'^std::(.*::at|sto(i|l|ll|ul|ull|f|d|ld)|rethrow_exception|__throw_\w+|.*future<.*::get)$')


SIZE0 = ('size',)


class Own(Flow):
    """May-analysis. (k,'O',kind,l) held by this function; (k,'R',l) released; (k,'H') a member that may hold something; (k,'C',l) a member
    that shares its value with another object; (k,'B') the value of a smart pointer; (k,'L',k2) released unless k2 is null."""
    calls_may_throw = True
    MAXIT = 6

    def __init__(self, P, X, E, fid, d, F, bad, ob):
        Flow.__init__(self, P)
        self.X, self.E, self.fid, self.d, self.F0, self.report, self.ob = X, E, fid, d, F, bad, ob
        X.cur = plain(d.get('cls') or '')
        self.al = X.aliases(F)
        self.stack = [fid]
        self.quiet = 0
        self.old = self.sizevar = None      # of an allocator: the block it is to replace, and how much of it to keep
        self.up = {}
        self.parents(F)
        self.thrown = {}

    def parents(self, F):
        roots = [F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]
        todo = [(r, None) for r in roots]
        while todo:
            n, p = todo.pop()
            if n is None:
                continue
            self.up[id(n)] = p
            todo.extend((c, n) for c in children(n))

    def join(self, a, b):
        return a | b

    def bad(self, *a):
        if not self.quiet:
            self.report(*a)

    # -- keys
    def k(self, n):
        n = peel(n)
        if n is None:
            return None
        m = self.X.member(n, self.al)
        if m:
            return ('m', m[0]) if m[0] in self.owners else None
        if n['k'] == 'var':
            L = self.Fn['locals'][n['v']] if self.Fn.get('locals') else None
            return None if L and L['t'].rstrip().endswith('&') else ('v', len(self.stack), n['v'])
        return None

    def pointer(self, s):
        t = self.Fn['locals'][s['v']]['t'] if s['k'] == 'var' else s.get('t') or ''
        return re.sub(r'\bconst$', '', t.strip()).strip().endswith('*')

    def range_var(self, n, st):
        k = ('v', len(self.stack), n['v'])
        return frozenset(x for x in st if x[0] != k)

    @property
    def owners(self):
        return self.X.owners

    def element(self, n):
        m = self.X.member(n, self.al)
        return bool(m and m[1])

    def alias(self, st, k):
        for x in st:
            if x[0] == k and x[1] == 'A':
                return ('m', x[2])
        return None

    def drop(self, st, k, what='ORHCBL'):
        return frozenset(x for x in st if not (x[0] == k and x[1] in what))

    def has(self, st, k, what):
        return [x for x in st if x[0] == k and x[1] in what]

    # -- conditions
    def refine(self, c, truth, st):
        n = strip(c)
        if n is None:
            return st
        for q, gs in self.X.guards.items():
            if not truth and pkey(n) in gs and self.X.member(n) is None and ('m', q) in {x[0] for x in st}:
                st = self.drop(st, ('m', q))
        if self.old and (SIZE0, 'N') in st and self.zerosize(n, truth):
            st = st - {(SIZE0, 'N')}
        e, null = self.nulltest(n, truth)
        if e is not None and null:
            k = self.k(e)
            if k is not None and not self.element(e):
                st = frozenset(x if not (x[1] == 'L' and x[2] == k) else (x[0], 'O', x[3], x[4]) for x in st)
                st = self.drop(st, k)
        elif e is not None:
            k = self.k(e)
            st = frozenset(x if not (x[1] == 'L' and x[2] == k) else (x[0], 'R', x[4]) for x in st)
        return st

    def zerosize(self, n, truth):
        """the outcome of the condition says that the allocator is to copy nothing"""
        n = strip(n)
        if n['k'] in ('bin',) and n.get('op') in ('>', '<', '<=', '>=') and len(n['c']) == 2:
            a, b = [strip(x) for x in n['c']]
            op = n['op']
            if a is not None and is_zero(a):
                a, b, op = b, a, {'>': '<', '<': '>', '<=': '>=', '>=': '<='}[op]
            if a is None or a['k'] != 'var' or a['v'] != self.sizevar or b is None:
                return False
            if is_zero(b):
                return op == '>' and not truth or op == '<=' and truth
            return b.get('cv') == 1 and (op == '<' and truth or op == '>=' and not truth)
        e, zero = self.nulltest(n, truth)
        e = strip(e) if e is not None else None
        return zero and e is not None and e['k'] == 'var' and e['v'] == self.sizevar

    def nulltest(self, n, truth):
        n = strip(n)
        if n is None:
            return None, False
        if n['k'] == 'un' and n.get('op') == '!':
            return self.nulltest(n['c'][0], not truth)
        if n['k'] in ('bin', 'ocall') and n.get('op') in ('==', '!=') and len(n['c']) == 2:
            for a, b in (n['c'], n['c'][::-1]):
                b = strip(b)
                if b is not None and (b['k'] == 'null' or is_zero(b)):
                    return a, truth == (n['op'] == '==')
            return None, False
        if n['k'] in ('var', 'mem', 'sub'):
            return n, not truth
        return None, False

    # -- events
    def on(self, n, st):
        k = n['k']
        X = self.X
        kind = X.acquires(n) if k in ('new', 'call', 'mcall', 'ocall') else None
        for e, rk in X.releases(n):
            if kind and rk != 'hard':
                continue
            if rk == 'hard' and not self.forfeit(n):
                self.throwing(n, st)        # an allocator that throws leaves the old block alone, unless told to copy nothing
            st = self.release(e, rk, n, st)
            if rk == 'hard' and self.forfeit(n):
                self.throwing(n, st)
        if k in ('un', 'ocall') and n.get('op') in ('--', '++'):
            m, v = X.share(n), X.sharer(n)
            kk = ('m', m)
            if v is not None and n['op'] == '--':
                kk = ('v', len(self.stack), v['v'])
                kk = self.alias(st, kk) or kk
                m = kk[1] if kk[0] == 'm' else None
                if kk[0] == 'v' and self.has(st, kk, 'O'):
                    return self.drop(st, kk) | {(kk, 'R', n.get('l'), 'share')}
            if m in self.owners:
                if n['op'] == '--':
                    self.ob('M02.release', n)
                    if self.has(st, kk, 'R'):
                        self.bad('M02.twice', n, 'gives up its share of %s, which it has already given up' % m)
                    return self.drop(st, kk) | {(kk, 'R', n.get('l'), 'share')}
                if self.has(st, kk, 'C'):
                    return self.drop(st, kk, 'C') | {(kk, 'H')}
                return st
        if kind:
            self.made(n, kind, st)
            if X.fname(n) == 'realloc' and n['k'] == 'call':
                st = self.realloc(n, st)
        if k in ('un', 'sub', 'mem', 'mcall', 'ocall'):
            st = self.use(n, st)
        if k == 'asg' and n.get('op') == '=':
            return self.assign(n['c'][0], n['c'][1], n, st)
        if k in ('call', 'mcall', 'ctor', 'ocall'):
            st = self.call(n, st)
        return st

    def realloc(self, n, st):
        k = self.k(n['c'][0])
        p = self.up.get(id(n))
        while p is not None and p['k'] in ('cast', 'icast'):
            p = self.up.get(id(p))
        t = None
        if p is not None and p['k'] == 'asg':
            t = self.k(p['c'][0])
        elif p is not None and p['k'] == 'vdecl':
            t = ('v', len(self.stack), p['v'])
        if k is None or t is None:
            return st
        if t == k:
            self.bad('M02.leak', n, 'what realloc is given is lost when it fails')
            return st
        old = self.has(st, k, 'OH')
        return self.drop(st, k) | {(k, 'L', t, 'malloc', n.get('l'))} if old else st

    def release(self, e, rk, n, st):
        k = self.k(e)
        s = peel(e)
        if s is not None and (s['k'] == 'this' and False or s['k'] == 'un' and s.get('op') == '&' or self.borrowed(s)):
            self.bad('M02.twice', n, 'releases what something else owns')
            return st
        if k is None:
            return st
        k = self.alias(st, k) or k
        self.ob('M02.release', n)
        r = [x for x in self.has(st, k, 'R') if len(x) < 4 or n['k'] != 'del']
        if r and not self.element(e):
            self.bad('M02.twice', n, 'releases %s again (already released at line %s)' % (self.name(k), r[0][2]))
        o = self.has(st, k, 'B')
        if o and not self.has(st, k, 'OH'):
            self.bad('M02.twice', n, 'releases %s, which a smart pointer owns' % self.name(k))
        for x in self.has(st, k, 'O'):
            if rk and x[2] != rk and x[2] != 'hard':
                self.bad('M02.kind', n, 'releases %s with %s what was created with %s (line %s)' % (self.name(k), DEL.get(rk, rk), NEW.get(x[2], x[2]), x[3]))
        if k[0] == 'v' and k[1:] == self.old and (SIZE0, 'N') not in st:
            return self.drop(st, k) | {(k, 'R', n.get('l'), 'size 0')}
        return self.drop(st, k) | {(k, 'R', n.get('l'))}

    def forfeit(self, n):
        c = n['c'][1:] if n['k'] == 'ocall' else n['c']
        return is_zero(c[3]) and not is_zero(c[1])

    def borrowed(self, s):
        return s is not None and s['k'] == 'mcall' and s.get('f') and self.P.D[s['f']]['n'] in ('get', 'data', 'c_str') and \
            (self.P.D[s['f']].get('cls') or '').startswith('std::')

    def name(self, k):
        if k[0] == 'm':
            return k[1]
        F = self.Fn
        return F['locals'][k[2]]['n'] if k[1] == len(self.stack) and F.get('locals') else 'it'

    def made(self, n, kind, st):
        """what was created must have an owner at once"""
        p = self.up.get(id(n))
        c = n
        while p is not None and (p['k'] in ('cast', 'icast', 'upcast', 'init', 'definit') or p['k'] == 'cond' and c is not p['c'][0] or p['k'] == 'ctor' and len(p.get('c') or ()) == 1 and c is not None and self.copyish(p)):
            c, p = p, self.up.get(id(p))
        self.ob('M02.owner', n)
        if p is None or p['k'] in ('x', 'dctor', 'ret', 'lambda', 'dcall', 'dmcall'):
            return
        if p['k'] in ('vdecl', 'asg'):
            return
        if p['k'] in ('call', 'mcall', 'ctor', 'new'):
            args = p['c'][1:] if p['k'] == 'mcall' else p.get('c') or ()
            for i, a in enumerate(args):
                if a is c:
                    if p['k'] == 'ctor' and not p.get('f') or p['k'] == 'new' or self.X.keeps(p, i) or self.X.takes.get((p.get('f'), i)):
                        return
                    d = self.P.D.get(p.get('f') or '')
                    if d is not None and p['k'] == 'mcall' and d['n'] in PUSH:
                        return self.pushed(p, kind)
                    if d is not None and (d.get('ctor') or not self.P.has(p['f'])):
                        return      # an aggregate or a library function: it owns it
                    break
            else:
                return
            self.bad('M02.owner', n, 'hands what it creates to %s, which does not take it over' % (self.P.D.get(p.get('f') or '') or {}).get('qn', 'a function'))
            return
        if p['k'] == 'del' or p['k'] in ('bin', 'un', 'ocall', 'if', 'while'):
            return
        if p['k'] in ('block', 'for', 'case', 'default', 'label', 'do', 'rfor') or p['k'] == 'cast':
            self.bad('M02.owner', n, 'drops what it has just created')

    def copyish(self, p):
        t = p.get('t') or ''
        return t.rstrip().endswith('*')

    def pushed(self, p, kind):
        o = strip(p['c'][0])
        m = self.X.member(o, self.al)
        if m and m[0] not in self.X.released:
            self.bad('M02.owner', p, 'keeps what it creates in %s, whose elements nothing releases' % m[0])

    def use(self, n, st):
        e = None
        if n['k'] == 'un' and n.get('op') == '*' or n['k'] == 'sub':
            e = n['c'][0]
        elif n['k'] == 'mem' and n.get('arrow') and n.get('c'):
            e = n['c'][0]
        elif n['k'] == 'mcall' and n.get('c') and n.get('arrow', True):
            e = n['c'][0]
        s = peel(e) if e is not None else None
        if s is None or s['k'] not in ('var', 'mem'):
            return st
        k = self.k(s)
        r = [x for x in self.has(st, k, 'R') if len(x) < 4] if k is not None and not self.element(s) else None
        if r and self.pointer(s):
            self.bad('M02.after', n, 'uses %s after it was released (line %s)' % (self.name(k), r[0][2]))
            return self.drop(st, k, 'R')
        return st

    def assign(self, l, r, n, st):
        k = self.k(l)
        kind = self.X.acquires(r)
        rk = self.k(r)
        rv = peel(r)
        other = strip(l)
        if other is not None and other['k'] in ('mem', 'dmem') and k is None:
            # a field of another object
            q = plain(other.get('q') or '') or '%s::%s' % (self.X.cur, other['n'])
            if self.has(st, ('m', q), 'C'):
                st = self.drop(st, ('m', q), 'C') | {(('m', q), 'H')}
        if k is None:
            if rk is not None and rk[0] == 'v' and self.has(st, rk, 'O'):
                st = self.drop(st, rk, 'O')         # kept in something that is not a local
            return st
        if not self.element(l):
            if kind == 'dlopen':
                return frozenset(x for x in st if x[0] != k) | ({(k, 'H')} if k[0] == 'm' else {(k, 'O', kind, n.get('l'))})
            o = [x for x in self.has(st, k, 'O')] + (self.has(st, k, 'H') if k[0] == 'm' else [])
            als = [x for x in st if x[1] == 'A' and k == ('m', x[2])]
            if als:
                st = frozenset(x for x in st if x not in als)
                if o and rk != k:
                    st = st | {(als[0][0], 'O', 'hard', n.get('l'))}
                    o = []
            if o and not (rk == k):
                self.bad('M02.leak', n, 'overwrites %s, which may still hold something' % self.name(k))
            if rk != k:
                st = frozenset(x for x in st if x[0] != k)
        if kind:
            return st | ({(k, 'H')} if k[0] == 'm' else {(k, 'O', kind, n.get('l'))})
        return self.moved(k, r, rk, rv, n, st)

    def moved(self, k, r, rk, rv, n, st):
        if rk is not None and rk != k and self.has(st, rk, 'OH') and not (rk[0] == 'm' and k[0] == 'v'):
            o = self.has(st, rk, 'O')
            st = self.drop(st, rk, 'OH')
            return st | ({(k, 'H')} if k[0] == 'm' else {(k,) + x[1:] for x in o})
        if k[0] == 'm' and rv is not None and rv['k'] in ('mem', 'dmem') and (plain(rv.get('q') or '') == k[1] or rv['k'] == 'dmem' and rv['n'] == k[1].rsplit('::', 1)[1]):
            return st | {(k, 'C', n.get('l'))}
        if rk is not None and rk[0] == 'v' and k[0] == 'v':
            return st | {(k,) + x[1:] for x in self.has(st, rk, 'RB')}
        if self.borrowed(rv):
            return st | {(k, 'B')}
        if k[0] == 'm' and rv is not None and not is_zero(rv) and rv['k'] != 'null':
            return st | {(k, 'H')}
        return st

    def call(self, n, st):
        X = self.X
        f = n.get('f')
        c = n.get('c') or ()
        args = c[1:] if n['k'] == 'mcall' or n['k'] == 'ocall' and n.get('m') else c
        d = self.P.D.get(f or '')
        for i, a in enumerate(args):
            s = peel(a)
            if s is None:
                continue
            if X.keeps(n, i):
                k = self.k(s)
                plainowner = len([x for x in args if x is not None and x['k'] != 'defarg']) == 1
                if plainowner and SMARTS.match(n.get('t') or (d or {}).get('cls') or '') and (n['k'] == 'ctor' or (d or {}).get('n') == 'reset'):
                    if self.borrowed(s) or s['k'] == 'un' and s.get('op') == '&' or s['k'] == 'this' or k is not None and self.has(st, k, 'B') and not self.has(st, k, 'O'):
                        self.bad('M02.twice', n, 'makes a second owner of what something else owns')
                if k is not None and self.pointer(s):
                    r = self.has(st, k, 'R')
                    if r:
                        self.bad('M02.twice', n, 'gives away %s, already released at line %s' % (self.name(k), r[0][2]))
                    st = self.drop(st, k, 'OH')
            elif n['k'] == 'mcall' and d is not None and d['n'] in PUSH:
                k = self.k(s)
                if k is not None and self.has(st, k, 'O'):
                    self.pushed(n, None)
                    st = self.drop(st, k, 'O')
            elif s['k'] == 'var' and d is not None and not X.takes.get((f, i)) and not any(e is a for e, _ in X.releases(n)):
                k = self.k(s)
                r = [x for x in self.has(st, k, 'R') if len(x) < 4]
                if r and self.pointer(s) and n['k'] != 'ocall':
                    self.bad('M02.after', n, 'uses %s after it was released (line %s)' % (self.name(k), r[0][2]))
        if d is not None and n['k'] == 'mcall' and d['n'] in ('clear', 'swap'):
            m = X.member(n['c'][0], self.al)
            if m:
                st = self.drop(st, ('m', m[0]), 'RH')
        if d is not None and n['k'] == 'mcall' and (strip(n['c'][0]) or {}).get('k') == 'this' and not n.get('virt'):
            st = self.enter(f, n, st)
        elif n['k'] == 'ocall' and n.get('op') == '=' and len(c) == 2 and self.isthis(c[0]) and f:
            st = self.enter(f, n, st)
        if d is not None and std(d['qn']) == 'swap' and len(args) == 2:
            for a in args:
                m = X.member(a, self.al)
                if m:
                    st = self.drop(st, ('m', m[0]), 'C')
        return st

    def isthis(self, n):
        n = strip(n)
        if n is not None and n['k'] == 'un' and n.get('op') == '*':
            n = strip(n['c'][0])
        return n is not None and n['k'] == 'this'

    def enter(self, g, n, st):
        B = self.P.body_of(g)
        if B is None or g in self.stack or len(self.stack) > DEPTH:
            return st
        if not any(plain(x.get('q') or '') in self.owners for x in walk(B['body']) if x['k'] == 'mem') and not any(
                x['k'] == 'mcall' and x.get('c') and (strip(x['c'][0]) or {}).get('k') == 'this' for x in walk(B['body'])):
            return st
        save = (self.exits, self.loops, self.scopes, self.trys, self.Fn, self.al)
        self.stack.append(g)
        self.quiet += 1         # its own run reports
        self.al = self.X.aliases(B)
        self.parents(B)
        mine = frozenset(x for x in st if x[0][0] == 'm')
        out, thrown = None, None
        for kind, node, s in self.run(B, mine):
            s = frozenset(x for x in s if x[0][0] == 'm') if s is not None else None
            if kind in ('ret', 'fall'):
                out = self.J(out, s)
            elif kind == 'throw':
                thrown = self.J(thrown, s)
        self.quiet -= 1
        self.stack.pop()
        self.exits, self.loops, self.scopes, self.trys, self.Fn, self.al = save
        rest = st - mine
        if thrown is not None:
            self.throwing(n, thrown | rest)
        return None if out is None else out | rest

    def declare(self, vd, st):
        k = ('v', len(self.stack), vd['v'])
        st = frozenset(x for x in st if x[0] != k)
        L = self.Fn['locals'][vd['v']]
        i = vd.get('init')
        if i is None or L.get('st'):
            return st
        kind = self.X.acquires(i)
        if not L['t'].rstrip().rstrip('const').rstrip().endswith('*') and 'Handle' not in L['t']:
            return st
        if kind:
            return st | {(k, 'O', kind, vd.get('l'))}
        m = self.X.member(i)
        if m and not m[1] and m[0] in self.owners:
            st = st | {(k, 'A', m[0])}
        return self.moved(k, i, self.k(i), peel(i), vd, st)

    def leave(self, vs, st):
        for vd in vs:
            v = vd['v'] if isinstance(vd, dict) else vd
            k = ('v', len(self.stack), v)
            for x in self.has(st, k, 'OL'):
                self.lost(k, x)
            st = frozenset(x for x in st if x[0] != k)
        return st

    def lost(self, k, x):
        l = x[3] if x[1] == 'O' else x[4]
        self.bad('M02.leak', {'l': l}, 'can leave without releasing %s, created at line %s' % (self.name(k), l))

    def ret(self, n, st):
        if n.get('c') and n['c'][0] is not None:
            s = peel(n['c'][0])
            if len(self.stack) == 1 and self.borrowed(s) and self.P.D[s['f']]['n'] == 'get' and (self.P.D[s['f']].get('cls') or '').startswith('std::unique_ptr<'):
                o = strip(s['c'][0])
                L = self.Fn['locals'][o['v']] if o is not None and o['k'] == 'var' and o['v'] < len(self.Fn.get('locals') or ()) else None
                if L is not None and not L.get('st') and not L['t'].rstrip().endswith(('&', '*')):
                    self.bad('M02.after', n, 'returns what the smart pointer %s releases when the function ends' % L['n'])
            k = self.k(n['c'][0])
            if k is not None and k[0] == 'v':
                r = self.has(st, k, 'R')
                if r:
                    self.bad('M02.after', n, 'returns %s after it was released (line %s)' % (self.name(k), r[0][2]))
                return frozenset(x for x in st if x[0] != k and not (x[1] == 'L' and x[2] == k)) | {(x[0], 'R', x[4]) for x in st if x[1] == 'L' and x[2] == k}
        return st

    def ctor_init(self, i, st):
        q = plain(i.get('q') or '%s::%s' % (self.X.cur, i.get('fld') or ''))
        if i.get('fld') and q in self.owners and i.get('init') is not None:
            k = ('m', q)
            if self.X.acquires(i['init']):
                return st | {(k, 'H')}
            return self.moved(k, i['init'], self.k(i['init']), peel(i['init']), i['init'], st)
        return st

    # -- exceptions: the ones the library throws itself
    def after_call(self, n, st):
        if st is None:
            return None
        d = self.P.D.get(n.get('f') or '')
        if d and d.get('noreturn'):
            self.throwing(n, st)
            return None
        if not any(x[1] in 'ORLC' for x in st):
            return st
        if d is not None and (d.get('noexcept') or d['qn'].startswith('std::') and not self.P.has(n['f'])):
            if not re.search(r'::(at|substr|sto[a-z]+|thread)$', d['qn']):
                return st
        if n['k'] == 'mcall' and d is not None and (strip(n['c'][0]) or {}).get('k') == 'this' and not n.get('virt'):
            pass
        t = self.thrown.get(id(n))
        if t is None:
            m = dict(n)
            try:
                t = bool(self.E.inside(self.stack[-1], self.Fn, m))
            except RecursionError:
                t = False
            self.thrown[id(n)] = t
        if t:
            self.throwing(n, st)
        return st


NEW = {'new': 'new', 'new[]': 'new[]', 'malloc': 'malloc', 'fopen': 'fopen', 'dlopen': 'dlopen'}
DEL = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free', 'fopen': 'fclose', 'dlopen': 'dlclose', 'hard': 'the allocator'}


def raw(t):
    t = (t or '').strip()
    t = re.sub(r'\bconst$', '', t).strip()
    return t.endswith('*') or bool(CONTAINER.match(t) and '*' in t)


def check(P, R):
    R.rule('M02.owner', 'Whatever is created (new, malloc, fopen, dlopen, a released unique_ptr, what a function of the library creates for its caller) is put into a variable, a smart pointer, a member or a container whose elements are released, or returned.')
    R.rule('M02.leak', 'A resource held in a local variable is released or handed on before every way out of the function, exceptions of the library included, and a member that holds one is not overwritten before it was released.')
    R.rule('M02.twice', 'Nothing is released twice, released although a smart pointer owns it, or given a second owner; a member that has been released is set again before the function ends.')
    R.rule('M02.after', 'A pointer is not followed, passed on or returned after what it points to was released.')
    R.rule('M02.kind', 'A resource is released the way it was created.')
    R.rule('M02.class', 'A class that holds a raw resource releases it in its destructor and is not copied memberwise.')
    R.rule('M02.base', 'What is deleted through a pointer to a base class has a virtual destructor there.')
    R.rule('M02.allocator', 'An allocator that fails leaves the block it was to replace alone; one that succeeds has released it.')
    X = Facts(P)
    X.owners = {q for q in set(X.released) | set(X.stored)}
    fields = {}
    for c, r in P.R.items():
        for f in r['fields']:
            fields[plain('%s::%s' % (c, f['n']))] = (c, r, f)
    X.owners = {q for q in X.owners if q in fields and raw(fields[q][2]['t'])}
    E = Throws(P)
    seen = set()

    def bad_in(fid, d):
        def bad(rule, n, msg):
            l = n.get('l')
            q = plain(d['qn'])
            k = (rule, q, msg, l)
            if k in seen:
                return
            seen.add(k)
            R.bad(rule, '%s|%s' % (q, re.sub(r'\(?(already released at |created at )?line \d+\)?', '', msg)[:60]), P.loc(fid, l or 0), '%s %s' % (d['qn'], msg))
        return bad

    pats = {P.D[fid].get('pat') for fid, d, F in X.fns}
    for fid, d, F in X.fns:
        if fid in pats:
            continue        # an instantiation of it is looked at instead
        bad = bad_in(fid, d)
        lambdas(P, R, X, E, fid, d, F, bad)
        if not interesting(X, F):
            continue
        fl = Own(P, X, E, fid, d, F, bad, lambda rule, n: R.ob(rule if rule != 'M02.release' else 'M02.twice', '%s|%s' % (d['qn'], n.get('l'))))
        st = set()
        cls = d.get('cls') or ''
        alloc = X.is_alloc(d)
        if not d.get('ctor') and not d.get('static'):
            for q in X.owners:
                if q.rsplit('::', 1)[0] == plain(cls):
                    st.add((('m', q), 'H'))
        if alloc:
            st |= allocator(X, fl, F['ps'], F.get('line'))
            R.ob('M02.allocator', d['qn'])
        for kind, node, s in fl.run(F, frozenset(st)):
            if s is None:
                continue
            if alloc:
                s = replaced(fl, kind, node, s, bad)
            for x in s:
                k = x[0]
                if k[0] == 'v':
                    if x[1] == 'O' or x[1] == 'L':
                        fl.stack = [fid]
                        fl.Fn = F
                        fl.lost(k, x)
                elif k[0] == 'm':
                    if x[1] == 'R' and not d.get('dtor') and not (d.get('ctor') and kind == 'throw'):
                        bad('M02.twice', {'l': x[2]}, 'releases %s (line %s) and %s without setting it again, so that it is released twice'
                            % (k[1], x[2], 'throws' if kind == 'throw' else 'ends'))
                    if x[1] == 'C' and kind != 'throw':
                        bad('M02.twice', {'l': x[2]}, 'shares the %s of another object, and both will release it' % k[1])
        X.block = None
    classes(P, R, X, fields)
    bases(P, R, X)
    R.floor('M02.owner', 60)
    R.floor('M02.twice', 15)
    R.floor('M02.class', 5)
    R.floor('M02.allocator', 1)
    R.floor('M02.base', 8)


def allocator(X, fl, ps, l, kind='malloc'):
    X.block = ps[2]
    fl.old, fl.sizevar = (1, ps[2]), ps[3]
    return {(('v', 1, ps[2]), 'O', kind, l), (SIZE0, 'N')}


def replaced(fl, kind, node, s, bad):
    for x in s:
        if x[0][0] == 'v' and x[0][1:] == fl.old:
            if kind == 'throw' and x[1] == 'R' and len(x) < 4 and (node or {}).get('l') != x[2]:
                bad('M02.allocator', node or {}, 'throws after having released the block it was to replace')
            if kind != 'throw' and x[1] in 'OL':
                bad('M02.allocator', node or {}, 'returns without having released the block it was given')
    return {x for x in s if x[0][0] != 'v' or x[0][1:] != fl.old}


def lambdas(P, R, X, E, fid, d, F, bad):
    """allocators that are written as lambda expressions"""
    for n in walk(F['body']):
        ps = n.get('ps') or () if n['k'] == 'lambda' else ()
        if len(ps) != 4 or n.get('body') is None:
            continue
        ts = [F['locals'][p]['t'].strip() for p in ps]
        if ts[0] != 'int' or ts[2] != 'void *':
            continue
        R.ob('M02.allocator', '%s|lambda|%s' % (d['qn'], n.get('l')))
        G = dict(F, ps=ps, body=n['body'], inits=[])
        fl = Own(P, X, E, fid, d, G, bad, lambda rule, n: R.ob(rule if rule != 'M02.release' else 'M02.twice', '%s|%s' % (d['qn'], n.get('l'))))
        for kind, node, s in fl.run(G, frozenset(allocator(X, fl, ps, n.get('l'), 'hard'))):
            if s is not None:
                replaced(fl, kind, node, s, bad)
        X.block = None


def interesting(X, F):
    for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]):
        if n['k'] in ('new', 'call', 'mcall', 'ocall', 'del', 'dcall') and (X.acquires(n) or X.releases(n)):
            return True
        if n['k'] == 'mem' and plain(n.get('q') or '') in X.owners or n['k'] == 'dmem' and n['n'] in {q.rsplit('::', 1)[1] for q in X.owners}:
            return True
        if n['k'] == 'ctor' and SMARTS.match(n.get('t') or ''):
            return True
    return False


def classes(P, R, X, fields):
    for q in sorted(X.owners):
        c, r, f = fields[q]
        where = '%s:%d' % (r.get('file'), f.get('l') or r.get('line') or 0)
        R.ob('M02.class', q)
        if library(P, X, q):
            continue        # a library stays loaded: what it registered outlives the object that loaded it
        dt = [m for m in r.get('methods', ()) if P.D.get(m, {}).get('dtor')]
        if not frees(P, X, dt, q):
            R.bad('M02.class', q + '|dtor', where, 'the destructor of %s does not release %s' % (c, f['n']))
        for what, flag in (('copy', 'ucc'), ('copied by assignment', 'uca')):
            if not r.get(flag) and copied(P, c, what):
                R.bad('M02.class', q + '|' + flag, where, '%s is copied memberwise, and both copies release %s' % (c, f['n']))


def virtual(P, c, seen=()):
    r = P.R.get(c) or {}
    if any((P.D.get(m) or {}).get('dtor') and P.D[m].get('virt') for m in r.get('methods', ())):
        return True
    return any(virtual(P, b['t'], seen + (c,)) for b in r.get('bases', ()) if b['t'] not in seen)


def bases(P, R, X):
    derived = {}
    for c, r in P.R.items():
        for b in r.get('bases', ()):
            derived.setdefault(b['t'], set()).add(c)
    def look(t, fid, l):
        t = re.sub(r'\bconst\b', '', t or '').replace('*', '').strip()
        if t not in P.R or P.R[t].get('dep'):
            return
        R.ob('M02.base', '%s|%s|%s' % (t, P.D[fid]['qn'], l))
        if derived.get(t) and not virtual(P, t):
            R.bad('M02.base', '%s|%s' % (t, plain(P.D[fid]['qn'])), P.loc(fid, l or 0), '%s deletes a %s, which may be a %s: the destructor is not virtual' % (P.D[fid]['qn'], t, sorted(derived[t])[0]))
    for fid, d, F in X.fns:
        for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]):
            if n['k'] == 'del':
                look(n.get('t'), fid, n.get('l'))
        for v in F.get('locals', ()):
            m = re.match(r'^(?:const )?std::unique_ptr<([^<>,]*)>', v['t'])
            if m:
                look(m.group(1), fid, v.get('l'))


def library(P, X, q):
    ks = {X.acquires(x['c'][1]) if x['k'] == 'asg' else X.acquires(x) for x in X.stored.get(q, {}).values()}
    return bool(ks) and ks <= {'dlopen'}


def frees(P, X, dt, q):
    todo, seen = list(dt), set()
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        if any(k[0] == g for k in X.released.get(q, ())):
            return True
        B = P.body_of(g)
        if B is None:
            continue
        if any(k[0] == B['id'] for k in X.released.get(q, ())):
            return True
        for x in walk(B['body']):
            if x['k'] in ('mcall', 'call') and x.get('f'):
                todo.append(x['f'])
    return False


def copied(P, c, what):
    """somewhere, an object of the class is copied by the function the compiler writes"""
    for fid, d in P.D.items():
        if d.get('cls') == c and (d.get('implicit') or d.get('defaulted')) and len(d.get('ps', ())) == 1:
            t = d['ps'][0]['t']
            if t.rstrip().endswith('&') and not t.rstrip().endswith('&&') and (d.get('ctor') if what == 'copy' else d.get('op')):
                if fid in used(P):
                    return True
    return False


def used(P):
    u = getattr(P, '_m02used', None)
    if u is None:
        u = set()
        for fid, d, F in P.functions():
            for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]):
                if n.get('f'):
                    u.add(n['f'])
        P._m02used = u
    return u

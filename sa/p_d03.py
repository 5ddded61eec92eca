"""D03: copying, moving, cloning or assigning an object carries every data member of the class."""
from .program import walk, fnodes, children, AnalysisError
from .sem import strip

# Members a copy legitimately does not carry, each with the reason.
OWN = {
    'ts::Workbench::m_static_memory': 'each workbench allocates from memory of its own',
    'ts::Workbench::m_flow_memory': 'each workbench allocates from memory of its own',
    'ts::Workbench::m_dynamic_memory': 'each workbench allocates from memory of its own',
    'ts::Workbench::m_stack': 'operand stack of the running program',
    'ts::Workbench::m_env': 'call stack of the running program',
    'ts::Workbench::m_inputs': 'values of one run (the slots are created)',
    'ts::Workbench::m_outputs': 'values of one run (the slots are created)',
    'ts::Workbench::m_hooked_tensor': 'values of one run',
    'ts::Workbench::m_profiler': 'measurements of one run',
    'ts::Workbench::m_summary': 'text cache, recomputed on every request',
    'ts::Workbench::m_switch_controller': 'created by the constructor for the same device',
    'ts::Workbench::m_cast_op': 'created on first use',
}
NEVER = {
    # templates whose move operations no code instantiates
    'ts::Counter': 'Counter is only created with new and never moved',
}
OWN_TYPES = ('std::mutex', 'std::recursive_mutex', 'std::condition_variable', 'ts::rwmutex')
SIZES = {'size', 'empty', 'count', 'capacity', 'length', 'reserve', 'resize', 'operator bool', 'get_deleter'}


def bare(t):
    return (t or '').replace('const ', '').replace('&', '').replace('*', '').strip()


def pointee(t):
    t = bare(t)
    for w in ('std::shared_ptr<', 'std::unique_ptr<'):
        if t.startswith(w):
            t = t[len(w):-1].split(', std::default_delete')[0]
    return t


def same(a, b):
    return a == b or a.split('<')[0] == b.split('<')[0]


class Fn:
    """One operation that produces or fills an object of class T from a source object of class T."""

    def __init__(self, P, fid, F, T, src, dst, memo):
        self.P, self.fid, self.F, self.T, self.memo = P, fid, F, T, memo
        self.src, self.dst = src, set(dst)      # 'this' or ('v', i)
        self.carried = set()
        self.all = False
        self.guards, self.partial = [], {}
        self.taint = {}                         # local -> set of source members it was computed from
        self.locals_dst = set()

    # -- what an expression takes from the source
    def is_src(self, n):
        n = strip(n)
        if n is None:
            return False
        if n['k'] == 'this':
            return self.src == 'this'
        if n['k'] == 'var':
            return self.src == ('v', n['v'])
        if n['k'] == 'un' and n['op'] in ('*', '&'):
            return self.is_src(n['c'][0])
        if n['k'] == 'call' and n['c'] and (n.get('f') and self.P.D[n['f']]['qn'] in ('std::move', 'std::forward') or
                                            (n.get('fp') or {}).get('n') in ('move', 'forward')):
            return self.is_src(n['c'][0])
        if n['k'] in ('ctor', 'cast') and len(n.get('c') or ()) == 1:
            return self.is_src(n['c'][0])
        return False

    def is_dst(self, n):
        n = strip(n)
        if n is None:
            return False
        if n['k'] == 'this':
            return 'this' in self.dst
        if n['k'] == 'var':
            return ('v', n['v']) in self.dst
        if n['k'] == 'un' and n['op'] in ('*', '&'):
            return self.is_dst(n['c'][0])
        if n['k'] == 'mem' and n.get('c') and ('m', n['q']) in self.dst:
            return True
        if n['k'] in ('ocall', 'mcall') and n['c'] and (n.get('op') in ('->', '*') or n.get('f') and self.P.D[n['f']]['n'] in ('get', 'operator->', 'operator*')):
            return self.is_dst(n['c'][0])
        return False

    def src_members(self, n):
        """Source members whose content the expression takes (not merely their size)."""
        out = set()
        self._srcm(n, out)
        return out

    def _srcm(self, n, out):
        if n is None:
            return
        k = n['k']
        if k == 'mem' and n.get('c') and self.is_src(n['c'][0]) or k == 'mem' and not n.get('c') and self.src == 'this':
            out.add(n['q'].rsplit('::', 1)[1])
            return
        if k == 'var':
            out |= self.taint.get(n['v'], set())
            if self.src == ('v', n['v']):
                out.add('*')
            return
        if k == 'this' and self.src == 'this':
            return
        if k == 'mcall' and n.get('f'):
            d = self.P.D[n['f']]
            o = n['c'][0]
            if d['n'] in SIZES or d['n'] in ('begin', 'end') and False:
                for a in n['c'][1:]:
                    self._srcm(a, out)
                return
            if self.is_src(o):
                out |= self.reads(n['f'])
            else:
                self._srcm(o, out)
            for a in n['c'][1:]:
                self._srcm(a, out)
            return
        if k == 'un' and n['op'] == '*' and self.is_src(n['c'][0]):
            out.add('*')
            return
        if k == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||') or k == 'un' and n['op'] == '!':
            return
        if k == 'cond':
            for c in n['c'][1:]:
                self._srcm(c, out)
            return
        if k == 'lambda':
            for c in walk(n):
                if c is not n:
                    self._srcm1(c, out)
            return
        for c in children(n):
            self._srcm(c, out)

    def _srcm1(self, n, out):
        if n['k'] == 'mem' and n.get('c') and self.is_src(n['c'][0]):
            out.add(n['q'].rsplit('::', 1)[1])

    def reads(self, fid, depth=0):
        """Members of the object a const accessor returns content of."""
        F = self.P.body_of(fid)
        out = set()
        if F is None or depth > 3:
            return out
        for n in fnodes(F):
            if n['k'] == 'mem' and n.get('c') and strip(n['c'][0])['k'] == 'this':
                out.add(n['q'].rsplit('::', 1)[1])
            if n['k'] == 'mcall' and n.get('f') and n['c'] and strip(n['c'][0])['k'] == 'this':
                out |= self.reads(n['f'], depth + 1)
        return out

    # -- what a place belongs to
    def dst_member(self, n):
        """Destination member the place lies in."""
        n = strip(n)
        while n is not None:
            if n['k'] == 'mem':
                if not n.get('c'):
                    return n['q'].rsplit('::', 1)[1] if 'this' in self.dst else None
                if self.is_dst(n['c'][0]):
                    return n['q'].rsplit('::', 1)[1]
                n = strip(n['c'][0])
            elif n['k'] in ('sub', 'un', 'ocall', 'mcall') and n.get('c'):
                n = strip(n['c'][0])
            elif n['k'] == 'call' and n.get('f') and self.P.D[n['f']]['n'] in ('get', 'tie', 'ref', 'addressof') and n['c']:
                n = strip(n['c'][0])
            elif n['k'] == 'var':
                r = self.alias.get(n['v'])
                return r
            else:
                return None
        return None

    def carry(self, f, ms):
        if f is None:
            return
        if f in ms or '*' in ms:
            bad = [(i, b) for i, b, c in self.guards if not self.about(c, f)]
            if not bad:
                self.carried.add(f)
            else:
                self.partial.setdefault(f, set()).update(bad)
                if len(bad) == 1 and (bad[0][0], not bad[0][1]) in self.partial[f]:
                    self.carried.add(f)

    def about(self, c, f):
        """The condition only asks about the member itself, or whether the two objects are distinct."""
        for x in walk(c):
            if x['k'] == 'mem' and x['q'].rsplit('::', 1)[1] == f:
                return True
            if x['k'] == 'var' and f in self.taint.get(x['v'], ()):
                return True
        return any(x['k'] == 'this' for x in walk(c)) and any(x['k'] == 'un' and x['op'] == '&' for x in walk(c))

    def run(self):
        P, F = self.P, self.F
        self.alias = {}
        for i in F.get('inits', ()):
            e = i.get('init')
            if e is None:
                continue
            if i.get('fld') and 'this' in self.dst:
                self.carry(i['fld'].rsplit('::', 1)[-1], self.src_members(e))
            elif i.get('base') or i.get('deleg'):
                self.call(strip(e), deleg=True)
        for _ in range(3):
            before = (len(self.carried), self.all, sum(len(v) for v in self.taint.values()), len(self.dst))
            if F.get('body') is not None:
                self.scan(F['body'])
            if before == (len(self.carried), self.all, sum(len(v) for v in self.taint.values()), len(self.dst)):
                break
        return self

    def scan(self, b):
        for n in self.steps(b):
            self.step(n)

    def steps(self, n):
        """Preorder; self.guards holds the branches the current node lies under."""
        if n is None:
            return
        yield n
        if n['k'] == 'if':
            for part in ('init', 'var', 'cond'):
                yield from self.steps(n.get(part)) if isinstance(n.get(part), dict) else ()
            for part, b in (('then', True), ('else', False)):
                if n.get(part) is not None:
                    self.guards.append((id(n), b, n['cond']))
                    yield from self.steps(n[part])
                    self.guards.pop()
            return
        for c in children(n):
            yield from self.steps(c)

    def step(self, n):
        P = self.P
        if True:
            k = n['k']
            if k == 'vdecl' and n.get('init') is not None:
                t = n.get('t') or ''
                ms = self.src_members(n['init'])
                self.taint.setdefault(n['v'], set()).update(ms)
                if t.endswith('&') or t.endswith('*'):
                    f = self.dst_member(n['init'])
                    if f is not None:
                        self.alias[n['v']] = f
                if ('v', n['v']) in self.dst or same(pointee(t), self.T):
                    self.make(n['v'], n['init'])
            elif k == 'rfor':
                v = n.get('v')
                if v is not None:
                    self.taint.setdefault(v, set()).update(self.src_members(n['range']))
                    f = self.dst_member(n['range'])
                    if f is not None:
                        self.alias[v] = f
            elif k == 'asg' or k == 'ocall' and n['op'] in ('=', '+=', '<<') and len(n['c']) == 2:
                l, r = n['c']
                f = self.dst_member(l)
                ms = self.src_members(r)
                if f is not None:
                    x = strip(r)
                    if x is not None and x['k'] in ('call', 'new') and (x['k'] == 'new' or x.get('f') and P.D[x['f']]['n'].startswith('make_')):
                        # an equal object made anew from the source's settings
                        ms = ms | {y['q'].rsplit('::', 1)[1] for y in walk(x) if y['k'] == 'mem' and y.get('c') and self.is_src(y['c'][0])}
                    self.carry(f, ms)
                elif self.is_dst(l) and self.is_src(r):
                    self.all = True
                l = strip(l)
                if l is not None and l['k'] == 'var':
                    self.taint.setdefault(l['v'], set()).update(ms)
                    if ('v', l['v']) in self.dst:
                        self.make(l['v'], r)
            elif k in ('call', 'mcall', 'ocall', 'ctor', 'new'):
                self.call(n)
            elif k == 'ret' and n['c'] and n['c'][0] is not None and 'ret' in self.dst:
                self.result(strip(n['c'][0]))

    def make(self, v, e):
        """The destination object v is created by expression e."""
        self.dst.add(('v', v))
        self.result(strip(e))

    def result(self, e, depth=0):
        """The value of e becomes (part of) the destination object."""
        P = self.P
        if e is None or depth > 8:
            return
        if e['k'] == 'var' and e['v'] < len(self.F['locals']) and same(pointee(self.F['locals'][e['v']]['t']), self.T):
            if self.src != ('v', e['v']):
                self.dst.add(('v', e['v']))
            return
        if e['k'] in ('ctor', 'new', 'call', 'mcall', 'cond', 'init'):
            if e.get('f'):
                d = P.D[e['f']]
                if d.get('ctor') and same(d.get('cls') or '', self.T):
                    self.transfer(e['f'], e['c'])
                    if len(e['c']) == 1:
                        self.result(strip(e['c'][0]), depth + 1)
                    return
                if d['qn'] in ('std::make_shared', 'std::make_unique'):
                    self.made(e)
                    if len(e['c']) == 1:
                        self.result(strip(e['c'][0]), depth + 1)
                    return
                if e['k'] == 'mcall' and self.is_src(e['c'][0]) and 'clone' in d['n'] and e['f'] != self.fid:
                    self.all = True        # another clone of the same class, checked on its own
                if e['k'] == 'mcall' and d['n'] in ('clone', 'weak', 'strong', 'view', 'operator='):
                    self.all = self.all or self.is_src(e['c'][0])
            for c in children(e):
                self.result(strip(c), depth + 1)

    def made(self, e):
        """make_shared<T>(args): find the constructor by arity and parameter types."""
        best = None
        for fid in self.P.by_qn.get('%s::%s' % (self.T, self.T.rsplit('::', 1)[-1].split('<')[0]), ()):
            d = self.P.D[fid]
            if d.get('ctor') and len(d['ps']) >= len(e['c']):
                s = sum(1 for a, p in zip(e['c'], d['ps']) if True)
                if best is None or len(d['ps']) < len(self.P.D[best]['ps']):
                    best = fid
        if best:
            self.transfer(best, e['c'])

    def transfer(self, fid, args):
        """Members a constructor of T fills from its arguments."""
        P = self.P
        d = P.D[fid]
        if len(args) == 1 and (self.is_src(args[0])):
            self.all = True
            return
        F = P.body_of(fid)
        if F is None:
            return
        env = [self.src_members(a) for a in args]
        for f, idx in self.filled(fid, 0).items():
            for i in idx:
                if i < len(env):
                    self.carry(f, env[i])
                    if env[i] and f not in self.carried and len(env[i]) == 1:
                        pass

    def filled(self, fid, depth):
        """{member: parameter indexes} of a constructor."""
        P = self.P
        F = P.body_of(fid)
        out = {}
        if F is None or depth > 3:
            return out
        pos = {v: i for i, v in enumerate(F['ps'])}

        def params(e):
            return {pos[x['v']] for x in walk(e) if x['k'] == 'var' and x['v'] in pos}
        for i in F.get('inits', ()):
            e = i.get('init')
            if e is None:
                continue
            if i.get('fld'):
                out.setdefault(i['fld'].rsplit('::', 1)[-1], set()).update(params(e))
            elif (i.get('deleg') or i.get('base')):
                x = strip(e)
                if x is not None and x['k'] == 'ctor' and x.get('f'):
                    sub = self.filled(x['f'], depth + 1)
                    for f, idx in sub.items():
                        for j in idx:
                            if j < len(x['c']):
                                out.setdefault(f, set()).update(params(x['c'][j]))
        for n in walk(F['body']):
            if n['k'] == 'asg' or n['k'] == 'ocall' and n['op'] == '=' and len(n['c']) == 2:
                f = self.own_member(n['c'][0])
                if f is not None:
                    out.setdefault(f, set()).update(params(n['c'][1]))
            if n['k'] == 'mcall' and n.get('f') and not P.D[n['f']].get('const'):
                f = self.own_member(n['c'][0])
                if f is not None:
                    for a in n['c'][1:]:
                        out.setdefault(f, set()).update(params(a))
        return out

    def own_member(self, l):
        """The member of *this the place lies in."""
        l = strip(l)
        while l is not None and l.get('c'):
            if l['k'] == 'mem' and strip(l['c'][0])['k'] == 'this':
                return l['q'].rsplit('::', 1)[1]
            if l['k'] not in ('mem', 'sub', 'un', 'ocall', 'mcall'):
                return None
            l = strip(l['c'][0])
        return l['q'].rsplit('::', 1)[1] if l is not None and l['k'] == 'mem' else None

    def call(self, n, deleg=False):
        P = self.P
        if n is None or n['k'] not in ('call', 'mcall', 'ocall', 'ctor', 'new'):
            return
        d = P.D.get(n.get('f')) if n.get('f') else None
        args = n['c'][1:] if n['k'] == 'mcall' else n['c']
        if d is None:
            return
        if deleg:
            if len(args) == 1 and self.is_src(args[0]):
                if same(d.get('cls') or '', self.T):
                    self.all = True
                else:
                    self.carried |= {f for f, c in members(P, d.get('cls') or '')}
            else:
                self.transfer(n['f'], args)
            return
        if n['k'] == 'mcall':
            o = n['c'][0]
            if self.is_dst(o) and any(self.is_src(a) for a in args):
                c = d.get('cls') or ''
                if same(c, self.T) and d['n'] in ('operator=', 'swap'):
                    self.all = True
                elif not same(c, self.T) and d['n'] in ('operator=', 'swap'):
                    self.carried |= {f for f, _ in members(P, c)}
                else:
                    self.helper(n['f'], args)
                return
            f = self.dst_member(o)
            if f is not None and d['n'] not in SIZES and not d.get('const'):
                ms = set()
                for a in args:
                    ms |= self.src_members(a)
                self.carry(f, ms)
                return
            if self.is_dst(o) and not d.get('const'):
                # a setter of the destination
                for g, idx in self.filled(n['f'], 0).items():
                    for i in idx:
                        if i < len(args):
                            self.carry(g, self.src_members(args[i]))
                return
            x = strip(o)
            if self.src == 'this' and x is not None and x['k'] == 'this' and any(self.is_dst(a) for a in args):
                # a helper of the source that fills the destination
                self.helper(n['f'], args, thisrole='src')
                return
            b = self.base_var(o)
            if b is not None and not d.get('const'):
                ms = set()
                for a in args:
                    ms |= self.src_members(a)
                self.taint.setdefault(b, set()).update(ms)
            if d['n'] == 'swap' and args:
                f2 = self.dst_member(args[0])
                self.carry(f2, self.src_members(o))
            return
        if d['n'] in ('swap', 'exchange', 'copy', 'memcpy', 'transform', 'iter_swap', 'assign') and len(args) >= 2:
            ms = set()
            for a in args:
                ms |= self.src_members(a)
                for x in walk(a):
                    if x['k'] == 'mem' and x.get('c') and self.is_src(x['c'][0]):
                        ms.add(x['q'].rsplit('::', 1)[1])
            for a in args:
                for x in walk(a):
                    if x['k'] in ('mem', 'var'):
                        f = self.dst_member(x)
                        if f is not None:
                            self.carry(f, ms)
            return
        if n['k'] == 'ocall' and n['op'] == '=' and len(n['c']) == 2:
            return
        # a helper that gets both objects
        if any(self.is_dst(a) for a in args) and any(self.is_src(a) for a in args):
            self.helper(n['f'], args)
            return
        # a helper that gets a destination member and source members
        for i, a in enumerate(args):
            f = self.dst_member(a)
            if f is not None and i < len(d['ps']) and not d['ps'][i]['t'].startswith('const ') and d['ps'][i]['t'][-1:] in '&*':
                ms = set()
                for j, b in enumerate(args):
                    if j != i:
                        ms |= self.src_members(b)
                self.carry(f, ms)

    def base_var(self, n):
        n = strip(n)
        while n is not None and n['k'] in ('ocall', 'mcall', 'un', 'sub', 'mem') and n.get('c'):
            n = strip(n['c'][0])
        return n['v'] if n is not None and n['k'] == 'var' else None

    def helper(self, fid, args, thisrole=None):
        P = self.P
        F = P.body_of(fid)
        if F is None or fid in self.memo:
            return
        self.memo.add(fid)
        src, dst = thisrole and 'this' or None, set()
        for v, a in zip(F['ps'], args):
            if self.is_src(a):
                src = ('v', v)
            elif self.is_dst(a):
                dst.add(('v', v))
        if not dst:
            dst.add('this')
        if src is not None:
            s = Fn(P, fid, F, self.T, src, dst, self.memo).run()
            self.carried |= s.carried
            self.all = self.all or s.all
        self.memo.discard(fid)


def members(P, c):
    """[(member, class)] of a class and its bases."""
    out = []
    r = P.R.get(c)
    if r is None:
        cand = [k for k in P.R if k.split('<')[0] == c.split('<')[0]]
        r = P.R.get(cand[0]) if cand else None
    if r is None:
        return out
    for f in r['fields']:
        out.append((f['n'], (c, f['t'])))
    for b in r['bases']:
        out += members(P, b['t'])
    return out


def roles(P, fid, d, F):
    """(class, source, destinations) if the function copies a whole object."""
    cls = d.get('cls')
    if not cls or d.get('static'):
        return None
    if d.get('implicit') or d.get('defaulted') or F.get('body') is None:
        return None
    ps = [pointee(p['t']) for p in d['ps']]
    if d.get('ctor') in ('copy', 'move'):
        return cls, ('v', F['ps'][0]), {'this'}
    if d['n'] == 'operator=' and len(ps) == 1 and same(ps[0], cls):
        return cls, ('v', F['ps'][0]), {'this'}
    if d['n'] == 'swap' and len(ps) == 1 and same(ps[0], cls):
        return cls, ('v', F['ps'][0]), {'this'}
    if d.get('ctor') and len(ps) == 1 and ps[0].startswith(cls + '::') and d['ps'][0]['t'].endswith('&') and ps[0] in P.R:
        # built from the implementation record of another object
        ptr = [f for f in P.R.get(cls, {'fields': []})['fields'] if ps[0] in f['t'] and f['t'] != ps[0]]
        if ptr:
            return ps[0], ('v', F['ps'][0]), {('m', '%s::%s' % (cls, ptr[0]['n']))}
    if d.get('const') and d['n'].startswith('clone') and not d['ps'] and same(pointee(d.get('ret')), cls):
        return cls, 'this', {'ret'}
    return None


def check(P, R):
    R.rule('D03.member', 'every data member of the class is carried over from the source by each user-written copy, move, assignment, swap and clone')
    R.rule('D03.default', 'a class whose copy the compiler generates copies every member (nothing to examine beyond that no member has a dropping copy)')
    seen = set()
    n_ops = 0
    skipped = []
    order = sorted(P.functions(), key=lambda x: bool(x[1].get('dep')))      # instantiations before patterns
    for fid, d, F in order:
        if (F.get('file') or '').startswith('@'):
            continue
        r = roles(P, fid, d, F)
        if r is None:
            continue
        T, src, dst = r
        ms = members(P, T)
        if not ms:
            continue
        k = (F['file'], F['line'])
        if k in seen:
            continue
        seen.add(k)
        if d.get('dep') and T.split('<')[0] in NEVER:
            continue
        n_ops += 1
        fn = Fn(P, fid, F, T, src, dst, {fid}).run()
        # an operation that always fails carries nothing
        name = d['qn'].split('<')[0]
        kind = 'operator=' if d['n'] == 'operator=' else d['n'] if not d.get('ctor') else '%s constructor' % d['ctor'] if d['ctor'] in ('copy', 'move') else 'constructor'
        for f, (c, t) in ms:
            q = '%s::%s' % (c.split('<')[0], f)
            if any(x in t for x in OWN_TYPES) and 'shared_ptr' not in t:
                continue
            R.ob('D03.member', '%s %s carries %s' % (P.loc(fid), name, f))
            if fn.all or f in fn.carried:
                continue
            if q in OWN:
                continue
            R.bad('D03.member', '%s(%s) %s' % (name, ','.join(pointee(p['t']).split('<')[0] for p in d['ps']), f), P.loc(fid),
                  'the %s of %s %s %s' % (kind, T, 'carries only under an unrelated condition' if f in fn.partial else 'does not carry', q))
    for c, r in P.R.items():
        if not c.startswith('ts::'):
            continue
        if any(d.get('ctor') == 'copy' and (d.get('implicit') or d.get('defaulted')) for m in P.by_qn.get('%s::%s' % (c, c.rsplit('::', 1)[-1].split('<')[0]), ())
               for d in [P.D[m]]):
            R.ob('D03.default', c)
    R.extra['copy_operations'] = n_ops
    R.extra['members_with_a_reason_not_to_be_carried'] = OWN
    R.floor('D03.member', 40)
    R.assume('a member counts as carried if it is filled from the same member of the source; deep equality of what the member points to is not decided')

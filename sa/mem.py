"""Whose memory is written: an interprocedural alias and write-effect analysis for tensor memory.

Every expression that can lead to tensor memory (tensors, pointers into them, containers of them, stacks, nodes) has a set of
origins; an empty set is memory made here. Symbols:
  ('p', i)    what the caller reaches through parameter i
  ('fld', q)  what a member of the object reaches
  ('get',)    a parameter value held by an operator or graph node (shared with the model it came from)
  ('gv', q)   a global
Writes are stores through pointers and references, stores through accessors, and calls whose callee writes. Callee effects are
summaries of their bodies, joined over the possible targets of virtual calls; functions without a body write through their
pointer-to-non-const parameters.
"""
import re
from .program import walk, children, AnalysisError
from .sem import strip, targets
from .flow import Flow

TENSOR, STACK, BUBBLE = 'ts::Tensor', 'ts::Stack', 'ts::Bubble'
SCAL = r'(unsigned |signed |long |short )*(bool|char|int|short|long|float|double|unsigned|size_t|int8_t|uint8_t|int16_t|uint16_t|int32_t|uint32_t|int64_t|uint64_t|std::(size_t|u?int(8|16|32|64)_t)|ts::DTYPE|std::(__cxx11::)?(basic_)?string(<.*?>)?)'
PLAIN = re.compile(r'^(' + SCAL + r'|void|std::nullptr_t|ts::(Shape|HypeShape|MemoryDevice|ComputingDevice|Device|TensorPrototype|Tensor::Prototype|DeviceType|Padding2D|Stride2D|Size2D|KSize2D|Dilation2D|Padding|Stride|Dilation|Size)|'
                   r'std::(vector|array|valarray|initializer_list|set|unordered_set|pair|map|unordered_map|function|deque|stack|queue|list|tuple)<[^T<]*(std::allocator<[^T]*)?>)$')
READERS = {'max_element', 'min_element', 'accumulate', 'find', 'find_if', 'count', 'count_if', 'equal', 'lower_bound', 'upper_bound', 'distance', 'inner_product',
           'any_of', 'all_of', 'none_of', 'for_each', 'make_pair', 'max', 'min', 'abs', 'binary_search', 'lexicographical_compare', 'minmax_element', 'next', 'prev',
           'advance', 'begin', 'end', 'addressof', 'forward', 'move', 'make_tuple', 'tie', 'ref', 'cref', 'get'}
STD_WRITES = {'copy': [2], 'copy_n': [2], 'copy_backward': [2], 'copy_if': [2], 'transform': [-2], 'fill': [0], 'fill_n': [0], 'swap': [0, 1], 'iota': [0], 'sort': [0],
              'nth_element': [0], 'partial_sort': [0], 'stable_sort': [0], 'reverse': [0], 'rotate': [0], 'memcpy': [0], 'memmove': [0], 'memset': [0], 'replace': [0],
              'replace_if': [0], 'generate': [0], 'generate_n': [0], 'partial_sum': [2], 'make_heap': [0], 'push_heap': [0], 'pop_heap': [0], 'sort_heap': [0],
              'random_shuffle': [0], 'shuffle': [0], 'unique': [0], 'swap_ranges': [0, 2], 'partial_sort_copy': [2], 'merge': [4], 'remove': [0], 'remove_if': [0],
              'uninitialized_copy': [2], 'uninitialized_fill': [0]}
STORE = {'push_back', 'emplace_back', 'push', 'insert', 'emplace', 'assign', 'push_front', 'emplace_front', 'resize', 'operator=', 'swap', 'reset'}
E = frozenset()


def bare(t):
    t = (t or '').strip()
    while True:
        u = re.sub(r'(\s*[&]+|\s*const)$', '', t).strip()
        u = re.sub(r'^(const|volatile|class|struct|enum)\s+', '', u).strip()
        if u == t:
            return t
        t = u


def pointee(t):
    t = bare(t)
    return bare(t[:-1]) if t.endswith('*') else None


_plain = {}


def carries(t):
    """Values of this type can lead to tensor memory (copying such a value does not copy the memory)."""
    r = _plain.get(t)
    if r is None:
        b = bare(t)
        if b.endswith('*') or b.endswith('[]'):
            r = True
        else:
            r = not PLAIN.match(b) and not vec_of_plain(b)
        _plain[t] = r
    return r


def vec_of_plain(b):
    m = re.match(r'^std::(vector|array|valarray|initializer_list|set|unordered_set|deque|list)<(.*)>$', b)
    if not m:
        return False
    a, d = '', 0
    for ch in m.group(2):
        if ch == ',' and d == 0:
            break
        d += ch == '<'
        d -= ch == '>'
        a += ch
    a = a.strip()
    return not a.endswith('*') and not carries(a)


def cond_key(n, ps):
    """(canonical text, outcome meant) of a condition made of parameters, const member calls on them and constants; (None, _) otherwise."""
    n = strip(n)
    if n is None:
        return None, True
    k = n['k']
    if k == 'un' and n['op'] == '!':
        r, t = cond_key(n['c'][0], ps)
        return r, not t
    if k in ('bin', 'ocall') and n['op'] in ('==', '!=') and len(n.get('c', ())) == 2:
        a = term(n['c'][0], ps)
        b = term(n['c'][1], ps)
        if a and b and '{' in a + b:
            return '%s == %s' % tuple(sorted((a, b))), n['op'] == '=='
        return None, True
    r = term(n, ps)
    return (r if r and '{' in r else None), True


def term(n, ps):
    n = strip(n)
    if n is None:
        return None
    k = n['k']
    if k == 'var':
        return '{%s}' % ps[n['v']] if n['v'] in ps else None
    if k == 'lit':
        return repr(n.get('v', n.get('cv')))
    if k == 'en':
        return n['q']
    if k == 'mcall' and n.get('c'):
        a = [term(c, ps) for c in n['c']]
        return '%s.%s(%s)' % (a[0], n['f'].split('(')[0], ','.join(a[1:])) if all(a) else None
    return None


class Summary:
    __slots__ = ('writes', 'ret', 'stores', 'key', 'facts', 'uses', 'done')

    def __init__(self):
        self.writes = {}      # symbol -> (fid, line, callee summary symbol or None)
        self.ret = E
        self.uses = {}
        self.done = False
        self.stores = {}      # param index or ('fld', q) -> origins put into it

    def size(self):
        return len(self.writes), len(self.ret), sum(len(o) for o in self.stores.values())


class Mem:
    """The program-wide analysis."""
    carries = staticmethod(carries)

    def __init__(self, P):
        self.P = P
        self.sums = {}
        self.busy = []          # summaries being computed
        self.order = []         # those to be brought up to date, callees first
        self.fields = {}
        self.keep = {}
        self.walker = Walk

    def summary(self, fid, facts=E):
        """Effects of a function, given facts about its parameters its caller established."""
        s = self._summary(fid, facts)
        if s is not None and self.busy:
            u = self.busy[-1].uses
            if id(s) not in u:
                u[id(s)] = (s, s.size())
        return s

    def _summary(self, fid, facts):
        s = self.sums.get((fid, facts) if facts else fid)
        if s is not None:
            return s
        P = self.P
        B = P.body_of(fid)
        if B is None:
            return None
        bid = B['id']
        if facts:
            facts = facts & self.tested(bid)
        key = (bid, facts) if facts else bid
        s = self.sums.get(key)
        if s is not None:
            if not facts:
                self.sums[fid] = s
            return s
        top = not self.busy
        if len(self.busy) > 600:
            raise AnalysisError('the call graph below %s is too deep' % P.D[fid]['qn'])
        s = self.sums[key] = Summary()
        s.key, s.facts = bid, facts
        self.compute(s)
        if top:
            # until no function uses a summary that has grown since
            change = True
            while change:
                change = False
                for x in list(self.order):
                    if any(u.size() != z for u, z in x.uses.values()):
                        self.compute(x)
                        change = True
            self.order = []
        if fid != bid and not facts:
            self.sums[fid] = s
        return s

    def compute(self, s):
        B = self.P.body_of(s.key)
        self.busy.append(s)
        s.uses = {}
        flags = self.flags(B)
        for bits in range(1 << len(flags)):
            w = self.walker(self, s.key, self.P.D[s.key], B, s)
            w.given = {v: bool(bits >> i & 1) for i, v in enumerate(flags)}
            w.facts0 = s.facts
            w.go()
        self.busy.pop()
        if not s.done:
            s.done = True
            self.order.append(s)

    def conds(self, F):
        """Leaf conditions of a body's if statements."""
        out = []

        def leaf(c):
            c = strip(c)
            if c is None:
                return
            if c['k'] == 'bin' and c['op'] in ('&&', '||'):
                leaf(c['c'][0])
                leaf(c['c'][1])
            elif c['k'] == 'un' and c['op'] == '!':
                leaf(c['c'][0])
            else:
                out.append(c)
        for n in walk(F['body']):
            if n['k'] in ('if', 'while', 'for', 'cond') and n.get('cond') is not None:
                leaf(n['cond'])
            elif n['k'] == 'cond' and n.get('c'):
                leaf(n['c'][0])
        return out

    def tested(self, fid):
        """The conditions on parameters a function tests, with either outcome."""
        r = self.keep.get(fid)
        if r is None:
            F = self.P.body_of(fid)
            ps = {v: i for i, v in enumerate(F['ps'])}
            r = set()
            for c in self.conds(F):
                k, _ = cond_key(c, ps)
                if k:
                    r.add((k, True))
                    r.add((k, False))
            r = self.keep[fid] = frozenset(r)
        return r

    def flags(self, F):
        """Boolean locals set once, at their declaration, and tested more than once: the body is analysed for each value of theirs."""
        cnt = {}
        for c in self.conds(F):
            if c['k'] == 'var' and bare(F['locals'][c['v']]['t']) == 'bool' and not F['locals'][c['v']].get('p'):
                cnt[c['v']] = cnt.get(c['v'], 0) + 1
        vs = [v for v, k in cnt.items() if k > 1]
        if not vs:
            return []
        for n in walk(F['body']):
            if n['k'] in ('for', 'while', 'do', 'rfor', 'lambda'):
                for m in walk(n):
                    if m['k'] == 'vdecl' and m['v'] in vs:
                        vs.remove(m['v'])       # another one in every round
        for n in walk(F['body']):
            l = None
            if n['k'] == 'asg':
                l = strip(n['c'][0])
            elif n['k'] == 'un' and n['op'] in ('&', '++', '--', 'post++', 'post--'):
                l = strip(n['c'][0])
            if l is not None and l['k'] == 'var' and l['v'] in vs:
                vs.remove(l['v'])
            if n['k'] in ('call', 'mcall', 'ocall', 'ctor') and n.get('f'):
                d = self.P.D.get(n['f']) or {}
                a = n.get('c', ())
                if n['k'] == 'mcall':
                    a = a[1:]
                for p, x in zip(d.get('ps') or (), a):
                    x = strip(x)
                    if x is not None and x['k'] == 'var' and x['v'] in vs and p['t'].endswith('&') and not p['t'].startswith('const'):
                        vs.remove(x['v'])
        return vs[:3]

    def chain(self, fid, sym, n=0):
        """A readable path from fid to the store behind a write of sym."""
        s = self.sums.get(fid)
        if s is None or sym not in s.writes or n > 12:
            return []
        f, line, nxt = s.writes[sym]
        out = ['%s (%s)' % (self.P.D[fid]['qn'], self.P.loc(fid, line))]
        if nxt:
            for t, sy in nxt:
                r = self.chain(t, sy, n + 1)
                if r:
                    return out + r
        return out


class Walk(Flow):
    def __init__(self, M, fid, d, F, s):
        super().__init__(M.P)
        self.M, self.fid, self.d, self.F, self.s = M, fid, d, F, s
        self.L = F['locals']
        self.pi = {v: i for i, v in enumerate(F['ps'])}
        self.refroot = {}
        self.rets = set()
        self.given = {}
        self.facts0 = E
        self.fixed = None

    def go(self):
        self.run(self.F, {'facts': self.facts0})
        self.s.ret |= frozenset(self.rets)

    def steady(self):
        """Parameters that keep their value: constant references, and values no statement changes."""
        if self.fixed is None:
            self.fixed = {}
            ch = set()
            for n in walk(self.F['body']):
                l = None
                if n['k'] == 'asg' or n['k'] == 'ocall' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    l = strip(n['c'][0])
                elif n['k'] == 'un' and n['op'] not in ('!', '-', '~', '*', '+'):
                    l = strip(n['c'][0])
                if l is not None and l['k'] == 'var':
                    ch.add(l['v'])
            for n in walk(self.F['body']):
                # handed out for writing, or a changing member is called
                if n['k'] in ('call', 'mcall', 'ocall', 'ctor') and n.get('f'):
                    d = self.P.D.get(n['f']) or {}
                    obj, args = self.args_of(n, d)
                    o = strip(obj) if obj is not None else None
                    if o is not None and o['k'] == 'var' and not d.get('const'):
                        ch.add(o['v'])
                    for p, x in zip(d.get('ps') or (), args):
                        x = strip(x)
                        if x is not None and x['k'] == 'var' and p['t'].endswith(('&', '*')) and not p['t'].startswith('const'):
                            ch.add(x['v'])
            for v in range(len(self.L)):
                t = self.L[v]['t']
                i = self.pi.get(v)
                if i is None:
                    if v not in ch and not t.endswith(('&', '*')):
                        self.fixed[v] = 'v%d' % v
                    continue
                if v not in ch and (t.startswith('const ') and t.endswith('&') or not t.endswith(('&', '*')) and not self.M.carries(t)):
                    self.fixed[v] = i
        return self.fixed

    def refine(self, c, truth, st):
        c = strip(c)
        if c is None:
            return st
        if c['k'] == 'var' and c['v'] in self.given:
            return st if self.given[c['v']] == truth else None
        k, pos = cond_key(c, self.steady())
        if k is None:
            return st
        truth = truth == pos
        fs = st.get('facts', E)
        if (k, not truth) in fs:
            return None
        if (k, truth) in fs:
            return st
        st = dict(st)
        st['facts'] = fs | {(k, truth)}
        return st

    def carry(self, n, d, st):
        """Facts that hold about the parameters of a callee."""
        fs = st.get('facts', E)
        if not fs:
            return E
        _, args = self.args_of(n, d)
        m, consts = {}, {}
        ps = self.steady()
        for j, a in enumerate(args):
            a = strip(a)
            if a is None:
                continue
            if a['k'] == 'var' and a['v'] in ps:
                m.setdefault('{%s}' % ps[a['v']], '{%d}' % j)
            else:
                t = term(a, {})
                if t:
                    consts.setdefault(t, '{%d}' % j)
        out = set()
        for k, t in fs:
            sides = []
            for x in k.split(' == ', 1):
                if x in consts:
                    x = consts[x]
                else:
                    x = re.sub(r'\{\w+\}', lambda y: m.get(y.group(0), '{?}'), x)
                sides.append(x)
            if all('{?}' not in x for x in sides):
                out.add((' == '.join(sorted(sides)), t))
        return frozenset(out)

    # -- state
    def join(self, a, b):
        if a is b:
            return a
        r = dict(a)
        r['facts'] = a.get('facts', E) & b.get('facts', E)
        for k, v in b.items():
            if k == 'facts':
                continue
            if k in r:
                if r[k] != v:
                    r[k] = r[k] | v
            else:
                r[k] = v | self.default(k)
        for k in a:
            if k not in b and k != 'facts':
                r[k] = r[k] | self.default(k)
        return r

    def default(self, v):
        i = self.pi.get(v)
        if i is not None:
            return frozenset([('p', i)]) if self.M.carries(self.L[v]['t']) else (frozenset([('p', i)]) if self.L[v]['t'].endswith('&') and 'const' not in self.L[v]['t'].split('&')[0] else E)
        return E

    def get(self, st, v):
        r = st.get(v)
        return self.default(v) if r is None else r

    def put(self, st, v, o, weak=False):
        old = self.get(st, v)
        new = old | o if weak else o
        if st.get(v) == new:
            return st
        r = dict(st)
        r[v] = new
        return r

    # -- origins
    def org(self, n, st):
        n = strip(n)
        if n is None:
            return E
        k = n['k']
        if k == 'var':
            return self.get(st, n['v'])
        if k in ('lit', 'zero', 'en', 'sizeof', 'fn', 'lambda', 'throw', 'this'):
            return E
        t = n.get('t')
        if k == 'gv':
            return frozenset([('gv', n['q'])]) if self.M.carries(t) and not n['q'].startswith('ts::name') else E
        if k == 'mem':
            b = strip(n['c'][0]) if n.get('c') else None
            if t is not None and not self.M.carries(t) and not self.lv(t):
                return E
            if t is not None and bare(t).endswith(']') and not self.M.carries(bare(t)[:bare(t).rindex('[')]):
                return self.lvalue_base(n, st)      # an array inside the object
            if b is None or b['k'] == 'this':
                return frozenset([('fld', n['q'])])
            return self.org(b, st)
        if k == 'cond':
            return self.org(n['c'][1], st) | self.org(n['c'][2], st)
        if k == 'bin':
            if n['op'] in ('+', '-') and t is not None and bare(t).endswith('*'):
                return self.org(n['c'][0], st) | self.org(n['c'][1], st)
            if n['op'] == ',':
                return self.org(n['c'][1], st)
            return E
        if k == 'un':
            if n['op'] in ('*', '&', '++', '--', 'post++', 'post--') or n['op'].endswith(('++', '--')):
                return self.org(n['c'][0], st)
            return E
        if k == 'sub':
            return self.org(n['c'][0], st)
        if k == 'asg':
            return self.org(n['c'][1], st) if n['op'] == '=' else self.org(n['c'][0], st)
        if k in ('cast', 'icast', 'upcast'):
            return self.org(n['c'][0], st) if n.get('c') else E
        if k in ('init',):
            o = E
            for c in n.get('c', ()):
                o |= self.org(c, st)
            return o
        if k == 'new':
            o = E
            for c in n.get('c', ()):
                o |= self.org(c, st)
            return o
        if k in ('call', 'mcall', 'ocall', 'ctor'):
            return self.call_org(n, st)
        return E

    def lv(self, t):
        return False

    def call_org(self, n, st):
        P = self.P
        f = n.get('f')
        d = P.D.get(f) if f else None
        c = n.get('c', ())
        t = n.get('t') or (d or {}).get('ret') or ''
        if n['k'] == 'ctor':
            if not self.M.carries(t):
                return E
            if bare(t) == TENSOR:
                o = E
                for a in c:
                    at = self.typ(a)
                    if re.search(r'Tensor\b|Memory\b|TensorMemory', at) and not re.search(r'MemoryController|MemoryDevice|Prototype', at):
                        o |= self.org(a, st)
                return o
            o = E
            for a in c:
                if self.M.carries(self.typ(a)):
                    o |= self.org(a, st)
            return o
        ret = (d or {}).get('ret') or t
        if n['k'] == 'ocall':
            if n['op'] in ('<<', '>>'):
                return self.org(c[0], st) if c else E
            if n['op'] == '()':
                o = E
                return o
            if d is not None and d.get('cls') and P.body_of(f) is not None and not (d.get('cls') or '').startswith(('ts::Stack', 'ts::Tensor', 'std::')):
                return self.by_summary(n, d, st)
            o = E
            for a in c[:1] if n['op'] in ('[]', '->', '*', '++', '--') else c:
                o |= self.org(a, st)
            return o if self.M.carries(ret) or ret.rstrip().endswith('&') or n['op'] in ('->', '*', '[]') else E
        if d is None:
            o = E
            for a in c:
                o |= self.org(a, st)
            return o
        cls = d.get('cls') or ''
        name = d['n']
        o = self.model_org(n, d, c, cls, name, ret, st)
        if o is not None:
            return o
        if not self.M.carries(ret) and not (ret.rstrip().endswith('&') and not ret.startswith('const')):
            return E
        if P.body_of(f) is not None:
            return self.by_summary(n, d, st)
        if n['k'] == 'mcall' and cls.startswith('std::') and c:
            return self.org(c[0], st)       # arguments are keys and positions
        o = E
        for a in c:
            if self.M.carries(self.typ(a)):
                o |= self.org(a, st)
        return o

    def model_org(self, n, d, c, cls, name, ret, st):
        """What calls of the classes modelled here return (None: not modelled)."""
        if cls == STACK:
            if name == 'push':
                return self.org(c[1], st) if len(c) > 1 and bare(self.typ(c[1])) == TENSOR else E
            if name in ('make', 'clone_push', 'clone'):
                return E
            return self.org(c[0], st) if c and (self.M.carries(ret)) else E
        if cls == TENSOR:
            if name.startswith('clone'):
                return E
            if d.get('static'):
                o = E
                for a in c:
                    o |= self.org(a, st)
                return o
            if name in ('data', 'sync_data', 'weak_memory') or bare(ret) == TENSOR or self.M.carries(ret) and name not in ('device', 'proto', 'sizes', 'hype_shape'):
                return self.org(c[0], st) if c else E
            return E
        if cls == BUBBLE and name == 'get':
            b = strip(c[0])
            while b is not None and b['k'] in ('upcast', 'cast') and b.get('c'):
                b = strip(b['c'][0])
            return frozenset([('get',)]) if b is None or b['k'] == 'this' else frozenset([('get',)]) | self.org(c[0], st)
        return None

    def typ(self, n):
        n = strip(n)
        if n is None:
            return ''
        if n['k'] == 'var':
            return self.L[n['v']]['t']
        return n.get('t') or (self.P.D.get(n.get('f'), {}).get('ret') if n.get('f') else '') or ''

    def args_of(self, n, d):
        """(object, argument list) of a call."""
        c = n.get('c', ())
        if n['k'] == 'mcall' or n['k'] == 'ocall' and n.get('m'):
            return (c[0] if c else None), c[1:]
        return None, c

    def subst(self, sym, n, obj, args, st):
        if sym[0] == 'p':
            return self.org(args[sym[1]], st) if sym[1] < len(args) else E
        if sym[0] == 'fld':
            b = strip(obj) if obj is not None else None
            if obj is None or b is not None and b['k'] == 'this':
                return frozenset([sym])
            return self.org(obj, st)
        return frozenset([sym])

    def subst_write(self, sym, n, obj, args, st):
        """As subst, but a write through a member of an object stays one: ('fld', q) of an object at hand, ('in', q, i) of one that
        parameter i leads to. Objects made here hold nothing of anyone's unless it was put there."""
        if sym[0] == 'in':
            o = self.org(args[sym[2]], st) if sym[2] < len(args) else E
        elif sym[0] == 'fld':
            b = strip(obj) if obj is not None else None
            if obj is None or b is not None and b['k'] == 'this':
                return frozenset([sym])
            o = self.org(obj, st)
        else:
            return self.subst(sym, n, obj, args, st)
        return frozenset(('in', sym[1], r[1]) if r[0] == 'p' else ('fld', sym[1]) for r in o)

    def callees(self, n):
        out = []
        seen = set()
        for B in targets(self.P, n):
            if B['id'] not in seen:
                seen.add(B['id'])
                out.append(B['id'])
        return out

    def by_summary(self, n, d, st):
        obj, args = self.args_of(n, d)
        o = E
        for f in self.callees(n):
            s = self.M.summary(f, self.carry(n, d, st))
            if s is None:
                continue
            for sym in s.ret:
                o |= self.subst(sym, n, obj, args, st)
        return o

    # -- writes
    def write(self, syms, n, nxt=None):
        for s in syms:
            self.s.writes.setdefault(s, (self.fid, n.get('l'), nxt))

    def keep(self, q, o):
        """Member q of some object is made to lead to o."""
        self.s.stores[('fld', q)] = self.s.stores.get(('fld', q), E) | o
        self.M.fields.setdefault(q, set()).update(o)

    def keep_all(self, cls, o):
        for f in (self.P.R.get(cls) or {}).get('fields', ()):
            if self.M.carries(f['t']):
                self.keep('%s::%s' % (cls, f['n']), o)

    def store_into(self, n, o, st):
        """A carrying value is put into the container or object n designates."""
        if not o:
            return st
        n = strip(n)
        while n is not None:
            if n['k'] == 'var':
                v = n['v']
                i = self.pi.get(v)
                if i is not None and self.L[v]['t'].rstrip().endswith(('&', '*')):
                    self.s.stores[i] = self.s.stores.get(i, E) | o
                st = self.put(st, v, o, weak=True)
                r = self.refroot.get(v)
                if r is not None:
                    return self.store_into(r, o, st)
                return st
            if n['k'] == 'mem':
                b = strip(n['c'][0]) if n.get('c') else None
                if b is None or b['k'] == 'this':
                    self.keep(n['q'], o)
                    return st
                self.keep(n['q'], o)
                n = b
                continue
            if n['k'] in ('sub', 'un', 'ocall', 'mcall', 'cast', 'icast', 'upcast') and n.get('c'):
                n = strip(n['c'][0])
                continue
            return st
        return st

    def assign(self, lhs, rhs, n, st, plain=True):
        l = strip(lhs)
        if l is None:
            return st
        if l['k'] == 'var':
            v = l['v']
            t = self.L[v]['t']
            if t.rstrip().endswith('&'):
                if self.M.carries(bare(t)) and not bare(t).endswith('*') or bare(t).endswith('*'):
                    return self.store_into(l, self.org(rhs, st), st) if rhs is not None else st
                self.write(self.get(st, v), n)
                return st
            if plain and rhs is not None and self.M.carries(t):
                st = self.put(st, v, self.org(rhs, st))
            return st
        if l['k'] == 'mem':
            b = strip(l['c'][0]) if l.get('c') else None
            if rhs is not None and self.M.carries(l.get('t')):
                return self.store_into(l, self.org(rhs, st), st)
            if b is not None and b['k'] != 'this':
                # a member of something reached through a pointer into memory
                o = self.member_base(l, st)
                if o:
                    self.write(o, n)
            return st
        t = l.get('t') or ''
        if self.M.carries(t) and rhs is not None and (bare(t) in (TENSOR,) or bare(t).startswith('std::') or bare(t).startswith('ts::')) and not pointee(t):
            return self.store_into(l, self.org(rhs, st), st)
        if pointee(t) is not None and rhs is not None:
            return self.store_into(l, self.org(rhs, st), st)
        self.write(self.lvalue_base(l, st), n)
        return st

    def member_base(self, l, st):
        """lvalue_base, told apart from what the object leads to: a member of an object with a class of its own making is no part of a value held by the object."""
        o = self.lvalue_base(l, st)
        if l is not None and l['k'] == 'mem' and l.get('c') and not self.plain_record(l['c'][0]):
            o = frozenset(x for x in o if x != ('get',))
        return o

    def plain_record(self, b):
        """Whether what b designates can lie in a block of memory: no object with a class of its own making."""
        t = bare(self.typ(b))
        r = self.P.R.get(t) or self.P.R.get(t.rstrip(' *'))
        return r is not None and r.get('pod') or r is None and not t.startswith('std::')

    def lvalue_base(self, l, st):
        """Origins of the memory an lvalue lies in (empty: a local object)."""
        l = strip(l)
        if l is None:
            return E
        k = l['k']
        if k == 'var':
            t = self.L[l['v']]['t']
            return self.get(st, l['v']) if t.rstrip().endswith('&') else E
        if k == 'sub':
            b = strip(l['c'][0])
            return self.org(b, st)
        if k == 'un' and l['op'] == '*':
            return self.org(l['c'][0], st)
        if k == 'un':
            return self.lvalue_base(l['c'][0], st)
        if k == 'mem':
            b = strip(l['c'][0]) if l.get('c') else None
            if b is None or b['k'] == 'this':
                return E
            if l.get('arrow'):
                return self.org(b, st)
            return self.lvalue_base(b, st)
        if k in ('ocall', 'mcall', 'call'):
            return self.call_org(l, st)
        if k == 'asg':
            return self.lvalue_base(l['c'][0], st)
        if k == 'cond':
            return self.lvalue_base(l['c'][1], st) | self.lvalue_base(l['c'][2], st)
        return E

    def on(self, n, st):
        k = n['k']
        if k == 'asg':
            return self.assign(n['c'][0], n['c'][1] if n['op'] == '=' else None, n, st, n['op'] == '=')
        if k == 'un' and n['op'].endswith(('++', '--')) or k == 'un' and n['op'].startswith(('++', '--')):
            l = strip(n['c'][0])
            if l is not None and l['k'] != 'var':
                if not pointee(l.get('t')):
                    self.write(self.lvalue_base(l, st), n)
            elif l is not None and self.L[l['v']]['t'].rstrip().endswith('&') and not pointee(self.L[l['v']]['t']) and not self.M.carries(self.L[l['v']]['t']):
                self.write(self.get(st, l['v']), n)
            return st
        if k == 'ocall' and n['op'] in ('=', '+=', '-=', '*=', '/=', '|=', '&=') and len(n.get('c', ())) == 2:
            t = self.typ(n['c'][0])
            if not self.M.carries(t) or n['op'] != '=':
                if not self.M.carries(t):
                    # a value type (half precision number, shape): the object itself is overwritten
                    self.write(self.member_base(strip(n['c'][0]), st), n)
                    return st
            if n['op'] == '=' and self.M.carries(t):
                l = strip(n['c'][0])
                if l is not None and l['k'] == 'var' and not self.L[l['v']]['t'].rstrip().endswith('&'):
                    return self.put(st, l['v'], self.org(n['c'][1], st))
                if self.small(t):
                    self.write(self.lvalue_base(l, st), n)
                    return st
                return self.store_into(l, self.org(n['c'][1], st), st)
        if k in ('call', 'mcall', 'ocall', 'ctor'):
            return self.effects(n, st)
        if k == 'init':
            r = self.P.R.get(bare(n.get('t')))
            for f, c in zip((r or {}).get('fields', ()), n.get('c', ())):
                if self.M.carries(f['t']):
                    o = self.org(c, st)
                    if o:
                        self.keep('%s::%s' % (bare(n['t']), f['n']), o)
            return st
        if k == 'lambda':
            ex = self.run_body(self.F, n['body'], st)
            for kind, nn, s2 in ex:
                if s2 is not None:
                    st = self.join(st, s2)
            return st
        return st

    def small(self, t):
        """Number-like classes stored in tensors."""
        return bare(t) in ('ts::Float16', 'ts::dtype::float16', 'ts::float16', 'half') or bool(re.match(r'^(std::complex<|ts::.*float16)', bare(t)))

    def effects(self, n, st):
        P = self.P
        f = n.get('f')
        d = P.D.get(f) if f else None
        c = n.get('c', ())
        if d is None:
            if n['k'] == 'ocall' and n['op'] == '()' and c:
                self.fn_object(n, c, st)
            return st
        cls = d.get('cls') or ''
        name = d['n']
        if n['k'] == 'ocall' and n['op'] == '()' and cls.startswith('std::function<'):
            self.fn_object(n, c, st)
            return st
        s2 = self.model_effect(n, d, c, cls, name, st)
        if s2 is not None:
            return s2
        return self.call_effects(n, d, c, name, st)

    def model_effect(self, n, d, c, cls, name, st):
        """Effects of calls of the classes modelled here (None: not modelled)."""
        if cls == STACK:
            if name == 'push' and len(c) > 1 and bare(self.typ(c[1])) == TENSOR:
                return self.store_into(c[0], self.org(c[1], st), st)
            return st
        if cls == TENSOR or cls == BUBBLE and name == 'get':
            if cls == TENSOR and name in ('field', 'pack') and len(c) > 1 and (d.get('ret') == 'void'):
                return self.store_into(c[0], self.org(c[-1], st), st)
            return st
        if cls == BUBBLE and name == 'set' and len(c) > 2:
            return self.store_into(c[0], self.org(c[2], st), st)
        return None

    def call_effects(self, n, d, c, name, st):
        P = self.P
        f = n['f']
        B = P.body_of(f)
        if B is not None or d.get('virt'):
            obj, args = self.args_of(n, d)
            for t in self.callees(n):
                s = self.M.summary(t, self.carry(n, d, st))
                if s is None:
                    continue
                for sym in list(s.writes):
                    o = self.subst_write(sym, n, obj, args, st)
                    if o:
                        self.write(o, n, [(t, sym)])
                for where, syms in list(s.stores.items()):
                    o, w = E, E
                    for sym in syms:
                        o |= self.subst(sym, n, obj, args, st) if sym[0] != 'in' else E
                        w |= self.subst_write(sym, n, obj, args, st)
                    if not o and not w:
                        continue
                    if isinstance(where, int):
                        if where < len(args):
                            st = self.store_into(args[where], o, st)
                    else:
                        b = strip(obj) if obj is not None else None
                        if b is None or b['k'] == 'this':
                            self.keep(where[1], w)
                        else:
                            self.keep(where[1], w)
                            st = self.store_into(obj, o, st)
            return st
        # no body
        if n['k'] == 'ctor':
            return st
        q = d['qn']
        if q.startswith('std::') or not d.get('file', '').startswith(('src', 'include')):
            if n['k'] == 'mcall' and name in STORE and c and self.M.carries(self.typ(c[0])):
                o = E
                for a in c[1:]:
                    if self.M.carries(self.typ(a)):
                        o |= self.org(a, st)
                return self.store_into(c[0], o, st)
            if n['k'] != 'call':
                return st
            m = re.match(r'^(?:std::__shared_ptr|std::shared_ptr|std::unique_ptr|std::_NonArray)<(.*?)(?:, std::default_delete<.*)?>$', bare(d.get('ret') or ''))
            if m and name.startswith(('make_', 'allocate_')):
                # constructs an object from its arguments
                o = E
                for a in c:
                    if self.M.carries(self.typ(a)):
                        o |= self.org(a, st)
                if o:
                    self.keep_all(bare(m.group(1)), o)
                return st
            w = STD_WRITES.get(name)
            if w is not None:
                for i in w:
                    i = i if i >= 0 else len(c) + i
                    if i < len(c) and not self.handles(c[i]):
                        self.write(self.org(c[i], st), n)
                return st
            if name in READERS:
                return st
        if n['k'] == 'call' or n['k'] == 'mcall':
            obj, args = self.args_of(n, d)
            for i, p in enumerate(d.get('ps') or ()):
                pt = p['t']
                if i < len(args) and pt.rstrip().endswith('*') and not re.match(r'^const\b', pt) and not pt.rstrip().endswith('* *') and 'const' not in pt:
                    self.write(self.org(args[i], st), n)
        return st

    def handles(self, a):
        """An iterator or pointer over handles: overwriting those moves handles, not the memory behind them."""
        t = bare(self.typ(a))
        m = re.match(r'^(?:__gnu_cxx::__normal_iterator|std::reverse_iterator|std::_List_iterator|std::_Deque_iterator)<(.*)>$', t)
        e = m.group(1) if m else (pointee(t) or '')
        if m:
            e = re.split(r'[*,]', re.sub(r'^(__gnu_cxx::__normal_iterator<)', '', e))[0] if '<' not in e.split('*')[0] else e.rsplit('*', 1)[0]
        e = bare(e)
        return bool(e) and e != 'void' and e.startswith(('std::', 'ts::')) and self.M.carries(e) and not self.small(e)

    def fn_object(self, n, c, st):
        """A call through a function object: what its signature says is writable."""
        t = self.typ(c[0])
        m = re.search(r'\((.*)\)', t)
        if not m:
            return
        ps, dpt, cur = [], 0, ''
        for ch in m.group(1):
            if ch == ',' and dpt == 0:
                ps.append(cur.strip())
                cur = ''
                continue
            dpt += ch in '<('
            dpt -= ch in '>)'
            cur += ch
        ps.append(cur.strip())
        for p, a in zip(ps, c[1:]):
            if p.endswith('*') and not p.startswith('const') and 'const' not in p:
                self.write(self.org(a, st), n)

    # -- bindings
    def declare(self, vd, st):
        v = vd['v']
        t = self.L[v]['t']
        init = vd.get('init')
        old = [f for f in st.get('facts', E) if '{v%d}' % v in f[0]]
        if old:
            st = dict(st, facts=st['facts'] - frozenset(old))
        if init is None:
            return self.put(st, v, E) if v in st else st
        if t.rstrip().endswith('&'):
            r = strip(init)
            while r is not None and r['k'] in ('sub', 'un', 'ocall', 'mcall', 'mem', 'cast') and r.get('c') and not (r['k'] == 'mem' and strip(r['c'][0]) is not None and strip(r['c'][0])['k'] == 'this'):
                if r['k'] == 'ocall' and r['op'] not in ('[]', '*', '->'):
                    break
                r = strip(r['c'][0])
            if r is not None and r['k'] in ('var', 'mem') and not (r['k'] == 'var' and r['v'] == v):
                self.refroot[v] = r
            if self.M.carries(bare(t)):
                return self.put(st, v, self.org(init, st))
            return self.put(st, v, self.lvalue_base(init, st) | (self.org(init, st) if strip(init)['k'] in ('mcall', 'call', 'ocall') else E))
        if self.M.carries(t):
            return self.put(st, v, self.org(init, st))
        return st

    def range_var(self, n, st):
        o = self.org(n.get('range'), st)
        v = n['v']
        if self.L[v]['t'].rstrip().endswith('&'):
            r = strip(n.get('range'))
            if r is not None and r['k'] in ('var', 'mem'):
                self.refroot[v] = r
        if self.M.carries(self.L[v]['t']):
            return self.put(st, v, o)
        return self.put(st, v, o if self.L[v]['t'].rstrip().endswith('&') else E)

    def ctor_init(self, i, st):
        if i.get('q') and i.get('init') is not None and self.M.carries(self.field_t(i)):
            o = self.org(i['init'], st)
            if o:
                self.keep(i['q'], o)
        return st

    def field_t(self, i):
        cls, _, fld = i['q'].rpartition('::')
        r = self.P.R.get(cls)
        for f in (r or {}).get('fields', ()):
            if f['n'] == fld:
                return f['t']
        return i['init'].get('t')

    def ret(self, n, st):
        if n.get('c') and n['c'][0] is not None:
            rt = self.d.get('ret') or ''
            if self.M.carries(rt):
                self.rets |= self.org(n['c'][0], st)
            elif rt.rstrip().endswith('&'):
                self.rets |= self.lvalue_base(n['c'][0], st)
        return st

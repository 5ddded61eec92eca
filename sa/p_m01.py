"""M01: copies stay inside both buffers; allocations give what was asked for or throw."""
import re
from .program import walk, children
from .sem import strip, key, is_zero
from .flow import Flow
from .guard import Guard
from .lin import add, norm
from .locks import plain

SCOPE = re.compile(r'^(src|include)/(?!third|kernels|encryption|backend)')
CONV = re.compile(r'void \*?\(int, void \*, int, const void \*, (unsigned long|size_t|std::size_t)\)')
ALLOC = re.compile(r'void \*\(int, (unsigned long|size_t|std::size_t), void \*, (unsigned long|size_t|std::size_t)\)')
RAWCOPY = ('memcpy', 'memmove')
INT = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|size_t|std::size_t|int32_t|uint32_t|int64_t|uint64_t|unsigned)\b[^*<&]*$')
HEAP = ('malloc', 'realloc', 'calloc')


def peel(n):
    n = strip(n)
    while n is not None and n['k'] in ('ctor', 'init') and len([c for c in n.get('c') or () if c is not None]) == 1:
        n = strip([c for c in n['c'] if c is not None][0])
    return n


def qn(P, n):
    d = P.D.get(n.get('f') or '')
    return d['qn'] if d else ''


class Copies(Guard):
    MAXIT = 16

    def __init__(self, P):
        Guard.__init__(self, P)
        self.found = {}
        self.given = {}        # assignments to pointer parameters
        self.P_assumed = set()

    def converter(self, n):
        """the object called, if n calls a device converter"""
        if n['k'] in ('ocall', 'call') and len(n.get('c') or ()) >= 5:
            o = n['c'][0] if n['k'] == 'ocall' and n.get('op') == '()' else n.get('fp')
            s = strip(o) if o is not None else None
            if s is not None and CONV.search(s.get('t') or self.vtype(s)):
                return s
        return None

    def vtype(self, s):
        return self.Fn['locals'][s['v']]['t'] if s['k'] == 'var' and self.Fn.get('locals') and s['v'] < len(self.Fn['locals']) else ''

    def on(self, n, st):
        c = self.converter(n)
        if c is not None:
            a = n['c'][1:] if n['k'] == 'ocall' else n['c']
            self.note(n, c, a[1], a[3], a[4], a[4], st)
        elif n['k'] == 'call' and n.get('f'):
            d = self.P.D[n['f']]
            a = n.get('c') or ()
            if d['qn'] in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove') and len(a) == 3:
                self.note(n, None, a[0], a[1], a[2], a[2], st)
            elif d['qn'] == 'ts::memcpy' and len(a) == 6 or d['qn'] == 'ts::memset' and len(a) == 6:
                self.note(n, None, a[0], a[3], a[2], a[5], st)
        if n['k'] == 'asg' and n.get('op') == '=' and (strip(n['c'][0]) or {}).get('k') == 'var':
            v = strip(n['c'][0])['v']
            if v in self.Fn.get('ps', ()):
                self.given[id(n)] = (v, n['c'][1], st)
        return Guard.on(self, n, st)

    def note(self, n, conv, dst, src, ds, ss, st):
        old = self.found.get(id(n))
        self.found[id(n)] = (n, conv, dst, src, ds, ss, (old[6] if old else []) + [st])


    def refine(self, c, truth, st):
        r = self.halved(strip(c), truth, st)
        return r if r is not None else Guard.refine(self, c, truth, st)

    def halved(self, n, truth, st):
        """x <= y / w says that w times x is at most y"""
        if n is None or n['k'] != 'bin' or n.get('op') not in ('<', '<=', '>', '>='):
            return None
        a, b = n['c']
        op = n['op']
        if op in ('>', '>='):
            a, b, op = b, a, '<' + op[1:]
        if not truth:
            a, b, op = b, a, '<' if op == '<=' else '<='
        for x, low in ((strip(a), True), (strip(b), False)):
            if x is None or x['k'] != 'bin' or x.get('op') not in ('>>', '/') or 'cv' in x:
                continue
            z, y = self.lin(x['c'][1], st), self.lin(x['c'][0], st)
            o = self.lin(b if low else a, st)
            if z is None or z[0] or not 0 < z[1] < 63 or y is None or o is None or not self.nneg(x['c'][0], y, st):
                return None
            w = 1 << z[1] if x['op'] == '>>' else z[1]
            o = ({k: v * w for k, v in o[0].items()}, o[1] * w)
            if low:     # y / w < o: y < w * o; y / w <= o: y < w * o + w
                f = add(o, y, -1)
                return self.assume(st, (f[0], f[1] - 1 + (0 if op == '<' else w)))
            f = add(y, o, -1)
            return self.assume(st, (f[0], f[1] - (w if op == '<' else 0)))
        return None

    # half of something
    def ranged(self, x, st):
        if x['k'] == 'bin' and x.get('op') in ('>>', '/') and all(x['c']):
            z = self.lin(x['c'][1], st)
            a = self.lin(x['c'][0], st)
            if z is not None and not z[0] and a is not None and (0 < z[1] < 63) and self.nneg(x['c'][0], a, st):
                w = 1 << z[1] if x['op'] == '>>' else z[1]
                t = ('tmp', id(x))
                s2 = self.kill(st, lambda q: q == t)
                s2 = frozenset(s2 | {norm(*add(a, ({t: w}, 0), -1)), norm(*add(({t: w}, w - 1), a, -1)), (((t, 1),), 0)})
                return [(s2, ({t: 1}, 0))]
        return Guard.ranged(self, x, st)


class Sizes:
    """What is known of the extent of what an expression points to."""

    def __init__(self, P, G, F, d, st):
        self.P, self.G, self.F, self.d, self.st = P, G, F, d, st

    def split(self, e):
        """(the buffer expression, byte offset form) of base + offset"""
        s = strip(e)
        off = ({}, 0)
        while s is not None and s['k'] == 'bin' and s.get('op') == '+':
            b, o = s['c']
            w = self.width(b)
            x = self.G.lin(o, self.st)
            if x is None or w is None:
                return s, None
            off = add(off, ({k: v * w for k, v in x[0].items()}, x[1] * w))
            s = strip(b)
        # another name for a buffer that is itself never changed
        for i in range(4):
            o = strip(single(self.F, s['v'])) if s is not None and s['k'] == 'var' and s['v'] not in self.F.get('ps', ()) else None
            if o is None or o['k'] != 'var' or moved(self.F, o['v']):
                break
            s = o
        return s, off

    def width(self, b):
        t = self.typ(b)
        t = re.sub(r'\bconst\b', '', t or '').replace('*', '').strip()
        return {'void': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'uint8_t': 1, 'int8_t': 1, 'short': 2, 'int': 4, 'float': 4, 'int32_t': 4, 'long': 8, 'double': 8}.get(t) if (self.typ(b) or '').rstrip().endswith('*') else None

    def typ(self, b):
        s = b
        if s is None:
            return ''
        if s.get('t'):
            return s['t']
        if s['k'] == 'var':
            return self.F['locals'][s['v']]['t']
        return ''

    def param_extent(self, s):
        """the integer parameter that follows a pointer parameter gives its extent in bytes"""
        if s['k'] != 'var' or s['v'] not in self.F.get('ps', ()):
            return None
        ps = self.F['ps']
        if self.width(s) != 1:
            return None
        for v in ps[ps.index(s['v']) + 1:]:
            t = self.F['locals'][v]['t'].strip()
            if INT.match(t) and self.F['locals'][v]['n'].endswith('size'):
                return self.G.lin({'k': 'var', 'v': v, 'c': []}, self.st)
        return None

    def object_extent(self, s):
        """X.data() of something that says how many bytes it has"""
        if s['k'] != 'mcall' or not s.get('f') or self.P.D[s['f']]['n'] not in ('data', 'get', 'c_str') or len([c for c in s['c'] if c is not None]) != 1:
            return None
        d = self.P.D[s['f']]
        cls = d.get('cls') or ''
        x = s['c'][0]
        if cls.startswith('std::') and d['n'] == 'get':
            o = strip(x)
            if o is not None and o['k'] == 'var':
                i = peel(single(self.F, o['v']))
                if i is not None and i['k'] == 'ocall' and i.get('op') == '()' and len(i['c']) == 2:
                    return self.G.lin(i['c'][1], self.st)
            return self.member_extent(o)
        if cls in ('ts::Memory', 'ts::SyncMemory', 'ts::HardMemory') or re.match(r'^std::(__cxx11::)?basic_string<char,', cls):
            for f in self.size_of(cls):
                return self.G.lin({'k': 'mcall', 'f': f, 'c': [x], 't': 'size_t'}, self.st)
        return None

    def member_extent(self, o):
        if o is None or o['k'] != 'mem' or not o.get('q') or o.get('c') and (strip(o['c'][0]) or {}).get('k') != 'this':
            return None
        cap = held(self.P).get(plain(o['q']))
        for x in walk(self.F['body']):
            if cap and x['k'] == 'mem' and plain(x.get('q') or '') == cap and (not x.get('c') or (strip(x['c'][0]) or {}).get('k') == 'this'):
                return self.G.lin(x, self.st)
        return None

    def size_of(self, cls):
        r = self.P.R.get(cls)
        for f in (r or {}).get('methods', ()):
            d = self.P.D.get(f) or {}
            if d.get('n') in ('size', 'capacity') and not d.get('ps'):
                yield f
        for f, d in self.P.D.items():
            if d.get('cls') == cls and d.get('n') == 'size' and not d.get('ps'):
                yield f

    def extent(self, e):
        """bytes left from where e points, as a linear form; None: not known"""
        s, off = self.split(e)
        if s is None or off is None:
            return None
        x = self.param_extent(s) or self.object_extent(s) or self.member_extent(s)
        return add(x, off, -1) if x is not None else None


# ---------------------------------------------------------------- sizes as products

def factors(P, F, e, bind=None, depth=0):
    """(width key or None, sorted other factors) of a byte count, locals that are never changed seen through"""
    out, w = [], []
    todo = [(e, depth)]
    while todo:
        n, dep = todo.pop()
        n = peel(n)
        if n is None:
            return None
        if n['k'] == 'bin' and n.get('op') == '*':
            todo.extend((c, dep) for c in n['c'])
            continue
        if n['k'] == 'sizeof':
            w.append(('sizeof', re.sub(r'\bconst\b', '', n.get('of') or '').strip()))
            continue
        if n['k'] in ('call', 'mcall') and n.get('f') and P.D[n['f']]['n'] == 'type_bytes':
            w.append(('bytes',) + ((tensor_key(P, F, n['c'][0]),) if n['k'] == 'mcall' else ('arg', key(n['c'][0]))))
            continue
        if n['k'] == 'mcall' and n.get('f') and P.D[n['f']]['n'] == 'count' and len(n['c']) == 1:
            out.append(('count', tensor_key(P, F, n['c'][0])))
            continue
        if n['k'] == 'var' and dep < 6:
            i = single(F, n['v'])
            if i is not None:
                todo.append((i, dep + 1))
                continue
        if n['k'] == 'lit':
            if n.get('v') == 1:
                continue
        out.append(('e', repr(key(n))))
    return tuple(sorted(w, key=repr)), tuple(sorted(out, key=repr))


def moved(F, v):
    return any(x['k'] in ('asg', 'un') and x.get('op') not in ('*', '-', '!', '~', '+') and x.get('c') and (strip(x['c'][0]) or {}).get('k') == 'var' and strip(x['c'][0])['v'] == v for x in walk(F['body']))


def single(F, v):
    """the initialiser of a local that is never changed"""
    init, n = None, 0
    for x in walk(F['body']):
        if x['k'] == 'vdecl' and x['v'] == v:
            init, n = x.get('init'), n + 1
        elif x['k'] == 'asg' and (strip(x['c'][0]) or {}).get('v') == v and strip(x['c'][0])['k'] == 'var':
            return None
        elif x['k'] == 'un' and x.get('op') in ('++', '--', '&') and (strip(x['c'][0]) or {}).get('v') == v and strip(x['c'][0])['k'] == 'var':
            return None
    return init if n == 1 else None


def tensor_key(P, F, n):
    """the tensor an expression denotes: proto(), ->, * and get() seen through"""
    n = strip(n)
    while n is not None:
        if n['k'] in ('mcall',) and n.get('f') and P.D[n['f']]['n'] in ('proto', 'get', 'operator->', 'operator*') and len(n['c']) == 1:
            n = strip(n['c'][0])
            continue
        if n['k'] == 'ocall' and n.get('op') in ('->', '*') and len(n['c']) == 1 or n['k'] == 'un' and n.get('op') == '*':
            n = strip(n['c'][0])
            continue
        if n['k'] == 'var':
            L = F['locals'][n['v']]
            if L['t'].rstrip().endswith('&'):
                i = single(F, n['v'])
                if i is not None:
                    n = strip(i)
                    continue
        if n['k'] == 'mem' and n['n'] == 'm_proto' and n.get('c'):
            n = strip(n['c'][0])
            continue
        break
    return key(n) if n is not None else None


def tensor_bytes(P, F, s):
    """If s is T.data(): every way the function states T's size in bytes: (its own count and width) and what it was made with."""
    if s is None or s['k'] != 'mcall' or not s.get('f') or P.D[s['f']]['n'] != 'data' or not re.match(r'^ts::Tensor$', P.D[s['f']].get('cls') or ''):
        return None
    t = tensor_key(P, F, s['c'][0])
    out = [((('bytes', t),), (('count', t),))]
    o = strip(s['c'][0])
    if o is not None and o['k'] == 'var':
        for x in walk(F['body']):
            if x['k'] == 'vdecl' and x['v'] == o['v'] and x.get('init') is not None:
                m = made(P, F, x['init'])
                if m is not None:
                    out.append(m)
    return out


def made(P, F, i):
    """(width, factors) of a tensor made from a type and a list of extents"""
    i = strip(i)
    while i is not None and i['k'] == 'ctor' and len(i.get('c') or ()) == 1:
        i = strip(i['c'][0])
    if i is None or i['k'] != 'ctor':
        return None
    shape = dt = None
    for a in i['c']:
        s = strip(a)
        if s is None:
            continue
        t = s.get('t') or ''
        if 'Shape' in t or 'otl::vector' in t or 'TensorPrototype' in t:
            shape = s
        elif s['k'] in ('en', 'dmem', 'mem', 'gv', 'dref') or 'DTYPE' in t:
            dt = s
    if shape is None:
        return None
    dims = []
    todo = [shape]
    while todo:
        n = strip(todo.pop())
        if n is None:
            continue
        if n['k'] in ('ctor', 'init', 'cast', 'icast', 'x') and n.get('c') and not n.get('op'):
            todo.extend(n['c'])
            continue
        f = factors(P, F, n)
        if f is None:
            return None
        dims.extend(f[1])
    return ('dtype',), tuple(sorted((d for d in dims), key=repr))


def same(want, have):
    """the byte count `want` is the size `have`"""
    if have[0] == ('dtype',):
        # the width belongs to the type the tensor was made with: one sizeof, or none for a type of one byte
        return want[1] == have[1] and len(want[0]) <= 1
    return want == have


# ---------------------------------------------------------------- allocators

class Alloc(Flow):
    """(var) may be null / (var) holds something; and whether the size asked for may be other than zero."""
    calls_may_throw = False

    def __init__(self, P, ps):
        Flow.__init__(self, P)
        self.ps = ps
        self.bad = []
        self.heap = []
        self.rets = self.nulls = 0

    def join(self, a, b):
        return a | b

    def refine(self, c, truth, st):
        n = strip(c)
        if n is None:
            return st
        if n['k'] == 'un' and n.get('op') == '!':
            return self.refine(n['c'][0], not truth, st)
        e, null = None, False
        if n['k'] == 'bin' and n.get('op') in ('==', '!=', '>', '<='):
            for a, b in (n['c'], n['c'][::-1]):
                if b is not None and (is_zero(b) or (strip(b) or {}).get('k') == 'null'):
                    e, null = strip(a), truth == (n['op'] in ('==', '<='))
                    break
        elif n['k'] == 'var':
            e, null = n, not truth
        if e is None or e['k'] != 'var':
            return st
        if e['v'] == self.ps[1]:
            st = frozenset(x for x in st if x != ('size', null))
            return st if any(x[0] == 'size' for x in st) else None
        if null:
            return st
        return frozenset(x for x in st if x != ('null', e['v']))

    def value(self, n, st):
        """may the expression be null"""
        n = strip(n)
        if n is None or is_zero(n) or n['k'] == 'null':
            return True
        if n['k'] == 'var':
            return ('null', n['v']) in st
        if n['k'] == 'call' and n.get('f'):
            q = qn(self.P, n).replace('std::', '')
            if q in HEAP and not self.P.has(n['f']):
                return True
            F = self.P.body_of(n['f'])
            if F is not None and q in self.vetted:
                return False
        if n['k'] == 'cond':
            return self.value(n['c'][1], st) or self.value(n['c'][2], st)
        return False        # another allocation function: judged on its own

    vetted = ()

    def on(self, n, st):
        if n['k'] == 'call' and n.get('f') and qn(self.P, n).replace('std::', '') in HEAP and not self.P.has(n['f']):
            self.heap.append(n)
        if n['k'] == 'asg' and n.get('op') == '=':
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var':
                return self.set(l['v'], n['c'][1], st)
        return st

    def set(self, v, e, st):
        x = self.value(e, st)
        st = frozenset(y for y in st if y != ('null', v))
        return st | {('null', v)} if x else st

    def declare(self, vd, st):
        return self.set(vd['v'], vd['init'], st) if vd.get('init') is not None else frozenset(st | {('null', vd['v'])})

    def ret(self, n, st):
        self.rets += 1
        v = strip(n['c'][0]) if n.get('c') else None
        self.nulls += v is not None and (is_zero(v) or v['k'] == 'null')
        if n.get('c') and n['c'][0] is not None and ('size', True) in st and self.value(n['c'][0], st):
            self.bad.append(n)
        return st


def allocators(P):
    """(name, owner function id, parameters, body, F) of every function or lambda with an allocator's signature"""
    out = []
    for fid, d, F in P.functions():
        f = F.get('file') or d.get('file') or ''
        if d.get('dep') or not f.startswith(('src/', 'include/')):
            continue
        ps = [F['locals'][v]['t'] for v in F.get('ps', ())] if F.get('locals') else []
        if sig(ps) and (d.get('ret') or d.get('rets') or '').strip() == 'void *':
            out.append((d['qn'], fid, F['ps'], F['body'], F))
        for x in walk(F['body']):
            if x['k'] == 'lambda' and len(x.get('ps') or ()) == 4 and F.get('locals'):
                ps = [F['locals'][p if isinstance(p, int) else p['v']]['t'] for p in x['ps']]
                if sig(ps):
                    out.append(('%s (lambda)' % d['qn'], fid, [p if isinstance(p, int) else p['v'] for p in x['ps']], x['body'], F))
    return out


def sig(ps):
    ps = [p.replace('const ', '').strip() for p in ps]
    return len(ps) == 4 and ps[0] == 'int' and ps[2] == 'void *' and re.match(r'unsigned long|size_t|std::size_t', ps[1]) and re.match(r'unsigned long|size_t|std::size_t', ps[3])


# ---------------------------------------------------------------- pointer and capacity of a block kept together

class Pair(Flow):
    """Between a store to the pointer and the store of its capacity the object is out of step."""
    calls_may_throw = False

    def __init__(self, P, ptr, cap, cls):
        Flow.__init__(self, P)
        self.ptr, self.cap, self.cls = ptr, cap, cls
        self.bad = []

    def join(self, a, b):
        return a | b

    def mine(self, n):
        n = strip(n)
        if n is not None and n['k'] == 'mem' and n.get('q') and (not n.get('c') or (strip(n['c'][0]) or {}).get('k') == 'this'):
            return plain(n['q'])
        return None

    def size(self, e):
        """what a block made by e holds, as a key ('0' for none)"""
        s = peel(e)
        if s is None or is_zero(s) or s['k'] == 'null':
            return '0'
        if s['k'] == 'var':
            i = single(self.Fn, s['v'])
            return self.size(i) if i is not None else None
        if s['k'] == 'ocall' and s.get('op') == '()' and len(s['c']) == 5:
            return repr(key(s['c'][2])) if not is_zero(s['c'][2]) else '0'
        if s['k'] == 'ocall' and s.get('op') == '()' and len(s['c']) == 2:
            return repr(key(s['c'][1]))
        return None

    def store(self, z, st, n):
        if any(x[0] == 'c' and x[1] == z for x in st):
            return frozenset(x for x in st if x[0] != 'c')
        return frozenset({('p', z, n.get('l'))})

    def set(self, m, e, st, n):
        if m == self.ptr:
            z = self.size(e)
            if z is None:
                return frozenset()
            return self.store(z, st, n)
        if m == self.cap:
            z = '0' if is_zero(e) else repr(key(e))
            p = {x for x in st if x[0] == 'p'}
            if p and any(x[1] != z for x in p):
                self.bad.append((n, 'records another size than that of the block it has just taken'))
            return frozenset(x for x in st if x[0] != 'p') | (frozenset() if p else frozenset({('c', z, n.get('l'))}))
        return st

    def on(self, n, st):
        if n['k'] == 'asg' and n.get('op') == '=' or n['k'] == 'ocall' and n.get('op') == '=' and len(n['c']) == 2:
            m = self.mine(n['c'][0])
            if m in (self.ptr, self.cap):
                return self.set(m, n['c'][1], st, n)
        if n['k'] == 'mcall' and n.get('f') and self.P.D[n['f']]['n'] == 'reset' and self.mine(n['c'][0]) == self.ptr and len(n['c']) == 1:
            return self.store('0', st, n)
        if n['k'] == 'ocall' and n.get('op') == '()' and len(n['c']) in (2, 5) and self.size(n) not in (None, '0') and any(x[0] == 'c' and x[1] != '0' for x in st):
            self.bad.append((n, 'records the size of a block before it has it: the allocation may fail'))
        return st


def check(P, R):
    R.rule('M01.copy', 'Where memory is copied, both sides are proved to hold at least as many bytes as are copied: by the sizes of the memory objects checked before, the sizes given along with the pointers, or because the count is the size of the tensor the memory belongs to.')
    R.rule('M01.converter', 'A converter between devices is called only after it is known that there is one.')
    R.rule('M01.tensor', 'A constructor that makes the memory of a tensor asks for its count times the width of its elements.')
    R.rule('M01.alloc', 'An allocator asked for a size other than zero returns memory of that size or throws.')
    R.rule('M01.hold', 'The capacity an object states for the block it holds is the size that was asked for when the block was taken, on every way out of every function that changes either.')
    copies(P, R)
    tensors(P, R)
    for name, fid, ps, body, F in allocators(P):
        A = Alloc(P, ps)
        A.Fn = F
        A.exits, A.loops, A.scopes, A.trys = [], [], [], []
        A.run_body(F, body, frozenset({('size', True), ('size', False), ('null', ps[2])}))
        if A.rets and not A.heap and A.nulls == A.rets:
            R.assume('%s stands for a device without memory: it never returns any.' % name)
            continue
        R.ob('M01.alloc', name)
        for n in A.bad:
            R.bad('M01.alloc', plain(name), P.loc(fid, n['l']), '%s may return null although memory was asked for' % name)
        G = Guard(P)
        G.Fn = F
        for n in A.heap:
            a = n['c'][-1]
            x = G.lin(a)
            y = G.lin({'k': 'var', 'v': ps[1], 'c': []})
            R.ob('M01.alloc', '%s|%s' % (name, n['l']))
            if x is None or add(x, y, -1)[0] or add(x, y, -1)[1] < 0:
                R.bad('M01.alloc', '%s|size' % plain(name), P.loc(fid, n['l']), '%s takes memory of another size than was asked for' % name)
    hold(P, R)
    R.floor('M01.copy', 15)
    R.floor('M01.converter', 4)
    R.floor('M01.tensor', 3)
    R.floor('M01.alloc', 3)
    R.floor('M01.hold', 4)


def tensors(P, R):
    for fid, d, F in P.functions():
        if d.get('cls') != 'ts::Tensor' or not d.get('ctor'):
            continue
        ini = {i.get('fld'): i.get('init') for i in F.get('inits', ())}
        p = peel(ini.get('m_proto'))
        if p is None or ini.get('m_memory') is None:
            continue
        if p['k'] != 'var':
            continue
        want = ((('bytes', key(p)),), (('count', key(p)),))
        for x in walk(ini['m_memory']):
            if x['k'] not in ('call', 'mcall', 'ctor'):
                continue
            for a in x.get('c') or ():
                if x['k'] == 'mcall' and a is x['c'][0]:
                    continue
                s = strip(a)
                if s is None or not INT.match((a or {}).get('t') or s.get('t') or typeof(F, s)):
                    continue
                if s['k'] in ('lit', 'en') or 'cv' in s:
                    continue
                R.ob('M01.tensor', '%s|%s' % (d['qn'], x.get('l')))
                w = factors(P, F, a)
                if w != want:
                    R.bad('M01.tensor', '%s|%s' % (plain(d['qn']), '|'.join(q['t'] for q in d['ps'])), P.loc(fid, x['l']),
                          'a constructor of ts::Tensor asks for memory of another size than its prototype says')


def copies(P, R):
    pats = {P.D[fid].get('pat') for fid, d, F in P.functions()}
    for fid, d, F in P.functions():
        if fid in pats:
            continue        # an instantiation of it is looked at instead
        f = F.get('file') or d.get('file') or ''
        if not SCOPE.match(f) or f.startswith('include/utils/otl') or not any(candidate(P, F, x) for x in walk(F['body'])):
            continue
        G = Copies(P)
        G.run(F, frozenset())
        for n, conv, dst, src, ds, ss, sts in G.found.values():
            where = P.loc(fid, n['l'])
            nm = '%s|%s' % (d['qn'], n['l'])
            if conv is not None:
                R.ob('M01.converter', nm)
                if not nonnull(P, F, conv, n):
                    R.bad('M01.converter', '%s|%s' % (plain(d['qn']), 'null'), where, '%s calls a converter without having checked that there is one' % d['qn'])
            for e, size, what in ((dst, ds, 'into'), (src, ss, 'out of')):
                R.ob('M01.copy', '%s|%s' % (nm, what))
                if not fits(P, G, F, d, e, size, sts, n):
                    R.bad('M01.copy', '%s|%s' % (plain(d['qn']), what), where, '%s copies %s memory not shown to be that large' % (d['qn'], what))


        for q in G.P_assumed:
            R.assume('%s: where the caller passes an address, it points to as many bytes as the arguments say.' % q)


def candidate(P, F, x):
    if x['k'] == 'call' and x.get('f'):
        return P.D[x['f']]['qn'] in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove', 'ts::memcpy', 'ts::memset')
    return x['k'] in ('ocall', 'call') and len(x.get('c') or ()) >= 5 and any(CONV.search(typeof(F, strip(o))) for o in (x['c'][0], x.get('fp')) if o is not None)


def typeof(F, s):
    if s is None:
        return ''
    if s['k'] == 'var' and s['v'] < len(F.get('locals') or ()):
        return F['locals'][s['v']]['t']
    return s.get('t') or ''


def fits(P, G, F, d, e, size, sts, n):
    ok = True
    for st in sts:
        S = Sizes(P, G, F, d, st)
        x = S.extent(e)
        cs = G.cases(size, st)
        if x is None or not cs or not all(b is not None and G.implied(add(x, b, -1), s) for s, b in cs):
            ok = False
    if ok:
        return True
    return fits_product(P, G, F, d, e, size, sts)


def fits_product(P, G, F, d, e, size, sts):
    # the size of the tensor
    s, off = Sizes(P, G, F, d, sts[0]).split(e)
    want = factors(P, F, size)
    s0 = s
    while s0 is not None and s0['k'] == 'var' and single(F, s0['v']) is not None:
        s0 = strip(single(F, s0['v']))
    if s is not None and s['k'] == 'var' and s['v'] in F.get('ps', ()):
        return promised(P, G, F, d, s, off, size, want)
    have = tensor_bytes(P, F, s0) if off == ({}, 0) else None
    return bool(have) and want is not None and any(same(want, h) for h in have)


def promised(P, G, F, d, s, off, size, want):
    """A pointer the caller gave. As many elements as the parameter that follows says; or, where no parameter says how much there is, whatever the function
    documents: the caller's word. If the function puts another address into the parameter, that one must do."""
    ps = F['ps']
    given = [(a, st) for v, a, st in G.given.values() if v == s['v']]
    changed = {v for v, a, st in G.given.values()} - {s['v']}
    forms = [off] + [G.lin(size, frozenset())]
    for a, st in given:
        t = tensor_bytes(P, F, peel(a))
        if t is None or any(f is None for f in forms) or any(q == ('v', v) or q == v for f in forms for q in f[0] for v in changed):
            return False
        if not any(G.implied(add(b, add(*forms), -1), st) and G.implied(forms[0], st) for b in bytes_vars(P, G, F, t, st)):
            return False
    if given:
        G.P_assumed.add(plain(d['qn']))
        return True
    t = re.sub(r'\bconst\b', '', F['locals'][s['v']]['t']).strip()
    if not t.endswith('*'):
        return False
    t = t[:-1].strip()
    for v in ps[ps.index(s['v']) + 1:]:
        L = F['locals'][v]
        if INT.match(L['t'].strip()) and re.search(r'size|count|len|^n$', L['n']):
            e = (('e', repr(key({'k': 'var', 'v': v, 'c': []}))),)
            return off == ({}, 0) and want is not None and want[1] == e and (len(want[0]) == 1 and want[0][0][1] == t or not want[0] and t in BYTE)
    if d.get('externC'):
        G.P_assumed.add(plain(d['qn']))
        return True
    return False


BYTE = ('char', 'signed char', 'unsigned char', 'int8_t', 'uint8_t', 'bool')


def bytes_vars(P, G, F, have, st):
    for x in walk(F['body']):
        if x['k'] == 'vdecl' and x.get('init') is not None and single(F, x['v']) is not None:
            w = factors(P, F, x['init'])
            if w is not None and any(same(w, h) for h in have):
                yield G.lin({'k': 'var', 'v': x['v'], 'c': []}, st)


def nonnull(P, F, conv, call):
    """the variable is tested against null before the call, and the test throws"""
    if conv['k'] != 'var':
        return False
    fl = Tested(P, conv['v'], call)
    fl.run(F, frozenset())
    return fl.ok is True


class Tested(Flow):
    calls_may_throw = False

    def __init__(self, P, v, call):
        Flow.__init__(self, P)
        self.v, self.call, self.ok = v, call, None

    def join(self, a, b):
        return a & b

    def refine(self, c, truth, st):
        n = strip(c)
        if n is None:
            return st
        if n['k'] == 'un' and n.get('op') == '!':
            return self.refine(n['c'][0], not truth, st)
        if n['k'] in ('bin', 'ocall') and n.get('op') in ('==', '!=') and len(n['c']) == 2:
            for a, b in (n['c'], n['c'][::-1]):
                if b is not None and (is_zero(b) or (strip(b) or {}).get('k') == 'null') and (strip(a) or {}).get('k') == 'var':
                    return st | {strip(a)['v']} if truth == (n['op'] == '!=') else st - {strip(a)['v']}
        if n['k'] == 'mcall' and n.get('f') and P_n(self.P, n) == 'operator bool' and (strip(n['c'][0]) or {}).get('k') == 'var':
            v = strip(n['c'][0])['v']
            return st | {v} if truth else st - {v}
        return st

    def declare(self, vd, st):
        return self.copy(vd['v'], vd.get('init'), st)

    def copy(self, v, e, st):
        e = peel(e) if e is not None else None
        if e is not None and e['k'] == 'cond':
            a = [self.copy(v, x, st) for x in e['c'][1:]]
            # the value of either branch: known when the branch's own value is
            return st | {v} if all(v in y for y in a) else st - {v}
        return st | {v} if e is not None and e['k'] == 'var' and e['v'] in st else st - {v}

    def on(self, n, st):
        if n['k'] in ('asg', 'ocall') and n.get('op') == '=' and len(n['c']) == 2 and (strip(n['c'][0]) or {}).get('k') == 'var':
            return self.copy(strip(n['c'][0])['v'], n['c'][1], st)
        if n is self.call:
            self.ok = (self.v in st) if self.ok is None else self.ok and self.v in st
        return st


def P_n(P, n):
    return (P.D.get(n['f']) or {}).get('n')


def held(P):
    """{pointer member: member that says how many bytes it points to}: a block and its capacity, or a pointer and a size set by constructors alone, from two
    parameters that come together"""
    h = getattr(P, '_m01held', None)
    if h is not None:
        return h
    h = {}
    for c, r in P.R.items():
        if not (r.get('file') or '').startswith(('src/', 'include/')):
            continue
        p = pair(r)
        if p:
            h[plain('%s::%s' % (c, p[0]['n']))] = plain('%s::%s' % (c, p[1]['n']))
            continue
        ptr = [f for f in r['fields'] if re.match(r'^(const )?(char|void|unsigned char|uint8_t) (const )?\*', f['t'].strip())]
        size = [f for f in r['fields'] if f['n'] in ('m_size', 'm_length', 'size') and INT.match(f['t'].strip())]
        if len(ptr) == 1 and len(size) == 1 and paired(P, c, ptr[0]['n'], size[0]['n']):
            h[plain('%s::%s' % (c, ptr[0]['n']))] = plain('%s::%s' % (c, size[0]['n']))
    P._m01held = h
    return h


def paired(P, c, ptr, size):
    n = 0
    for fid, d, F in P.functions():
        if plain(d.get('cls') or '') != plain(c):
            continue
        fld = {i.get('fld'): i.get('init') for i in F.get('inits', ())}
        if d.get('ctor') and (ptr in fld or size in fld):
            v = [(peel(fld.get(x)) or {}) for x in (ptr, size)]
            ps = F.get('ps', [])
            if any(x.get('k') != 'var' or x['v'] not in ps for x in v):
                if all(x.get('k') in ('null', 'zero') or is_zero(x) for x in v if x):
                    continue
                return False
            if ps.index(v[1]['v']) != ps.index(v[0]['v']) + 1:
                return False
            n += 1
        for x in walk(F['body']):
            if x['k'] in ('asg', 'un') and x.get('op') in ('=', '+=', '-=', '++', '--') and (strip(x['c'][0]) or {}).get('k') == 'mem' \
                    and strip(x['c'][0])['n'] in (ptr, size):
                return False
    return n > 0


def pair(r):
    if r.get('dep'):
        return None
    fs = {f['n']: f for f in r['fields']}
    cap = next((f for n, f in fs.items() if re.search(r'capacity', n) and INT.match(f['t'].strip())), None)
    ptr = next((f for n, f in fs.items() if re.search(r'data|buf', n) and (f['t'].strip() == 'void *' or 'shared_ptr<void>' in f['t'])), None)
    return (ptr, cap) if ptr and cap else None


def hold(P, R):
    for c, r in sorted(P.R.items()):
        if not (r.get('file') or '').startswith(('src/', 'include/')) or r.get('dep'):
            continue
        p = pair(r)
        if p is None:
            continue
        ptr, cap = p
        pq, cq = plain('%s::%s' % (c, ptr['n'])), plain('%s::%s' % (c, cap['n']))
        for fid, d, F in P.functions():
            if d.get('cls') != c or d.get('ctor') or d.get('dtor') or not any(x['k'] == 'mem' and plain(x.get('q') or '') in (pq, cq) for x in walk(F['body'])):
                continue
            fl = Pair(P, pq, cq, c)
            R.ob('M01.hold', d['qn'])
            ends = fl.run(F, frozenset())
            for n, msg in fl.bad:
                R.bad('M01.hold', plain(d['qn']), P.loc(fid, n['l']), '%s %s' % (d['qn'], msg))
            for kind, node, st in ends:
                for x in st or ():
                    if kind != 'throw' or x[0] == 'c':
                        R.bad('M01.hold', plain(d['qn']), P.loc(fid, x[2] or 0), '%s changes %s and leaves %s as it was' % (
                            d['qn'], (ptr if x[0] == 'p' else cap)['n'], (cap if x[0] == 'p' else ptr)['n']))

"""M03: what the encrypted writer does to a block is undone by the encrypted reader.

Every step procedure of the cipher is summarised by its transfer function: a table applied to every byte, a linear
map over GF(2) of the 128 bits of the block, or the addition of key bytes. Loops of the cipher have constant
bounds, so the sequence of steps is known from the source by constant propagation. The sequence of the writer
followed by the one of the reader has to cancel."""
import re
from .program import walk
from .sem import strip, key
from .locks import plain
from .guard import Guard
from .lin import add, norm
from .p_m04 import Cap
from .flow import Flow

CELLS = 16


class Unknown(Exception):
    def __init__(self, why, line=0):
        Exception.__init__(self, why)
        self.line = line


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


ONE = frozenset([()])       # the constant bit 1
ZERO = frozenset()


def bits(c, n=32):
    return [ONE if c >> i & 1 else ZERO for i in range(n)]


class Eval:
    """Abstract values: a Python int, ('ptr', region, offset, shape), or a list of bits (sets of symbols, xor)."""

    def __init__(self, P):
        self.P = P
        self.ops = []           # (kind, data, function, line)
        self.cell = None
        self.tabs = {}
        self.fuel = 400000
        self.where = []
        self.reset()
        self.maxkey = 0

    # -- state of the block
    def reset(self):
        self.cell = [[frozenset([('s', i, b)]) for b in range(8)] for i in range(CELLS)]

    def flush(self):
        out = self.cell
        self.reset()
        if out == self.cell:
            return
        fid, line = self.where[-1]
        syms = {s for c in out for b in c for s in b if s}
        if any(s == () for c in out for b in c for s in b):
            self.ops.append(('const', None, fid, line))
        ts = {s[1] for s in syms if s[0] == 't'}
        raw = {s[1] for s in syms if s[0] == 's'}
        if len({t[1] for t in ts}) != len(ts) or raw & {t[1] for t in ts}:
            self.ops.append(('mixed', tuple(tuple(c) for c in out), fid, line))
            return
        for T in sorted({t[0] for t in ts}, key=str):
            self.ops.append(('tab', (T, frozenset(t[1] for t in ts if t[0] == T)), fid, line))

        def name(s):
            return (s[1][1], s[2]) if s[0] == 't' else (s[1], s[2])
        lin = tuple(tuple(frozenset(name(s) for s in b if s and s[0] != 'k') for b in c) for c in out)
        if lin != IDENT:
            self.ops.append(('lin', lin, fid, line))
        kk = tuple(tuple(frozenset(s for s in b if s and s[0] == 'k') for b in c) for c in out)
        if any(b for c in kk for b in c):
            self.ops.append(('key', kk, fid, line))

    # -- running
    def call(self, fid, args, line):
        F = self.P.body_of(fid)
        d = self.P.D.get(fid) or {}
        if F is None:
            raise Unknown('no body of ' + d.get('qn', '?'), line)
        if len(self.where) > 12:
            raise Unknown('calls nest too deeply', line)
        st = any(isinstance(a, tuple) and a[:2] == ('ptr', 'block') for a in args)
        if st and self.where:
            self.flush()
        self.where.append((fid, F['line']))
        env = {}
        for v, a in zip(F['ps'], args):
            env[v] = self.conv(a, F['locals'][v]['t'])
        try:
            self.ex(F['body'], env, F)
            r = None
        except Ret as e:
            r = self.conv(e.v, d.get('ret') or '')
        if st:
            self.flush()
        self.where.pop()
        return r

    WID = {'unsigned char': 8, 'uint8_t': 8, 'char': 8, 'unsigned short': 16, 'uint16_t': 16, 'unsigned int': 32, 'uint32_t': 32, 'unsigned': 32, 'int': 32, 'unsigned long': 64, 'size_t': 64, 'long': 64, 'bool': 1}

    def conv(self, v, t):
        t = t.replace('const ', '').replace(' const', '').replace('&', '').strip()
        w = self.WID.get(t)
        if w is None or v is None or isinstance(v, tuple):
            return v
        if isinstance(v, int):
            v &= (1 << w) - 1
            if t in ('int', 'long') and v >> (w - 1):
                v -= 1 << w
            return v
        return (v + [ZERO] * w)[:w] if len(v) != w else v

    def ex(self, n, env, F):
        if n is None:
            return
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown('too many steps', n.get('l', 0))
        k = n['k']
        if k in ('block',):
            for c in n['c']:
                self.ex(c, env, F)
        elif k == 'decl':
            for v in n['c']:
                self.ex(v, env, F)
        elif k == 'vdecl':
            t = F['locals'][n['v']]['t']
            m = re.search(r'\[(\d+)\]$', t)
            if m:
                env[n['v']] = ('ptr', ('loc', id(env), n['v']), 0, ())
                self.mem = getattr(self, 'mem', {})
                if n.get('init') is not None and n['init'].get('c'):
                    for i, c in enumerate(n['init']['c']):
                        self.mem[(('loc', id(env), n['v']), i)] = self.ev(c, env, F)
            else:
                env[n['v']] = self.conv(self.ev(n['init'], env, F), t) if n.get('init') is not None else None
        elif k in ('for', 'while', 'do'):
            if n.get('init') is not None:
                self.ex(n['init'], env, F)
            first = k == 'do'
            while True:
                if not first and n.get('cond') is not None:
                    c = self.ev(n['cond'], env, F)
                    if not isinstance(c, int):
                        raise Unknown('a loop whose bound is not constant', n['l'])
                    if not c:
                        break
                first = False
                try:
                    self.ex(n['body'], env, F)
                except Brk:
                    break
                except Cont:
                    pass
                if n.get('inc') is not None:
                    self.ev(n['inc'], env, F)
        elif k == 'if':
            c = self.ev(n['cond'], env, F)
            if not isinstance(c, int):
                raise Unknown('a branch on data', n['l'])
            self.ex(n['then'] if c else n.get('else'), env, F)
        elif k == 'ret':
            raise Ret(self.ev(n['c'][0], env, F) if n.get('c') and n['c'][0] is not None else None)
        elif k == 'break':
            raise Brk()
        elif k == 'continue' or k == 'cont':
            raise Cont()
        elif k == 'null':
            pass
        else:
            self.ev(n, env, F)

    # -- places
    def place(self, n, env, F):
        n0 = n
        while n['k'] in ('icast', 'cast', 'upcast') and n.get('c'):
            n = n['c'][0]
        k = n['k']
        if k == 'var':
            return ('var', n['v'])
        if k == 'sub':
            b = self.ev(n['c'][0], env, F)
            i = self.ev(n['c'][1], env, F)
            return self.elem(b, i, n)
        if k == 'un' and n.get('op') == '*':
            return self.elem(self.ev(n['c'][0], env, F), 0, n)
        raise Unknown('an assignment to something else (%s)' % k, n.get('l', 0))

    def elem(self, b, i, n):
        if not isinstance(b, tuple) or b[0] != 'ptr' or not isinstance(i, int):
            raise Unknown('an element that is not at a constant position', n.get('l', 0))
        _, reg, off, shape = b
        t = n.get('t') or ''
        m = re.findall(r'\[(\d+)\]', t)
        size = 1
        for x in m:
            size *= int(x)
        if m:
            return ('ptr', reg, off + i * size, ())     # an array inside: its address
        return ('at', reg, off + i)

    def load(self, p, env, n):
        if p[0] == 'ptr':
            return p
        if p[0] == 'var':
            return env.get(p[1])
        _, reg, i = p
        if reg == 'block':
            if not 0 <= i < CELLS:
                raise Unknown('outside the block', n.get('l', 0))
            return list(self.cell[i])
        if reg == 'key':
            self.maxkey = max(self.maxkey, i)
            if i < 0:
                raise Unknown('before the key', n.get('l', 0))
            return [frozenset([('k', i, b)]) for b in range(8)]
        v = getattr(self, 'mem', {}).get((reg, i))
        if v is None:
            raise Unknown('a value that was not set', n.get('l', 0))
        return v

    def store(self, p, v, env, F, n):
        if p[0] == 'var':
            env[p[1]] = self.conv(v, F['locals'][p[1]]['t'])
            return
        if p[0] != 'at':
            raise Unknown('a store to an array', n.get('l', 0))
        _, reg, i = p
        v = self.conv(v, 'unsigned char') if reg in ('block', 'key') else v
        if reg == 'block':
            if not 0 <= i < CELLS or v is None or isinstance(v, tuple):
                raise Unknown('outside the block', n.get('l', 0))
            self.cell[i] = bits(v, 8) if isinstance(v, int) else v
        elif reg == 'key':
            raise Unknown('the key is changed', n.get('l', 0))
        else:
            self.mem = getattr(self, 'mem', {})
            self.mem[(reg, i)] = v

    # -- expressions
    def ev(self, n, env, F):
        if n is None:
            return None
        if 'cv' in n:
            return n['cv']
        k = n['k']
        c = n.get('c') or ()
        if k == 'lit':
            return n.get('v')
        if k == 'var':
            return env.get(n['v'])
        if k in ('cast', 'icast', 'upcast'):
            v = self.ev(c[0], env, F)
            return self.conv(v, n.get('t') or '')
        if k == 'gv':
            return ('tab', n['q'], F.get('file'))
        if k == 'mem':
            b = self.ev(c[0], env, F) if c else None
            if isinstance(b, tuple) and b[0] == 'ctx':
                return ('ptr', 'key', 0, ()) if re.search(r'\[\d+\]$', n.get('t') or '') else None
            raise Unknown('a member', n.get('l', 0))
        if k in ('sub',) or k == 'un' and n.get('op') == '*':
            b = self.ev(c[0], env, F)
            if isinstance(b, tuple) and b[0] == 'tab':
                return self.lookup(b, self.ev(c[1], env, F), n)
            return self.load(self.place(n, env, F), env, n)
        if k == 'asg':
            op = n['op']
            p = self.place(c[0], env, F)
            v = self.ev(c[1], env, F)
            if op != '=':
                v = self.bin(op[:-1], self.load(p, env, n), v, n)
            self.store(p, v, env, F, n)
            return v
        if k == 'un':
            op = n['op']
            if op in ('++', '--'):
                p = self.place(c[0], env, F)
                v = self.load(p, env, n)
                if isinstance(v, tuple) and v[0] == 'ptr':
                    w = ('ptr', v[1], v[2] + (1 if op == '++' else -1), v[3])
                elif isinstance(v, int):
                    w = v + (1 if op == '++' else -1)
                else:
                    raise Unknown('counting on data', n.get('l', 0))
                self.store(p, w, env, F, n)
                return v if n.get('post') else w
            if op == '&':
                p = self.place(c[0], env, F)
                if p[0] == 'at':
                    return ('ptr', p[1], p[2], ())
                if p[0] == 'ptr':
                    return p
                raise Unknown('an address', n.get('l', 0))
            v = self.ev(c[0], env, F)
            if isinstance(v, int):
                return {'-': -v, '!': int(not v), '~': ~v, '+': v}.get(op)
            if op == '~' and isinstance(v, list):
                return [b ^ ONE for b in v]
            raise Unknown('operator %s' % op, n.get('l', 0))
        if k == 'bin':
            if n['op'] == ',':
                self.ev(c[0], env, F)
                return self.ev(c[1], env, F)
            a = self.ev(c[0], env, F)
            if n['op'] in ('&&', '||'):
                if not isinstance(a, int):
                    raise Unknown('a condition on data', n.get('l', 0))
                if (n['op'] == '&&') != bool(a):
                    return int(bool(a))
                b = self.ev(c[1], env, F)
                return int(bool(b)) if isinstance(b, int) else b
            return self.bin(n['op'], a, self.ev(c[1], env, F), n)
        if k == 'cond':
            x = self.ev(c[0], env, F)
            if isinstance(x, int):
                return self.ev(c[1] if x else c[2], env, F)
            # bit ? constant : 0
            one = [b for b in x if b] if isinstance(x, list) else []
            a, b = self.ev(c[1], env, F), self.ev(c[2], env, F)
            if len(one) == 1 and isinstance(a, int) and isinstance(b, int):
                return [(one[0] if (a ^ b) >> i & 1 else ZERO) ^ (ONE if b >> i & 1 else ZERO) for i in range(32)]
            raise Unknown('a choice on data', n.get('l', 0))
        if k in ('call', 'ocall'):
            d = self.P.D.get(n.get('f')) or {}
            if d.get('qn') in ('std::swap', 'swap') and len(c) == 2:
                p, q = self.place(c[0], env, F), self.place(c[1], env, F)
                a, b = self.load(p, env, n), self.load(q, env, n)
                self.store(p, b, env, F, n)
                self.store(q, a, env, F, n)
                return None
            args = [self.ev(a, env, F) for a in c]
            if d.get('n') in ('memcpy', 'memmove') and all(isinstance(a, tuple) and a[0] == 'ptr' for a in args[:2]) and isinstance(args[2], int):
                vs = [self.load(('at', args[1][1], args[1][2] + i), env, n) for i in range(args[2])]
                for i, v in enumerate(vs):
                    self.store(('at', args[0][1], args[0][2] + i), v, env, F, n)
                return None
            if not n.get('f'):
                raise Unknown('an unknown call', n.get('l', 0))
            return self.call(n['f'], args, n.get('l', 0))
        if k in ('ctor', 'init') and len(c) == 1:
            return self.ev(c[0], env, F)
        raise Unknown('an expression (%s)' % k, n.get('l', 0))

    def lookup(self, b, i, n):
        T = table(self.P, b[1], b[2])
        if T is None:
            raise Unknown('a table whose contents are not constant', n.get('l', 0))
        if isinstance(i, int):
            return T[i]
        if isinstance(i, list):
            hit = [x for x in i if x]
            for c in range(CELLS):
                if i[:8] == [frozenset([('s', c, j)]) for j in range(8)] and len(hit) == 8:
                    return [frozenset([('t', (b[1:], c), j)]) for j in range(8)]
        raise Unknown('a table looked up at something else than a byte of the block', n.get('l', 0))

    def bin(self, op, a, b, n):
        if isinstance(a, int) and isinstance(b, int):
            try:
                return int({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: int(a / b), '%': lambda: a % b if a >= 0 else -(-a % b), '<<': lambda: a << b, '>>': lambda: a >> b,
                            '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b,
                            '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]())
            except (KeyError, ZeroDivisionError):
                raise Unknown('operator ' + op, n.get('l', 0))
        if isinstance(a, tuple) and a[0] == 'ptr' and isinstance(b, int) and op in '+-':
            return ('ptr', a[1], a[2] + (b if op == '+' else -b), a[3])
        if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
            raise Unknown('operator %s on unknown values' % op, n.get('l', 0))
        if op in ('<<', '>>'):
            if not isinstance(b, int) or isinstance(a, int):
                raise Unknown('a shift by data', n.get('l', 0))
            return ([ZERO] * b + a)[:64] if op == '<<' else a[b:]
        if op in ('^', '&', '|'):
            w = max(len(x) for x in (a, b) if isinstance(x, list))
            if isinstance(a, int) or isinstance(b, int):
                c, v = (a, b) if isinstance(a, int) else (b, a)
                v = v + [ZERO] * (32 - len(v))
                if op == '^':
                    return [x ^ (ONE if c >> i & 1 else ZERO) for i, x in enumerate(v)]
                if op == '&':
                    return [x if c >> i & 1 else ZERO for i, x in enumerate(v)]
                return [ONE if c >> i & 1 else x for i, x in enumerate(v)]
            x, y = a + [ZERO] * (w - len(a)), b + [ZERO] * (w - len(b))
            if op == '^':
                return [p ^ q for p, q in zip(x, y)]
            if op == '|' and all(not p or not q for p, q in zip(x, y)):
                return [p or q for p, q in zip(x, y)]
        if op == '*':
            v, c = (a, b) if isinstance(b, int) else (b, a)
            if isinstance(c, int):
                if c == 0:
                    return 0
                if c > 0 and c & (c - 1) == 0:
                    return ([ZERO] * (c.bit_length() - 1) + v)[:64]
                hot = [x for x in v if x]
                if len(hot) <= 1 and (not hot or v[0]):
                    return [(v[0] if c >> i & 1 else ZERO) for i in range(32)]
        raise Unknown('operator %s on data' % op, n.get('l', 0))


IDENT = tuple(tuple(frozenset([(i, b)]) for b in range(8)) for i in range(CELLS))


def table(P, q, file):
    for k, g in P.G.items():
        if k.split('@')[0] == q and (file is None or g.get('file') == file or k.endswith('@' + str(file))) and g.get('const') and g.get('init') is not None:
            c = g['init'].get('c') or ()
            vs = []
            for x in c:
                s = strip(x)
                v = x.get('cv', s.get('cv', s.get('v')) if s is not None else None)
                if not isinstance(v, int):
                    return None
                vs.append(v)
            return vs + [0] * (256 - len(vs)) if len(vs) == 256 or len(vs) < 256 else None
    return None


def compose(a, b):
    """first a, then b"""
    out = []
    for c in b:
        r = []
        for s in c:
            x = frozenset()
            for (i, j) in s:
                x = x ^ a[i][j]
            r.append(x)
        out.append(tuple(r))
    return tuple(out)


def inverse(P, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'key':
        return a[1] == b[1]
    if a[0] == 'lin':
        return compose(a[1], b[1]) == IDENT
    if a[0] == 'tab':
        T, U = table(P, *a[1][0]), table(P, *b[1][0])
        return a[1][1] == b[1][1] and T is not None and U is not None and all(0 <= T[x] < 256 and U[T[x]] == x for x in range(256))
    return False


def bytewise(m):
    for c in m:
        src = {next(iter(s))[0] if len(s) == 1 else None for s in c}
        if len(src) != 1 or None in src or any(next(iter(s))[1] != j for j, s in enumerate(c)):
            return False
    return True


def commute(a, b):
    if {a[0], b[0]} == {'tab', 'lin'}:
        t, m = (a, b) if a[0] == 'tab' else (b, a)
        return len(t[1][1]) == CELLS and bytewise(m[1])
    if a[0] == b[0] == 'tab':
        return not a[1][1] & b[1][1]
    if a[0] == b[0] == 'key':
        return True
    return False


def reduce_ops(P, ops):
    memo = {}

    def inv(a, b):
        k = (a[0], a[1], b[0], b[1])
        if k not in memo:
            memo[k] = inverse(P, a, b)
        return memo[k]
    st = []
    for n, o in enumerate(ops):
        o = tuple(o) + (n,)
        j = len(st) - 1
        while j >= 0:
            if inv(st[j], o):
                del st[j]
                break
            if not commute(st[j], o):
                j = -1
                break
            j -= 1
        if j < 0:
            st.append(o)
    return st


# ---------------------------------------------------------------- the two ends
def class_of(P, d):
    return plain(d.get('cls') or '')


def helpers(P, cls):
    """The member functions of the class and the file-local functions they use."""
    todo = [(fid, d, F) for fid, d, F in P.functions() if class_of(P, d) == cls and not d.get('dep')]
    files = {F['file'] for fid, d, F in todo}
    out, seen = [], set()
    while todo:
        fid, d, F = todo.pop(0)
        if fid in seen:
            continue
        seen.add(fid)
        out.append((fid, d, F))
        for x in walk(F['body']):
            if x['k'] == 'call' and x.get('f') and x['f'] not in seen:
                e, G = P.D.get(x['f']) or {}, P.body_of(x['f'])
                if G is not None and G.get('file') in files and not e.get('cls') and not e.get('dep') and not e.get('externC'):
                    todo.append((x['f'], e, G))
    return out


def crypt_calls(P, cls):
    """functions of the cipher called with the context of the stream and a buffer"""
    out = {}
    for fid, d, F in helpers(P, cls):
        for x in walk(F['body']):
            if x['k'] == 'call' and x.get('f') and len(x.get('c') or ()) == 2:
                e = P.D.get(x['f']) or {}
                ps = [p['t'] for p in e.get('ps') or ()]
                if len(ps) == 2 and 'ctx' in ps[0].lower() and ps[1].replace('const ', '').startswith(('unsigned char', 'uint8_t')):
                    out.setdefault(x['f'], []).append((fid, x['l']))
    return out


def steps(P, f):
    E = Eval(P)
    E.call(f, [('ctx',), ('ptr', 'block', 0, ())], 0)
    return E.ops, E.maxkey


def describe(P, o):
    return {'tab': 'a table lookup', 'lin': 'a linear step', 'key': 'a key addition', 'mixed': 'a step', 'const': 'a constant'}[o[0]] + ' in ' + P.D[o[2]]['qn']


def check(P, R):
    R.rule('M03.inverse', 'The steps the writer applies to a block, followed by the steps the reader applies to it, cancel pairwise: every table is undone by its inverse table, every linear step by the inverse matrix over GF(2), every key addition by the same key bytes.')
    R.rule('M03.key', 'Reader and writer set up their key with the same function from the same description of the key.')
    R.rule('M03.pad', 'The value a short block is filled up with is the number of bytes that are filled up; the reader takes that many off the last block.')
    R.rule('M03.contiguous', 'The pieces copied between the buffer of the caller and the blocks follow each other without gap or overlap, and the number of bytes reported is where the last piece ends.')
    W, Rd = 'ts::AESFileStreamWriter', 'ts::AESFileStreamReader'
    enc, dec = crypt_calls(P, W), crypt_calls(P, Rd)
    for e in enc:
        for d in dec:
            R.ob('M03.inverse', '%s/%s' % (P.D[e]['qn'], P.D[d]['qn']))
            try:
                a, ka = steps(P, e)
                b, kb = steps(P, d)
            except Unknown as u:
                R.assume('M03.inverse: %s/%s not decided: %s (line %s)' % (P.D[e]['qn'], P.D[d]['qn'], u, u.line))
                continue
            for o in a + b:
                R.ob('M03.inverse', describe(P, o))
            if any(o[0] in ('mixed', 'const') for o in a + b):
                o = [o for o in a + b if o[0] in ('mixed', 'const')][0]
                R.assume('M03.inverse: %s is neither a table, a linear step nor a key addition' % describe(P, o))
                continue
            left = reduce_ops(P, list(a) + list(b))
            if left or not a:
                # the innermost pair that does not cancel
                mid = [o for o in left if o[4] < len(a)]
                o, q = (mid[-1] if mid else left[0] if left else None), [o for o in left if o[4] >= len(a)]
                what = describe(P, o) if o is not None else 'no step at all'
                R.bad('M03.inverse', '%s|%s' % (P.D[e]['qn'], P.D[d]['qn']), P.loc(o[2], o[3]) if o is not None else P.loc(e, P.body_of(e)['line']),
                      'what %s does to a block is not undone by %s: %s%s' % (P.D[e]['qn'], P.D[d]['qn'], what, ' is met by ' + describe(P, q[0]) if q else ' is not undone'))
    R.floor('M03.inverse', 20)
    keys(P, R, W, Rd)
    padding(P, R, W, Rd)
    contiguous(P, R, W, Rd)
    sealed(P, R, W, enc)


def shape(P, n, F):
    """An argument up to the names of locals: parameters by type and position of use."""
    s = strip(n)
    if s is None:
        return None
    if s['k'] == 'var':
        return ('var', F['locals'][s['v']]['t'] if s['v'] in F['ps'] else 'local')
    if s['k'] in ('mcall', 'call', 'ocall'):
        return (s['k'], (P.D.get(s.get('f')) or {}).get('n')) + tuple(shape(P, c, F) for c in s.get('c') or ())
    if s['k'] == 'mem':
        return ('mem', s.get('n'))
    if 'cv' in s or s['k'] == 'lit':
        return ('lit', s.get('cv', s.get('v')))
    return (s['k'], s.get('op')) + tuple(shape(P, c, F) for c in s.get('c') or ())


def keys(P, R, W, Rd):
    got = {}
    for c, fid, d, F in [(W,) + h for h in helpers(P, W)] + [(Rd,) + h for h in helpers(P, Rd)]:
        for x in walk(F['body']):
            if x['k'] == 'call' and x.get('f') and len(x.get('c') or ()) >= 2:
                e = P.D.get(x['f']) or {}
                ps = [p['t'] for p in e.get('ps') or ()]
                if len(ps) >= 3 and 'ctx' in ps[0].lower() and ps[1].replace('const ', '').startswith(('unsigned char', 'uint8_t')):
                    got.setdefault(c, []).append((x['f'], tuple(shape(P, a, F) for a in x['c'][1:]), fid, x['l']))
    for a in got.get(W, ()):
        for b in got.get(Rd, ()):
            R.ob('M03.key', '%s/%s' % (P.D[a[2]]['qn'], P.D[b[2]]['qn']))
            if a[0] != b[0] or a[1] != b[1] and not derived(a[1]) and not derived(b[1]):
                R.bad('M03.key', 'setup', P.loc(b[2], b[3]), 'the key of the reader is not set up like the key of the writer')
    R.floor('M03.key', 1)


def derived(t):
    return 'local' in repr(t)


class Copy(Cap):
    """Where the last piece copied from or to the buffer of the caller ends."""
    END = ('uns', ('ghost', 'end'))

    def __init__(self, P, buf):
        Cap.__init__(self, P)
        self.buf = buf
        self.pieces = []
        self.rets = []

    def piece(self, e, st):
        s = strip(e)
        off = ({}, 0)
        while s is not None:
            if s['k'] == 'var' and s['v'] == self.buf:
                return off
            if s['k'] == 'bin' and s.get('op') == '+':
                x = self.lin(s['c'][1], st)
                if x is None:
                    return None
                off = add(off, x)
                s = strip(s['c'][0])
                continue
            return None
        return None

    def on(self, n, st):
        if n['k'] == 'call' and n.get('f') and (self.P.D.get(n['f']) or {}).get('n') in ('memcpy', 'memmove') and len(n['c']) == 3:
            for j in (0, 1):
                if any(x['k'] == 'var' and x['v'] == self.buf for x in walk(n['c'][j])):
                    off = self.piece(n['c'][j], st)
                    ln = self.lin(n['c'][2], st)
                    self.pieces.append((n, off is not None and self.same(off, ({self.END: 1}, 0), st)))
                    if off is not None and ln is not None:
                        return self.setv(st, self.END[1], self.END, add(off, ln))
                    return self.kill_key(st, self.END[1])
        return Cap.on(self, n, st)

    def same(self, a, b, st=None):
        if st is None:
            return a == b
        return self.implied(add(a, b, -1), st) and self.implied(add(b, a, -1), st)

    def x_ret(self, n, st):
        if n.get('c') and n['c'][0] is not None:
            st2 = self.ev(n['c'][0], st)
            if st2 is not None:
                for s, x in self.cases(n['c'][0], st2):
                    self.rets.append((n, x == ({}, 0) or x is not None and self.same(x, ({self.END: 1}, 0), s)))
        return Cap.x_ret(self, n, st)


def contiguous(P, R, W, Rd):
    for fid, d, F in P.functions():
        if class_of(P, d) not in (W, Rd) or d.get('dep') or d['n'] not in ('read', 'write') or len(F['ps']) != 2:
            continue
        G = Copy(P, F['ps'][0])
        e = Copy.END
        G.run(F, frozenset({norm({e: 1}, 0), norm({e: -1}, 0)}))
        for n, ok in {id(n): (n, ok) for n, ok in G.pieces}.values():
            R.ob('M03.contiguous', '%s|%d' % (d['qn'], n['l']))
            if not all(o for m, o in G.pieces if m is n):
                R.bad('M03.contiguous', plain(d['qn']), P.loc(fid, n['l']), '%s copies a piece that does not start where the one before it ended' % d['qn'])
        for n, ok in {id(n): (n, ok) for n, ok in G.rets}.values():
            R.ob('M03.contiguous', '%s|%d' % (d['qn'], n['l']))
            if not all(o for m, o in G.rets if m is n):
                R.bad('M03.contiguous', plain(d['qn']) + '|ret', P.loc(fid, n['l']), '%s reports another number of bytes than it copied' % d['qn'])
    R.floor('M03.contiguous', 4)


def padding(P, R, W, Rd):
    # writer: fill value == block length - number of bytes of data, byte count of the data == that number
    n_ob = 0
    for fid, d, F in helpers(P, W):
        fills = [x for x in walk(F['body']) if x['k'] == 'call' and x.get('f') and (P.D.get(x['f']) or {}).get('n') == 'memset']
        if not fills:
            continue
        G = Fill(P)
        G.run(F, frozenset())
        for n, ok in G.fills:
            n_ob += 1
            R.ob('M03.pad', '%s|%d' % (d['qn'], n['l']))
            if not ok:
                R.bad('M03.pad', plain(d['qn']), P.loc(fid, n['l']), '%s fills up a block with a value that is not the number of bytes filled up' % d['qn'])
    # reader: what is taken off is the last byte of the block
    for fid, d, F in helpers(P, Rd):
        for x in walk(F['body']):
            if x['k'] == 'asg' and x.get('op') == '-=' and (strip(x['c'][0]) or {}).get('k') == 'mem':
                s = last(F, x['c'][1])
                if s is None:
                    continue
                n_ob += 1
                R.ob('M03.pad', '%s|%d' % (d['qn'], x['l']))
                m = re.search(r'\[(\d+)\]$', strip(s['c'][0]).get('t') or '')
                i = strip(s['c'][1])
                v = s['c'][1].get('cv', i.get('cv', i.get('v') if i['k'] == 'lit' else None))
                if m and v is not None and v != int(m.group(1)) - 1:
                    R.bad('M03.pad', plain(d['qn']) + '|last', P.loc(fid, x['l']), '%s takes the number of padding bytes from byte %s of the block, the writer puts it into the last one' % (d['qn'], v))


def last(F, e):
    s = strip(e)
    if s is not None and s['k'] == 'var':
        ini = [y.get('init') for y in walk(F['body']) if y['k'] == 'vdecl' and y['v'] == s['v']]
        s = strip(ini[0]) if len(ini) == 1 and ini[0] is not None else None
    return s if s is not None and s['k'] == 'sub' and (strip(s['c'][0]) or {}).get('k') == 'mem' else None


class Fill(Guard):
    """memset(b, v, N) and then memcpy(b, src, m): v == N - m"""

    def __init__(self, P):
        Guard.__init__(self, P)
        self.fills = []
        self.pend = {}

    def on(self, n, st):
        if n['k'] == 'call' and n.get('f') and len(n.get('c') or ()) == 3:
            nm = (self.P.D.get(n['f']) or {}).get('n')
            s = strip(n['c'][0])
            if nm == 'memset' and s is not None:
                v, N = self.lin(n['c'][1], st), self.lin(n['c'][2], st)
                off = ({}, 0)
                b = s
                while b is not None and b['k'] == 'bin' and b.get('op') == '+':
                    x = self.lin(b['c'][1], st)
                    off = add(off, x) if x is not None and off is not None else None
                    b = strip(b['c'][0])
                if off is not None and off[0]:
                    # only the rest is filled: the value is the length of the rest
                    ok = v is not None and N is not None and self.eq(v, N, st)
                    self.fills.append((n, ok))
                elif b is not None:
                    self.pend[repr(key(b))] = (n, v, N)
            elif nm in ('memcpy', 'memmove') and s is not None and repr(key(s)) in self.pend:
                f, v, N = self.pend.pop(repr(key(s)))
                m = self.lin(n['c'][2], st)
                self.fills.append((f, None not in (v, N, m) and self.eq(v, add(N, m, -1), st)))
        return Guard.on(self, n, st)

    def eq(self, a, b, st):
        return self.implied(add(a, b, -1), st) and self.implied(add(b, a, -1), st)


# ---------------------------------------------------------------- every block is sealed
STREAM = re.compile(r'^std::(__cxx11::)?basic_[io]*(f|string)?(stream|streambuf|filebuf|ios)<?')


class Sealed(Flow):
    """state: ('enc', buffer) encrypted since it was last changed, ('fill', buffer) filled up, 'padded' a filled block
    is out, 'off' the file is not open or failed.  May-facts are kept as their complement: 'raw' facts are implicit."""

    def __init__(self, P, enc, sums):
        Flow.__init__(self, P)
        self.enc, self.sums = enc, sums
        self.raw, self.again, self.closed, self.pads = [], [], [], 0
        self.writes = 0

    def join(self, a, b):
        # 'due' is a may-fact, everything else must hold on both
        return (a & b) | frozenset(x for x in a | b if x[0] == 'due')

    def refine(self, c, truth, st):
        c = strip(c)
        if c is not None and c['k'] == 'mcall' and c.get('f'):
            d = self.P.D.get(c['f']) or {}
            own = STREAM.match(d.get('cls') or '') or d['n'] == 'is_open'
            if own and (d['n'] in ('bad', 'fail', 'operator!') and truth or d['n'] in ('good', 'is_open', 'operator bool') and not truth):
                return st | {('off',), ('padded',)}
        return st

    def on(self, n, st):
        if n['k'] in ('call', 'mcall') and n.get('f'):
            d = self.P.D.get(n['f']) or {}
            a = n.get('c') or ()
            if n['f'] in self.enc and len(a) == 2:
                b = repr(key(strip(a[1])))
                if ('enc', b) in st:
                    self.again.append(n)
                return st | {('enc', b), ('due', b)}
            if n['k'] == 'call' and d.get('n') in ('memset', 'memcpy', 'memmove') and len(a) == 3:
                s = strip(a[0])
                while s is not None and s['k'] == 'bin' and s.get('op') == '+':
                    s = strip(s['c'][0])
                if s is not None:
                    b = repr(key(s))
                    st = st - {('enc', b)}
                    if d['n'] == 'memset':
                        self.pads += 1
                        st = st | {('fill', b)}
                return st
            if n['k'] == 'mcall' and STREAM.match(d.get('cls') or ''):
                if d['n'] == 'write' and len(a) == 3:
                    b = repr(key(strip(a[1])))
                    self.writes += 1
                    if ('enc', b) not in st:
                        self.raw.append(n)
                    st = st - {('enc', b), ('due', b)}
                    if ('fill', b) in st:
                        st = (st - {('fill', b)}) | {('padded',)}
                    return st
                if d['n'] == 'close':
                    self.closed.append((n, ('padded',) in st))
                return st
            if n['f'] in self.sums:
                writes, pads = self.sums[n['f']]
                if pads or writes and any(x[0] == 'fill' for x in st):
                    return st | {('padded',)}
        return st


def sealed(P, R, W, enc):
    R.rule('M03.seal', 'A block goes into the file exactly once and only after it was encrypted, and the writer never closes an open file without having put a filled-up block at its end.')
    fns = helpers(P, W)
    sums = {}
    for rnd in range(3):
        new, res = {}, []
        for fid, d, F in fns:
            A = Sealed(P, enc, sums)
            ends = A.run(F, frozenset())
            oks = [st for kind, n, st in ends if kind != 'throw' and st is not None]
            inner = [sums[c['f']] for c in walk(F['body']) if c.get('f') in sums]
            padded = bool(oks) and all(('padded',) in st for st in oks) and (A.pads > 0 or any(x[1] for x in inner))
            new[fid] = (A.writes > 0 or any(x[0] for x in inner), padded)
            res.append((fid, d, F, A, ends))
        if new == sums:
            break
        sums = new
    for fid, d, F, A, ends in res:
        if A.writes or A.closed:
            R.ob('M03.seal', d['qn'])
        for n in A.raw[:1]:
            # the caller may have encrypted what it hands over
            b = strip(n['c'][1])
            if b is not None and b['k'] == 'var' and b['v'] in F['ps'] and d['n'] != 'write':
                continue
            R.bad('M03.seal', plain(d['qn']) + '|raw', P.loc(fid, n['l']), '%s writes a block that is not encrypted on every path' % d['qn'])
        for n in A.again[:1]:
            R.bad('M03.seal', plain(d['qn']) + '|again', P.loc(fid, n['l']), '%s encrypts a block twice' % d['qn'])
        if any(kind != 'throw' and st is not None and ('off',) not in st and any(x[0] == 'due' for x in st) for kind, n, st in ends) and A.writes:
            R.bad('M03.seal', plain(d['qn']) + '|lost', P.loc(fid, F['line']), '%s can return without writing a block it has encrypted' % d['qn'])
        done = set()
        for n, ok in A.closed:
            R.ob('M03.seal', '%s|close %d' % (d['qn'], n['l']))
            if not ok and n['l'] not in done:
                done.add(n['l'])
                R.bad('M03.seal', plain(d['qn']) + '|close', P.loc(fid, n['l']), '%s closes the file on a path on which it has not written the block that carries the padding' % d['qn'])
        if A.closed and not any(not ok for n, ok in A.closed):
            for kind, n, st in ends:
                if kind != 'throw' and st is not None and ('padded',) not in st:
                    R.bad('M03.seal', plain(d['qn']) + '|left', P.loc(fid, (n or {}).get('l') or F['line']), '%s can return with the file open and no block that carries the padding written' % d['qn'])
                    break
    R.floor('M03.seal', 3)

"""D02: a damaged model or tensor file is rejected."""
import re
from .program import walk
from .sem import strip, key
from .locks import plain
from .flow import Flow
from .guard import Guard
from .lin import subkeys
from .p_r02 import lifted, lift, hidden, taints

READERS = ('ts::StreamReader', 'ts::StreamReaderV2')
U32 = re.compile(r'^(const )?(unsigned int|unsigned long|unsigned long long|uint32_t|uint64_t|size_t|long|int64_t|std::size_t)( &+)?$')
NARROW = re.compile(r'^(const )?(int|int32_t|short|int16_t)$')
SCALAR = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|size_t|std::size_t|u?int(8|16|32|64)_t|unsigned|ts::DTYPE|long long)( &+)?$')
PLAINC = re.compile(r'^(const )?std::(vector|pair|array|list|deque|map|unordered_map|set|unordered_set)<')
OURS = re.compile(r'^(src|include)/(?!kernels/(gpu|rknn))')


def takes_stream(d):
    return any('StreamReader' in p['t'] for p in d.get('ps', ()))


class Tainted:
    """Which locals hold values that came out of the file, per function (flow-insensitive, over calls)."""

    def __init__(self, P, prims):
        self.P = P
        self.prims = prims
        self.params = {}        # fid -> set of parameter indices that may be given file values
        self.rets = set()       # functions that may return a file value
        self.out = {}
        todo = [fid for fid, d, F in P.functions() if OURS.match(F.get('file') or '') and not d.get('dep') and (
            takes_stream(d) or any(x['k'] in ('call', 'mcall') and x.get('f') and takes_stream(P.D.get(x['f']) or {}) for x in walk(F['body'])))]
        self.scope = set(todo)
        seen = {}
        while todo:
            fid = todo.pop()
            v = self.function(fid)
            if v is None:
                continue
            vs, passes, ret = v
            self.out[fid] = vs
            again = set()
            if ret and fid not in self.rets:
                self.rets.add(fid)
                again |= {g for g in self.scope if any(x.get('f') == fid for x in walk(P.body_of(g)['body']))}
            for f, i in passes:
                if i not in self.params.setdefault(f, set()):
                    self.params[f].add(i)
                    self.scope.add(f)
                    again.add(f)
            todo += [g for g in again if g not in todo]

    def carries(self, t):
        return bool(SCALAR.match(t) or PLAINC.match(t))

    def function(self, fid):
        P = self.P
        d = P.D[fid]
        F = P.body_of(fid)
        if F is None or d.get('dep') or not OURS.match(F.get('file') or ''):
            return None
        L = F['locals']
        t = {F['ps'][i] for i in self.params.get(fid, ()) if i < len(F['ps'])}
        flds = set()

        def ok(v):
            return v < len(L) and self.carries(L[v]['t'].replace('&', '').strip())

        def val(n):
            """may the value of n be a file value?"""
            n = strip(n)
            if n is None:
                return False
            k = n['k']
            if k == 'var':
                return n['v'] in t
            if k == 'mem' and n.get('q') in flds:
                return True
            if k in ('mcall', 'call') and n.get('f'):
                dd = P.D.get(n['f']) or {}
                if n['k'] == 'mcall' and dd.get('n') in ('size', 'length', 'count', 'empty', 'capacity', 'dims', 'data'):
                    return False
                if n['f'] in self.prims or takes_stream(dd):
                    return n['f'] in self.rets
                if (dd.get('qn') or '').startswith('std::') or not P.body_of(n['f']):
                    return any(val(c) for c in n.get('c') or ())
                return n['f'] in self.rets or self.carries((dd.get('ret') or '').replace('&', '').strip()) and dd.get('n') in ('at', 'front', 'back') and any(val(c) for c in n['c'][:1])
            if k in ('bin',) and n.get('op') in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', ','):
                return n['op'] == ',' and val(n['c'][-1])
            if k == 'sub' or k == 'ocall' and n.get('op') == '[]':
                return val(n['c'][0])
            if k in ('lambda', 'lit', 'sizeof', 'en'):
                return False
            if k == 'ctor' and not self.carries((n.get('t') or '').replace('&', '').strip()):
                return False
            return any(val(c) for c in n.get('c') or ())

        def mark(n):
            n = strip(n)
            while n is not None:
                if n['k'] == 'var':
                    if ok(n['v']) and n['v'] not in t:
                        t.add(n['v'])
                    return
                if n['k'] == 'mem':
                    o = strip(n['c'][0]) if n.get('c') else None
                    if o is None or o['k'] == 'this':
                        if SCALAR.match((n.get('t') or '').strip()):
                            flds.add(n['q'])
                        return
                    n = o
                elif n['k'] in ('ocall', 'sub', 'mcall') and n.get('c'):
                    n = strip(n['c'][0])
                elif n['k'] == 'un' and n.get('op') in ('&', '*'):
                    n = strip(n['c'][0])
                else:
                    return
        while True:
            before = (len(t), len(flds))
            for x in walk(F['body']):
                k = x['k']
                c = x.get('c') or ()
                if k == 'vdecl' and x.get('init') is not None and x['v'] not in t and ok(x['v']):
                    if val(x['init']):
                        t.add(x['v'])
                    elif '&' in L[x['v']]['t'] and PLAINC.match(L[x['v']]['t'].replace('&', '').strip()):
                        pass
                elif k == 'rfor' and 'v' in x and val(x['range']):
                    t.add(x['v'])
                elif k in ('asg', 'ocall') and x.get('op') in ('=', '+=', '*=', '-=', '|=', '<<=') and len(c) == 2 and val(c[1]):
                    mark(c[0])
                if k == 'rfor' and 'v' in x and x['v'] in t and '&' in L[x['v']]['t']:
                    mark(x['range'])
                if k == 'vdecl' and x['v'] in t and '&' in L[x['v']]['t'] and x.get('init') is not None:
                    mark(x['init'])
                if k == 'mcall' and c and x.get('f') and (P.D.get(x['f']) or {}).get('n') in ('push_back', 'emplace_back', 'insert', 'emplace', 'push', 'assign') and any(val(a) for a in c[1:]):
                    mark(c[0])
                if k in ('call', 'mcall') and x.get('f'):
                    dd = P.D.get(x['f']) or {}
                    if takes_stream(dd) or x['f'] in self.prims:
                        args = c[1:] if k == 'mcall' else c
                        for p, a in zip(dd.get('ps', ()), args):
                            if a is not None and 'StreamReader' not in p['t'] and ('&' in p['t'] and not p['t'].startswith('const') or '*' in p['t'] and 'const' not in p['t']):
                                mark(a)
            if before == (len(t), len(flds)):
                break
        passes = set()
        ret = False
        for x in walk(F['body']):
            if x['k'] in ('call', 'mcall') and x.get('f') and not takes_stream(P.D.get(x['f']) or {}):
                dd = P.D.get(x['f']) or {}
                if (dd.get('qn') or '').startswith('std::') or P.body_of(x['f']) is None or not OURS.match(P.body_of(x['f']).get('file') or ''):
                    continue
                args = (x.get('c') or [])[1 if x['k'] == 'mcall' else 0:]
                for i, (p, a) in enumerate(zip(dd.get('ps', ()), args)):
                    if a is not None and self.carries(p['t'].replace('&', '').strip()) and val(a):
                        passes.add((x['f'], i))
            if x['k'] == 'ret' and x.get('c') and self.carries((d.get('ret') or '').replace('&', '').strip()) and x['c'][0] is not None and val(x['c'][0]):
                ret = True
        return t, passes, ret


def is_override(P, d):
    """an implementation of StreamReader::read"""
    return d.get('n') == 'read' and (d.get('virt') or d.get('over')) and len(d.get('ps', ())) == 2 and '*' in d['ps'][0]['t']


class ReadGuard(Guard):
    """Records the calls that ask a stream for bytes, with what is known about the answer at every normal end."""

    def __init__(self, P):
        Guard.__init__(self, P)
        self.ends = []
        self.casts = {}
        self.loopout = {}
        self.readcalls = []
        self.copies = []
        self.prims = ()
        self.taint = set()

    def x_block(self, n, st):
        if n is not self.Fn['body']:
            return Guard.x_block(self, n, st)
        self.scopes.append([])
        for c in n['c']:
            if st is None:
                break
            st = self.ex(c, st)
        vs = self.scopes.pop()
        if st is not None:
            self.ends.append(st)
            if vs:
                st = self.leave(list(reversed(vs)), st)
        return st

    def _loop(self, n, st, *a, **k):
        out = Guard._loop(self, n, st, *a, **k)
        self.loopout[id(n)] = (n, out)
        return out

    def on(self, n, st):
        k = n['k']
        if k in ('icast', 'cast') and n.get('c') and n['c'][0] is not None:
            s = n['c'][0]
            ft = (self.typ(strip(s)) if strip(s) is not None and strip(s)['k'] in ('var', 'mem', 'ocall', 'sub', 'mcall') else s.get('t') or '').replace('&', '').strip()
            if NARROW.match((n.get('t') or '').strip()) and U32.match(ft) and taints(s, self.taint):
                x = self.lin(s, st)
                lim = 32767 if 'short' in n['t'] or '16' in n['t'] else 2147483647
                ok = x is not None and self.implied(({q: -v for q, v in x[0].items()}, lim - x[1]), st)
                o = self.casts.setdefault(id(n), [n, True])
                o[1] = o[1] and ok
        if k in ('call', 'mcall') and n.get('f') and n['f'] in self.prims:
            self.readcalls.append((n, st))
        return Guard.on(self, n, st)


def check(P, R):
    R.rule('D02.short', 'Whoever asks a stream for bytes compares the number it got with the number it asked for and throws when they differ; a stream asks its file how many bytes it delivered.')
    R.rule('D02.buffer', 'The destination of a read has room for what is read.')
    R.rule('D02.index', 'A value read from a file is used as a position only after it was compared with the number of elements.')
    R.rule('D02.dtype', 'A number read from a file becomes an element type only if it is the number of one.')
    R.rule('D02.dims', 'A dimension read from a file fits the type it is stored in, and the product of all of them was computed in 64 bits and compared with the largest element count.')
    R.rule('D02.block', 'The padding length found in a decrypted block is between 1 and the block length before it is used.')
    prims = {}              # functions that fill a buffer with what a stream delivers: fid -> how (buffer, count)
    over = set()
    for f, d in P.D.items():
        if is_override(P, d):
            over.add(f)
    for fid in over:
        delivered(P, R, fid)
    short(P, R, over)
    prims = {f for f, d in P.D.items() if plain(d.get('qn') or '').startswith('ts::binio::read')} | over
    T = Tainted(P, prims)
    R.extra['functions that handle values read from files'] = sorted({P.D[f]['qn'] for f, v in T.out.items() if v})[:40]
    fns = []
    for fid in sorted(T.scope):
        d, F = P.D[fid], P.body_of(fid)
        if F is None or d.get('dep') or not OURS.match(F.get('file') or '') or fid in over or fid in prims:
            continue
        fns.append((fid, d, F, T.out.get(fid) or set(), frozenset()))
    made = {}

    def make(P):
        G = ReadGuard(P)
        G.prims = prims
        return G
    # the taint of the function that is being run
    tt = {id(F): t for fid, d, F, t, ini in fns}

    class G2(ReadGuard):
        def run(self, F, st):
            self.taint = tt.get(id(F), set())
            return ReadGuard.run(self, F, st)

    def make(P):
        G = G2(P)
        G.prims = prims
        return G
    runs, pre = lifted(P, fns, make)
    for fid, G in runs.items():
        d, F = P.D[fid], P.body_of(fid)
        t = T.out.get(fid) or set()
        q = plain(d['qn'])
        for n, c, i, lo, hi in G.uses.values():
            if i is None or not taints(i, t):
                continue
            R.ob('D02.index', d['qn'])
            if lo and hi or fid in pre and G.open.get(id(n)) and len(lift(G, G.open[id(n)], F)) == len(G.open[id(n)]):
                continue
            R.bad('D02.index', q, P.loc(fid, n['l']), '%s uses a number read from a file as a position without having compared it with the number of elements' % d['qn'])
        for n, f, what, ok, lf in G.calls.values():
            R.ob('D02.index', d['qn'])
            if not ok and not (fid in pre and lf is not None and lift(G, [(lf, what)], F)):
                R.bad('D02.index', '%s|%s' % (q, plain(P.D[f]['qn'])), P.loc(fid, n['l']), '%s gives %s a number read from a file as a position without having compared it with the number of elements' % (d['qn'], P.D[f]['qn']))
        for n, ok in G.casts.values():
            R.ob('D02.dims', d['qn'])
            if not ok:
                R.bad('D02.dims', q, P.loc(fid, n['l']), '%s narrows a number read from a file that may not fit' % d['qn'])
        buffers(P, R, fid, d, G)
        dtypes(P, R, fid, d, F, t)
        products(P, R, fid, d, F, G, t, T)
    blocks(P, R, over)
    R.floor('D02.short', 3)
    R.floor('D02.buffer', 2)
    R.floor('D02.index', 1)
    R.assume('running out of memory on an absurd element count is a rejection too (std::bad_alloc is thrown)')


# ---------------------------------------------------------------- every byte asked for
class Asked(Flow):
    """state: streams that were read and not yet asked how much they delivered"""

    def __init__(self, P):
        Flow.__init__(self, P)
        self.seen = 0
        self.bad = []

    def join(self, a, b):
        return a | b

    def on(self, n, st):
        if n['k'] == 'mcall' and n.get('f') and n.get('c'):
            d = self.P.D.get(n['f']) or {}
            if re.match(r'^std::(__cxx11::)?basic_[io]*(f|string)?stream<', d.get('cls') or '') or re.match(r'^std::basic_(istream|ios)', d.get('cls') or ''):
                kk = key(strip(n['c'][0]))
                if d['n'] in ('read', 'readsome'):
                    self.seen += 1
                    return st | {(kk, n['l'])}
                if d['n'] in ('gcount',):
                    return frozenset(s for s in st if s[0] != kk)
        return st


def delivered(P, R, fid):
    F = P.body_of(fid)
    d = P.D[fid]
    if F is None or d.get('pure') or F.get('file') is None:
        return
    A = Asked(P)
    ends = A.run(F, frozenset())
    if A.seen:
        R.ob('D02.short', d['qn'])
        for kind, n, st in ends:
            if kind != 'throw' and st:
                for kk, l in sorted(st, key=repr)[:1]:
                    R.bad('D02.short', plain(d['qn']), P.loc(fid, l), '%s reads from its file and does not ask how many bytes it got' % d['qn'])
                break
        # what it answers
        size = F['ps'][1] if len(F['ps']) > 1 else None
        G = Guard(P)
        G.run(F, frozenset())
        rets = [x for x in walk(F['body']) if x['k'] == 'ret' and x.get('c')]
        if rets and all((strip(x['c'][0]) or {}).get('k') == 'var' and strip(x['c'][0])['v'] == size for x in rets):
            R.bad('D02.short', plain(d['qn']), P.loc(fid, rets[0]['l']), '%s always answers that it delivered everything' % d['qn'])


def short(P, R, over):
    """calls of StreamReader::read outside the streams themselves"""
    prim = {f: 1 for f in over}         # reader -> index of the size argument
    for rnd in range(4):
        new = {}
        for fid, d, F in P.functions():
            if d.get('dep') or fid in prim or not OURS.match(F.get('file') or ''):
                continue
            calls = [x for x in walk(F['body']) if x['k'] in ('call', 'mcall') and x.get('f') in prim]
            if not calls:
                continue
            fwd = forwards(P, F, calls, prim)
            if fwd is not None:
                new[fid] = fwd
        if not new:
            break
        prim.update(new)
    for fid, d, F in P.functions():
        if d.get('dep') or fid in prim or not OURS.match(F.get('file') or ''):
            continue
        calls = [x for x in walk(F['body']) if x['k'] in ('call', 'mcall') and x.get('f') in prim]
        if not calls:
            continue
        G = ReadGuard(P)
        G.prims = set(prim)
        G.run(F, frozenset())
        for n in calls:
            R.ob('D02.short', d['qn'])
            args = n['c'][1:] if n['k'] == 'mcall' else n['c']
            size = args[prim[n['f']]] if prim[n['f']] < len(args) else None
            holder = held(F, n)
            ok = False
            if holder is not None and size is not None:
                ends = G.final + G.ends
                ok = bool(ends)
                for st in ends:
                    a, b = G.lin({'k': 'var', 'v': holder, 'l': 0, 't': ''}, st), G.lin(size, st)
                    if b is None and key(strip(size)) is not None:
                        b = None
                    if a is None or b is None or not (G.implied(sub(a, b), st) and G.implied(sub(b, a), st)):
                        ok = False
            if not ok:
                ok = compared(P, F, n, size)
            if not ok:
                R.bad('D02.short', plain(d['qn']), P.loc(fid, n['l']), '%s goes on without comparing the number of bytes the stream delivered with the number it asked for' % d['qn'])


def sub(a, b):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) - v
    return ({k: v for k, v in d.items() if v}, a[1] - b[1])


def held(F, n):
    for x in walk(F['body']):
        if x['k'] == 'vdecl' and x.get('init') is not None and strip(x['init']) is n:
            return x['v']
        if x['k'] == 'asg' and x.get('op') == '=' and strip(x['c'][1]) is n and (strip(x['c'][0]) or {}).get('k') == 'var':
            return strip(x['c'][0])['v']
    return None


def forwards(P, F, calls, prim):
    """returns what the reader answered, for the size it was given itself: index of that parameter"""
    rets = [x for x in walk(F['body']) if x['k'] == 'ret' and x.get('c')]
    for n in calls:
        args = n['c'][1:] if n['k'] == 'mcall' else n['c']
        if prim[n['f']] >= len(args):
            return None
        s = strip(args[prim[n['f']]])
        h = held(F, n)
        if s is None or s['k'] != 'var' or s['v'] not in F['ps']:
            return None
        if not rets or not all(strip(r['c'][0]) is n or h is not None and (strip(r['c'][0]) or {}).get('v') == h and strip(r['c'][0])['k'] == 'var' for r in rets):
            return None
        if any(x['k'] == 'throw' for x in walk(F['body'])) or h is not None and any(
                x['k'] == 'bin' and x.get('op') in ('==', '!=', '<', '>') and any(y['k'] == 'var' and y['v'] == h for y in walk(x)) for x in walk(F['body'])):
            return None
        return F['ps'].index(s['v'])
    return None


def compared(P, F, n, size):
    """if (stream.read(b, n) != n) throw — the call itself inside the comparison of a check that throws"""
    if size is None:
        return False
    kz = key(strip(size))

    class C(Flow):
        def join(self, a, b):
            return a & b

        def on(self, x, st):
            if x is n:
                return frozenset()
            return st

        def refine(self, c, truth, st):
            s = strip(c)
            if s is not None and s['k'] == 'bin' and s.get('op') in ('==', '!=', '<', '>='):
                a, b = strip(s['c'][0]), strip(s['c'][1])
                if any(y is n for y in walk(a or {'k': ''})) and key(b) == kz or any(y is n for y in walk(b or {'k': ''})) and key(a) == kz:
                    good = (s['op'] == '==') == truth if s['op'] in ('==', '!=') else (s['op'] == '>=') == truth
                    if good:
                        return frozenset({'ok'})
            return st
    A = C(P)
    ends = A.run(F, frozenset({'ok'}))
    return all('ok' in st for kind, x, st in ends if kind != 'throw' and st is not None)


# ---------------------------------------------------------------- room
def buffers(P, R, fid, d, G):
    for n, st in G.readcalls:
        args = n['c'][1:] if n['k'] == 'mcall' else n['c']
        dd = P.D[n['f']]
        ps = dd.get('ps', ())
        if len(ps) != 3:
            continue
        buf, cnt = strip(args[1]), args[2]
        R.ob('D02.buffer', d['qn'])
        room = o = None
        if buf is not None and buf['k'] == 'mcall' and buf.get('c'):
            nm = (P.D.get(buf['f']) or {}).get('n')
            o = strip(buf['c'][0])
            if nm == 'data' and o is not None:
                room = G.cont_len(o)
                if (P.D.get(buf['f']) or {}).get('cls', '').startswith('ts::Memory') or (P.D.get(buf['f']) or {}).get('cls', '') == 'ts::Memory':
                    room = ({('size', 'size', key(o)): 1}, 0)
        elif buf is not None:
            room = G.cont_len(buf)
        c = G.lin(cnt, st)
        z = strip(cnt)
        if o is not None and z is not None and z['k'] == 'mcall' and (P.D.get(z['f']) or {}).get('n') == 'size' and key(strip(z['c'][0])) == key(o):
            continue
        if room is None or c is None or not G.implied(sub(room, c), st):
            R.bad('D02.buffer', plain(d['qn']), P.loc(fid, n['l']), '%s reads more than the destination is known to have room for' % d['qn'])


# ---------------------------------------------------------------- element types
class Kind(Flow):
    """state: file values turned into an element type and not yet checked"""

    def __init__(self, P, F, t):
        Flow.__init__(self, P)
        self.t = t
        self.made = {}
        self.bad = {}

    def join(self, a, b):
        return a | b

    def widen(self, a, b):
        return a | b

    def tainted(self, n):
        return taints(n, self.t)

    def vars(self, n):
        return {x['v'] for x in walk(n) if x['k'] == 'var'}

    def on(self, n, st):
        if n['k'] in ('cast', 'icast') and (n.get('t') or '').replace('const ', '') in ('ts::DTYPE', 'DTYPE') and n.get('c') and self.tainted(n['c'][0]):
            self.made[id(n)] = n
        return st


def dtypes(P, R, fid, d, F, t):
    casts = []
    for x in walk(F['body']):
        if x['k'] in ('cast', 'icast') and (x.get('t') or '').replace('const ', '') in ('ts::DTYPE', 'DTYPE') and x.get('c') and x['c'][0] is not None and \
                'DTYPE' not in (strip(x['c'][0]) or {}).get('t', '') and taints(x['c'][0], t):
            s = strip(x['c'][0])
            if s['k'] == 'var' and 'DTYPE' in F['locals'][s['v']]['t']:
                continue
            casts.append(x)
    for x in casts:
        R.ob('D02.dtype', d['qn'])
        src = {y['v'] for y in walk(x['c'][0]) if y['k'] == 'var' and y['v'] in t}
        dst = set()
        for y in walk(F['body']):
            if y['k'] == 'vdecl' and y.get('init') is not None and any(z is x for z in walk(y['init'])):
                dst.add(y['v'])
            if y['k'] == 'asg' and any(z is x for z in walk(y['c'][1])) and (strip(y['c'][0]) or {}).get('k') == 'var':
                dst.add(strip(y['c'][0])['v'])
        if not verified(P, F, x, src, dst):
            R.bad('D02.dtype', plain(d['qn']), P.loc(fid, x['l']), '%s makes an element type of a number read from a file without having checked that it is one' % d['qn'])


def verified(P, F, cast, src, dst):
    """On every normal end after the cast, type_bytes() of it was positive, or it was compared with a bound above."""
    vs = src | dst

    class C(Flow):
        def join(self, a, b):
            return a & b

        def mine(self, n):
            s = strip(n)
            while s is not None and s['k'] in ('cast', 'icast') and s.get('c'):
                s = strip(s['c'][0])
            return s is not None and s['k'] == 'var' and s['v'] in vs

        def width(self, n):
            s = strip(n)
            return s is not None and s['k'] == 'call' and (P.D.get(s.get('f')) or {}).get('n') in ('type_bytes', 'type_str', 'is_dtype', 'valid_dtype') and any(self.mine(a) for a in s['c'])

        def const(self, n):
            s = strip(n)
            while s is not None and s['k'] in ('cast', 'icast') and s.get('c') and 'cv' not in s:
                s = strip(s['c'][0])
            if s is None:
                return None
            if 'cv' in s:
                return s['cv']
            if s['k'] in ('lit', 'en') and isinstance(s.get('v'), int):
                return s['v']
            return None

        def on(self, n, st):
            if n is cast:
                return st | {'made'}
            return st

        def refine(self, c, truth, st):
            s = strip(c)
            if s is None:
                return st
            if s['k'] == 'call' and truth and s.get('f') and any(self.mine(a) for a in s['c']) and (self.width(s) or P.D[s['f']].get('ret') == 'bool' and boolean(P, s['f'])):
                return st | {'ok'}
            if s['k'] == 'bin' and s.get('op') in ('==', '!=', '<', '>', '<=', '>='):
                a, b = s['c']
                op = s['op']
                for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                    z = self.const(y)
                    if z is None:
                        continue
                    if not truth:
                        o = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[o]
                    if self.width(x) and (o == '>' and z >= 0 or o == '>=' and z >= 1 or o == '!=' and z == 0 or o == '==' and z > 0):
                        return st | {'ok'}
                    if self.mine(x) and (o == '==' or o in ('<', '<=') and z < 255):
                        return st | {'ok'}
            return st
    A = C(P)
    ends = A.run(F, frozenset())
    return all(st is None or kind == 'throw' or 'made' not in st or 'ok' in st for kind, n, st in ends)


def boolean(P, f):
    """a predicate that decides by type_bytes or by comparing / switching over its argument"""
    F = P.body_of(f)
    return F is not None and any(x['k'] in ('switch', 'bin') or x['k'] == 'call' and (P.D.get(x.get('f')) or {}).get('n') == 'type_bytes' for x in walk(F['body']))


# ---------------------------------------------------------------- number of elements
WIDE = re.compile(r'^(const )?(unsigned long|unsigned long long|long|long long|u?int64_t|size_t|std::size_t)$')


def products(P, R, fid, d, F, G, t, T):
    """dimensions read from a file and put into a shape"""
    L = F['locals']
    sites = []
    for x in walk(F['body']):
        if x['k'] in ('asg',) and x.get('op') == '=' or x['k'] == 'ocall' and x.get('op') == '=':
            o = strip(x['c'][0])
            if o is not None and o['k'] in ('ocall', 'sub') and o.get('c') and o['c'][0] is not None:
                b = strip(o['c'][0])
                bt = G_type(F, b)
                if re.search(r'otl::vector<int|Shape\b', bt) and taints(x['c'][1], t):
                    sites.append((x, b))
        elif x['k'] == 'mcall' and x.get('f') and (P.D.get(x['f']) or {}).get('n') in ('push_back', 'emplace_back') and len(x['c']) == 2:
            b = strip(x['c'][0])
            if b is not None and re.search(r'otl::vector<int|Shape\b', G_type(F, b)) and x['c'][1] is not None and taints(x['c'][1], t):
                sites.append((x, b))
    for x, b in sites:
        R.ob('D02.dims', d['qn'])
        if not bounded_product(P, F, G, t, x) and not by_helper(P, F, G, b):
            R.bad('D02.dims', plain(d['qn']) + '|product', P.loc(fid, x['l']), '%s takes dimensions from a file without having compared their product (computed in 64 bits) with the largest element count' % d['qn'])


def G_type(F, b):
    if b is None:
        return ''
    if b['k'] == 'var' and b['v'] < len(F['locals']):
        return F['locals'][b['v']]['t']
    return b.get('t') or ''


def bounded_product(P, F, G, t, site):
    """In the loop with the store, a 64-bit local is multiplied by the dimension and bounded when the loop is left."""
    L = F['locals']
    for n, out in G.loopout.values():
        if site is not None and not any(y is site for y in walk(n)):
            continue
        for v in accs(F, n, t):
            x = ({('uns', ('v', v)) if G.vuns(v) else ('v', v): 1}, 0)
            if out is not None and G.implied(({k: -q for k, q in x[0].items()}, 2147483647), out):
                return True
    return False


def accs(F, loop, t):
    L = F['locals']
    out = set()
    for y in walk(loop):
        if y['k'] == 'asg' and (strip(y['c'][0]) or {}).get('k') == 'var':
            v = strip(y['c'][0])['v']
            if not WIDE.match(L[v]['t']):
                continue
            if y.get('op') == '*=' and (t is None or taints(y['c'][1], t)) or y.get('op') == '=' and any(
                    z['k'] == 'bin' and z.get('op') == '*' and any(w['k'] == 'var' and w['v'] == v for w in walk(z)) for z in walk(y['c'][1])):
                out.add(v)
    return out


def by_helper(P, F, G, b):
    """a helper given the shape that bounds the product of its elements the same way"""
    kb = key(b)
    for x in walk(F['body']):
        if x['k'] in ('call', 'mcall') and x.get('f') and any(a is not None and key(strip(a)) == kb for a in (x.get('c') or ())[(1 if x['k'] == 'mcall' else 0):]):
            H = P.body_of(x['f'])
            if H is None or (P.D[x['f']].get('qn') or '').startswith('std::'):
                continue
            if not any(y['k'] in ('for', 'rfor', 'while') for y in walk(H['body'])):
                continue
            g = ReadGuard(P)
            g.run(H, frozenset())
            for n, out in g.loopout.values():
                for v in accs(H, n, None):
                    q = ({('uns', ('v', v)) if g.vuns(v) else ('v', v): 1}, 0)
                    if out is not None and g.implied(({k: -c for k, c in q[0].items()}, 2147483647), out):
                        return True
                    if all(s is not None and g.implied(({k: -c for k, c in q[0].items()}, 2147483647), s) for s in g.final + g.ends) and (g.final or g.ends):
                        return True
    return False


# ---------------------------------------------------------------- blocks of an encrypted file
def blocks(P, R, over):
    """a length taken out of a decrypted block (an element of a member array) is bounded by the array it describes"""
    for fid in sorted(over):
        d, F = P.D[fid], P.body_of(fid)
        if F is None or not (F.get('file') or '').startswith('src/encryption/'):
            continue
        src = {}
        for x in walk(F['body']):
            if x['k'] == 'vdecl' and x.get('init') is not None and F['locals'][x['v']]['t'].replace('const ', '').split()[-1] in ('int', 'long', 'char', 'uint8_t', 'size_t', 'short', 'unsigned') and element(x['init']):
                src[x['v']] = x
        direct = []
        for x in walk(F['body']):
            if x['k'] == 'asg' and x.get('op') in ('-=', '=', '+=') and (strip(x['c'][0]) or {}).get('k') in ('mem', 'var') and element(x['c'][1]):
                direct.append(x)

        class B(Guard):
            hits = None

            def on(self, n, st):
                if n['k'] == 'asg' and n.get('op') in ('-=', '+=', '=') and n['c'][1] is not None:
                    for y in walk(n['c'][1]):
                        if y['k'] == 'var' and y['v'] in src:
                            z = self.lin(y, st)
                            ok = z is not None and self.implied((z[0], z[1] - 1), st) and self.implied(({k: -v for k, v in z[0].items()}, length(P, src[y['v']]['init'], self) - z[1]), st)
                            o = self.hits.setdefault(id(n), [n, True])
                            o[1] = o[1] and ok
                return Guard.on(self, n, st)
        G = B(P)
        G.hits = {}
        G.run(F, frozenset())
        for n, ok in G.hits.values():
            R.ob('D02.block', d['qn'])
            if not ok:
                R.bad('D02.block', plain(d['qn']), P.loc(fid, n['l']), '%s uses a length found in a decrypted block without having checked that it lies between 1 and the block length' % d['qn'])
        for n in direct:
            R.ob('D02.block', d['qn'])
            R.bad('D02.block', plain(d['qn']), P.loc(fid, n['l']), '%s uses a length found in a decrypted block without having checked that it lies between 1 and the block length' % d['qn'])


def element(n):
    s = strip(n)
    while s is not None and s['k'] in ('cast', 'icast') and s.get('c'):
        s = strip(s['c'][0])
    return s is not None and s['k'] == 'sub' and (strip(s['c'][0]) or {}).get('k') == 'mem'


def length(P, init, G):
    for x in walk(init):
        if x['k'] == 'sub':
            L = G.cont_len(x['c'][0])
            if L is not None and not L[0]:
                return L[1]
    return 0

"""R02: asking for a slot, index or name that is not there is an error."""
import re
from .program import walk, AnalysisError
from .sem import strip, key
from .locks import plain
from .flow import Flow
from .guard import Guard
from .lin import subkeys

SCOPE = re.compile(r'^(src|include)/(runtime|module|core)/(?!inferer)')
CLASSES = {'Workbench', 'Program', 'Stack', 'Tensor', 'Prototype', 'TensorPrototype', 'Node', 'Module', 'Graph', 'Bubble', 'Operator'}
RAW = {'ts::Tensor::data'}      # direct element access is unchecked by design, like a pointer's
INT = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|size_t|std::size_t|int32_t|uint32_t|int64_t|uint64_t|unsigned)\b[^*<]*$')
MAPS = re.compile(r'^std::(unordered_)?(multi)?(map|set)\b')


def depends(F, seeds):
    """Locals whose value is computed from the seeds."""
    out = set(seeds)
    while True:
        n = len(out)
        for x in walk(F['body']):
            k = x['k']
            if k == 'vdecl' and x.get('init') is not None and x['v'] not in out and taints(x['init'], out):
                out.add(x['v'])
            elif k == 'asg' and taints(x['c'][1], out):
                t = strip(x['c'][0])
                if t is not None and t['k'] == 'var':
                    out.add(t['v'])
        if len(out) == n:
            return out


def taints(n, vs):
    return any(x['k'] == 'var' and x['v'] in vs for x in walk(n))


def hidden(P, d):
    """Only called from functions that can be seen here."""
    return d.get('acc') in (1, 2) and d.get('cls') or d.get('internal')


def seeds(F):
    return [v for v in F['ps'] if INT.match(F['locals'][v]['t'].replace('&', '').strip())]


def scope(P):
    for fid, d, F in P.functions():
        if d.get('dep') or not SCOPE.match(F.get('file') or d.get('file') or ''):
            continue
        cls = plain(d.get('cls') or '').split('::')[-1]
        if d.get('cls') and cls not in CLASSES or plain(d['qn']) in RAW:
            continue
        yield fid, d, F


def check(P, R):
    R.rule('R02.index', 'An element is only taken at a position that comes from the caller after the position was compared with the number of elements of that very container (or through at(), which does it).')
    R.rule('R02.some', 'A member function of an accessor class takes the first or last element of a container only after it is known to have one.')
    R.rule('R02.base', 'A stack position never reaches below the base of the current frame.')
    R.rule('R02.slice', 'A range of a tensor is only taken after both ends were compared with its extent.')
    R.rule('R02.name', 'What find() returns is used as an element only where it is known not to be end().')
    inv = invariants(P, R)
    runs, pre = lifted(P, [(fid, d, F, depends(F, seeds(F)), entry(inv, d)) for fid, d, F in scope(P)])
    for fid, G in runs.items():
        d, F = P.D[fid], P.body_of(fid)
        dep = depends(F, seeds(F))
        A = None
        for n, c, i, lo, hi in G.uses.values():
            if i is None:
                if d.get('cls') and not hidden(P, d) and member_of_this(c):
                    R.ob('R02.some', d['qn'])
                    if not hi:
                        if A is None:
                            A = Pushed(P)
                            A.run(F, frozenset())
                        if A.at.get(id(n)) or id(n) in looped(F) and asked(P, F, c):
                            continue
                        R.bad('R02.some', plain(d['qn']), P.loc(fid, n['l']), '%s takes an element of a container that may have none' % d['qn'])
                continue
            if not taints(i, dep):
                continue
            R.ob('R02.index', d['qn'])
            if lo and hi or fid in pre and G.open.get(id(n)) and len(lift(G, G.open[id(n)], F)) == len(G.open[id(n)]):
                continue
            R.bad('R02.index', plain(d['qn']), P.loc(fid, n['l']), '%s takes an element at a position given by the caller without having compared it with %s'
                  % (d['qn'], '0' if hi else 'the number of elements'))
        for n, f, what, ok, lf in G.calls.values():
            R.ob('R02.index', d['qn'])
            if not ok and not (fid in pre and lf is not None and lift(G, [(lf, what)], F)):
                R.bad('R02.index', '%s|%s' % (plain(d['qn']), plain(P.D[f]['qn'])), P.loc(fid, n['l']), '%s calls %s, which takes an element at that position, without having compared the position with the number of elements'
                      % (d['qn'], P.D[f]['qn']))
        base(P, R, fid, d, F, G)
        ranges(P, R, fid, d, F, G, dep)
    names(P, R)
    R.floor('R02.index', 8)
    R.floor('R02.name', 30)


def lifted(P, fns, make=Guard):
    """Runs every function; what a hidden helper leaves unproved about its own parameters is asked of its callers."""
    pre = {}
    runs = {}
    for _ in range(3):
        new = {}
        runs = {}
        for fid, d, F, dep, ini in fns:
            G = make(P)
            G.pre = pre
            G.run(F, ini)
            runs[fid] = G
            if not hidden(P, d):
                continue
            fs = []
            for n, c, i, lo, hi in G.uses.values():
                if i is None or (lo and hi) or not taints(i, dep):
                    continue
                fs += lift(G, G.open.get(id(n)), F)
            for n, f, what, ok, lf in G.calls.values():
                if not ok and lf is not None:
                    fs += lift(G, [(lf, what)], F)
            if fs:
                new[fid] = fs
        if new == pre:
            break
        pre = new
    return runs, pre


class Pushed(Flow):
    """state: containers this activation put an element into and did not take it out again (what is called in
    between leaves a stack as it found it: R01)"""

    def __init__(self, P):
        Flow.__init__(self, P)
        self.at = {}

    def join(self, a, b):
        return a & b

    def on(self, n, st):
        c = n.get('c') or ()
        if n['k'] == 'mcall' and c and n.get('f'):
            nm = (self.P.D.get(n['f']) or {}).get('n')
            kk = key(strip(c[0])) if strip(c[0]) is not None else None
            self.at[id(n)] = kk in st
            if nm in ('push', 'push_back', 'emplace', 'emplace_back', 'push_front'):
                return st | {kk}
            if nm in ('pop', 'pop_back', 'pop_front', 'clear', 'swap', 'erase', 'resize', 'assign'):
                return st - {kk}
        elif n['k'] in ('ocall', 'asg') and n.get('op') == '=' and len(c) == 2:
            return st - {key(strip(c[0])) if strip(c[0]) is not None else None}
        return st


def looped(F):
    return {id(y) for x in walk(F['body']) if x['k'] in ('for', 'while', 'do', 'rfor') for y in walk(x)}


def asked(P, F, c):
    """the number of elements is asked for (by this function or an accessor of the class)"""
    for x in walk(F['body']):
        if x['k'] == 'mcall' and x.get('f') and x.get('c'):
            o = strip(x['c'][0])
            nm = (P.D.get(x['f']) or {}).get('n')
            if o is not None and (nm in ('size', 'empty') and (key(o) == key(strip(c)) or o['k'] == 'this')):
                return True
    return False


def member_of_this(c):
    s = strip(c)
    while s is not None and s['k'] == 'mem' and s.get('c'):
        s = strip(s['c'][0])
        if s is not None and s['k'] == 'this':
            return True
    return False


def lift(G, fs, F):
    if not fs:
        return []
    ps = set(F['ps'])
    out = []
    for (t, c), what in fs:
        if all(G.over(k, ps) for k in t):
            out.append(((tuple(sorted(t.items(), key=repr)), c), what))
    return out


# ---------------------------------------------------------------- members that always have the same number of elements
def sizes_of(P, cls):
    r = P.R.get(cls) if hasattr(P, 'R') else None
    return [f['n'] for f in (r or {}).get('fields', ()) if re.match(r'^std::vector<', f['t'])]


def invariants(P, R):
    """class -> pairs of container members that every function which changes one of them leaves equally long."""
    out = {}
    for short, quals in (('Program', 'ts::Program'),):
        runs = []
        fields = set()
        parts = pieces(P, quals)
        for fid, d, F in P.functions():
            if d.get('dep') or fid in parts:
                continue
            F = put_in(P, F, parts)
            hit = set()
            for x in walk(F['body']):
                if x['k'] in ('mcall', 'ocall', 'asg') and x.get('c') and x['c'][0] is not None:
                    o = strip(x['c'][0])
                    if o is None or o['k'] != 'mem' or not (o.get('q') or '').startswith(quals + '::'):
                        continue
                    nm = (P.D.get(x.get('f')) or {}).get('n')
                    if nm in ('resize', 'push_back', 'emplace_back', 'clear', 'erase', 'insert', 'pop_back', 'assign', 'operator=', 'swap', 'emplace'):
                        hit.add(o['q'])
            if hit:
                runs.append((fid, F, hit))
                fields |= hit
        fields = sorted(fields)
        pairs = {(a, b) for a in fields for b in fields if a < b}
        # greatest set of pairs that every one of these functions keeps
        while pairs:
            bad = set()
            for fid, F, hit in runs:
                ps = [p for p in pairs if p[0] in hit or p[1] in hit]
                if not ps:
                    continue
                objs = set()
                for x in walk(F['body']):
                    if x['k'] == 'mem' and x.get('q') in hit and x.get('c'):
                        objs.add(key(strip(x['c'][0])))
                G = Guard(P)
                ini = frozenset(f for o in objs for f in equal(pairs, o))
                ends = G.run(F, ini)
                for a, b in ps:
                    for o in objs:
                        la, lb = ('size', 'size', ('mem', a, o)), ('size', 'size', ('mem', b, o))
                        # an object under construction is given up when something throws; this object is not
                        for s in G.final + [s for kind, n, s in ends if s is not None and (kind == 'fall' or kind == 'throw' and o == ('this',))]:
                            if not (G.implied(({la: 1, lb: -1}, 0), s) and G.implied(({la: -1, lb: 1}, 0), s)):
                                bad.add((a, b))
            if not bad:
                break
            pairs -= bad
        out[quals] = pairs
    return out


def pieces(P, cls):
    """Private member functions that are nothing but a sequence of statements on members: a part of whoever calls them."""
    out = {}
    for fid, d, F in P.functions():
        if plain(d.get('cls') or '') != cls or d.get('acc') not in (1, 2) or d.get('virt') or d.get('dep') or d.get('const') or d.get('ctor') or d.get('dtor') or F.get('inits'):
            continue
        ss = F['body']['c'] if F['body']['k'] == 'block' else []
        if ss and all(s is not None and s['k'] in ('asg', 'ocall', 'mcall', 'call') for s in ss) \
                and not any(x['k'] == 'lambda' or x['k'] in ('call', 'mcall') and x.get('f') == fid for x in walk(F['body'])):
            out[fid] = F
    used = {x['f'] for fid, d, F in P.functions() for x in walk(F['body']) if x['k'] == 'fn' and x.get('f')}
    return {f: F for f, F in out.items() if f not in used}


def put_in(P, F, parts, depth=0):
    if not parts or not any(x['k'] == 'mcall' and x.get('f') in parts for x in walk(F['body'])):
        return F

    def sub(x, this, m):
        if x is None:
            return None
        if x['k'] == 'this':
            return this
        if x['k'] == 'var' and x['v'] in m:
            return m[x['v']]
        y = dict(x)
        for kk, v in x.items():
            if isinstance(v, dict) and 'k' in v:
                y[kk] = sub(v, this, m)
            elif isinstance(v, list) and v and any(isinstance(z, dict) and 'k' in z for z in v):
                y[kk] = [sub(z, this, m) if isinstance(z, dict) and 'k' in z else z for z in v]
        return y

    def go(x):
        if x is None:
            return None
        if x['k'] == 'mcall' and x.get('f') in parts and len(x['c']) == len(parts[x['f']]['ps']) + 1:
            G = parts[x['f']]

            def arg(a):
                s = strip(a)
                return s['c'][0] if s is not None and s['k'] == 'un' and s.get('op') == '*' else a
            m = {v: arg(a) for v, a in zip(G['ps'], x['c'][1:])}
            return {'k': 'block', 'l': x['l'], 'c': [sub(s, x['c'][0], m) for s in G['body']['c']]}
        y = dict(x)
        for kk, v in x.items():
            if isinstance(v, dict) and 'k' in v:
                y[kk] = go(v)
            elif isinstance(v, list) and v and any(isinstance(z, dict) and 'k' in z for z in v):
                y[kk] = [go(z) if isinstance(z, dict) and 'k' in z else z for z in v]
        return y
    F2 = dict(F)
    F2['body'] = go(F['body'])
    return put_in(P, F2, parts, depth + 1) if depth < 3 else F2


def equal(pairs, o):
    for a, b in pairs:
        la, lb = ('size', 'size', ('mem', a, o)), ('size', 'size', ('mem', b, o))
        for x, y in ((la, lb), (lb, la)):
            yield (tuple(sorted({x: 1, y: -1}.items(), key=repr)), 0)


def entry(inv, d):
    out = set()
    cls = plain(d.get('cls') or '')
    for f in equal(inv.get(cls, ()), ('this',)):
        out.add(f)
    if cls == 'ts::Stack':
        # the base of the frame is a position that the stack had when the frame was entered
        a, b = ('size', 'size', ('mem', 'ts::Stack::m_stack', ('this',))), ('uns', ('mem', 'ts::Stack::m_base', ('this',)))
        out.add((tuple(sorted({a: 1, b: -1}.items(), key=repr)), 0))
    return frozenset(out)


# ---------------------------------------------------------------- stack frames, ranges
def base(P, R, fid, d, F, G):
    if plain(d.get('cls') or '') != 'ts::Stack' or hidden(P, d):
        return
    b = ('uns', ('mem', 'ts::Stack::m_base', ('this',)))
    dep = depends(F, seeds(F))
    for n, c, i, st in G.sites:
        o = strip(c)
        if o is None or o['k'] != 'mem' or o['n'] != 'm_stack' or not taints(i, dep):
            continue
        R.ob('R02.base', d['qn'])
        back = n['k'] == 'ocall' and n.get('op') == '-'
        for s, x in G.cases(i, st):
            ok = False
            if x is not None:
                g = ({b: -1}, 0)
                pos = ({('size', 'size', key(o)): 1}, 0) if back else None
                if back:
                    ok = G.implied(_sub(_sub(pos, x), ({b: 1}, 0)), s)
                else:
                    ok = G.implied(_sub(x, ({b: 1}, 0)), s)
            if not ok:
                R.bad('R02.base', plain(d['qn']), P.loc(fid, n['l']), '%s can reach an element below the base of the current frame' % d['qn'])


def _sub(a, b):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) - v
    return ({k: v for k, v in d.items() if v}, a[1] - b[1])


def ranges(P, R, fid, d, F, G, dep):
    """data<char>() + beg * width: a pointer into the tensor at a position given by the caller."""
    if plain(d.get('cls') or '') != 'ts::Tensor' or hidden(P, d):
        return
    for n, i, st in G.offsets:
        if not taints(i, dep):
            continue
        R.ob('R02.slice', d['qn'])
        lo = hi = True
        vs = [x for x in walk(i) if x['k'] == 'var' and x['v'] in F['ps']]
        for v in vs:
            t = G.lin(v, st)
            lo = lo and t is not None and G.nneg(v, t, st)
        # some bound above
        for v in vs:
            t = G.lin(v, st)
            hi = hi and t is not None and bounded(G, t, st, F, 1)
        for p in seeds(F):
            t = ({('uns', ('v', p)) if G.vuns(p) else ('v', p): 1}, 0)
            hi = hi and bounded(G, t, st, F, 0)
        if not (lo and hi):
            R.bad('R02.slice', plain(d['qn']), P.loc(fid, n['l']), '%s forms a pointer at a position given by the caller without having compared it with %s' % (d['qn'], 'the extent of the tensor' if lo else '0'))


def bounded(G, t, st, F, strict):
    """some fact t <= (something that is not a parameter)"""
    ps = set(F['ps'])

    def par(k):
        if k[0] == 'uns':
            k = k[1]
        return k[0] == 'v' and k[1] in ps
    for f in st:
        if f[0] == 'or':
            continue
        for k, v in f[0]:
            if v > 0 and not par(k) and (k[0] != 'c' or ('lit', '0') in list(subkeys(k))):
                g = ({k: 1}, -strict)
                if G.implied(_sub(g, t), st):
                    return True
    return False


# ---------------------------------------------------------------- names
class Found(Flow):
    """state: iterators known not to be end(), and what is known to be contained: ('has', container, name)"""

    def __init__(self, P, its):
        Flow.__init__(self, P)
        self.its = its
        self.bad = {}

    def join(self, a, b):
        return a & b

    def widen(self, old, new):
        return old & new

    def end(self, x):
        if x['k'] == 'var':
            return any(y['k'] == 'vdecl' and y['v'] == x['v'] and y.get('init') is not None and self.end(self.unwrap(strip(y['init']))) for y in walk(self.Fn['body']))
        return x['k'] in ('mcall', 'call') and (self.P.D.get(x.get('f')) or {}).get('n') in ('end', 'cend')

    def refine(self, c, truth, st):
        n = strip(c)
        if n is None:
            return st
        k = n['k']
        if k == 'var':
            ini = [x['init'] for x in walk(self.Fn['body']) if x['k'] == 'vdecl' and x['v'] == n['v'] and x.get('init') is not None]
            if len(ini) == 1 and self.Fn['locals'][n['v']]['t'].replace('const ', '') == 'bool' and not any(
                    x['k'] == 'asg' and (strip(x['c'][0]) or {}).get('v') == n['v'] or
                    x['k'] in ('asg', 'ocall') and x.get('op') == '=' and (strip(x['c'][0]) or {}).get('v') in self.its for x in walk(self.Fn['body'])):
                t, f = self.cond(ini[0], st)
                return t if truth else f
        if k in ('ocall', 'bin') and n.get('op') in ('==', '!=') and len(n['c']) == 2:
            vs = [self.unwrap(strip(x)) for x in n['c']]
            if any(x is None for x in vs) or (n['op'] == '!=') != truth:
                return st
            for x, y in (vs, vs[::-1]):
                if self.end(y):
                    if x['k'] == 'var' and x['v'] in self.its:
                        return st | {x['v']}
                    h = self.wanted(x)
                    if h is not None:
                        return st | {h}
        h = self.wanted(n, ('count', 'contains'))
        if h is not None and truth:
            return st | {h}
        if k == 'bin' and n.get('op') in ('>', '!=', '==') and len(n['c']) == 2:
            h = self.wanted(self.unwrap(strip(n['c'][0])), ('count',))
            z = (strip(n['c'][1]) or {})
            z = z.get('cv', z.get('v') if z.get('k') == 'lit' else None)
            if h is not None and z == 0 and (n['op'] != '==') == truth:
                return st | {h}
        return st

    def wanted(self, x, names=('find',)):
        if x is not None and x['k'] == 'mcall' and len(x.get('c') or ()) == 2 and (self.P.D.get(x.get('f')) or {}).get('n') in names:
            a, b = strip(x['c'][0]), strip(x['c'][1])
            if a is not None and b is not None:
                return ('has', key(a), key(b))
        return None

    def unwrap(self, x):
        while x is not None and x['k'] == 'ctor' and x.get('c') and len(x['c']) == 1:
            x = strip(x['c'][0])
        return x

    def lose(self, st, kk):
        return frozenset(s for s in st if not (isinstance(s, tuple) and kk in list(subkeys(s))))

    def declare(self, vd, st):
        st = self.lose(st - {vd['v']}, ('v', vd['v']))
        if vd['v'] in self.its and vd.get('init') is not None:
            h = self.wanted(self.unwrap(strip(vd['init'])))
            if h is not None and h in st:
                return st | {vd['v']}
        return st

    def range_var(self, n, st):
        return self.lose(st, ('v', n['v'])) if 'v' in n else st

    def on(self, n, st):
        k = n['k']
        c = n.get('c') or ()
        if k == 'ocall' and n.get('op') in ('*', '->') and len(c) == 1:
            o = self.unwrap(strip(c[0]))
            if o is not None and o['k'] == 'var' and o['v'] in self.its and o['v'] not in st:
                self.bad[id(n)] = n
            if o is not None and self.wanted(o) is not None and self.wanted(o) not in st:
                self.bad[id(n)] = n
        if k == 'mcall' and c and (self.P.D.get(n.get('f')) or {}).get('n') in ('erase', 'clear', 'extract', 'swap'):
            o = strip(c[0])
            if o is not None:
                st = self.lose(st, key(o))
        if k in ('ocall', 'asg') and (n.get('op') or '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>=') and c or k in ('un', 'ocall') and n.get('op') in ('++', '--') and c:
            o = strip(c[0])
            if o is not None:
                st = self.lose(st, key(o))
                if o['k'] == 'var' and o['v'] in self.its:
                    st = st - {o['v']}
                    h = self.wanted(self.unwrap(strip(c[1]))) if n.get('op') == '=' and len(c) == 2 else None
                    if h is not None and h in st:
                        st = st | {o['v']}
        return st


def is_find(P, n):
    n = strip(n)
    while n is not None and n['k'] == 'ctor' and n.get('c') and len(n['c']) == 1:
        n = strip(n['c'][0])
    if n is None or n['k'] not in ('mcall', 'call') or not n.get('f'):
        return False
    d = P.D.get(n['f']) or {}
    if n['k'] == 'mcall':
        return d.get('n') == 'find' and bool(MAPS.match(d.get('cls') or ''))
    return d.get('qn') in ('std::find', 'std::find_if')


def names(P, R):
    for fid, d, F in P.functions():
        if d.get('dep') or not re.match(r'^(src|include)/(?!kernels)', F.get('file') or d.get('file') or ''):
            continue
        its = {}
        for x in walk(F['body']):
            if x['k'] == 'vdecl' and x.get('init') is not None and is_find(P, x['init']):
                its[x['v']] = None
            elif x['k'] in ('asg', 'ocall') and x.get('op') == '=' and len(x.get('c') or ()) == 2 and is_find(P, x['c'][1]):
                t = strip(x['c'][0])
                if t is not None and t['k'] == 'var':
                    its[t['v']] = None
        direct = [x for x in walk(F['body']) if x['k'] == 'ocall' and x.get('op') in ('*', '->') and len(x['c']) == 1 and is_find(P, x['c'][0])]
        if not its and not direct:
            continue
        A = Found(P, its)
        A.run(F, frozenset())
        R.ob('R02.name', d['qn'], len(its) + len(direct))
        for n in A.bad.values():
            R.bad('R02.name', plain(d['qn']), P.loc(fid, n['l']), '%s uses what find() returned where it may be end()' % d['qn'])

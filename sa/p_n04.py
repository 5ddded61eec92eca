"""N04: the reusing allocator hands out disjoint live blocks."""
import re
from .flow import Flow
from .program import walk
from .sem import strip
from .lin import subkeys
from .guard import Guard
from .locks import plain

INTO = {'insert', 'push_back', 'emplace', 'emplace_back', 'push_front', 'emplace_front', 'emplace_hint', 'push', 'insert_or_assign', 'try_emplace'}
OUT = {'erase', 'pop_back', 'pop_front', 'clear', 'swap', 'assign', 'pop', 'extract'}


def base(t):
    return re.sub(r'^const |[&*\s]+$|\bconst\b', '', t or '').strip()


def blocks(P):
    """Classes of whose objects each leads to one block: the block is held in a shared pointer to no type, copies lead to the same block."""
    out = set()
    for c, r in P.R.items():
        if not r.get('dep') and any(base(f['t']) == 'std::shared_ptr<void>' for f in r.get('fields', ())) and not c.startswith('std::'):
            out.add(c)
    return out


def pools(P, hs):
    """Classes that keep such objects in containers: (class, block class, fields)."""
    for c, r in sorted(P.R.items()):
        if r.get('dep') or c.startswith('std::'):
            continue
        for h in sorted(hs):
            fs = {'%s::%s' % (plain(c), f['n']) for f in r.get('fields', ()) if re.search(r'[<,] ?%s\b(?!::)' % re.escape(h), f['t']) and f['t'].startswith('std::') and 'function<' not in f['t']}
            if len(fs) > 1:
                yield c, h, fs


class Linear(Flow):
    """State (may, must). may: ('t', local, field, names): a local came from an element of the field that is still there; ('d', field, names, line): so did something
    stored elsewhere; ('g', local, line): memory was taken from a local. must: locals that were stored."""

    def __init__(self, P, fid, F, h, fields):
        Flow.__init__(self, P)
        self.fid, self.F, self.h, self.fields = fid, F, h, fields
        self.L = F['locals']
        self.init = {}
        for n in walk(F['body']):
            if n['k'] == 'vdecl' and n.get('init') is not None:
                self.init.setdefault(n['v'], []).append(n['init'])
            elif n['k'] == 'rfor' and n.get('v') is not None:
                self.init.setdefault(n['v'], []).extend(x for x in n.get('c', ()) if x is not None)
                if isinstance(n.get('range'), dict):
                    self.init[n['v']].append(n['range'])
            elif n['k'] in ('asg', 'ocall') and n.get('op') == '=' and (strip(n['c'][0]) or {}).get('k') == 'var':
                self.init.setdefault(strip(n['c'][0])['v'], []).append(n['c'][1])
        self.twice = {}
        self.ops = 0

    def join(self, a, b):
        return (a[0] | b[0], a[1] & b[1])

    widen = join

    def mentions(self, n, seen=None):
        """(fields, names) an expression leads to, through references and iterators."""
        fs, vs = set(), set()
        seen = seen if seen is not None else set()
        for x in walk(n):
            if x['k'] == 'mem' and plain(x.get('q') or '') in self.fields:
                fs.add(plain(x['q']))
            elif x['k'] == 'var':
                vs.add(x['v'])
                if x['v'] not in seen:
                    seen.add(x['v'])
                    t = self.L[x['v']]['t']
                    for i in self.init.get(x['v'], ()):
                        f2, v2 = self.mentions(i, seen)
                        vs |= v2
                        if base(t) != self.h or t.rstrip().endswith(('&', '*')):
                            fs |= f2
        return fs, vs

    def handle(self, n):
        """A block object an expression designates: ('l', local) or ('e', fields, names)."""
        n = strip(n)
        while n is not None and (n['k'] == 'ctor' and len(n.get('c') or ()) == 1 and base(n.get('t')) == self.h or n['k'] == 'call' and (self.P.D.get(n.get('f')) or {}).get('qn') in ('std::move', 'std::forward')):
            n = strip(n['c'][0])
        if n is None:
            return None
        t = self.L[n['v']]['t'] if n['k'] == 'var' else n.get('t')
        if base(t) != self.h or (t or '').rstrip().endswith('*'):
            return None
        if n['k'] == 'var' and not t.rstrip().endswith('&'):
            return ('l', n['v'])
        if n['k'] not in ('var', 'mem', 'ocall', 'mcall', 'sub', 'un'):
            return None
        fs, vs = self.mentions(n)
        return ('e', frozenset(fs), frozenset(vs)) if fs else None

    def handles(self, n):
        """Block objects that go into what is stored: the arguments, also inside pairs."""
        h = self.handle(n)
        if h is not None:
            return [h]
        n = strip(n)
        if n is None:
            return []
        d = self.P.D.get(n.get('f')) or {}
        if n['k'] in ('ctor', 'init') or n['k'] == 'call' and d.get('n') in ('make_pair', 'make_tuple', 'move', 'forward', 'forward_as_tuple'):
            return [h for x in n.get('c') or () if x is not None for h in self.handles(x)]
        return []

    def put(self, hs, n, st):
        may, must = st
        for h in hs:
            self.ops += 1
            if h[0] == 'l':
                may = may | {('d', t[2], t[3], n.get('l')) for t in may if t[0] == 't' and t[1] == h[1]}
                if h[1] in must:
                    self.twice[n.get('l')] = n
                must = must | {h[1]}
            else:
                may = may | {('d', f, h[2], n.get('l')) for f in h[1]}
        return (may, must)

    def copied(self, v, src, st):
        may, must = st
        may = frozenset(x for x in may if not (x[0] in 'tg' and x[1] == v))
        must = must - {v}
        h = self.handle(src) if src is not None else None
        if h is not None and h[0] == 'e':
            self.ops += 1
            may = may | {('t', v, f, h[2]) for f in h[1]}
        elif h is not None:
            may = may | {('t', v, t[2], t[3]) for t in may if t[0] == 't' and t[1] == h[1]}
        return (may, must)

    def declare(self, vd, st):
        t = self.L[vd['v']]['t']
        if base(t) == self.h and not t.rstrip().endswith(('&', '*')):
            return self.copied(vd['v'], vd.get('init'), st)
        return st

    def gone(self, f, names, st):
        may = frozenset(x for x in st[0] if not (x[0] == 't' and x[2] == f and self.alike(x[3], names) or x[0] == 'd' and x[1] == f and self.alike(x[2], names)))
        return (may, st[1])

    def alike(self, a, b):
        return not a or not b or bool(a & b)

    def on(self, n, st):
        k = n['k']
        c = [x for x in n.get('c') or ()]
        d = self.P.D.get(n.get('f')) or {}
        if k == 'ocall' and n.get('op') == '=' and len(c) == 2:
            l = strip(c[0])
            if l is not None and l['k'] == 'var' and base(self.L[l['v']]['t']) == self.h and not self.L[l['v']]['t'].rstrip().endswith('&'):
                return self.copied(l['v'], c[1], st)
            if base((l or {}).get('t')) == self.h and self.mentions(l)[0]:
                return self.put(self.handles(c[1]), n, st)
            if l is not None and l['k'] == 'mem' and plain(l.get('q') or '') in self.fields:
                return self.gone(plain(l['q']), frozenset(), st)
        if k == 'mcall' and c:
            o = strip(c[0])
            if base((self.L[o['v']]['t'] if o is not None and o['k'] == 'var' else (o or {}).get('t'))) == self.h:
                if d.get('ret', '').rstrip().endswith('*') and not d.get('const') and o['k'] == 'var' and not self.L[o['v']]['t'].rstrip().endswith('&'):
                    return (st[0] | {('g', o['v'], n.get('l'))}, st[1] - {o['v']})
                return st
            fs = {plain(o['q'])} if o is not None and o['k'] == 'mem' and plain(o.get('q') or '') in self.fields else set()
            if not fs and o is not None and o['k'] == 'var':
                fs = self.mentions(o)[0]
            if fs and d.get('n') in INTO:
                return self.put([h for x in c[1:] if x is not None for h in self.handles(x)], n, st)
            if fs and d.get('n') in OUT:
                names = frozenset()
                if d['n'] == 'erase':
                    for x in c[1:]:
                        if x is not None:
                            names |= self.mentions(x)[1]
                for f in fs:
                    st = self.gone(f, names, st)
                return st
        if k in ('mcall', 'call') and n.get('f') and d.get('cls') and (self.P.body_of(n['f']) is not None):
            a = c[1:] if k == 'mcall' else c
            return self.put([h for p, x in zip(d.get('ps') or (), a) if x is not None and base(p['t']) == self.h for h in self.handles(x)], n, st)
        if k == 'call' and d.get('qn') == 'std::swap':
            for x in c:
                x = strip(x)
                if x is not None and x['k'] == 'mem' and plain(x.get('q') or '') in self.fields:
                    st = self.gone(plain(x['q']), frozenset(), st)
        return st

    def ret(self, n, st):
        x = n.get('e') or ((n.get('c') or [None])[0] if n.get('c') else None)
        if x is not None:
            hs = self.handles(x)
            if hs and not (self.P.D[self.fid].get('ret') or '').rstrip().endswith(('&', '*')):
                st = self.put(hs, n, st)
        return st


def check(P, R):
    R.rule('N04.once', 'A block that is moved between the free blocks and the live blocks, or taken out of them, is taken out of where it was on every path that returns: no block is free and live, or live twice.')
    R.rule('N04.kept', 'A block from which memory is handed out is entered among the live blocks, once, before the function returns.')
    R.rule('N04.grow', 'A block hands out its memory only after the size asked for was compared with its capacity, or it was given as much.')
    hs = blocks(P)
    done = set()
    for cls, h, fields in pools(P, hs):
        for fid, d, F in P.functions(lambda d: not d.get('dep')):
            if plain(d.get('cls') or '') != plain(cls) or d.get('implicit') or d.get('defaulted'):
                continue
            X = Linear(P, fid, F, h, fields)
            ex = X.run(F, (frozenset(), frozenset()))
            R.ob('N04.once', d['qn'])
            if X.ops:
                R.ob('N04.kept', d['qn'])
            for kind, n, st in ex:
                if kind == 'throw' or st is None:
                    continue
                for x in sorted(st[0], key=repr):
                    if x[0] == 'd':
                        R.bad('N04.once', '%s|%s' % (plain(d['qn']), x[1]), P.loc(fid, x[3]), '%s hands on a block it leaves in %s' % (d['qn'], x[1]))
                    elif x[0] == 'g' and x[1] not in st[1]:
                        R.bad('N04.kept', '%s|live' % plain(d['qn']), P.loc(fid, x[2]), '%s hands out the memory of a block that is not entered among the live blocks' % d['qn'])
            for l in sorted(X.twice):
                R.bad('N04.kept', '%s|twice' % plain(d['qn']), P.loc(fid, l), '%s stores one block twice' % d['qn'])
        if h not in done:
            done.add(h)
            grow(P, R, h)
    R.floor('N04.once', 4)
    R.floor('N04.kept', 2)
    R.floor('N04.grow', 1)


def grow(P, R, h):
    """Members of the block class that return the block, given a size."""
    cap = None
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        if plain(d.get('cls') or '') == h and d.get('n') == 'capacity' and d.get('const'):
            ms = [x['q'] for x in walk(F['body']) if x['k'] == 'mem' and x.get('q')]
            cap = ms[0] if len(ms) == 1 else cap
    if cap is None:
        return
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        if plain(d.get('cls') or '') != h or d.get('const') or len(d.get('ps') or ()) != 1 or base(d.get('ret')) != 'void' or not d['ret'].rstrip().endswith('*') or d.get('pat'):
            continue
        G = Guard(P)
        R.ob('N04.grow', d['qn'])
        v = F['ps'][0]
        size = ('uns', ('v', v))
        for kind, n, st in G.run(F, frozenset()):
            if kind == 'throw' or st is None:
                continue
            keys = {k for t, c in st if t != 'or' for k, _ in t if cap in repr(k)}
            if not any(G.implied(({k: 1, size: -1}, 0), st) for k in keys):
                R.bad('N04.grow', plain(d['qn']), P.loc(fid, n.get('l') if n else None), '%s can hand out a block smaller than the size asked for' % d['qn'])
                break

"""Explicit exceptions: which `throw`s (outside running out of memory) may leave a function, a statement or a callable value.

Callables held in std::function objects, function pointers and lambdas are followed to the functions stored in them."""
import re
from .program import walk, children
from .sem import strip, key

FUNCTION = re.compile(r'^(const )?std::function<')
THROWING_STD = re.compile(r'^std::(.*::at|sto(i|l|ll|ul|ull|f|d|ld)|rethrow_exception|rethrow_if_nested|.*::substr|__throw_\w+|throw_with_nested|.*future<.*::get|promise<.*::set_\w+)$')


NOWHERE = {'ps': [], 'locals': []}


class Values:
    """Flow-insensitive sources of callable objects: parameters, fields and locals to lambdas, functions and bound members."""

    def __init__(self, P):
        self.P = P
        self.args = {}        # (fid, i) -> [(F, expr)]
        self.fields = {}      # field -> [(F, expr)]
        self.locals = {}      # (id(F), v) -> [(F, expr)]
        self.m = {}
        for fid, d, F in P.functions():
            for i in F.get('inits', ()):
                if i.get('fld') and i.get('init') is not None:
                    self.fields.setdefault(i.get('q') or i['fld'], []).append((fid, F, i['init']))
            roots = [F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]
            for n in walk(roots):
                k = n['k']
                if k == 'vdecl' and n.get('init') is not None:
                    self.locals.setdefault((fid, n['v']), []).append((fid, F, n['init']))
                elif k == 'asg' or k == 'ocall' and n.get('op') == '=' and len(n.get('c', ())) == 2:
                    l = strip(n['c'][0])
                    if l is not None and l['k'] == 'var':
                        self.locals.setdefault((fid, l['v']), []).append((fid, F, n['c'][1]))
                    elif l is not None and l['k'] == 'mem':
                        self.fields.setdefault(l['q'], []).append((fid, F, n['c'][1]))
                if k in ('call', 'mcall', 'ctor', 'ocall') and n.get('f'):
                    c = n.get('c', ())
                    c = c[1:] if k == 'mcall' or k == 'ocall' and n.get('m') else c
                    for i, a in enumerate(c):
                        if a is not None and self.callable(F, a):
                            self.args.setdefault((n['f'], i), []).append((fid, F, a))
                            p = P.D.get(n['f'], {}).get('pat')
                            if p:
                                self.args.setdefault((p, i), []).append((fid, F, a))

        for q, g in P.G.items():
            i = g.get('init')
            if i is not None and i['k'] == 'ctor' and len(i.get('c', ())) > 1 and fn_of(i['c'][0]):
                for j, a in enumerate(i['c'][1:]):
                    if fn_of(a) or (strip(a) or {}).get('k') == 'lambda':
                        self.args.setdefault((fn_of(i['c'][0]), j), []).append((None, NOWHERE, a))
        # a callable given to a templated constructor ends up in the object's callable members
        for (f, i), l in list(self.args.items()):
            d = P.D.get(f, {})
            if d.get('ctor') and (d.get('pat') or d.get('dep')) and d.get('cls') in P.R:
                for x in P.R[d['cls']]['fields']:
                    if FUNCTION.match(x['t']) or 'VoidOperator' in x['t']:
                        self.fields.setdefault('%s::%s' % (d['cls'], x['n']), []).extend(l)

    def callable(self, F, a):
        s = strip(a)
        if s is None:
            return False
        if s['k'] in ('lambda', 'fn'):
            return True
        if s['k'] == 'var':
            return s['v'] < len(F['locals']) and callable_type(F['locals'][s['v']]['t'])
        return callable_type(s.get('t')) or callable_type(a.get('t'))

    def sources(self, fid, F, e, seen=None):
        """[(kind, fid, F, node-or-function)]: 'lambda', 'fn', 'unknown'."""
        seen = set() if seen is None else seen
        e = strip(e)
        if e is None or e['k'] in ('lit', 'zero'):
            return []
        k = e['k']
        if k == 'lambda':
            return [('lambda', fid, F, e)]
        if k == 'fn':
            return [('fn', fid, F, e.get('f'))] if e.get('f') else []
        if k == 'un' and e['op'] in ('&', '*'):
            return self.sources(fid, F, e['c'][0], seen)
        if k == 'cond':
            return self.sources(fid, F, e['c'][1], seen) + self.sources(fid, F, e['c'][2], seen)
        if k == 'var':
            key = (fid, e['v'])
            if key in seen:
                return []
            seen.add(key)
            out, hit = [], False
            for f2, F2, x in self.locals.get(key, ()):
                out += self.sources(f2, F2, x, seen)
                hit = True
            if e['v'] in F['ps']:
                i = F['ps'].index(e['v'])
                for f2, F2, x in self.args.get((fid, i), ()):
                    out += self.sources(f2, F2, x, seen)
                p = self.P.D.get(fid, {}).get('pat')
                for f2, F2, x in self.args.get((p, i), ()) if p else ():
                    out += self.sources(f2, F2, x, seen)
                hit = True
            if not hit:
                out.append(('unknown', fid, F, e))
            return out
        if k == 'mem':
            key = e['q']
            if key in seen:
                return []
            seen.add(key)
            out = []
            for f2, F2, x in self.fields.get(key, ()):
                out += self.sources(f2, F2, x, seen)
            return out
        if k in ('ctor', 'init', 'call', 'mcall', 'ocall') and e.get('c'):
            # a std::function made from something, std::move, std::bind, make_shared<...>(callable)
            out = self.registered(e, seen)
            for a in e['c']:
                if self.callable(F, a) or fn_of(a):
                    out += self.sources(fid, F, a, seen)
            return out
        return [('unknown', fid, F, e)]

    def registered(self, e, seen):
        """What a lookup in a registry returns: whatever was registered there."""
        d = self.P.D.get(e.get('f')) if e.get('f') else None
        if d is None or not d['n'].startswith('Query') or not d.get('cls'):
            return []
        key = ('reg', d['cls'])
        if key in seen:
            return []
        seen.add(key)
        out = []
        for (f, i), l in self.args.items():
            r = self.P.D.get(f, {})
            if r.get('cls') == d['cls'] and r['n'].startswith('Register'):
                for f2, F2, x in l:
                    out += self.sources(f2, F2, x, seen)
        return out


def callable_type(t):
    t = t or ''
    return bool(FUNCTION.match(t)) or '(lambda' in t or '(*)(' in t or '::*)(' in t or 'std::_Bind' in t or bool(re.search(r'\b(task_type|after_task_type)\b', t))


EXEMPT = {('ts::MemoryDevice::MemoryDevice', 0), ('ts::ComputingDevice::ComputingDevice', 0), ('ts::Device::Device', 0)}


class Explicit:
    """The call graph with the handlers around each call; answers which explicit throw can leave a function, witness included."""

    STD = THROWING_STD

    def __init__(self, P):
        self.P = P
        self.V = None
        self.e = {}
        self.safe = set()
        self.up = {}
        self.guards = []

    def values(self):
        if self.V is None:
            self.V = Values(self.P)
        return self.V

    def ancestors(self, t):
        if t not in self.up:
            out, todo = set(), [t]
            while todo:
                x = todo.pop()
                if x in out:
                    continue
                out.add(x)
                for b in self.P.R.get(x, {}).get('bases', ()):
                    todo.append(b['t'])
            self.up[t] = frozenset(out)
        return self.up[t]

    def scan(self, fid, F, n, caught=frozenset(), out=None, rethrow=None):
        """out: [(line, handlers, kind, what)] with kind 'throw' (type), 'fn' (function id) or 'lambda' (fid, F, node)."""
        out = [] if out is None else out
        if n is None:
            return out
        k = n['k']
        if k == 'lambda':
            return out
        if k == 'throw':
            for c in children(n):
                self.scan(fid, F, c, caught, out, rethrow)
            if n.get('c'):
                out.append((n['l'], caught, 'throw', n['c'][0].get('t') or n.get('t') or '?'))
            else:
                for t in rethrow or ('?',):
                    out.append((n['l'], caught, 'throw', t))
            return out
        if k == 'try':
            ts = [bare(h['t']) for h in n['h']]
            self.scan(fid, F, n['body'], caught | frozenset(ts), out, rethrow)
            for h, t in zip(n['h'], ts):
                self.scan(fid, F, h['body'], caught, out, [t if t != '...' else '?'])
            return out
        if k == 'if':
            self.scan(fid, F, n.get('init'), caught, out, rethrow)
            self.scan(fid, F, n['cond'], caught, out, rethrow)
            self.guards.append(n['cond'])
            self.scan(fid, F, n.get('then'), caught, out, rethrow)
            self.guards.pop()
            self.scan(fid, F, n.get('else'), caught, out, rethrow)
            return out
        for c in children(n):
            self.scan(fid, F, c, caught, out, rethrow)
        line = n.get('l')
        if k == 'ocall' and n.get('op') == '()' and n.get('c'):
            o = strip(n['c'][0])
            if o is not None and o['k'] == 'lambda':
                out.append((line, caught, 'lambda', (fid, F, o)))
                return out
            self.called(fid, F, n['c'][0], line, caught, out)
            if n.get('f') and self.P.body_of(n['f']) is not None:
                out.append((line, caught, 'fn', n['f']))
            return out
        if k in ('call', 'mcall') and not n.get('f'):
            if n.get('c'):
                self.called(fid, F, n['c'][0], line, caught, out)
            return out
        if k in ('call', 'mcall', 'ocall', 'ctor', 'del', 'new') and n.get('f'):
            if k == 'ctor' and self.fits(n) or k == 'mcall' and self.within(n):
                return out
            out.append((line, caught, 'fn', n['f']))
            for a in self.handed(n):
                a = fn_of(a)
                if a is not None:
                    out.append((line, caught, 'fn', a))       # a function handed over is assumed to be called (log << eject)
            d = self.P.D.get(n['f'])
            if d is not None and d.get('virt') and k == 'mcall' and n.get('virt'):
                for o in self.P.all_overriders(n['f']):
                    out.append((line, caught, 'fn', o))
        return out

    def handed(self, n):
        c = n.get('c', ())
        if n['k'] in ('ctor', 'new'):
            d = self.P.D.get(n['f'])
            return c[:1] if d is not None and not (d.get('cls') or '').startswith('std::') else ()
        return c

    def within(self, n):
        """stack.erase(from, stack.size()) under a test that the stack is larger than from."""
        d = self.P.D.get(n['f'])
        if d is None or d['qn'] != 'ts::Stack::erase' or len(n['c']) != 3:
            return False
        z = size_of(self.P, n['c'][2])
        if z is None or z != key(n['c'][0]):
            return False
        a = n['c'][1]
        if (strip(a) or {}).get('k') == 'lit' and strip(a).get('v') == 0:
            return True
        for g in self.guards:
            for x in walk(g):
                if x['k'] == 'bin' and x['op'] in ('>', '>=', '<', '<='):
                    l, r = x['c'] if x['op'] in ('>', '>=') else x['c'][::-1]
                    if size_of(self.P, l) == z and key(r) == key(a):
                        return True
        return False

    def fits(self, n):
        """A short string object made from a constant that fits."""
        d = self.P.D.get(n['f'])
        m = re.match(r'ts::(?:otl::sso::string<(\d+)|\w*Device$)', d and d.get('cls') or '')
        if not m or not n.get('c'):
            return False
        size = int(m.group(1) or 8)
        x = strip(n['c'][0])
        while x is not None and x['k'] == 'ctor' and x.get('c'):
            x = strip(x['c'][0])
        if x is not None and x['k'] == 'gv':
            gs = [g for q, g in self.P.G.items() if q.split('@')[0] == x['q'] or g.get('n') == x['q']]
            vs = {str((strip(g.get('init')) or {}).get('v')) for g in gs}
            return bool(gs) and all((strip(g.get('init')) or {}).get('k') == 'lit' for g in gs) and all(len(v) < size for v in vs)
        return x is not None and x['k'] == 'lit' and isinstance(x.get('v'), str) and len(x['v']) < size

    def called(self, fid, F, e, line, caught, out):
        v = strip(e)
        if v is not None and v['k'] == 'var' and v['v'] in F['ps'] and not FUNCTION.match(F['locals'][v['v']]['t']) and all(
                fn_of(x) is not None for f2, F2, x in self.values().args.get((fid, F['ps'].index(v['v'])), ())):
            return
        for kind, f2, F2, x in self.values().sources(fid, F, e):
            if kind == 'lambda':
                out.append((line, caught, 'lambda', (f2, F2, x)))
            elif kind == 'fn':
                out.append((line, caught, 'fn', x))

    def edges(self, key):
        """key: function id, or ('lambda', id)."""
        if key in self.e:
            return self.e[key]
        P = self.P
        out = []
        d = P.D.get(key)
        if d is not None and not (d['n'] in ('operator->', 'operator*') and (d.get('cls') or '').startswith('ts::Smart<')):
            F = P.body_of(key)
            if F is None:
                if self.STD.match(d['qn']):
                    out.append((None, frozenset(), 'throw', 'std::exception'))
            else:
                for i in F.get('inits', ()):
                    if i.get('init') is not None:
                        self.scan(key, F, i['init'], out=out)
                self.scan(key, F, F['body'], out=out)
        self.e[key] = out
        return out

    def escapes(self, t, caught):
        if '...' in caught:
            return False
        return not (self.ancestors(bare(t)) & caught)

    def lam_edges(self, x):
        f2, F2, n = x
        key = ('lambda', id(n))
        if key not in self.e:
            self.e[key] = self.scan(f2, F2, n.get('body'))
        return key

    def search(self, start):
        """start: edge list. Breadth first; returns [(fid or None, line, what)...] or None."""
        P = self.P
        todo = [(start, frozenset(), None)]
        seen = set()
        for edges, caught, trail in todo:
            for line, c, kind, what in edges:
                c = caught | c
                if '...' in c:
                    continue
                if kind == 'throw':
                    if str(what).endswith('OutOfMemoryException'):
                        continue
                    if self.escapes(what, c):
                        t = ((line, 'throw ' + str(what)), trail)
                        out = []
                        while t is not None:
                            out.append(t[0])
                            t = t[1]
                        return out[::-1]
                    continue
                if kind == 'fn':
                    key = what
                    if key in self.safe or self.exempt(key):
                        continue
                    name = P.D[key]['qn'] if key in P.D else '?'
                    nx = None
                else:
                    key = self.lam_edges(what)
                    name = 'the callable at %s' % P.loc(what[0], what[2].get('l'))
                if (key, c) in seen:
                    continue
                seen.add((key, c))
                nx = self.e[key] if not isinstance(key, str) else self.edges(key)
                if nx:
                    todo.append((nx, c, ((line, name), trail)))
        for key, c in seen:
            if not c:
                self.safe.add(key)
        return None

    def exempt(self, fid):
        """Calls whose checks cannot fail: the name of the default device is a constant that fits, its allocator is registered with the
        library (a tensor's initial empty memory), and clearing a stack erases exactly what is on it."""
        d = self.P.D.get(fid)
        if d is not None and d['qn'] == 'ts::SyncMemory::SyncMemory' and [p['t'] for p in d.get('ps', ())] == ['bool']:
            return True
        return d is not None and (d['qn'], len(d.get('ps', ()))) in EXEMPT

    def fn(self, fid):
        return None if fid in self.safe else self.search(self.edges(fid))

    def inside(self, fid, F, n):
        return self.search(self.scan(fid, F, n))


def size_of(P, n):
    """The object whose size() an expression is."""
    n = strip(n)
    if n is not None and n['k'] == 'mcall' and n.get('f') and P.D[n['f']]['n'] == 'size' and n.get('c'):
        return key(n['c'][0])
    return None


def fn_of(n):
    n = strip(n)
    if n is not None and n['k'] == 'un' and n['op'] == '&':
        n = strip(n['c'][0])
    return n.get('f') if n is not None and n['k'] == 'fn' else None


def bare(t):
    t = (t or '').strip()
    t = re.sub(r'^(const|volatile) ', '', t)
    return re.sub(r'\s*(&&?|\*)\s*$', '', t).strip()


def show(P, w):
    return ' -> '.join(x if line is None else '%s (line %s)' % (x, line) for line, x in w or ())

"""O05: iterations of a parallel loop write only data of their own.

For every variable of a parallel region the analysis decides what part of the iteration number its value carries (all of it,
a quotient, a remainder, only the outcome of a test, or only a value loaded from where it points). A store is private if it goes to a variable of the iteration, or to an address
whose iteration part tells iterations apart; stores of callees are followed through their parameters, members and globals."""
import re
from .program import walk, children
from .sem import strip, key
from .locks import plain, parents

SAFE = re.compile(r'^(const |volatile )*(std::(atomic|mutex|recursive_mutex|condition_variable|once_flag)\b|std::atomic_|ts::rwmutex)')
OWNING = re.compile(r'^(const )?(std::(vector|array|string|basic_string|unique_ptr|map|unordered_map|list|deque)\b)')
GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'clear', 'resize', 'pop_back', 'reset', 'swap', 'assign', 'reserve', 'append',
        'push', 'pop', 'push_front', 'pop_front', 'shrink_to_fit'}
STORES = {'memcpy': 0, 'memset': 0, 'memmove': 0, 'fill': 0, 'fill_n': 0, 'copy': 2, 'copy_n': 2, 'iota': 0, 'strcpy': 0, 'transform': None, 'sort': 0}
THREAD = {'omp_get_thread_num', 'openmp_thread_id'}
LOOK = {'at', 'begin', 'end', 'data', 'get', 'front', 'back', 'operator[]', 'find', 'rbegin'}


def pointer(t):
    return t.rstrip().rstrip('const').rstrip().endswith(('*', '&', '*__restrict', '*restrict', ']')) or t.rstrip().endswith('restrict')


class Effects:
    """What a function writes outside its own variables: ('p', i) through a parameter, 'this' a member of its object, ('g', q) a global."""

    def __init__(self, P):
        self.P = P
        self.m = {}
        self.r = {}

    def of(self, fid):
        if fid in self.m:
            return self.m[fid]
        self.m[fid] = {}
        for _ in range(4):
            new = self.compute(fid)
            if set(new) == set(self.m[fid]):
                break
            self.m[fid] = new
        return self.m[fid]

    def compute(self, fid):
        F = self.P.body_of(fid)
        d = self.P.D.get(fid)
        if F is None or d is None:
            return {}
        self.r[fid] = R = Roots(self, F, d)
        out = {}
        roots = [F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]
        safe = locked(F, roots)
        for base, n, how, a in stores(self, F, roots):
            if id(n) in safe:
                continue
            for r in R.store(base, a):
                if r == 'this' and (d.get('ctor') or d.get('dtor')):
                    continue
                out.setdefault(r, (fid, n.get('l')))
        return out

    def callees(self, n):
        f = n.get('f')
        if not f:
            return []
        d = self.P.D.get(f)
        fs = [f]
        if d is not None and d.get('virt') and n['k'] == 'mcall' and n.get('virt'):
            fs += list(self.P.all_overriders(f))
        return [x for x in fs if self.P.body_of(x) is not None]


def locked(F, roots):
    """Nodes in a critical or atomic section, or in a block that holds a lock guard."""
    out = set()
    for x in walk(roots):
        if x['k'] == 'omp' and x.get('dir') in ('critical', 'atomic', 'ordered', 'single', 'master', 'masked') or x['k'] == 'block' and any(
                z['k'] == 'vdecl' and z['v'] < len(F['locals']) and re.search(r'lock_guard|unique_lock|scoped_lock|unique_write_lock', F['locals'][z['v']]['t'])
                for y in x['c'] if y is not None and y['k'] == 'decl' for z in y['c'] if z is not None):
            out.update(id(y) for y in walk(x))
    return out


def call_args(P, n):
    """(object or None, arguments)"""
    c = n.get('c', ())
    d = P.D.get(n.get('f')) if n.get('f') else None
    if n['k'] == 'mcall' or n['k'] == 'ocall' and (n.get('m') or d is not None and d.get('cls') and not d.get('static') and len(c) == len(d.get('ps', ())) + 1):
        return (c[0] if c else None), c[1:]
    return None, c


def stores(E, F, roots, lambdas=True):
    """Yields (expression, node, how, address): address True when what the expression points to is written, False when it is itself."""
    P = E.P
    for x in walk(roots, lambdas=lambdas):
        k = x['k']
        if k == 'asg':
            yield x['c'][0], x, 'changes', False
        elif k == 'un' and x['op'] in ('++', '--'):
            yield x['c'][0], x, 'changes', False
        elif k == 'ocall' and x.get('op') in ('=', '+=', '-=', '*=', '/=', '++', '--', '|=', '&=', '^=', '<<=', '>>=') and x.get('c'):
            yield x['c'][0], x, 'changes', False
        elif k in ('call', 'mcall', 'ocall', 'ctor', 'new') and x.get('f'):
            d = P.D.get(x['f'])
            if d is None:
                continue
            if k == 'mcall' and (d.get('cls') or '').startswith('std::') and d['n'] in GROW and not (d.get('cls') or '').startswith('std::atomic'):
                yield x['c'][0], x, 'calls %s of' % d['n'], False
                continue
            obj, args = call_args(P, x)
            if P.body_of(x['f']) is None:
                if k == 'call' and d['n'] in STORES and (d['qn'] in (d['n'], 'std::' + d['n'])):
                    i = STORES[d['n']]
                    if i is not None and i < len(args):
                        yield args[i], x, 'fills', True
                elif k == 'call' and re.match(r'_mm\w*_(store|stream|maskstore)\w*$', d['n']) and args:
                    yield args[0], x, 'stores to', True
                elif k == 'call' and d['qn'] == 'std::swap':
                    for a in args:
                        yield a, x, 'swaps', False
                continue
            if k == 'ctor' or k == 'new':
                obj = None
            for f in E.callees(x) or ():
                fd = P.D[f]
                w = E.of(f)
                if 'this' in w and obj is not None and not fd.get('ctor'):
                    yield obj, x, 'calls %s, which changes' % fd['qn'], 'obj'
                for i, a in enumerate(args):
                    if ('p', i) in w:
                        pt = fd['ps'][i]['t'] if i < len(fd.get('ps', ())) else ''
                        yield a, x, 'calls %s, which writes' % fd['qn'], not pt.rstrip().endswith('&')
                for g in w:
                    if g[0] == 'g':
                        yield {'k': 'gv', 'q': g[1], 't': ''}, x, 'calls %s, which changes' % fd['qn'], False


def path(t):
    """Follows a stored-to expression to its root: (root node, [index expressions], number of pointers or elements followed)."""
    idx, deref = [], 0
    while True:
        t = strip(t)
        if t is None:
            return None, idx, deref
        k = t['k']
        c = t.get('c') or ()
        if k == 'sub':
            idx.append(c[1])
            deref += 1
            t = c[0]
        elif k == 'ocall' and t['op'] == '[]' and c:
            idx += c[1:]
            deref += 1
            t = c[0]
        elif k == 'ocall' and t['op'] in ('*', '->') and len(c) == 1 or k == 'un' and t['op'] == '*':
            deref += 1
            t = c[0]
        elif k == 'un' and t['op'] == '&':
            deref -= 1
            t = c[0]
        elif k == 'un' and t['op'] in ('++', '--'):
            t = c[0]
        elif k == 'bin' and t['op'] in ('+', '-'):
            a, b = strip(c[0]), strip(c[1])
            at, bt = (a.get('t') or ''), (b.get('t') or '')
            if pointer(bt) and not pointer(at):
                idx.append(c[0])
                t = c[1]
            else:
                idx.append(c[1])
                t = c[0]
        elif k == 'asg':
            t = c[0]
        elif k == 'mem':
            if t.get('arrow') and c and strip(c[0])['k'] != 'this':
                deref += 1
            if not c or strip(c[0])['k'] == 'this':
                return t, idx, deref
            t = c[0]
        elif k == 'mcall' and c and t.get('f'):
            idx += c[1:]
            deref += 1
            t = c[0]
        elif k == 'cond' and len(c) == 3:
            t = c[1]
        elif k == 'ocall' and t['op'] in ('+', '-', '++', '--') and c:
            idx += c[1:]
            t = c[0]
        else:
            return t, idx, deref


class Roots:
    """Which caller-visible memory the pointers and references of a function lead to (flow-insensitive)."""

    def __init__(self, E, F, d):
        self.E, self.F, self.P = E, F, E.P
        self.method = bool(d.get('cls')) and not d.get('static')
        self.pt = {}
        for i, v in enumerate(F['ps']):
            t = F['locals'][v]['t']
            if pointer(t):
                self.pt.setdefault(v, set()).add(('p', i))
        roots = [F['body']]
        for _ in range(4):
            n0 = sum(len(x) for x in self.pt.values())
            for x in walk(roots):
                if x['k'] == 'vdecl' and x.get('init') is not None and self.refers(x['v']):
                    self.pt.setdefault(x['v'], set()).update(self.roots(x['init']))
                elif x['k'] == 'asg' and x.get('op') == '=':
                    l = strip(x['c'][0])
                    if l is not None and l['k'] == 'var' and self.refers(l['v']):
                        self.pt.setdefault(l['v'], set()).update(self.roots(x['c'][1]))
            if sum(len(x) for x in self.pt.values()) == n0:
                break

    def refers(self, v):
        return v < len(self.F['locals']) and pointer(self.F['locals'][v]['t'])

    def roots(self, e):
        """What an expression's value points to."""
        r, idx, deref = path(e)
        if r is None:
            return set()
        k = r['k']
        if k == 'var':
            return set(self.pt.get(r['v'], ()))
        if k == 'this':
            return {'this'}
        if k == 'mem':
            return {'this'} if OWNING.match(r.get('t') or '') or deref < 0 else set()
        if k == 'gv' and deref < 0:
            return {('g', r['q'])}
        return set()

    def store(self, base, address):
        r, idx, deref = path(base)
        if address is True:
            deref += 1
        if r is None:
            return set()
        k = r['k']
        if k == 'var':
            v = r['v']
            L = self.F['locals'][v] if v < len(self.F['locals']) else {}
            if L.get('st') and not L.get('tls'):
                return {('g', 'static %s' % L.get('n'))}
            t = L.get('t', '')
            if pointer(t) and (deref > 0 or t.rstrip().endswith('&') or address == 'obj'):
                return set(self.pt.get(v, ()))
            return set()
        if k == 'mem':
            t = r.get('t') or ''
            if SAFE.match(t) or not self.method:
                return set()
            if deref > 0 and not OWNING.match(t):
                return set()
            return {'this'}
        if k == 'this':
            return {'this'}
        if k == 'gv':
            if r.get('tls') or SAFE.match(r.get('t') or '') or deref > 0 and not OWNING.match(r.get('t') or ''):
                return set()
            return {('g', r['q'])}
        return set()


# ---------------------------------------------------------------- regions

INJ = ('div', 0)     # the whole iteration number; ('div', k): it divided k times; ('mod', k): the remainder of that


def part(x, div):
    """The quotient or remainder of a part of the iteration number."""
    if x[0] not in ('div', 'mod'):
        return x
    return (x[0], min(x[1] + 1, 6)) if div else ('mod', x[1])


class Region:
    def __init__(self, P, E, fid, d, F, bodies, itv, shared, whole):
        """itv: iteration variables; shared: predicate over local variables; whole: all code of the function (for lambdas)."""
        self.P, self.E, self.fid, self.d, self.F = P, E, fid, d, F
        self.bodies = bodies
        self.shared = shared
        self.taint = {v: {INJ} for v in itv}
        self.itv = set(itv)
        self.whole = whole
        self.lams = {}
        for x in walk(whole):
            if x['k'] == 'vdecl' and x.get('init') is not None:
                i = strip(x['init'])
                while i is not None and i['k'] == 'ctor' and len(i.get('c', ())) == 1:
                    i = strip(i['c'][0])
                if i is not None and i['k'] == 'lambda':
                    self.lams[x['v']] = i
        self.inlined = []
        todo = list(bodies)
        seen = set()
        while todo:
            b = todo.pop()
            for x in walk(b):
                if x['k'] in ('ocall', 'call', 'mcall', 'ctor'):
                    for j, a in enumerate(x.get('c', ())):
                        s = strip(a)
                        if s is not None and s['k'] == 'var' and s['v'] in self.lams and s['v'] not in seen:
                            seen.add(s['v'])
                            l = self.lams[s['v']]
                            if l.get('body') is not None:
                                self.inlined.append((l, x if x['k'] == 'ocall' and x.get('op') == '()' and j == 0 else None))
                                todo.append(l['body'])
        self.code = list(bodies) + [l['body'] for l, x in self.inlined]
        self.flow()

    def kinds(self, e, depth=0):
        """Which part of the iteration number the value carries."""
        e = strip(e)
        if e is None or depth > 40:
            return set()
        k = e['k']
        if k == 'var':
            return self.taint.get(e['v'], set())
        if k == 'lambda':
            return set()
        c = e.get('c') or ()
        if k in ('call', 'mcall') and e.get('f') and self.P.D.get(e['f'], {}).get('n') in THREAD:
            return {INJ}
        if k == 'bin' and e['op'] in ('/', '%', '>>', '&') and len(c) == 2:
            a = self.kinds(c[0], depth + 1)
            b = self.kinds(c[1], depth + 1)
            if a and not b:
                return {part(x, e['op'] in ('/', '>>')) for x in a}
            return a | b
        if k == 'bin' and e['op'] in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
            return {('test',)} if any(self.kinds(x, depth + 1) for x in c) else set()
        if k == 'un' and e['op'] == '!':
            return {('test',)} if any(self.kinds(x, depth + 1) for x in c) else set()
        if k == 'un' and e['op'] == '&':
            return self.address(c[0])
        if k == 'sub' or k == 'un' and e['op'] == '*' or k == 'ocall' and e['op'] in ('[]', '*'):
            # a value read from memory: which one it is depends on the iteration, but two iterations may read equal values
            ks = set()
            for x in c:
                ks |= self.kinds(x, depth + 1)
            r, idx, deref = path(e)
            if r is not None and r['k'] == 'var' and not self.shared(r['v']) and not pointer(self.F['locals'][r['v']]['t']):
                return ks
            return {('load',)} if ks else set()
        if k == 'cond':
            out = set()
            for x in c[1:]:
                out |= self.kinds(x, depth + 1)
            if self.kinds(c[0], depth + 1):
                out.add(('test',))
            return out
        if k == 'asg':
            return self.kinds(c[1], depth + 1) | (self.kinds(c[0], depth + 1) if e['op'] != '=' else set())
        out = set()
        for x in children(e):
            out |= self.kinds(x, depth + 1)
        return out

    def address(self, e):
        r, idx, deref = path(e)
        ks = set()
        for x in idx:
            ks |= self.kinds(x)
        return ks | (self.kinds(r) if r is not None else set())

    def flow(self):
        for _ in range(12):
            n0 = sum(len(x) for x in self.taint.values())
            for b in self.code:
                for x in walk(b):
                    if x['k'] == 'vdecl' and x.get('init') is not None:
                        self.add(x['v'], self.kinds(x['init']))
                    elif x['k'] == 'rfor':
                        v = x['v'] if not isinstance(x.get('v'), dict) else x['v'].get('v')
                        if v is not None:
                            self.add(v, self.kinds(x.get('range')))
                    elif x['k'] == 'asg' or x['k'] == 'ocall' and x.get('op') in ('=', '+=', '-=') and len(x['c']) == 2:
                        r, idx, deref = path(x['c'][0])
                        if r is not None and r['k'] == 'var' and (deref == 0 or not self.shared(r['v']) and not pointer(self.F['locals'][r['v']]['t'])):
                            self.add(r['v'], self.kinds(x['c'][1]))
                    elif x['k'] in ('call', 'mcall', 'ocall', 'ctor') and x.get('f') and self.E.callees(x):
                        # a result handed back through a reference or pointer to a variable of the iteration
                        obj, args = call_args(self.P, x)
                        ks = set()
                        for a in x.get('c', ()):
                            ks |= self.kinds(a)
                        if ks:
                            ps = self.P.D[x['f']].get('ps', ())
                            for i, a in enumerate(args):
                                s = strip(a)
                                if s is not None and s['k'] == 'un' and s['op'] == '&':
                                    s = strip(s['c'][0])
                                elif i >= len(ps) or not ps[i]['t'].rstrip().endswith('&') or ps[i]['t'].startswith('const '):
                                    continue
                                if s is not None and s['k'] == 'var' and not self.shared(s['v']):
                                    self.add(s['v'], ks)
            for l, call in self.inlined:
                if call is None:
                    for v in l.get('ps', ()):
                        self.add(v, {INJ})
                else:
                    for v, a in zip(l.get('ps', ()), call['c'][1:]):
                        self.add(v, self.kinds(a))
            if sum(len(x) for x in self.taint.values()) == n0:
                break

    def add(self, v, ks):
        if ks and not self.shared(v):
            self.taint.setdefault(v, set()).update(ks)

    def distinct(self, ks):
        if INJ in ks:
            return True
        top = max([x[1] for l in self.taint.values() for x in l if x[0] in ('div', 'mod')] or [0])
        for k in range(top + 1):
            if ('div', k) in ks:
                return True
            if ('mod', k) not in ks:
                return False
        return True

    # where pointers and references of the iteration lead
    def leads(self, v, depth=0):
        """[(root node, kinds, derefs)] for the shared things a local pointer of the iteration may point into."""
        F = self.F
        t = F['locals'][v]['t'] if v < len(F['locals']) else ''
        if not pointer(t) or depth > 6:
            return []
        out = []
        for b in self.code:
            for x in walk(b):
                e = None
                if x['k'] == 'vdecl' and x['v'] == v:
                    e = x.get('init')
                elif x['k'] == 'asg' and x['op'] == '=' and (strip(x['c'][0]) or {}).get('k') == 'var' and strip(x['c'][0])['v'] == v:
                    e = x['c'][1]
                if e is None:
                    continue
                r, idx, deref = path(e)
                if r is None:
                    continue
                if r['k'] == 'var' and not self.shared(r['v']):
                    out += self.leads(r['v'], depth + 1)
                else:
                    out.append(r)
        return out

    def check(self, R, rule, what):
        P, F, fid, d = self.P, self.F, self.fid, self.d
        for b in self.code:
            par = parents(b)
            crit = locked(F, [b])
            for base, x, how, addr in stores(self.E, F, [b], lambdas=True):
                R.ob(rule)
                if id(x) in crit:
                    continue
                r, idx, deref = path(base)
                if addr is True:
                    deref += 1
                if r is None:
                    continue
                ks = self.address(base)
                if r['k'] == 'var':
                    v = r['v']
                    L = F['locals'][v] if v < len(F['locals']) else {'t': '', 'n': '?'}
                    t = L['t']
                    if SAFE.match(t) or L.get('tls'):
                        continue
                    ref = t.rstrip().endswith('&')
                    if self.shared(v) or L.get('st'):
                        if deref > 0 or addr == 'obj' and pointer(t):
                            # an element of something shared
                            bits = re.match(r'^(const )?std::vector<bool', t)
                            if bits:
                                self.bad(R, rule, what, x, '%s elements of %s, whose elements share words of memory' % (how, L['n']), L['n'])
                            elif not self.distinct(ks) and not self.guarded(x, par):
                                self.bad(R, rule, what, x, '%s an element of %s that is not chosen by the iteration' % (how, L['n']), L['n'])
                        else:
                            self.bad(R, rule, what, x, '%s %s, which all iterations share' % (how, L['n']), L['n'])
                    elif pointer(t) and (deref > 0 or ref or addr == 'obj'):
                        if self.distinct(ks) or self.distinct(self.taint.get(v, set())) or self.guarded(x, par):
                            continue
                        ls = [z for z in self.leads(v) if z['k'] in ('var', 'mem', 'gv')]
                        for z in ls:
                            nm = F['locals'][z['v']]['n'] if z['k'] == 'var' else z.get('n') or z.get('q')
                            self.bad(R, rule, what, x, '%s an element of %s that is not chosen by the iteration' % (how, nm), nm)
                elif r['k'] == 'mem':
                    t = r.get('t') or ''
                    if SAFE.match(t) or self.distinct(ks) and deref > 0:
                        continue
                    if r.get('c') and strip(r['c'][0])['k'] != 'this':
                        continue
                    if self.guarded(x, par):
                        continue
                    self.bad(R, rule, what, x, '%s %smember %s, which all iterations share' % (how, 'an element of ' if deref > 0 else '', r['n']), r['n'])
                elif r['k'] == 'gv':
                    if r.get('tls') or SAFE.match(r.get('t') or '') or self.distinct(ks) and deref > 0 or tls(P, r['q']):
                        continue
                    self.bad(R, rule, what, x, '%s %s, which all threads share' % (how, r['q']), r['q'])
                elif r['k'] == 'this':
                    if self.distinct(ks) or self.guarded(x, par):
                        continue
                    self.bad(R, rule, what, x, '%s the object all iterations share' % how, 'this')

    def guarded(self, x, par):
        """Only one iteration gets here: under a test that the iteration number equals something."""
        n = x
        while True:
            p = par.get(id(n))
            if p is None:
                return False
            if p['k'] == 'if' and n is not p.get('cond'):
                c = strip(p['cond'])
                if c is not None and c['k'] == 'bin' and c['op'] == '==' and n is p.get('then'):
                    a, b = self.kinds(c['c'][0]), self.kinds(c['c'][1])
                    if (self.distinct(a) and not b) or (self.distinct(b) and not a):
                        return True
            n = p

    def bad(self, R, rule, what, x, text, name):
        R.bad(rule, '%s|%s' % (plain(self.d['qn']), name), self.P.loc(self.fid, x.get('l')), '%s in %s %s' % (what, self.d['qn'], text))

    # reads of what other iterations write
    def neighbours(self, R, rule, what):
        """An array both written and read: the read element is the written one."""
        wr, rd = {}, {}
        for b in self.code:
            par = parents(b)
            for x in walk(b):
                if x['k'] != 'sub' and not (x['k'] == 'ocall' and x.get('op') == '[]' and len(x['c']) == 2):
                    continue
                base = strip(x['c'][0])
                if base is None or base['k'] != 'var' or not self.shared(base['v']):
                    continue
                ks = self.kinds(x['c'][1])
                p, n = par.get(id(x)), x
                while p is not None and p['k'] in ('cast', 'icast', 'upcast'):
                    n, p = p, par.get(id(p))
                w = p is not None and (p['k'] == 'asg' and p['c'][0] is n or p['k'] == 'un' and p['op'] in ('++', '--'))
                f = affine(x['c'][1], self.itv)
                if f is None:
                    continue
                (wr if w else rd).setdefault(base['v'], []).append((f, x))
        for v, l in wr.items():
            for wf, wx in l:
                for rf, rx in rd.get(v, ()):
                    R.ob(rule)
                    if wf[0] == rf[0] and wf[0] and wf[1] == rf[1] and wf[2] != rf[2] and abs(wf[2] - rf[2]) % (wf[3] or 1) == 0:
                        self.bad(R, rule, what, rx, 'reads an element of %s that another iteration writes' % self.F['locals'][v]['n'], self.F['locals'][v]['n'])


def affine(e, itv):
    """(coefficient-of-iteration terms, other terms, constant, coefficient if the index is c * i + constant) for simple index expressions."""
    it, other, const = [], [], 0

    def go(n, s):
        nonlocal const
        n = strip(n)
        if n is None:
            return False
        if 'cv' in n and isinstance(n['cv'], int):
            const += s * n['cv']
            return True
        if n['k'] == 'lit' and isinstance(n.get('v'), int):
            const += s * n['v']
            return True
        if n['k'] == 'bin' and n['op'] in ('+', '-'):
            return go(n['c'][0], s) and go(n['c'][1], s if n['op'] == '+' else -s)
        if any(x['k'] == 'var' and x['v'] in itv for x in walk(n)):
            it.append((s, str(key(n)), n))
        else:
            other.append((s, str(key(n))))
        return True
    if not go(e, 1):
        return None
    c = None
    if len(it) == 1 and it[0][2]['k'] == 'var':
        c = 1
    if c is None:
        return (tuple(sorted(x[:2] for x in it)), tuple(sorted(other)), const, 10 ** 9)
    return (tuple(sorted(x[:2] for x in it)), tuple(sorted(other)), const, c)


def tls(P, q):
    return any(g.get('tls') for k, g in P.G.items() if (g.get('n') == q or k.split('@')[0] == q))


def loop_vars(n):
    """The loop of a work-sharing directive and the variables that number its iterations (all collapsed loops of it)."""
    loop, out = n.get('body'), set()
    first = None
    while loop is not None:
        while loop is not None and loop['k'] == 'block' and len(loop['c']) == 1:
            loop = loop['c'][0]
        if loop is None or loop['k'] != 'for':
            break
        first = first or loop
        if loop.get('init') is not None:
            for x in walk(loop['init']):
                if x['k'] == 'vdecl':
                    out.add(x['v'])
                if x['k'] == 'asg' and strip(x['c'][0])['k'] == 'var':
                    out.add(strip(x['c'][0])['v'])
        if not any(c['k'] == 'collapse' for c in n.get('cl', ())):
            break
        loop = loop.get('body')
    return first, out


def omp_region(P, E, fid, d, F, n):
    private = set()
    for o in [n] + [x for x in walk(n.get('body')) if x['k'] == 'omp']:
        for c in o.get('cl', ()) or ():
            if c['k'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                for v in c.get('vs', ()):
                    v = strip(v) if isinstance(v, dict) else {'k': 'var', 'v': v}
                    if v is not None and v['k'] == 'var':
                        private.add(v['v'])
    if 'for' in n.get('dir', '') or 'loop' in n.get('dir', ''):
        loop, itv = loop_vars(n)
        bd = [loop['body'] if loop is not None and loop.get('body') is not None else n['body']]
    else:
        itv, bd = set(), [n['body']]
        for x in walk(n['body']):
            if x['k'] == 'omp' and ('for' in x.get('dir', '') or 'loop' in x.get('dir', '')):
                itv |= loop_vars(x)[1]
    declared = set()
    lam_locals = set()
    for x in walk(bd):
        if x['k'] == 'vdecl':
            if not (F['locals'][x['v']].get('st')):
                declared.add(x['v'])
        if x['k'] == 'rfor' and 'v' in x:
            declared.add(x['v'] if not isinstance(x['v'], dict) else x['v'].get('v'))
        if x['k'] == 'lambda':
            declared |= set(x.get('ps', ()))
        if x['k'] == 'try':
            for h in x['h']:
                if h.get('v') is not None:
                    declared.add(h['v'])
    for x in walk(F['body']):
        if x['k'] == 'lambda':
            for y in walk(x.get('body')):
                if y['k'] == 'vdecl':
                    lam_locals.add(y['v'])
            lam_locals |= set(x.get('ps', ()))
    own = private | itv | declared
    own |= lam_locals
    return Region(P, E, fid, d, F, bd, itv, lambda v: v not in own, [F['body']])


def lambda_region(P, E, fid, d, F, y):
    declared = set(y.get('ps', ()))
    for x in walk(y['body']):
        if x['k'] == 'vdecl' and not F['locals'][x['v']].get('st'):
            declared.add(x['v'])
        if x['k'] == 'rfor' and 'v' in x:
            declared.add(x['v'] if not isinstance(x['v'], dict) else x['v'].get('v'))
    caps = {c['v']: bool(c.get('ref')) for c in y.get('caps', ()) if 'v' in c}
    itv = set(y.get('ps', ()))
    for v, ref in caps.items():
        if not ref:
            declared.add(v)
            t = F['locals'][v]['t']
            # a copy taken when the task was made: differs between tasks when the loop that makes them changes it
            if loop_var(F, y, v):
                itv.add(v)
    return Region(P, E, fid, d, F, [y['body']], itv, lambda v: v not in declared, [F['body']])


def loop_var(F, y, v):
    par = {}
    for n in walk(F['body']):
        for c in children(n):
            par[id(c)] = n
    n = y
    while id(n) in par:
        p = par[id(n)]
        if p['k'] in ('for', 'rfor', 'while', 'do'):
            if p['k'] == 'rfor' and (p.get('v') == v):
                return True
            for x in walk(p):
                if x['k'] == 'vdecl' and x['v'] == v:
                    return True
                if x['k'] == 'asg' and (strip(x['c'][0]) or {}).get('v') == v or x['k'] == 'un' and x['op'] in ('++', '--') and (strip(x['c'][0]) or {}).get('v') == v:
                    return True
        n = p
    return False


def check(P, R):
    R.rule('O05.store', 'Every store in a parallel loop or pool task, including those of the functions it calls, goes to a variable of the iteration or to an '
                        'address that tells iterations apart; otherwise it is an atomic, in a critical section, or a declared reduction.')
    R.rule('O05.read', 'Where an iteration reads an array that the loop also writes, it does not read an element that another iteration writes.')
    E = Effects(P)
    regions = 0
    for fid, d, F in P.functions():
        for n in walk(F['body']):
            if n['k'] == 'omp' and 'parallel' in n.get('dir', '') and n.get('body') is not None:
                regions += 1
                r = omp_region(P, E, fid, d, F, n)
                R.ob('O05.store', 'parallel loop at %s' % P.loc(fid, n.get('l')))
                r.check(R, 'O05.store', 'the parallel loop')
                r.neighbours(R, 'O05.read', 'the parallel loop')
    from .throws import Values
    V = Values(P)
    seen = set()
    for (f, i), l in V.args.items():
        if P.D.get(f, {}).get('qn') not in ('ts::parallel_run', 'ts::parallel_range', 'ts::ThreadPool::run', 'ts::Thread::run'):
            continue
        for f2, F2, a in l:
            for kind, f3, F3, y in V.sources(f2, F2, a):
                if kind == 'lambda' and id(y) not in seen and y.get('body') is not None and f3:
                    seen.add(id(y))
                    regions += 1
                    R.ob('O05.store', 'task at %s' % P.loc(f3, y.get('l')))
                    r = lambda_region(P, E, f3, P.D[f3], F3, y)
                    r.check(R, 'O05.store', 'the parallel task')
                    r.neighbours(R, 'O05.read', 'the parallel task')
    R.floor('O05.store', 300)

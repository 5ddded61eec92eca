"""R04: whoever waits is woken, and every lock taken is given back."""
import re
from .program import walk, children, AnalysisError
from .sem import strip
from .flow import Flow
from .locks import Locks, Held, plain, lock_types, lock_of, guards_in, parents, GUARD, HOLDER, sig

CV = re.compile(r'^std::condition_variable(_any)?$')
WAITS = ('wait', 'wait_for', 'wait_until')
GROW = {'push_back', 'push_front', 'emplace_back', 'emplace_front', 'push', 'emplace', 'insert'}
SHRINK = {'pop_front', 'pop_back', 'pop', 'erase', 'remove'}


def check(P, R):
    R.rule('R04.wait', 'Every wait on a condition variable passes a predicate or stands in a loop that tests its condition again after each wake-up.')
    R.rule('R04.wake', 'Every write that can make a waited-for condition true is made under the lock the waiters use and, on every path, is accompanied '
                       'by a notification of that condition variable (excused where the condition is known to be still false, or nobody can be waiting); '
                       'notify_one counts only where all waiters wait for the same thing and the one woken takes it away again.')
    R.rule('R04.release', 'A lock taken by hand is released on every way out of the function, and a lock holder class releases in its destructor '
                          'what its constructor took, exactly when it still owns it.')
    R.rule('R04.order', 'Locks are taken in one order (no cycle over all call paths, through task functions and callbacks), none is taken again while held, '
                        'and nobody waits while holding a lock its waker needs.')
    W = waits(P, R)
    wake(P, R, W)
    release(P, R)
    order(P, R, W)


# ---------------------------------------------------------------- conditions

def field_of(P, n):
    n = strip(n)
    while n is not None and n['k'] in ('mcall', 'ocall') and n.get('c'):
        nm = P.D.get(n.get('f'), {}).get('n', '')
        if n['k'] == 'mcall' and (nm == 'load' or nm.startswith('operator ')) and len([c for c in n['c'] if c is not None and c['k'] != 'defarg']) <= 1:
            n = strip(n['c'][0])
        else:
            return None
    if n is not None and n['k'] == 'mem':
        b = strip(n['c'][0]) if n.get('c') else None
        if b is None or b['k'] == 'this':
            return plain(n['q'])
    if n is not None and n['k'] == 'un' and n['op'] in ('++', '--') and not n.get('post'):
        return field_of(P, n['c'][0])
    return None


def const_of(n):
    n = strip(n)
    if n is None:
        return None
    if 'cv' in n:
        return n['cv']
    if n['k'] == 'lit':
        v = n.get('v')
        return 0 if v is None or v is False or v == 'nullptr' else 1 if v is True else v
    if n['k'] in ('zero',):
        return 0
    if n['k'] in ('init', 'ctor') and len([c for c in n.get('c', ()) if c is not None and c['k'] != 'defarg']) == 0:
        return 0
    if n['k'] in ('ctor', 'cast', 'icast', 'init') and len(n.get('c', ())) == 1:
        return const_of(n['c'][0])
    return None


def is_null(n):
    n = strip(n)
    if n is None:
        return False
    t = n.get('t') or ''
    return 'nullptr' in t or n['k'] == 'lit' and (n.get('v') is None or n.get('v') == 'nullptr') or const_of(n) == 0


def cond_tree(P, n, pol, depth=0):
    """Negation normal form over literals ('lit', field, zero?) and ('opq', fields)."""
    n0 = n
    n = strip(n)
    while n is not None and n['k'] in ('cast', 'icast', 'upcast') and n.get('c'):
        n = strip(n['c'][0])
    if n is None:
        return ('opq', frozenset())
    k = n['k']
    if k == 'lit' or 'cv' in n:
        v = const_of(n)
        return ('and', ()) if bool(v) == pol else ('or', ())
    if k == 'un' and n['op'] == '!':
        return cond_tree(P, n['c'][0], not pol, depth)
    if k == 'bin' and n['op'] in ('&&', '||'):
        a, b = cond_tree(P, n['c'][0], pol, depth), cond_tree(P, n['c'][1], pol, depth)
        return (('and' if (n['op'] == '&&') == pol else 'or'), (a, b))
    if k in ('bin', 'ocall') and n.get('op') in ('==', '!=', '>', '<', '>=', '<=') and len(n['c']) == 2:
        a, b, op = n['c'][0], n['c'][1], n['op']
        if const_of(a) is not None or is_null(a):
            a, b = b, a
            op = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
        f = field_of(P, a)
        x = strip(a)
        if f is None and x is not None and x['k'] == 'mcall' and P.D.get(x.get('f'), {}).get('n') == 'size':
            f = field_of(P, x['c'][0])
        c = const_of(b)
        c = 0 if c is None and is_null(b) else c
        if f is not None and c is not None:
            z = None
            if op in ('==', '!='):
                if isinstance(c, bool) or c in (0, 1) and (x.get('t') or '') == 'bool':
                    z = (c == 0) == (op == '==')
                elif c == 0:
                    z = op == '=='
            elif c == 0 and op in ('>', '<='):
                z = op == '<='
            elif c == 1 and op in ('>=', '<'):
                z = op == '<'
            if z is not None:
                return ('lit', f, z == pol)
        return ('opq', fields(P, n))
    f = field_of(P, n)
    if f is not None:
        return ('lit', f, not pol)
    if k == 'mcall':
        d = P.D.get(n.get('f'), {})
        if d.get('n') == 'empty':
            f = field_of(P, n['c'][0])
            if f is not None:
                return ('lit', f, pol)
        B = P.body_of(n['f']) if n.get('f') else None
        o = strip(n['c'][0]) if n['c'] else None
        if B is not None and o is not None and o['k'] == 'this' and depth < 3:
            e = ret_expr(B['body'])
            if e is not None:
                return cond_tree(P, e, pol, depth + 1)
    if k == 'lambda' and n.get('body') is not None:
        e = ret_expr(n['body'])
        if e is not None:
            return cond_tree(P, e, pol, depth + 1)
    return ('opq', fields(P, n))


def ret_expr(b):
    c = b['c'] if b['k'] == 'block' else [b]
    c = [x for x in c if x is not None and x['k'] != 'null']
    if len(c) == 1 and c[0]['k'] == 'ret' and c[0]['c']:
        return c[0]['c'][0]
    return None


def fields(P, n):
    out = set()
    for x in walk(n):
        if x['k'] == 'mem':
            f = field_of(P, x)
            if f:
                out.add(f)
    return frozenset(out)


def tree_fields(t):
    if t[0] == 'lit':
        return {t[1]}
    if t[0] == 'opq':
        return set(t[1])
    r = set()
    for x in t[1]:
        r |= tree_fields(x)
    return r


def known_false(t, facts):
    if t[0] == 'lit':
        return (t[1], not t[2]) in facts
    if t[0] == 'opq':
        return False
    rs = [known_false(x, facts) for x in t[1]]
    return any(rs) if t[0] == 'and' else all(rs)


def enables(t, f, eff):
    """The write with effects eff (of 'zero', 'nonzero', 'grow', 'any') on field f may make t true."""
    if t[0] == 'lit':
        return t[1] == f and ('any' in eff or ('zero' if t[2] else 'nonzero') in eff)
    if t[0] == 'opq':
        return f in t[1] and bool(eff & {'any', 'grow', 'zero'}) and not eff <= {'shrink', 'zero'}
    return any(enables(x, f, eff) for x in t[1])


def implies_lits(t):
    """Literals that hold whenever t does."""
    if t[0] == 'lit':
        return {(t[1], t[2])}
    if t[0] == 'and':
        r = set()
        for x in t[1]:
            r |= implies_lits(x)
        return r
    if t[0] == 'or' and t[1]:
        rs = [implies_lits(x) for x in t[1]]
        return set.intersection(*rs)
    return set()


def step(P, n, f):
    """inc or dec for f = f + k, f = f - k, ++f, f += k ..."""
    if n['k'] == 'un' or n['k'] == 'ocall' and n['op'] in ('++', '--'):
        return 'inc' if n['op'] == '++' else 'dec'
    if n.get('op') in ('+=', '-='):
        return 'inc' if n['op'] == '+=' else 'dec'
    if n['k'] == 'mcall':
        return {'fetch_add': 'inc', 'fetch_sub': 'dec'}.get(P.D.get(n.get('f'), {}).get('n'))
    if n.get('op') == '=' and len(n.get('c', ())) == 2:
        x = n['c'][1]
        x = strip(x)
        while x is not None and x['k'] in ('cast', 'icast') and x.get('c'):
            x = strip(x['c'][0])
        if x is not None and x['k'] == 'bin' and x['op'] in ('+', '-'):
            if field_of(P, x['c'][0]) == f and (const_of(x['c'][1]) or 0) > 0:
                return 'inc' if x['op'] == '+' else 'dec'
            if x['op'] == '+' and field_of(P, x['c'][1]) == f and (const_of(x['c'][0]) or 0) > 0:
                return 'inc'
    return None


def write_of(P, n):
    """(field, effects) if evaluating n itself changes a member of this object."""
    k = n['k']
    if k == 'asg' or k == 'ocall' and n['op'] == '=' and len(n['c']) == 2:
        f = field_of(P, n['c'][0])
        if f is None:
            return None
        op = n.get('op', '=')
        if op == '=':
            c = const_of(n['c'][1])
            if c is None and is_null(n['c'][1]):
                c = 0
            if c is None:
                st = step(P, n, f)
                return f, ({'nonzero', 'grow'} if st == 'inc' else {'zero'} if st == 'dec' else {'any', 'grow'})
            return f, ({'zero'} if c == 0 else {'nonzero', 'grow'})
        if op in ('+=', '|='):
            return f, {'nonzero', 'grow'}
        return f, {'any'}
    if k == 'un' and n['op'] in ('++', '--') or k == 'ocall' and n['op'] in ('++', '--', '+=', '-='):
        f = field_of(P, n['c'][0])
        if f is None:
            return None
        return f, ({'nonzero', 'grow'} if n['op'] in ('++', '+=') else {'zero'})
    if k == 'mcall' and n.get('c'):
        f = field_of(P, n['c'][0])
        nm = P.D.get(n.get('f'), {}).get('n')
        if f is None:
            return None
        if nm in GROW:
            return f, {'nonzero', 'grow'}
        if nm in SHRINK:
            return f, {'zero', 'shrink'}
        if nm == 'clear' or nm == 'reset' and len(n['c']) == 1:
            return f, {'zero', 'shrink'}
        if nm in ('swap', 'resize', 'assign', 'exchange', 'reset'):
            return f, {'any', 'grow'}
        if nm in ('store',):
            c = const_of(n['c'][1])
            return f, ({'any', 'grow'} if c is None else {'zero'} if c == 0 else {'nonzero', 'grow'})
        if nm in ('fetch_add',):
            return f, {'nonzero', 'grow'}
        if nm in ('fetch_sub',):
            return f, {'zero'}
    return None


# ---------------------------------------------------------------- waits

def cv_of(P, n):
    n = strip(n)
    if n is not None and n['k'] == 'mem' and CV.match((n.get('t') or '').replace('const ', '')):
        return plain(n['q'])
    return None


class Wait:
    pass


def own(d):
    return not d.get('dep') and d['file'].startswith(('src', 'include'))


def waits(P, R):
    out = []
    for fid, d, F in P.functions(own):
        par = None
        for n in walk(F['body']):
            if n['k'] != 'mcall' or P.D.get(n.get('f'), {}).get('n') not in WAITS or not n['c']:
                continue
            cv = cv_of(P, n['c'][0])
            if cv is None:
                continue
            par = par or parents(F['body'])
            w = Wait()
            w.fid, w.n, w.cv, w.F = fid, n, cv, F
            args = [a for a in n['c'][1:] if a is not None and a['k'] != 'defarg']
            w.lock = None
            v = strip(args[0])
            if v is not None and v['k'] == 'var':
                for x in walk(F['body']):
                    if x['k'] == 'vdecl' and x['v'] == v['v'] and x.get('init') is not None:
                        for l, m in guards_in(P, x['init']):
                            w.lock = plain(l) if isinstance(l, str) else None
            R.ob('R04.wait', '%s waits for %s' % (d['qn'], cv))
            w.tree = None
            pred = args[-1] if len(args) > (1 if P.D[n['f']]['n'] == 'wait' else 2) else None
            if pred is not None:
                lam = None
                for x in walk(pred, lambdas=False):
                    if x['k'] == 'lambda':
                        lam = x
                    elif x['k'] == 'var':
                        for y in walk(F['body']):
                            if y['k'] == 'vdecl' and y['v'] == x['v'] and y.get('init') is not None:
                                for z in walk(y['init'], lambdas=False):
                                    if z['k'] == 'lambda':
                                        lam = z
                w.tree = cond_tree(P, lam, True) if lam is not None else ('opq', frozenset())
                w.loop = n
            else:
                p, ch = par.get(id(n)), n
                loop = None
                while p is not None:
                    if p['k'] in ('while', 'do', 'for'):
                        loop = p
                        break
                    p = par.get(id(p))
                tests = []
                if loop is not None:
                    if loop.get('cond') is not None and const_of(loop['cond']) is None:
                        tests.append(cond_tree(P, loop['cond'], False))
                    # a test inside the loop that leaves it
                    for x in walk(loop['body']):
                        if x['k'] == 'if' and has_exit(x.get('then')) and not has_node(x, n):
                            tests.append(cond_tree(P, x['cond'], True))
                        if x['k'] == 'if' and x.get('else') and has_exit(x['else']) and not has_node(x['else'], n):
                            tests.append(cond_tree(P, x['cond'], False))
                if loop is None or not tests:
                    R.bad('R04.wait', '%s|%s' % (plain(d['qn']), cv), P.loc(fid, n.get('l')),
                          '%s waits on %s without testing its condition again after waking' % (d['qn'], cv))
                    w.tree = ('opq', frozenset())
                else:
                    w.tree = ('or', tuple(tests)) if len(tests) > 1 else tests[0]
                w.loop = loop or n
            if w.lock is None:
                R.bad('R04.wait', '%s|%s|lock' % (plain(d['qn']), cv), P.loc(fid, n.get('l')), '%s waits on %s with a lock that could not be identified' % (d['qn'], cv))
            out.append(w)
    locks = {}
    for w in out:
        if w.lock:
            locks.setdefault(w.cv, set()).add(w.lock)
    for cv, ls in sorted(locks.items()):
        if len(ls) > 1:
            R.bad('R04.wait', cv + '|locks', '', 'the waiters of %s use different locks: %s' % (cv, ', '.join(sorted(ls))))
    # nothing to wait for: no wait at all means the anchor went away
    if not out:
        raise AnalysisError('anchor vanished: condition variable waits')
    R.floor('R04.wait', 3)
    return out


def has_exit(n):
    return n is not None and any(x['k'] in ('break', 'ret', 'throw') for x in walk(n, lambdas=False))


def has_node(root, n):
    return any(x is n for x in walk(root))


# ---------------------------------------------------------------- wake-ups

class Path(tuple):
    pass


class Wake(Flow):
    """State: frozenset of (held, pending, notified, facts); held = {(lock, holder)}."""
    CAP = 200

    def __init__(self, P, L, W, adequate, waiters, locks):
        super().__init__(P)
        self.L, self.W, self.adequate, self.waiters, self.lock_of_cv = L, W, adequate, waiters, locks
        self.unlocked = []
        self.depth = 0
        self.wrote = False

    def join(self, a, b):
        r = a | b
        if len(r) > self.CAP:
            pend = frozenset().union(*[p[1] for p in r])
            held = frozenset.intersection(*[p[0] for p in r])
            note = frozenset.intersection(*[p[2] for p in r])
            return frozenset([(held, pend, note, frozenset())])
        return r

    def each(self, st, f):
        out = set()
        for p in st:
            q = f(p)
            if q is not None:
                out.add(q)
        return frozenset(out) if out else None

    def holds(self, p, lock):
        return any(l == lock for l, h in p[0])

    def settle(self, p, lock):
        """The lock is given up: what nobody can be waiting for any more needs no notification."""
        held, pend, note, facts = p
        keep = set()
        for cv, i, line in pend:
            if self.lock_of_cv.get(cv) == lock:
                w = self.W[i]
                if known_false(w.tree, facts) or any((c, True) in facts for c in self.waiters.get(cv, ())):
                    continue
            keep.add((cv, i, line))
        return (held, frozenset(keep), frozenset(c for c in note if self.lock_of_cv.get(c) != lock), frozenset())

    def take(self, st, lock, holder):
        return self.each(st, lambda p: (p[0] | {(plain(lock), holder)}, p[1], p[2], p[3]))

    def give(self, st, holder=None, lock=None):
        def f(p):
            gone = {x for x in p[0] if holder is not None and x[1] == holder or lock is not None and x[0] == lock}
            q = (p[0] - gone, p[1], p[2], p[3])
            for l in {x[0] for x in gone}:
                q = self.settle(q, l)
            return q
        return self.each(st, f)

    def declare(self, vd, st):
        t = self.Fn['locals'][vd['v']]['t']
        if vd.get('init') is None:
            return st
        if GUARD.match(t) or HOLDER.search(t) or t.startswith('auto'):
            for l, m in guards_in(self.P, vd['init']):
                if isinstance(l, str):
                    st = self.take(st, l, vd['v'])
        return st

    def leave(self, vs, st):
        for v in vs:
            i = v['v'] if isinstance(v, dict) else v
            if any(h == i for p in st for l, h in p[0]):
                st = self.give(st, holder=i)
        return st

    def write(self, st, f, eff, n):
        self.wrote = True
        P = self.P

        def one(p):
            held, pend, note, facts = p
            facts = frozenset(x for x in facts if x[0] != f)
            if eff == {'zero'} and n['k'] in ('asg', 'ocall') and n.get('op') == '=' and step(P, n, f) is None or eff == {'zero'} and n['k'] == 'mcall' and P.D.get(n.get('f'), {}).get('n') == 'store':
                facts = facts | {(f, True)}
            elif eff >= {'nonzero'} and 'any' not in eff:
                facts = facts | {(f, False)}
            add = set()
            for i, w in enumerate(self.W):
                if enables(w.tree, f, eff):
                    lk = self.lock_of_cv.get(w.cv)
                    if lk and not self.holds(p, lk):
                        self.unlocked.append((n, f, w.cv, lk))
                    if w.cv not in note:
                        add.add((w.cv, i, n.get('l')))
            return (held, pend | add, note, facts)
        return self.each(st, one)

    def refine(self, c, truth, st):
        c0 = strip(c)
        if c0 is not None and c0['k'] == 'mcall' and c0.get('f') and self.P.D.get(c0['f'], {}).get('n') == 'try_lock' and truth:
            l = lock_of(self.P, c0['c'][0])
            if isinstance(l, str):
                return self.take(st, l, 'manual')
        t = cond_tree(self.P, c, truth)
        lits = implies_lits(t)
        if not lits:
            return st

        def f(p):
            if any((a, not z) in p[3] for a, z in lits):
                return None
            return (p[0], p[1], p[2], p[3] | frozenset(lits))
        return self.each(st, f)

    def notify(self, st, cv, one):
        if one and not self.adequate.get(cv):
            return st
        return self.each(st, lambda p: (p[0], frozenset(x for x in p[1] if x[0] != cv), p[2] | ({cv} if self.holds(p, self.lock_of_cv.get(cv)) else frozenset()), p[3]))

    def on(self, n, st):
        P = self.P
        if st is None:
            return None
        w = write_of(P, n)
        if w is not None:
            st = self.write(st, w[0], w[1], n)
            return st
        if n['k'] == 'mcall' and n.get('f') and n['c']:
            nm = P.D.get(n['f'], {}).get('n')
            cv = cv_of(P, n['c'][0])
            if cv is not None:
                if nm in ('notify_one', 'notify_all'):
                    return self.notify(st, cv, nm == 'notify_one')
                if nm in WAITS:
                    def f(p):
                        q = Wake.settle(self, p, self.lock_of_cv.get(cv))
                        ws = [w for w in self.W if w.n is n and w.loop is n]
                        facts = frozenset(implies_lits(ws[0].tree)) if ws else frozenset()
                        facts |= {x for x in p[3] if isinstance(x[0], tuple)}
                        return (q[0], q[1], q[2], facts)
                    return self.each(st, f)
            o = strip(n['c'][0])
            if nm in ('lock', 'unlock'):
                if o is not None and o['k'] == 'var':
                    if nm == 'unlock':
                        return self.give(st, holder=o['v'])
                    for x in walk(self.Fn['body']):
                        if x['k'] == 'vdecl' and x['v'] == o['v'] and x.get('init') is not None:
                            for l, m in guards_in(P, x['init']):
                                if isinstance(l, str):
                                    return self.take(st, l, o['v'])
                            for y in walk(x['init']):
                                if y['k'] == 'ctor' and y.get('c'):
                                    l = lock_of(P, y['c'][0])
                                    if isinstance(l, str):
                                        return self.take(st, l, o['v'])
                l = lock_of(P, n['c'][0])
                if isinstance(l, str):
                    return self.take(st, l, 'manual') if nm == 'lock' else self.give(st, lock=plain(l))
            if o is not None and o['k'] == 'this' and self.depth < 3:
                return self.inline(n, st)
        return st

    def inline(self, n, st):
        B = self.P.body_of(n['f'])
        d = self.P.D.get(n['f'], {})
        if B is None or d.get('virt'):
            return st
        save = self.Fn
        self.Fn = B
        self.depth += 1
        holders = {h for p in st for l, h in p[0]}
        ren = self.each(st, lambda p: (frozenset((l, ('out', self.depth, h)) for l, h in p[0]), p[1], p[2], p[3]))
        exits = self.run_body(B, B['body'], ren)
        self.depth -= 1
        self.Fn = save
        out = None
        for kind, x, s in exits:
            if kind in ('ret', 'fall'):
                out = self.J(out, s)
        if out is None:
            return None
        return self.each(out, lambda p: (frozenset((l, h[2]) for l, h in p[0] if isinstance(h, tuple)), p[1], p[2], p[3]))


def wake(P, R, W):
    L = Locks(P)
    locks = {w.cv: w.lock for w in W if w.lock}
    # counters of waiting threads: raised before each wait on the variable
    waiters = {}
    for cv in locks:
        common = None
        for w in W:
            if w.cv != cv:
                continue
            s = set()
            par = parents(w.F['body'])
            anc = []
            p = w.loop
            while p is not None:
                anc.append(p)
                p = par.get(id(p))
            for a in anc:
                if a['k'] == 'block':
                    for c in a['c']:
                        if any(c is x for x in anc):
                            break
                        for x in walk(c, lambdas=False):
                            wr = write_of(P, x)
                            if wr and 'nonzero' in wr[1] and step(P, x, wr[0]) == 'inc':
                                s.add(wr[0])
            common = s if common is None else common & s
        waiters[cv] = common or set()
    # notify_one
    adequate = {}
    for cv in locks:
        ws = [w for w in W if w.cv == cv]
        ok = len({repr(norm(w.tree)) for w in ws}) == 1
        for w in ws:
            ok = ok and takes_away(P, w)
        adequate[cv] = ok
    R.extra['notify_one_suffices'] = sorted(c for c in adequate if adequate[c])
    tracked = set()
    for w in W:
        tracked |= tree_fields(w.tree)
    R.extra['condition_fields'] = sorted(tracked)
    if not tracked:
        raise AnalysisError('no field of a waited-for condition was understood')
    priv = set()
    called = set()
    canon = lambda f: (P.D[f].get('pat') or f) if f in P.D else f
    for fid, d, F in P.functions(own):
        for n in walk(F['body']):
            if n['k'] == 'mcall' and n.get('f') and n['c'] and strip(n['c'][0]) is not None and strip(n['c'][0])['k'] == 'this':
                called.add(canon(n['f']))
    fnref = {canon(n['f']) for fid, d, F in P.functions(own) for n in walk(F['body']) if n['k'] == 'fn' and n.get('f')}
    for fid, d, F in P.functions(own):
        if d.get('ctor'):
            continue
        ws = [n for n in walk(F['body']) for x in [write_of(P, n)] if x and x[0] in tracked]
        sub = [n for n in walk(F['body']) if n['k'] == 'mcall' and n.get('f') and n['c'] and strip(n['c'][0]) is not None and strip(n['c'][0])['k'] == 'this'
               and plain(P.D[n['f']].get('cls') or '') in {t.rsplit('::', 1)[0] for t in tracked}]
        if not ws and not sub:
            continue
        if canon(fid) in called and d.get('acc') in (1, 2) and canon(fid) not in fnref:
            continue
        h = Wake(P, L, W, adequate, waiters, locks)
        ex = h.run(F, frozenset([(frozenset(), frozenset(), frozenset(), frozenset())]))
        if not h.wrote:
            continue
        R.ob('R04.wake', d['qn'])
        for n, f, cv, lk in h.unlocked:
            R.bad('R04.wake', '%s|%s|unlocked' % (plain(d['qn']), f), P.loc(fid, n.get('l')),
                  '%s changes %s without holding %s: a thread about to wait on %s misses it' % (d['qn'], f, lk, cv))
        for kind, n, st in ex:
            for held, pend, note, facts in st or ():
                for cv, i, line in sorted(pend):
                    R.bad('R04.wake', '%s|%s' % (plain(d['qn']), cv), P.loc(fid, line),
                          '%s can make true what %s waits for and leave without notifying %s%s'
                          % (d['qn'], P.D[W[i].fid]['qn'], cv, '' if adequate[cv] else ' (all of its waiters)'))
    # changes from outside the class
    for fid, d, F in P.functions(own):
        for n in walk(F['body']):
            if n['k'] in ('asg', 'un', 'mcall', 'ocall') and n.get('c'):
                x = strip(n['c'][0])
                if x is not None and x['k'] == 'mem' and plain(x['q']) in tracked and field_of(P, x) is None:
                    if n['k'] == 'asg' or n['k'] == 'un' and n['op'] in ('++', '--') or n['k'] == 'ocall' and n['op'] in ('=', '++', '--') or \
                            n['k'] == 'mcall' and P.D.get(n.get('f'), {}).get('n') in GROW | SHRINK | {'clear', 'store'}:
                        R.bad('R04.wake', '%s|%s|outside' % (plain(d['qn']), x['q']), P.loc(fid, n.get('l')),
                              '%s changes %s of another object, which threads wait for, without its lock' % (d['qn'], plain(x['q'])))
    R.floor('R04.wake', 4)


def norm(t):
    if t[0] in ('and', 'or'):
        return (t[0], tuple(sorted((norm(x) for x in t[1]), key=repr)))
    if t[0] == 'opq':
        return ('opq', tuple(sorted(t[1])))
    return t


def takes_away(P, w):
    """After waking, the waiter makes its own condition false (or consumes an element) before it gives up the lock."""
    lits = implies_lits(w.tree)
    seen = False
    for x in walk(w.F['body'], lambdas=False):
        if x is w.loop:
            seen = True
        if not seen:
            continue
        wr = write_of(P, x)
        if wr is None:
            continue
        f, eff = wr
        if (f, True) in lits and 'nonzero' in eff and 'any' not in eff:
            return True
        if (f, False) in lits and 'zero' in eff:
            return True
    return False


# ---------------------------------------------------------------- the reader-writer lock itself

class Count(Wake):
    """Also counts, per path, how often each field was raised, lowered, set and cleared."""
    def __init__(self, *a):
        super().__init__(*a)
        self.done = []

    def write(self, st, f, eff, n):
        st = super().write(st, f, eff, n)
        kind = step(self.P, n, f)
        if kind is None:
            kind = 'set' if 'nonzero' in eff and 'any' not in eff else 'clr' if eff == {'zero'} else 'any'

        def one(p):
            facts = dict((x[0], x[1]) for x in p[3] if isinstance(x[0], tuple))
            k = facts.get((f, kind), 0)
            return (p[0], p[1], p[2], frozenset(x for x in p[3] if x[0] != (f, kind)) | {((f, kind), min(k + 1, 3))})
        return self.each(st, one)

    def settle(self, p, lock):
        self.done.append(p[3])
        return (p[0], p[1], p[2], frozenset())


def exclusion(P, R, W):
    """Readers exclude writers, writers exclude everybody, and releasing undoes exactly what locking did."""
    L = Locks(P)
    locks = {w.cv: w.lock for w in W if w.lock}
    names = ('lock_read', 'lock_write', 'release_read', 'release_write')
    for n in sorted(P.R):
        fs = {}
        for fid, d, F in P.functions(lambda d: d.get('cls') == n and d['n'] in names):
            fs[d['n']] = (fid, d, F)
        if len(fs) < 4:
            continue
        done = {}
        for nm, (fid, d, F) in fs.items():
            h = Count(P, L, W, {cv: True for cv in locks}, {}, locks)
            h.run(F, frozenset([(frozenset(), frozenset(), frozenset(), frozenset())]))
            done[nm] = h.done
        cnt = lambda facts, f, k: dict((x[0], x[1]) for x in facts if isinstance(x[0], tuple)).get((f, k), 0)
        names_of = lambda nm, k: {x[0][0] for facts in done[nm] for x in facts if isinstance(x[0], tuple) and x[0][1] in k}
        rc = names_of('lock_read', ('inc',))
        wr = names_of('lock_write', ('set',))
        wc = names_of('lock_write', ('inc',))
        R.ob('R03.rw', n)
        loc = lambda nm: P.loc(fs[nm][0])
        bad = lambda nm, why: R.bad('R03.rw', '%s|%s' % (n, nm), loc(nm), '%s::%s %s' % (n, nm, why))
        if not rc:
            bad('lock_read', 'does not count the reader')
            continue
        if not wr:
            bad('lock_write', 'does not mark that a writer is inside')
            continue
        waitlits = {}
        for nm in ('lock_read', 'lock_write'):
            ls = [implies_lits(w.tree) for w in W if w.fid == fs[nm][0]]
            waitlits[nm] = set().union(*ls) if ls else set()
        for facts in done['lock_read']:
            R.ob('R03.rw', '%s::lock_read path' % n)
            for f in rc:
                if cnt(facts, f, 'inc') != 1:
                    bad('lock_read', 'counts the reader %d times in %s' % (cnt(facts, f, 'inc'), f))
            if not any((f, True) in facts for f in wr | wc):
                bad('lock_read', 'lets a reader in without knowing that no writer is inside')
        for facts in done['lock_write']:
            R.ob('R03.rw', '%s::lock_write path' % n)
            for f in rc:
                if (f, True) not in facts:
                    bad('lock_write', 'lets a writer in without knowing that no reader is inside (%s)' % f)
            for f in wr:
                if (f, True) not in waitlits['lock_write']:
                    bad('lock_write', 'lets a writer in without knowing that no writer is inside (%s)' % f)
                if cnt(facts, f, 'set') < 1:
                    bad('lock_write', 'does not mark the writer in %s on every path' % f)
            for f in wc:
                if cnt(facts, f, 'inc') != 1:
                    bad('lock_write', 'counts the writer %d times in %s' % (cnt(facts, f, 'inc'), f))
        for facts in done['release_read']:
            R.ob('R03.rw', '%s::release_read path' % n)
            for f in rc:
                if cnt(facts, f, 'dec') != 1:
                    bad('release_read', 'lowers %s %d times' % (f, cnt(facts, f, 'dec')))
            for f in wr | wc:
                if any(cnt(facts, f, k) for k in ('dec', 'inc', 'set', 'clr', 'any')):
                    bad('release_read', 'changes %s, which belongs to the writers' % f)
        for facts in done['release_write']:
            R.ob('R03.rw', '%s::release_write path' % n)
            for f in wc:
                if cnt(facts, f, 'dec') != 1:
                    bad('release_write', 'lowers %s %d times' % (f, cnt(facts, f, 'dec')))
            for f in wr:
                if cnt(facts, f, 'clr') < 1 or cnt(facts, f, 'any') or cnt(facts, f, 'set'):
                    bad('release_write', 'does not clear %s on every path' % f)
            for f in rc:
                if any(cnt(facts, f, k) for k in ('dec', 'inc', 'set', 'clr', 'any')):
                    bad('release_write', 'changes %s, which belongs to the readers' % f)


# ---------------------------------------------------------------- release

TAKE = {'lock': 'unlock', 'lock_read': 'release_read', 'lock_write': 'release_write', 'lock_shared': 'unlock_shared'}


def release(P, R):
    L = Locks(P)
    # functions that lock or unlock by hand
    for fid, d, F in P.functions(own):
        ms = [n for n in walk(F['body']) if n['k'] == 'mcall' and n.get('f') and P.D[n['f']]['n'] in
              ('lock', 'unlock', 'try_lock', 'lock_read', 'lock_write', 'release_read', 'release_write', 'lock_shared', 'unlock_shared', 'try_lock_shared')
              and re.search(r'mutex', P.D[n['f']].get('cls') or '')]
        if not ms:
            continue
        if d.get('ctor') or d.get('dtor') or d['n'] in TAKE or d['n'] in TAKE.values() or d['n'].startswith('try_'):
            continue
        R.ob('R04.release', d['qn'])
        h = Thrower(P, L, lambda n, F: None, (frozenset(), frozenset()))
        for b in [F['body']]:
            h.par = parents(b)
        h.fid, h.F0, h.fresh = fid, F, set()
        ex = h.run(F, (frozenset(), frozenset()))
        for kind, n, st in ex:
            left = sorted({plain(l) for l, m, v in st[1] if v == 'manual'})
            for l in left:
                R.bad('R04.release', '%s|%s' % (plain(d['qn']), l), P.loc(fid, n.get('l')), '%s can leave %s with %s still locked'
                      % (d['qn'], 'by an exception' if kind == 'throw' else '', l))
        for n, l in h.bad:
            R.bad('R04.release', '%s|%s|unheld' % (plain(d['qn']), l), P.loc(fid, n.get('l')), '%s releases %s, which it does not hold' % (d['qn'], l))
    # lock holders: constructor takes, destructor gives
    done = set()
    for n, r in sorted(P.R.items()):
        if plain(n) in done:
            continue
        ctors = [(f, d, F) for f, d, F in P.functions(lambda d: d.get('cls') == n and d.get('ctor'))]
        took = set()
        for f, d, F in ctors:
            took |= hand(P, F, TAKE)
        if not took or not n.startswith('ts::'):
            continue
        R.ob('R04.release', n)
        done.add(plain(n))
        dt = [(f, d, F) for f, d, F in P.functions(lambda d: d.get('cls') == n and d.get('dtor'))]
        gave = set()
        for f, d, F in dt:
            gave |= hand(P, F, {v: k for k, v in TAKE.items()})
        want = {TAKE[t] for t in took}
        if want != gave:
            R.bad('R04.release', plain(n) + '|dtor', '%s:%s' % (r['file'], r['line']), '%s takes a lock with %s but its destructor releases it with %s'
                  % (plain(n), ', '.join(sorted(took)), ', '.join(sorted(gave)) or 'nothing'))
        # the pointer to the lock
        ptr = None
        for f, d, F in dt:
            for x in walk(F['body']):
                if x['k'] == 'mcall' and x.get('f') and P.D[x['f']]['n'] in want and x['c']:
                    o = strip(x['c'][0])
                    while o is not None and o['k'] in ('un', 'ocall') and o.get('c'):
                        o = strip(o['c'][0])
                    if o is not None and o['k'] == 'mem':
                        ptr = o['q']
            if ptr:
                fl = MustGive(P, ptr, want)
                ex = fl.run(F, frozenset(['?']))
                for kind, x, st in ex:
                    if 'kept' in (st or ()) or '?' in (st or ()):
                        R.bad('R04.release', plain(n) + '|path', P.loc(f, x.get('l')), 'the destructor of %s can keep the lock it owns' % plain(n))
                    if 'null' in (st or ()):
                        pass
                for x in fl.bad:
                    R.bad('R04.release', plain(n) + '|twice', P.loc(f, x.get('l')), 'the destructor of %s releases the lock twice' % plain(n))
        if ptr:
            mine = lambda y: y['k'] == 'mem' and plain(y.get('q') or '') == plain(ptr) or y['k'] == 'dmem' and y.get('n') == ptr.rsplit('::', 1)[-1]
            for f, d, F in P.functions(lambda d: plain(d.get('cls') or '') == plain(n) and d['ps'] and d['ps'][0]['t'].rstrip().endswith('&&')):
                R.ob('R04.release', '%s(move)' % d['qn'])
                copies, swaps, nulls = False, False, False
                for x in [y for b in [F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None] for y in walk(b)]:
                    if x['k'] == 'call' and (x.get('f') and P.D[x['f']]['qn'] in ('std::swap', 'std::exchange') or (x.get('fp') or {}).get('n') in ('swap', 'exchange')):
                        if any(mine(y) for y in walk(x['c'])):
                            swaps = True
                    if x['k'] == 'asg':
                        l = strip(x['c'][0])
                        if l is not None and mine(l):
                            b = strip(l['c'][0]) if l.get('c') else None
                            if b is not None and b['k'] == 'var' and is_null(x['c'][1]):
                                nulls = True
                            elif any(mine(y) for y in walk(x['c'][1])):
                                copies = True
                for i in F.get('inits', ()):
                    if i.get('q') == ptr and i.get('init') is not None and any(y['k'] == 'mem' and y['q'] == ptr for y in walk(i['init'])):
                        copies = True
                if copies and not nulls and not swaps:
                    R.bad('R04.release', plain(n) + '|move', P.loc(f), 'moving a %s leaves two owners, so the lock is released twice' % plain(n))
    R.floor('R04.release', 4)


def hand(P, F, table):
    out = set()
    for x in walk([F['body']] + [i.get('init') for i in F.get('inits', ())]):
        nm = P.D.get(x.get('f'), {}).get('n') if x['k'] == 'mcall' and x.get('f') else None
        if nm is None and x['k'] == 'mcall':
            nm = (x.get('fp') or {}).get('n')
        if nm in table and 'guard' not in (P.D.get(x.get('f'), {}).get('cls') or ''):
            out.add(nm)
    return out


class MustGive(Flow):
    """State: frozenset of 'gave', 'null', '?'"""
    def __init__(self, P, ptr, names):
        super().__init__(P)
        self.ptr, self.names, self.bad = ptr, names, []

    def join(self, a, b):
        return a | b

    def refine(self, c, truth, st):
        t = cond_tree(self.P, c, truth)
        for f, z in implies_lits(t):
            if f == plain(self.ptr):
                return frozenset('null' if z and s == '?' else s for s in st)
        return st

    def on(self, n, st):
        if n['k'] == 'mcall' and self.P.D.get(n.get('f'), {}).get('n') in self.names:
            if 'gave' in st:
                self.bad.append(n)
            return frozenset(['gave'])
        return st


class Thrower(Held):
    calls_may_throw = True
    QUIET = re.compile(r'^std::(deque|vector|list|map|unordered_map|queue|set|function|atomic|shared_ptr|unique_ptr|mutex|recursive_mutex|condition_variable|__)')

    def __init__(self, *a):
        super().__init__(*a)
        self.bad = []

    def after_call(self, n, st):
        if st is None:
            return None
        d = self.P.D.get(n.get('f')) if n.get('f') else None
        if d and d.get('noreturn'):
            return None
        if d is not None and (d.get('noexcept') or d['qn'] in ('std::operator==', 'std::operator!=')):
            return st
        q = d['qn'] if d else ''
        if d is not None and re.search(r'mutex', d.get('cls') or ''):
            return st
        if d is not None and self.QUIET.match(q) and (d.get('const') or d['n'] in ('empty', 'size', 'begin', 'end', 'front', 'back', 'load', 'pop_front', 'pop_back', 'erase', 'clear', 'get', 'reset')):
            return st
        if d is not None and self.QUIET.match(q) and d.get('ctor') and len(n.get('c', ())) <= 1:
            return st
        if st[1]:
            self.throwing(n, st)
        return st

    def on(self, n, st):
        if n['k'] == 'mcall' and n.get('f') and self.P.D[n['f']]['n'] in TAKE.values() and n['c']:
            l = lock_of(self.P, n['c'][0])
            if isinstance(l, str) and lock_types_name(self.P, n) and not any(x[0] == l for x in st[1]):
                self.bad.append((n, plain(l)))
        return super().on(n, st)


def lock_types_name(P, n):
    return bool(re.search(r'mutex', P.D.get(n.get('f'), {}).get('cls') or ''))


# ---------------------------------------------------------------- order

def order(P, R, W):
    L = Locks(P)
    fns = {}
    todo = [(fid, F, None) for fid, d, F in P.functions(own)]
    info = {}
    canon = lambda f: (P.D[f].get('pat') or f) if f in P.D else f
    for fid, F, _ in todo:
        has = False
        for n in walk(F['body']):
            if n['k'] == 'ctor' and GUARD.match(n.get('t') or '') or n['k'] == 'mcall' and n.get('f') and (lock_types_name(P, n) or P.D[n['f']]['n'] in WAITS + ('notify_one', 'notify_all')):
                has = True
            if n['k'] in ('call', 'mcall') and n.get('f') and L.returned(n['f']):
                has = True
            if has:
                break
        if not has:
            continue
        h = Held(P, L, lambda n, F: None, (frozenset(), frozenset()))
        h.go(fid)
        info[fid] = h
    R.extra['functions_taking_locks'] = len(info)
    edges = {}

    def edge(a, b, why, where):
        edges.setdefault((a, b), (why, where))

    members = {plain(n) + '::' + f['n'] for n, r in P.R.items() for f in r['fields'] if lock_types(f['t'])}
    for fid, h in sorted(info.items()):
        d = P.D[fid]
        for l, m, before, n in h.taken:
            if isinstance(l, tuple):
                continue
            R.ob('R04.order', '%s takes %s' % (d['qn'], plain(l)))
            for l2, m2, v2 in before:
                if isinstance(l2, str) and (plain(l2) != plain(l) or l2 not in members or same_object(n)):
                    edge(plain(l2), plain(l), '%s takes %s while holding %s' % (d['qn'], plain(l), plain(l2)), P.loc(fid, n.get('l')))
        for callee, must, may, n in h.calls:
            held = {plain(l) for l, m, v in may if isinstance(l, str)}
            if not held:
                continue
            acq = set()
            if isinstance(callee, tuple):
                for g, lam, home in L.functions_of().get(callee[1], ()):
                    b = [lam['body']] if lam is not None else None
                    if b is None:
                        B = P.body_of(g)
                        b = [B['body']] if B is not None else None
                    if b is not None:
                        for (l, m), path in L.acquired(('lam', id(lam)) if lam is not None else g, b).items():
                            acq.add((plain(l), path))
                        for x in walk(b, lambdas=False):
                            pass
            else:
                B = P.body_of(callee)
                if B is not None:
                    for (l, m), path in L.acquired(callee, [B['body']] + [i.get('init') for i in B.get('inits', ())]).items():
                        acq.add((plain(l), path))
            nm = callee[1] if isinstance(callee, tuple) else P.D[callee]['qn']
            R.ob('R04.order', '%s calls %s with %s' % (d['qn'], nm, '+'.join(sorted(held))))
            on_this = n['k'] == 'mcall' and n['c'] and strip(n['c'][0]) is not None and strip(n['c'][0])['k'] == 'this' and not isinstance(callee, tuple)
            own_locks = this_locks(P, L, callee) if on_this else {}
            for a in held:
                for b, path in acq:
                    # the same member of another object is another lock
                    if a == b and a in members and a not in own_locks:
                        continue
                    edge(a, b, '%s, holding %s, calls %s, which takes %s' % (d['qn'], a, ' -> '.join((nm,) + tuple(path)), b), P.loc(fid, n.get('l')))
    # waiting while holding what the waker needs
    entry = context(P, L, info)
    wakers = {}
    for fid, h in info.items():
        for callee, must, may, n in h.calls:
            if not isinstance(callee, tuple) and P.D[callee]['n'] in ('notify_one', 'notify_all') and n['k'] == 'mcall':
                cv = cv_of(P, n['c'][0])
                if cv:
                    s = {plain(l) for l, m, v in may if isinstance(l, str)} | entry.get(canon(fid), set())
                    wakers.setdefault(cv, set()).update(s)
    for w in W:
        h = info.get(w.fid)
        if h is None:
            continue
        for callee, must, may, n in h.calls:
            if n is w.n:
                for l, m, v in may:
                    if isinstance(l, str) and plain(l) != w.lock:
                        R.ob('R04.order', 'wait in %s with %s' % (P.D[w.fid]['qn'], plain(l)))
                        for b in wakers.get(w.cv, ()):
                            edge(plain(l), b, '%s waits for %s holding %s' % (P.D[w.fid]['qn'], w.cv, plain(l)), P.loc(w.fid, n.get('l')))
    R.extra['lock_order'] = sorted('%s -> %s' % e for e in edges)
    # cycles
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    recursive = set()
    for n, r in P.R.items():
        for f in r['fields']:
            if 'recursive_mutex' in f['t']:
                recursive.add(plain(n) + '::' + f['n'])
    for a, b in sorted(edges):
        why, where = edges[(a, b)]
        if a == b:
            if a not in recursive:
                R.bad('R04.order', 'self|' + a, where, '%s is taken while it is already held: %s' % (a, why))
            continue
        # path from b back to a
        seen, st = {b}, [(b, (b,))]
        while st:
            x, p = st.pop()
            if x == a:
                R.bad('R04.order', 'cycle|%s|%s' % tuple(sorted((a, b))), where, 'locks are taken in both orders (%s): %s; %s'
                      % (' -> '.join((a,) + p), why, edges.get((p[-2], p[-1]) if len(p) > 1 else (b, a), ('', ''))[0]))
                break
            for y in g.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append((y, p + (y,)))
    R.floor('R04.order', 8)


def same_object(n):
    """The lock taken is a member of this object (or the expression is not a member of anything else)."""
    for x in walk(n):
        if x['k'] == 'mem' and lock_types(x.get('t')):
            b = strip(x['c'][0]) if x.get('c') else None
            return b is None or b['k'] == 'this'
    return True


def this_locks(P, L, fid, seen=None):
    """Locks of this same object that a member function takes, itself or through calls on this."""
    seen = set() if seen is None else seen
    if fid in seen:
        return set()
    seen.add(fid)
    B = P.body_of(fid)
    out = set()
    if B is None:
        return out
    for n in walk(B['body'], lambdas=False):
        if n['k'] == 'ctor' and GUARD.match(n.get('t') or '') and same_object(n):
            out |= {plain(l) for l, m in guards_in(P, n) if isinstance(l, str)}
        if n['k'] == 'mcall' and n.get('f') and n['c']:
            o = strip(n['c'][0])
            if o is not None and o['k'] == 'this':
                out |= this_locks(P, L, n['f'], seen)
            if P.D[n['f']]['n'] in TAKE and lock_types_name(P, n):
                l = lock_of(P, n['c'][0])
                if isinstance(l, str):
                    out.add(plain(l))
    return out


def context(P, L, info):
    """Locks possibly held when a function is entered (through the functions that take locks)."""
    canon = lambda f: (P.D[f].get('pat') or f) if f in P.D else f
    out = {}
    for rnd in range(4):
        changed = False
        for fid, h in info.items():
            base = out.get(canon(fid), set())
            for callee, must, may, n in h.calls:
                held = {plain(l) for l, m, v in may if isinstance(l, str)} | base
                if not held:
                    continue
                ts = []
                if isinstance(callee, tuple):
                    for g, lam, home in L.functions_of().get(callee[1], ()):
                        if lam is not None:
                            for x in walk(lam['body'], lambdas=False):
                                if x['k'] in ('call', 'mcall') and x.get('f'):
                                    ts.append(x['f'])
                        if g:
                            ts.append(g)
                else:
                    ts.append(callee)
                for t in ts:
                    s = out.setdefault(canon(t), set())
                    if not held <= s:
                        s |= held
                        changed = True
        if not changed:
            break
    return out

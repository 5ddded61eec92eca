"""Locks held at each point, and what is read and written there (shared by R03 and R04)."""
import re
from .program import walk, children
from .sem import strip
from .flow import Flow

GUARD = re.compile(r'^(const )?(std::(unique_lock|lock_guard|scoped_lock|shared_lock)<|ts::unique_(read|write)_lock<|ts::unique_(read|write)_lock$)')
HOLDER = re.compile(r'(std::unique_ptr|std::shared_ptr)<(std::(unique_lock|lock_guard|scoped_lock|shared_lock)<|ts::unique_(read|write)_lock<)')
READS = {'find', 'begin', 'end', 'cbegin', 'cend', 'at', 'size', 'empty', 'count', 'front', 'back', 'data', 'get', 'lower_bound',
         'upper_bound', 'c_str', 'load', 'joinable', 'get_id', 'use_count', 'operator bool', 'rbegin', 'rend', 'capacity', 'wait', 'wait_for',
         'wait_until', 'notify_one', 'notify_all'}
INLINE = re.compile(r'^std::(condition_variable(_any)?::wait|for_each|find_if|any_of|all_of|none_of|transform|sort|call_once|remove_if|count_if|accumulate)')


def plain(q):
    """A member name without template arguments."""
    out, d = '', 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return out


def lock_types(t):
    t = (t or '').replace('const ', '').strip()
    return bool(re.match(r'^(std::(recursive_|timed_|shared_|recursive_timed_|shared_timed_)?mutex|ts::rwmutex)$', t) or
                re.match(r'^std::(shared|unique)_ptr<(std::(recursive_|shared_)?mutex|ts::rwmutex)', t))


def lock_of(P, n):
    """The lock an expression designates: a field or global name."""
    n = strip(n)
    while n is not None:
        if n['k'] == 'mem':
            return n['q'] if lock_types(n.get('t')) else None
        if n['k'] == 'gv':
            return n['q'] if lock_types(n.get('t')) or True else None
        if n['k'] in ('ocall',) and n['op'] in ('*', '->') and n['c']:
            n = strip(n['c'][0])
        elif n['k'] == 'un' and n['op'] in ('*', '&'):
            n = strip(n['c'][0])
        elif n['k'] == 'mcall' and n['c'] and P.D.get(n.get('f'), {}).get('n') == 'get':
            n = strip(n['c'][0])
        elif n['k'] == 'call' and P.D.get(n.get('f'), {}).get('n') in ('ref', 'move', 'forward') and n['c']:
            n = strip(n['c'][0])
        elif n['k'] == 'var':
            return ('var', n['v'])
        else:
            return None
    return None


def guard_mode(t):
    return 'R' if 'read_lock' in t or 'shared_lock' in t else 'W'


def guards_in(P, n):
    """(lock, mode) of the guards made by evaluating n (not inside lambdas)."""
    out = []
    for x in walk(n, lambdas=False):
        if x['k'] == 'ctor' and GUARD.match(x.get('t') or '') and x.get('c'):
            names = [strip(a) for a in x['c'] if a is not None and a['k'] != 'defarg']
            if any(a is not None and a['k'] == 'gv' and a['q'] in ('std::defer_lock', 'std::try_to_lock') for a in names[1:]):
                continue
            m = re.search(r'scoped_lock', x['t'])
            for a in (names if m else names[:1]):
                l = lock_of(P, a)
                if l is not None and not (isinstance(l, tuple)):
                    out.append((l, guard_mode(x['t'])))
                elif isinstance(l, tuple):
                    out.append((l, guard_mode(x['t'])))
    return out


class Locks:
    """Program-wide facts: guard-returning functions, lock acquisitions, targets of std::function."""
    def __init__(self, P):
        self.P = P
        self._ret = {}
        self._acq = {}
        self._fn = None

    def returned(self, fid, seen=()):
        """Guards handed out by a function whose result owns a lock."""
        if fid in self._ret:
            return self._ret[fid]
        P = self.P
        out = set()
        d = P.D.get(fid)
        B = P.body_of(fid)
        if d is not None and B is not None and fid not in seen and (HOLDER.search(d.get('ret') or '') or GUARD.match(d.get('ret') or '')):
            for n in walk(B['body'], lambdas=False):
                for l, m in ([] if n['k'] != 'ctor' else guards_in(P, n)):
                    if not isinstance(l, tuple):
                        out.add((l, m))
                if n['k'] in ('call', 'mcall') and n.get('f'):
                    out |= self.returned(n['f'], seen + (fid,))
        self._ret[fid] = out
        return out

    def functions_of(self):
        """std::function type -> [(function id or None, lambda node or None, enclosing function id)]"""
        if self._fn is None:
            self._fn = {}
            P = self.P
            for fid, d, F in P.functions():
                if d.get('dep'):
                    continue
                for n in walk(F['body']):
                    t = n.get('t') or ''
                    if n['k'] == 'ctor' and t.startswith('std::function<') and n.get('c'):
                        a = n['c'][0]
                        for x in walk(a, lambdas=False):
                            if x['k'] == 'lambda':
                                self._fn.setdefault(sig(t), []).append((x.get('f'), x, fid))
                            elif x['k'] == 'fn':
                                self._fn.setdefault(sig(t), []).append((x['f'], None, fid))
                            elif x['k'] == 'var' and '(lambda at' in (F['locals'][x['v']]['t'] or ''):
                                for y in walk(F['body']):
                                    if y['k'] == 'vdecl' and y['v'] == x['v']:
                                        for z in walk(y.get('init'), lambdas=False) if y.get('init') else ():
                                            if z['k'] == 'lambda':
                                                self._fn.setdefault(sig(t), []).append((z.get('f'), z, fid))
        return self._fn

    def direct(self, body):
        """Locks a tree acquires itself."""
        P = self.P
        out = set()
        for n in walk(body, lambdas=False):
            if n['k'] == 'ctor':
                out |= {g for g in guards_in(P, n) if not isinstance(g[0], tuple)} if GUARD.match(n.get('t') or '') else set()
            if n['k'] == 'mcall' and n.get('f') and P.D.get(n['f'], {}).get('n') in ('lock', 'lock_read', 'lock_write', 'lock_shared') and n['c']:
                l = lock_of(P, n['c'][0])
                if l is not None and not isinstance(l, tuple):
                    out.add((l, 'R' if 'read' in P.D[n['f']]['n'] or 'shared' in P.D[n['f']]['n'] else 'W'))
        return out

    def callees(self, body, pool_ctx=True):
        P = self.P
        for n in walk(body, lambdas=False):
            f = n.get('f')
            if n['k'] in ('call', 'mcall', 'ctor', 'ocall') and f:
                if n['k'] == 'ocall' and n['op'] == '()' and n['c'] and 'std::function<' in (strip(n['c'][0]).get('t') or ''):
                    for g, lam, home in self.functions_of().get(sig(strip(n['c'][0])['t']), ()):
                        yield n, g, lam
                else:
                    yield n, f, None
                    if n.get('virt'):
                        for o in P.all_overriders(f):
                            yield n, o, None
            elif n['k'] == 'lambda' and False:
                pass

    def acquired(self, key, body, seen=None, path=()):
        """Locks that running body may acquire -> call path; transitive."""
        if key in self._acq:
            return self._acq[key]
        top = seen is None
        seen = {} if seen is None else seen
        out = {}
        todo = [(key, body, ())]
        done = {key}
        while todo:
            k, b, p = todo.pop()
            for g in self.direct(b):
                out.setdefault(g, p)
            for n, f, lam in self.callees(b):
                d = self.P.D.get(f) if f else None
                # a worker thread has no pool bound in its thread-local context
                if d is not None and d['qn'].startswith('ts::ThreadPool::') and n['k'] == 'mcall' and self.from_context(b, n):
                    continue
                kk = f if lam is None else ('lam', id(lam))
                if kk in done or kk is None:
                    continue
                done.add(kk)
                if lam is not None:
                    todo.append((kk, lam['body'], p + ('lambda',)))
                else:
                    B = self.P.body_of(f)
                    if B is not None:
                        todo.append((kk, [B['body']] + [i.get('init') for i in B.get('inits', ())], p + (d['qn'] if d else '?',)))
        self._acq[key] = out
        return out

    def from_context(self, body, n):
        o = strip(n['c'][0])
        if o is not None and o['k'] == 'var':
            for x in walk(body, lambdas=False):
                if x['k'] == 'vdecl' and x['v'] == o['v'] and x.get('init') is not None:
                    for y in walk(x['init'], lambdas=False):
                        if y['k'] == 'call' and y.get('f'):
                            q = self.P.D[y['f']]['qn']
                            if q.startswith('ts::ctx::') or q == 'ts::try_parallel':
                                return True
        return False


def sig(t):
    t = t.replace('const ', '', 1) if t.startswith('const ') else t
    m = re.search(r'std::function<', t)
    t = t[m.start():] if m else t
    return t.rstrip('&* ').strip()


def parents(root):
    out = {}
    todo = [root]
    while todo:
        n = todo.pop()
        for c in children(n):
            if c is not None:
                out[id(c)] = n
                todo.append(c)
    return out


def is_write(P, n, par):
    """The object n designates is changed by the expression it stands in (pointers: what they point to counts only through * or ->)."""
    while True:
        p = par.get(id(n))
        if p is None:
            return False
        k = p['k']
        first = bool(p.get('c')) and p['c'][0] is n
        if k == 'asg':
            return first
        if k == 'un':
            if p['op'] in ('++', '--'):
                return True
            if p['op'] == '&':
                return False
            return False
        if k == 'ocall':
            op = p['op']
            if op in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '++', '--', '<<=', '>>='):
                return first
            if op == '[]' and first:
                n = p
                if 'map<' in (p['c'][0].get('t') or ''):
                    return True
                continue
            return False
        if k == 'mcall':
            if not first:
                return False
            d = P.D.get(p.get('f'), {})
            if d.get('const') or d.get('n') in READS:
                return False
            return True
        if k in ('cast', 'icast', 'upcast', 'sub', 'mem', 'cond'):
            t = n.get('t') or ''
            if k in ('sub', 'mem') and (t.rstrip().endswith('*') or 'shared_ptr' in t or 'unique_ptr' in t) and k == 'mem' and p.get('arrow'):
                return False
            if k == 'sub' and not first:
                return False
            n = p
            continue
        if k in ('call', 'ctor', 'new'):
            d = P.D.get(p.get('f'), {})
            if d.get('qn') == 'std::swap':
                return True
            if d.get('qn') in ('std::move', 'std::forward'):
                return True
            return False
        return False


class Held(Flow):
    """State: (locks surely held, locks possibly held), each a frozenset of (lock, mode, holder variable)."""
    def __init__(self, P, L, fields, entry):
        super().__init__(P)
        self.L = L
        self.fields = fields          # predicate on node 'mem'/'gv'/'var' of interest -> key or None
        self.entry = entry
        self.acc = []                 # (key, write, must, node, function id, fresh)
        self.calls = []               # (callee, must, may, node)
        self.taken = []               # (lock, mode, may before, node)

    def join(self, a, b):
        return (a[0] & b[0], a[1] | b[1])

    def go(self, fid, body=None):
        F = self.P.body_of(fid)
        self.fid = fid
        self.F0 = F
        self.par = {}
        for b in [F['body']] + [i.get('init') for i in F.get('inits', ())]:
            if b is not None:
                self.par.update(parents(b))
        self.fresh = {x['v'] for x in walk(F['body']) if x['k'] == 'vdecl' and x.get('init') is not None and makes_new(self.P, x['init'])}
        self.aliases = {}
        return self.run(F, self.entry)

    def add(self, st, l, m, holder, n):
        self.taken.append((l, m, st[1], n))
        return (st[0] | {(l, m, holder)}, st[1] | {(l, m, holder)})

    def drop(self, st, holder=None, lock=None):
        keep = lambda s: frozenset(x for x in s if not (holder is not None and x[2] == holder or lock is not None and x[0] == lock))
        return (keep(st[0]), keep(st[1]))

    def declare(self, vd, st):
        t = self.Fn['locals'][vd['v']]['t']
        i = vd.get('init')
        if i is None:
            return st
        if GUARD.match(t) or HOLDER.search(t) or t.startswith('auto'):
            for l, m in guards_in(self.P, i):
                if not isinstance(l, tuple):
                    st = self.add(st, l, m, vd['v'], vd)
                else:
                    st = self.add(st, ('local', l[1]), m, vd['v'], vd)
            for x in walk(i, lambdas=False):
                if x['k'] in ('call', 'mcall') and x.get('f'):
                    for l, m in sorted(self.L.returned(x['f'])):
                        st = self.add(st, l, m, vd['v'], vd)
        return st

    def leave(self, vs, st):
        for v in vs:
            st = self.drop(st, holder=v['v'] if isinstance(v, dict) else v)
        return st

    def refine(self, c, truth, st):
        c = strip(c)
        if c is not None and c['k'] == 'mcall' and c.get('f') and self.P.D.get(c['f'], {}).get('n') in ('try_lock', 'try_lock_shared') and truth:
            l = lock_of(self.P, c['c'][0])
            if l is not None and not isinstance(l, tuple):
                return self.add(st, l, 'W', 'manual', c)
        return st

    def on(self, n, st):
        k = n['k']
        P = self.P
        if k in ('mem', 'gv', 'var'):
            key = self.fields(n, self.Fn)
            if key is not None:
                base = strip(n['c'][0]) if k == 'mem' and n.get('c') else None
                fresh = False
                while base is not None and base['k'] in ('ocall', 'mem', 'un', 'mcall') and base.get('c'):
                    base = strip(base['c'][0])
                if base is not None and base['k'] == 'var' and base['v'] in self.fresh:
                    fresh = True
                self.acc.append((key, is_write(P, n, self.par), st[0], n, self.fid, fresh))
        if k == 'lambda':
            p = self.par.get(id(n))
            while p is not None and p['k'] in ('ctor', 'cast', 'icast', 'upcast'):
                p = self.par.get(id(p))
            inline = p is not None and p['k'] in ('call', 'mcall') and INLINE.match(P.D.get(p.get('f'), {}).get('qn', ''))
            sub = st if inline else (frozenset(), frozenset())
            if n.get('body') is not None:
                self.par.update(parents(n['body']))
                self.run_body(self.Fn, n['body'], sub)
            return st
        if k in ('call', 'mcall', 'ctor', 'ocall') and n.get('f'):
            d = P.D.get(n['f'], {})
            nm = d.get('n')
            if k == 'mcall' and n['c']:
                o = strip(n['c'][0])
                if nm in ('lock', 'unlock', 'lock_read', 'lock_write', 'release_read', 'release_write', 'lock_shared', 'unlock_shared', 'release', 'reset'):
                    if o is not None and o['k'] == 'var' and (GUARD.match(o.get('t') or self.Fn['locals'][o['v']]['t']) or HOLDER.search(self.Fn['locals'][o['v']]['t'])):
                        if nm in ('unlock', 'release', 'reset'):
                            return self.drop(st, holder=o['v'])
                        if nm == 'lock':
                            for x in walk(self.F0['body']):
                                if x['k'] == 'vdecl' and x['v'] == o['v'] and x.get('init') is not None:
                                    for y in walk(x['init']):
                                        if y['k'] == 'ctor' and y.get('c'):
                                            l = lock_of(P, y['c'][0])
                                            if l is not None and not isinstance(l, tuple):
                                                return self.add(st, l, 'W', o['v'], n)
                        return st
                    l = lock_of(P, n['c'][0])
                    if l is not None and not isinstance(l, tuple) and lock_types_name(P, n):
                        if nm.startswith('lock'):
                            return self.add(st, l, 'R' if 'read' in nm or 'shared' in nm else 'W', 'manual', n)
                        return self.drop(st, lock=l)
            if k == 'ocall' and n['op'] == '()' and n['c']:
                o = strip(n['c'][0])
                if 'std::function<' in (o.get('t') or ''):
                    self.calls.append((('fun', sig(o['t'])), st[0], st[1], n))
                    return st
            self.calls.append((n['f'], st[0], st[1], n))
            if n.get('virt'):
                for o in P.all_overriders(n['f']):
                    self.calls.append((o, st[0], st[1], n))
        return st


def lock_types_name(P, n):
    d = P.D.get(n.get('f'), {})
    return bool(re.search(r'mutex', d.get('cls') or ''))


def makes_new(P, i):
    i = strip(i)
    while i is not None and i['k'] in ('ctor', 'cast', 'icast') and len([c for c in i['c'] if c is not None]) >= 1:
        i = strip(i['c'][0])
    return i is not None and (i['k'] == 'new' or i['k'] == 'call' and P.D.get(i.get('f'), {}).get('qn') in ('std::make_shared', 'std::make_unique'))

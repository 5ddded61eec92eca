"""R06: the registries do not depend on the order of initialisers."""
import re
from .program import walk, AnalysisError
from .sem import strip
from .flow import Flow
from .registry import actions

RUNS = ('std::bind', 'std::call_once', 'std::for_each', 'std::transform', 'std::sort', 'std::invoke', 'std::accumulate', 'std::find_if', 'std::any_of')


def initialised(P):
    """Objects of namespace or class scope initialised by code at program start."""
    return {q: g for q, g in P.G.items() if g.get('cinit') is False and not g.get('tls') and not g.get('dep') and g.get('def')
            and any(n['k'] not in ('lit', 'cast', 'icast', 'bin', 'un', 'sizeof', 'en') for n in walk(g['init']))}


class Reach:
    """Functions and objects an expression or function uses when evaluated."""
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def direct(self, root):
        """(functions run, objects used) by evaluating the tree root, with the line of each."""
        P, calls, objs = self.P, [], []
        todo = [root]
        while todo:
            n = todo.pop()
            if not isinstance(n, dict):
                if isinstance(n, list):
                    todo += n
                continue
            k = n.get('k')
            if k == 'gv':
                objs.append((n['q'], n.get('l')))
            if k == 'sizeof':
                continue
            f = n.get('f')
            if k in ('call', 'mcall', 'ctor', 'ocall', 'new', 'del') and f:
                d = P.D.get(f)
                calls.append((f, n.get('l')))
                if n.get('virt') and d is not None:
                    calls += [(o, n.get('l')) for o in P.all_overriders(f)]
                if d is not None and (d.get('cls') == 'ts::StaticAction' or d['qn'] in RUNS):
                    for a in n['c'][:1] if d['qn'] not in RUNS[2:] else n['c']:
                        a = strip(a)
                        if a is not None and a['k'] == 'un' and a['op'] == '&':
                            a = strip(a['c'][0])
                        if a is not None and a['k'] == 'fn':
                            calls.append((a['f'], n.get('l')))
            for key, v in n.items():
                if key not in ('fp',) and isinstance(v, (dict, list)):
                    todo.append(v)
        return calls, objs

    def of(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        B = self.P.body_of(fid)
        r = ([], [])
        if B is not None:
            r = self.direct([B.get('body'), B.get('inits'), B.get('locals')])
        self.memo[fid] = r
        return r

    def closure(self, root):
        """object -> chain of function names that leads to it."""
        calls, objs = self.direct(root)
        out = {}
        for q, l in objs:
            out.setdefault(q, ((), l, None))
        seen = {}
        todo = []
        for f, l in calls:
            if f not in seen:
                seen[f] = (self.P.D[f]['qn'],) if f in self.P.D else ('?',)
                todo.append(f)
        while todo:
            f = todo.pop(0)
            cs, os_ = self.of(f)
            for q, l in os_:
                out.setdefault(q, (seen[f], l, f))
            for g, l in cs:
                if g not in seen:
                    seen[g] = seen[f] + ((self.P.D[g]['qn'],) if g in self.P.D else ('?',))
                    todo.append(g)
        return out, seen


QUERIES = re.compile(r'^(Query\w*|Create\w*|Load|Clear|flush|AllKeys|AllItems|Get\w*Map)$')


class Stores(Flow):
    """State (stored, absent, read): whether something has been stored; whether the key is known to have no entry; parameters used."""
    def __init__(self, P, memo):
        super().__init__(P)
        self.memo = memo

    def join(self, a, b):
        return (a[0] and b[0], a[1] and b[1], a[2] & b[2])

    def local_object(self, n):
        n = strip(n)
        if n is not None and n['k'] == 'var':
            v = self.Fn['locals'][n['v']]
            return not v.get('p') and not v.get('st') and not v['t'].rstrip().endswith(('&', '*'))
        return False

    def refine(self, c, truth, st):
        c = strip(c)
        if c is not None and c['k'] in ('ocall', 'bin') and c.get('op') in ('==', '!=') and self.is_end(c):
            if truth == (c['op'] == '=='):
                return (st[0], True, st[2])
        if c is not None and c['k'] in ('ocall', 'bin') and c.get('op') in ('==', '!='):
            for x in walk(c):
                if x['k'] == 'mcall' and x.get('f') and self.P.D.get(x['f'], {}).get('n') == 'count':
                    if truth == (c['op'] == '=='):
                        return (st[0], True, st[2])
        if c is not None and c['k'] == 'mcall' and self.P.D.get(c.get('f'), {}).get('n') == 'count' and not truth:
            return (st[0], True, st[2])
        return st

    def is_end(self, c):
        return any(x['k'] == 'mcall' and self.P.D.get(x.get('f'), {}).get('n') in ('end', 'cend') for x in walk(c))

    def slot(self, n):
        """n designates an entry of a table."""
        n = strip(n)
        if n is None:
            return False
        if n['k'] == 'ocall' and n['op'] == '[]':
            return not self.local_object(n['c'][0])
        if n['k'] == 'mcall' and self.P.D.get(n.get('f'), {}).get('n') == 'at':
            return not self.local_object(n['c'][0])
        if n['k'] == 'mem' and n['q'].endswith('second'):
            return True
        if n['k'] == 'var':
            return self.Fn['locals'][n['v']]['t'].rstrip().endswith('&') and not self.Fn['locals'][n['v']].get('p')
        return False

    def on(self, n, st):
        k = n['k']
        if k == 'var' and self.Fn['locals'][n['v']].get('p'):
            return (st[0], st[1], st[2] | {n['v']})
        if k == 'lambda':
            return (st[0], st[1], st[2] | {x['v'] for x in walk(n) if x['k'] == 'var' and self.Fn['locals'][x['v']].get('p')})
        if k == 'asg' and self.slot(n['c'][0]) or k == 'ocall' and n['op'] == '=' and self.slot(n['c'][0]):
            return (True, st[1], st[2])
        if k in ('mcall', 'call') and n.get('f'):
            d = self.P.D[n['f']]
            if k == 'mcall' and (d.get('cls') or '').startswith('std::') and n['c'] and not self.local_object(n['c'][0]):
                if d['n'] in ('insert_or_assign', 'push_back', 'emplace_back', 'push_front'):
                    return (True, st[1], st[2])
                if d['n'] in ('insert', 'emplace', 'try_emplace', 'emplace_hint'):
                    if st[1] or 'multi' in d['cls']:
                        return (True, st[1], st[2])
                if d['n'] in ('erase', 'clear'):
                    return (False, True, st[2])
            elif k == 'mcall' and d['n'] == 'swap' and self.slot(n['c'][0]):
                return (True, st[1], st[2])
            elif self.P.body_of(n['f']) is not None and stores(self.P, n['f'], self.memo):
                return (True, st[1], st[2])
        return st


def stores(P, fid, memo):
    if fid in memo:
        return memo[fid]
    memo[fid] = False
    B = P.body_of(fid)
    if B is None or not any(x['k'] in ('asg', 'ocall', 'mcall', 'call') for x in walk(B['body'])):
        return False
    ex = [x for x in Stores(P, memo).run(B, (False, False, frozenset())) if x[0] != 'throw']
    memo[fid] = bool(ex) and all(x[2][0] and x[2][2] >= frozenset(B['ps']) for x in ex)
    return memo[fid]


def check(P, R):
    R.rule('R06.order', 'Nothing run by the initialiser of an object of namespace scope uses another object initialised by code in another file, '
                        'or later in the same file (tables are reached through function-local static accessors).')
    R.rule('R06.table', 'Every function that registers something at program start stores what it was given on every path that returns, '
                        'except where the same key already holds an entry.')
    R.rule('R06.read', 'Nothing run by the initialiser of an object of namespace scope looks up or clears a registry (what it finds depends on the order).')
    dyn = initialised(P)
    regs = {fn['f'] for q, f, l, fn, args in actions(P) if fn['k'] == 'fn' and P.D[fn['f']]['n'].startswith('Register')}
    for f in list(regs):
        regs |= {i for i, d in P.D.items() if d.get('cls') == P.D[f].get('cls') and d['n'].startswith('Register') and P.body_of(i) is not None}
    tables = {P.D[f].get('cls') for f in regs} - {None}
    rc = Reach(P)
    byname = {}
    for g in dyn.values():
        byname.setdefault(g['n'], []).append(g)
    nfun = set()
    for q, g in sorted(dyn.items()):
        R.ob('R06.order', g['n'])
        R.ob('R06.read')
        uses, fs = rc.closure(g['init'])
        nfun |= set(fs)
        for u, (chain, l, f) in sorted(uses.items()):
            at = P.D[f]['file'] if f is not None and f in P.D else g['file']
            h = next((x for x in byname.get(u, ()) if not x.get('internal') or x['file'] == at), None)
            if h is None or h is g:
                continue
            if h.get('internal') and not h['file'].endswith(('.cpp', '.cc', '.c')):
                continue        # every translation unit has its own, initialised before what follows the inclusion
            if h['file'] == g['file'] and h['line'] <= g['line']:
                continue
            R.bad('R06.order', '%s|%s' % (g['n'] if '_ts_static_action_' not in q else g['file'], h['n']),
                  '%s:%s' % (g['file'], g['line']), 'the initialiser of %s uses %s (initialised in %s) through %s'
                  % (g['n'], h['n'], h['file'], ' -> '.join(chain) or 'its own expression'))
        for f, chain in fs.items():
            d = P.D.get(f)
            if d is not None and d.get('cls') in tables and QUERIES.match(d['n']):
                R.bad('R06.read', '%s|%s' % (g['file'], d['qn']), '%s:%s' % (g['file'], g['line']),
                      'the initialiser of %s depends on what is registered already: %s' % (g['n'], ' -> '.join(chain)))
    memo = {}
    for f in sorted(regs):
        d = P.D[f]
        R.ob('R06.table', d['qn'])
        if P.body_of(f) is not None and not stores(P, f, memo):
            R.bad('R06.table', d['qn'], P.loc(f), '%s returns on some path without storing the entry it was given, all of it' % d['qn'])
    R.extra['functions_run_by_initialisers'] = len(nfun)
    R.floor('R06.table', 6)
    if len(dyn) < 100:
        raise AnalysisError('anchor vanished: objects initialised at program start')

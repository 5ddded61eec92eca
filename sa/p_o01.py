"""O01: an operator never touches an operand that was not supplied."""
from .program import walk, fnodes, AnalysisError
from .sem import strip, key, is_zero
from .lin import Lin, add, norm
from . import ops

S, B = ('size', 'S'), ('size', 'B')
STACK = 'ts::Stack'


class StackFn(Lin):
    """One method of ts::Stack: every position it touches lies within the current frame [base, base+size)."""

    def __init__(self, P, fid, R):
        Lin.__init__(self, P, self.can)
        self.fid, self.R = fid, R

    def is_mstack(self, n):
        n = strip(n)
        return n is not None and n['k'] == 'mem' and n['q'] == self.STORE

    def can(self, n):
        n = strip(n)
        k = n['k']
        f = self.P.D.get(n.get('f')) if n.get('f') else None
        if k == 'mem' and n['q'] == self.BASE:
            return ({B: 1}, 0)
        if k == 'mcall' and f is not None:
            if self.is_mstack(n['c'][0]):
                if f['n'] == 'size':
                    return ({S: 1, B: 1}, 0)
                if f['n'] in ('begin', 'cbegin'):
                    return ({}, 0)
                if f['n'] in ('end', 'cend'):
                    return ({S: 1, B: 1}, 0)
            o = strip(n['c'][0])
            if o is not None and o['k'] == 'this' and f.get('cls') == STACK:
                if f['n'] == 'size':
                    return ({S: 1}, 0)
                if f['n'] == 'base':
                    return ({B: 1}, 0)
                if f['n'] == 'begin':
                    return ({B: 1}, 0)
                if f['n'] == 'end':
                    return ({S: 1, B: 1}, 0)
        if k == 'ocall' and n['op'] in '+-' and len(n['c']) == 2:
            a, b = self.lin(n['c'][0]), self.lin(n['c'][1])
            if a is None or b is None:
                return None
            return add(a, b, 1 if n['op'] == '+' else -1)
        if k == 'ctor' and len([c for c in n['c'] if c is not None]) == 1:
            return self.lin(n['c'][0])
        return None

    def cases(self, n, st):
        x = strip(n)
        while x is not None and x['k'] == 'ctor' and len(x['c']) == 1:
            x = strip(x['c'][0])
        if x is not None and x['k'] == 'ocall' and x['op'] in '+-' and len(x['c']) == 2:
            out = []
            for s, a in self.cases(x['c'][0], st):
                for s2, b in self.cases(x['c'][1], s):
                    out.append((s2, None if a is None or b is None else add(a, b, 1 if x['op'] == '+' else -1)))
            return out
        return Lin.cases(self, x if x is not None else n, st)

    def goal(self, n, lf, st, lo, hi, what):
        """lo <= lf <= hi (linear forms; hi None = guaranteed by the call)"""
        self.R.ob('O01.frame', self.P.D[self.fid]['qn'])
        ok = lf is not None and self.implied(add(lf, lo, -1), st, 5) and (hi is None or self.implied(add(hi, lf, -1), st, 5))
        if not ok:
            self.R.bad('O01.frame', '%s %s' % (self.P.D[self.fid]['qn'], what), self.P.loc(self.fid, n.get('l')),
                       '%s in %s is not confined to the current frame of the stack' % (what, self.P.D[self.fid]['qn']))

    def on(self, n, st):
        k = n['k']
        f = self.P.D.get(n.get('f')) if n.get('f') else None
        b, top, end = ({B: 1}, 0), ({S: 1, B: 1}, -1), ({S: 1, B: 1}, 0)
        if k in ('mcall', 'ocall') and f is not None and n['c'] and self.is_mstack(n['c'][0]):
            m = f['n']
            if m in ('at', 'operator[]'):
                for s, lf in self.cases(n['c'][1], st):
                    self.goal(n, lf, s, b, None if m == 'at' else top, m)
            elif m in ('back', 'pop_back'):
                self.goal(n, ({S: 1}, -1), st, ({}, 0), None, m)
            elif m in ('front', 'pop_front'):
                self.goal(n, ({}, 0), st, b, top, m)
            elif m == 'erase':
                a = [x for x in n['c'][1:] if x is not None]
                for s, lf in self.cases(a[0], st):
                    if len(a) == 1:
                        self.goal(n, lf, s, b, top, m)
                        continue
                    for s2, l2 in self.cases(a[1], s):
                        self.goal(n, lf, s2, b, l2 if l2 is not None else ({}, -1), m)
                        self.goal(n, l2, s2, b, end, m)
            elif m in ('clear', 'resize', 'swap', 'shrink_to_fit', 'assign') and m != 'shrink_to_fit':
                self.R.bad('O01.frame', '%s %s' % (self.P.D[self.fid]['qn'], m), self.P.loc(self.fid, n.get('l')),
                           '%s on the whole storage also drops the tensors below the current frame' % m)
        if k == 'mcall' and f is not None and f['qn'] == 'ts::Stack::rebase' and any('int' in p['t'] for p in self.P.D[self.fid]['ps']) \
                and self.P.D[self.fid]['n'] == 'push_base':
            for s, lf in self.cases(n['c'][1], st):
                self.goal(n, lf, s, b, end, 'new base')
        return Lin.on(self, n, st)

    def join(self, a, b):
        """Also what a counter and the size have in common: a bound that moves as the counter does."""
        out = Lin.join(self, a, b)
        if a == b or a is None or b is None:
            return out

        def const(st):
            lo = {f[0][0][0]: -f[1] for f in st if len(f[0]) == 1 and f[0][0][1] == 1}
            hi = {f[0][0][0]: f[1] for f in st if len(f[0]) == 1 and f[0][0][1] == -1}
            return {t: v for t, v in lo.items() if hi.get(t) == v}
        ca, cb = const(a), const(b)
        da, db, more = dict(a), dict(b), set()
        for t in ca:
            if t == S or t not in cb or abs(ca[t] - cb[t]) != 1:
                continue
            for l in da:
                if l in db and da[l] != db[l] and all(x[0] != t for x in l) and any(x[0] == S for x in l):
                    m = (db[l] - da[l]) * (cb[t] - ca[t])       # l + m * t has the same bound on both sides
                    if abs(m) <= 2:
                        more.add(norm(dict(l + ((t, m),)), da[l] - m * ca[t]))
        self.kept = getattr(self, 'kept', frozenset()) | more
        return frozenset(out | more) if more else out

    def widen(self, old, new):
        return Lin.widen(self, old, new) | (new & getattr(self, 'kept', frozenset()))

    def effects(self, n, st):
        f = self.P.D.get(n.get('f')) if n.get('f') else None
        if n['k'] == 'mcall' and f is not None and self.is_mstack(n['c'][0]) and f['n'] in ('push_back', 'emplace_back'):
            st = self.setv(st, S, S, ({S: 1}, 1))
            return frozenset(st | {(((S, 1),), -1)})
        if n['k'] == 'mcall' and f is not None and self.is_mstack(n['c'][0]) and f['n'] == 'pop_back':
            return self.setv(st, S, S, ({S: 1}, -1))        # shown above that there is one
        if n['k'] == 'mcall' and f is not None and strip(n['c'][0]) is not None and strip(n['c'][0])['k'] == 'this' and not f.get('const') \
                or (n['k'] in ('mcall', 'ocall') and self.is_mstack(n['c'][0]) and f is not None and f['n'] in ('erase', 'pop_back', 'insert')):
            st = self.kill(st, lambda s: s in (S, B))
        return Lin.effects(self, n, st)


def check_stack(P, R):
    R.rule('O01.frame', 'Every position a method of the operand stack touches is proved, from the checks before it on every path, '
                        'to lie in the current frame: a missing operand is an error, never the caller\'s tensor.')
    r = P.need_rec(STACK)
    store = [f['n'] for f in r['fields'] if 'deque<ts::Tensor' in f['t'] or 'vector<ts::Tensor' in f['t']]
    if len(store) != 1:
        raise AnalysisError('anchor vanished: tensor storage of ts::Stack')
    StackFn.STORE = 'ts::Stack::' + store[0]
    base = set()
    for f in P.need('ts::Stack::base'):
        for n in fnodes(P.F(f)):
            if n['k'] == 'mem':
                base.add(n['q'])
    if len(base) != 1:
        raise AnalysisError('anchor vanished: frame base of ts::Stack')
    StackFn.BASE = base.pop()
    # size() is the number of tensors above the base
    for f in P.need('ts::Stack::size'):
        ok = False
        for n in walk(P.F(f)['body']):
            if n['k'] == 'ret' and n.get('c'):
                x = strip(n['c'][0])
                h = StackFn(P, f, R)
                h.Fn = P.F(f)
                lf = h.lin(x)
                ok = lf is not None and lf[0] == {S: 1} and lf[1] == 0
        R.ob('O01.frame', 'ts::Stack::size')
        if not ok:
            R.bad('O01.frame', 'ts::Stack::size', P.loc(f), 'size() is not the number of tensors above the base')
    for fid, d, F in P.functions(lambda d: d.get('cls') == STACK and not d.get('ctor') and not d.get('implicit')):
        StackFn(P, fid, R).run(F, frozenset())
    R.floor('O01.frame', 8)
    # size() answers to the canonical form only if the private helpers are what they seem
    for fid, d, F in P.functions(lambda d: d.get('cls') != STACK):
        for n in fnodes(F):
            if n['k'] == 'mcall' and n.get('f') and P.D[n['f']]['qn'] == 'ts::Stack::rebase':
                R.bad('O01.frame', 'rebase in ' + d['qn'], P.loc(fid, n.get('l')), 'the base of the stack is moved without a check')


def check(P, R):
    check_stack(P, R)
    R.rule('O01.operand', 'In run and infer of every operator class (calls on this resolved in the class, helpers taking the stack entered), '
                          'an operand is only indexed when it is certainly supplied or nothing was pushed yet (the index is then checked by the '
                          'stack); after a push, a missing operand would silently be one of the operator\'s own results.')
    C = ops.concrete(P)
    E = ops.Events()
    memo = {}
    und = 0
    for c, r in C.items():
        for m, f in r.items():
            ops.Ops(P, c, E, memo, None).root(f)
    R.ob('O01.operand', None, E.n.get('access', 0) + E.n.get('removal', 0) + E.n.get('frame', 0))
    R.floor('O01.operand', 600)
    R.extra['operator_classes'] = len(C)
    R.extra['undecided_accesses'] = {k: v for k, v in E.n.items() if k in ('variable index', 'untracked', 'after pop')}
    for (rule, fid, k), (line, msg) in E.bad.items():
        if rule == 'operand':
            R.bad('O01.operand', '%s %s' % (P.D[fid]['qn'], k), P.loc(fid, line), msg)
    R.assume('Operators are only run with Stack frames made by push_base (checked above).')
    R.assume('An operand indexed by a run-time value is checked by the stack but not shown to be an operand: counted as undecided.')

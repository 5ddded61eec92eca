"""A03: the C++ client wrapper turns every failed C call into an exception."""
from .program import walk, fnodes, AnalysisError
from .flow import Flow
from .sem import strip, is_zero, cname

# C calls whose zero result is an answer, not a failure, or is judged by somebody else: (function of the wrapper, C call) -> why
ANSWERS = {
    ('*', 'ts_Tensor_packed'): 'the boolean is the answer',
    ('*', 'ts_OperatorParams_get'): 'null means the parameter is absent',
    ('ts::api::Operator::Infer', 'ts_new_Tensor'): 'callback: the engine checks the returned tensor',
    ('ts::api::Operator::Run', 'ts_Tensor_pack'): 'callback: the engine checks the returned tensor',
    ('*', 'ts_Tensor_shape'): 'read together with the length, which is zero on failure',
    ('*', 'ts_Tensor_data'): 'null is the address of empty data',
    ('*', 'ts_last_error_message'): 'never fails',
}


class Checked(Flow):
    """State: frozenset of (status of every obligation, holders)."""
    MAXIT = 5

    def __init__(self, P, top, R):
        Flow.__init__(self, P)
        self.top = top
        self.R = R
        self.depth = 0
        self.stack = []
        self.toks = {}

    def join(self, a, b):
        return a | b

    def fallible(self, n):
        f = n.get('f')
        d = self.P.D.get(f)
        if not d or n['k'] != 'call' or not d['qn'].startswith('ts_') or d.get('cls') or '::' in d['qn']:
            return False
        if ('*', d['qn']) in ANSWERS or (self.top, d['qn']) in ANSWERS:
            return False
        r = d.get('rets') or d['ret']
        return r.strip().endswith('*') or r.strip() == 'ts_bool'

    def vk(self, v):
        return (self.Fn['id'], v)

    def tokens(self, n, holders):
        """Obligations an expression's value carries."""
        out = set()
        if n is None:
            return out
        for x in walk(n, lambdas=False):
            t = self.toks.get((id(x)))
            if t is not None:
                out.add(t)
            if x['k'] == 'var':
                out |= {t for h, t in holders if h == self.vk(x['v'])}
            elif x['k'] == 'this':
                out |= {t for h, t in holders if h == (self.Fn['id'], 'this')}
            elif x['k'] == 'mem' and not x.get('c'):
                out |= {t for h, t in holders if h == (self.Fn['id'], 'this')}
        return out

    def hold(self, st, h, e):
        out = set()
        for status, holders in st:
            ts = self.tokens(e, holders)
            hs = frozenset(x for x in holders if x[0] != h) | {(h, t) for t in ts}
            out.add((status, frozenset(hs)))
        return frozenset(out)

    def declare(self, vd, st):
        if vd.get('init') is not None:
            return self.hold(st, self.vk(vd['v']), vd['init'])
        return st

    def ctor_init(self, i, st):
        if i.get('init') is not None:
            out = set()
            for status, holders in st:
                ts = self.tokens(i['init'], holders)
                out.add((status, holders | {((self.Fn['id'], 'this'), t) for t in ts}))
            return frozenset(out)
        return st

    def on(self, n, st):
        k = n['k']
        if k == 'asg' and n['op'] == '=':
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var':
                return self.hold(st, self.vk(l['v']), n['c'][1])
        elif k == 'ocall' and n.get('op') == '=' and len(n['c']) == 2:
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var':
                return self.hold(st, self.vk(l['v']), n['c'][1])
        elif k in ('call', 'mcall', 'ctor', 'ocall'):
            if self.fallible(n):
                t = (self.Fn['id'], n.get('l'), cname(self.P, n))
                self.toks[id(n)] = t
                self.R.ob('A03.check', '%s: %s' % (self.top, t[2]) if self.depth == 0 else None, n=1 if self.depth == 0 else 0)
                return frozenset((frozenset([s for s in status if s[0] != t]) | {(t, 'pending')}, holders) for status, holders in st)
            F = self.P.body_of(n.get('f')) if n.get('f') else None
            if F is not None and F['file'].startswith('include/api/cpp/') and self.depth < 3 and F['id'] not in self.stack:
                args = n['c'][1:] if k in ('mcall',) else n['c']
                if any(self.tokens(a, h) for s, h in st for a in args if a is not None):
                    return self.inline(n, F, args, st)
        return st

    def inline(self, n, F, args, st):
        st0 = set()
        for status, holders in st:
            hs = set(holders)
            for p, a in zip(F['ps'], args):
                for t in self.tokens(a, holders):
                    hs.add(((F['id'], p), t))
            st0.add((status, frozenset(hs)))
        save = (self.exits, self.loops, self.scopes, self.trys, self.Fn)
        self.stack.append(F['id'])
        self.depth += 1
        exits = self.run(F, frozenset(st0))
        self.depth -= 1
        self.stack.pop()
        self.exits, self.loops, self.scopes, self.trys, self.Fn = save
        out = set()
        for kind, x, s in exits:
            if kind == 'throw':
                self.throwing(n, s)
            else:
                for status, holders in s:
                    out.add((status, frozenset(h for h in holders if h[0][0] != F['id'])))
        return frozenset(out) or None

    def refine(self, c, truth, st):
        c = strip(c)
        e = None
        if c['k'] in ('bin', 'ocall') and c.get('op') in ('==', '!=') and len(c['c']) == 2:
            a, b = c['c']
            if is_null(b):
                e = a
            elif is_null(a):
                e = b
            if e is not None and c['op'] == '==':
                truth = not truth
        elif c['k'] in ('call', 'var', 'mcall', 'mem', 'ocall'):
            e = c
        if e is None:
            return st
        out = set()
        for status, holders in st:
            ts = self.tokens(e, holders)
            s = frozenset((t, ('ok' if truth else 'failed') if t in ts and v in ('pending',) else v) for t, v in status)
            # a token already known to be fine cannot fail now
            if any(t in ts and v == 'ok' and not truth for t, v in status) and len(ts) == 1:
                continue
            out.add((s, holders))
        return frozenset(out) or None


def is_null(n):
    if is_zero(n):
        return True
    n = strip(n)
    while n is not None and n['k'] in ('ctor', 'init') and n.get('c') and len(n['c']) == 1:
        n = strip(n['c'][0])
    return n is not None and is_zero(n)


def check(P, R):
    R.rule('A03.check', 'on every path of a wrapper function that returns normally, the result of each fallible C call '
                        '(handle, text or ts_bool) was tested and the failing branch throws')
    R.rule('A03.what', 'the default wrapper exception carries the C interface\'s last error message')
    nf = 0
    for fid, d, F in P.functions(lambda d: (d.get('file') or '').startswith('include/api/cpp/')):
        if d.get('dep'):
            continue
        nf += 1
        A = Checked(P, d['qn'], R)
        for kind, n, st in A.run(F, frozenset([(frozenset(), frozenset())])):
            if kind == 'throw':
                continue
            for status, holders in st:
                for t, v in status:
                    if v == 'ok' or t[0] != fid:
                        continue
                    # the status itself is handed to the caller
                    if kind == 'ret' and n.get('c') and d['ret'] in ('bool', 'int') and t in A.tokens(n['c'][0], holders):
                        continue
                    R.bad('A03.check', '%s|%s' % (d['qn'], t[2]), P.loc(fid, t[1]),
                          'the result of %s is %s' % (t[2], 'not checked' if v == 'pending' else 'known to be a failure, but the function returns normally'))
    dc = [k for k in P.find_def('ts::api::Exception::Exception') if not P.D[k]['ps']]
    R.ob('A03.what', n=max(1, len(dc)))
    for k in dc:
        if not any(cname(P, x) == 'ts_last_error_message' for x in fnodes(P.F(k))):
            R.bad('A03.what', 'Exception()', P.loc(k), 'the default exception does not carry the last error message')
    R.floor('A03.check', 60)
    R.extra['wrapper_functions'] = nf
    R.extra['results_that_are_answers'] = {'%s in %s' % (b, a): w for (a, b), w in ANSWERS.items()}

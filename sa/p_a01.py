"""A01: no C++ exception crosses the C interface; failures are reported by value and message."""
from .program import walk, fnodes, children, AnalysisError
from .flow import Flow
from .sem import strip, is_zero, MayThrow, cname

# Functions whose documented purpose is to raise / that manage the message themselves.
RAISES = {'ts_Operator_Throw', 'ts_Operator_ThrowV2'}
MESSAGE = {'ts_last_error_message', 'ts_set_error_message'}


def api_functions(P):
    """The C interface: C linkage functions named ts_*, and the ts_* functions defined next to them."""
    for fid, d, F in P.functions():
        if d['qn'].startswith('ts_') and not d.get('cls') and '::' not in d['qn'] and not d.get('dep') \
                and not F['file'].startswith('include/'):
            if d.get('externC') or F['file'].startswith('src/api/'):
                yield fid, d, F


def message_global(P):
    fids = P.find_def('ts_last_error_message')
    if not fids:
        raise AnalysisError('ts_last_error_message is not defined')
    seen, todo, gs = set(), [(f, 0) for f in fids], set()
    while todo:
        f, depth = todo.pop()
        if f in seen or depth > 3:
            continue
        seen.add(f)
        F = P.body_of(f)
        if F is None:
            continue
        for n in fnodes(F):
            if n['k'] == 'gv' and 'string' in n.get('t', ''):
                gs.add(n['q'])
            if n.get('f') and n['k'] == 'call':
                todo.append((n['f'], depth + 1))
    return gs


def gv_of(n):
    n = strip(n)
    return n['q'] if n is not None and n['k'] == 'gv' else None


def empty_text(n):
    n = strip(n)
    while n is not None and n['k'] == 'ctor' and len(n.get('c', ())) >= 1:
        n = strip(n['c'][0])
    return n is not None and ((n['k'] == 'lit' and n.get('v') in ('', '""', b'')) or (n['k'] == 'ctor' and not n.get('c')))


class Roles:
    """Functions that clear / set the message, by what they do."""

    def __init__(self, P):
        self.P = P
        self.g = message_global(P)
        self.clear, self.set, self.other = set(), set(), []
        if not self.g:
            return
        for fid, d, F in P.functions():
            for n in fnodes(F):
                if n['k'] in ('ocall', 'asg') and n.get('op') == '=' and n.get('c') and gv_of(n['c'][0]) in self.g:
                    self.role(fid, F, n['c'][1], n)
                elif n['k'] == 'mcall' and n.get('c') and gv_of(n['c'][0]) in self.g:
                    m = P.D.get(n.get('f'), {}).get('n')
                    if m == 'clear':
                        self.clear.add(fid)
                    elif m == 'assign' and len(n['c']) > 1:
                        self.role(fid, F, n['c'][1], n)
                    elif m not in ('c_str', 'empty', 'size', 'data', 'length'):
                        self.other.append((fid, n))
        # functions that only forward to a setter or clearer
        for fid, d, F in P.functions(lambda d: (d.get('file') or '').startswith('src/api/')):
            for n in fnodes(F):
                if n['k'] == 'call' and n.get('f') in self.set and fid not in self.set:
                    pass

    def role(self, fid, F, v, n):
        if empty_text(v):
            self.clear.add(fid)
        elif any(x['k'] == 'var' and x['v'] in F['ps'] for x in walk(v)):
            self.set.add(fid)
        else:
            self.other.append((fid, n))


OK, UNSET, SET = 'ok', 'caught', 'reported'


class Api(Flow):
    """State: frozenset of (mode, cleared, variables known to be zero)."""
    calls_may_throw = True

    def __init__(self, P, roles, R, prop_key):
        Flow.__init__(self, P)
        self.roles = roles
        self.R = R
        self.pk = prop_key
        self.depth = 0
        self.stack = set()

    def join(self, a, b):
        return a | b

    def each(self, st, f):
        return frozenset(f(*s) for s in st)

    def catch(self, h, st):
        return self.each(st, lambda m, c, z: (UNSET, c, z))

    def declare(self, vd, st):
        z0 = vd.get('init') is not None and is_zero(vd['init'])
        return self.each(st, lambda m, c, z: (m, c, (z | {vd['v']}) if z0 or (vd.get('init') is not None and self.zero(vd['init'], z)) else z - {vd['v']}))

    def zero(self, n, z):
        if is_zero(n):
            return True
        n = strip(n)
        return n is not None and n['k'] == 'var' and n['v'] in z

    def on(self, n, st):
        k = n['k']
        if k == 'asg' and n.get('op') == '=' and strip(n['c'][0])['k'] == 'var':
            v = strip(n['c'][0])['v']
            return self.each(st, lambda m, c, z: (m, c, (z | {v}) if self.zero(n['c'][1], z) else z - {v}))
        if k in ('call', 'mcall', 'ocall', 'ctor', 'new'):
            f = n.get('f')
            if f in self.roles.clear:
                if any(m != OK for m, c, z in st):
                    self.flag('fail', n, 'the message is cleared again while a failure is being reported')
                return self.each(st, lambda m, c, z: (m, True, z))
            if f in self.roles.set:
                if n.get('c') and empty_text(n['c'][0]):
                    return self.each(st, lambda m, c, z: (m, True, z))
                return self.each(st, lambda m, c, z: (SET if m == UNSET else m, True, z))
            F = self.P.body_of(f) if f else None
            if F is not None and F['file'].startswith('src/api/') and k == 'call' and not self.P.D[f]['qn'].startswith('ts_'):
                r = self.inline(n, F, st)
                if r is not None:
                    return r
            if any(not c for m, c, z in st) and k != 'ctor' or (any(not c for m, c, z in st) and F is not None and not self.trivial(n)):
                if not self.passive(n):
                    self.flag('clear', n, '%s is called before the previous message was cleared' % (cname(self.P, n) or 'a function'))
        return st

    def trivial(self, n):
        return False

    def passive(self, n):
        """Calls that cannot fail or leave a message: reading the message, moving a value."""
        q = cname(self.P, n) or ''
        if q.startswith('std::move') or q.startswith('std::forward'):
            return True
        # arguments of a setter or of a thrown exception
        return q.startswith('std::basic_string') or q.startswith('std::operator+') or q.startswith('std::to_string')

    def after_call(self, n, st):
        f = n.get('f')
        if f in self.roles.clear or f in self.roles.set:
            return st
        if n['k'] == 'call' and f in self.inlined:
            return st
        # constructing the text of a message inside a handler is not a new failure (out of memory there is out of scope)
        if st is not None and all(m != OK for m, c, z in st) and (self.passive(n) or (cname(self.P, n) or '').endswith('::what')):
            return st
        return Flow.after_call(self, n, st)

    inlined = ()

    def inline(self, n, F, st):
        """Enters a helper of the C interface: same rules, parameters bound to the constants given."""
        if F['id'] in self.stack or self.depth > 4:
            return None
        self.inlined = set(self.inlined) | {n.get('f')}
        binds = [(p, a) for p, a in zip(F['ps'], n['c'])]
        save = (self.exits, self.loops, self.scopes, self.trys, self.Fn)
        self.stack.add(F['id'])
        self.depth += 1
        st0 = self.each(st, lambda m, c, z: (m, c, frozenset(p for p, a in binds if self.zero(a, z))))
        exits = self.run(F, st0)
        self.depth -= 1
        self.stack.discard(F['id'])
        self.exits, self.loops, self.scopes, self.trys, self.Fn = save
        out = frozenset()
        zz = frozenset.union(*[z for m, c, z in st]) if st else frozenset()
        for kind, x, s in exits:
            if kind == 'throw':
                self.throwing(n, frozenset((m, c, zz) for m, c, z in s))
            else:
                for m, c, z in s:
                    out |= {(m, c, zz)}
        return out or None

    def flag(self, rule, n, msg):
        self.R.bad('A01.' + rule, '%s' % self.pk, self.P.loc(self.Fn['id'], n.get('l')), msg)

    def ret(self, n, st):
        # value check for failures
        for m, c, z in st:
            if m == OK:
                continue
            if m == UNSET:
                self.flag('fail', n, 'a caught exception is not reported: no message is set before returning')
            if n.get('c') and self.P.D[self.Fn['id']]['ret'] != 'void' and self.valued:
                v = n['c'][0]
                vs = strip(v)
                if not self.zero(v, z) and not (vs is not None and vs['k'] == 'call' and vs.get('f') in self.inlined):
                    self.flag('fail', n, 'a caught exception makes the function return something other than its failure value')
        return st

    valued = True


def check(P, R):
    R.rule('A01.contain', 'nothing in a C interface function can throw outside a catch-all')
    R.rule('A01.clear', 'every path clears the message before anything else is called')
    R.rule('A01.fail', 'every path through a handler sets a message and returns the failure value (zero)')
    R.rule('A01.lem', 'the message is one thread-local string, set, cleared and read by the same functions')
    roles = Roles(P)
    R.ob('A01.lem', 'message variable: %s' % sorted(roles.g))
    if len(roles.g) != 1:
        R.bad('A01.lem', 'variable', 'src/api/errno.h', 'the message readers use is not a single variable (%s)' % sorted(roles.g))
    for g in roles.g:
        gr = P.G.get(g) or next((x for x in P.G.values() if x.get('n') == g), None)
        R.ob('A01.lem', 'thread storage')
        if gr is None or not gr.get('tls'):
            R.bad('A01.lem', 'thread', 'src/api/errno.cpp', 'the message is shared between threads (not thread_local)')
    for fid, n in roles.other:
        R.ob('A01.lem')
        R.bad('A01.lem', 'writer %s' % P.D[fid]['qn'], P.loc(fid, n['l']), 'the message is modified to something that is neither empty nor the given text')
    if roles.g:
        R.ob('A01.lem', 'setters %s' % sorted(P.D[f]['qn'] for f in roles.set))
        R.ob('A01.lem', 'clearers %s' % sorted(P.D[f]['qn'] for f in roles.clear))
        if not roles.set:
            R.bad('A01.lem', 'set', 'src/api/errno.h', 'no function stores a message')
        if not roles.clear:
            R.bad('A01.lem', 'clear', 'src/api/errno.h', 'no function clears the message')
    M = MayThrow(P)
    for f in roles.set | roles.clear:
        M.m[f] = None
    orig = M.expr

    def expr(n):
        # recording the text of a caught failure (the argument of a setter) is not a failure of its own
        if n is not None and n['k'] == 'call' and n.get('f') in roles.set:
            return None
        return orig(n)
    M.expr = expr
    n_api = 0
    for fid, d, F in api_functions(P):
        if d['qn'] in RAISES or d['qn'] in MESSAGE:
            continue
        n_api += 1
        R.ob('A01.contain', d['qn'])
        w = M.fn(fid)
        if w is not None:
            R.bad('A01.contain', d['qn'], P.loc(fid, w[0][1]), 'an exception can leave the function: ' +
                  ' -> '.join(x[2] for x in w if x[2]))
        A = Api(P, roles, R, d['qn'])
        A.valued = True
        ex = A.run(F, frozenset([(OK, False, frozenset())]))
        R.ob('A01.clear', d['qn'])
        for kind, n, st in ex:
            if kind == 'throw':
                continue
            R.ob('A01.fail')
            for m, c, z in st:
                if not c:
                    R.bad('A01.clear', d['qn'], P.loc(fid, n.get('l')), 'the function can return without clearing the previous message')
                if kind == 'fall' and m == UNSET:
                    R.bad('A01.fail', d['qn'], P.loc(fid, n.get('l')), 'a caught exception is not reported: no message is set')
    # other handlers next to the C interface
    for fid, d, F in P.functions(lambda d: True):
        if not F['file'].startswith('src/api/') or d['qn'].startswith('ts_'):
            continue
        if not any(n['k'] == 'try' for n in fnodes(F)):
            continue
        R.ob('A01.fail', d['qn'])
        A = Api(P, roles, R, d['qn'])
        A.valued = False
        A.flag = lambda rule, n, msg, A=A: R.bad('A01.' + rule, d['qn'], P.loc(fid, n.get('l')), msg) if rule == 'fail' else None
        for kind, n, st in A.run(F, frozenset([(OK, True, frozenset())])):
            if kind == 'fall' and any(m == UNSET for m, c, z in st):
                R.bad('A01.fail', d['qn'], P.loc(fid, n.get('l')), 'a caught exception is discarded')
    R.floor('A01.contain', 60)
    R.extra['raising_by_design'] = sorted(RAISES)
    R.assume('destructors do not throw; running out of memory while recording a failure message is outside this property')

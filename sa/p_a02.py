"""A02: every pointer a C client passes is checked for null before it is used."""
from .program import walk, fnodes, children, AnalysisError
from .flow import Flow
from .sem import strip, is_zero, key, cname
from .p_a01 import api_functions, Roles

# Arguments that may be null: function -> {parameter index: why}
OPTIONAL = {
    'ts_new_Workbench': {0: 'no device: default device'},
    'ts_new_ImageFilter': {0: 'no device: default device'},
    'ts_new_Tensor': {0: 'no shape: scalar', 3: 'no data: uninitialised'},
    'ts_new_Tensor_in_flow': {1: 'no shape: scalar', 4: 'no data: uninitialised'},
    'ts_Tensor_reshape': {1: 'no shape when its length is zero'},
    'ts_Operator_Register': {5: 'no infer callback: run is used'},
    'ts_Operator_RegisterEx': {5: 'no infer callback: run is used'},
    'ts_intime_memcpy': {1: 'no buffer: the tensor itself', 4: 'no buffer: the tensor itself'},
    'ts_Module_LoadFromStreamV2': {3: 'reserved buffer'},
    'ts_Operator_Throw': {0: 'no message'},
    'ts_Operator_ThrowV2': {0: 'no message', 1: 'no file name'},
    'ts_set_error_message': {0: 'no message: clears it'},
}
# Optional arguments that are only stored or handed on as they are.
PASS = {('ts_Operator_Register', 5), ('ts_Operator_RegisterEx', 5), ('ts_Module_LoadFromStreamV2', 3)}


def is_ptr(t):
    t = t.strip()
    return t.endswith('*') or t.endswith('*const') or t.endswith('* const') or '(*)' in t


class Null(Flow):
    """State: frozenset of fact sets; a fact is (root, 'N' or 'Z'), (('le0', var), True), (('alias', var), root), ('rep', True)."""
    calls_may_throw = False
    MAXIT = 6

    def __init__(self, P, roles, fn, tracked, bad):
        Flow.__init__(self, P)
        self.roles = roles
        self.api = fn
        self.tracked = tracked    # root -> (index, is optional)
        self.bad = bad
        self.depth = 0
        self.stack = []
        self.uses = 0

    def join(self, a, b):
        return a | b

    def widen(self, old, new):
        return frozenset(sorted(new, key=lambda s: len(s))[:64])

    # -- roots
    def vkey(self, v):
        return (self.Fn['id'], v)

    def root(self, n, facts):
        n = strip(n)
        if n is None:
            return None
        if n['k'] == 'var':
            vk = self.vkey(n['v'])
            for f, v in facts:
                if f == ('alias', vk):
                    return v
            return vk if vk in self.tracked else None
        if n['k'] == 'cond' or n['k'] == 'asg':
            return None
        if n['k'] == 'sub' and len(n['c']) == 2 and is_ptr(n.get('t', '')):
            r = self.root(n['c'][0], facts)
            if r is not None:
                return ('el', r, self.ikey(n['c'][1]))
        if n['k'] == 'un' and n['op'] == '*' and is_ptr(n.get('t', '')):
            r = self.root(n['c'][0], facts)
            if r is not None:
                return ('el', r, ('lit', '0'))
        return None

    def ikey(self, n):
        return (self.Fn['id'], key(n))

    def val(self, r, facts):
        for f, v in facts:
            if f == r:
                return v
        return 'U'

    @staticmethod
    def put(facts, k, v):
        return frozenset([x for x in facts if x[0] != k] + ([(k, v)] if v is not None else []))

    def le0(self, n, facts):
        if is_zero(n):
            return True
        n = strip(n)
        return n is not None and n['k'] == 'var' and (('le0', self.vkey(n['v'])), True) in facts

    # -- refinement
    def refine(self, c, truth, st):
        out = set()
        for facts in st:
            f = self.refine1(c, truth, facts)
            if f is not None:
                out.add(f)
        return frozenset(out) or None

    def refine1(self, c, truth, facts):
        c = strip(c)
        r = self.root(c, facts)
        if r is not None:
            return self.setnull(r, not truth, facts)
        if c['k'] == 'bin' and len(c['c']) == 2:
            a, b = c['c']
            op = c['op']
            if op in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    r = self.root(x, facts)
                    if r is not None and is_zero(y):
                        return self.setnull(r, (op == '==') == truth, facts)
            # integers
            for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                xs = strip(x)
                ys = strip(y)
                if xs is not None and xs['k'] == 'var' and ys is not None and ('cv' in ys or ys['k'] == 'lit'):
                    v = ys.get('cv', ys.get('v'))
                    if not isinstance(v, (int, float)) or isinstance(v, bool):
                        continue
                    small = (o == '>' and v <= 0 and not truth) or (o == '<=' and v <= 0 and truth) or \
                            (o == '>=' and v <= 1 and not truth) or (o == '<' and v <= 1 and truth) or \
                            (o == '==' and v <= 0 and truth) or (o == '!=' and v == 0 and not truth)
                    if small:
                        return self.put(facts, ('le0', self.vkey(xs['v'])), True)
        return facts

    def setnull(self, r, null, facts):
        v = self.val(r, facts)
        if null:
            return None if v == 'N' else self.put(facts, r, 'Z')
        return None if v == 'Z' else self.put(facts, r, 'N')

    # -- uses
    def need(self, n, e, st, what, ok=lambda facts: False):
        for facts in st:
            r = self.root(e, facts)
            if r is None:
                continue
            self.uses += 1
            v = self.val(r, facts)
            if v == 'N' or ok(facts):
                continue
            base = r
            while isinstance(base, tuple) and base[0] == 'el':
                base = base[1]
            idx, opt = self.tracked[base]
            el = 'an element of ' if r != base else ''
            self.bad(n, '%sparameter %d of %s is %s although it %s' % (
                el, idx + 1, self.api, what, 'may be null here' if v == 'U' else 'is null here'), idx, r != base)
            return

    def declare(self, vd, st):
        i = vd.get('init')
        out = set()
        for facts in st:
            vk = self.vkey(vd['v'])
            f = self.put(self.put(facts, ('alias', vk), None), ('le0', vk), None)
            if i is not None:
                r = self.root(i, facts)
                if r is not None:
                    f = self.put(f, ('alias', vk), r)
                elif self.le0(i, facts):
                    f = self.put(f, ('le0', vk), True)
            out.add(f)
        return frozenset(out)

    def kill_index(self, v, st):
        vk = ('v', v)

        def has(k):
            return k == vk or (isinstance(k, tuple) and any(has(x) for x in k))
        out = set()
        for facts in st:
            out.add(frozenset(x for x in facts if not (isinstance(x[0], tuple) and x[0] and x[0][0] == 'el' and x[0][2][0] == self.Fn['id'] and has(x[0][2][1]))))
        return frozenset(out)

    def on(self, n, st):
        k = n['k']
        if k == 'un':
            if n['op'] == '*':
                self.need(n, n['c'][0], st, 'dereferenced')
            elif n['op'] in ('++', '--', 'post++', 'post--', '++post', '--post') or '++' in n['op'] or '--' in n['op']:
                x = strip(n['c'][0])
                if x is not None and x['k'] == 'var':
                    self.at_step(x['v'], st)
                    st = self.kill_index(x['v'], st)
        elif k == 'mem' and n.get('arrow') and n.get('c'):
            self.need(n, n['c'][0], st, 'dereferenced')
        elif k == 'sub':
            self.need(n, n['c'][0], st, 'indexed')
        elif k == 'bin' and n['op'] in ('+', '-') and is_ptr(n.get('t', '')):
            a, b = n['c']
            if not is_ptr(a.get('t', '')) and strip(a)['k'] != 'var':
                a, b = b, a
            self.need(n, a, st, 'used as a range', lambda facts: self.le0(b, facts))
        elif k == 'asg':
            x = strip(n['c'][0])
            if x is not None and x['k'] == 'var':
                v = x['v']
                st = self.kill_index(v, st)
                out = set()
                for facts in st:
                    vk = self.vkey(v)
                    f = self.put(self.put(facts, ('alias', vk), None), ('le0', vk), None)
                    rhs = n['c'][1]
                    if n['op'] == '=':
                        r = self.root(rhs, facts)
                        if r is not None and r != vk:
                            f = self.put(f, ('alias', vk), r)
                        elif vk in self.tracked:
                            rs = strip(rhs)
                            f = self.put(f, vk, 'Z' if is_zero(rhs) else 'N')
                        elif self.le0(rhs, facts):
                            pass
                        if self.le0(rhs, facts):
                            f = self.put(f, ('le0', vk), True)
                    out.add(f)
                st = frozenset(out)
            elif x is not None:
                self.need(n, n['c'][1], st, 'stored')
        elif k == 'lambda':
            if n.get('body') is not None:
                self.run_body(self.Fn, n['body'], st)
            return st
        elif k in ('call', 'mcall', 'ocall', 'ctor', 'new'):
            f = n.get('f')
            if k == 'mcall' and n.get('c'):
                self.need(n, n['c'][0], st, 'dereferenced')
            if f in self.roles.set:
                st = frozenset(self.put(x, 'rep', True) for x in st)
                # its argument may not be null either: falls through
            args = n.get('c', ())
            if any(a is not None and any(self.root(a, facts) is not None for facts in st) for a in args):
                q = cname(self.P, n) or ''
                if q in ('std::move', 'std::forward', 'std::addressof'):
                    return st
                F = self.P.body_of(f) if f else None
                if k == 'ctor' and len(args) >= 2 and self.is_range(args[0], args[1], st):
                    F, args = None, args[2:]     # the range itself was checked where its end was computed
                off = 1 if k == 'mcall' else 0
                if F is not None and self.depth < 4 and F['id'] not in self.stack:
                    st = self.inline(n, F, args[off:], st)
                    return st
                for i, a in enumerate(args[off:]):
                    for facts in st:
                        r = self.root(a, facts)
                        if r in self.tracked and (self.api, self.tracked[r][0]) in PASS:
                            break
                    else:
                        self.need(n, a, st, 'passed to %s' % (q or 'a callback'))
            # ranges of strings
            if k == 'ctor' and 'vector<std::basic_string' in (self.P.D.get(f, {}).get('cls') or n.get('t', '')):
                for a in n.get('c', ())[:1]:
                    for facts in st:
                        r = self.root(a, facts)
                        e = strip(n['c'][1]) if len(n['c']) > 1 else None
                        ln = [key(x) for x in e['c']] if e is not None and e['k'] == 'bin' else []
                        if r is not None and not any((('elems', r, (self.Fn['id'], x)), True) in facts for x in ln):
                            self.bad(n, 'the elements of parameter %d of %s are used although they may be null' % (
                                self.tracked[r][0] + 1 if r in self.tracked else 0, self.api), self.tracked[r][0] if r in self.tracked else -1, True)
        return st

    def is_range(self, a, b, st):
        b = strip(b)
        if b is None or b['k'] != 'bin' or b['op'] != '+':
            return False
        return all(self.root(a, f) is not None and self.root(a, f) in (self.root(b['c'][0], f), self.root(b['c'][1], f)) for f in st)

    def at_step(self, v, st):
        """A loop variable is stepped: which elements indexed by it are known to be non-null?"""
        for L in self.steps:
            if L['v'] == v:
                common = None
                for facts in st:
                    s = {f[1] for f, val in facts if isinstance(f, tuple) and f and f[0] == 'el' and val == 'N'
                         and f[2] == (self.Fn['id'], ('v', v))}
                    common = s if common is None else common & s
                L['seen'].append(common or set())

    steps = ()

    def x_for(self, n, st):
        v = None
        i = n.get('init')
        if i is not None and i['k'] == 'decl' and len(i['c']) == 1 and i['c'][0].get('init') is not None and is_zero(i['c'][0]['init']):
            v = i['c'][0]['v']
        c = strip(n.get('cond')) if n.get('cond') else None
        bound = None
        if c is not None and c['k'] == 'bin' and c['op'] in ('<', '!=') and key(c['c'][0]) == ('v', v):
            bound = key(c['c'][1])
        L = {'v': v if bound is not None else None, 'seen': []}
        self.steps = list(self.steps) + [L]
        has_break = any(x['k'] in ('break',) for x in walk(n['body'])) if n.get('body') else False
        out = Flow.x_for(self, n, st)
        self.steps = self.steps[:-1]
        if out is not None and v is not None and L['seen'] and not has_break:
            rs = set.intersection(*L['seen'])
            for r in rs:
                out = frozenset(facts | {(('elems', r, (self.Fn['id'], bound)), True)} for facts in out)
        return out

    def inline(self, n, F, args, st):
        save = (self.exits, self.loops, self.scopes, self.trys, self.Fn)
        self.stack.append(F['id'])
        self.depth += 1
        st0 = set()
        for facts in st:
            f = facts
            for p, a in zip(F['ps'], args):
                r = self.root(a, facts)
                k = (F['id'], p)
                if r is not None:
                    f = self.put(f, ('alias', k), r)
                elif a is not None and self.le0(a, facts):
                    f = self.put(f, ('le0', k), True)
            st0.add(f)
        exits = self.run(F, frozenset(st0))
        self.depth -= 1
        self.stack.pop()
        self.exits, self.loops, self.scopes, self.trys, self.Fn = save
        out = set()
        for kind, x, s in exits:
            if kind == 'throw':
                self.throwing(n, s)
            else:
                for facts in s:
                    out.add(frozenset(x for x in facts if not (isinstance(x[0], tuple) and x[0][0] in ('alias', 'le0') and x[0][1][0] == F['id'])))
        return frozenset(out) or None

    def ctor_init(self, i, st):
        if i.get('init') is not None:
            self.need(i['init'], i['init'], st, 'stored',
                      lambda facts: (lambda r: r in self.tracked and (self.api, self.tracked[r][0]) in PASS)(self.root(i['init'], facts)))
        return st


def check(P, R):
    R.rule('A02.use', 'a pointer argument of a C interface function is dereferenced, indexed, stored or handed on only where it is known to be non-null '
                      '(followed through aliases, helpers and callees; null only with a zero length for ranges)')
    R.rule('A02.elem', 'elements of a pointer array argument are used only after they were checked')
    R.rule('A02.fail', 'a null mandatory argument makes the function fail with a message, not return quietly')
    roles = Roles(P)
    nparam = 0
    for fid, d, F in api_functions(P):
        name = d['qn']
        tracked = {}
        for i, (p, pd) in enumerate(zip(F['ps'], d['ps'])):
            if is_ptr(pd['t']):
                tracked[(fid, p)] = (i, i in OPTIONAL.get(name, {}))
        if not tracked:
            continue
        for r, (i, o) in tracked.items():
            nparam += 1
            R.ob('A02.use', '%s parameter %d (%s)%s' % (name, i + 1, d['ps'][i]['t'], ' optional' if o else ''))

        def bad(n, msg, idx, el, A=None):
            R.bad('A02.elem' if el else 'A02.use', '%s#%d' % (name, idx + 1), P.loc(N.Fn['id'], n.get('l')), msg)
        N = Null(P, roles, name, tracked, bad)
        exits = N.run(F, frozenset([frozenset()]))
        R.ob('A02.elem', n=sum(1 for r in tracked if d['ps'][tracked[r][0]]['t'].count('*') > 1))
        only_delete = {x['c'][0]['v'] for x in fnodes(F) if x['k'] == 'del' and x.get('c') and x['c'][0]['k'] == 'var'} | \
                      {strip(x['c'][0]).get('v') for x in fnodes(F) if x['k'] == 'del' and x.get('c') and strip(x['c'][0])}
        for kind, n, st in exits:
            if kind == 'throw':
                continue
            for facts in st:
                for r, (i, o) in tracked.items():
                    if N.val(r, facts) == 'Z' and not o and ('rep', True) not in facts and r[1] not in only_delete:
                        R.bad('A02.fail', '%s#%d' % (name, i + 1), P.loc(fid, n.get('l')),
                              'parameter %d may be null on this path and the call neither fails nor reports it' % (i + 1))
        R.ob('A02.fail', n=len(tracked))
    R.floor('A02.use', 80)
    R.extra['optional_arguments'] = {k: {str(i + 1): w for i, w in v.items()} for k, v in OPTIONAL.items()}
    R.assume('lengths passed together with a buffer describe it correctly; callbacks treat their own arguments')

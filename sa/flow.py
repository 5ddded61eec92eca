"""A structured forward dataflow engine over exported function bodies.

Subclasses give the state (immutable or copied by join/refine/on), and hooks:
  on(n, st)            after the children of expression n were evaluated; returns the new state, None = does not return
  refine(c, truth, st) state after leaf condition c evaluated to truth (None = infeasible)
  declare(vd, st)      after a local variable was declared
  leave(vars, st)      local variables going out of scope (reverse order), on every kind of exit
The engine knows the repository's abort idioms: throw, noreturn functions, and a log stream into
which the manipulator ts::eject / ts::fatal is inserted (the stream's level decides when that aborts).
"""
from .program import walk, children

EJECT = ('ts::eject', 'ts::fatal')


class Flow:
    MAXIT = 12
    calls_may_throw = False     # record a throwing exit at every call that may throw

    def __init__(self, P):
        self.P = P

    # ---- hooks
    def on(self, n, st):
        return st

    def refine(self, c, truth, st):
        return st

    def declare(self, vd, st):
        return st

    def leave(self, vs, st):
        return st

    def join(self, a, b):
        raise NotImplementedError

    def catch(self, h, st):
        return st

    def ret(self, n, st):
        return st

    # ---- engine
    def J(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.join(a, b)

    def run(self, F, st):
        """Returns the list of exits (kind, node, state), kind in ret, throw, fall."""
        self.Fn = F
        self.exits = []
        self.loops = []
        self.scopes = []
        self.trys = []
        self.scopes.append([])
        for i in F.get('inits', ()):
            if st is None:
                break
            if i.get('init') is not None:
                st = self.ev(i['init'], st)
            if st is not None:
                st = self.ctor_init(i, st)
        if st is not None:
            st = self.ex(F['body'], st)
        if st is not None:
            st = self.leave_to(0, st)
            self.exits.append(('fall', F['body'], st))
        return self.exits

    def run_body(self, F, body, st):
        """Run a nested body (a lambda) as a function of its own."""
        save = (self.exits, self.loops, self.scopes, self.trys)
        self.exits, self.loops, self.scopes, self.trys = [], [], [[]], []
        st = self.ex(body, st)
        if st is not None:
            self.exits.append(('fall', body, st))
        r = self.exits
        self.exits, self.loops, self.scopes, self.trys = save
        return r

    def ctor_init(self, i, st):
        return st

    def leave_to(self, depth, st):
        for vs in reversed(self.scopes[depth:]):
            if vs and st is not None:
                st = self.leave(list(reversed(vs)), st)
        return st

    def throwing(self, n, st):
        """An exception may leave at n in state st."""
        if st is None:
            return
        if self.trys:
            t = self.trys[-1]
            s2 = self.leave_to(t['depth'], st)
            t['st'] = self.J(t['st'], s2)
            t['pts'].append(n)
        else:
            s2 = self.leave_to(0, st)
            self.exits.append(('throw', n, s2))

    # ---- statements
    def ex(self, n, st):
        if n is None or st is None:
            return st
        k = n['k']
        m = getattr(self, 'x_' + k, None)
        if m:
            return m(n, st)
        return self.ev(n, st)

    def x_block(self, n, st):
        self.scopes.append([])
        d = len(self.scopes) - 1
        for c in n['c']:
            if st is None:
                break
            st = self.ex(c, st)
        vs = self.scopes.pop()
        if st is not None and vs:
            st = self.leave(list(reversed(vs)), st)
        return st

    def x_decl(self, n, st):
        for v in n['c']:
            st = self.x_vdecl(v, st)
            if st is None:
                return None
        return st

    def x_vdecl(self, v, st):
        if v.get('init') is not None:
            st = self.ev(v['init'], st)
            if st is None:
                return None
        st = self.declare(v, st)
        self.scopes[-1].append(v)
        return st

    def x_if(self, n, st):
        self.scopes.append([])
        st = self.ex(n.get('init'), st)
        if n.get('var'):
            st = self.x_vdecl(n['var'], st)
        if st is None:
            self.scopes.pop()
            return None
        t, f = self.cond(n['cond'], st)
        t = self.ex(n['then'], t)
        if n.get('else'):
            f = self.ex(n['else'], f)
        r = self.J(t, f)
        vs = self.scopes.pop()
        if vs and r is not None:
            r = self.leave(list(reversed(vs)), r)
        return r

    def widen(self, old, new):
        return new

    def _loop(self, n, st, cond, body, inc, post_test=False, pre=None):
        self.scopes.append([])
        head = st
        out = None
        for it in range(self.MAXIT):
            L = {'brk': None, 'cont': None, 'depth': len(self.scopes)}
            self.loops.append(L)
            cur = head
            f = None
            if pre is not None and cur is not None:
                f = cur
                cur = pre(cur)
            if not post_test and cur is not None:
                if cond is not None:
                    cur, f2 = self.cond(cond, cur)
                    f = f2
            if cur is not None:
                cur = self.ex(body, cur)
            cur = self.J(cur, L['cont'])
            if post_test and cur is not None:
                cur, f = self.cond(cond, cur)
            if inc is not None and cur is not None:
                cur = self.ev(inc, cur)
            self.loops.pop()
            out = self.J(f, L['brk'])
            new = self.J(head, cur)
            if new is None or self.same(new, head):
                break
            w = self.widen(head, new)
            if self.same(w, head):
                break
            head = w
        else:
            out = self.unstable(out)
        self.scopes.pop()
        return out

    def unstable(self, st):
        return st

    def same(self, a, b):
        return a == b

    def x_for(self, n, st):
        self.scopes.append([])
        st = self.ex(n.get('init'), st)
        st = self._loop(n, st, n.get('cond'), n.get('body'), n.get('inc')) if st is not None else None
        vs = self.scopes.pop()
        if vs and st is not None:
            st = self.leave(list(reversed(vs)), st)
        return st

    def x_while(self, n, st):
        return self._loop(n, st, n['cond'], n['body'], None)

    def x_do(self, n, st):
        return self._loop(n, st, n['cond'], n['body'], None, post_test=True)

    def x_rfor(self, n, st):
        st = self.ev(n['range'], st)
        if st is None:
            return None

        def pre(s):
            return self.range_var(n, s)
        return self._loop(n, st, None, n['body'], None, pre=pre)

    def range_var(self, n, st):
        return st

    def x_switch(self, n, st):
        st = self.ev(n['cond'], st)
        if st is None:
            return None
        L = {'brk': None, 'cont': None, 'depth': len(self.scopes), 'switch': True}
        self.loops.append(L)
        self.scopes.append([])
        body = n['body']
        items = body['c'] if body['k'] == 'block' else [body]
        cur = None
        hasdef = False
        for it in items:
            # peel case labels
            x = it
            while x is not None and x['k'] in ('case', 'default'):
                entry = self.case_entry(n, x, st)
                cur = self.J(cur, entry)
                if x['k'] == 'default':
                    hasdef = True
                x = x['c'][0]
            if cur is not None and x is not None:
                cur = self.ex(x, cur)
        vs = self.scopes.pop()
        self.loops.pop()
        out = self.J(cur, L['brk'])
        if not hasdef and not n.get('allenum'):
            out = self.J(out, self.no_case(n, st))
        if vs and out is not None:
            out = self.leave(list(reversed(vs)), out)
        return out

    def no_case(self, n, st):
        return st

    def case_entry(self, sw, case, st):
        return st

    def x_break(self, n, st):
        if not self.loops:
            return None
        L = self.loops[-1]
        s = self.leave_to(L['depth'], st)
        L['brk'] = self.J(L['brk'], s)
        return None

    def x_continue(self, n, st):
        for L in reversed(self.loops):
            if not L.get('switch'):
                s = self.leave_to(L['depth'], st)
                L['cont'] = self.J(L['cont'], s)
                break
        return None

    def x_ret(self, n, st):
        for c in n['c']:
            st = self.ev(c, st)
            if st is None:
                return None
        st = self.ret(n, st)
        if st is None:
            return None
        st = self.leave_to(0, st)
        self.exits.append(('ret', n, st))
        return None

    def x_try(self, n, st):
        T = {'st': None, 'depth': len(self.scopes), 'pts': [], 'h': n['h']}
        self.trys.append(T)
        out = self.ex(n['body'], st)
        self.trys.pop()
        all_ = any(h['t'] == '...' for h in n['h'])
        if T['st'] is not None:
            for h in n['h']:
                s = self.catch(h, T['st'])
                if s is not None:
                    s = self.ex(h['body'], s)
                    out = self.J(out, s)
            if not all_ and self.calls_may_throw:
                for p in T['pts'][:1]:
                    if not self.handles(n, p):
                        self.throwing(p, T['st'])
        return out

    def handles(self, tryn, p):
        return True

    def x_null(self, n, st):
        return st

    def x_label(self, n, st):
        return self.ex(n['c'][0], st)

    def x_omp(self, n, st):
        if n.get('body'):
            return self.ex(n['body'], st)
        return st

    def x_case(self, n, st):   # a case label nested in another statement
        return self.ex(n['c'][0], st)
    x_default = x_case

    # ---- expressions
    def cond(self, c, st):
        """Evaluates condition c; returns (state if true, state if false)."""
        if st is None:
            return None, None
        if c is None:
            return st, None
        k = c['k']
        if k == 'lit' or 'cv' in c:
            v = c.get('v') if k == 'lit' else c['cv']
            if k == 'lit' and not isinstance(v, (bool, int)):
                return st, st
            return (st, None) if v else (None, st)
        if k == 'un' and c['op'] == '!':
            t, f = self.cond(c['c'][0], st)
            return f, t
        if k == 'bin' and c['op'] == '&&':
            t, f = self.cond(c['c'][0], st)
            t2, f2 = self.cond(c['c'][1], t)
            return t2, self.J(f, f2)
        if k == 'bin' and c['op'] == '||':
            t, f = self.cond(c['c'][0], st)
            t2, f2 = self.cond(c['c'][1], f)
            return self.J(t, t2), f2
        if k == 'bin' and c['op'] == ',':
            st = self.ev(c['c'][0], st)
            return self.cond(c['c'][1], st)
        if k in ('icast', 'upcast') or (k == 'cast' and c.get('t') == 'bool'):
            if c.get('t') == 'bool':
                return self.cond(c['c'][0], st)
        if k == 'decl':
            st = self.ex(c, st)
            return st, st
        st = self.ev(c, st)
        if st is None:
            return None, None
        return self.refine(c, True, st), self.refine(c, False, st)

    def ev(self, n, st):
        if n is None or st is None:
            return st
        k = n['k']
        if k == 'bin' and n['op'] in ('&&', '||'):
            t, f = self.cond(n, st)
            return self.J(t, f)
        if k == 'cond':
            t, f = self.cond(n['c'][0], st)
            t = self.ev(n['c'][1], t)
            f = self.ev(n['c'][2], f)
            r = self.J(t, f)
            return self.on(n, r) if r is not None else None
        if k == 'lambda':
            return self.on(n, st)
        if k == 'asg':
            st = self.ev(n['c'][1], st)
            st = self.ev_lhs(n['c'][0], st) if st is not None else None
            return self.on(n, st) if st is not None else None
        if k == 'ocall' and n['op'] == '<<':
            a = self.abort_of(n)
            if a is not None:
                return self.do_abort(n, a, st)
        if k == 'ocall' and n['op'] == '=' and len(n['c']) == 2:
            st = self.ev(n['c'][1], st)
            st = self.ev(n['c'][0], st)
            return self.after_call(n, self.on(n, st)) if st is not None else None
        for c in children(n):
            st = self.ev(c, st)
            if st is None:
                return None
        st = self.on(n, st)
        if st is None:
            return None
        if k == 'throw':
            self.throwing(n, st)
            return None
        if k in ('call', 'mcall', 'ocall', 'ctor', 'new'):
            return self.after_call(n, st)
        return st

    def ev_lhs(self, n, st):
        return self.ev(n, st)

    def after_call(self, n, st):
        if st is None:
            return None
        f = n.get('f')
        if f:
            d = self.P.D.get(f)
            if d and d.get('noreturn'):
                return None
            if self.calls_may_throw and not (d and d.get('noexcept')):
                self.throwing(n, st)
        elif self.calls_may_throw and n['k'] != 'new':
            self.throwing(n, st)
        return st

    def stream_root(self, n):
        """The log stream constructor at the root of a chain of stream insertions, and the chain's arguments."""
        args = []
        while n is not None:
            if n['k'] == 'ocall' and n['op'] in ('<<', '()') and n['c']:
                args.append(n['c'][1:])
                n = n['c'][0]
                continue
            if n['k'] in ('cast',) and n['c']:
                n = n['c'][0]
                continue
            break
        return n, args

    def abort_of(self, n):
        """If n inserts ts::eject or ts::fatal into a log stream: (manipulator, level expression or None)."""
        if n['k'] != 'ocall' or n['op'] != '<<' or len(n['c']) != 2:
            return None
        a = n['c'][1]
        if a is None or a['k'] != 'fn' or self.P.D[a['f']]['qn'] not in EJECT:
            return None
        root, _ = self.stream_root(n['c'][0])
        if root is not None and root['k'] == 'ctor' and root['c']:
            return self.P.D[a['f']]['qn'], root['c'][0]
        return self.P.D[a['f']]['qn'], None

    def level_split(self, lv, st):
        """(state in which the level is NONE, state in which it aborts) for a level expression."""
        if lv is None:
            return None, st
        if lv['k'] == 'cond':
            t, f = self.cond(lv['c'][0], st)
            a1, b1 = self.level_split(lv['c'][1], t)
            a2, b2 = self.level_split(lv['c'][2], f)
            return self.J(a1, a2), self.J(b1, b2)
        if lv['k'] == 'en':
            if st is None:
                return None, None
            return (st, None) if lv['q'].endswith('LOG_NONE') else (None, st)
        return st, st

    def do_abort(self, n, a, st):
        what, lv = a
        if lv is None:
            st = self.ev(n['c'][0], st)
            if st is None:
                return None
            self.aborts(n, st)
            return None
        ok, bad = self.level_split(lv, st)
        # evaluate inserted values (effects only) in the aborting state
        if bad is not None:
            _, args = self.stream_root(n['c'][0])
            b = bad
            for al in reversed(args):
                for x in al:
                    b = self.ev(x, b) if b is not None else None
            if b is not None:
                self.aborts(n, b)
        return ok

    def aborts(self, n, st):
        self.throwing(n, st)

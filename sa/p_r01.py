"""R01: ambient context and operand-stack frames are restored on every exit."""
import re
from .program import walk, children, AnalysisError
from .sem import strip, MayThrow, is_zero
from .flow import Flow

RAW = re.compile(r'^ts::__thread_local_lite_context<(.*)>::(set|swap)$')
GET = re.compile(r'^ts::(__thread_local_lite_context|__lite_context|ctx::lite::of)<(.*)>::(get|try_get)$|^ts::ctx::lite::(get|ptr)$')
NEED = 'ts::need'
STACK = 'ts::Stack'


# Entry points of the plug-in interface whose documented purpose is to bind a device context for the calling thread.
BINDS = {'ts_plugin_initial_device_context', 'ts_plugin_bind_device_context'}


def own(d):
    return not d.get('dep') and d['file'].startswith(('src', 'include'))


def targ(q):
    m = re.search(r'<(.*)>', q)
    return m.group(1) if m else None


def plain_t(t):
    return re.sub(r'\bconst\b|[&*]', '', t or '').strip()


class Setters:
    """Functions that change the thread-bound context of some type: fid -> type."""
    def __init__(self, P):
        self.P = P
        self.of = {}
        self.first = {}
        for f, d in P.D.items():
            m = RAW.match(d['qn'])
            if m:
                self.of[f] = m.group(1)
        if not self.of:
            raise AnalysisError('anchor vanished: the thread-bound context slot')
        self.mt = MayThrow(P)
        self.wrap = {}
        funcs = [(fid, d, F) for fid, d, F in P.functions(own)]
        calls = {}
        for fid, d, F in funcs:
            s = set()
            for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ())]):
                if n['k'] in ('call', 'mcall') and n.get('f'):
                    s.add(n['f'])
            calls[fid] = s
        self.calls = calls
        self.funcs = funcs
        # a template counts in all its instantiations (only some have their bodies exported)
        self.pat = {P.D[f]['pat'] for f in self.of if P.D[f].get('pat')}
        grow = True
        while grow:
            grow = False
            for fid, d, F in funcs:
                if fid in self.of or d.get('ctor') or d.get('dtor') or d['file'].startswith('include/api/'):
                    continue
                cs = {c for c in calls[fid] if self.type_of(c) is not None}
                if cs and self.forwards(fid, d, F, cs):
                    self.of[fid] = self.type_of(next(iter(cs)))
                    self.wrap[fid] = d
                    if d.get('pat'):
                        self.pat.add(d['pat'])
                    grow = True

    def type_of(self, f):
        """The context type a call to f changes, or None."""
        d = self.P.D.get(f)
        if d is not None and d.get('externC'):
            return None      # what the C interface offers is the caller's business
        if f in self.of:
            return self.of[f]
        if d and d.get('pat') in self.pat:
            return targ(d.get('cls') or '') or ','.join(d.get('targs') or ()) or targ(d['qn'])
        return None

    def forwards(self, fid, d, F, cs):
        """A setter under another name: sets its own argument (or itself) and does nothing that can fail afterwards."""
        n_set = 0
        after = False
        for n in walk(F['body']):
            if n['k'] in ('call', 'mcall') and n.get('f') in cs:
                n_set += 1
                a = strip(n['c'][-1]) if n.get('c') else None
                while a is not None and a['k'] == 'un' and a['op'] in ('&', '*') or a is not None and a['k'] == 'call' and self.P.D.get(a.get('f'), {}).get('n') in ('addressof', 'forward', 'move'):
                    a = strip(a['c'][0])
                if a is None:
                    return False
                if n['k'] == 'mcall' and len(n['c']) == 1:
                    b = strip(n['c'][0])
                    if b is None or b['k'] not in ('this',):
                        if not (b is not None and self.api_object(F, b)):
                            return False
                elif a['k'] == 'this' or a['k'] == 'var' and a['v'] in F['ps']:
                    pass
                else:
                    return False
        if n_set != 1:
            return False
        h = After(self.P, self, cs)
        h.run(F, frozenset([False]))
        return not h.bad

    def api_object(self, F, b):
        """The object handle of a C API function."""
        while b is not None and b['k'] in ('ocall', 'mcall', 'un', 'mem', 'sub') and b.get('c'):
            b = strip(b['c'][0])
        return b is not None and b['k'] == 'var' and b['v'] in F['ps']


class After(Flow):
    """Nothing that may throw follows the call that sets. State: set of bools."""
    def __init__(self, P, S, cs):
        super().__init__(P)
        self.S, self.cs, self.bad = S, cs, False

    def join(self, a, b):
        return a | b

    def on(self, n, st):
        if n['k'] in ('call', 'mcall') and n.get('f') in self.cs:
            return frozenset([True])
        if n['k'] in ('call', 'mcall', 'ocall', 'ctor') and True in st and n.get('f') and self.S.mt.fn(n['f']):
            if self.P.D.get(n['f'], {}).get('qn', '').startswith('ts::api::'):
                return st
            self.bad = True
        return st


class Cx:
    """What is shared by the analyses of the functions."""
    def __init__(self, P):
        self.P = P
        self.S = Setters(P)
        self.mt = self.S.mt
        self.helper = {}
        self.holders()

    def holders(self):
        """Classes whose objects undo something when they are destroyed."""
        P, S = self.P, self.S
        self.hold = {NEED}
        self.saved = {}      # class -> field that keeps the previous context
        for fid, d, F in P.functions(own):
            if d.get('dtor') and d.get('cls') and d['cls'] != NEED:
                ks = {k for k, r in undo_calls(self, F, F['body'])}
                if ks:
                    self.hold.add(d['cls'])
        self.hold_pat = {re.sub(r'<.*', '', c) for c in self.hold if '<' in c}
        self.saved_fields = set()
        for fid, d, F in P.functions(own):
            if d.get('ctor') and d.get('cls') and self.is_holder(d['cls']):
                for i in F.get('inits', ()):
                    if i.get('q') and self.previous(i.get('init')):
                        self.saved_fields.add(gen(i['q']))
                for n in walk(F['body']):
                    if n['k'] == 'asg' and self.previous(n['c'][1]):
                        l = strip(n['c'][0])
                        if l is not None and l['k'] == 'mem':
                            self.saved_fields.add(gen(l['q']))
        # classes with such objects among their members
        grow = True
        while grow:
            grow = False
            for q, r in P.R.items():
                if q in self.hold or not q.startswith('ts::'):
                    continue
                if any(self.is_holder(plain_t(f['t'])) and not f['t'].endswith(('*', '&')) for f in r.get('fields', ())):
                    self.hold.add(q)
                    grow = True

    def is_holder(self, t):
        t = plain_t(t)
        if t in self.hold:
            return True
        if '<' in t and re.sub(r'<.*', '', t) in self.hold_pat:
            return True
        m = re.match(r'^std::(unique_ptr|shared_ptr)<([^,]*?(<.*?>)?)(, .*)?>$', t)
        return bool(m) and m.group(2) != t and self.is_holder(m.group(2))

    def previous(self, n):
        """The expression yields the context bound before."""
        n = strip(n)
        while n is not None and n['k'] in ('cast', 'ctor') and len(n.get('c', ())) == 1:
            n = strip(n['c'][0])
        if n is None or n['k'] not in ('call', 'mcall') or not n.get('f'):
            return False
        d = self.P.D.get(n['f'], {})
        if GET.match(d.get('qn', '')):
            return True
        return self.S.type_of(n['f']) is not None and d.get('rets', d.get('ret')) not in (None, 'void') and n.get('t') != 'void'


def gen(q):
    out, d = '', 0
    for ch in q:
        d += ch == '<'
        if d == 0:
            out += ch
        d -= ch == '>'
    return out


def root(P, F, n, depth=0):
    """What an expression designates, seen through pointers, references and accessors."""
    n = strip(n)
    while n is not None:
        k = n['k']
        if k in ('ocall',) and n['op'] in ('->', '*') and n.get('c'):
            n = strip(n['c'][0])
        elif k == 'un' and n['op'] in ('*', '&'):
            n = strip(n['c'][0])
        elif k == 'mcall' and n.get('c') and P.D.get(n.get('f'), {}).get('n') == 'get':
            n = strip(n['c'][0])
        elif k == 'call' and n.get('c') and P.D.get(n.get('f'), {}).get('n') in ('ref', 'addressof', 'move', 'forward'):
            n = strip(n['c'][0])
        elif k == 'ctor' and len(n.get('c', ())) == 1:
            n = strip(n['c'][0])
        elif k == 'mcall' and n.get('c') and len(n['c']) == 1:
            B = P.body_of(n['f'])
            r = accessor(B)
            if r is None:
                return ('call', n['f'], root(P, F, n['c'][0], depth + 1) if depth < 6 else None)
            n = strip(r)
            if n is None:
                return None
        elif k == 'mem':
            return ('fld', n['q'])
        elif k == 'var':
            t = F['locals'][n['v']]['t']
            if depth < 6 and t.rstrip().endswith(('&', '*')) and n['v'] not in F['ps']:
                init = None
                for x in walk(F['body']):
                    if x['k'] == 'vdecl' and x['v'] == n['v']:
                        init = x.get('init')
                if init is not None:
                    return root(P, F, init, depth + 1)
            return ('var', n['v'])
        elif k == 'gv':
            return ('gv', n['q'])
        elif k == 'this':
            return ('this',)
        else:
            return None
    return None


def accessor(B):
    """The expression a getter returns."""
    if B is None or B['ps']:
        return None
    c = [x for x in B['body'].get('c', ()) if x['k'] != 'null']
    if len(c) == 1 and c[0]['k'] == 'ret' and c[0].get('c'):
        e = strip(c[0]['c'][0])
        while e is not None and (e['k'] == 'un' and e['op'] == '*' or e['k'] == 'ocall' and e['op'] == '*' and e.get('c')):
            e = strip(e['c'][0])
        return e
    return None


def op_of(cx, F, n):
    """(verb, token) for a call that does or undoes something: verbs open, close, clear, drop."""
    P = cx.P
    d = P.D.get(n.get('f')) if n.get('f') else None
    if d is None:
        return None
    cls = d.get('cls') or ''
    if n['f'] in cx.helper:
        verb, where, _ = cx.helper[n['f']]
        if isinstance(where, tuple):
            return verb, ('frame', where)
        args = n['c'][1:] if n['k'] == 'mcall' else n['c']
        return verb, ('frame', root(P, F, args[where]))
    if n['k'] == 'mcall' and cls == STACK:
        r = root(P, F, n['c'][0])
        if r == ('this',):
            return None
        if d['n'] == 'push_base':
            return 'open', ('frame', r)
        if d['n'] == 'pop_base':
            return 'close', ('frame', r)
        if d['n'] == 'clear':
            return 'clear', ('frame', r)
        if d['n'] in ('erase', 'pop'):
            return 'drop', ('frame', r)
        if d['n'] in ('push', 'clone_push'):
            return 'push', ('frame', r)
    if n['k'] == 'mcall' and cls.startswith('std::stack<') and n.get('c'):
        o = strip(n['c'][0])
        if o is not None and o['k'] == 'mem' and o['q'].startswith('ts::Workbench'):
            if d['n'] in ('push', 'emplace'):
                return 'open', ('entry', o['q'])
            if d['n'] == 'pop':
                return 'close', ('entry', o['q'])
    if n['k'] in ('call', 'mcall'):
        t = cx.S.type_of(n['f'])
        if t is not None:
            return 'set', ('context', t)
    return None


def undo_calls(cx, F, body):
    out = []
    for n in walk(body):
        if n['k'] in ('call', 'mcall'):
            o = op_of(cx, F, n)
            if o is not None and o[0] in ('close', 'set'):
                out.append((o[1], n))
    return out


def undo_of(cx, F, n):
    """What a ts::need built by ctor node n will do: list of (verb, token) in order, or None if nothing known here."""
    P = cx.P
    cs = n.get('c', ())
    if not cs:
        return []
    a = strip(cs[0])
    while a is not None and a['k'] == 'un' and a['op'] == '&':
        a = strip(a['c'][0])
    while a is not None and a['k'] in ('ctor',) and len(a.get('c', ())) == 1 and strip(a['c'][0])['k'] == 'lambda':
        a = strip(a['c'][0])
    if a is None:
        return []
    if a['k'] == 'fn':
        d = P.D.get(a['f'], {})
        obj = cs[1] if len(cs) > 1 else None
        r = root(P, F, obj) if obj is not None else None
        if d.get('cls') == STACK and d['n'] in ('pop_base', 'clear'):
            return [('close' if d['n'] == 'pop_base' else 'clear', ('frame', r))]
        if (d.get('cls') or '').startswith('std::stack<') and d['n'] == 'pop' and r is not None and r[0] == 'fld':
            return [('close', ('entry', r[1]))]
        t = cx.S.type_of(a['f'])
        if t is not None:
            return [('restore', ('context', t))] if obj is not None else []
        B = P.body_of(a['f'])
        return []
    if a['k'] == 'lambda':
        out = []
        for x in walk(a['body']):
            if x['k'] in ('call', 'mcall'):
                o = op_of(cx, F, x)
                if o is not None:
                    out.append(('restore' if o[0] == 'set' else o[0], o[1]))
        return out
    if a['k'] == 'var':
        for x in walk(F['body']):
            if x['k'] == 'vdecl' and x['v'] == a['v'] and x.get('init') is not None:
                i = strip(x['init'])
                if i is not None and i['k'] == 'lambda':
                    return undo_of(cx, F, {'c': [i]})
    return []


class Sx(tuple):
    """(open tokens [(token, node line, empty, cleared)], armed undos {var: ops}, operands pushed and not dropped)"""
    __slots__ = ()


class Balance(Flow):
    """State: frozenset of (open, armed, loose) where open is a tuple of (token, empty, cleared), armed a sorted tuple of (var, ops)."""
    calls_may_throw = True

    def __init__(self, cx, fid, d, F):
        super().__init__(cx.P)
        self.cx, self.fid, self.d = cx, fid, d
        self.F0 = F
        self.bad = []
        self.opened = 0
        self.exc = False
        self.locals_saved = set()
        self.in_dtor = bool(d.get('dtor'))
        self.line = {}
        self.operands = any(re.match(r'^(const )?std::vector<(const )?ts::Tensor\b', F['locals'][v]['t']) and (F['locals'][v]['t'].startswith('const') or not F['locals'][v]['t'].endswith('&'))
                            for v in F['ps'])

    def join(self, a, b):
        r = a | b
        if len(r) > 60:
            raise AnalysisError('too many states in ' + self.d['qn'])
        return r

    # -- exceptions
    def throwing(self, n, st):
        old, self.exc = self.exc, True
        super().throwing(n, st)
        self.exc = old

    def after_call(self, n, st):
        if st is None:
            return None
        f = n.get('f')
        d = self.P.D.get(f) if f else None
        if d and d.get('noreturn'):
            return None
        if d and d.get('ctor') and d.get('cls') == NEED:
            return st
        o = op_of(self.cx, self.Fn, n)
        if o is not None and o[0] in ('open', 'close', 'clear', 'drop', 'set'):
            return st
        if f is None or self.cx.mt.fn(f) is not None:
            self.throwing(n, st)
        return st

    # -- effects
    def on(self, n, st):
        k = n['k']
        if k in ('call', 'mcall'):
            o = op_of(self.cx, self.Fn, n)
            if o is not None:
                v, tok = o
                if v == 'open':
                    self.throwing(n, st)
                    self.opened += 1
                    self.line.setdefault(tok, n.get('l'))
                    empty = tok[0] == 'frame' and self.is_size(n, tok)
                    return frozenset((op + ((tok, empty, False),), ar, lo) for op, ar, lo in st)
                if v == 'close':
                    return self.apply(('close', tok), st, n)
                if v == 'set':
                    a = n['c'][-1] if n.get('c') else None
                    if self.is_saved(a):
                        return self.apply(('restore', tok), st, n)
                    self.throwing(n, st)
                    self.opened += 1
                    self.line.setdefault(tok, n.get('l'))
                    return frozenset((op if any(x[0] == tok for x in op) else op + ((tok, False, True),), ar, lo) for op, ar, lo in st)
                if v in ('clear', 'drop'):
                    return self.apply((v, tok), st, n, direct=True)
                if v == 'push' and self.operands and tok[1] is not None and tok[1][0] == 'fld':
                    return frozenset((op, ar, lo if any(x[0] == tok for x in op) else tok) for op, ar, lo in st)
            d = self.P.D.get(n.get('f'), {})
            if d.get('cls') == NEED and n['k'] == 'mcall' and d['n'] in ('release', 'emit') and n.get('c'):
                b = strip(n['c'][0])
                if b is not None and b['k'] == 'var':
                    out = set()
                    for op, ar, lo in st:
                        ops = dict(ar).get(b['v'], ())
                        s = (op, tuple(x for x in ar if x[0] != b['v']), lo)
                        if d['n'] == 'emit':
                            for x in ops:
                                s = self.one(x, s, n)
                        elif lo is not None and any(v in ('drop', 'clear') for v, t in ops):
                            s = (s[0], s[1], None)       # kept on purpose
                        out.add(s)
                    return frozenset(out)
        if k == 'asg' and self.cx.previous(n['c'][1]):
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var':
                self.locals_saved.add(l['v'])
        return st

    def is_size(self, n, tok):
        a = strip(n['c'][-1]) if len(n['c']) > 1 else None
        while a is not None and a['k'] in ('cast', 'icast') and a.get('c'):
            a = strip(a['c'][0])
        if a is not None and a['k'] == 'var':
            for x in walk(self.Fn['body']):
                if x['k'] == 'vdecl' and x['v'] == a['v'] and x.get('init') is not None:
                    a = strip(x['init'])
                    while a is not None and a['k'] in ('cast', 'icast') and a.get('c'):
                        a = strip(a['c'][0])
                    break
        return a is not None and a['k'] == 'mcall' and self.P.D.get(a.get('f'), {}).get('n') == 'size' and root(self.P, self.Fn, a['c'][0]) == tok[1]

    def is_saved(self, a):
        a = strip(a) if a is not None else None
        if a is None:
            return False
        if a['k'] == 'var':
            if a['v'] in self.locals_saved:
                return True
            for x in walk(self.Fn['body']):
                if x['k'] == 'vdecl' and x['v'] == a['v'] and self.cx.previous(x.get('init')):
                    self.locals_saved.add(a['v'])
                    return True
            return False
        if a['k'] == 'mem':
            return gen(a['q']) in self.cx.saved_fields
        return False

    def declare(self, vd, st):
        init = strip(vd.get('init')) if vd.get('init') is not None else None
        t = plain_t(self.Fn['locals'][vd['v']]['t'])
        if t == NEED and init is not None:
            while init['k'] == 'ctor' and len(init.get('c', ())) == 1 and strip(init['c'][0]) is not None and strip(init['c'][0])['k'] == 'ctor' and strip(init['c'][0]).get('t') == NEED:
                init = strip(init['c'][0])
            if init['k'] == 'ctor':
                ops = tuple(undo_of(self.cx, self.Fn, init))
                if ops:
                    return frozenset((op, ar + ((vd['v'], ops),), lo) for op, ar, lo in st)
        return st

    def ret(self, n, st):
        if plain_t(self.d.get('ret')) == NEED and n.get('c'):
            # the undo is handed to the caller
            e = strip(n['c'][0])
            while e is not None and (e['k'] == 'ctor' and e.get('t') == NEED and len(e.get('c', ())) == 1 and strip(e['c'][0])['k'] in ('ctor', 'var', 'call') and
                                     strip(e['c'][0]).get('t', NEED) == NEED or e['k'] == 'call' and self.P.D.get(e.get('f'), {}).get('n') == 'move'):
                e = strip(e['c'][0])
            out = set()
            for s in st:
                ops = ()
                if e is not None and e['k'] == 'var':
                    ops = dict(s[1]).get(e['v'], ())
                    s = (s[0], tuple(x for x in s[1] if x[0] != e['v']), s[2])
                elif e is not None and e['k'] == 'ctor':
                    ops = undo_of(self.cx, self.Fn, e)
                for o in ops:
                    s = self.one(o, s, n)
                out.add(s)
            return frozenset(out)
        return st

    def leave(self, vs, st):
        out = set()
        for s in st:
            for v in vs:
                v = v['v'] if isinstance(v, dict) else v
                ops = dict(s[1]).get(v)
                if ops is not None:
                    s = (s[0], tuple(x for x in s[1] if x[0] != v), s[2])
                    for o in ops:
                        s = self.one(o, s, None)
            out.add(s)
        return frozenset(out)

    def apply(self, o, st, n, direct=False):
        return frozenset(self.one(o, s, n, direct) for s in st)

    def one(self, o, s, n, direct=False):
        v, tok = o
        op, ar, lo = s
        i = next((j for j in range(len(op) - 1, -1, -1) if op[j][0] == tok), None)
        if v in ('close', 'restore'):
            if i is None:
                if not self.in_dtor:
                    self.note('closes', tok, n)
                return s
            if op[i][1] and not op[i][2] and self.exc:
                self.note('dirty', tok, n)
            return (op[:i] + op[i + 1:], ar, lo)
        if v == 'clear':
            if i is None:
                if not direct and not self.in_dtor:
                    if lo == tok:
                        return (op, ar, None)
                    self.note('clears', tok, n)
                return (op, ar, None if lo == tok else lo)
            x = op[i]
            return (op[:i] + ((x[0], x[1], True),) + op[i + 1:], ar, lo)
        if v == 'drop':
            return (op, ar, None if lo == tok else lo)
        return s

    def note(self, what, tok, n):
        if not any(b[0] == what and b[1] == tok for b in self.bad):
            self.bad.append((what, tok, n))


START = frozenset([((), (), None)])
NAMES = {'frame': 'the operand-stack frame', 'entry': 'the running-program entry', 'context': 'the thread-bound context'}


def show(tok):
    if tok[0] == 'context':
        return 'the thread-bound ' + tok[1]
    return NAMES[tok[0]]


def check(P, R):
    R.rule('R01.class', 'A class that binds something in its constructor keeps what was bound before, restores exactly that in its destructor, and '
                        'nothing that can fail follows the binding inside the constructor (its destructor would not run).')
    R.rule('R01.pair', 'In every other function, each operand-stack frame, running-program entry and context change is undone exactly once on every '
                       'exit, exceptional ones included.')
    R.rule('R01.left', 'A function that opens an empty operand-stack frame, or puts the operands it was given on the stack of a workbench, leaves none of them '
                       'behind when it leaves by an exception.')
    R.rule('R01.named', 'An object that undoes something at the end of its life is given a name in a scope that holds the work done under it.')
    cx = Cx(P)
    for fid, d in cx.S.wrap.items():
        R.ob('R01.pair', d['qn'] + ' (sets what it is given)')
    classes(cx, R)
    need_class(cx, R)
    openers(cx)
    for fid, d, F in P.functions(own):
        if fid in cx.S.of or fid in cx.helper or d.get('cls') == STACK or d['qn'] in BINDS or d['file'].startswith('include/api/'):
            continue
        ops = [op_of(cx, F, n) for n in walk(F['body']) if n['k'] in ('call', 'mcall')]
        ops = [o for o in ops if o is not None]
        uses = any(o[0] in ('open', 'set', 'close') for o in ops)
        needs = any(n['k'] == 'ctor' and n.get('t') == NEED for n in walk(F['body']))
        ctor_holder = (d.get('ctor') or d.get('dtor')) and cx.is_holder(d.get('cls'))
        b = Balance(cx, fid, d, F)
        if not (uses or needs or b.operands and any(o[0] == 'push' for o in ops)):
            continue
        exits = b.run(F, START)
        judge(cx, R, fid, d, F, b, exits, ctor_holder)
    named(cx, R)
    R.floor('R01.class', 3)
    R.floor('R01.pair', 10)
    R.floor('R01.left', 4)
    R.floor('R01.named', 30)


def openers(cx):
    """Helpers that open a frame on a stack they are given (or close one): their callers are judged as if they did it."""
    P = cx.P
    for fid, d, F in P.functions(own):
        if not (d.get('internal') or d.get('acc') == 2 or d.get('acc') == 1) or d.get('ctor') or d.get('dtor') or d.get('virt'):
            continue
        ops = [(op_of(cx, F, n), n) for n in walk(F['body']) if n['k'] in ('call', 'mcall')]
        ops = [(o, n) for o, n in ops if o is not None and o[0] in ('open', 'close') and o[1][0] == 'frame']
        if len(ops) != 1 or any(n['k'] == 'ctor' and n.get('t') == NEED for n in walk(F['body'])):
            continue
        (verb, tok), n = ops[0]
        r = tok[1]
        if r is None or r[0] == 'var' and r[1] not in F['ps'] or r[0] not in ('var', 'fld'):
            continue
        b = Balance(cx, fid, d, F)
        b.in_dtor = True
        ex = b.run(F, START)
        left = [len(op) for kind, nn, st in ex for op, ar, lo in st]
        if verb == 'open' and any(op for kind, nn, st in ex if kind == 'throw' for op, ar, lo in st):
            continue
        cx.helper[fid] = (verb, F['ps'].index(r[1]) if r[0] == 'var' else r, b)


def judge(cx, R, fid, d, F, b, exits, ctor_holder):
    P = cx.P
    rule = 'R01.class' if ctor_holder else 'R01.pair'
    if b.opened or b.bad:
        R.ob(rule, d['qn'], max(1, b.opened))
    frames = False
    for kind, n, st in exits:
        for op, ar, lo in st:
            for tok, empty, cl in op:
                frames |= tok[0] == 'frame'
                if ctor_holder and d.get('ctor') and kind != 'throw':
                    continue
                how = 'when it leaves by an exception' if kind == 'throw' else 'when it returns'
                R.bad(rule, '%s|%s' % (d['qn'], tok[0] + (tok[1] if tok[0] == 'context' else '')), P.loc(fid, b.line.get(tok)),
                      '%s leaves %s changed %s%s' % (d['qn'], show(tok), how, why(cx, n) if kind == 'throw' else ''))
            if kind == 'throw' and lo is not None:
                R.bad('R01.left', d['qn'], P.loc(fid, n.get('l')), '%s leaves the operands it was given on the stack when it leaves by an exception%s' % (d['qn'], why(cx, n)))
    if b.operands and not ctor_holder:
        R.ob('R01.left', d['qn'])
    for what, tok, n in b.bad:
        if what == 'dirty':
            R.bad('R01.left', d['qn'], P.loc(fid, b.line.get(tok)), '%s leaves operands behind when it leaves by an exception: its frame is removed before it was emptied' % d['qn'])
        elif what == 'clears':
            R.bad('R01.pair', d['qn'] + '|clear', P.loc(fid, n.get('l') if n else None), '%s empties the stack when its own frame is no longer (or not yet) there: the operands of the caller are lost' % d['qn'])
        else:
            R.bad('R01.pair', d['qn'] + '|twice' + tok[0], P.loc(fid, n.get('l') if n else None), '%s undoes %s that it did not change, or undoes it twice' % (d['qn'], show(tok)))


def why(cx, n):
    f = n.get('f') if n else None
    d = cx.P.D.get(f) if f else None
    return ' (raised by %s, line %s)' % (d['qn'], n.get('l')) if d else ' (line %s)' % n.get('l')


def classes(cx, R):
    """Destructors restore what the constructors saved."""
    P = cx.P
    by = {}
    for fid, d, F in P.functions(own):
        c = d.get('cls')
        if not c or c == NEED or not (d.get('ctor') or d.get('dtor')) or d.get('implicit') or d.get('defaulted'):
            continue
        by.setdefault(c, []).append((fid, d, F))
    n = 0
    for c, fs in sorted(by.items()):
        opens, closes = {}, {}
        dt = None
        for fid, d, F in fs:
            for x in walk([F['body']] + [i.get('init') for i in F.get('inits', ())]):
                if x['k'] not in ('call', 'mcall'):
                    continue
                o = op_of(cx, F, x)
                if o is None:
                    continue
                key = (o[1][0], o[1][1] if o[1][0] != 'frame' else None)
                if d.get('ctor') and o[0] in ('open', 'set'):
                    opens.setdefault(key, (fid, x))
                if d.get('dtor') and o[0] in ('close', 'set'):
                    closes.setdefault(key, []).append((fid, F, x))
            if d.get('dtor'):
                dt = (fid, d, F)
        for key, (fid, x) in opens.items():
            n += 1
            R.ob('R01.class', c)
            if dt is None:
                R.bad('R01.class', '%s|%s' % (c, key[0]), P.loc(fid, x.get('l')), '%s changes %s and has no destructor that restores it' % (c, show(key)))
                continue
            h = Restores(cx, key)
            ex = h.run(dt[2], frozenset([0]))
            for kind, nn, st in ex:
                if kind == 'throw':
                    continue
                if 0 in st:
                    R.bad('R01.class', '%s|%s' % (c, key[0]), P.loc(dt[0]), 'the destructor of %s does not restore %s on every path' % (c, show(key)))
                if any(s > 1 for s in st) and key[0] != 'context':
                    R.bad('R01.class', '%s|%s' % (c, key[0]), P.loc(dt[0]), 'the destructor of %s undoes %s more than once' % (c, show(key)))
            if key[0] == 'context':
                for ff, F, y in closes.get(key, ()):
                    a = strip(y['c'][-1]) if y.get('c') else None
                    if a is None or a['k'] != 'mem' or gen(a['q']) not in cx.saved_fields:
                        R.bad('R01.class', '%s|%s' % (c, key[0]), P.loc(ff, y.get('l')), 'the destructor of %s does not restore %s to what the constructor saved' % (c, show(key)))
                saved_first(cx, R, c, key, fs)
    if n == 0:
        raise AnalysisError('anchor vanished: classes that bind contexts')


def saved_first(cx, R, c, key, fs):
    for fid, d, F in fs:
        if not d.get('ctor'):
            continue
        h = SaveOrder(cx, key)
        h.run(F, frozenset(['start']))
        if h.bad is not None:
            R.bad('R01.class', '%s|%s' % (c, key[0]), cx.P.loc(fid, h.bad.get('l')), '%s changes %s before (or without) saving what was bound' % (c, show(key)))


class SaveOrder(Flow):
    def __init__(self, cx, key):
        super().__init__(cx.P)
        self.cx, self.key, self.bad = cx, key, None

    def join(self, a, b):
        return a | b

    def ctor_init(self, i, st):
        if i.get('q') and gen(i['q']) in self.cx.saved_fields and self.cx.previous(i.get('init')):
            return self.save(i.get('init'), st)
        return st

    def save(self, n, st):
        return frozenset('done' if x in ('start', 'pend') else x for x in st)

    def on(self, n, st):
        if n['k'] == 'asg' and self.cx.previous(n['c'][1]):
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'mem' and gen(l['q']) in self.cx.saved_fields:
                if 'pend' in st or 'start' in st:
                    return self.save(n, st)
        if n['k'] in ('call', 'mcall'):
            t = self.cx.S.type_of(n.get('f'))
            if t is not None and ('context', t) == self.key:
                if 'start' in st:
                    if n.get('t') == 'void':
                        self.bad = n
                    return frozenset('pend' if x == 'start' else x for x in st)
        return st


class Restores(Flow):
    """State: set of how often the token was undone."""
    def __init__(self, cx, key):
        super().__init__(cx.P)
        self.cx, self.key = cx, key

    def join(self, a, b):
        return a | b

    def on(self, n, st):
        if n['k'] in ('call', 'mcall'):
            o = op_of(self.cx, self.Fn, n)
            if o is not None and o[0] in ('close', 'set') and (o[1][0], o[1][1] if o[1][0] != 'frame' else None) == self.key:
                return frozenset(min(s + 1, 2) for s in st)
        return st


def need_class(cx, R):
    """The guard class itself runs its task when destroyed."""
    P = cx.P
    r = P.need_rec(NEED)
    flds = {NEED + '::' + f['n'] for f in r['fields']}
    found = False
    for fid, d, F in P.functions(own):
        if d.get('cls') == NEED and d.get('dtor') and not d.get('dep'):
            found = True
            R.ob('R01.class', NEED)
            h = Runs(P, flds)
            ex = h.run(F, frozenset(['set']))
            if any('set' in st for kind, n, st in ex if kind != 'throw'):
                R.bad('R01.class', NEED, P.loc(fid), 'the destructor of ts::need can end without running its task')
    if not found:
        R.bad('R01.class', NEED, P.loc(next((f for f, d in P.D.items() if d.get('cls') == NEED), None)), 'ts::need has no destructor that runs its task')


class Runs(Flow):
    def __init__(self, P, flds):
        super().__init__(P)
        self.flds = flds

    def join(self, a, b):
        return a | b

    def field(self, n):
        n = strip(n)
        while n is not None and n['k'] in ('mcall', 'ocall') and n.get('c') and self.P.D.get(n.get('f'), {}).get('n') == 'operator bool':
            n = strip(n['c'][0])
        return n is not None and n['k'] == 'mem' and n['q'] in self.flds

    def refine(self, c, truth, st):
        if self.field(c) and not truth:
            return frozenset('null' for s in st)
        c = strip(c)
        if c is not None and c['k'] in ('bin', 'ocall') and c.get('op') in ('==', '!=') and (self.field(c['c'][0]) and is_zero(c['c'][1]) or self.field(c['c'][1]) and is_zero(c['c'][0])):
            if (c['op'] == '==') == bool(truth):
                return frozenset('null' for s in st)
        return st

    def on(self, n, st):
        if n['k'] == 'ocall' and n['op'] == '()' and n.get('c') and self.field(n['c'][0]):
            return frozenset('ran' for s in st)
        if n['k'] == 'mcall' and self.P.D.get(n.get('f'), {}).get('cls') == NEED:
            return frozenset('ran' for s in st)
        return st


def named(cx, R):
    P = cx.P

    def result_type(n):
        if n['k'] == 'ctor':
            return n.get('t')
        if n['k'] in ('call', 'mcall') and n.get('f'):
            t = n.get('t') or ''
            rt = P.D.get(n['f'], {}).get('ret') or ''
            return t if not rt.rstrip().endswith(('&', '*')) else ''
        return ''

    for fid, d, F in P.functions(own):
        for b in walk(F['body']):
            if b['k'] in ('block', 'case', 'default', 'if', 'for', 'while', 'do', 'rfor', 'label'):
                if b['k'] == 'block':
                    kids = b.get('c', ())
                elif b['k'] == 'if':
                    kids = [b.get('then'), b.get('else')]
                else:
                    kids = [b.get('body')] + list(b.get('c', ()) if b['k'] in ('case', 'default', 'label') else ())
                for i, s in enumerate(kids):
                    s0 = strip(s) if s is not None else None
                    if s0 is None:
                        continue
                    if s0['k'] in ('ctor', 'call', 'mcall') and cx.is_holder(result_type(s0) or ''):
                        R.ob('R01.named', d['qn'])
                        R.bad('R01.named', '%s|%s' % (d['qn'], plain_t(result_type(s0))), P.loc(fid, s0.get('l')),
                              '%s makes a %s that is destroyed at once: what it binds is undone before the work' % (d['qn'], plain_t(result_type(s0))))
                    if s0['k'] == 'new' and cx.is_holder((s0.get('t') or '')):
                        R.bad('R01.named', '%s|new' % d['qn'], P.loc(fid, s0.get('l')), '%s makes a %s that is never destroyed' % (d['qn'], s0.get('t')))
                    if s0['k'] == 'decl' and b['k'] == 'block':
                        for v in s0.get('c', ()):
                            if v['k'] != 'vdecl':
                                continue
                            t = F['locals'][v['v']]['t']
                            if cx.is_holder(t) and not t.rstrip().endswith(('&', '*')):
                                R.ob('R01.named', d['qn'])
                                if F['locals'][v['v']].get('st'):
                                    R.bad('R01.named', '%s|static' % d['qn'], P.loc(fid, v.get('l')), '%s keeps a %s in a static variable: it is not undone when the call returns' % (d['qn'], t))
                                if i == len(kids) - 1:
                                    R.bad('R01.named', '%s|%s' % (d['qn'], plain_t(t)), P.loc(fid, v.get('l')),
                                          '%s undoes what it binds (%s) at the end of a scope that holds no work' % (d['qn'], plain_t(t)))

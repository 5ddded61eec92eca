"""Shared semantic helpers over the exported program: call resolution, exception summaries, expression keys."""
from .program import walk, children, fnodes, AnalysisError

CALLS = ('call', 'mcall', 'ocall', 'ctor', 'new', 'dctor')


def strip(n, more=()):
    """Removes conversions that keep the value's identity."""
    while n is not None and n['k'] in ('cast', 'icast', 'upcast', 'defarg', 'definit') + tuple(more) and n.get('c'):
        n = n['c'][0]
    return n


def unwrap(n):
    """strip, and single-argument copy/move constructions and std::move/forward are seen through."""
    return n


def is_zero(n):
    """The expression is the constant zero, null or false."""
    n0 = n
    while n is not None and n['k'] in ('cast', 'icast', 'upcast') and 'cv' not in n and n.get('c'):
        n = n['c'][0]
    if n is None:
        return False
    if n['k'] == 'lit':
        v = n.get('v')
        return v is None or v is False or (not isinstance(v, str) and v == 0)
    if n['k'] == 'zero' or (n['k'] == 'init' and not n.get('c')):
        return True
    if n['k'] == 'en':
        return n.get('v') == 0
    if 'cv' in n:
        return n['cv'] == 0
    return False


def callee(P, n):
    f = n.get('f')
    return P.D.get(f) if f else None


def cname(P, n):
    d = callee(P, n)
    return d['qn'] if d else None


def targets(P, n):
    """Definitions a call may enter (bodies in the program), including overriders of a virtual callee."""
    f = n.get('f')
    if not f:
        return []
    d = P.D.get(f)
    out = []
    b = P.body_of(f)
    if b is not None:
        out.append(b)
    if d is not None and d.get('virt') and n.get('k') == 'mcall' and n.get('virt'):
        for o in P.all_overriders(f):
            b = P.body_of(o)
            if b is not None:
                out.append(b)
    return out


def key(n):
    """A structural key of an expression (None if it has parts that cannot be compared)."""
    n = strip(n)
    if n is None:
        return ('nil',)
    k = n['k']
    if k == 'lit':
        return ('lit', str(n.get('v')))
    if k == 'var':
        return ('v', n['v'])
    if k == 'gv':
        return ('gv', n['q'])
    if k == 'en':
        return ('en', n.get('v'))
    if k == 'this':
        return ('this',)
    if k == 'mem':
        return ('mem', n['q'], key(n['c'][0]) if n.get('c') else ('this',))
    if k in ('un', 'bin', 'sub', 'ocall', 'mcall', 'call', 'cond', 'ctor', 'init'):
        return (k, n.get('op'), n.get('f')) + tuple(key(c) for c in n.get('c', ()))
    if k == 'sizeof':
        return ('sizeof', n.get('t'), n.get('cv'))
    return (k, id(n))


class MayThrow:
    """May an exception leave a function / expression? Summaries are computed recursively (cycles: assumed to throw)."""

    SAFE = {'std::move', 'std::forward', 'std::addressof', 'std::swap', 'ts::api::ClearLEM', 'ts::api::SetLEM', 'ts::api::GetLEM',
            'std::operator==', 'std::operator!='}
    SAFE_CLS = ('std::unique_ptr<', 'std::shared_ptr<', 'std::__shared_ptr<', 'std::atomic<', 'std::__shared_ptr_access<')

    def __init__(self, P):
        self.P = P
        self.m = {}

    def fn(self, fid):
        """Returns None, or a witness chain [(fid, line, what)...] for an exception leaving the function."""
        if fid in self.m:
            return self.m[fid]
        self.m[fid] = [(fid, None, 'recursion')]
        P = self.P
        d = P.D.get(fid)
        if d is None:
            r = [(fid, None, 'unknown callee')]
        elif d.get('noexcept') or d['qn'] in self.SAFE or d.get('dtor'):
            r = None
        else:
            F = P.body_of(fid)
            if F is None:
                r = self.external(d)
            else:
                r = None
                for i in F.get('inits', ()):
                    if i.get('init') is not None and r is None:
                        r = self.expr(i['init'])
                if r is None:
                    r = self.expr(F['body'])
                if r is not None:
                    r = [(fid,) + r[0][1:]] + r[1:] if r[0][0] is None else r
        self.m[fid] = r
        return r

    def external(self, d):
        if d.get('externC') and not d['qn'].startswith('ts_'):
            return None
        c = d.get('cls') or ''
        if c.startswith(self.SAFE_CLS):
            return None
        if d.get('implicit') or d.get('defaulted'):
            return None if d.get('ctor') == 'move' else [(None, None, d['qn'])]
        if d['qn'].startswith('std::') and d['n'] in ('c_str', 'size', 'empty', 'data', 'begin', 'end', 'what', 'clear', 'get', 'operator->', 'operator*',
                                                      'operator[]', 'length', 'count', 'find'):
            return None
        return [(None, None, d['qn'])]

    def expr(self, n):
        """Witness [(None, line, what), ...] or None."""
        if n is None:
            return None
        k = n['k']
        if k == 'try':
            all_ = any(h['t'] == '...' for h in n['h'])
            if not all_:
                r = self.expr(n['body'])
                if r is not None:
                    return r
            for h in n['h']:
                r = self.expr(h['body'])
                if r is not None:
                    return r
            return None
        if k == 'lambda':
            return None
        if k == 'throw':
            return [(None, n['l'], 'throw')]
        for c in children(n):
            r = self.expr(c)
            if r is not None:
                return r
        if k == 'new':
            f = n.get('f')
            return [(None, n['l'], 'operator new')]
        if k in ('call', 'mcall', 'ocall', 'ctor'):
            f = n.get('f')
            if not f:
                return [(None, n['l'], 'indirect call')] if k != 'ctor' else None
            r = self.fn(f)
            if r is not None:
                return [(None, n['l'], self.P.D[f]['qn'] if f in self.P.D else '?')] + r[:3]
            d = self.P.D.get(f)
            if d is not None and d.get('virt') and k == 'mcall' and n.get('virt'):
                for o in self.P.all_overriders(f):
                    r = self.fn(o)
                    if r is not None:
                        return [(None, n['l'], d['qn'])] + r[:3]
        return None

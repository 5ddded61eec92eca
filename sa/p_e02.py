"""E02: an error is delivered as an exception; it never ends the process."""
import re
from .program import walk, children
from .sem import strip
from .throws import Explicit, show

EXITS = re.compile(r'^(std::)?(exit|_exit|_Exit|quick_exit|abort|terminate|__assert_fail|raise|kill|__builtin_trap|__builtin_abort|longjmp)$')


def library(d, F):
    f = F['file']
    return f.startswith(('src/', 'include/')) and not d['qn'].startswith('verif')


def check(P, R):
    R.rule('E02.noexcept', 'No exception thrown in the library can leave a function that promises not to throw (declared noexcept, or a '
                           'destructor): followed through calls, handlers, virtual calls and stored callables.')
    R.rule('E02.exit', 'No code of the library ends the process (exit, abort, terminate, a failed assert); a function that would is used nowhere.')
    R.rule('E02.rethrow', 'A bare throw stands inside a handler.')
    R.rule('E02.static', 'Initialisers of static objects throw nothing themselves (there is nobody to catch it).')
    R.rule('E02.thread', 'A class that owns a thread joins or detaches it in its destructor, before the thread object is destroyed.')
    X = Explicit(P)
    n_dtor = 0
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        if not library(d, F):
            continue
        if d.get('noexcept') or d.get('dtor'):
            R.ob('E02.noexcept', '%s: nothing is thrown out of %s' % (P.loc(fid), d['qn']))
            r = X.fn(fid)
            if r is not None:
                R.bad('E02.noexcept', d['qn'], P.loc(fid), '%s %s, but an exception can leave it: %s' % (
                    d['qn'], 'is a destructor' if d.get('dtor') else 'is declared noexcept', show(P, r)))
    # implicit and defaulted special members: what they call are destructors and constructors analysed themselves
    enders = {}
    for fid, d, F in P.functions():
        if not library(d, F):
            continue
        for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]):
            if n.get('f') and n['k'] in ('call', 'mcall', 'fn', 'ocall') and n['f'] in P.D:
                c = P.D[n['f']]
                if EXITS.match(c['qn']) and not c.get('file', '').startswith(('src', 'include')):
                    enders.setdefault(fid, (d, F, n, c['n']))
        R.ob('E02.exit')
    used = uses(P, set(enders) | {P.D[f].get('pat') for f in enders if P.D[f].get('pat')})
    for fid, (d, F, n, what) in sorted(enders.items(), key=lambda x: x[1][0]['qn']):
        if d['qn'] == 'ts::fatal' or d['n'] == 'fatal':
            us = [u for u in used.get(fid, ()) if u[0] != fid and not P.D[u[0]]['qn'].startswith('verif')]
            for u, un in us:
                R.bad('E02.exit', '%s in %s' % (d['qn'], P.D[u]['qn']), P.loc(u, un.get('l')), '%s uses %s, which ends the process' % (P.D[u]['qn'], d['qn']))
            continue
        R.bad('E02.exit', d['qn'], P.loc(fid, n.get('l')), '%s calls %s, which ends the process' % (d['qn'], what))
    for fid, d, F in P.functions():
        if not library(d, F):
            continue
        for n in bare(F['body'], False):
            R.ob('E02.rethrow', P.loc(fid, n.get('l')))
            if not n['in']:
                R.bad('E02.rethrow', d['qn'], P.loc(fid, n['n'].get('l')), '%s rethrows outside a handler, which ends the process' % d['qn'])
    for q, g in P.G.items():
        if not (g.get('file') or '').startswith(('src/', 'include/')) or g.get('init') is None:
            continue
        if g.get('smem') or g.get('def') or True:
            R.ob('E02.static', '%s:%s %s' % (g.get('file'), g.get('line'), q))
            r = X.inside(None, {'ps': [], 'locals': []}, g['init'])
            if r is not None:
                R.bad('E02.static', q, '%s:%s' % (g.get('file'), g.get('line')), 'initialising %s can throw before main: %s' % (q, show(P, r)))
    for n, r in P.R.items():
        if not (r.get('file') or '').startswith(('src/', 'include/')):
            continue
        for f in r['fields']:
            t = f['t'].replace('const ', '')
            if t != 'std::thread':
                if re.search(r'std::(vector|list|deque|array)<std::thread', t):
                    pass
                else:
                    continue
            R.ob('E02.thread', '%s:%s %s::%s' % (r.get('file'), r.get('line'), n, f['n']))
            ds = [i for i, d, F in P.functions(lambda d: d.get('dtor') and d.get('cls') == n)]
            if not ds or not joins(P, ds[0], f['n']):
                R.bad('E02.thread', '%s::%s' % (n, f['n']), '%s:%s' % (r.get('file'), r.get('line')),
                      'the destructor of %s does not join its thread %s on every path; destroying a running thread ends the process' % (n, f['n']))
    R.floor('E02.noexcept', 100)
    R.floor('E02.exit', 2000)
    R.floor('E02.static', 50)
    R.floor('E02.thread', 1)


def uses(P, fids):
    out = {}
    for fid, d, F in P.functions():
        for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]):
            if n.get('f') in fids:
                out.setdefault(n['f'], []).append((fid, n))
    return out


def bare(n, inside):
    if n is None:
        return
    if n['k'] == 'throw' and not n.get('c'):
        yield {'n': n, 'in': inside, 'l': n.get('l'), **{}}
    if n['k'] == 'try':
        for x in bare(n['body'], inside):
            yield x
        for h in n['h']:
            for x in bare(h['body'], True):
                yield x
        return
    if n['k'] == 'lambda':
        for x in bare(n.get('body'), False):
            yield x
        return
    for c in children(n):
        for x in bare(c, inside):
            yield x


def joins(P, fid, field, depth=0):
    """Every path through the body joins or detaches (or finds nothing to join)."""
    F = P.body_of(fid)
    if F is None or depth > 3:
        return False

    def is_join(n):
        return n['k'] == 'mcall' and n.get('f') and P.D[n['f']]['n'] in ('join', 'detach') and any(
            x['k'] == 'mem' and x['n'] == field for x in walk(n['c'][0]))

    def joinable(n):
        return any(x['k'] == 'mcall' and x.get('f') and P.D[x['f']]['n'] == 'joinable' for x in walk(n))

    def stmt(n):
        if n is None:
            return False
        if n['k'] == 'block':
            for s in n['c']:
                if stmt(s):
                    return True
                if any(x['k'] == 'ret' for x in walk(s)) and not (s['k'] == 'if' and joinable(s['cond'])):
                    return False
            return False
        if n['k'] == 'if':
            if joinable(n['cond']):
                return any(is_join(x) for x in walk(n))
            return stmt(n.get('then')) and stmt(n.get('else'))
        if n['k'] in ('for', 'rfor', 'while', 'do'):
            return any(is_join(x) for x in walk(n))
        if n['k'] == 'try':
            return stmt(n['body'])
        if any(is_join(x) for x in walk(n)):
            return True
        for x in walk(n):
            if x['k'] in ('call', 'mcall') and x.get('f') and P.D[x['f']].get('cls') == P.D[fid].get('cls') and joins(P, x['f'], field, depth + 1):
                return True
        return False
    return stmt(F['body'])

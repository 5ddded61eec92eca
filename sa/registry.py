"""Strings fixed at build time and the registrations made before main."""
from .program import walk, AnalysisError
from .sem import strip


def gidx(P):
    if not hasattr(P, '_gidx'):
        P._gidx = {}
        for g in P.G.values():
            if g.get('init') is not None:
                P._gidx.setdefault(g['n'], g)
    return P._gidx


def strconst(P, n, deep=0):
    """The constant string an expression is, or None."""
    n = strip(n)
    if n is None or deep > 8:
        return None
    k = n['k']
    if k == 'lit' and n.get('t') == 'str':
        return n['v']
    if k == 'gv':
        g = P.G.get(n['q']) or gidx(P).get(n['q'])
        if g and g.get('init') is not None:
            return strconst(P, g['init'], deep + 1)
        return None
    if k in ('ctor', 'init', 'cast', 'icast'):
        a = [c for c in n.get('c') or () if c is not None and c['k'] != 'defarg']
        if len(a) == 1:
            return strconst(P, a[0], deep + 1)
        return None
    if k in ('call', 'mcall') and n.get('f'):
        d = P.D[n['f']]
        if d['n'] in ('c_str', 'str') and n['c']:
            return strconst(P, n['c'][0], deep + 1)
        B = P.body_of(n['f'])
        if B is None or B['ps']:
            return None
        vals = {}
        rets = []
        for x in walk(B['body']):
            if x['k'] == 'vdecl':
                vals[x['v']] = x.get('init')
            if x['k'] == 'ret':
                rets.append(x)
        if len(rets) != 1 or not rets[0].get('c'):
            return None
        r = strip(rets[0]['c'][0])
        while r is not None and r['k'] == 'ctor' and len(r['c']) == 1:
            r = strip(r['c'][0])
        if r is not None and r['k'] == 'var':
            return strconst(P, vals.get(r['v']), deep + 1)
        return strconst(P, r, deep + 1)
    return None


def made(P, fid, seen=()):
    """Classes a creator function makes with make_shared / new."""
    out = set()
    B = P.body_of(fid)
    if B is None or fid in seen:
        return out
    for n in walk(B['body']):
        if n['k'] == 'call' and n.get('f'):
            d = P.D[n['f']]
            if d['qn'] == 'std::make_shared':
                out.add(d['ret'].split('shared_ptr<', 1)[-1].rsplit('>', 1)[0].strip())
            elif P.body_of(n['f']) is not None:
                out |= made(P, n['f'], seen + (fid,))
        if n['k'] == 'new':
            t = (n.get('t') or '').replace('*', '').strip()
            out.add(t)
    return out


def actions(P):
    """[(global name, file, line, function called, arguments)] for every static registration."""
    out = []
    for q, g in P.G.items():
        if (g.get('t') or '') != 'ts::StaticAction' or g.get('init') is None:
            continue
        i = strip(g['init'])
        if i is None or i['k'] != 'ctor' or not i['c']:
            continue
        a = [strip(x) for x in i['c'] if x is not None]
        if a[0]['k'] == 'un' and a[0]['op'] == '&':
            a[0] = strip(a[0]['c'][0])
        out.append((q, g['file'], g['line'], a[0], a[1:]))
    return out


def operators(P):
    """[(device, name, class set, file, line)] of the operators registered."""
    out = []
    for q, f, l, fn, args in actions(P):
        if fn['k'] != 'fn' or not P.D[fn['f']]['qn'].startswith('ts::OperatorCreator::Register'):
            continue
        dev, nm = strconst(P, args[0]), strconst(P, args[1])
        cr = args[2] if len(args) > 2 else None
        if cr is not None and cr['k'] == 'un' and cr['op'] == '&':
            cr = strip(cr['c'][0])
        cls = made(P, cr['f']) if cr is not None and cr['k'] == 'fn' else set()
        out.append((dev, nm, cls, f, l, P.D[fn['f']]['n']))
    if len(out) < 20:
        raise AnalysisError('anchor vanished: operator registrations')
    return out

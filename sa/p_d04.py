"""D04: the tables indexed by element type are total and agree with each other."""
import re
from .program import AnalysisError, walk
from .constprop import returns, UNKNOWN
from .sem import strip

WIDTH_IN_NAME = {'VOID': 0, 'BOOLEAN': 1, 'PTR': None}      # None: the size of a pointer
NAME = {'PTR': 'pointer', 'BOOLEAN': 'bool'}
KIND = {2: 'floating', 1: 'signed', 0: 'unsigned'}


def facts(P):
    out = {0: {}, 1: {}, 2: {}, 3: {}}
    back = {2: [], 3: []}
    for fid, d, F in P.functions(lambda d: d['qn'].startswith('verif_witness::') and re.match(r'(core|api|back|aback)_', d['n'])):
        for n in walk(F['body']):
            if n['k'] == 'init' and n.get('t') == 'verif_witness::Fact':
                v = [strip(x)['v'] for x in n['c']]
                if v[0] in (0, 1):
                    out[v[0]][v[1]] = v[2:]
                else:
                    back[v[0]].append((d['n'].split('_', 1)[1], v[2:]))
    return out, back


def width(name):
    if name in WIDTH_IN_NAME:
        return WIDTH_IN_NAME[name] if WIDTH_IN_NAME[name] is not None else 8
    m = re.match(r'[A-Z]+(\d+)', name)
    return int(m.group(1)) // 8 if m else None


def kind(name):
    return 2 if name.startswith('FLOAT') else 1 if name.startswith('INT') else 0


def check(P, R):
    R.rule('D04.bytes', 'type_bytes gives the width in the type\'s name, which is the size of the C++ type that stores it')
    R.rule('D04.str', 'type_str names every element type, and no two alike')
    R.rule('D04.store', 'the C++ type that stores an element type has its width and kind (integer, signedness, floating)')
    R.rule('D04.back', 'a C++ type that has an element type is what stores that element type')
    R.rule('D04.promote', 'promotion is defined and unambiguous for every pair of element types: it rejects the pair or gives a type it supports, '
                          'equal types stay, order does not matter, no operand is narrowed, floating stays floating')
    fact, back = facts(P)
    if len(fact[0]) < 33 or len(fact[1]) < 12:
        raise AnalysisError('the element type witness was not exported')
    for tag, enum, ns, pre, tab in ((0, 'ts::DTYPE', 'ts', '', 0), (1, 'ts_DTYPE', 'ts::api', 'TS_', 1)):
        E = P.need_enum(enum)
        names = {v: q.split('::')[-1][len(pre):] for q, v, l in E['c']}
        loc = {v: '%s:%s' % (E.get('file'), l) for q, v, l in E['c']}
        fb = fs = None
        for f in P.find_def(ns + '::type_bytes'):
            fb = f
        for f in P.find_def(ns + '::type_str'):
            fs = f
        if not fb or not fs:
            raise AnalysisError('anchor vanished: %s::type_bytes or type_str' % ns)
        strs = {}
        for v, name in sorted(names.items()):
            w = width(name)
            r = returns(P, P.F(fb), [v])
            R.ob('D04.bytes', '%s::type_bytes(%s)' % (ns, name))
            if r is None:
                R.bad('D04.bytes', '%s %s' % (ns, name), P.loc(fb), 'the width of %s is not a constant' % name)
            elif w is not None and r != [w]:
                R.bad('D04.bytes', '%s %s' % (ns, name), P.loc(fb), 'type_bytes(%s) gives %s, the type is %d bytes wide' % (name, r, w))
            f = fact[tab].get(v)
            R.ob('D04.store', '%s::dtype<%s>' % (ns, name))
            if f is None:
                R.bad('D04.store', '%s %s' % (ns, name), loc[v], 'element type %d is outside the range the witness covers' % v)
            elif f[0]:
                if r and f[0] != r[0]:
                    R.bad('D04.store', '%s %s' % (ns, name), loc[v], '%s is stored in a C++ type of %d bytes but reported as %s wide' % (name, f[0], r))
                if name != 'CHAR8' and not name.startswith(('SINK', 'COMPLEX', 'UNKNOWN')) and f[1] != kind(name):
                    R.bad('D04.store', '%s %s kind' % (ns, name), loc[v], '%s is stored in a %s C++ type' % (name, KIND[f[1]]))
            elif re.match(r'(U?INT|CHAR|FLOAT(32|64)|BOOLEAN|PTR|SINK)', name):
                R.bad('D04.store', '%s %s' % (ns, name), loc[v], '%s has no C++ type' % name)
            r = returns(P, P.F(fs), [v])
            R.ob('D04.str', '%s::type_str(%s)' % (ns, name))
            if r is None or len(r) != 1 or not isinstance(r[0], str):
                R.bad('D04.str', '%s %s' % (ns, name), P.loc(fs), '%s has no single printed name' % name)
                continue
            want = NAME.get(name, name.lower())
            if r[0].lower() not in (want, name.lower()):
                R.bad('D04.str', '%s %s' % (ns, name), P.loc(fs), 'type_str(%s) prints "%s"' % (name, r[0]))
            if r[0] in strs:
                R.bad('D04.str', '%s %s dup' % (ns, name), P.loc(fs), '%s and %s are both printed as "%s"' % (strs[r[0]], name, r[0]))
            strs.setdefault(r[0], name)
    for tab, ns in ((2, 'ts'), (3, 'ts::api')):
        for what, (size, k, id_, same) in back[tab]:
            R.ob('D04.back', '%s::dtypeid of %s' % (ns, what))
            if id_ and not same:
                R.bad('D04.back', '%s %s' % (ns, what), 'include/%s/dtype.h:1' % ('core' if tab == 2 else 'api/cpp'),
                      'the C++ type %s maps to element type %d, which is stored in another C++ type' % (what, id_))
            need = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'c8')
            if not id_ and what in need:
                R.bad('D04.back', '%s %s' % (ns, what), 'include/%s/dtype.h:1' % ('core' if tab == 2 else 'api/cpp'), 'the C++ type %s has no element type' % what)
    # promotion
    names = {v: q.split('::')[-1] for q, v, l in P.E['ts::DTYPE']['c']}
    pf = [f for f in P.find_def('ts::upcast_dtype')]
    if not pf:
        raise AnalysisError('anchor vanished: ts::upcast_dtype')
    for fid in pf:
        F, d = P.F(fid), P.D[fid]
        idx = [i for i, p in zip(F['ps'], d['ps']) if 'ts::Tensor' in p['t'] or 'ts::DTYPE' in p['t']]
        if len(idx) != 2:
            raise AnalysisError('upcast_dtype no longer takes two element types')
        T = {}
        for a in names:
            for b in names:
                T[a, b] = returns(P, F, [a, b], ps=idx)
        ok = {a for a in names if any(T[a, b] and T[a, b] != [0] for b in names if b != a)}
        for (a, b), r in T.items():
            what = '%s with %s' % (names[a], names[b])
            R.ob('D04.promote', what)
            loc = P.loc(fid)

            def bad(msg):
                R.bad('D04.promote', what, loc, '%s: %s' % (what, msg))
            if r is None or len(r) > 1:
                bad('the promoted type is not determined by the two types (index outside the table, or not constant)')
                continue
            if not r:
                continue      # reported as an error
            x = r[0]
            if a == b:
                if x != a:
                    bad('becomes %s' % names.get(x, x))
                continue
            if x not in names or x == 0 or x not in ok:
                bad('gives %s, which is not a type the operation supports' % names.get(x, x))
                continue
            if T[b, a] != r:
                bad('gives %s one way and %s the other' % (names[x], T[b, a]))
            wa, wb, wx = width(names[a]), width(names[b]), width(names[x])
            if None not in (wa, wb, wx) and names[a] != 'BOOLEAN' and names[b] != 'BOOLEAN' and wx < max(wa, wb):
                bad('gives the narrower %s' % names[x])
            if 2 in (kind(names[a]), kind(names[b])) and kind(names[x]) != 2:
                bad('gives %s, which is not floating' % names[x])
        if len(ok) < 10:
            raise AnalysisError('the promotion table could not be read')
    R.floor('D04.promote', 900)

"""D05: code selected by element type treats the data as that type; no element type is skipped; no tensor is read as another type."""
from .program import walk, fnodes, children, AnalysisError
from .sem import strip
from .dtypes import Analysis, DT, ELEM, SIZE, bare, tensorish, const_index
from .flow import Flow

ALIAS = {21: ('bool', 'unsigned char', 'signed char'), 13: ('char', 'signed char', 'unsigned char')}


def store_ok(v, U, names):
    if U in ELEM and v in ELEM[U]:
        return True
    if v in ALIAS and U in ALIAS[v]:
        return True
    n = names.get(v, '')
    if n.startswith('SINK8') and U in ('unsigned char', 'signed char'):
        return True
    if n == 'FLOAT16' and 'ieee754_float<16' in U:
        return True
    return False


def arms(sw):
    """[(labels, statements)] of a switch; None stands for default. Fall-through labels share an arm."""
    items = sw['body']['c'] if sw['body']['k'] == 'block' else [sw['body']]
    out = []
    for it in items:
        x, labels = it, []
        while x is not None and x['k'] in ('case', 'default'):
            labels.append(x['v'] if x['k'] == 'case' else None)
            x = x['c'][0]
        if labels:
            if out and not out[-1][1]:
                out[-1][0].extend(labels)
            else:
                out.append((labels, []))
        if x is not None and out and x['k'] != 'null':
            out[-1][1].append(x)
    return out


def copy_only(F, site, P):
    """The elements read through this pointer are only copied."""
    parent = {}
    for n in fnodes(F):
        for c in children(n):
            parent[id(c)] = n

    def up(n):
        p = parent.get(id(n))
        while p is not None and p['k'] in ('cast', 'icast', 'upcast') and '*' in (p.get('t') or '*'):
            n, p = p, parent.get(id(p))
        return n, p

    def elem_ok(n):     # n denotes an element
        p = parent.get(id(n))
        if p is None or p['k'] == 'icast':
            return False
        if p['k'] == 'asg' and p.get('op', '=') == '=':
            return plain(strip(p['c'][1]))
        if p['k'] == 'vdecl':
            return all(elem_ok(x) or (parent.get(id(x)) or {}).get('k') == 'icast' and elem_ok(parent[id(x)])
                       for x in fnodes(F) if x['k'] == 'var' and x['v'] == p['v'])
        return False

    def plain(r):       # a moved element (no arithmetic)
        return r is not None and (r['k'] in ('var', 'sub', 'lit', 'mem') or r['k'] == 'un' and r['op'] in ('*', '++', '--', 'p++', 'p--') or
                                  r['k'] == 'cond' and all(plain(strip(x)) for x in r['c'][1:]) or
                                  r['k'] == 'ctor' and (not r['c'] or len(r['c']) == 1 and plain(strip(r['c'][0]))) or
                                  r['k'] == 'asg' and plain(strip(r['c'][1])))

    def ptr_ok(n, depth=0):
        n, p = up(n)
        if p is None or depth > 8:
            return False
        if p['k'] == 'vdecl':
            v = p['v']
            return all(ptr_ok(x, depth + 1) for x in fnodes(F) if x['k'] == 'var' and x['v'] == v)
        if p['k'] == 'sub' and p['c'][0] is not None and any(id(x) == id(n) for x in p['c'][:1]):
            return elem_ok(p)
        if p['k'] == 'un' and p['op'] == '*':
            return elem_ok(p)
        if p['k'] == 'un' and p['op'] in ('++', '--', 'p++', 'p--'):
            return True
        if p['k'] == 'bin' and p['op'] in ('+', '-'):
            return ptr_ok(p, depth + 1)
        if p['k'] == 'asg':
            l = strip(p['c'][0])
            return p.get('op') in ('+=', '-=') or (l is not None and l['k'] == 'var')
        if p['k'] in ('call', 'mcall', 'ocall') and p.get('f'):
            return P.D[p['f']]['n'] in ('memcpy', 'memset', 'memmove', 'copy', 'memcpy_handler')
        return False
    return ptr_ok(site)


def discarded(F, n):
    """The value of n only initialises a variable nobody reads (apart from silencing casts)."""
    for x in fnodes(F):
        if x['k'] == 'vdecl' and x.get('init') is not None and strip(x['init']) is n:
            for p in fnodes(F):
                for c in children(p):
                    if c['k'] == 'var' and c['v'] == x['v']:
                        if not (p['k'] == 'cast' and p.get('t') == 'void') and not (p['k'] == 'icast' and p.get('t') == 'void'):
                            return False
            return True
    return False


class Falls(Flow):
    """May the statements complete without aborting or returning?"""
    def join(self, a, b):
        return a


class Dispatch(Flow):
    pass


def copies(P, fid):
    """Every tensor element the function touches through data<T>() is only copied."""
    F = P.body_of(fid)
    if F is None:
        return False
    sites = [n for n in fnodes(F) if n['k'] == 'mcall' and n.get('f') and P.D[n['f']]['n'] == 'data' and P.D[n['f']].get('cls') == 'ts::Tensor']
    return bool(sites) and all(copy_only(F, n, P) for n in sites)


def accesses(P, fid, memo, depth=0):
    """{parameter index: set of element types it is accessed as} (through helpers as well)."""
    if fid in memo:
        return memo[fid]
    memo[fid] = {}
    d = P.D.get(fid)
    F = P.F(fid)
    if F is None:
        # one instantiation per template has its body exported: translate its types
        for s in P.pat_bodies.get((d or {}).get('pat'), ()):
            if s != fid and P.D[s].get('targs') and d.get('targs') and len(P.D[s]['targs']) == len(d['targs']):
                m = dict(zip(P.D[s]['targs'], d['targs']))
                memo[fid] = {j: {m.get(U, U) for U in us} for j, us in accesses(P, s, memo, depth + 1).items()}
                break
        return memo[fid]
    alias = {v: {i} for i, v in enumerate(F['ps'])}
    for n in fnodes(F):
        if n['k'] == 'vdecl' and n.get('init') is not None and tensorish(n.get('t') or ''):
            x = strip(n['init'])
            while x is not None and x['k'] in ('mcall', 'ctor') and x['c'] and (x['k'] == 'ctor' and len(x['c']) == 1 or P.D.get(x.get('f'), {}).get('n') in ('view', 'reshape', 'weak', 'flatten')):
                x = strip(x['c'][0])
            if x is not None and x['k'] == 'var' and x['v'] in alias:
                alias[n['v']] = alias[x['v']]
    out = {}
    for n in fnodes(F):
        if n['k'] == 'mcall' and n.get('f'):
            dd = P.D[n['f']]
            if dd['n'] == 'data' and dd.get('cls') == 'ts::Tensor' and dd.get('targs'):
                x = strip(n['c'][0])
                if x is not None and x['k'] == 'var' and x['v'] in alias:
                    for i in alias[x['v']]:
                        out.setdefault(i, set()).add(dd['targs'][0])
        if n['k'] in ('call', 'mcall') and n.get('f') and depth < 5:
            dd = P.D[n['f']]
            args = n['c'][1:] if n['k'] == 'mcall' else n['c']
            if any(tensorish(p['t']) for p in dd['ps']):
                sub = accesses(P, n['f'], memo, depth + 1)
                for j, a in enumerate(args):
                    x = strip(a)
                    if j in sub and x is not None and x['k'] == 'var' and x['v'] in alias:
                        for i in alias[x['v']]:
                            out.setdefault(i, set()).update(sub[j])
    memo[fid] = out
    return out


def check(P, R):
    R.rule('D05.access', 'a tensor whose element type is known is only accessed as the C++ type that stores it (or moved around as bytes of the same width)')
    R.rule('D05.input', 'an operand or parameter is converted or its element type tested before it is accessed as a fixed type')
    R.rule('D05.arm', 'every element type constant, pointer conversion and selected instantiation in a dispatch arm agrees with the arm\'s element type')
    R.rule('D05.variant', 'the instantiation a dispatch selects uses its type for the tensor whose element type was tested')
    R.rule('D05.skip', 'an element type without an arm aborts or is answered explicitly; no arm does nothing')
    A = Analysis(P)
    names = A.names
    undecided = 0
    memo = {}
    for fid, n, U, f, s in A.sites.values():
        F, d = P.F(fid), P.D[fid]
        where = '%s data<%s>' % (d['qn'].split('<')[0], U)
        if f is None or len(f[0]) > 16:
            inst = bool(d.get('targs') or d.get('ctargs'))
            if s is not None and s[0] in ('p', 'o', 's') and U != 'char':
                if inst and U in (d.get('targs') or []) + (d.get('ctargs') or []):
                    undecided += 1
                    continue
                R.ob('D05.input', '%s %s' % (P.loc(fid, n['l']), where))
                if discarded(F, n):
                    continue
                R.bad('D05.input', where, P.loc(fid, n['l']),
                      '%s is read as %s although nothing establishes its element type' % ({'p': 'a parameter', 'o': 'an operand', 's': 'an operand'}[s[0]], U))
            else:
                undecided += 1
            continue
        R.ob('D05.access', '%s %s' % (P.loc(fid, n['l']), where))
        if U == 'char' or 'char' in U and all((A.width.get(v) or 0) == 1 for v in f[0]):
            if f[1] or U == 'char' or all(store_ok(v, U, names) for v in f[0]) or copy_only(F, n, P):
                continue
        if f[1]:
            w = SIZE.get(U) or P.R.get(U, {}).get('size')
            if w is None or all(A.width.get(v) == w for v in f[0]):
                continue
            R.bad('D05.access', where, P.loc(fid, n['l']), 'elements of %s bytes are accessed as %s' % (sorted({A.width.get(v) for v in f[0]}), U))
            continue
        wrong = [names[v] for v in sorted(f[0]) if not store_ok(v, U, names) and (v or len(f[0]) == 1)]     # 0: no tensor
        if not wrong or discarded(F, n):
            continue
        if U in ('unsigned char',) and copy_only(F, n, P):
            continue
        if all(A.width.get(v) == SIZE.get(U) for v in f[0]) and copy_only(F, n, P):
            continue
        R.bad('D05.access', where, P.loc(fid, n['l']), 'a tensor of element type %s is accessed as %s' % (', '.join(wrong), U))
    R.extra['undecided_accesses'] = undecided
    R.extra['functions_analysed_for_element_types'] = A.analysed
    R.floor('D05.access', 150)
    dispatch(P, R, A, memo)
    R.assume('element types of operator inputs correspond between operands where the code does not test it (accesses through such operands are counted '
             'as undecided, not as discharged)')


SIGNED = {'ts_DTYPE': 1}


def dispatch(P, R, A, memo):
    names = A.names
    api = {v: q for q, v, l in P.E.get('ts_DTYPE', {'c': []})['c']}
    for fid, d, F in P.functions():
        if (F.get('file') or '').startswith('@'):
            continue
        sws = [n for n in fnodes(F) if n['k'] == 'switch']
        if not sws:
            continue
        fl = DT(A)
        fl.fid, fl.Fn = fid, F
        for sw in sws:
            c = strip(sw['cond'])
            width = False
            t = cond_type(P, F, c)
            if c is not None and bare(t) not in ('ts::DTYPE', 'ts_DTYPE', 'ts::api::DTYPE'):
                if is_width(P, F, c):
                    width = True
                else:
                    continue
            arm = arms(sw)
            tgt = dispatched(P, F, c)
            answers = all(all(b['k'] in ('ret', 'break') or b['k'] == 'block' and all(x['k'] in ('ret', 'break', 'null') for x in b['c']) for b in body)
                          for labels, body in arm)
            seen_default = False
            for labels, body in arm:
                what = '%s %s' % (d['qn'].split('<')[0], '/'.join(names.get(v, str(v)) if v is not None else 'default' for v in labels[:4]))
                if None in labels:
                    seen_default = True
                    R.ob('D05.skip', what)
                    if not answers and not aborts(P, F, body, fid):
                        R.bad('D05.skip', what, P.loc(fid, sw['l']), 'an element type without a variant is silently skipped')
                    if len(labels) == 1:
                        continue
                if not answers:
                    R.ob('D05.skip', what)
                    if not any(x['k'] in ('call', 'mcall', 'ocall', 'asg', 'ctor', 'throw', 'ret') for b in body for x in walk(b)):
                        R.bad('D05.skip', what, P.loc(fid, sw['l']), 'the arm does nothing')
                for v in labels:
                    if v is not None:
                        arm_types(P, R, A, fid, d, F, sw, v, body, width, tgt, memo, what, api)
            if not seen_default and not answers and not sw.get('allenum'):
                after = True
                R.ob('D05.skip', d['qn'])
                if not tail_aborts(P, F, sw, fid):
                    R.bad('D05.skip', '%s nodefault' % d['qn'].split('<')[0], P.loc(fid, sw['l']), 'element types without an arm are silently skipped')


def tail_aborts(P, F, sw, fid):
    """Arms return; what follows the switch aborts (or returns an answer)."""
    def find(b):
        for i, x in enumerate(b['c']):
            if x is sw:
                return b['c'][i + 1:]
        return None
    for n in fnodes(F):
        if n['k'] == 'block':
            rest = find(n)
            if rest is not None:
                return bool(rest) and aborts(P, F, rest, fid, ret_ok=True)
    return False


def cond_type(P, F, c):
    if c is None:
        return ''
    if c['k'] == 'var':
        return F['locals'][c['v']]['t'] if c['v'] < len(F['locals']) else ''
    if c['k'] in ('call', 'mcall') and c.get('f'):
        return P.D[c['f']].get('ret') or ''
    if c['k'] == 'mem':
        return c.get('t') or next((f['t'] for r in [P.R.get(c['q'].rsplit('::', 1)[0], {'fields': []})] for f in r['fields'] if f['n'] == c['q'].rsplit('::', 1)[1]), '')
    return c.get('t') or ''


def is_width(P, F, c, depth=0):
    if c is None or depth > 3:
        return False
    if c['k'] in ('call', 'mcall') and c.get('f'):
        return P.D[c['f']]['n'] == 'type_bytes'
    if c['k'] == 'var':
        for n in fnodes(F):
            if n['k'] == 'vdecl' and n['v'] == c['v'] and n.get('init') is not None:
                return is_width(P, F, strip(n['init']), depth + 1)
    return False


def dispatched(P, F, c, depth=0):
    """The variable whose element type (or width) the condition is, if it is one variable."""
    if c is None or depth > 4:
        return None
    if c['k'] in ('call', 'mcall') and c.get('f') and P.D[c['f']]['n'] in ('dtype', 'type_bytes', 'proto') and c['c']:
        x = strip(c['c'][0])
        if x is not None and x['k'] == 'var':
            t = F['locals'][x['v']]['t'] if x['v'] < len(F['locals']) else ''
            if bare(t) == 'ts::Tensor':
                return x['v']
        return dispatched(P, F, x, depth + 1)
    if c['k'] == 'var':
        ini = [n for n in fnodes(F) if n['k'] == 'vdecl' and n['v'] == c['v'] and n.get('init') is not None]
        if len(ini) == 1:
            return dispatched(P, F, strip(ini[0]['init']), depth + 1)
    return None


def aborts(P, F, body, fid, ret_ok=True):
    fl = Falls(P)
    fl.Fn = F
    fl.fid = fid
    fl.exits, fl.loops, fl.scopes, fl.trys = [], [{'brk': None, 'cont': None, 'depth': 1, 'switch': True}], [[]], []
    st = 1
    fl.scopes.append([])
    for b in body:
        st = fl.ex(b, st)
        if st is None:
            break
    if st is not None or fl.loops[0]['brk'] is not None or fl.loops[0]['cont'] is not None:
        return False
    return True


def arm_types(P, R, A, fid, d, F, sw, v, body, width, tgt, memo, what, api):
    names = A.names
    R.ob('D05.arm', what)

    def fits(U):
        U = U.replace('const ', '').strip()
        if width:
            w = SIZE.get(U) or (P.R.get(U) or {}).get('size')
            return w is None or w == v
        return store_ok(v, U, names)
    consts = set()
    for b in body:
        for x in walk(b):
            if x['k'] == 'en' and bare(x['q'].rsplit('::', 1)[0] if '::' in x['q'] else '') in ('ts', 'ts::DTYPE') or \
                    x['k'] == 'en' and x.get('t') in ('ts::DTYPE', 'ts_DTYPE'):
                if x.get('t') in ('ts::DTYPE', 'ts_DTYPE', None) and x['v'] in names:
                    consts.add(x['v'])
    if not width and consts and v not in consts and v in ELEM_ALL:
        # an arm may convert to another type, but one that names a single other type of the same family is a mix-up
        if len(consts) == 1:
            o = next(iter(consts))
            if A.width.get(o) == A.width.get(v) or len([1 for _ in consts]) == 1 and not widened(names, v, o):
                R.bad('D05.arm', what, P.loc(fid, sw['l']), 'the arm of %s works with %s' % (names[v], names[o]))
    for b in body:
        for x in walk(b):
            if x['k'] == 'cast' and (x.get('t') or '').endswith('*') and x.get('ck') != 'static':
                U = x['t'].replace('const ', '').replace('*', '').strip()
                src = strip(x['c'][0]) if x.get('c') else None
                if U in SIZE and x['t'].count('*') == 1 and not fits(U) and U != 'char' and not (U == 'unsigned char' and v not in ELEM_ALL):
                    R.bad('D05.arm', what + ' cast', P.loc(fid, x['l']), 'the arm of %s treats the data as %s' % (names.get(v, v) if not width else '%d bytes' % v, U))
            if x['k'] in ('call', 'mcall', 'ctor') and x.get('f'):
                dd = P.D[x['f']]
                args = x['c'][1:] if x['k'] == 'mcall' else x['c']
                ta = [t for t in (dd.get('targs') or []) + (dd.get('ctargs') or [])]
                types = [t for t in ta if t in SIZE or t in P.R and P.R[t].get('size') in (1, 2, 4, 8, 16)]
                if dd['n'] == 'data' and dd.get('cls') == 'ts::Tensor' and types and tgt is not None:
                    y = strip(x['c'][0])
                    if y is not None and y['k'] == 'var' and y['v'] == tgt and not fits(types[0]) and types[0] != 'char':
                        R.bad('D05.arm', what + ' data', P.loc(fid, x['l']), 'the arm of %s reads the data as %s' % (names.get(v, v), types[0]))
                nums = [t for t in ta if isinstance(t, str) and t.lstrip('-').isdigit()]
                targs_d = [t for t in ta if isinstance(t, str) and t.startswith('ts::') and t.split('::')[-1] in names.values()]
                if targs_d and not width:
                    want = 'ts::' + names.get(v, '?')
                    if want not in targs_d:
                        R.bad('D05.arm', what + ' targ', P.loc(fid, x['l']), 'the arm of %s selects the variant for %s' % (names.get(v, v), targs_d))
                tens = [(j, strip(a)) for j, (a, p) in enumerate(zip(args, dd['ps'])) if bare(p['t']) == 'ts::Tensor']
                if not types or not (tens or any(tensorish(p['t']) or 'ts::Tensor' in p['t'] for p in dd['ps'])):
                    continue
                R.ob('D05.variant', what)
                if not any(fits(t) for t in types):
                    if any(A.width.get(v) == SIZE.get(t) for t in types) and copies(P, x['f']):
                        continue
                    R.bad('D05.arm', what + ' inst', P.loc(fid, x['l']), 'the arm of %s selects %s<%s>' % (names.get(v, v) if not width else '%d bytes' % v, dd['n'], ', '.join(types)))
                    continue
                if tgt is None:
                    continue
                acc = accesses(P, x['f'], memo)
                for j, a in tens:
                    if a is not None and a['k'] == 'var' and a['v'] == tgt and acc.get(j):
                        if not any(fits(U) or U == 'char' for U in acc[j]) and any(set(acc[k]) & set(types) for k in acc if k != j):
                            R.bad('D05.variant', '%s %s' % (d['qn'].split('<')[0], dd['n']), P.loc(fid, x['l']),
                                  '%s is selected by the element type of one tensor but treats another one as that type' % dd['n'])


ELEM_ALL = {x for s in ELEM.values() for x in s}


def widened(names, v, o):
    return True

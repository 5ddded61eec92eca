"""R07: each operator name is registered once, for the operation it names."""
import re, json
from .program import walk, AnalysisError
from .sem import strip
from .registry import actions, operators, strconst, gidx, made

# creation functions whose name is not that of the operator they build, by design
ALIAS = {('matmul', 'inner_prod'), ('affine_on_sample2d', 'affine_sample2d')}
FORMAT = {'tf': '_tf_', 'dragon': '_dragon_', 'mxnet': '_mx_', 'onnx': '_onnx_'}


def norm(s):
    return re.sub('[^a-z0-9]', '', (s or '').lower())


def leaf(cls):
    """The last component of the innermost class: OperatorOnCPU<base::X> is X."""
    c = cls.replace(' ', '')
    while '<' in c:
        a = c[c.index('<') + 1:c.rindex('>')]
        d, i = 0, 0
        for i, ch in enumerate(a):
            d += ch == '<'
            d -= ch == '>'
            if ch == ',' and d == 0:
                a = a[:i]
                break
        if not re.match(r'[A-Za-z_]', a) or a.split('<')[0] not in ('',) and '::' not in a:
            break
        c = a
    return c.split('<')[0].split('::')[-1]


def unline(x):
    if isinstance(x, dict):
        return {k: unline(v) for k, v in x.items() if k not in ('l', 'le', 'line')}
    if isinstance(x, list):
        return [unline(v) for v in x]
    return x


def layers(P):
    """Names of the layer name functions -> the string they return."""
    out = {}
    for fid, d, F in P.functions(lambda d: re.match(r'ts::name::layer::\w+$', d['qn'])):
        out[d['qn']] = (strconst(P, {'k': 'call', 'f': fid, 'c': []}), fid)
    if len(out) < 40:
        raise AnalysisError('anchor vanished: ts::name::layer')
    return out


def built(P, fid, opnames, seen=()):
    """Operator names of the nodes a creation function makes, itself or through functions of its own layer and below."""
    out = set()
    B = P.body_of(fid)
    if B is None or fid in seen:
        return out
    for n in walk(B['body']):
        if n['k'] == 'ctor' and n.get('t', '').replace('const ', '') in ('ts::Bubble', 'Bubble') and n['c']:
            s = strconst(P, n['c'][0])
            if s is not None:
                out.add(s)
        elif n['k'] == 'call' and n.get('f') and re.match(r'ts::(desc|symbol)::', P.D[n['f']]['qn']):
            out |= built(P, n['f'], opnames, seen + (fid,))
        elif n['k'] == 'call' and n.get('f') and P.D[n['f']].get('internal'):
            out |= built(P, n['f'], opnames, seen + (fid,))
        elif n['k'] == 'call' and n.get('f') and P.D[n['f']]['qn'].startswith('ts::name::layer::'):
            s = strconst(P, n)
            if s is not None:
                out.add(s)
    return out


def check(P, R):
    R.rule('R07.name', 'Every function of ts::name::layer returns a constant spelling, distinct from every other one, which is that of its own name; '
                       'every name constant of ts::name has a distinct spelling.')
    R.rule('R07.once', 'No two registrations made before main fill the same key of the same table.')
    R.rule('R07.class', 'The class a registered operator name creates is not that of another operator, not created under two names, and '
                        'an operator of a foreign format comes from the namespace of that format.')
    R.rule('R07.known', 'Every operator name of ts::name::layer is registered (operator or instruction), and every shape inferer is registered '
                        'for a registered operator or graph node, and is not the inferer named after another operator.')
    R.rule('R07.odr', 'No function or class has two different definitions in the program (the linker would keep either).')
    R.rule('R07.front', 'Every node creation function named after a registered operator builds a node of that operator.')
    L = layers(P)
    seen = {}
    for q, (s, fid) in sorted(L.items()):
        R.ob('R07.name', q)
        loc = P.loc(fid)
        if s is None:
            # not constant: decide from the literals in the body
            lits = {n['v'] for n in walk(P.body_of(fid)['body']) if n['k'] == 'lit' and n.get('t') == 'str'}
            if len(lits) != 1:
                continue
            s = lits.pop()
        if norm(s) != norm(q.split('::')[-1]):
            R.bad('R07.name', q, loc, '%s returns "%s", the name of another operator' % (q, s))
        if s in seen:
            R.bad('R07.name', q, loc, '%s and %s return the same name "%s"' % (seen[s], q, s))
        seen[s] = q
    gs = {}
    for g in P.G.values():
        if g['n'].startswith('ts::name::') and g.get('init') is not None:
            s = strconst(P, g['init'])
            if s is None:
                continue
            R.ob('R07.name', g['n'])
            loc = '%s:%s' % (g['file'], g['line'])
            if gs.setdefault(s, g['n']) != g['n']:
                R.bad('R07.name', g['n'], loc, '%s and %s are the same name "%s"' % (gs[s], g['n'], s))
            other = [h for h in gidx(P) if h.startswith('ts::name::') and h != g['n'] and norm(h.split('::')[-1]) == norm(s)]
            if norm(s) != norm(g['n'].split('::')[-1]) and other:
                R.bad('R07.name', g['n'], loc, '%s is "%s", the spelling of %s' % (g['n'], s, other[0]))

    tables = {}
    sh, instr, undecided = {}, {}, 0
    for q, f, l, fn, args in actions(P):
        if fn['k'] != 'fn':
            undecided += 1
            continue
        t = P.D[fn['f']]['qn'].rsplit('::', 1)[0]
        if not P.D[fn['f']]['n'].startswith('Register'):
            continue
        ks = [strconst(P, a) for a in args]
        np = sum(1 for p in P.D[fn['f']]['ps'] if not re.search(r'\(|function|[cC]reator|Type\b.*&', p['t']) or re.search('string|MemoryDevice|ComputingDevice|DeviceType', p['t']))
        keys = tuple(k for k in ks[:-1])
        R.ob('R07.once', '%s %s' % (t, '/'.join(k or '?' for k in keys)))
        if not keys or None in keys:
            undecided += 1
            continue
        loc = '%s:%s' % (f, l)
        a = args[-1]
        if (t, keys) in tables:
            R.bad('R07.once', '%s|%s' % (t, '/'.join(keys)), loc, '%s is registered twice in %s (also at %s): one overwrites the other'
                  % ('/'.join(keys), t, tables[(t, keys)]))
        tables[(t, keys)] = loc
        if t == 'ts::ShapeInferer':
            sh[keys[0]] = (a, loc)
        if t == 'ts::InstructionCreator':
            instr[keys[0]] = (a, loc)
    R.extra['registrations_with_computed_key'] = undecided

    ops = operators(P)
    reg = {}
    for dev, nm, cls, f, l, how in ops:
        if nm is not None:
            reg.setdefault(nm, []).append((dev, cls, '%s:%s' % (f, l)))
    byname = {}
    for nm in list(reg) + [s for s, _ in L.values() if s]:
        byname.setdefault(norm(nm), nm)
    owner = {}
    for nm, rs in sorted(reg.items()):
        for dev, cls, loc in rs:
            R.ob('R07.class', '%s on %s' % (nm, dev))
            for c in cls:
                lf = norm(leaf(c))
                if lf != norm(nm) and lf in byname and norm(byname[lf]) != norm(nm):
                    # the unprefixed name of a foreign operator is that operator
                    pre = next((p for p in FORMAT.values() if nm.startswith(p) and norm(nm[len(p):]) == lf), None)
                    if pre is None:
                        R.bad('R07.class', '%s|%s' % (dev, nm), loc, 'operator "%s" creates %s, the implementation of "%s"' % (nm, c, byname[lf]))
                o = owner.setdefault((dev, c), nm)
                if o != nm:
                    R.bad('R07.class', '%s|%s' % (dev, nm), loc, 'operators "%s" and "%s" create the same class %s' % (o, nm, c))
                for ns, p in FORMAT.items():
                    if nm.startswith(p) != bool(re.search(r'ts::%s::' % ns, c)):
                        if nm.startswith(p) or not norm(nm).startswith(norm(p)):
                            R.bad('R07.class', '%s|%s' % (dev, nm), loc, 'operator "%s" creates %s: %s operators and namespace ts::%s belong together'
                                  % (nm, c, p, ns))
    names = {s for s, _ in L.values() if s}
    some = [(dev, nm) for dev, nm, *_ in ops if nm is None]
    for q, (s, fid) in sorted(L.items()):
        if s is None:
            continue
        R.ob('R07.known', s)
        if s not in reg and s not in instr and not some:
            R.bad('R07.known', s, P.loc(fid), 'operator "%s" has a name and no implementation on the CPU' % s)
    for s, (a, loc) in sorted(sh.items()):
        R.ob('R07.known', 'inferer of ' + s)
        if s not in reg and s not in instr and not s.startswith('<') and not some:
            R.bad('R07.known', 'infer|' + s, loc, 'a shape inferer is registered for "%s", which is no operator' % s)
        if a['k'] == 'un' and a['op'] == '&':
            a = strip(a['c'][0])
        if a['k'] == 'fn':
            n = P.D[a['f']]['n']
            if norm(n) != norm(s) and n in reg and not n.startswith('_'):
                R.bad('R07.known', 'infer|' + s, loc, 'the shape of "%s" is inferred by %s' % (s, P.D[a['f']]['qn']))
    for s, (a, loc) in sorted(instr.items()):
        if a['k'] == 'un' and a['op'] == '&':
            a = strip(a['c'][0])
        if a['k'] == 'fn':
            n = norm(P.D[a['f']]['n'])
            for o in instr:
                if o != s and n.endswith(norm(o)) and not n.endswith(norm(s)):
                    R.bad('R07.known', 'instr|' + s, loc, 'instruction "%s" is created by %s' % (s, P.D[a['f']]['qn']))

    for (k, i), more in sorted(P.clash.items()):
        one = json.loads(P.first[(k, i)])
        two = [json.loads(x) for x in more]
        if k == 'F':
            d = P.D.get(i)
            if d is None or not d['file'].startswith(('src', 'include', 'third')):
                continue
            R.ob('R07.odr', d['qn'])
            for t in two:
                if (t['file'], t['line']) != (one['file'], one['line']) and unline(t.get('body')) != unline(one.get('body')):
                    R.bad('R07.odr', d['qn'], '%s:%s' % (t['file'], t['line']), '%s has another definition at %s:%s; both are in the program'
                          % (d['qn'], one['file'], one['line']))
        elif k == 'R':
            R.ob('R07.odr', i)
            for t in two:
                a = [(f['n'], f['t']) for f in one.get('fields') or ()]
                b = [(f['n'], f['t']) for f in t.get('fields') or ()]
                if a and b and a != b and (t['file'], t['line']) != (one['file'], one['line']):
                    R.bad('R07.odr', i, '%s:%s' % (t['file'], t['line']), 'class %s has another layout at %s:%s' % (i, one['file'], one['line']))
        elif k == 'E':
            R.ob('R07.odr', i)
            for t in two:
                a, b = [x[1:] and x[:2] for x in one.get('c') or ()], [x[1:] and x[:2] for x in t.get('c') or ()]
                if a and b and a != b:
                    R.bad('R07.odr', i, '%s:%s' % (t['file'], t['line']), 'enumeration %s has other values at %s:%s' % (i, one['file'], one['line']))
    R.ob('R07.odr', 'functions with one definition', n=len(P._F))

    known = set(reg) | set(instr)
    kn = {norm(x): x for x in known}
    for fid, d, F in P.functions(lambda d: re.match(r'ts::(desc|symbol)::\w+$', d['qn'])):
        if norm(d['n']) not in kn and not any(a[0] == d['n'] for a in ALIAS):
            continue
        made_ = built(P, fid, known)
        if not made_:
            continue
        R.ob('R07.front', d['qn'])
        for b in sorted(made_):
            if norm(b) != norm(d['n']) and (d['n'], b) not in ALIAS:
                R.bad('R07.front', d['qn'], P.loc(fid), '%s builds a node of operator "%s"' % (d['qn'], b))
    R.floor('R07.name', 80)
    R.floor('R07.once', 100)
    R.floor('R07.class', 60)
    R.floor('R07.known', 100)
    R.floor('R07.front', 10)
    R.assume('The class of an operator implements the operation its name says: the name is the only specification of the operation in the source.')
    R.assume('Devices other than the CPU are not part of the analysed build.')

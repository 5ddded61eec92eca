"""O03: an operator delivers exactly the outputs it announces."""
from . import ops


def name(P, sym):
    if sym is None:
        return '?'
    if sym[0] == 'op':
        return 'that of operand %d' % sym[1]
    if sym[0] == 'mem':
        return 'the member %s' % sym[1].split('::')[-1]
    if sym[0] == 'en':
        for e, c in P.E.items():
            if e == 'ts::DTYPE':
                for x in c:
                    if x[1] == sym[1]:
                        return x[0].split('::')[-1]
    return str(sym[1])


def check(P, R):
    R.rule('O03.count', 'On every path of run in every operator class, the number reported is the number of tensors pushed since entry '
                        '(or nothing was pushed and the operands themselves are handed on, or an operator was run and its count is returned).')
    R.rule('O03.entry', 'Every access to an entry of the list of announced outputs is to an entry that has been added to it.')
    R.rule('O03.infer', 'On every path, shape inference announces as many entries as it reports (or one packed result with several fields).')
    R.rule('O03.single', 'A run that delivers one unpacked tensor belongs to an inference that announces one entry, and the other way round.')
    R.rule('O03.proto', 'The element type and shape of each tensor pushed as a result, where both are recognised (constant, that of an operand, '
                        'a member), are those announced for it, or shown equal by a check on the path; results made from announced entries '
                        'use them in order.')
    C = ops.concrete(P)
    E = ops.Events()
    memo = {}
    und = {'count': 0, 'dtype': 0, 'shape': 0}
    done = {'count': 0, 'dtype': 0, 'shape': 0, 'from announced entry': 0, 'pass-through': 0, 'delegated': 0}
    for c, r in sorted(C.items()):
        o = ops.Ops(P, c, E, memo, None)
        inf, fi = None, r.get('infer')
        if fi is not None:
            for k, n, s in o.root(fi):
                if k == 'throw':
                    continue
                v = o.val(n['c'][0], s) if k == 'ret' and n is not None and n.get('c') else None
                es = [x[1] for x in s.vecs if x[0][3] in (P.body_of(fi)['id'], fi)]
                if v and v[0] == 'c' and len(es) == 1 and isinstance(es[0], int):
                    R.ob('O03.infer', P.D[fi]['qn'])
                    if v[1] != es[0] and not (v[1] == 1 and es[0] > 1):
                        R.bad('O03.infer', P.D[fi]['qn'], P.loc(fi, n.get('l')), '%s reports %d but announces %d entries'
                              % (P.D[fi]['qn'], v[1], es[0]))
                s = s._replace(env=())
                inf = s if inf is None else o.join(inf, s)
        root = [x for x in inf.vecs if x[0][3] == P.body_of(fi)['id'] or x[0][3] == fi] if inf is not None else []
        count = root[0][1] if len(root) == 1 else None
        an = {k[1]: v for k, v in inf.outs if k[0] == root[0][0]} if len(root) == 1 else {}
        fr = r.get('run')
        if fr is None:
            continue
        loc = P.loc(fr)
        who = '%s::run' % c.split('::')[-1] if c in P.D[fr]['qn'] else '%s (as %s)' % (P.D[fr]['qn'], c)
        wi = P.D[fi]['qn'] if fi is not None else '?'
        for k, n, s in o.root(fr):
            if k == 'throw':
                continue
            l = P.loc(fr, (n or {}).get('l')) if n else loc
            o.depth = 0
            v = o.val(n['c'][0], s) if k == 'ret' and n is not None and n.get('c') else None
            if v == ('ro',):
                R.ob('O03.count', who)
                done['delegated'] += 1
                continue
            if not v or v[0] != 'c' or s.px is not True or s.dead:
                und['count'] += 1
                continue
            R.ob('O03.count', who)
            done['count'] += 1
            m = v[1]
            if m < 1:
                R.bad('O03.count', '%s returns %d' % (P.D[fr]['qn'], m), l, '%s reports %d results' % (who, m))
                continue
            if s.p == 0 and not s.low:
                done['pass-through'] += 1
                if not (s.lb == s.ub and s.lb == m):
                    R.bad('O03.count', '%s %s' % (P.D[fr]['qn'], m), l,
                          '%s reports %d result(s) but pushes none, and is not known to have been given exactly %d operand(s)' % (who, m, m))
                    continue
            elif s.p < m and not s.low:
                R.bad('O03.count', '%s %s' % (P.D[fr]['qn'], m), l, '%s reports %d result(s) but pushes %d' % (who, m, s.p))
                continue
            elif s.p < m:
                und['count'] += 1
                continue
            if s.p == 0:
                tops = [('mk', ('op', i), ('op', i), None) for i in range(m)]
            elif s.pushes is not None and len(s.pushes) >= m:
                tops = list(s.pushes[-m:])
            else:
                continue
            if count is None:
                continue
            if m == 1 and count > 1:
                R.ob('O03.single', who)
                t = tops[0]
                if t[0] == 'mk' and (t[1] or t[2] or t[3] is not None):
                    R.bad('O03.single', P.D[fr]['qn'], l, '%s announces %d entries, but %s delivers one plain tensor' % (wi, count, who))
                continue
            if m != count:
                R.bad('O03.single', P.D[fr]['qn'], l, '%s announces %d entries, but %s delivers %d results' % (wi, count, who, m))
                continue
            R.ob('O03.single', who)
            for j, t in enumerate(tops):
                if t[0] != 'mk':
                    continue
                if t[3] is not None:
                    R.ob('O03.proto', who)
                    done['from announced entry'] += 1
                    if t[3] != j:
                        R.bad('O03.proto', '%s entry %d' % (P.D[fr]['qn'], j), l,
                              'result %d of %s is made from the announced entry %d' % (j, who, t[3]))
                    continue
                a = an.get(j)
                if not a:
                    continue
                for w, x, y, q in zip(('D', 'H'), a, t[1:], ('dtype', 'shape')):
                    if x is None or y is None:
                        und[q] += 1
                        continue
                    R.ob('O03.proto', '%s %s' % (who, q))
                    done[q] += 1
                    if x != y and (w,) + tuple(sorted((x, y), key=repr)) not in s.eqs | inf.eqs:
                        R.bad('O03.proto', '%s %s' % (P.D[fr]['qn'], q), l, '%s of result %d of %s is %s, but %s announces %s'
                              % (q, j, who, name(P, y), wi, name(P, x)))
    R.ob('O03.entry', None, E.n.get('announced', 0))
    for (rule, fid, k), (line, msg) in E.bad.items():
        if rule == 'announced':
            R.bad('O03.entry', '%s %s' % (P.D[fid]['qn'], k), P.loc(fid, line), msg)
    R.extra['decided'] = done
    R.extra['undecided'] = und
    R.extra['operator_classes'] = len(C)
    R.floor('O03.count', 60)
    R.floor('O03.infer', 60)
    R.floor('O03.proto', 60)
    R.floor('O03.entry', 60)
    R.assume('Shapes and element types the rules do not recognise as a constant, an operand\'s or a member\'s are counted as undecided.')

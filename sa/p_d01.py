"""D01: what is saved is what is loaded. Writers and readers are turned into trees of fields (sa/wire.py) and compared."""
from .program import walk, AnalysisError
from .sem import strip
from .locks import plain
from .wire import extract, width, skips_empty, hollow, STREAM


def mentions(t, r):
    if t == r:
        return True
    return isinstance(t, tuple) and any(mentions(x, r) for x in t if isinstance(x, tuple))


def subterms(t):
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t, d=0):
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return str(t) if not isinstance(t, tuple) else ''
    k = t[0]
    if k == 'c':
        return str(t[1])
    if d > 5:
        return '…'
    if k == 'fld':
        return show(t[1], d + 1) + '.' + t[2]
    if k == 'size':
        return show(t[1], d + 1) + '.size()'
    if k == 'op' and len(t) == 4:
        return '(%s %s %s)' % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    if k == 'call':
        return '%s%s(%s)' % (show(t[2], d + 1) + '.' if t[2] else '', t[1], ', '.join(show(x, d + 1) for x in t[3]))
    if k == 'elem':
        return show(t[1], d + 1) + '[]'
    if k == 'R':
        return 'the value read'
    if k in ('obj', 'par', 'this', 'cell'):
        return {'this': 'this'}.get(k, 'object')
    if k in ('vec', 'list', 'filled'):
        return 'a list'
    return k


def unknown(t):
    """A term that could not be worked out."""
    return t[0] == '?' or any(x[0] in ('while', 'after') for x in subterms(t))


class Compare:
    def __init__(self, P, R, rule, what, w, r):
        self.P, self.R, self.rule, self.what = P, R, rule, what
        self.w, self.r = w, r
        self.val = {}       # token read -> term written
        self.root = {}
        self.back = {}
        self.n = 0
        self.sizes = {}

    def bad(self, tok, tag, text):
        fid, line = tok['at']
        self.R.bad(self.rule, '%s|%s' % (plain(self.P.D[fid]['qn']), tag), self.P.loc(fid, line), '%s: %s' % (self.what, text))

    # ------------------------------------------------------------ equality of terms
    def norm(self, t):
        """Sizes of containers that a function builds."""
        if t[0] == 'size' and t[1][0] == 'call':
            s = self.built(t[1])
            if s is not None:
                return s
        return t

    def built(self, call):
        """The number of elements of a vector that a function of this program builds in straight line."""
        key = call
        if key in self.sizes:
            return self.sizes[key]
        self.sizes[key] = None
        for fid in [f for f, d in self.P.D.items() if d.get('n') == call[1] and d.get('cls') and 'vector' in (d.get('ret') or '')
                                                                   and len(d.get('ps', ())) == len(call[3])]:
            F = self.P.body_of(fid)
            d = self.P.D[fid]
            if F is None or d.get('dep'):
                continue
            s = self.straight(fid, F, call)
            if s is not None:
                # the object of the call has the members this function reads
                self.sizes[key] = s
                if d['cls'].split('::')[-1] == 'Tensor':
                    return s
        return self.sizes[key]

    def straight(self, fid, F, call):
        from .wire import Extract
        X = Extract(self.P)
        env = {}
        for v, a in zip(F['ps'], call[3]):
            env[v] = ('val', a)
        X.frames.append((fid, env, ('val', call[2] if call[2] is not None else ('?',))))
        var, n = None, None
        rets = [x for x in walk(F['body']) if x['k'] == 'ret' and x.get('c')]
        if len(rets) != 1:
            return None
        e = strip(rets[0]['c'][0])
        while e is not None and e['k'] in ('call', 'ctor') and e.get('c'):
            e = strip(e['c'][0])
        if e is None or e['k'] != 'var':
            return None
        var = e['v']
        total = []

        def go(s, mult):
            if s is None:
                return True
            k = s['k']
            if k == 'block':
                return all(go(x, mult) for x in s['c'])
            if k == 'decl':
                for x in s['c']:
                    if x is None or x['k'] != 'vdecl':
                        continue
                    if x['v'] == var:
                        i = strip(x.get('init'))
                        v = X.ev(i) if i is not None else ('?',)
                        if v[0] == 'vec':
                            total.append(v[1])
                        elif i is not None and i['k'] == 'ctor' and not [a for a in i.get('c', ()) if a.get('k') != 'defarg']:
                            pass
                        else:
                            return False
                    elif x.get('init') is not None:
                        X.decl(x)
                return True
            if k == 'if':
                # extending by a container only when it has elements is the same as always
                return s.get('else') is None and emptiness(self.P, s.get('cond')) and go(s.get('then'), mult)
            if k == 'rfor':
                c = X.ev(s['range'])
                return go(s.get('body'), (mult or []) + [('size', c)])
            if k == 'ret':
                return True
            if k == 'mcall' and s.get('c') and (strip(s['c'][0]) or {}).get('v') == var and strip(s['c'][0])['k'] == 'var':
                nm = self.P.D.get(s.get('f'), {}).get('n')
                if nm in ('push_back', 'emplace_back'):
                    total.append(mult[0] if mult else ('c', 1))
                    return not mult or len(mult) == 1
                if nm == 'insert' and len(s['c']) == 4:
                    total.append(('size', X.ev(s['c'][2])))
                    return not mult
                return nm in ('reserve',)
            return not any(x['k'] == 'mcall' and x.get('c') and (strip(x['c'][0]) or {}).get('k') == 'var' and strip(x['c'][0]).get('v') == var and
                           self.P.D.get(x.get('f'), {}).get('n') in ('resize', 'erase', 'clear', 'pop_back', 'insert', 'push_back', 'emplace_back') for x in walk(s))
        if not go(F['body'], None):
            return None
        if not total:
            return None
        t = total[0]
        for x in total[1:]:
            t = ('op', '+', t, x)
        return t

    def eq(self, a, b):
        """a: term of the writer, b: term of the reader."""
        if b[0] == 'R':
            return b in self.val and self.eqw(a, self.val[b])
        a, b = self.norm(a), self.norm(b)
        if b[0] == 'filled' and b[1][0] == 'vec' and b[1][2] is None:
            return self.val.get(b[2]) is not None and self.eqw(a, self.val[b[2]])
        if b[0] == 'vec':
            if a[0] in ('vec', 'list') and b[2] is None:
                return self.eq(a[1], b[1]) if a[0] == 'vec' else False
            n = a[1] if a[0] == 'vec' else ('size', a)
            if not self.eq(n, b[1]):
                return False
            e = self.val.get(b[2])
            if e is None:
                return False
            return e[0] in ('elem', 'at') and self.eqw(a, e[1]) or a[0] in ('list', 'vec') and self.eqw(a[2], e)
        if a[0] in ('this', 'par', 'obj', 'cell') or b[0] in ('this', 'par', 'obj', 'cell'):
            if a in self.root or b in self.back:
                return self.root.get(a) == b and self.back.get(b) == a
            self.root[a] = b
            self.back[b] = a
            return True
        if a[0] == 'op' and b[0] == 'op' and len(a) == 4 and len(b) == 4 and a[1] == b[1] and a[1] in ('*', '+'):
            return self.both(a[2], b[2], a[3], b[3]) or self.both(a[2], b[3], a[3], b[2])
        if a[0] != b[0] or len(a) != len(b):
            return False
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and isinstance(y[0], str):
                if not self.eq(x, y):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y) or not all(self.eq(p, q) if isinstance(p, tuple) and p and isinstance(p[0], str) and isinstance(q, tuple) else p == q for p, q in zip(x, y)):
                    return False
            elif x != y:
                return False
        return True

    def both(self, a, b, c, d):
        k = dict(self.root), dict(self.back)
        if self.eq(a, b) and self.eq(c, d):
            return True
        self.root, self.back = k
        return False

    def eqw(self, a, b):
        """Two terms of the writer are the same value."""
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return True
        if a[0] == 'op' and b[0] == 'op' and len(a) == 4 and len(b) == 4 and a[1] == b[1] and a[1] in ('*', '+'):
            return self.eqw(a[2], b[2]) and self.eqw(a[3], b[3]) or self.eqw(a[2], b[3]) and self.eqw(a[3], b[2])
        if a[0] == b[0] and len(a) == len(b) and a[0] in ('size', 'fld', 'op', 'elem'):
            return all(self.eqw(x, y) if isinstance(x, tuple) and x and isinstance(x[0], str) and isinstance(y, tuple) and y else x == y for x, y in zip(a[1:], b[1:]))
        return False

    # ------------------------------------------------------------ trees
    def flat(self, toks):
        """Drops conditions that only skip an empty run, and what is not a field."""
        out = []
        for t in toks:
            if t['k'] == 'alt' and not t['b'] and t['a'] and all(x['k'] in ('var', 'loop') for x in t['a']):
                if skips_empty(t['cond'], t['a']):
                    out += t['a']
                    continue
            if hollow([t]):
                continue
            out.append(t)
        return out

    def trees(self, ws, rs, where):
        ws, rs = self.flat(ws), self.flat(rs)
        for i in range(max(len(ws), len(rs))):
            self.R.ob(self.rule)
            if i >= len(rs):
                self.bad(ws[i], 'extra', 'a field is written that is not read')
                return
            if i >= len(ws):
                self.bad(rs[i], 'extra', 'a field is read that is not written')
                return
            w, r = ws[i], rs[i]
            self.n += 1
            if w['k'] in ('op', 'opaque') or r['k'] in ('op', 'opaque'):
                t = w if w['k'] in ('op', 'opaque') else r
                self.R.extra.setdefault('not_compared', []).append('%s: from %s' % (self.what, t['name']))
                return
            if w['k'] == 'alt' or r['k'] == 'alt':
                t = w if w['k'] == 'alt' else r
                self.bad(t, 'conditional', 'fields are %s only under a condition, but always %s' % (('written', 'read') if w['k'] == 'alt' else ('read', 'written')))
                return
            if w['k'] != r['k']:
                # a run of one-byte elements against a loop of them and the like
                if {w['k'], r['k']} == {'var', 'loop'}:
                    l, v = (w, r) if w['k'] == 'loop' else (r, w)
                    b = self.flat(l['body'])
                    if len(b) == 1 and b[0]['k'] == 'fix' and b[0]['w'] == v['w']:
                        if 'id' in b[0]:
                            self.val[b[0]['id']] = ('elem', w['val'], ('it',))
                        if 'id' in v:
                            self.val[v['id']] = w['body'][0]['val']
                        if not self.eq(w['count'], r['count']) and not unknown(r['count']) and not unknown(w['count']):
                            self.bad(r, 'count', 'the number of elements read is not the number written')
                        continue
                self.bad(r, 'kind', 'a %s is read where a %s is written' % (NAMES[r['k']], NAMES[w['k']]))
                return
            if w['k'] == 'fix':
                if w['w'] != r['w'] or w['w'] is None:
                    self.bad(r, 'width', 'a field of %s bytes is read where %s bytes are written' % (r['w'], w['w']))
                    return
                self.val[r['id']] = w['val']
            elif w['k'] == 'var':
                wc = w['count'] if w['w'] == 1 else ('op', '*', w['count'], ('c', w['w']))
                rc = r['count'] if r['w'] == 1 else ('op', '*', r['count'], ('c', r['w']))
                if w['w'] == r['w']:
                    wc, rc = w['count'], r['count']
                self.val[r['id']] = w['val']
                if not self.eq(wc, rc) and not unknown(wc) and not unknown(rc):
                    self.bad(r, 'count', 'the number of bytes read (%s) is not the number written (%s)' % (show(rc), show(wc)))
            elif w['k'] == 'loop':
                if not self.eq(w['count'], r['count']) and not unknown(w['count']) and not unknown(r['count']):
                    self.bad(r, 'count', 'the number of repetitions read (%s) is not the number written (%s)' % (show(r['count']), show(w['count'])))
                self.trees(w['body'], r['body'], where)

    # ------------------------------------------------------------ destinations
    def labels(self, rule):
        P = self.P
        done = set()
        counts = list(self.r.used)
        for t in tokens(self.r.tokens):
            if 'id' not in t or t['id'] not in self.val:
                continue
            i, wv = t['id'], self.val[t['id']]
            self.R.ob(rule)
            src = outer(wv)
            dst = set()
            used = any(mentions(c, i) for c in counts)
            index = False
            for L, v, f, l in self.r.writes:
                if not mentions(v, i):
                    continue
                index = index or is_index(v, i)
                if L[0] == 'fld':
                    used = True
                    dst.add(L[2])
                    dst |= inner(v, i)
                elif L[0] == 'par' or L == ('this',):
                    used = True
                    dst |= inner(v, i)
            for f, o, a in self.r.sinks:
                for n, x in enumerate(a):
                    if mentions(x, i):
                        used = True
                        index = index or is_index(x, i)
                        if not is_index(x, i) or True:
                            dst |= takes(P, f).get(n, set())
                if o is not None and mentions(o, i):
                    used = True
            if mentions(self.r.result, i):
                used = True
            if not used and src and wv[0] != 'c':
                self.bad(t, 'dropped', 'the value of %s is read and thrown away' % src)
                continue
            wrev = any(x[0] == 'elem' and backwards(x[2]) for x in subterms(wv))
            rrev = any(L[0] == 'elem' and v == i and backwards(L[2]) for L, v, f, l in self.r.writes)
            if wrev != rrev:
                self.bad(t, 'order', 'elements are %s in descending order but %s in ascending order' % (('written', 'read') if wrev else ('read', 'written')))
            windex = wv[0] != 'size' and looked_up(wv)
            if windex and not index:
                self.bad(t, 'index', 'an index into the saved nodes is read but not used as an index')
            if src and dst and src not in dst and known(self, src) and any(known(self, x) for x in dst):
                self.bad(t, 'member', 'what is written from %s is read into %s' % (src, ', '.join(sorted(x for x in dst if known(self, x)))))


NAMES = {'fix': 'field', 'var': 'run of elements', 'loop': 'repeated group', 'alt': 'conditional field'}


def known(c, name):
    """Both sides know the member: only then is a difference meaningful."""
    return any(name in repr(x[0]) or name in repr(x[1]) for x in c.r.writes) or any(name in s for f, o, a in c.r.sinks for s in takes(c.P, f).values())


def tokens(ts):
    for t in ts:
        yield t
        for b in ('body', 'a', 'b'):
            if b in t:
                yield from tokens(t[b])


def outer(t):
    """The member a written term comes from."""
    k = t[0]
    if k == 'fld':
        if looked_up(t):
            for x in choices(t):
                if x and x[0] == 'call' and x[1] in ('find', 'at'):
                    return outer(x[3][0]) if x[3] else None
        return t[2]
    if k == 'elem':
        if t[1][0] in ('obj', 'cell') and t[2] and t[2][0] != 'it':
            return outer(t[2])
        return outer(t[1])
    if k in ('at', 'size', 'filled', 'addr', 'iter'):
        return outer(t[1])
    if k == 'list':
        return outer(t[2]) if t[2] else None
    if k == 'call':
        if t[2] is not None:
            return outer(t[2])
        return outer(t[3][0]) if t[3] else None
    if k == 'phi':
        return outer(t[1]) or outer(t[2])
    if k == 'new' and t[2]:
        return outer(t[2][0])
    if k == 'op' and len(t) == 4:
        return outer(t[2]) or outer(t[3])
    return None


def backwards(t):
    return any(x[0] == 'op' and len(x) == 4 and x[1] == '-' and any(y[0] == 'it' for y in subterms(x[3])) for x in subterms(t))


def inner(v, i):
    out = set()
    for x in subterms(v):
        if x[0] == 'new':
            for f, y in x[3]:
                if mentions(y, i):
                    out.add(f)
    return out


def is_index(v, i):
    return any(x[0] in ('elem', 'at') and mentions(x[2], i) or x[0] == 'call' and x[1] in ('at', 'node', 'get') and any(mentions(y, i) for y in x[3]) for x in subterms(v))


def choices(t):
    """The terms a value is made of, without the conditions that choose between them."""
    if isinstance(t, tuple):
        yield t
        for y in t[1:3] if t and t[0] == 'phi' else t:
            yield from choices(y)


def looked_up(v):
    for x in choices(v):
        if not x:
            continue
        if x[0] == 'call' and x[1] in ('find', 'at') and x[3]:
            return True
        if x[0] == 'elem' and x[1][0] in ('obj', 'cell') and x[2] and x[2][0] in ('elem', 'at', 'fld', 'call'):
            return True
    return False


def takes(P, f):
    """Parameter -> members of the object that are directly given its value."""
    c = P.__dict__.setdefault('_takes', {})
    if f in c:
        return c[f]
    out = c[f] = {}
    F = P.body_of(f) if f else None
    if F is None:
        return out
    ps = {v: i for i, v in enumerate(F['ps'])}

    def used(n):
        return {ps[x['v']] for x in walk(n) if x['k'] == 'var' and x['v'] in ps}
    for i in F.get('inits', ()):
        if i.get('fld') and i.get('init') is not None:
            for p in used(i['init']):
                out.setdefault(p, set()).add(i['fld'])
    for x in walk(F['body']):
        t = None
        if x['k'] == 'asg' and x['op'] == '=' or x['k'] == 'ocall' and x.get('op') == '=' and len(x['c']) == 2:
            t, src = strip(x['c'][0]), [x['c'][1]]
        elif x['k'] == 'mcall' and P.D.get(x.get('f'), {}).get('n') in ('insert', 'push_back', 'emplace_back', 'assign', 'emplace', 'swap'):
            t, src = strip(x['c'][0]), x['c'][1:]
        if t is not None and t['k'] == 'mem' and t.get('c') and strip(t['c'][0])['k'] == 'this':
            for s in src:
                for p in used(s):
                    out.setdefault(p, set()).add(t['n'])
    return out


def emptiness(P, c):
    """A condition that only asks whether a container has elements."""
    if c is None:
        return False
    return any(x['k'] == 'mcall' and P.D.get(x.get('f'), {}).get('n') in ('empty', 'size') for x in walk(c))


def pairs(P):
    """(what, writer, reader)"""
    out = []
    by = {}
    for fid, d, F in P.functions():
        if not any(STREAM.search(p['t']) and '<' not in p['t'] for p in d.get('ps', ())):
            continue
        by.setdefault(d['qn'], []).append((fid, d))
    stream1 = lambda l: [f for f, d in l if STREAM.search(d['ps'][0]['t'])]
    for q, l in sorted(by.items()):
        if q.endswith('::serialize'):
            for r in stream1(by.get(q[:-len('serialize')] + 'externalize', ())):
                out.append((q[:-len('::serialize')], l[0][0], r))
    w = stream1(by.get('ts::Module::Save', ()))
    rs = stream1(by.get('ts::Module::Load', ()))
    # loaders of this format that are registered
    for fid, d, F in P.functions():
        if d['ps'] and 'StreamReaderV2' in d['ps'][0]['t'] and 'Module' in (d.get('ret') or '') and not d.get('cls'):
            rs.append(fid)
    for r in rs:
        for x in w:
            out.append(('model file', x, r))
    w, r = stream1(by.get('ts::tensor::save', ())), stream1(by.get('ts::tensor::load', ()))
    for x in w:
        for y in r:
            out.append(('tensor file', x, y))
    return out


def check(P, R):
    R.rule('D01.field', 'The fields a writer produces and the fields its reader consumes are the same sequence: widths, runs, repetition counts and conditions.')
    R.rule('D01.member', 'What is written from a member is read back into that member; nothing that is written is read and thrown away; indices are used as indices.')
    R.rule('D01.width', 'The stream primitives transfer exactly the size of the type they are asked for.')
    R.rule('D01.key', 'A member that loading restores from a named parameter is stored under that name by every function that sets the member.')
    ps = pairs(P)
    what = [p[0] for p in ps]
    if 'model file' not in what:
        raise AnalysisError('no writer and reader of the model file found')
    for name, w, r in ps:
        W, X = extract(P, w), extract(P, r)
        R.ob('D01.field', '%s: %s / %s' % (name, P.D[w]['qn'], P.D[r]['qn']))
        c = Compare(P, R, 'D01.field', name, W, X)
        c.trees(W.tokens, X.tokens, name)
        c.rule = 'D01.member'
        c.labels('D01.member')
        index_map(P, R, name, W)
    primitives(P, R)
    keys(P, R)
    R.floor('D01.field', 25)
    R.floor('D01.member', 12)
    R.floor('D01.key', 4)


def index_map(P, R, name, W):
    """Positions handed out while nodes are collected start at 0 and follow the order in which nodes are written."""
    for L, v, f, l in W.writes:
        if v[0] != 'pair' or len(v) != 3 or f is None:
            continue
        key, idx = v[1], v[2]
        if idx[0] == 'c' and isinstance(idx[1], int):
            R.ob('D01.member')
            if idx[1] != 0 and any(looked_up(t['val']) for t in tokens(W.tokens) if 'val' in t):
                R.bad('D01.member', '%s|first' % plain(P.D[f]['qn']), P.loc(f, l), '%s: positions of nodes are counted from %s, but the reader counts from 0' % (name, idx[1]))
        # the list that is written, filled in the same function
        apps = [(L2, v2, l2) for L2, v2, f2, l2 in W.writes if f2 == f and v2[0] == 'list' and v2[2] is not None and abs((l2 or 0) - (l or 0)) < 6]
        for L2, v2, l2 in apps:
            R.ob('D01.member')
            if v2[2] != key and v2[2][0] == key[0] and v2[2][0] in ('elem', 'fld'):
                R.bad('D01.member', '%s|order' % plain(P.D[f]['qn']), P.loc(f, l2), '%s: the node whose position is recorded is not the node that is appended' % name)


def primitives(P, R):
    for fid, d, F in P.functions():
        if not d['qn'].startswith('ts::binio::') or d.get('dep') or not d.get('targs'):
            continue
        w = width(d['targs'][0])
        for x in walk(F['body']):
            if x['k'] not in ('mcall', 'call') or len(x['c']) != 3 or not any(y['k'] == 'var' and y['v'] == F['ps'][0] for y in walk(x['c'][0])):
                continue
            R.ob('D01.width', d['qn'])
            sz = strip(x['c'][2])
            cv = x['c'][2].get('cv', sz.get('cv') if sz else None)
            if sz is not None and sz['k'] == 'sizeof' and cv is None:
                cv = sz.get('v')
            if len(d['ps']) == 2 and '[' not in d['ps'][1]['t']:
                if w is not None and isinstance(cv, int) and cv != w:
                    R.bad('D01.width', plain(d['qn']), P.loc(fid, x['l']), '%s<%s> transfers %s bytes' % (d['qn'], d['targs'][0], cv))
            elif len(d['ps']) == 3:
                ok = sz is not None and (w == 1 and sz['k'] == 'var' and sz['v'] == F['ps'][2] or sz['k'] == 'bin' and sz['op'] == '*' and
                                         any(y['k'] == 'var' and y['v'] == F['ps'][2] for y in walk(sz)) and
                                         any(isinstance(y.get('cv', y.get('v') if y['k'] in ('lit', 'sizeof') else None), int) and y.get('cv', y.get('v')) == w for y in walk(sz)))
                v = sz is not None and sz['k'] == 'var' and sz['v'] not in F['ps']
                if v:
                    # a local that holds the product
                    ini = [y['init'] for y in walk(F['body']) if y['k'] == 'vdecl' and y['v'] == sz['v'] and y.get('init') is not None]
                    v = len(ini) != 1 or any(y['k'] == 'bin' and y['op'] == '*' for y in walk(ini[0])) or w == 1
                if not ok and not v:
                    R.bad('D01.width', plain(d['qn']), P.loc(fid, x['l']), '%s does not transfer the number of elements asked for times their size' % d['qn'])


def keys(P, R):
    """Bubble: members that loading takes from parameters."""
    readers = [(f, d, F) for f, d, F in P.functions() if d['n'] == 'externalize' and d.get('cls')]
    for rf, rd, RF in readers:
        cls = rd['cls']
        X = extract(P, rf)
        restored = {}
        for L, v, f, l in X.writes:
            if L[0] == 'fld' and L[1] == ('this',):
                for x in subterms(v):
                    if x[0] == 'g' and '::' in x[1] and P_is_string(P, x[1]):
                        restored.setdefault(L[2], set()).add(x[1])
        if not restored:
            continue
        # which functions of the class store which key from which member
        methods = [(f, d, F) for f, d, F in P.functions() if d.get('cls') == cls and not d.get('dep')]
        store = {}
        for f, d, F in methods:
            for x in walk(F['body']):
                ks = None
                if x['k'] in ('asg',) and x['op'] == '=' or x['k'] == 'ocall' and x.get('op') == '=' and len(x['c']) == 2:
                    t = strip(x['c'][0])
                    if t is not None and t['k'] == 'ocall' and t['op'] == '[]':
                        ks, val = t['c'][1], x['c'][1]
                elif x['k'] in ('mcall', 'call') and x.get('c'):
                    a = x['c'][1:] if x['k'] == 'mcall' else x['c']
                    for i, y in enumerate(a):
                        sy = strip(y)
                        if sy is not None and sy['k'] in ('gv', 'mem') and i + 1 < len(a):
                            ks, val = y, a[i + 1]
                            break
                if ks is None:
                    continue
                g = strip(ks)
                q = g.get('q') if g is not None and g['k'] in ('gv', 'mem') else None
                if q is None:
                    continue
                ms = {y['n'] for y in walk(val) if y['k'] == 'mem' and y.get('q', '').startswith(cls + '::m_')}
                pv = {y['v'] for y in walk(val) if y['k'] == 'var'}
                if not ms and pv:
                    # the parameter that the member is also set from
                    for z in walk(F['body']):
                        if z['k'] in ('asg', 'ocall') and z.get('op') == '=' and len(z['c']) == 2:
                            t = strip(z['c'][0])
                            if t is not None and t['k'] == 'mem' and any(y['k'] == 'var' and y['v'] in pv for y in walk(z['c'][1])):
                                ms.add(t['n'])
                store.setdefault(f, {}).setdefault(q, set()).update(ms)
                for m in ms:
                    R.ob('D01.key')
                    want = restored.get(m)
                    if want and q not in want and any(q in s for s in restored.values()):
                        R.bad('D01.key', '%s|%s' % (plain(d['qn']), m), P.loc(f, x['l']), '%s is stored under %s but loaded from %s' % (m, q.split('::')[-1], ', '.join(sorted(s.split('::')[-1] for s in want))))

        def stores(f, q, depth=0, seen=None):
            seen = seen if seen is not None else set()
            if f in seen or depth > 4:
                return False
            seen.add(f)
            if q in store.get(f, {}):
                return True
            F = P.body_of(f)
            if F is None:
                return False
            roots = [F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]
            return any(x.get('f') and P.D.get(x['f'], {}).get('cls') == cls and stores(x['f'], q, depth + 1, seen)
                       for x in walk(roots) if x['k'] in ('mcall', 'call', 'ctor'))
        for f, d, F in methods:
            if f == rf or d.get('implicit') or d.get('defaulted'):
                continue
            sets = set()
            roots = [F['body']]
            whole = False
            for i in F.get('inits', ()):
                if i.get('fld') in restored and i.get('init') is not None and any(y['k'] == 'var' and y['v'] in F['ps'] for y in walk(i['init'])):
                    sets.add(i['fld'])
                if i.get('fld') == 'm_params' and any(y['k'] == 'var' and y['v'] in F['ps'] for y in walk(i['init'])):
                    whole = True
            for x in walk(roots):
                if x['k'] in ('asg', 'ocall') and x.get('op') == '=' and len(x['c']) == 2:
                    t = strip(x['c'][0])
                    if t is not None and t['k'] == 'mem' and t.get('c') and strip(t['c'][0])['k'] == 'this':
                        if t['n'] in restored:
                            sets.add(t['n'])
                        if t['n'] == 'm_params':
                            whole = True
            if whole:
                continue        # copies the parameters along with the member
            for m in sorted(sets):
                R.ob('D01.key', d['qn'])
                if not any(stores(f, q) for q in restored[m]):
                    R.bad('D01.key', '%s|%s' % (plain(d['qn']), m), P.loc(f), '%s sets %s without storing %s, so the change is lost when the model is saved and loaded'
                          % (d['qn'], m, ', '.join(sorted(s.split('::')[-1] for s in restored[m]))))


def P_is_string(P, q):
    return any((k.split('@')[0] == q or g.get('n') == q) and 'string' in g.get('t', '') for k, g in P.G.items())

"""What operators do with the operand stack and with the list of announced outputs (shared by O01 and O03).

Every concrete operator class is analysed with itself as the dynamic type: calls on this are resolved
in the class, functions taking the stack or the output list by reference are entered."""
from collections import namedtuple
from .flow import Flow
from .program import walk, fnodes, AnalysisError
from .sem import strip, key

S = namedtuple('S', 'lb ub p px pushes env vecs frames low dead outs eqs')
# lb..ub   operands certainly supplied (ub None = unbounded)
# p, px    results and scratch tensors pushed so far (px: exactly), pushes: what they were made from
#          px == 'ro': p tensors and then the (unknown number of) results of an operator just run
# low      operands were popped, erased or moved
# outs     (list, k) -> (dtype, shape) announced for entry k; eqs: facts 'these dtypes / shapes are equal'
# vecs     identity -> number of entries of an output list (None = unknown)
# frames   enclosing stack frames; dead: stack contents no longer tracked


def start(lb=0):
    return S(lb, None, 0, True, (), (), (), (), False, False, (), frozenset())


def fget(t, k, d=None):
    for a, b in t:
        if a == k:
            return b
    return d


def fset(t, k, v):
    return tuple(sorted([(a, b) for a, b in t if a != k] + ([(k, v)] if v is not None else []), key=repr))


class Events:
    def __init__(self):
        self.bad = {}
        self.n = {}

    def ob(self, rule):
        self.n[rule] = self.n.get(rule, 0) + 1

    def report(self, rule, fid, line, k, msg):
        self.bad.setdefault((rule, fid, k), (line, msg))


class Ops(Flow):
    MAXIT = 6
    DEPTH = 8

    def __init__(self, P, cls, ev, memo, stackfn):
        Flow.__init__(self, P)
        self.cls, self.evn, self.memo, self.stackfn = cls, ev, memo, stackfn
        self.mro = [cls] + P.bases_of(cls)
        self.depth = 0
        self.stack = []     # active function ids

    # -- class
    def resolve(self, fid):
        P = self.P
        d = P.D[fid]
        if not d.get('virt'):
            return fid
        ov = P.all_overriders(fid) | {fid}
        for c in self.mro:
            for f in P.by_qn.get('%s::%s' % (c, d['n']), ()):
                if f in ov:
                    return f
        return fid

    # -- joins
    def join(self, a, b):
        if a == b:
            return a
        ub = None if a.ub is None or b.ub is None else max(a.ub, b.ub)
        env = tuple(x for x in a.env if x in b.env)
        vec = tuple((k, v if fget(b.vecs, k, -1) == v else None) for k, v in a.vecs)
        vec += tuple((k, None) for k, v in b.vecs if fget(a.vecs, k, -1) == -1)
        px = a.px if a.px == b.px and a.p == b.p else False
        outs = []
        for k, v in a.outs:
            w = fget(b.outs, k)
            if w is None:
                continue
            outs.append((k, tuple(x if x == y else None for x, y in zip(v, w))))
        pushes = a.pushes
        if a.pushes != b.pushes:
            pushes = None
            if a.pushes is not None and b.pushes is not None and len(a.pushes) == len(b.pushes):
                pushes = tuple(self.jdesc(x, y) for x, y in zip(a.pushes, b.pushes))
        return S(min(a.lb, b.lb), ub, min(a.p, b.p), px,
                 pushes, env, tuple(sorted(vec, key=repr)),
                 a.frames if a.frames == b.frames else (), a.low or b.low,
                 a.dead or b.dead or a.frames != b.frames, tuple(outs), a.eqs & b.eqs)

    def jdesc(self, x, y):
        if x == y:
            return x
        if x[0] == y[0] == 'mk':
            return ('mk',) + tuple(i if i == j else None for i, j in zip(x[1:], y[1:]))
        return ('?',)

    def unstable(self, st):
        return st._replace(px=False, pushes=None) if st is not None else None

    # -- values
    def val(self, n, st):
        n = strip(n)
        if n is None:
            return None
        if 'cv' in n:
            return ('c', n['cv'])
        k = n['k']
        if k == 'lit' and isinstance(n.get('v'), int) and not isinstance(n.get('v'), bool):
            return ('c', n['v'])
        if k == 'var':
            return fget(st.env, (self.depth, n['v']))
        if k == 'mcall' and n.get('f') and self.P.D[n['f']]['qn'] == 'ts::Stack::size' and self.is_stack(n['c'][0], st):
            return ('sz', st.p) if st.px is True and not st.low and not st.dead else None
        if k == 'mcall' and n.get('f') and self.P.D[n['f']]['n'] == 'size':
            v = self.vec_of(n['c'][0], st)
            if v is not None and fget(st.vecs, v) is not None:
                return ('c', fget(st.vecs, v))
        if k == 'bin' and n['op'] in '+-':
            a, b = self.val(n['c'][0], st), self.val(n['c'][1], st)
            if a and b and b[0] == 'c':
                return (a[0], a[1] + (b[1] if n['op'] == '+' else -b[1])) if a[0] in ('c', 'sz') else None
        if k == 'un' and n['op'] == '-':
            a = self.val(n['c'][0], st)
            return ('c', -a[1]) if a and a[0] == 'c' else None
        if k in ('ctor', 'init') and len([c for c in n.get('c') or () if c and c['k'] != 'defarg']) == 1:
            return self.val(n['c'][0], st)
        if k == 'call' and n.get('f') and self.P.D[n['f']]['qn'] == 'ts::RunOperator':
            return ('ro',)
        return self.tval(n, st)

    # -- tensors, prototypes, element types and shapes as symbols
    def tval(self, n, st):
        """('T'|'P', dtype, shape) of a tensor or prototype, ('D', dtype), ('H', shape), or None."""
        k = n['k']
        if k == 'un' and n['op'] in '*&':
            return self.val(n['c'][0], st)
        if k == 'en':
            return ('D', ('en', n.get('v')))
        if k == 'mem' and n['c'] and strip(n['c'][0]) is not None and strip(n['c'][0])['k'] == 'this':
            t = (n.get('t') or '').replace('const ', '').replace('&', '').strip()
            if t == 'ts::DTYPE':
                return ('D', ('mem', n['q']))
            if t in ('ts::Shape', 'std::vector<int>'):
                return ('H', ('mem', n['q']))
            return None
        f = n.get('f')
        d = self.P.D.get(f) if f else None
        if d is None:
            return None
        if k in ('mcall', 'ocall') and n['c'] and self.is_stack(n['c'][0], st):
            if d['n'] in ('operator[]', 'index', 'top'):
                if d['n'] == 'top':
                    i = -1
                else:
                    v = self.val(n['c'][1], st)
                    if not v or v[0] != 'c':
                        return None
                    i = v[1]
                if st.dead or st.low:
                    return None
                if i >= 0 and (i < st.lb or (st.p == 0 and st.px is True)):
                    return ('T', ('op', i), ('op', i))
                if i < 0 and st.pushes and st.px is True and len(st.pushes) >= -i:
                    x = st.pushes[i]
                    return ('T', x[1], x[2]) if x[0] == 'mk' else None
                return None
            if d['n'] in ('push', 'clone_push', 'make'):
                x = self.desc([a for a in n['c'][1:]], st)
                return ('T', x[1], x[2]) if x[0] == 'mk' else None
            return None
        if k in ('mcall', 'ocall') and n['c']:
            o = self.out_elem(n, st)
            if o is not None:
                e = fget(st.outs, o)
                return ('P',) + e if e else None
        if k == 'mcall' and d.get('cls') in ('ts::Tensor', 'ts::Tensor::Prototype', 'ts::TensorPrototype'):
            b = self.val(n['c'][0], st)
            if not b or b[0] not in ('T', 'P'):
                return None
            m = d['n']
            if m in ('view', 'weak', 'clone', 'clone_shared', 'strong'):
                return b
            if m == 'proto':
                return ('P', b[1], b[2])
            if m == 'dtype':
                return ('D', b[1])
            if m == 'sizes':
                return ('H', b[2])
            if m == 'reshape':
                h = self.val(n['c'][1], st)
                return ('T', b[1], h[1] if h and h[0] == 'H' else None)
            return None
        if k == 'call' and d['qn'] == 'ts::tensor::cast':
            a = [self.val(x, st) if x is not None else None for x in n['c']]
            if len(a) >= 2 and a[0] and a[0][0] == 'D' and a[1] and a[1][0] == 'T':
                return ('T', a[0][1], a[1][2])
            return None
        if k == 'call' and d['qn'] in ('ts::tensor::clone', 'std::move', 'std::forward') and len(n['c']) == 1:
            return self.val(n['c'][0], st)
        if k == 'ctor' and d.get('cls') in ('ts::Tensor::Prototype', 'ts::TensorPrototype', 'ts::Tensor'):
            a = [x for x in n['c'] if x is not None and x['k'] != 'defarg']
            v = [self.val(x, st) for x in a]
            if d['cls'] == 'ts::Tensor':
                if any(x and x[0] in ('P',) for x in v):
                    x = [x for x in v if x and x[0] == 'P'][0]
                    return ('T', x[1], x[2])
                ds = [i for i, x in enumerate(v) if x and x[0] == 'D']
                if len(ds) == 1 and len(v) > ds[0] + 1:
                    h = v[ds[0] + 1]
                    return ('T', v[ds[0]][1], h[1] if h and h[0] == 'H' else None)
                return None
            if len(a) == 2:
                dd = v[0][1] if v[0] and v[0][0] == 'D' else None
                hh = v[1][1] if v[1] and v[1][0] == 'H' else None
                return ('P', dd, hh)
        return None

    def is_stack(self, n, st):
        n = strip(n)
        while n is not None and n['k'] == 'un' and n['op'] in '*&':
            n = strip(n['c'][0])
        return n is not None and n['k'] == 'var' and fget(st.env, (self.depth, n['v'])) == ('stack',)

    def vec_of(self, n, st):
        n = strip(n)
        if n is not None and n['k'] == 'var':
            v = fget(st.env, (self.depth, n['v']))
            if v and v[0] == 'vec':
                return v
        return None

    def setvec(self, st, v, n):
        vs = [(a, b) for a, b in st.vecs if a != v] + [(v, n)]
        return st._replace(vecs=tuple(sorted(vs, key=repr)))

    def out_elem(self, n, st):
        """output[k] of an output list -> (vec, k)"""
        n = strip(n)
        while n is not None and n['k'] in ('ctor',) and len(n['c']) == 1:
            n = strip(n['c'][0])
        if n is None:
            return None
        if n['k'] == 'var':
            v = fget(st.env, (self.depth, n['v']))
            return v[1:] if v and v[0] == 'oref' else None
        if n['k'] in ('ocall', 'mcall') and n.get('f'):
            nm = self.P.D[n['f']]['n']
            if nm in ('operator[]', 'at'):
                v = self.vec_of(n['c'][0], st)
                if v is not None:
                    i = self.val(n['c'][1], st)
                    return (v, i[1] if i and i[0] == 'c' else None)
            if nm in ('front',):
                v = self.vec_of(n['c'][0], st)
                if v is not None:
                    return (v, 0)
        return None

    # -- declarations
    def declare(self, vd, st):
        k = (self.depth, vd['v'])
        t = self.Fn['locals'][vd['v']]['t'] if vd['v'] < len(self.Fn['locals']) else ''
        init = vd.get('init')
        bt = t.replace('const ', '').replace('&', '').strip()
        if bt.startswith('std::vector<') and ('Prototype' in bt):
            v = ('vec', self.depth, vd['v'], self.stack[-1] if self.stack else None)
            st = st._replace(env=fset(st.env, k, v))
            src = strip(init)
            n = None
            if src is None or (src['k'] == 'ctor' and not [c for c in src['c'] if c and c['k'] != 'defarg']):
                n = 0
            elif src['k'] == 'ctor' and src.get('c'):
                w = self.val(src['c'][0], st)
                n = w[1] if w and w[0] == 'c' else None
            return self.setvec(st, v, n)
        if init is None:
            return st._replace(env=fset(st.env, k, None))
        if t.endswith('&') or t.endswith('*') or bt == 'ts::Tensor::Prototype':
            if self.is_stack(init, st):
                return st._replace(env=fset(st.env, k, ('stack',)))
            o = self.out_elem(init, st)
            if o is not None:
                return st._replace(env=fset(st.env, k, ('oref',) + o))
        if bt.startswith('ts::need') or 'need' in bt:
            for m in walk(init):
                if m['k'] == 'fn' and self.P.D[m['f']]['qn'] == 'ts::Stack::pop_base':
                    return st._replace(env=fset(st.env, k, ('popbase',)))
        v = self.val(init, st)
        return st._replace(env=fset(st.env, k, v))

    def leave(self, vs, st):
        for v in vs:
            k = (self.depth, v['v'])
            if fget(st.env, k) == ('popbase',):
                st = self.pop_base(st)
            st = st._replace(env=fset(st.env, k, None))
        return st

    def range_var(self, n, st):
        return st._replace(env=fset(st.env, (self.depth, n['v']), None)) if 'v' in n else st

    def pop_base(self, st):
        if not st.frames:
            return st._replace(dead=True)
        lb, ub, p, px, pushes, low, size0 = st.frames[-1]
        ex = st.px is True and not st.dead and (st.ub == st.lb or st.lb == 0 and st.ub == 0)
        grown = st.lb + st.p - (size0 if size0 is not None else 0)
        if not ex or size0 is None:
            return st._replace(lb=lb, ub=ub, p=p, px=False, pushes=None, low=low, frames=st.frames[:-1], dead=st.dead)
        np = p + grown
        return st._replace(lb=lb, ub=ub, p=max(np, 0), px=px is True and np >= 0, pushes=pushes if grown == 0 else None,
                           low=low or np < 0, frames=st.frames[:-1])

    # -- refinement
    def refine(self, c, truth, st):
        n = strip(c)
        if n is None or n['k'] != 'bin' and n['k'] != 'mcall':
            return st
        if n['k'] == 'mcall' and n.get('f') and self.P.D[n['f']]['n'] == 'empty':
            return st
        if n['k'] != 'bin' or n['op'] not in ('==', '!=', '<', '<=', '>', '>='):
            return st
        a, b = self.val(n['c'][0], st), self.val(n['c'][1], st)
        op = n['op']
        if op in ('==', '!=') and truth == (op == '==') and a and b:
            if 'ro' in (a[0], b[0]) and 'c' in (a[0], b[0]):
                if st.px == 'ro':
                    k = a[1] if a[0] == 'c' else b[1]
                    return st._replace(p=st.p + k, px=True, pushes=(st.pushes or ()) + (('?',),) * k if st.p == len(st.pushes or ()) and k < 8 else None)
                return st
            if a[0] == b[0] and a[0] in ('D', 'H') and a[1] and b[1]:
                return st._replace(eqs=st.eqs | {(a[0],) + tuple(sorted((a[1], b[1]), key=repr))})
        if a and b and a[0] == 'c' and b[0] == 'c':
            r = {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '<=': a[1] <= b[1],
                 '>': a[1] > b[1], '>=': a[1] >= b[1]}[op]
            # constants of loop variables change: only known when the variable is not modified; env tracks it
            return st if r == truth else None
        if b and b[0] == 'sz' and (a is None or a[0] == 'c'):
            a, b = b, a
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
            swap = True
        else:
            swap = False
        if not truth:
            op = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
        if not (a and a[0] == 'sz'):
            return st
        other = n['c'][0] if swap else n['c'][1]
        if b is None or b[0] != 'c':
            # an index variable compared with the operand count: i < size()
            return st
        k = b[1] - a[1]     # N op k
        lb, ub = st.lb, st.ub
        if op == '==':
            lb, ub = max(lb, k), k if ub is None else min(ub, k)
        elif op == '!=':
            if lb == k:
                lb += 1
            if ub == k:
                ub -= 1
        elif op == '<':
            ub = k - 1 if ub is None else min(ub, k - 1)
        elif op == '<=':
            ub = k if ub is None else min(ub, k)
        elif op == '>':
            lb = max(lb, k + 1)
        elif op == '>=':
            lb = max(lb, k)
        if ub is not None and ub < lb:
            return None
        return st._replace(lb=max(lb, 0), ub=ub)

    def case_entry(self, sw, case, st):
        v = self.val(sw['cond'], st)
        if v and v[0] == 'sz' and case['k'] == 'case' and 'v' in case:
            k = case['v'] - v[1]
            if k < st.lb or (st.ub is not None and k > st.ub):
                return None
            return st._replace(lb=k, ub=k)
        return st

    # -- effects
    def access(self, n, idx, st):
        """stack[idx] / stack.index(idx)"""
        E = self.evn
        fid = self.stack[-1]
        v = self.val(idx, st)
        if st.dead:
            E.ob('untracked')
            return st
        if v is None or v[0] != 'c':
            if v and v[0] == 'sz' and v[1] <= st.p - 1 and v[1] >= -st.lb:
                E.ob('access')
                return st
            E.ob('variable index')
            return st
        i = v[1]
        if i >= 0:
            if st.lb >= i + 1 and not st.low:
                E.ob('access')
                return st
            if st.p == 0 and st.px is True and not st.low:
                E.ob('access')          # the bounds-checked accessor throws when the operand is missing
                return st._replace(lb=max(st.lb, i + 1)) if st.ub is None or st.ub >= i + 1 else None
            if st.low:
                E.ob('after pop')
                return st
            if st.ub is not None and i >= st.ub:
                E.ob('access')          # deliberately a tensor pushed here
                return st
            E.ob('access')
            E.report('operand', fid, n.get('l'), 'stack[%d]' % i,
                     'operand %d is used after %s tensor(s) were pushed, but only %d operand(s) are known to be supplied: '
                     'without it the access hits a tensor the operator pushed itself' % (i, st.p if st.px is True else 'some', st.lb))
            return st
        if st.lb + st.p >= -i:
            E.ob('access')
            return st
        E.ob('access')
        E.report('below', fid, n.get('l'), 'stack[%d]' % i,
                 'index %d counts from the top, but only %d tensor(s) are known to be there: it can reach the caller\'s tensors'
                 % (i, st.lb + st.p))
        return st

    def take(self, n, k, st, what):
        """k tensors leave the top of the stack"""
        E = self.evn
        if st.dead:
            E.ob('untracked')
            return st
        E.ob('removal')
        if st.lb + st.p < k:
            E.report('below', self.stack[-1], n.get('l'), what,
                     '%s removes %d tensor(s), but only %d are known to be there' % (what, k, st.lb + st.p))
            return st._replace(dead=True)
        if st.px == 'ro':
            st = st._replace(px=False)
        if st.p >= k:
            return st._replace(p=st.p - k, pushes=st.pushes[:len(st.pushes) - k] if st.pushes is not None and len(st.pushes) >= k else None)
        if st.px is not True:
            return st._replace(p=0, low=True, pushes=None)
        d = k - st.p
        return st._replace(p=0, pushes=(), lb=st.lb - d, ub=None if st.ub is None else st.ub - d, low=st.low or False)

    def on(self, n, st):
        k = n['k']
        if k == 'ocall' and n.get('op') == '=' and len(n['c']) == 2:
            o = self.out_elem(n['c'][0], st)
            if o is not None:
                v = self.val(n['c'][1], st)
                return self.setout(st, o, (v[1], v[2]) if v and v[0] in ('P', 'T') else (None, None))
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var':
                kk = (self.depth, l['v'])
                old = fget(st.env, kk)
                if not (old and old[0] in ('vec', 'stack', 'popbase', 'oref')):
                    return st._replace(env=fset(st.env, kk, self.val(n['c'][1], st)))
        if k == 'asg':
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var':
                kk = (self.depth, l['v'])
                old = fget(st.env, kk)
                if old and old[0] in ('vec', 'stack', 'popbase', 'oref'):
                    return st
                v = self.val(n['c'][1], st) if n['op'] == '=' else None
                return st._replace(env=fset(st.env, kk, v))
            return st
        if k == 'un' and n['op'] in ('++', '--', 'p++', 'p--', '++p', '--p', '_++', '_--'):
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var':
                return st._replace(env=fset(st.env, (self.depth, l['v']), None))
            return st
        if k not in ('mcall', 'ocall', 'call', 'ctor', 'new'):
            return st
        f = n.get('f')
        d = self.P.D.get(f) if f else None
        if d is None:
            return self.opaque(n, st)
        qn = d['qn']
        if k in ('mcall', 'ocall') and n['c'] and self.is_stack(n['c'][0], st):
            return self.stack_op(n, d, st)
        if k in ('mcall', 'ocall') and n['c']:
            v = self.vec_of(n['c'][0], st)
            if v is not None:
                return self.vec_op(n, d, v, st)
            l = strip(n['c'][0])
            if l is not None and l['k'] == 'var' and not d.get('const'):
                x = fget(st.env, (self.depth, l['v']))
                if x and x[0] == 'H':       # a shape being changed, or an element of it handed out for writing
                    st = st._replace(env=fset(st.env, (self.depth, l['v']), None))
        if k in ('mcall', 'ocall') and n['c'] and d.get('cls') == 'ts::Tensor' and d['n'] in ('pack', 'operator=', 'swap') and st.pushes:
            l = strip(n['c'][0])
            if l is not None and not (l['k'] == 'var' and l['v'] < len(self.Fn['locals']) and self.Fn['locals'][l['v']]['t'][-1] not in '&*'):
                st = st._replace(pushes=(('?',),) * len(st.pushes))     # a result may have been replaced in place
        args = n['c'][1:] if k == 'mcall' else n['c']
        touch = [i for i, a in enumerate(args) if a is not None and (self.is_stack(a, st) or self.vec_of(a, st) is not None)]
        if touch:
            return self.enter(n, f, d, args, st)
        return st

    def opaque(self, n, st):
        for a in n.get('c', ()):
            if a is not None and self.is_stack(a, st):
                return st._replace(dead=True)
        return st

    def desc(self, args, st):
        """What a tensor made or pushed by the stack is: ('mk', dtype, shape, entry of the announced outputs)."""
        a = [x for x in args if x is not None and x['k'] != 'defarg']
        if not a:
            return ('?',)
        o = self.out_elem(a[0], st)
        v = self.val(a[0], st)
        if o is not None:
            e = fget(st.outs, o) or (None, None)
            return ('mk', e[0], e[1], o[1])
        if v and v[0] in ('T', 'P'):
            return ('mk', v[1], v[2], None)
        if v and v[0] == 'D':
            h = self.val(a[1], st) if len(a) > 1 else None
            return ('mk', v[1], h[1] if h and h[0] == 'H' else None, None)
        if len(a) > 1:
            h = self.val(a[1], st)
            if h and h[0] == 'H':
                return ('mk', None, h[1], None)
            if h and h[0] == 'P':   # (in_flow, proto)
                return ('mk', h[1], h[2], None)
        return ('mk', None, None, None)

    def push(self, st, d):
        if st.px == 'ro':
            return st._replace(p=st.p + 1, px=False, pushes=None)
        return st._replace(p=st.p + 1, pushes=st.pushes + (d,) if st.pushes is not None and len(st.pushes) < 12 else None)

    def stack_op(self, n, d, st):
        m = d['n']
        a = [x for x in n['c'][1:]]
        E = self.evn
        if m in ('operator[]', 'index'):
            return self.access(n, a[0], st)
        if m in ('push', 'clone_push'):
            return self.push(st, self.desc(a, st))
        if m == 'top':
            if st.dead:
                E.ob('untracked')
                return st
            E.ob('access')
            if st.lb + st.p < 1:
                E.report('below', self.stack[-1], n.get('l'), 'top', 'top() although the operator may have no tensor on the stack')
            return st
        if m == 'pop':
            v = self.val(a[0], st) if a else ('c', 1)
            if v and v[0] == 'c':
                return self.take(n, v[1], st, 'pop')
            return st._replace(dead=True)
        if m == 'erase':
            v = [self.val(x, st) for x in a]
            if len(v) == 1 and v[0] == ('c', -1):
                return self.take(n, 1, st, 'erase(-1)')
            return st._replace(dead=True)
        if m == 'clear':
            return st._replace(lb=0, ub=0, p=0, px=True, pushes=(), low=False, dead=False)
        if m == 'push_base':
            v = self.val(a[0], st)
            if v is None or v[0] != 'c' or st.dead:
                if v and v[0] == 'sz' and st.px is True and not st.low and v[1] == st.p:
                    return self.frame(st, None, 0)
                fr = (st.lb, st.ub, st.p, st.px, st.pushes, st.low, None)
                return st._replace(frames=st.frames + (fr,), dead=True)
            i = v[1]
            E.ob('frame')
            if i < 0:
                if st.lb + st.p < -i:
                    E.report('below', self.stack[-1], n.get('l'), 'push_base(%d)' % i, 'the new frame starts below the operator\'s own tensors')
                return st._replace(dead=True, frames=st.frames + ((st.lb, st.ub, st.p, st.px, st.pushes, st.low, None),))
            if st.lb + st.p < i:
                E.report('below', self.stack[-1], n.get('l'), 'push_base(%d)' % i,
                         'the new frame starts at %d, but only %d tensor(s) are known to be on the stack' % (i, st.lb + st.p))
            exact = st.px is True and st.lb == st.ub
            return self.frame(st, st.lb + st.p - i if exact else None, None)
        if m == 'pop_base':
            return self.pop_base(st)
        return st

    def frame(self, st, size, _):
        fr = (st.lb, st.ub, st.p, st.px, st.pushes, st.low, size if size is not None else (0 if _ == 0 else None))
        n = size if size is not None else 0
        return st._replace(lb=n, ub=n if (size is not None or _ == 0) else None, p=0, px=True, pushes=(), low=False, frames=st.frames + (fr,))

    def setout(self, st, o, v):
        if o[1] is None:
            return st._replace(outs=tuple(x for x in st.outs if x[0][0] != o[0]))
        return st._replace(outs=fset(st.outs, o, v))

    def vec_op(self, n, d, v, st):
        m = d['n']
        a = n['c'][1:]
        cur = fget(st.vecs, v)
        if m in ('resize', 'assign'):
            w = self.val(a[0], st) if a else None
            return self.setvec(st, v, w[1] if w and w[0] == 'c' else (('e', key(a[0])) if a and False else None))
        if m == 'clear':
            return self.setvec(st, v, 0)
        if m in ('push_back', 'emplace_back'):
            if isinstance(cur, int):
                v0 = self.val(a[0], st) if a else None
                if len(a) == 2:
                    v1 = self.val(a[1], st)
                    e = (v0[1] if v0 and v0[0] == 'D' else None, v1[1] if v1 and v1[0] == 'H' else None)
                else:
                    e = (v0[1], v0[2]) if v0 and v0[0] in ('P', 'T') else (None, None)
                st = self.setout(st, (v, cur), e)
            return self.setvec(st, v, cur + 1 if isinstance(cur, int) and cur < 16 else None)
        if m == 'pop_back':
            return self.setvec(st, v, cur - 1 if isinstance(cur, int) else None)
        if m in ('operator[]', 'at', 'front', 'back'):
            o = self.out_elem(n, st)
            if o is not None and o[1] is not None and isinstance(cur, int):
                self.evn.ob('announced')
                if o[1] >= cur:
                    self.evn.report('announced', self.stack[-1], n.get('l'), 'output[%s]' % o[1],
                                    'entry %d of the announced outputs is used, but only %d were announced' % (o[1], cur))
            return st
        if m in ('insert', 'erase', 'swap', 'operator='):
            if m == 'operator=' and len(a) == 1:
                src = strip(a[0])
                if src is not None and src['k'] in ('init', 'ctor'):
                    c = src.get('c') or []
                    if src['k'] == 'init':
                        return self.setvec(st, v, len(c))
                w = self.vec_of(a[0], st)
                if w is not None:
                    return self.setvec(st, v, fget(st.vecs, w))
            return self.setvec(st, v, None)
        return st

    # -- calls
    def enter(self, n, f, d, args, st):
        P = self.P
        qn = d['qn']
        if qn in ('ts::RunOperator', 'ts::InferOperator'):
            v = self.val(args[2], st)
            if v and v[0] == 'c' and not st.dead:
                st = self.take(n, v[1], st, d['n'])
            else:
                st = st._replace(dead=True)
            if qn.endswith('RunOperator'):
                return st._replace(px='ro' if st.px is True else False, pushes=None if st.pushes else st.pushes)
            return self.setlast(args, st)
        onthis = n['k'] == 'mcall' and strip(n['c'][0]) is not None and strip(n['c'][0])['k'] == 'this'
        g = f
        if n['k'] == 'mcall' and n.get('virt'):
            if not onthis:
                return self.havoc(args, st)
            g = self.resolve(f)
        elif n['k'] in ('ctor', 'new', 'ocall'):
            if any(a is not None and self.is_stack(a, st) for a in args):
                # a helper object keeping a reference to the stack (ts::need): handled at its declaration
                return st
            return st
        B = P.body_of(g)
        if B is None or len(self.stack) >= self.DEPTH or g in self.stack:
            return self.havoc(args, st)
        r = self.inline(g, B, args, st)
        return r if r is not None else None

    def setlast(self, args, st):
        for a in args:
            v = self.vec_of(a, st) if a is not None else None
            if v is not None:
                st = self.setvec(st, v, None)
        return st

    def havoc(self, args, st):
        for a in args:
            if a is None:
                continue
            if self.is_stack(a, st):
                st = st._replace(dead=True)
            v = self.vec_of(a, st)
            if v is not None:
                st = self.setvec(st, v, None)
        return st

    def inline(self, g, B, args, st):
        """Analyse the callee in the caller's state; returns the joined exit state (None = it never returns)."""
        D = self.depth + 1
        env = ()
        for i, pi in enumerate(B['ps']):
            if i >= len(args):
                break
            a = args[i]
            if a is None:
                continue
            if self.is_stack(a, st):
                env = fset(env, (D, pi), ('stack',))
            elif self.vec_of(a, st) is not None:
                env = fset(env, (D, pi), self.vec_of(a, st))
            else:
                v = self.val(a, st)
                if v is not None:
                    env = fset(env, (D, pi), v)
        mk = (g, self.cls, st._replace(env=env, frames=()), D)
        if mk in self.memo:
            out = self.memo[mk]
        else:
            save = (self.exits, self.loops, self.scopes, self.trys, self.Fn)
            self.depth = D
            self.stack.append(B['id'])
            ex = self.run(B, st._replace(env=env, frames=()))
            self.stack.pop()
            self.depth = D - 1
            self.exits, self.loops, self.scopes, self.trys, self.Fn = save
            out = None
            for kind, node, s in ex:
                if kind in ('ret', 'fall'):
                    out = self.J(out, s._replace(env=()))
            self.memo[mk] = out
        if out is None:
            return None
        return out._replace(env=st.env, frames=st.frames)

    def root(self, fid):
        """Run method fid of the class; returns its exits [(kind, node, state)]."""
        B = self.P.body_of(fid)
        self.depth = 0
        env = ()
        st = start()
        d = self.P.D[fid]
        for i, pi in enumerate(B['ps']):
            t = d['ps'][i]['t']
            if 'ts::Stack' in t:
                env = fset(env, (0, pi), ('stack',))
            elif 'vector' in t and 'Prototype' in t:
                v = ('vec', 0, pi, fid)
                env = fset(env, (0, pi), v)
                st = self.setvec(st, v, 0)
        self.stack = [fid]
        return self.run(B, st._replace(env=env))


def concrete(P):
    """Operator classes with a body for run and for infer, with the function each resolves to."""
    base = None
    out = {}
    root = P.need_rec('ts::Operator')
    ids = {}
    for f in P.find('ts::Operator::run') + P.find('ts::Operator::infer'):
        d = P.D[f]
        if d.get('virt'):
            ids[d['n']] = f
    if set(ids) != {'run', 'infer'}:
        raise AnalysisError('anchor vanished: virtual ts::Operator::run/infer')
    for c in sorted(P.all_derived('ts::Operator')):
        o = Ops(P, c, None, {}, None)
        r = {}
        for m, f in ids.items():
            g = o.resolve(f)
            if P.body_of(g) is not None and not P.D[g].get('pure'):
                r[m] = g
        if r:
            out[c] = r
    return out

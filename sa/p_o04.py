"""O04: running an operator never modifies its operands, the parameters it was made from, or constants."""
import sys
from .program import AnalysisError
from .mem import Mem, E

ENTRY = ('run', 'infer')


def memory(P):
    sys.setrecursionlimit(20000)
    M = getattr(P, '_mem', None)
    if M is None:
        M = P._mem = Mem(P)
        for fid, d, F in P.functions(lambda d: not d.get('dep') and d.get('file', '').startswith(('src', 'include'))):
            M.summary(fid)
    return M


def operators(P):
    """Classes that derive from ts::Operator, with all their bases."""
    sub = set()
    for n in P.R:
        if 'ts::Operator' in bases(P, n):
            sub.add(n)
    return sub


def bases(P, n, seen=None):
    out = set()
    r = P.R.get(n)
    for b in (r or {}).get('bases', ()):
        t = b['t']
        if t not in out:
            out.add(t)
            out |= bases(P, t)
    return out


def where(chain):
    return chain[-1][chain[-1].rindex('(') + 1:-1]


def show(chain):
    return ' -> '.join(chain)


def reach(s, sym):
    """A write of the summary that may reach what sym leads to: directly, or through a member that was made to lead there."""
    if sym in s.writes:
        return sym
    for w in s.writes:
        if w[0] in ('fld', 'in'):
            seen, todo = set(), [w[1]]
            while todo:
                q = todo.pop()
                if q in seen:
                    continue
                seen.add(q)
                for o in s.stores.get(('fld', q), ()):
                    if o == sym:
                        return w
                    if o[0] in ('fld', 'in'):
                        todo.append(o[1])
    return None


def check(P, R):
    R.rule('O04.operand', 'Nothing an operator does while it runs or infers its output (its own code, the kernels it calls, helpers, virtual '
                          'implementations) stores through memory reached from the stack it was given; results and scratch tensors it makes itself are its own.')
    R.rule('O04.kept', 'Nothing an operator stores through one of its members can reach an operand or a parameter value that was put into that member.')
    R.rule('O04.const', 'No function stores through the memory of a parameter value or constant held by an operator or a graph node.')
    R.rule('O04.instr', 'No instruction stores through memory reached from the workbench it is given.')
    M = memory(P)
    ops = operators(P) | {'ts::Operator'}
    per = {}
    n_op = 0
    for fid, d, F in P.functions(lambda d: not d.get('dep') and d.get('file', '').startswith(('src', 'include'))):
        s = M.summary(fid)
        if s is None:
            continue
        cls = d.get('cls') or ''
        loc = P.loc(fid)
        if d['n'] in ENTRY and d.get('ps') and d['ps'][0]['t'] == 'ts::Stack &':
            n_op += 1
            R.ob('O04.operand', '%s: operands of %s stay as they are' % (loc, d['qn']))
            hit = reach(s, ('p', 0))
            if hit:
                path = M.chain(fid, hit)
                R.bad('O04.operand', d['qn'], where(path), '%s changes memory of its operands: %s' % (d['qn'], show(path)))
        if d['n'] == 'run' and 'ts::Instruction' in bases(P, cls) and d.get('ps') and d['ps'][0]['t'] == 'ts::Workbench &':
            R.ob('O04.instr', '%s: %s' % (loc, d['qn']))
            hit = reach(s, ('p', 0))
            if hit:
                path = M.chain(fid, hit)
                R.bad('O04.instr', d['qn'], where(path), '%s changes memory of the tensors of the workbench: %s' % (d['qn'], show(path)))
        if cls in ops:
            per.setdefault(cls, []).append((fid, d, s))
        if ('get',) in s.writes and not s.writes[('get',)][2]:
            R.bad('O04.const', d['qn'], P.loc(fid, s.writes[('get',)][1]), '%s stores through the memory of a parameter value' % d['qn'])
        R.ob('O04.const')
    # members that lead to operands or parameters after some operator function
    tainted = {}
    fns = [x for v in per.values() for x in v]
    for fid, d, s in fns:
        for w, o in s.stores.items():
            if isinstance(w, tuple) and w[0] == 'fld' and w[1].startswith('ts::') or isinstance(w, tuple) and w[1].rpartition('::')[0] in ops:
                for sym in o:
                    if sym == ('get',) or sym == ('p', 0) and d['n'] in ENTRY:
                        tainted.setdefault(w[1], (d, sym))
    for q, (d, sym) in sorted(tainted.items()):
        R.ob('O04.kept', '%s: %s makes %s lead to %s' % (P.loc(d['id']), d['qn'], q, 'an operand' if sym[0] == 'p' else 'a parameter value'))
    for fid, d, s in fns:
        for sym in s.writes:
            if sym[0] in ('fld', 'in') and sym[1] in tainted:
                td, ts = tainted[sym[1]]
                what = 'an operand' if ts[0] == 'p' else 'a parameter value'
                path = M.chain(fid, sym)
                R.bad('O04.kept', '%s %s' % (d['qn'], sym[1]), where(path), '%s stores through %s, which %s made lead to %s: %s'
                      % (d['qn'], sym[1], td['qn'], what, show(path)))
    R.floor('O04.operand', 100)
    R.floor('O04.instr', 3)
    R.floor('O04.kept', 1)

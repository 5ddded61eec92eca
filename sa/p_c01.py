"""C01: compiling or translating a module leaves the module, its nodes and its constants as they were."""
import re, sys
from .program import walk, AnalysisError
from .sem import strip
from . import mem
from .mem import Mem, Walk, E, bare
from .p_o04 import memory, where, show, reach

NODE = re.compile(r'\bts::(Node|Module|LinkedValue<.*>|LinkedBubble|api::Module)\b|\bts_Module\b')
KEYED = ('std::unordered_map<', 'std::map<', 'std::multimap<')


_c = {}


def carries(t):
    """Values of this type lead to graph nodes or modules."""
    r = _c.get(t)
    if r is None:
        r = bool(NODE.search(t or '')) or bool(re.search(r'\bts::Bubble( const)? ?[&*]', t or ''))
        _c[t] = r
    return r


def unkey(o):
    return frozenset(x for x in o if x[0] != 'k')


def keys(o):
    r = set()
    for x in o:
        if x[0] == 'k':
            r |= set(x[1])
    return frozenset(r)


class Graphs(Mem):
    """The same analysis over graph nodes and modules instead of tensor memory. A module's own lists and what its nodes are count as
    one thing, but a module made here from given nodes is ours: its nodes appear as ('c', origins)."""
    carries = staticmethod(carries)

    def __init__(self, P):
        super().__init__(P)
        self.walker = GWalk


class GWalk(Walk):
    def write(self, syms, n, nxt=None):
        super().write([s for s in syms if s[0] not in ('k', 'c')], n, nxt)

    def org(self, n, st):
        m = strip(n)
        if m is not None and m['k'] == 'mem' and m.get('c') and m['q'].startswith('std::pair<'):
            o = self.org(m['c'][0], st)
            if m['q'].endswith('::second'):
                return unkey(o)
            return keys(o)
        if m is not None and m['k'] == 'mem' and m.get('c') and m['q'].endswith(('::first', '::second')) and m['q'].startswith('std::'):
            o = self.org(m['c'][0], st)
            return unkey(o) if m['q'].endswith('::second') else keys(o)
        return super().org(n, st)

    def subst(self, sym, n, obj, args, st):
        if sym[0] in ('k', 'c'):
            o = set()
            for x in sym[1]:
                o |= self.subst(x, n, obj, args, st)
            o = unkey(frozenset(o)) if sym[0] == 'k' else frozenset(o)
            return frozenset([(sym[0], o)]) if o else E
        return super().subst(sym, n, obj, args, st)

    def subst_write(self, sym, n, obj, args, st):
        if sym[0] in ('k', 'c'):
            return self.subst(sym, n, obj, args, st)
        return super().subst_write(sym, n, obj, args, st)

    def pair(self, c, st):
        k, v = self.org(c[0], st), self.org(c[1], st)
        return unkey(v) | (frozenset([('k', unkey(k))]) if unkey(k) else E)

    def call_org(self, n, st):
        d = self.P.D.get(n.get('f')) if n.get('f') else None
        c = n.get('c', ())
        if d is not None and len(c) == 2:
            if d['qn'] == 'std::make_pair' or n['k'] == 'ctor' and bare(n.get('t') or d.get('cls')).startswith('std::pair<'):
                return self.pair(c, st)
        if n['k'] == 'ocall' and n['op'] == '[]' and c and bare(self.typ(c[0])).startswith(KEYED):
            return unkey(self.org(c[0], st))
        if n['k'] == 'ocall' and n['op'] in ('->', '*') and d is not None and (d.get('cls') or '') == 'ts::Node' and c:
            return self.org(c[0], st)
        if n['k'] == 'mcall' and d is not None and d['n'] == 'at' and c and bare(self.typ(c[0])).startswith(KEYED):
            return unkey(self.org(c[0], st))
        return super().call_org(n, st)

    def model_org(self, n, d, c, cls, name, ret, st):
        if cls in ('ts::Node', 'ts::Module') or cls.startswith('ts::LinkedValue<'):
            if d.get('static'):
                if not carries(ret):
                    return E
                o = E
                for a in c:
                    if carries(self.typ(a)):
                        o |= self.org(a, st)
                if cls == 'ts::Module' and name == 'Load':
                    return frozenset([('c', unkey(o))]) if unkey(o) else E
                return None
            if n['k'] == 'mcall' and c:
                o = self.org(c[0], st)
                if cls == 'ts::Module':
                    r = set()
                    for x in o:
                        if x[0] == 'c':
                            r |= set(x[1])
                        else:
                            r.add(x)
                    o = frozenset(r)
                return o if carries(ret) or ret.rstrip().endswith('&') else E
            return None
        if cls == 'ts::Graph':
            if name == 'nodes':
                return E
            return E
        if cls == 'ts::Bubble':
            return E
        return None

    def model_effect(self, n, d, c, cls, name, st):
        if cls == 'ts::Node' and d.get('static') and name in ('Link', 'ReplaceOutput'):
            for a in c:
                self.write(self.org(a, st), n)
            return st
        if cls == 'ts::Module' and n['k'] == 'mcall':
            if not d.get('const'):
                self.write(self.org(c[0], st), n)
                b = strip(c[0])
                if name == 'load':
                    for a in c[1:]:
                        if carries(self.typ(a)):
                            o = self.org(a, st)
                            if o:
                                st = self.store_into(c[0], frozenset([('c', unkey(o))]), st)
            return st
        if cls == 'ts::Bubble' or cls == 'ts::Node' and n['k'] == 'mcall':
            if cls == 'ts::Bubble' and n['k'] in ('mcall', 'ocall') and not d.get('const') and not d.get('ctor') and not d.get('dtor') and not d.get('static') and c:
                if name not in ('begin', 'end', 'operator*', 'operator->'):
                    self.write(self.place(c[0], st), n)
            return st
        if cls == 'ts::Graph':
            return st
        return None

    def place(self, x, st):
        """The nodes whose bubble an expression designates (empty: an object of this function)."""
        x = strip(x)
        if x is not None and x['k'] == 'un' and x['op'] == '*':
            return self.org(x['c'][0], st)
        return self.lvalue_base(x, st)

    def assign(self, lhs, rhs, n, st, plain=True):
        l = strip(lhs)
        t = bare((l or {}).get('t') or '')
        if l is not None and l['k'] != 'var' and not carries(t) and t != 'ts::Bubble':
            return st
        return super().assign(lhs, rhs, n, st, plain)

    def small(self, t):
        return False


def check(P, R):
    R.rule('C01.graph', 'Nothing that takes a module (other than the module\'s own changing members) changes the nodes reached from it: no parameter is '
                        'set on them, no link is made to or from them, and their lists of inputs are not replaced, in the function or anything it '
                        'calls, including every translation option behind the virtual calls.')
    R.rule('C01.handle', 'The same for the C and C++ interface functions that are handed a module.')
    R.rule('C01.data', 'No function stores through tensor memory shared with the parameter values of a node or operator: what compilation changes are copies.')
    sys.setrecursionlimit(20000)
    G = Graphs(P)
    for fid, d, F in P.functions(lambda d: not d.get('dep') and d.get('file', '').startswith(('src', 'include'))):
        if d.get('cls') in ('ts::Node', 'ts::Graph') or (d.get('cls') or '').startswith('ts::LinkedValue<'):
            continue
        s = G.summary(fid)
        if s is None:
            continue
        ps = d.get('ps') or ()
        for i, p in enumerate(ps):
            t = p['t']
            if re.search(r'\bts::Module\b', t) and not d.get('ctor'):
                rule = 'C01.graph'
            elif re.search(r'\bts_Module\b|\bts::api::Module\b', t) and not re.match(r'ts_Module_(sort|load|set|free|clear)|ts_free_Module', d['n']):
                rule = 'C01.handle'
            else:
                continue
            R.ob(rule, '%s: %s leaves the module given as %s as it is' % (P.loc(fid), d['qn'], p.get('n') or 'parameter %d' % i))
            hit = reach(s, ('p', i))
            if hit:
                path = G.chain(fid, hit)
                R.bad(rule, '%s %d' % (d['qn'], i), where(path), '%s changes the module it is given: %s' % (d['qn'], show(path)))
    M = memory(P)
    for fid, d, F in P.functions(lambda d: not d.get('dep') and d.get('file', '').startswith(('src', 'include'))):
        s = M.summary(fid)
        if s is None:
            continue
        R.ob('C01.data')
        w = s.writes.get(('get',))
        if w and not any(y == ('get',) for x, y in w[2] or ()):
            R.bad('C01.data', d['qn'], P.loc(fid, s.writes[('get',)][1]), '%s stores through the memory of a parameter value' % d['qn'])
    R.floor('C01.graph', 10)
    R.floor('C01.handle', 5)

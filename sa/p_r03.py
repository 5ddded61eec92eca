"""R03: state shared between threads is only touched under its lock."""
import re
from .program import walk, children, AnalysisError
from .sem import strip
from . import locks
from .locks import Locks, Held, plain, lock_types, parents, is_write, READS

# member -> the lock that protects it (class and template arguments left out)
GUARDED = {
    'ts::ThreadPool::running_core': 'ts::ThreadPool::running_core_mutex',
    'ts::Thread::task': 'ts::Thread::task_mutex',
    'ts::Thread::after_task': 'ts::Thread::task_mutex',
    'ts::Thread::signet': 'ts::Thread::task_mutex',
    'ts::rwmutex::m_read_count': 'ts::rwmutex::m_mutex_counter',
    'ts::rwmutex::m_write_count': 'ts::rwmutex::m_mutex_counter',
    'ts::rwmutex::m_writing': 'ts::rwmutex::m_mutex_counter',
    'ts::SyncBlock::Param::m_sync_values': 'ts::SyncBlock::m_mutex',
    'ts::SyncBlock::m_default_value': 'ts::SyncBlock::m_mutex',
    'ts::Switcher::m_is_loaded': 'ts::Switcher::m_switcher_mutex',
}
SAFE = re.compile(r'^(const |volatile )*(std::(atomic|mutex|recursive_mutex|condition_variable|once_flag|thread)\b|std::atomic_|ts::rwmutex)')
SETUP = re.compile(r'^(Register\w*|Clear|flush|operator=)$')


def check(P, R):
    R.rule('R03.guard', 'Every access to a member that a lock protects (listed, or written under a lock of its own class somewhere) is made while '
                        'that lock is held on every path, exclusively for writes; constructors, destructors, moves and objects made in the '
                        'same function are exempt.')
    R.rule('R03.static', 'Every object of static storage that is changed after initialisation is thread-local, atomic, only changed by registration '
                         'functions, or only used while one lock is held.')
    R.rule('R03.count', 'The counters shared by tensor handles are atomic, and the handle that destroys is decided by the value the decrement returned.')
    R.rule('R03.const', 'Tensors of the constants a program shares with its clones are handed out as uncounted views, their memory is created '
                        'with its lock, and nothing is added to them after compilation.')
    R.rule('R03.instr', 'Instructions shared by cloned programs (all but operators, which are cloned) change no member when run; the operator of '
                        'a clone is made anew.')
    R.rule('R03.task', 'A loop body run in parallel changes no variable shared by its iterations, except array elements chosen by the iteration, '
                       'reductions and private copies.')
    R.rule('R03.rw', 'The reader-writer lock lets a reader in only where it knows no writer is inside and a writer only where it knows nobody is, '
                     'and each release undoes exactly what taking the lock did, on every path.')
    L = Locks(P)
    guard(P, R, L)
    static(P, R, L)
    count(P, R)
    const(P, R)
    instr(P, R)
    task(P, R)
    from .p_r04 import waits, exclusion
    from .report import Report
    exclusion(P, R, waits(P, Report('R03')))
    R.floor('R03.rw', 4)


def classes_with_locks(P):
    out = {}
    for n, r in P.R.items():
        ls = [f['n'] for f in r['fields'] if lock_types(f['t'])]
        if ls:
            out.setdefault(plain(n), (r, ls))
    return out


def guard(P, R, L):
    C = classes_with_locks(P)
    owners = set(C) | {'ts::SyncBlock::Param'}
    for f, l in GUARDED.items():
        if f.rsplit('::', 1)[0] in owners or any(plain(n) == f.rsplit('::', 1)[0] for n in P.R):
            pass
    types = {}
    for n, r in P.R.items():
        p = plain(n)
        if p in owners:
            for f in r['fields']:
                types[p + '::' + f['n']] = f['t']

    def tracked(n, F):
        if n['k'] != 'mem':
            return None
        q = plain(n['q'])
        if q not in types or lock_types(types[q]) or SAFE.match(types[q]) or types[q].startswith('const '):
            return None
        return q

    fns = []
    for fid, d, F in P.functions():
        if d.get('dep') or not (d['file'].startswith('src') or d['file'].startswith('include')):
            continue
        if any(n['k'] == 'mem' and tracked(n, F) for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ())])):
            fns.append((fid, d, F))
    if len(fns) < 10:
        raise AnalysisError('anchor vanished: classes with locks')
    canon = lambda f: P.D[f].get('pat') or f if f in P.D else f     # instantiations of one template are one function
    ids = {f[0] for f in fns}
    # locks held on entry: a member function that is not public is only reached from its class
    private = {canon(fid) for fid, d, F in fns if d.get('acc') in (1, 2) and not d.get('virt') and not d.get('ctor')}
    callers = {}
    for fid, d, F in P.functions():
        for n in walk([F['body']]):
            if n.get('f') and canon(n['f']) in private and n['k'] in ('call', 'mcall'):
                callers.setdefault(canon(n['f']), set()).add(fid)
            if n['k'] == 'fn' and n.get('f') and canon(n['f']) in private:
                private.discard(canon(n['f']))
    TOP = None
    entry = {f: (TOP if f in private and callers.get(f) else frozenset()) for f in ids | private}
    extra = set()
    for f in private:
        extra |= callers.get(f, set())
    work = ids | extra
    for rnd in range(6):
        seen = {f: None for f in private}
        results = {}
        for fid in work:
            B = P.body_of(fid)
            if B is None or P.D[fid].get('dep'):
                continue
            e = entry.get(canon(fid), frozenset())
            e = frozenset() if e is None and canon(fid) not in private else e
            if e is None:
                continue
            h = Held(P, L, tracked, (e, e))
            h.go(fid)
            results[fid] = h
            for callee, must, may, n in h.calls:
                callee = canon(callee) if isinstance(callee, int) or isinstance(callee, str) else callee
                if callee in seen:
                    must = frozenset((l, x, 'entry') for l, m, v in must for x in ('R', m))
                    seen[callee] = must if seen[callee] is None else seen[callee] & must
        new = dict(entry)
        for f in private:
            if seen.get(f) is not None:
                new[f] = seen[f]
            elif entry[f] is None and rnd >= 2:
                new[f] = frozenset()
        if new == entry and all(f in results for f in ids):
            break
        entry = new
    # a private function only run while the object is made or destroyed
    early = set()
    for f in sorted(private):
        cs = callers.get(f, set())
        if cs and all( (P.D[c].get('ctor') or P.D[c].get('dtor') or canon(c) in early or only_on_new(P, c, f, canon)) for c in cs):
            early.add(f)
    # members written under a lock of their own class
    inferred = {}
    nacc = 0
    for fid, h in results.items():
        for key, wr, must, n, f, fresh in h.acc:
            if wr and key not in GUARDED and not exempt(P, f, key, n) and not fresh and canon(f) not in early:
                for l, m, v in must:
                    if isinstance(l, str) and plain(l).rsplit('::', 1)[0] == key.rsplit('::', 1)[0]:
                        inferred.setdefault(key, plain(l))
    R.extra['members_with_inferred_lock'] = sorted(inferred)
    seenkey = set()
    for fid, h in sorted(results.items()):
        for key, wr, must, n, f, fresh in h.acc:
            lk = GUARDED.get(key) or inferred.get(key)
            if lk is None:
                continue
            seenkey.add(key)
            if fresh or canon(f) in early or exempt(P, f, key, n):
                continue
            R.ob('R03.guard', '%s in %s' % (key, P.D[f]['qn']))
            held = [m for l, m, v in must if isinstance(l, str) and plain(l) == lk]
            if not held or wr and 'W' not in held:
                R.bad('R03.guard', '%s|%s' % (plain(P.D[f]['qn']), key), P.loc(f, n.get('l')), '%s %s %s%s %s'
                      % (P.D[f]['qn'], 'changes' if wr else 'reads', key, ' with only a shared hold of' if held else ' without holding', lk))
    for key in GUARDED:
        if key not in seenkey and key.rsplit('::', 1)[0] in {plain(n) for n in P.R} and types.get(key) and not SAFE.match(types[key]):
            R.extra.setdefault('listed_members_never_accessed', []).append(key)
    share(P, R)
    R.floor('R03.guard', 20)


def share(P, R):
    """An object that is given state guarded by a shared lock is given the lock too."""
    for n, r in sorted(P.R.items()):
        lk = [f['n'] for f in r['fields'] if lock_types(f['t']) and 'shared_ptr' in f['t']]
        st = [f['n'] for f in r['fields'] if 'shared_ptr' in f['t'] and not lock_types(f['t'])
              and any(k.rsplit('::', 1)[0].startswith(plain(n) + '::') for k in GUARDED)]
        if not lk or not st:
            continue
        for fid, d, F in P.functions(lambda d: not d.get('dep') and plain(d.get('cls') or '') == plain(n)):
            par = parents(F['body'])
            asg = []
            for x in walk(F['body']):
                if x['k'] in ('asg', 'ocall') and x['op'] == '=':
                    l = strip(x['c'][0])
                    if l is not None and l['k'] == 'mem' and l['n'] in lk + st and plain(l['q']).rsplit('::', 1)[0] == plain(n):
                        b = strip(l['c'][0]) if l.get('c') else None
                        while b is not None and b['k'] == 'ocall' and b.get('c'):
                            b = strip(b['c'][0])
                        key = (b['k'], b.get('v')) if b is not None else None
                        src = any(y['k'] == 'mem' and y['n'] == l['n'] and y is not l for y in walk(x['c'][1]))
                        up = []
                        q = par.get(id(x))
                        while q is not None:
                            if q['k'] == 'block':
                                up.append(id(q))
                            q = par.get(id(q))
                        asg.append((l['n'], key, src, up, x))
            for nm, key, src, up, x in asg:
                if nm in st and src:
                    R.ob('R03.guard', '%s shares %s' % (d['qn'], nm))
                    if not any(m in lk and k2 == key and s2 and u2 and u2[0] in up for m, k2, s2, u2, _ in asg):
                        R.bad('R03.guard', '%s|%s' % (plain(d['qn']), nm), P.loc(fid, x.get('l')), '%s gives away %s without the lock %s that protects it'
                              % (d['qn'], nm, lk[0]))


def exempt(P, fid, key, n):
    d = P.D[fid]
    cls = plain(d.get('cls') or '')
    own = key.rsplit('::', 1)[0]
    if cls == own or own.startswith(cls + '::') or cls.startswith(own):
        if d.get('ctor') or d.get('dtor'):
            return True
        if d['n'] == 'operator=' and d['ps'] and d['ps'][0]['t'].rstrip().endswith('&&'):
            return True
    return False


# ---------------------------------------------------------------- static storage

def synchronised(P, t):
    """A class with a lock of its own: R03.guard decides about its members."""
    r = P.R.get((t or '').replace('const ', '').strip())
    return r is not None and any(lock_types(f['t']) for f in r['fields'])


def static(P, R, L):
    objs = {}
    for q, g in P.G.items():
        if not g.get('def') or g.get('dep') or g.get('tls') or g.get('const'):
            continue
        t = g.get('t') or ''
        if t.startswith('const ') or t == 'ts::StaticAction' or SAFE.match(t) or lock_types(t) or synchronised(P, t):
            continue
        objs.setdefault(g['n'], ('global', g['n'], g, '%s:%s' % (g['file'], g['line'])))
    stat = {}
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        for i, v in enumerate(F['locals']):
            if v.get('st') and not v.get('tls') and not v['t'].startswith('const ') and not v['t'].rstrip().endswith(('*const', '* const')) and not SAFE.match(v['t']) and not lock_types(v['t']) and not synchronised(P, v['t']):
                stat[(fid, i)] = ('static', '%s::%s' % (d['qn'], v['n']), v, P.loc(fid, v.get('l')))
    # accessors: functions that return a reference (or pointer) to the object
    acc = {}
    for (fid, i), o in stat.items():
        F = P.body_of(fid)
        rt = (P.D[fid].get('ret') or '').rstrip()
        for n in walk(F['body'], lambdas=False):
            if n['k'] == 'ret' and n.get('c'):
                x = strip(n['c'][0])
                if x is not None and x['k'] == 'un' and x['op'] == '&':
                    x = strip(x['c'][0])
                if x is not None and x['k'] == 'var' and x['v'] == i and rt.endswith(('&', '*')):
                    acc[fid] = (fid, i)
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        rt = (d.get('ret') or '').rstrip()
        for n in walk(F['body'], lambdas=False):
            if n['k'] == 'ret' and n.get('c') and rt.endswith('&'):
                x = strip(n['c'][0])
                if x is not None and x['k'] == 'gv' and x['q'] in objs:
                    acc[fid] = x['q']
    uses = {}

    def ref(n, F, fid, al):
        """object key the expression designates"""
        if n['k'] == 'gv' and n['q'] in objs:
            return n['q']
        if n['k'] == 'var':
            if (fid, n['v']) in stat:
                return (fid, n['v'])
            return al.get(n['v'])
        if n['k'] == 'call' and n.get('f') in acc:
            return acc[n['f']]
        return None

    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        if not any(n['k'] == 'gv' and n['q'] in objs or n['k'] == 'var' and (fid, n['v']) in stat or n['k'] == 'call' and n.get('f') in acc
                   for n in walk(F['body'])):
            continue
        al = {}
        for n in walk(F['body']):
            if n['k'] == 'vdecl' and n.get('init') is not None and F['locals'][n['v']]['t'].rstrip().endswith('&'):
                x = strip(n['init'])
                if x is not None:
                    r = ref(x, F, fid, al)
                    if r is not None:
                        al[n['v']] = r
            if n['k'] == 'rfor':
                pass

        def fields(n, _F, F=F, fid=fid, al=al):
            return ref(n, F, fid, al)
        h = Held(P, L, fields, (frozenset(), frozenset()))
        try:
            h.go(fid)
        except Exception:
            raise
        par = h.par
        for key, wr, must, n, f, fresh in h.acc:
            if n['k'] == 'var' and n['v'] in al:
                pass
            uses.setdefault(key, []).append((wr, must, n, fid))
        for n in walk(F['body']):
            if n['k'] == 'call' and n.get('f') in acc:
                p = par.get(id(n))
                if is_write(P, n, par):
                    uses.setdefault(acc[n['f']], []).append((True, None, n, fid))
    startup = started(P)
    names = {}
    for key, us in uses.items():
        o = objs.get(key) or stat.get(key)
        R.ob('R03.static', o[1])
        writes = []
        for wr, must, n, fid in us:
            d = P.D[fid]
            if not wr or SETUP.match(d['n']):
                continue
            if fid in startup or d.get('dtor'):
                continue
            if key in stat and n['k'] == 'var' and False:
                continue
            writes.append((must, n, fid))
        if not writes:
            continue
        # all uses under one lock
        common = None
        for wr, must, n, fid in us:
            if fid in startup or P.D[fid].get('dtor'):
                continue
            if not wr and key in stat and fid == key[0] and is_return(P, n, fid):
                continue
            ls = {l for l, m, v in (must or ()) if isinstance(l, str) and (m == 'W' or not wr)}
            common = ls if common is None else common & ls
        if common:
            continue
        must, n, fid = writes[0]
        R.bad('R03.static', '%s|%s' % (plain(P.D[fid]['qn']), o[1]), P.loc(fid, n.get('l')),
              '%s changes %s, which every thread shares, and no one lock is held at all its uses' % (P.D[fid]['qn'], o[1]))
    R.floor('R03.static', 8)


def is_return(P, n, fid):
    for x in walk(P.body_of(fid)['body'], lambdas=False):
        if x['k'] == 'ret' and x.get('c') and strip(x['c'][0]) is n:
            return True
    return False


def started(P):
    """Functions only run by initialisers of objects of static storage."""
    from .p_r06 import Reach, initialised
    rc = Reach(P)
    init = set()
    for q, g in P.G.items():
        if g.get('init') is not None and g.get('cinit') is False:
            _, fs = rc.closure(g['init'])
            init |= set(fs)
    called = {}
    for fid, d, F in P.functions():
        for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ())]):
            if n.get('f') and n['k'] in ('call', 'mcall', 'ctor', 'fn', 'ocall'):
                called.setdefault(n['f'], set()).add(fid)
    # std::call_once bodies run once
    out = {f for f in init if P.body_of(f) is not None and f in P.D}
    for fid, d, F in P.functions():
        for n in walk(F['body']):
            if n['k'] == 'call' and n.get('f') and P.D[n['f']]['qn'] == 'std::call_once':
                for x in walk(n['c']):
                    if x['k'] == 'fn':
                        out.add(x['f'])
    changed = True
    once = {f for f in out}
    while changed:
        changed = False
        for f in list(out):
            d = P.D[f]
            public = not d.get('internal')
            cs = called.get(f, set()) - {f}
            if any(c not in out for c in cs) and f not in onces(P):
                out.discard(f)
                changed = True
    return out


def onces(P):
    if not hasattr(P, '_onces'):
        P._onces = set()
        for fid, d, F in P.functions():
            for n in walk(F['body']):
                if n['k'] == 'call' and n.get('f') and P.D[n['f']]['qn'] == 'std::call_once':
                    for x in walk(n['c']):
                        if x['k'] == 'fn':
                            P._onces.add(x['f'])
    return P._onces


# ---------------------------------------------------------------- counters, constants, instructions

def count(P, R):
    r = P.need_rec('ts::Counter<ts::SyncMemory>')
    ints = [f for f in r['fields'] if re.match(r'^(volatile )?(unsigned )?(int|long|short|size_t|unsigned.*)$', f['t'])]
    ats = [f for f in r['fields'] if f['t'].startswith(('std::atomic<', 'volatile std::atomic<'))]
    R.ob('R03.count', 'ts::Counter')
    for f in ints:
        R.bad('R03.count', 'ts::Counter::' + f['n'], '%s:%s' % (r['file'], f.get('l', r['line'])),
              'the count %s shared by tensor handles is not atomic' % f['n'])
    names = {f['n'] for f in ats} | {f['n'] for f in ints}
    # destruction decided by the decrement's own value
    for fid, d, F in P.functions(lambda d: plain(d['qn']).startswith('ts::Smart::') and not d.get('dep')):
        par = parents(F['body'])
        decs = []
        for n in walk(F['body']):
            dec = n['k'] == 'un' and n['op'] == '--' or n['k'] == 'ocall' and n['op'] == '--' or \
                n['k'] == 'mcall' and P.D.get(n.get('f'), {}).get('n') == 'fetch_sub'
            if dec and any(x['k'] == 'mem' and x['n'] in names for x in walk(n)):
                decs.append(n)
        for n in decs:
            R.ob('R03.count', '%s: decrement' % d['qn'])
            p = par.get(id(n))
            while p is not None and p['k'] in ('cast', 'icast', 'upcast'):
                p = par.get(id(p))
            if p is None or p['k'] in ('block', 'if') and p.get('cond') is not n and p['k'] == 'block':
                if any(x['k'] == 'del' for x in walk(F['body'])):
                    R.bad('R03.count', 'ts::Smart::' + d['n'], P.loc(fid, n.get('l')),
                          '%s drops the value of the decrement: whether to destroy is decided by reading the count again' % plain(d['qn']))
    R.floor('R03.count', 2)


def const(P, R):
    seg = 'ts::Program::m_data_segment'
    P.need_rec('ts::Program')
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        ns = [n for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ())]) if n['k'] == 'mem' and n['q'] == seg]
        if not ns:
            continue
        par = {}
        for b in [F['body']] + [i.get('init') for i in F.get('inits', ())]:
            if b is not None:
                par.update(parents(b))
        fresh = {x['v'] for x in walk(F['body']) if x['k'] == 'vdecl' and x.get('init') is not None and locks.makes_new(P, x['init'])}
        for n in ns:
            R.ob('R03.const', '%s' % d['qn'])
            p = par.get(id(n))
            base = strip(n['c'][0]) if n.get('c') else None
            while base is not None and base['k'] in ('ocall', 'mcall', 'un') and base.get('c'):
                base = strip(base['c'][0])
            new = base is not None and base['k'] == 'var' and base['v'] in fresh
            while p is not None and p['k'] in ('upcast', 'icast', 'cast') or p is not None and p['k'] == 'ocall' and p['op'] in ('->', '*'):
                p = par.get(id(p))
            if p is None:
                continue
            if p['k'] == 'mcall':
                m = P.D.get(p.get('f'), {})
                if m.get('n') in ('index', 'top', 'operator[]') and d['qn'] != 'ts::Program::Compile' and not new:
                    up = p
                    ok = False
                    while up is not None:
                        if up['k'] == 'mcall' and P.D.get(up.get('f'), {}).get('qn') == 'ts::Tensor::weak':
                            ok = True
                        if up['k'] == 'mcall' and P.D.get(up.get('f'), {}).get('n') in ('proto', 'size', 'sizes', 'dtype', 'dims', 'count', 'device'):
                            ok = True
                        if up['k'] in ('ret', 'vdecl', 'block'):
                            break
                        up = par.get(id(up))
                    if not ok and up is not None and up['k'] == 'vdecl':
                        v = up['v']
                        us = [x for x in walk(F['body']) if x['k'] == 'var' and x['v'] == v]
                        ok = bool(us) and F['locals'][v]['t'].rstrip().endswith(('*', '&')) and all(under_weak(P, x, par) for x in us)
                    if not ok:
                        R.bad('R03.const', d['qn'], P.loc(fid, n.get('l')),
                              '%s hands out a counted handle of a constant that cloned programs share' % d['qn'])
                elif not m.get('const') and m.get('n') not in ('index', 'size', 'top', 'get', 'begin', 'end', 'foreach') and not new and d['qn'] != 'ts::Program::Compile':
                    R.bad('R03.const', '%s|%s' % (d['qn'], m.get('n')), P.loc(fid, n.get('l')),
                          '%s changes the constants shared with cloned programs (%s)' % (d['qn'], m.get('n')))
            if p['k'] == 'ocall' and p['op'] == '=' and len(p['c']) > 1 and d.get('ctor'):
                made_with_lock(P, R, fid, d, p['c'][1], n)
        for i in F.get('inits', ()):
            if i.get('fld') and i.get('q') == seg and i.get('init') is not None and any(x['k'] != 'zero' for x in walk(i['init'])):
                made_with_lock(P, R, fid, d, i['init'], i['init'])
    R.floor('R03.const', 4)


def under_weak(P, x, par):
    up = par.get(id(x))
    while up is not None and up['k'] in ('icast', 'cast', 'upcast', 'un', 'ocall', 'mcall'):
        if up['k'] == 'mcall':
            return P.D.get(up.get('f'), {}).get('n') in ('weak', 'proto', 'size', 'sizes', 'dtype', 'dims', 'count', 'device')
        up = par.get(id(up))
    return up is not None and up['k'] in ('bin', 'if')


def made_with_lock(P, R, fid, d, n, at):
    for x in walk(n):
        if x['k'] == 'call' and x.get('f') and P.D[x['f']]['n'] == 'Make' and 'SyncMemoryController' in (P.D[x['f']].get('cls') or ''):
            R.ob('R03.const', '%s creates the constants' % d['qn'])
            a = x['c'][-1] if len(x['c']) > 1 else None
            a0 = a
            while a is not None and a['k'] in ('defarg', 'icast', 'cast') and a.get('c'):
                a = a['c'][0]
            if a is not None and (a.get('v') is False or a.get('cv') == 0 and 'cv' in a):
                R.bad('R03.const', d['qn'] + '|lock', P.loc(fid, at.get('l')), '%s creates memory shared by cloned programs without a lock' % d['qn'])


def instr(P, R):
    base = P.need_rec('ts::Instruction')
    for n in sorted(P.all_derived('ts::Instruction')):
        if n in ('ts::OperatorInstruction',):
            continue
        r = P.R.get(n)
        for fid, d, F in P.functions(lambda d: d.get('cls') == n and d['n'] == 'run'):
            R.ob('R03.instr', d['qn'])
            todo, seen = [fid], set()
            while todo:
                f = todo.pop()
                if f in seen:
                    continue
                seen.add(f)
                B = P.body_of(f)
                if B is None:
                    continue
                par = parents(B['body'])
                for x in walk(B['body']):
                    if x['k'] == 'mem' and x.get('c') and strip(x['c'][0]) is not None and strip(x['c'][0])['k'] == 'this' and \
                            x['q'].rsplit('::', 1)[0] in [n] + list(P.bases_of(n)) and is_write(P, x, par) and not SAFE.match(x.get('t') or ''):
                        R.bad('R03.instr', '%s|%s' % (n, x['n']), P.loc(f, x.get('l')),
                              '%s, shared by cloned programs, changes its member %s when run' % (n, x['n']))
                    if x['k'] == 'mcall' and x.get('f') and x['c'] and strip(x['c'][0])['k'] == 'this':
                        todo.append(x['f'])
    # mutable lambdas captured state
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        if not d['file'].startswith(('src/runtime', 'src/compiler', 'include/runtime')):
            continue
        for x in walk(F['body']):
            if x['k'] == 'ctor' and (x.get('t') or '').startswith('std::function<void (ts::Workbench &)'):
                for y in walk(x['c']):
                    if y['k'] == 'lambda' and y.get('mutable'):
                        R.bad('R03.instr', d['qn'], P.loc(fid, y.get('l')), 'a lambda instruction keeps changing state of its own')
    # the operator of a clone is made by the creator, never the shared one
    for fid, d, F in P.functions(lambda d: d['qn'] == 'ts::OperatorInstruction::clone'):
        R.ob('R03.instr', d['qn'])
        for x in walk(F['body']):
            if x['k'] in ('call', 'ctor', 'new') and (x['k'] == 'call' and P.D.get(x.get('f'), {}).get('qn') == 'std::make_shared' or x['k'] == 'new') \
                    and 'OperatorInstruction' in (x.get('t') or ''):
                a = strip(x['c'][0]) if x.get('c') else None
                while a is not None and a['k'] == 'ctor' and a.get('c'):
                    a = strip(a['c'][0])
                if a is not None and a['k'] == 'mem' and a['q'] == 'ts::OperatorInstruction::m_func':
                    R.bad('R03.instr', d['qn'], P.loc(fid, x.get('l')), 'the cloned instruction runs the operator of the original')
    fs = [f for f in P.find_def('ts::Program::clone')]
    for fid in fs:
        B = P.body_of(fid)
        R.ob('R03.instr', 'ts::Program::clone')
        cl = [x for x in closure_nodes(P, fid) if x['k'] in ('mcall',) and P.D.get(x.get('f'), {}).get('qn') == 'ts::OperatorInstruction::clone']
        if not cl:
            R.bad('R03.instr', 'ts::Program::clone', P.loc(fid), 'a cloned program keeps running the operators of its original')
    R.floor('R03.instr', 5)


def closure_nodes(P, fid, depth=3):
    todo, seen = [(fid, 0)], set()
    while todo:
        f, k = todo.pop()
        if f in seen or k > depth:
            continue
        seen.add(f)
        B = P.body_of(f)
        if B is None:
            continue
        for n in walk(B['body']):
            yield n
            if n['k'] in ('call', 'mcall') and n.get('f') and P.D.get(n['f'], {}).get('file', '').startswith(('src', 'include')):
                todo.append((n['f'], k + 1))


# ---------------------------------------------------------------- parallel loops

def task(P, R):
    for fid, d, F in P.functions():
        if d.get('pat') and P._F.get(d['pat']) is not None and P.D.get(d['pat'], {}).get('dep'):
            pass
        for n in walk(F['body']):
            if n['k'] == 'omp' and 'parallel' in n.get('dir', ''):
                R.ob('R03.task', P.loc(fid, n.get('l')))
                region(P, R, fid, d, F, n)
    # lambdas handed to the pool
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        lam = {}
        for n in walk(F['body']):
            if n['k'] == 'vdecl' and n.get('init') is not None:
                for x in walk(n['init'], lambdas=False):
                    if x['k'] == 'lambda':
                        lam[n['v']] = x
        for n in walk(F['body']):
            if n['k'] in ('call', 'mcall') and n.get('f') and P.D[n['f']]['qn'] in ('ts::parallel_run', 'ts::parallel_range', 'ts::ThreadPool::run', 'ts::Thread::run'):
                for a in n['c']:
                    for x in walk(a, lambdas=False):
                        y = x if x['k'] == 'lambda' else lam.get(x.get('v')) if x['k'] == 'var' else None
                        if y is not None and y.get('body') is not None:
                            R.ob('R03.task', P.loc(fid, y.get('l')))
                            shared = {c['v'] for c in y.get('caps', ()) if 'v' in c and c.get('ref')}
                            body(P, R, fid, d, F, y['body'], shared, set(y.get('ps', ())), 'the parallel task', this=any(c.get('this') for c in y.get('caps', ())))
    R.floor('R03.task', 60)


def region(P, R, fid, d, F, n):
    private = set()
    for c in n.get('clauses', n.get('cl', ())) or ():
        if c['k'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
            for v in c.get('v', c.get('vs', c.get('c', ()))):
                v = strip(v)
                if v is not None and v['k'] == 'var':
                    private.add(v['v'])
    b = n.get('body') or (n['c'][0] if n.get('c') else None)
    loop = b
    while loop is not None and loop['k'] == 'block' and len(loop['c']) == 1:
        loop = loop['c'][0]
    itv = set()
    if loop is not None and loop['k'] == 'for':
        i = loop.get('init')
        if i is not None:
            for x in walk(i):
                if x['k'] == 'vdecl':
                    itv.add(x['v'])
                if x['k'] == 'asg' and strip(x['c'][0])['k'] == 'var':
                    itv.add(strip(x['c'][0])['v'])
        bd = [loop.get('body'), loop.get('cond')]
    else:
        bd = [b]
    declared = set()
    for x in walk(bd):
        if x['k'] in ('vdecl',):
            declared.add(x['v'])
        if x['k'] == 'rfor' and 'v' in x:
            declared.add(x['v'] if not isinstance(x['v'], dict) else x['v'].get('v'))
    shared = {i for i in range(len(F['locals']))} - private - itv - declared
    body(P, R, fid, d, F, {'k': 'block', 'c': [x for x in bd if x is not None]}, shared, itv, 'the parallel loop', this=True)


def body(P, R, fid, d, F, b, shared, itv, what, this):
    """itv: variables that differ between iterations."""
    par = parents(b)
    # variables with a value of the iteration: loop variable, and everything declared inside
    varying = set(itv)
    declared = {x['v'] for x in walk(b) if x['k'] == 'vdecl'}
    inits = {x['v']: x.get('init') for x in walk(b) if x['k'] == 'vdecl'}
    # a local pointer or reference initialised from shared things only still points to shared things
    frozen = {}

    def varies(e, depth=0):
        for x in walk(e):
            if x['k'] == 'var':
                v = x['v']
                if v in itv:
                    return True
                if v in declared:
                    t = F['locals'][v]['t'].rstrip() if v < len(F['locals']) else ''
                    i = inits.get(v)
                    if i is None or depth > 6:
                        return True
                    if t.endswith(('*', '&', '*const', '*restrict', '*__restrict')) or t.startswith('const '):
                        if writes.get(v) or varies(i, depth + 1):
                            return True
                        continue
                    if writes.get(v) or varies(i, depth + 1):
                        return True
            if x['k'] in ('call', 'mcall') and x.get('f') and P.D.get(x['f'], {}).get('n') in ('omp_get_thread_num', 'get_id', 'thread_num'):
                return True
            if x['k'] == 'x':
                return True
        return False
    crit = set()
    for x in walk(b):
        if x['k'] == 'omp' and x.get('dir') in ('critical', 'atomic', 'single', 'master', 'ordered'):
            for y in walk(x):
                crit.add(id(y))
    writes = {}
    for x in walk(b):
        if x['k'] == 'var' and (x['v'] in declared) and is_write(P, x, par):
            writes[x['v']] = True
    for x in walk(b):
        if id(x) in crit:
            continue
        t, how = None, None
        if x['k'] == 'asg':
            t = x['c'][0]
        elif x['k'] == 'un' and x['op'] in ('++', '--'):
            t = x['c'][0]
        elif x['k'] == 'ocall' and x['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--', '|=', '&=', '^='):
            t = x['c'][0]
        elif x['k'] == 'mcall' and x.get('f') and P.D[x['f']]['n'] in ('push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'clear', 'resize', 'pop_back', 'reset', 'swap', 'assign') \
                and (P.D[x['f']].get('cls') or '').startswith('std::'):
            t = x['c'][0]
            how = 'calls %s of' % P.D[x['f']]['n']
        elif x['k'] == 'call' and x.get('f') and P.D[x['f']]['qn'] in ('memcpy', 'memset', 'std::memcpy', 'std::memset', 'std::fill', 'std::copy', 'memmove'):
            t = x['c'][2] if P.D[x['f']]['n'] == 'copy' and len(x['c']) > 2 else x['c'][0]
            t = {'k': 'un', 'op': '*', 'c': [t]}
        if t is None:
            continue
        root, idx, deref = place(t)
        if root is None:
            continue
        loc = P.loc(fid, x.get('l'))
        nm = '%s|%s' % (plain(d['qn']), None)
        if root['k'] == 'var' and root['v'] in shared:
            v = F['locals'][root['v']]
            if SAFE.match(v['t']) or v.get('tls'):
                continue
            if not idx and not deref:
                R.bad('R03.task', '%s|%s' % (plain(d['qn']), v['n']), loc, '%s in %s %s %s, which all iterations share'
                      % (what, d['qn'], how or 'changes', v['n']))
            elif bits(v['t']):
                R.bad('R03.task', '%s|%s' % (plain(d['qn']), v['n']), loc, '%s in %s changes elements of %s, whose elements share words of memory'
                      % (what, d['qn'], v['n']))
            elif how is None and not any(varies(i) for i in idx):
                R.bad('R03.task', '%s|%s' % (plain(d['qn']), v['n']), loc, '%s in %s changes the same element of %s in every iteration'
                      % (what, d['qn'], v['n']))
        elif root['k'] == 'var' and root['v'] in declared and deref and how is None:
            # through a local pointer: what it points to
            if not any(varies(i) for i in idx) and not writes.get(root['v']) and inits.get(root['v']) is not None:
                i = inits[root['v']]
                tt = F['locals'][root['v']]['t'].rstrip() if root['v'] < len(F['locals']) else ''
                if tt.endswith(('*', '&', '*const')) and not varies(i) and from_shared(i, shared):
                    R.bad('R03.task', '%s|%s' % (plain(d['qn']), F['locals'][root['v']]['n']), loc, '%s in %s changes the same element of %s in every iteration'
                          % (what, d['qn'], F['locals'][root['v']]['n']))
        elif root['k'] == 'mem' and this and not idx and not deref:
            if SAFE.match(root.get('t') or ''):
                continue
            R.bad('R03.task', '%s|%s' % (plain(d['qn']), root['n']), loc, '%s in %s %s member %s, which all iterations share'
                  % (what, d['qn'], how or 'changes', root['n']))


def bits(t):
    return re.match(r'^(const )?std::vector<bool', t) is not None


def from_shared(i, shared):
    vs = [x for x in walk(i) if x['k'] == 'var']
    calls = [x for x in walk(i) if x['k'] in ('call', 'mcall', 'new', 'ctor', 'lambda')]
    return bool(vs) and all(v['v'] in shared for v in vs) and not calls


def place(t):
    """(root variable or member, index expressions, whether a pointer is followed)"""
    idx = []
    deref = False
    while True:
        t = strip(t)
        if t is None:
            return None, idx, deref
        k = t['k']
        if k == 'sub':
            idx.append(t['c'][1])
            deref = True
            t = t['c'][0]
        elif k == 'ocall' and t['op'] in ('[]',):
            idx += t['c'][1:]
            deref = True
            t = t['c'][0]
        elif k == 'ocall' and t['op'] in ('*', '->') and len(t['c']) == 1:
            deref = True
            t = t['c'][0]
        elif k == 'un' and t['op'] == '*':
            deref = True
            t = t['c'][0]
        elif k == 'un' and t['op'] in ('++', '--'):
            idx.append(t)
            t = t['c'][0]
        elif k == 'bin' and t['op'] in ('+', '-'):
            idx.append(t['c'][1])
            a, b = strip(t['c'][0]), strip(t['c'][1])
            if (a.get('t') or '').rstrip().endswith('*') or not (b.get('t') or '').rstrip().endswith('*'):
                t = t['c'][0]
            else:
                idx[-1] = t['c'][0]
                t = t['c'][1]
        elif k == 'mem':
            b = strip(t['c'][0]) if t.get('c') else None
            if b is None or b['k'] == 'this':
                return t, idx, deref
            if t.get('arrow'):
                deref = True
            t = t['c'][0]
        elif k == 'mcall' and t.get('c'):
            return None, idx, deref
        elif k == 'var':
            return t, idx, deref
        else:
            return None, idx, deref


def only_on_new(P, caller, f, canon):
    """every call of f in the caller is made on an object the caller has just made"""
    F = P.body_of(caller)
    fresh = {x['v'] for x in walk(F['body']) if x['k'] == 'vdecl' and x.get('init') is not None and locks.makes_new(P, x['init'])}
    for n in walk(F['body']):
        if n['k'] in ('call', 'mcall') and n.get('f') and canon(n['f']) == f:
            b = strip(n['c'][0]) if n['k'] == 'mcall' and n.get('c') else None
            while b is not None and b['k'] in ('ocall', 'mcall', 'un') and b.get('c'):
                b = strip(b['c'][0])
            if b is None or b['k'] != 'var' or b['v'] not in fresh:
                return False
    return True

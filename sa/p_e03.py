"""E03: no exception leaves a worker thread or the body of a parallel loop."""
from .program import walk
from .sem import strip
from .throws import Explicit, fn_of, show, callable_type

STARTS = ('std::thread', 'std::jthread')


def check(P, R):
    R.rule('E03.loop', 'Nothing thrown in the library (out of memory and null smart handles aside) can leave the body of an OpenMP parallel region: '
                       'followed through calls, handlers, virtual calls and stored callables.')
    R.rule('E03.thread', 'The same for the function a std::thread runs, which includes every task handed to the thread pool that runs it.')
    X = Explicit(P)
    for fid, d, F in P.functions(lambda d: not d.get('dep')):
        if not F['file'].startswith(('src/', 'include/')):
            continue
        for n in walk([F['body']] + [i.get('init') for i in F.get('inits', ()) if i.get('init') is not None]):
            if n['k'] == 'omp' and n.get('body') is not None and any(w in n.get('dir', '') for w in ('parallel', 'task', 'teams', 'target')):
                R.ob('E03.loop', P.loc(fid, n.get('l')))
                r = X.inside(fid, F, n['body'])
                if r is not None:
                    R.bad('E03.loop', '%s|%s' % (d['qn'], r[-1][1]), P.loc(fid, n.get('l')),
                          'an exception can leave the parallel loop in %s: %s' % (d['qn'], show(P, r)))
            start = None
            if n['k'] == 'ctor' and n.get('f') and (P.D[n['f']].get('cls') or '') in STARTS and n.get('c'):
                start = n['c'][0]
            elif n['k'] in ('call', 'mcall') and n.get('f') and P.D[n['f']]['qn'] in ('std::async', 'pthread_create'):
                cs = [a for a in n['c'] if fn_of(a) or (strip(a) or {}).get('k') == 'lambda' or callable_type((strip(a) or {}).get('t'))]
                start = cs[0] if cs and P.D[n['f']]['qn'] != 'std::async' else None
            if start is None:
                continue
            if (strip(start) or {}).get('t', '').replace('const ', '').rstrip(' &') in STARTS:
                continue            # moving a thread object
            src = X.values().sources(fid, F, start)
            R.ob('E03.thread', '%s: %d entry functions' % (P.loc(fid, n.get('l')), len(src)))
            if not src and fn_of(start):
                src = [('fn', fid, F, fn_of(start))]
            if not src or any(s[0] == 'unknown' for s in src):
                R.assume('E03: a thread started at %s runs a function that could not be identified' % P.loc(fid, n.get('l')))
            for kind, f2, F2, x in src:
                r = X.fn(x) if kind == 'fn' else X.inside(f2, F2, x.get('body')) if kind == 'lambda' else None
                if r is not None:
                    R.bad('E03.thread', '%s|%s' % (d['qn'], r[-1][1]), P.loc(fid, n.get('l')),
                          'an exception can leave the thread started in %s: %s' % (d['qn'], show(P, r)))
    tasks = 0
    V = X.values()
    for (f, i), l in V.args.items():
        d = P.D.get(f, {})
        if d.get('qn') in ('ts::ThreadPool::run', 'ts::Thread::run', 'ts::parallel_run', 'ts::parallel_range') and i == 0:
            tasks += len(l)
            for f2, F2, x in l:
                R.ob('E03.thread', '%s: task' % P.loc(f2, x.get('l')))
    R.floor('E03.loop', 60)
    R.floor('E03.thread', 2)

"""E01: a validation failure that is reported as an error always aborts the operation, at every log level."""
from .program import walk, fnodes, AnalysisError
from .flow import Flow

LOG = 'ts::LogStream'
# Functions that report an error-level message and are allowed to go on, with how many such messages (confirmed by reading).
TOLERATED = {
    'ts::infer': ('src/runtime/inferer.cpp', 2, 'inference failure is reported to the caller as the VOID prototype'),
    'ts::AESFileStreamReader::AESFileStreamReader': ('src/encryption/aes_fstream.cpp', 1, 'documented truncation of an over-long key'),
    'ts::AESFileStreamWriter::AESFileStreamWriter': ('src/encryption/aes_fstream.cpp', 1, 'documented truncation of an over-long key'),
    'ts::CpuEnable::set_power_mode': ('src/utils/cpu.cpp', 3, 'reports failure by returning false; the affinity is best effort'),
    'ts::CPUIDInfo::Initialize': ('src/utils/cpu_info.cpp', 1, 'diagnostic only, runs once under call_once'),
    'ts::Workbench::launch_online': ('src/runtime/workbench.cpp', 1,
                                     'advisory: a program keeps its origin device, which may differ from the computing device'),
    'ts::caffe::EncodeConfPrediction': ('src/kernels/cpu/caffe/bbox_util.cpp', 2, 'deprecation warnings of the ported code'),
}
# Handlers that stop an exception inside the library, by the file they are in and the caught type, with how many of them.
HANDLERS = {
    ('src/core/tensor_builder.cpp', 'const ts::Exception &'): 5,        # to_int ... to_bool: fall back to the numeric reading, which aborts itself
    ('src/module/module.cpp', 'const ts::FormatMismatchException &'): 2,  # LoadV2 tries the next format, aborts after the last
    ('src/runtime/inferer.cpp', '...'): 1, ('src/runtime/inferer/factory.cpp', '...'): 1,  # speculative evaluation, no value on failure
    ('src/runtime/operator.cpp', 'const ts::Exception &'): 1,           # only collects text for the exception thrown right after
    ('src/global/operator_factory.cpp', 'const ts::NoMemoryDeviceException &'): 1,      # the lookup goes on with the next device
    ('src/global/fp16_operator_factory.cpp', 'const ts::NoMemoryDeviceException &'): 1,
}
CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
SWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}


def levels(n):
    if n is None:
        return {'?'}
    if n['k'] == 'cond':
        return levels(n['c'][1]) | levels(n['c'][2])
    if n['k'] == 'en':
        return {n['q'].split('::')[-1]}
    if n['k'] in ('cast', 'icast', 'ctor') and len(n['c']) == 1:
        return levels(n['c'][0])
    return {'?'}


class Levels(Flow):
    """State: (possible values of m_level, has the message/manipulator been handled)."""

    def __init__(self, P, target, vals):
        Flow.__init__(self, P)
        self.target = target
        self.vals = vals

    def join(self, a, b):
        return (a[0] | b[0], a[1] and b[1])

    def on(self, n, st):
        if self.target(n):
            return (st[0], True)
        return st

    def refine(self, c, truth, st):
        if c['k'] == 'bin' and c['op'] in CMP:
            a, b = strip(c['c'][0]), strip(c['c'][1])
            op = c['op']
            if not is_level(a):
                a, b, op = b, a, SWAP[op]
            if is_level(a) and b is not None and (b['k'] == 'en' or b['k'] == 'lit'):
                v = b['v']
                s = frozenset(x for x in st[0] if CMP[op](x, v) == truth)
                return (s, st[1]) if s else None
        if is_level(c):
            s = frozenset(x for x in st[0] if bool(x) == truth)
            return (s, st[1]) if s else None
        return st


def strip(n):
    while n is not None and n['k'] in ('cast', 'icast'):
        n = n['c'][0]
    return n


def is_level(n):
    while n is not None and n['k'] in ('cast', 'icast'):
        n = n['c'][0]
    return n is not None and (n['k'] == 'mem' and n['q'] == LOG + '::m_level')


class Plain(Flow):
    def join(self, a, b):
        return a or b

    def same(self, a, b):
        return True


class After(Flow):
    """Which log statements are followed by something other than an abort before anything else happens."""

    def __init__(self, P):
        Flow.__init__(self, P)

    def join(self, a, b):
        return a | b


def check(P, R):
    R.rule('E01.abort', 'every log record of level ERROR or FATAL carries an abort manipulator (eject or fatal), '
                        'is the last thing before a throw, or is one of the confirmed advisory messages')
    R.rule('E01.level', 'LogStream runs every manipulator and keeps every message unless its own level is NONE')
    R.rule('E01.eject', 'the abort manipulators never return')
    R.rule('E01.macro', 'every checking macro aborts exactly when its condition is false')
    R.rule('E01.swallow', 'no exception handler inside the library discards an exception, except the confirmed ones')

    fl = Plain(P)
    # --- stream
    lv = P.need_enum('ts::LogLevel')
    vals = frozenset(c[1] for c in lv['c'])
    none = [c[1] for c in lv['c'] if c[0].endswith('LOG_NONE')]
    err = [c[1] for c in lv['c'] if c[0].endswith('LOG_ERROR') or c[0].endswith('LOG_FATAL')]
    if len(none) != 1 or len(err) != 2:
        raise AnalysisError('LogLevel has no NONE/ERROR/FATAL')
    nmeth = 0
    for fid in P.find_def(LOG + '::operator<<') + P.find_def(LOG + '::operator()'):
        d = P.D[fid]
        F = P.F(fid)
        pt = d['ps'][0]['t'] if d['ps'] else ''
        manip = d['qn'].endswith('operator<<') and '(ts::LogStream &)' in pt
        if d.get('dep'):
            continue
        p0 = F['ps'][0]
        if manip:
            tgt = lambda n: n['k'] in ('call', 'mcall') and n.get('fp') is not None and n['fp']['k'] == 'var' and n['fp']['v'] == p0
            what = 'the manipulator'
        else:
            # either writes the argument into the buffer or hands it to the other operator
            def tgt(n, p0=p0):
                if n['k'] in ('ocall', 'call', 'mcall'):
                    return any(y['k'] == 'var' and y['v'] == p0 for c in n['c'] if c is not None for y in walk(c)) \
                        and 'std::forward' != P.D.get(n.get('f'), {}).get('qn')
                return False
            what = 'the message'
        nmeth += 1
        R.ob('E01.level', '%s(%s)' % (d['qn'], pt))
        A = Levels(P, tgt, vals)
        for kind, n, st in A.run(F, (vals, False)):
            if kind == 'throw':
                continue
            if not st[1] and (st[0] - set(none)):
                R.bad('E01.level', '%s(%s)' % (d['qn'], 'Method' if manip else 'T'), P.loc(fid, n['l']),
                      '%s is dropped although the stream level is not NONE (possible levels here: %s)' % (what, sorted(st[0])))
    R.floor('E01.level', 3)
    # the level is the constructor's argument
    for fid in P.find_def(LOG + '::LogStream'):
        F, d = P.F(fid), P.D[fid]
        if d['ctor'] in ('copy', 'move'):
            continue
        R.ob('E01.level', d['qn'] + ' ctor')
        ok = False
        for i in F['inits']:
            if i.get('fld') == 'm_level':
                x = i['init']
                ok = x is not None and x['k'] == 'var' and x['v'] == F['ps'][0]
        for x in fnodes(F):
            if x['k'] == 'asg' and is_level(x['c'][0]) and x['c'][1]['k'] == 'var' and x['c'][1]['v'] == F['ps'][0]:
                ok = True
        if not ok:
            R.bad('E01.level', 'LogStream ctor', P.loc(fid), 'the constructor does not keep the level it is given')
    # nobody else changes the level before the manipulator ran
    for name in ('ts::eject', 'ts::fatal'):
        for fid in P.need(name):
            R.ob('E01.eject', name)
            for kind, n, st in Plain(P).run(P.F(fid), True):
                if kind != 'throw':
                    R.bad('E01.eject', name, P.loc(fid, n['l']), '%s can return to its caller' % name)
    # --- macros
    want = {'EQ': '==', 'NQ': '!=', 'LE': '<=', 'GE': '>=', 'LT': '<', 'GT': '>'}
    seen = 0
    for fid, d, F in P.functions(lambda d: d['qn'].startswith('verif_witness::') and (d.get('file') or '').startswith('@assert')):
        name = d['n']
        chains = [x for x in fnodes(F) if fl.abort_of(x)]
        seen += 1
        R.ob('E01.macro', name)
        if not chains:
            R.bad('E01.macro', name, 'include/utils/assert.h', 'the macro behind %s does not abort' % name)
            continue
        lvx = fl.abort_of(chains[0])[1]
        if name.startswith('log_'):
            if levels(lvx) - {'LOG_ERROR', 'LOG_FATAL'}:
                R.bad('E01.macro', name, 'include/utils/log.h', '%s logs at level %s' % (name, sorted(levels(lvx))))
            continue
        # evaluate: level as a function of the condition
        okm = False
        if lvx is not None and lvx['k'] == 'cond':
            c, t, f = lvx['c']
            neg = False
            while c['k'] in ('icast', 'cast') or (c['k'] == 'un' and c['op'] == '!'):
                if c['k'] == 'un':
                    neg = not neg
                c = c['c'][0]
            if neg:
                t, f = f, t
            good = levels(t) == {'LOG_NONE'} and levels(f) <= {'LOG_ERROR', 'LOG_FATAL'}
            suf = name.split('_')[-1]
            if suf in want:
                good = good and c['k'] == 'bin' and is_op(c, F, want[suf])
            else:
                good = good and c['k'] == 'var' and c['v'] == F['ps'][0]
            okm = good
        if not okm:
            R.bad('E01.macro', name, 'include/utils/assert.h', 'the macro behind %s does not abort exactly when its condition is false' % name)
    R.floor('E01.macro', 18)

    # --- every log record
    tol, late, hand = {}, {}, {}
    for fid, d, F in P.functions():
        if d.get('file') is None or d['qn'].startswith('verif_witness::'):
            continue
        inner = set()
        bad = []
        ncat = 0
        catchspans = []
        for x in fnodes(F):
            if x['k'] == 'ocall' and x['op'] in ('<<', '()') and id(x) not in inner:
                y = x
                ab = False
                while y is not None and y['k'] == 'ocall' and y['op'] in ('<<', '()'):
                    inner.add(id(y))
                    if fl.abort_of(y):
                        ab = True
                    y = y['c'][0] if y['c'] else None
                    while y is not None and y['k'] in ('cast', 'upcast') and y['c']:
                        y = y['c'][0]
                if y is None or y['k'] != 'ctor' or not is_stream(P, y):
                    continue
                L = levels(y['c'][0] if y['c'] else None)
                if not (L & {'LOG_ERROR', 'LOG_FATAL', '?'}):
                    continue
                R.ob('E01.abort', '%s:%s %s' % (F['file'], x['l'], d['qn']))
                if not ab:
                    bad.append(x)
            elif x['k'] == 'ctor' and is_stream(P, x) and False:
                pass
        if bad:
            foll = followed_by_abort(P, F, bad)
            bad = [b for b in bad if id(b) not in foll]
        if bad:
            late.setdefault(F['file'], {}).update({b['l']: (fid, d, F, b) for b in bad})
        # handlers
        for x in fnodes(F):
            if x['k'] != 'try':
                continue
            for h in x['h']:
                if F['file'].startswith('src/api/') or F['file'].startswith('include/api/'):
                    continue   # the C boundary is property A01's subject
                R.ob('E01.swallow', '%s catch(%s)' % (d['qn'], h['t']))
                if d.get('dtor') or d.get('noexcept'):
                    continue   # nothing can be passed on from here
                if handler_exits(Plain(P), F, h):
                    hand.setdefault((F['file'], h['t']), {})[h['l']] = (fid, d, h)
    for file, l in sorted(late.items()):
        named = {k: n for k, (f, n, why) in TOLERATED.items() if f == file}
        tol[file] = '%d of %d' % (len(l), sum(named.values()))
        if len(l) <= sum(named.values()):
            continue
        count = {}
        for ln, (fid, d, F, b) in sorted(l.items()):
            count[d['qn']] = count.get(d['qn'], 0) + 1
        rank = {}
        for ln, (fid, d, F, b) in sorted(l.items()):
            if count[d['qn']] <= named.get(d['qn'], 0):
                continue
            rank[d['qn']] = rank.get(d['qn'], -1) + 1
            R.bad('E01.abort', '%s:%s#%d' % (file, d['qn'], rank[d['qn']]), P.loc(fid, ln), 'an error is logged here but the operation goes on (no eject)')
    for (file, t), l in sorted(hand.items()):
        if len(l) > HANDLERS.get((file, t), 0):
            for ln, (fid, d, h) in sorted(l.items()):
                R.bad('E01.swallow', '%s catch(%s)' % (d['qn'], t), P.loc(fid, ln), 'the handler discards the exception: execution continues as if nothing had failed')
    R.floor('E01.abort', 600)
    R.floor('E01.swallow', 4)
    R.extra['tolerated_messages'] = tol
    R.assume('a condition that is not reported as an error at all is outside this property')


def is_op(c, F, op):
    a, b = c['c']
    if a['k'] != 'var' or b['k'] != 'var':
        return False
    if a['v'] == F['ps'][0] and b['v'] == F['ps'][1]:
        return c['op'] == op
    if a['v'] == F['ps'][1] and b['v'] == F['ps'][0]:
        return c['op'] == SWAP[op]
    return False


def is_stream(P, n):
    d = P.D.get(n.get('f'))
    return d is not None and d.get('cls') == LOG and d.get('ctor') not in ('copy', 'move')


def handler_exits(A, F, h):
    """True if the handler can be left other than by throwing."""
    A.Fn = F
    A.exits, A.loops, A.scopes, A.trys = [], [{'brk': None, 'cont': None, 'depth': 1}], [[]], []
    st = A.ex(h['body'], True)
    L = A.loops[0]
    return st is not None or L['brk'] is not None or L['cont'] is not None or any(e[0] != 'throw' for e in A.exits)


def followed_by_abort(P, F, bad):
    """Log statements after which every path aborts before doing anything but evaluating locals."""
    ids = {id(b) for b in bad}
    good = set()

    def visit(n):
        if n['k'] == 'block':
            cs = n['c']
            for i, s in enumerate(cs):
                if s is None:
                    continue
                if id(s) in ids and i + 1 < len(cs):
                    # the rest of the block must throw whatever happens
                    A = Plain(P)
                    A.Fn = F
                    A.exits, A.loops, A.scopes, A.trys = [], [{'brk': None, 'cont': None, 'depth': 1}], [[]], []
                    st = True
                    for t in cs[i + 1:]:
                        st = A.ex(t, st)
                        if st is None:
                            break
                    L = A.loops[0]
                    if st is None and L['brk'] is None and L['cont'] is None and all(e[0] == 'throw' for e in A.exits) and i + 2 == len(cs):
                        good.add(id(s))
    for x in fnodes(F):
        visit(x)
    return good

"""A04: numeric constants keep their meaning across the C boundary and between the engine's own copies of the same set."""
from .program import walk, fnodes, AnalysisError
from .sem import strip

# Sets of constants that denote the same things. (enum, prefixes to drop)
GROUPS = {
    'element type': ['ts_DTYPE', 'ts::DTYPE'],
    'resize method': ['ts_ResizeMethod', 'ts::ImageFilter::ResizeMethod', 'ts::desc::ResizeType', 'ts::Resize2DType', 'ts::Affine_Sample2DType',
                      'ts::api::ImageFilter::ResizeMethod', 'ts::api::intime::ResizeMethod'],
    'serialization format': ['ts_SerializationFormat', 'ts::Module::SerializationFormat'],
    'power mode': ['ts_CpuPowerMode', 'ts::CpuEnable::CpuPowerMode', 'ts::api::CpuPowerMode'],
    'data placement': ['ts_InFlow', 'ts::Tensor::InFlow', 'ts::api::Tensor::InFlow'],
    'transform mode': ['ts::WinogradConv2DMode', 'WINOGRAD_MODE'],
    'data format': ['ts::Conv2DFormat', 'ts::DataFormat'],
    'automatic padding': ['ts::dragon::Pooling2DAutoPad::AutoPadType', 'ts::onnx::Pooling2DAutoPad::AutoPadType'],
    'framework padding': ['ts::tf::Conv2DPadding::PaddingMethod', 'ts::tf::Pooling2DPadding::PaddingMethod', 'ts::dragon::Conv2DPadding::PaddingMethod'],
}
SYNONYM = {'BILINEAR': 'LINEAR', 'BICUBIC': 'CUBIC', 'TEXT': 'DESCRIPTION', 'BOOLEAN': 'BOOLEAN'}
PREFIX = ['TS_RESIZE_', 'TS_CPU_', 'TS_', 'FORMAT_', 'DATA_']


def norm(q):
    n = q.split('::')[-1]
    for p in PREFIX:
        if n.startswith(p) and len(n) > len(p):
            n = n[len(p):]
            break
    n = n.replace('_', '') if n not in ('SAME_UPPER', 'SAME_LOWER') else n
    return SYNONYM.get(n, n)


def bare(t):
    return t.replace('const ', '').replace('&', '').strip() if t else ''


def check(P, R):
    R.rule('A04.value', 'constants of the same name in sets that denote the same thing have the same value')
    R.rule('A04.total', 'every constant a C client can pass exists in the engine\'s set')
    R.rule('A04.distinct', 'no two names of a set share a value')
    R.rule('A04.cast', 'a conversion between two sets of constants only connects sets that denote the same thing')
    R.rule('A04.alias', 'a named constant of the C++ client has the value of the C constant of that name')
    group = {}
    for g, enums in GROUPS.items():
        have = [e for e in enums if e in P.E]
        for e in have:
            group[e] = g
        vals = {}
        for e in have:
            seen = {}
            for q, v, line in P.E[e]['c']:
                n = norm(q)
                R.ob('A04.distinct')
                if v in seen and seen[v] != n:
                    R.bad('A04.distinct', '%s %s' % (e, q.split('::')[-1]), '%s:%s' % (P.E[e].get('file', ''), line),
                          '%s and %s both have the value %s' % (seen[v], n, v))
                seen.setdefault(v, n)
                R.ob('A04.value', '%s = %s' % (q, v))
                if n in vals and vals[n][0] != v:
                    R.bad('A04.value', '%s %s' % (g, n), '%s:%s' % (P.E[e].get('file', ''), line),
                          '%s is %s here but %s in %s' % (q, v, vals[n][0], vals[n][1]))
                vals.setdefault(n, (v, e))
        c = [e for e in have if '::' not in e and e.startswith('ts_')]
        for e in c:
            for t in have:
                if t == e or t.startswith('ts::api'):
                    continue
                names = {norm(q): v for q, v, l in P.E[t]['c']}
                for q, v, line in P.E[e]['c']:
                    R.ob('A04.total', '%s in %s' % (q, t))
                    if norm(q) not in names:
                        R.bad('A04.total', '%s %s' % (q, t), '%s:%s' % (P.E[e].get('file', ''), line), '%s has no counterpart in %s' % (q, t))
    R.floor('A04.value', 60)
    # every enum the C headers declare takes part
    for e, r in P.E.items():
        if e.startswith('ts_') and '::' not in e:
            R.ob('A04.total', e)
            if e not in group:
                R.bad('A04.total', e, '%s' % r.get('file'), 'the C constants %s are not connected to any set of the engine' % e)
    # conversions
    for fid, d, F in P.functions():
        for n in fnodes(F):
            if n['k'] != 'cast' or not n.get('c'):
                continue
            t = bare(n.get('t'))
            if t not in P.E:
                continue
            x = n['c'][0]
            while x is not None and x['k'] in ('cast', 'icast', 'upcast') and x.get('c'):
                if bare(x.get('t')) in P.E:
                    break
                x = x['c'][0]
            if x is None:
                continue
            s = bare(x.get('t'))
            if not s and x['k'] == 'var':
                s = next((bare(l['t']) for i, l in enumerate(F['locals']) if i == x['v'] or l.get('id') == x['v']), '')
            if s not in P.E or s == t:
                continue
            R.ob('A04.cast', '%s: %s to %s' % (d['qn'], s, t))
            if group.get(s, s) != group.get(t, t):
                R.bad('A04.cast', '%s %s->%s' % (d['qn'], s, t), P.loc(fid, n['l']), 'a %s is converted to %s, which denotes something else' % (s, t))
    # constants of the client
    C = {}
    for e in P.E:
        if e.startswith('ts_') and '::' not in e:
            for q, v, l in P.E[e]['c']:
                C[norm(q)] = v
    for g in P.G.values():
        if not (g.get('file') or '').startswith('include/api/cpp/') or not isinstance(g.get('init'), dict) or g.get('smem') or 'dtypeid' in g['n']:
            continue
        for x in walk(g['init']):
            if x['k'] == 'en':
                R.ob('A04.alias', g['n'])
                if norm(x['q']) != norm(g['n']) or C.get(norm(g['n']), x['v']) != x['v']:
                    R.bad('A04.alias', g['n'], '%s:%s' % (g['file'], g['line']), '%s is initialised with %s' % (g['n'], x['q']))
    R.assume('constants with the same spelling (after dropping prefixes) in the listed sets are meant to be the same')

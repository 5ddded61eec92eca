"""Loads the type-checked program of the repository (see tool/exporter.cpp).

Every run hashes the repository's sources; a translation unit whose own content or any of
whose repository headers changed is exported again, the others come from a content-addressed cache.
"""
import hashlib, json, os, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.environ.get('SA_BUILD', os.path.join(VERIF, 'build'))
MODULES = ['api', 'backend', 'board', 'compiler', 'core', 'encryption', 'engine', 'frontend', 'global',
           'memory', 'module', 'runtime', 'utils', 'kernels/common', 'kernels/cpu']


class AnalysisError(Exception):
    """The analysis could not be carried out (neither a pass nor a violation)."""


def flags():
    d = ['-DBUILDING_TENNIS', '-DTS_DISABLE_PARALLEL', '-DTS_SOLUTION_DIR="%s"' % REPO, '-DTS_USE_AVX',
         '-DTS_USE_DEBUG_API', '-DTS_USE_FMA', '-DTS_USE_HOOK', '-DTS_USE_OPENCV', '-DTS_USE_OPENMP',
         '-DTS_USE_PROFILER', '-DTS_USE_SIMD', '-Dtennis_LIB_EXPORTS', '-DNDEBUG']
    return ['-xc++'] + d + ['-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/tool/include' % VERIF,
            '-isystem', '/usr/include/opencv4', '-fvisibility=hidden', '-std=c++11', '-fPIC', '-fopenmp',
            '-mavx', '-mavx2', '-mfma', '-w', '-Wno-everything', '-ferror-limit=3']


def exporter():
    src = os.path.join(VERIF, 'tool', 'exporter.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(BUILD, 'exporter-' + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.%d.tmp' % os.getpid()
        L = '/usr/lib/llvm-18'
        cxx = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
        r = subprocess.run([cxx, '-O1', '-std=c++17', '-fno-rtti', '-I%s/include' % L, src, '-o', tmp,
                            L + '/lib/libclang-cpp.so.18.1', '-L%s/lib' % L, '-lLLVM-18'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisError('the exporter does not build:\n' + r.stdout[-3000:])
        os.replace(tmp, exe)
    return exe, h


def tus():
    out = []
    for m in MODULES:
        out += glob.glob('%s/src/%s/**/*.cpp' % (REPO, m), recursive=True)
    out = sorted(set(out))
    extra = sorted(glob.glob(VERIF + '/tool/tu/*.cpp'))
    return out + extra


class FileHash:
    def __init__(self):
        self.m = {}

    def __call__(self, path):
        h = self.m.get(path)
        if h is None:
            try:
                h = hashlib.sha1(open(path, 'rb').read()).hexdigest()
            except OSError:
                h = 'missing'
            self.m[path] = h
        return h


class Program:
    def __init__(self, select=None, quiet=True):
        t0 = time.time()
        exe, eh = exporter()
        fl = flags()
        cdir = os.path.join(BUILD, 'cache')
        os.makedirs(cdir, exist_ok=True)
        fh = FileHash()
        # names of all headers: a header added or removed can change include resolution
        names = sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/**/*.h', recursive=True)
                       + glob.glob(REPO + '/include/**/*.hpp', recursive=True))
        base = hashlib.sha1(('\n'.join(names) + eh + '\n'.join(fl) + REPO + VERIF).encode()).hexdigest()
        files = [f for f in tus() if select is None or select(f)]
        if not files:
            raise AnalysisError('no source files found under %s' % REPO)
        self.tus = files
        self.exported = 0

        def one(f):
            key = hashlib.sha1((base + f + fh(f)).encode()).hexdigest()[:20]
            p = os.path.join(cdir, key + '.jl')
            dp = p + '.deps'
            if os.path.exists(p) and os.path.exists(dp):
                ok = True
                for line in open(dp):
                    h, n = line.rstrip('\n').split(' ', 1)
                    if fh(os.path.join(REPO, n)) != h:
                        ok = False
                        break
                if ok:
                    return p
            tmp = p + '.%d.tmp' % os.getpid()
            r = subprocess.run([exe, REPO, tmp, f, '--'] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', env=dict(os.environ, SA_EXTRA_ROOT=VERIF + '/tool/tu'))
            if r.returncode:
                raise AnalysisError('%s does not parse:\n%s' % (f, r.stdout[-2000:]))
            deps = []
            with open(tmp, 'rb') as fo:
                for line in fo:
                    if line[:2] == b'P\t':
                        deps.append(line.split(b'\t')[1].decode())
            with open(dp, 'w') as d:
                for n in deps:
                    d.write('%s %s\n' % (fh(os.path.join(REPO, n)), n))
            os.replace(tmp, p)
            self.exported += 1
            return p

        with ThreadPoolExecutor(8) as ex:
            paths = list(ex.map(one, files))
        self.t_export = time.time() - t0
        rawF, rawD, rawR, rawE, rawG = {}, {}, {}, {}, {}
        clash = {}
        by = {b'F': rawF, b'D': rawD, b'R': rawR, b'E': rawE, b'G': rawG}
        for f, p in zip(files, paths):
            with open(p, 'rb') as fo:
                for line in fo:
                    k = line[:1]
                    if k == b'P':
                        continue
                    i = line.index(b'\t', 2)
                    key = line[2:i]
                    d = by[k]
                    if key not in d:
                        d[key] = line[i + 1:]
                    elif k in b'FRE' and d[key] != line[i + 1:]:
                        clash.setdefault((k.decode(), key.decode()), []).append(line[i + 1:])
        self._F = {k.decode(): v for k, v in rawF.items()}
        self.clash = clash
        self.first = {(k.decode(), n.decode()): v for k, m in by.items() if k in (b'F', b'R', b'E') for n, v in m.items() if (k.decode(), n.decode()) in clash}
        L = json.loads
        self.D = {k.decode(): L(v) for k, v in rawD.items()}
        for k, d in self.D.items():
            d['id'] = k
        self.R = {k.decode(): L(v) for k, v in rawR.items()}
        self.E = {k.decode(): L(v) for k, v in rawE.items()}
        self.G = {k.decode(): L(v) for k, v in rawG.items()}
        self.Fc = {}
        self._index()
        self.t_load = time.time() - t0

    def _index(self):
        self.by_qn = {}
        self.pat_bodies = {}
        self.overriders = {}
        for k, d in self.D.items():
            self.by_qn.setdefault(d['qn'], []).append(k)
            for o in d.get('over', ()):
                self.overriders.setdefault(o, []).append(k)
        for k in self._F:
            p = self.D[k].get('pat')
            if p:
                self.pat_bodies.setdefault(p, []).append(k)
        self.derived = {}
        for n, r in self.R.items():
            for b in r['bases']:
                self.derived.setdefault(b['t'], set()).add(n)

    # -- access
    def has(self, fid):
        return fid in self._F

    def F(self, fid):
        """Definition record of a function (parsed lazily)."""
        r = self.Fc.get(fid)
        if r is None:
            raw = self._F.get(fid)
            if raw is None:
                return None
            r = json.loads(raw)
            r['id'] = fid
            self.Fc[fid] = r
        return r

    def body_of(self, fid):
        """Definition of fid, or of a sibling instantiation / the pattern of the same template."""
        r = self.F(fid)
        if r is not None:
            return r
        d = self.D.get(fid)
        if not d:
            return None
        p = d.get('pat')
        if p:
            for s in self.pat_bodies.get(p, ()):
                return self.F(s)
            return self.F(p)
        for s in self.pat_bodies.get(fid, ()):
            return self.F(s)
        return None

    def fids(self):
        return self._F.keys()

    def functions(self, pred=None):
        for k in list(self._F):
            d = self.D[k]
            if pred is None or pred(d):
                yield k, d, self.F(k)

    def find(self, qn):
        """Ids of all functions with this qualified name."""
        return self.by_qn.get(qn, [])

    def find_def(self, qn):
        return [k for k in self.find(qn) if k in self._F]

    def need(self, qn):
        l = self.find_def(qn)
        if not l:
            raise AnalysisError('anchor vanished: no definition of %s' % qn)
        return l

    def need_rec(self, n):
        if n not in self.R:
            raise AnalysisError('anchor vanished: no class %s' % n)
        return self.R[n]

    def need_enum(self, n):
        if n not in self.E:
            raise AnalysisError('anchor vanished: no enum %s' % n)
        return self.E[n]

    def all_overriders(self, fid, acc=None):
        acc = set() if acc is None else acc
        for o in self.overriders.get(fid, ()):
            if o not in acc:
                acc.add(o)
                self.all_overriders(o, acc)
        return acc

    def all_derived(self, n, acc=None):
        acc = set() if acc is None else acc
        for o in self.derived.get(n, ()):
            if o not in acc:
                acc.add(o)
                self.all_derived(o, acc)
        return acc

    def bases_of(self, n, acc=None):
        acc = [] if acc is None else acc
        r = self.R.get(n)
        if r:
            for b in r['bases']:
                if b['t'] not in acc:
                    acc.append(b['t'])
                    self.bases_of(b['t'], acc)
        return acc

    def loc(self, fid, line=None):
        d = self.D.get(fid, {})
        if fid in self._F:
            d = self.F(fid)
        return '%s:%s' % (d.get('file', '?'), line if line else d.get('line', '?'))


KIDS1 = ('init', 'var', 'cond', 'then', 'else', 'inc', 'range', 'vinit', 'fp', 'size', 'filler', 'val', 'body')


def children(n):
    c = n.get('c')
    if c:
        for x in c:
            if x is not None:
                yield x
    for k in KIDS1:
        x = n.get(k)
        if isinstance(x, dict):
            yield x
    for k in ('h', 'place'):
        x = n.get(k)
        if isinstance(x, list):
            for y in x:
                yield y


def walk(n, lambdas=True):
    """Preorder over all nodes."""
    if n is None:
        return
    st = [x for x in reversed(n) if x is not None] if isinstance(n, list) else [n]
    while st:
        x = st.pop()
        yield x
        if not lambdas and x['k'] == 'lambda':
            continue
        st.extend(reversed(list(children(x))))


def fnodes(F, lambdas=True):
    """All nodes of a function: constructor initialisers and body."""
    for i in F.get('inits', ()):
        if i.get('init') is not None:
            yield from walk(i['init'], lambdas)
    yield from walk(F['body'], lambdas)

"""Front end: builds the clang extractor (once) and turns /repo's current sources into a
resolved program database.  Nothing of /repo is executed."""
import os, sys, json, subprocess, hashlib, pickle, re, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SLUGS_REPO', '/repo')
BUILD = os.environ.get('SLUGS_SA_BUILD', os.path.join(VERIF, 'build'))
EXTR_SRC = os.path.join(HERE, 'extractor', 'slugsx.cpp')


class AnalysisBroken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr)


def extractor():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(EXTR_SRC, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'slugsx-' + h)
    if os.path.exists(exe):
        return exe
    cxx = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['clang++-18', '-O0'] + cxx + ['-fno-rtti', EXTR_SRC, '-o', tmp, '-L/usr/lib/llvm-18/lib',
                                        '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def flags(lang):
    cudd = '../lib/cudd-3.0.0'
    f = []
    if lang == 'c++':
        f += ['-x', 'c++', '-std=c++11']
    else:
        f += ['-x', 'c', '-std=gnu17']
    f += ['-DUSE_CUDD', '-DNDEBUG', '-DHAVE_IEEE_754', '-DBSD', '-DSIZEOF_VOID_P=8', '-DSIZEOF_LONG=8',
          '-DCUDD_COMPILER_OPTIONS_SET', '-I.', '-I' + cudd + '/']
    f += ['-I%s/%s' % (cudd, d) for d in ('cudd', 'mtr', 'epd', 'st', 'util', 'dddmp')]
    f += ['-IBFAbstractionLibrary']
    if not os.path.exists(os.path.join(REPO, 'lib/cudd-3.0.0/config.h')):
        f += ['-I' + os.path.join(VERIF, 'fallback')]
    f += ['-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    return f


def _treehash(globs):
    h = hashlib.sha256()
    fs = []
    for g in globs:
        fs += glob.glob(os.path.join(REPO, g))
    for p in sorted(set(fs)):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


SRC_GLOBS = ['src/*.hpp', 'src/*.cpp', 'src/*.h', 'src/BFAbstractionLibrary/*.h', 'src/BFAbstractionLibrary/*.cpp',
             'lib/cudd-3.0.0/*/*.h']
CUDD_GLOBS = ['lib/cudd-3.0.0/*/*.h', 'lib/cudd-3.0.0/*/*.c']

_STRK = {'f', 'n', 'q', 'c', 't', 'ft', 'file', 'rt', 'm', 'base', 'cls', 'sn'}
_STRL = {'ov', 'bases', 'targs'}


def _decode(x, S):
    # in-place decoding of string-table references
    stack = [x]
    while stack:
        o = stack.pop()
        if isinstance(o, dict):
            for k, v in o.items():
                if k in _STRK:
                    if type(v) is int:
                        o[k] = S[v]
                        continue
                elif k in _STRL and isinstance(v, list):
                    o[k] = [S[i] if type(i) is int else i for i in v]
                    continue
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(o, list):
            for v in o:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def extract(src, lang, treehash, root=None):
    exe = extractor()
    key = hashlib.sha256(('%s|%s|%s|%s' % (os.path.basename(exe), src, lang, treehash)).encode()).hexdigest()[:24]
    cdir = os.path.join(BUILD, 'cache')
    os.makedirs(cdir, exist_ok=True)
    pk = os.path.join(cdir, key + '.pickle')
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as fh:
                return pickle.load(fh)
        except Exception:
            pass
    out = os.path.join(cdir, key + '.json.%d' % os.getpid())
    if root is None:
        root = os.path.realpath(os.path.join(REPO, 'src')) if lang == 'c++' else os.path.realpath(os.path.join(REPO, 'lib'))
    cmd = [exe, out, src, root, '--'] + flags(lang)
    r = subprocess.run(cmd, cwd=os.path.join(REPO, 'src'), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise AnalysisBroken('cannot parse %s: %s' % (src, r.stderr[-1500:]))
    with open(out) as fh:
        d = json.load(fh)
    os.unlink(out)
    S = d.pop('strings')
    _decode(d, S)
    for e in d['enums']:
        e['v'] = [(S[a], int(b)) for a, b in e['v']]
    tmp = pk + '.tmp%d' % os.getpid()
    with open(tmp, 'wb') as fh:
        pickle.dump(d, fh, protocol=4)
    os.rename(tmp, pk)
    return d


class Program:
    """Whole-program database: functions by USR, classes by canonical type name."""

    def __init__(self):
        self.fns = {}
        self.classes = {}
        self.globals = {}
        self.enums = {}
        self.units = []
        self.fn_units = {}

    def add(self, unit, d):
        self.units.append(unit)
        for f in d['functions']:
            if f['f'] not in self.fns:
                self.fns[f['f']] = f
                f['unit'] = unit
        for c in d['classes']:
            self.classes.setdefault(c['n'], c)
        for g in d['globals']:
            k = g['n']
            if k not in self.globals or ('i' in g and 'i' not in self.globals[k]):
                self.globals[k] = g
        for e in d['enums']:
            for n, v in e['v']:
                self.enums[n] = v

    # --- class hierarchy -------------------------------------------------
    def bases(self, cname):
        c = self.classes.get(cname)
        return list(c['bases']) if c else []

    def ancestors(self, cname):
        out = [cname]
        for b in self.bases(cname):
            for x in self.ancestors(b):
                if x not in out:
                    out.append(x)
        return out

    def method(self, cname, usr):
        """final overrider of virtual method usr for dynamic class cname (or None)"""
        for c in self.ancestors(cname):
            cl = self.classes.get(c)
            if not cl:
                continue
            for m in cl['methods']:
                if m['f'] == usr or self.overrides(m['f'], usr):
                    return m['f']
        return None

    def overrides(self, f, usr, depth=0):
        if f == usr:
            return True
        if not hasattr(self, '_ov'):
            self._ov = {}
            for c in self.classes.values():
                for m in c['methods']:
                    self._ov.setdefault(m['f'], set()).update(m.get('ov', []))
        if depth > 20:
            return False
        return any(self.overrides(o, usr, depth + 1) for o in self._ov.get(f, ()))

    def find_method(self, cname, name):
        """method by plain name, searching up the hierarchy -> function record"""
        for c in self.ancestors(cname):
            cl = self.classes.get(c)
            if not cl:
                continue
            for m in cl['methods']:
                if m['n'] == name and m['f'] in self.fns:
                    return self.fns[m['f']]
        return None

    def rel(self, path):
        r = os.path.realpath(REPO)
        return os.path.relpath(path, r) if path.startswith(r) else path


def slugs_units():
    src = os.path.join(REPO, 'src')
    us = [os.path.basename(p) for p in sorted(glob.glob(src + '/*.cpp'))]
    us += ['BFAbstractionLibrary/' + os.path.basename(p) for p in sorted(glob.glob(src + '/BFAbstractionLibrary/*.cpp'))]
    # CUDD back end only, as the Makefile builds it
    keep = []
    for u in us:
        keep.append(u)
    return keep


_prog = None


def program():
    """the C++ program (all translation units of src/)"""
    global _prog
    if _prog is not None:
        return _prog
    th = _treehash(SRC_GLOBS)
    extractor()
    us = slugs_units()
    us.sort(key=lambda u: u != 'main.cpp')
    P = Program()
    res = {}
    with ThreadPoolExecutor(8) as ex:
        for u, d in zip(us, ex.map(lambda u: extract(u, 'c++', th), us)):
            res[u] = d
    for u in us:
        P.add(u, res[u])
    if not P.fns or 'main.cpp' not in us:
        raise AnalysisBroken('no functions extracted')
    P.treehash = th
    _prog = P
    return P


_cprog = None


def cudd_units():
    us = []
    for d in ('cudd', 'mtr', 'epd', 'st', 'util', 'dddmp'):
        for p in sorted(glob.glob(os.path.join(REPO, 'lib/cudd-3.0.0', d, '*.c'))):
            b = os.path.basename(p)
            if b.startswith('test') or b == 'cpu_stats.c':
                continue
            us.append('../lib/cudd-3.0.0/%s/%s' % (d, b))
    return us


def cudd_program(only=None):
    global _cprog
    if _cprog is not None and only is None:
        return _cprog
    th = _treehash(CUDD_GLOBS)
    extractor()
    us = cudd_units()
    if only:
        us = [u for u in us if only(u)]
    P = Program()
    with ThreadPoolExecutor(8) as ex:
        for u, d in zip(us, ex.map(lambda u: extract(u, 'c', th), us)):
            P.add(u, d)
    P.treehash = th
    if only is None:
        _cprog = P
    return P


if __name__ == '__main__':
    t = time.time()
    extractor()
    P = program()
    log(len(P.fns), len(P.classes), P.units, time.time() - t)
    if len(sys.argv) > 1:
        t = time.time()
        P = cudd_program()
        log(len(P.fns), len(P.units), time.time() - t)

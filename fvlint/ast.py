"""Front end: export the resolved syntax tree of /repo's current sources and index it."""
import json, os, subprocess, sys, glob, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FVLINT_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
TOOLDIR = os.path.join(VERIF, 'tool')
BUILD = os.path.join(VERIF, '.build')
TOOL = os.path.join(BUILD, 'fvexport')
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    """The check could not be carried out (vanished anchor, unparsable source, engine limit)."""


def build_tool():
    src = os.path.join(TOOLDIR, 'fvexport.cpp')
    stamp = TOOL + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-w', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '-L' + LLVM + '/lib', LLVM + '/lib/libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build the exporter:\n' + r.stderr[-3000:])
    os.replace(tmp, TOOL)
    open(stamp, 'w').write(h)


def flags(repo=None):
    src = os.path.join(repo or REPO, 'src')
    return ['-std=c++14', '-fopenmp', '-I' + TOOLDIR + '/include', '-I/usr/include/eigen3',
            '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
            '-I/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include', '-I' + src,
            '-DEIGEN_DONT_PARALLELIZE', '-DWITH_PETSC=1', '-DDEBUG=1', '-isystem', '/usr/include/scotch', '-w',
            '-resource-dir', LLVM + '/lib/clang/18']


def unit_list():
    us = sorted(glob.glob(SRC + '/**/*.cpp', recursive=True))
    if not us:
        raise AnalysisBroken('no translation units under ' + SRC)
    return us


def export_one(unit, out, prefix=None, extra=None):
    r = subprocess.run([TOOL, prefix or SRC, unit, out, '--'] + flags() + (extra or []), capture_output=True, text=True)
    if not os.path.exists(out):
        raise AnalysisBroken('exporter failed on %s:\n%s' % (unit, r.stderr[-2000:]))
    with open(out) as f:
        d = json.load(f)
    if d['errors']:
        raise AnalysisBroken('%s does not parse:\n%s' % (unit, r.stderr[-2000:]))
    return d


class Fn:
    __slots__ = ('key', 'q', 'name', 'file', 'line', 'params', 'ret', 'inits', 'body', 'cls', 'unit', 'info')

    def __repr__(self):
        return '<Fn %s %s:%d>' % (self.q, self.file, self.line)

    @property
    def where(self):
        return '%s:%d' % (self.file, self.line)


def _walk_types(o, types):
    # in-place: replace type indices by strings
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for kk in ('t', 'at', 'ret', 'ct', 'base'):
                v = x.get(kk)
                if type(v) is int:
                    x[kk] = types[v]
            for v in x.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        else:
            for v in x:
                if isinstance(v, (dict, list)):
                    stack.append(v)


class Program:
    def __init__(self, units=None, only=None, repo=None):
        build_tool()
        self.units = units or unit_list()
        if only:
            self.units = [u for u in self.units if any(u.endswith(o) for o in only)]
            if len(self.units) < len(only):
                raise AnalysisBroken('translation units missing: wanted %s' % (only,))
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.decls = {}
        self.patterns = {}
        tmp = tempfile.mkdtemp(prefix='fvlint.')
        try:
            with ThreadPoolExecutor(max_workers=8) as ex:
                outs = list(ex.map(lambda iu: export_one(iu[1], os.path.join(tmp, '%d.json' % iu[0])), enumerate(self.units)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for u, d in zip(self.units, outs):
            self._merge(u, d)
        from .desugar import Desugar
        ds = Desugar(self, self.decls)
        for f in self.fns.values():
            ds.function(f)
        self._index()

    def rel(self, f):
        return os.path.relpath(f, REPO) if f.startswith(REPO + '/') else f

    def _merge(self, unit, d):
        types, files = d['types'], [self.rel(f) for f in d['files']]
        for k in ('fns', 'records', 'enums', 'globals', 'decls'):
            _walk_types(d[k], types)
        for key, o in d['fns'].items():
            if key in self.fns:
                continue
            f = Fn()
            f.key, f.q, f.name, f.file, f.line = key, o['q'], o['name'], files[o['file']], o['line']
            f.params, f.ret, f.inits, f.body, f.cls, f.unit = o['params'], o['ret'], o.get('inits'), o['body'], o.get('cls'), self.rel(unit)
            self.fns[key] = f
        for q, o in d['records'].items():
            o['file'] = files[o['file']]
            self.records.setdefault(q, o)
        for o in d['enums']:
            o['file'] = files[o['file']]
            self.enums.setdefault(o['q'], o)
        for o in d['globals']:
            o['file'] = files[o['file']]
            self.globals.setdefault(o['q'], o)
        for k, o in d['decls'].items():
            o['file'] = files[o['file']]
            self.decls.setdefault(k, o)
        for o in d['patterns']:
            self.patterns[(files[o['file']], o['line'])] = o['q']

    def _index(self):
        self.by_name = {}
        for f in self.fns.values():
            f.info = self.decls.get(f.key, {})
            self.by_name.setdefault(f.name, []).append(f)
        self.overriders = {}
        for k, d in self.decls.items():
            for b in d.get('overrides', []):
                self.overriders.setdefault(b, set()).add(k)

    # ---- lookups -------------------------------------------------------------------------------------
    def find(self, name, cls=None, nparams=None, cls_exact=None, file=None):
        r = [f for f in self.by_name.get(name, [])
             if (cls is None or (f.cls and strip_targs(f.cls).split('::')[-1] == cls))
             and (cls_exact is None or f.cls == cls_exact)
             and (nparams is None or len(f.params) == nparams)
             and (file is None or f.file.endswith(file))]
        return r

    def one(self, name, cls=None, **kw):
        r = self.find(name, cls, **kw)
        if not r:
            raise AnalysisBroken('anchor vanished: %s%s' % (cls + '::' if cls else '', name))
        return r[0]

    def subclasses(self, base):
        """all records deriving (transitively) from a record whose unqualified, untemplated name is base"""
        out = []
        def short(q):
            return strip_targs(q).split('::')[-1]
        def derives(q, seen):
            if q in seen:
                return False
            seen.add(q)
            r = self.records.get(q)
            if not r:
                return False
            for b in r['bases']:
                if short(b) == base or derives(b, seen):
                    return True
            return False
        for q in self.records:
            if derives(q, set()):
                out.append(q)
        return sorted(out)

    def bases(self, q):
        r = self.records.get(q)
        out = []
        if r:
            for b in r['bases']:
                out.append(b)
                out.extend(self.bases(b))
        return out

    def all_overriders(self, key, seen=None):
        seen = set() if seen is None else seen
        for k in self.overriders.get(key, ()):
            if k not in seen:
                seen.add(k)
                self.all_overriders(k, seen)
        return seen

    def resolve_virtual(self, key, cls):
        """the final overrider of virtual function `key` in dynamic class cls"""
        cands = {key} | self.all_overriders(key)
        for c in [cls] + self.bases(cls):
            for k in cands:
                if self.decls[k].get('cls') == c:
                    return k
        return key


def strip_targs(q):
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def short(q):
    return strip_targs(q).split('::')[-1]


def walk(o):
    """every dict node below o (pre-order)"""
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    stack.append(v)

"""Engine B1: accesses of OpenMP parallel regions.

Every statement executed inside a parallel region - including those of functions called from it, with all overriders of virtual
functions - is reduced to the set of places it reads and writes.  A place is a root (variable, what a pointer points to) and a path of
fields and indices; an index is a linear form over the iteration variable of the work-shared loop, variables of inner loops with
their ranges, and quantities that do not change in the region.  Two accesses of different threads in the same phase (between two
barriers) conflict if one writes, their places are not provably disjoint for different iterations, and they are not both atomic or both
in the same critical section.  Flow inside an iteration does not matter, so statement order, helper functions and local names do not
either."""
from .ast import AnalysisBroken, walk, short, strip_targs
import re

DEP = None                                   # an integer that may be anything
PURE = set('''fabs abs sqrt pow exp log log10 sin cos tan asin acos atan atan2 max min floor ceil fmax fmin isnan isinf isfinite hypot cbrt tanh sinh cosh
 operator* operator+ operator- operator/ operator== operator!= operator< operator> operator<= operator>= make_pair forward move get to_string tie
 omp_get_thread_num omp_get_num_threads omp_get_max_threads sgn'''.split())
ELEM = set('operator() operator[] at coeffRef coeff row col middleRows'.split())
WHOLE = set('noalias array matrix transpose eval derived block segment head tail topRows leftCols inverse dot norm squaredNorm sum cwiseProduct diagonal'.split())
ASSIGN = set('operator= operator+= operator-= operator*= operator/='.split())
VIEW = re.compile(r'(Array2dView|Array2dMutableView|Eigen::Map<|Eigen::Ref<)')
HANDLE = re.compile(r'^(const )?(struct )?(_p_\w+ \*|Vec|Mat|KSP|PC|IS|VecScatter|MPI_\w+|ompi_\w+ \*)( ?const)?$')


class Lin:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def num(n):
        return Lin({(): n})

    @staticmethod
    def sym(s):
        return Lin({(s,): 1})

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Lin(r)

    def __neg__(self):
        return Lin({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b, key=repr))
                r[k] = r.get(k, 0) + x * y
        return Lin(r)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        return '+'.join('%s%s' % ('' if v == 1 and k else v, '*'.join(map(str, [x[0] if isinstance(x, tuple) else x for x in k]))) for k, v in self.m.items()) or '0'

    def const(self):
        return self.m.get((), 0) if all(k == () for k in self.m) else None


class Place:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def key(self):
        return (self.root, self.path)

    def __repr__(self):
        return '%s%s' % (rootname(self.root), ''.join('.' + c if isinstance(c, str) else '[%r]' % (c,) for c in self.path))


class Pt:
    __slots__ = ('to',)

    def __init__(self, to):
        self.to = to


class Private:
    def __repr__(self):
        return 'private'


def isptr(t):
    return re.search(r'\*(\s|const|volatile|__restrict|restrict)*$', t) is not None


def isnull(e):
    while e['k'] == 'Cast':
        e = e['e']
    return e['k'] in ('Null', 'Zero') or e['k'] == 'Int' and e.get('v') == 0 or e.get('cv') == 0


def rootname(r):
    if r[0] == 'either':
        return '(%s or %s)' % tuple(rootname(x[0]) for x in r[1:3])
    if r[0] == '*':
        return '*(%s%s)' % (rootname(r[1]), ''.join('.' + c if isinstance(c, str) else '[]' for c in r[2]))
    return str(r[2] if len(r) > 2 else r[1] if len(r) > 1 else r[0])


def isprivate(root):
    while root[0] == '*':
        root = root[1]
    if root[0] == 'either':
        return all(isprivate(x[0]) for x in root[1:])
    return root[0] == 'priv'


def roots(root):
    """the concrete (root, path, conditions under which it is this one) of a place that is one of several"""
    if root[0] == 'either':
        return [(r2, p2 + p, g2 + g) for r, p, g in root[1:] for r2, p2, g2 in roots(r)]
    if root[0] == '*':
        return [(('*', r, tuple(x if isinstance(x, str) else 0 for x in p) + root[2]), (), g) for r, p, g in roots(root[1])]
    return [(root, (), ())]


def compound(root):
    while root[0] == '*':
        root = root[1]
    return root[0] == 'either'


class Frame:
    __slots__ = ('fn', 'env', 'this', 'ret', 'mod')

    def __init__(self, fn, this, mod):
        self.fn, self.env, self.this, self.ret, self.mod = fn, {}, this, [], mod


class Access:
    __slots__ = ('place', 'w', 'prot', 'where', 'ctx')

    def __init__(self, place, w, prot, where, ctx):
        self.place, self.w, self.prot, self.where, self.ctx = place, w, prot, where, ctx

    def __repr__(self):
        return '%s of %r (%s)' % ('write' if self.w else 'read', self.place, self.where)


def modified(body):
    """ids of variables assigned, incremented or whose address/reference escapes"""
    out = set()
    for n in walk(body or {}):
        if n['k'] == 'Asg':
            out.add(n['a'].get('id'))
        elif n['k'] == 'Un' and ('++' in n['op'] or '--' in n['op']):
            out.add(n['e'].get('id'))
        elif n['k'] == 'Un' and n['op'] == '&':
            out.add(n['e'].get('id'))
    return out


ALLOWED = ('default', 'shared', 'private', 'firstprivate', 'lastprivate', 'reduction', 'schedule', 'nowait', 'num_threads', 'if', 'update', 'safelen', 'simdlen')


class Region:
    """one parallel region of one function"""
    def __init__(self, prog, fn, node):
        self.prog, self.fn, self.node = prog, fn, node
        self.facts = facts(prog)
        self.guards = []
        self.leaky = set()                       # private objects that hold pointers to shared data
        self.phases = [[]]
        self.ctx = ('all',)
        self.prot = None
        self.nprivate = 0
        self.syms = 0
        self.bounds = {}
        self.loops = {}
        self.throws = []
        self.stack = []
        self.inl = set()
        self.shared_frame = Frame(fn, Place(('this',)), modified(fn.body))
        self.outer = {}
        for p in fn.params:
            self.outer[p['id']] = ('param', p)
        for n in walk(fn.body):
            if n['k'] == 'Decl':
                for v in n['vars']:
                    self.outer[v['id']] = ('local', v)
            elif n['k'] == 'ForRange':
                self.outer[n['var']['id']] = ('local', n['var'])

    # ---- bookkeeping ------------------------------------------------------------------------------------------------
    def newpriv(self, n=''):
        self.nprivate += 1
        return Place(('priv', self.nprivate, n))

    def newsym(self, name, lo=None, hi=None):
        self.syms += 1
        s = (name + '_' if name in ('d', 'n', 'loop', 'once', 'priv') else name, self.syms)
        self.bounds[s] = (lo, hi)
        return s

    def touch(self, place, w, e):
        if not isinstance(place, Place):
            if place is DEP and w:
                raise AnalysisBroken('write through a pointer of unknown target at %s' % self.where(e))
            return
        if compound(place.root):
            for r, p, g in roots(place.root):
                self.guards.extend(g)
                self.touch(Place(r, p + place.path), w, e)
                del self.guards[len(self.guards) - len(g):]
            return
        if isprivate(place.root):
            return
        f = self.stack[-1].fn
        self.phases[-1].append(Access(self.owned(place), w, self.prot, '%s:%s' % (f.file, e.get('l', f.line)), self.ctx))

    def leak(self, p, v):
        if isinstance(v, Pt) and isinstance(p, Place) and isprivate(p.root) and not isprivate(v.to.root):
            self.leaky.add(p.root)

    def where(self, e):
        f = self.stack[-1].fn if self.stack else self.fn
        return '%s:%s' % (f.file, e.get('l', f.line))

    # ---- region -----------------------------------------------------------------------------------------------------
    def run(self):
        fr = Frame(self.fn, Place(('this',)), modified(self.fn.body))
        self.stack.append(fr)
        self.clauses(self.node, fr)
        d = self.node['dir']
        if d.startswith('parallel for'):
            self.loop(self.node['body'], fr)
        elif d == 'parallel':
            self.stmt(self.node['body'], fr)
        else:
            raise AnalysisBroken('OpenMP directive "%s" at %s is not modelled' % (d, self.where(self.node)))
        return self

    def clauses(self, n, fr):
        for c in n['clauses']:
            if c['kind'] not in ALLOWED:
                raise AnalysisBroken('OpenMP clause "%s" at %s is not modelled' % (c['kind'], self.where(n)))
            if c['kind'] in ('private', 'firstprivate', 'lastprivate', 'reduction'):
                for v in c.get('vars', []):
                    fr.env[v['id']] = self.newpriv(v['n'])

    def header(self, s, fr):
        """(id, name, lo, hi) of a canonical loop or None"""
        i = s.get('init')
        if not i:
            return None
        if i['k'] == 'Decl' and len(i['vars']) == 1 and i['vars'][0].get('init'):
            vid, name, lo = i['vars'][0]['id'], i['vars'][0]['n'], i['vars'][0]['init']
        elif i['k'] == 'Expr' and i['e']['k'] == 'Asg' and i['e']['op'] == '=' and i['e']['a']['k'] == 'Ref':
            vid, name, lo = i['e']['a']['id'], i['e']['a']['n'], i['e']['b']
        else:
            return None
        c = s.get('c')
        if not c or c['k'] != 'Bin' or c['op'] not in ('<', '<=', '!=', '>', '>='):
            return None
        a, b, op = c['a'], c['b'], c['op']
        if b.get('id') == vid and a.get('id') != vid:
            a, b, op = b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op]
        if a.get('id') != vid:
            return None
        inc = s.get('inc')
        one = inc and inc['k'] == 'Un' and '++' in inc['op'] and inc['e'].get('id') == vid or \
            inc and inc['k'] == 'Asg' and inc['op'] == '+=' and inc['a'].get('id') == vid and inc['b'].get('cv', 0) > 0
        dn = inc and inc['k'] == 'Un' and '--' in inc['op'] and inc['e'].get('id') == vid
        if vid in modified(s['body']):
            return None
        lo, hi = self.val(lo, fr), self.val(b, fr)
        if one and op in ('<', '<=', '!='):
            if op == '<=' and isinstance(hi, Lin):
                hi = hi + Lin.num(1)
            return vid, name, lo, hi
        if dn and op in ('>', '>='):
            return vid, name, (hi + Lin.num(1) if op == '>' else hi) if isinstance(hi, Lin) else DEP, lo + Lin.num(1) if isinstance(lo, Lin) else DEP
        return None

    def loop(self, s, fr):
        """a work-shared loop"""
        while s['k'] == 'Block' and len(s['body']) == 1:
            s = s['body'][0]
        if s['k'] != 'For':
            raise AnalysisBroken('work-shared loop at %s is not a for statement' % self.where(s))
        h = self.header(s, fr)
        if not h:
            raise AnalysisBroken('work-shared loop at %s is not canonical' % self.where(s))
        vid, name, lo, hi = h
        x = self.newsym(name, lo, hi)
        lid = (s['l'], len(self.loops))
        self.loops[lid] = (x, lo, hi)
        old, self.ctx = self.ctx, ('loop', lid)
        fr.env[vid] = Lin.sym(x)
        self.stmt(s['body'], fr)
        self.ctx = old

    def barrier(self):
        self.phases.append([])

    def s_omp(self, s, fr):
        d = s['dir']
        if d in ('for', 'for simd'):
            if self.ctx != ('all',):
                raise AnalysisBroken('work sharing nested in work sharing at %s' % self.where(s))
            self.clauses(s, fr)
            self.loop(s['body'], fr)
            if not any(c['kind'] == 'nowait' for c in s['clauses']):
                self.barrier()
        elif d == 'critical':
            old, self.prot = self.prot, ('critical', s.get('name') or '')
            self.stmt(s['body'], fr)
            self.prot = old
        elif d == 'atomic':
            self.atomic(s, fr)
        elif d == 'barrier':
            self.barrier()
        elif d in ('single', 'master', 'masked'):
            old, self.ctx = self.ctx, ('once', s['l'])
            self.stmt(s['body'], fr)
            self.ctx = old
            if d == 'single' and not any(c['kind'] == 'nowait' for c in s['clauses']):
                self.barrier()
        elif d == 'simd':
            self.stmt(s['body'], fr)
        elif d.startswith('parallel'):        # nested region: one thread of the enclosing team runs it with its own team; its own obligations are separate
            self.stmt(s['body'], fr)
        else:
            raise AnalysisBroken('OpenMP directive "%s" at %s is not modelled' % (d, self.where(s)))

    def atomic(self, s, fr):
        b = s['body']
        while b['k'] == 'Block' and len(b['body']) == 1:
            b = b['body'][0]
        e = b['e'] if b['k'] == 'Expr' else b
        if e['k'] == 'Asg':
            p = self.place(e['a'], fr)
            self.val(e['b'], fr)
        elif e['k'] == 'Un':
            p = self.place(e['e'], fr)
        else:
            raise AnalysisBroken('atomic construct at %s is not an update' % self.where(s))
        old, self.prot = self.prot, ('atomic',)
        self.touch(p, True, e)
        self.prot = old

    def guard(self, c, fr):
        """a condition that tells on which side of a face of it a cell is: ((iteration variable, position of the face), is left)"""
        while c['k'] == 'Cast':
            c = c['e']
        if c['k'] != 'Bin' or c['op'] not in ('<', '>', '<=', '>=', '==', '!='):
            return None
        ph, self.phases = self.phases, [[]]
        try:
            a, b, op = self.val(c['a'], fr), self.val(c['b'], fr), c['op']
        finally:
            self.phases = ph
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            i, d = onesym(x), onesym(y)
            if not i or not d or i not in self.bounds or d[0] != 'd':
                continue
            n, idx = lastname(d)
            if n == 'esuel' and o in ('<', '>', '<=', '>=') and len(idx) == 2 and onesym(idx[0]) == i:
                return (i, idx[1]), o in ('<', '<=')               # a neighbour is never the cell itself
            if n == 'intfac' and o in ('==', '!=') and len(idx) == 2 and idx[1].const() in (0, 1):
                f = onesym(idx[0])
                if f and f[0] == 'd':
                    n, jdx = lastname(f)
                    if n == 'elemface' and len(jdx) == 2 and onesym(jdx[0]) == i:
                        return (i, jdx[1]), (o == '==') == (idx[1].const() == 0)
        return None

    def owned(self, place):
        """an index that is a face of the iteration's cell, reached only on one side of it, belongs to that iteration"""
        if not self.guards:
            return place
        out = []
        for x in place.path:
            f = onesym(x) if isinstance(x, Lin) else None
            if f and f[0] == 'd':
                n, idx = lastname(f)
                if n == 'elemface' and len(idx) == 2:
                    for (i, j), left in self.guards:
                        if onesym(idx[0]) == i and idx[1] == j:
                            x = ('own', left)
            out.append(x)
        return Place(place.root, out)

    # ---- statements -------------------------------------------------------------------------------------------------
    def stmt(self, s, fr):
        if not s:
            return
        k = s['k']
        if k == 'Block':
            for x in s['body']:
                self.stmt(x, fr)
        elif k == 'Expr':
            self.val(s['e'], fr)
        elif k == 'Decl':
            for v in s['vars']:
                self.decl(v, fr)
        elif k == 'If':
            if s.get('init'):
                self.stmt(s['init'], fr)
            if s.get('cvar'):
                self.decl(s['cvar'], fr)
            g = self.guard(s['c'], fr)
            self.val(s['c'], fr)
            for br, pol in ((s['a'], True), (s['b'], False)):
                if g:
                    self.guards.append((g[0], g[1] == pol))
                self.stmt(br, fr)
                if g:
                    self.guards.pop()
        elif k == 'For':
            h = self.header(s, fr)
            if h:
                fr.env[h[0]] = Lin.sym(self.newsym(h[1], h[2], h[3]))
                if h[0] in self.outer and s['init']['k'] == 'Expr' and self.outerplace(h[0], fr):
                    self.touch(self.outerplace(h[0], fr), True, s['init']['e'])
            else:
                if s.get('init'):
                    self.stmt(s['init'], fr)
                    if s['init']['k'] == 'Decl':
                        for v in s['init']['vars']:
                            if isinstance(fr.env.get(v['id']), Lin):
                                fr.env[v['id']] = DEP
                if s.get('c'):
                    self.val(s['c'], fr)
                if s.get('inc'):
                    self.val(s['inc'], fr)
            self.stmt(s['body'], fr)
        elif k == 'ForRange':
            r = self.obj(s['range'], fr)
            el = Place(r.root, r.path + (DEP,)) if isinstance(r, Place) else DEP
            if s['var'].get('ref'):
                fr.env[s['var']['id']] = el
            else:
                self.touch(el, False, s['range'])
                fr.env[s['var']['id']] = self.load(el, s['var']['t'])
            self.stmt(s['body'], fr)
        elif k in ('While', 'Do', 'Switch'):
            self.val(s['c'], fr)
            self.stmt(s['body'], fr)
        elif k in ('Case', 'Default', 'Label'):
            self.stmt(s['body'], fr)
        elif k == 'Return':
            if s.get('e'):
                isref = fr.fn.ret.strip().endswith('&')
                fr.ret.append(self.place(s['e'], fr) if isref else self.val(s['e'], fr))
        elif k in ('Break', 'Continue', 'Nop', 'Goto'):
            pass
        elif k == 'Try':
            self.stmt(s['body'], fr)
            for h in s['handlers']:
                if h.get('var'):
                    fr.env[h['var']['id']] = self.newpriv()
                self.stmt(h['body'], fr)
        elif k == 'Omp':
            self.s_omp(s, fr)
        else:
            raise AnalysisBroken('statement %s at %s is not modelled' % (s.get('cls', k), self.where(s)))

    def decl(self, v, fr):
        t = v['t']
        if v.get('static'):
            fr.env[v['id']] = Place(('global', v['id'], v['n']))
            return
        if v.get('ref') and v.get('init'):
            fr.env[v['id']] = self.place(v['init'], fr)
            return
        if v.get('dims') or not self.scalar(t):
            p = self.newpriv(v['n'])
            fr.env[v['id']] = p
            if v.get('init'):
                fr.env[v['id']] = self.construct(v['init'], p, fr, t)
            return
        val = self.val(v['init'], fr) if v.get('init') else DEP
        if v['id'] in fr.mod and not isinstance(val, Pt):
            val = DEP
        elif v['id'] in fr.mod and isinstance(val, Pt):
            val = Pt(Place(val.to.root, val.to.path[:-1] + (DEP,))) if val.to.path else val
        fr.env[v['id']] = ('own', val, self.newpriv(v['n']))

    def scalar(self, t):
        t = t.strip()
        return isptr(t) or re.match(
            r'^(const )?(unsigned |signed )?(int|long|short|char|bool|double|float|size_t|unsigned|fint|freal|PetscInt|PetscScalar|PetscReal|StatusCode|PetscErrorCode|EIndex|FIndex|long long|unsigned long)( int)?( const)?$', t) is not None or HANDLE.match(t) is not None or 'enum' in t

    # ---- values -----------------------------------------------------------------------------------------------------
    def outerplace(self, vid, fr):
        for f in reversed(self.stack):
            if f is fr and vid in f.env:
                v = f.env[vid]
                return None if not isinstance(v, Place) or isprivate(v.root) else v
        if vid in self.outer:
            return Place(('var', vid, self.outer[vid][1]['n']))
        return None

    def lookup(self, e, fr):
        """environment entry of a variable: Place, Lin, Pt or DEP; outer variables are resolved through their initialisers"""
        vid = e['id']
        if vid in fr.env:
            return fr.env[vid]
        if e.get('dk') in ('global', 'slocal'):
            return Place(('global', vid, e['n']))
        if fr.fn is not self.fn and vid not in self.outer:
            # captured variable of a lambda or unknown
            return Place(('var', vid, e['n']))
        kind, v = self.outer.get(vid, ('', None))
        if v is None:
            return Place(('var', vid, e['n']))
        r = None
        if kind == 'local' and v.get('init') and vid not in self.shared_frame.mod and vid not in self.inl and v.get('l', 0) <= self.node['l']:
            t = v['t']
            self.inl.add(vid)
            ph, self.phases = self.phases, [[]]
            try:
                if v.get('ref'):
                    r = self.place(v['init'], self.shared_frame)
                elif isptr(t):
                    r = self.val(v['init'], self.shared_frame)
                    if not isinstance(r, Pt):
                        r = None
                elif VIEW.search(t):
                    q = Place(('var', vid, v['n']))
                    c = self.construct(v['init'], q, self.shared_frame, t)
                    r = c
                elif re.match(r'^(const )?(int|fint|unsigned|long|short)( const)?$', t.strip()):
                    r = self.val(v['init'], self.shared_frame)
                    if not isinstance(r, Lin):
                        r = None
            finally:
                self.phases = ph
                self.inl.discard(vid)
        if r is None:
            if v.get('ref'):
                r = Place(('*ref', vid, v['n'])) if False else Place(('var', vid, v['n']))
            else:
                r = Place(('var', vid, v['n']))
        self.shared_frame.env[vid] = fr.env[vid] = r
        return r

    def load(self, p, t):
        """value stored at a shared or private place"""
        t = (t or '').strip()
        t = re.sub(r'\s*&+$', '', t)
        if not isinstance(p, Place):
            return DEP
        if p.root in self.leaky and isptr(t):
            return DEP
        if isptr(t) or HANDLE.match(t):
            return Pt(Place(('*', p.root, tuple(x if isinstance(x, str) else 0 for x in p.path)), (Lin.num(0),)))
        if p.root[0] == 'priv':
            return DEP
        if not self.scalar(t) or any(x is DEP or isinstance(x, tuple) for x in p.path):
            return DEP
        if any(isinstance(x, Lin) and any(s in self.bounds or s[0] == 'd' for k in x.m for s in k) for x in p.path):
            return Lin.sym(('d', p.root, p.path))                 # depends on the data at a position that varies
        if p.path and p.path[-1] in self.facts:
            return Lin({tuple(('n', p.root, p.path[:-1] + (c,)) for c in k): v for k, v in self.facts[p.path[-1]].m.items()})
        return Lin.sym(('n', p.root, p.path))

    def place(self, e, fr):
        """the place an lvalue denotes (or a private one for temporaries)"""
        k = e['k']
        if k == 'Ref':
            v = self.lookup(e, fr)
            if isinstance(v, tuple):
                return v[2]
            if isinstance(v, (Lin, Pt)):
                if e['id'] in self.outer and e['id'] not in (fr.env if fr is not self.shared_frame else {}):
                    return Place(('var', e['id'], e['n']))
                return self.newpriv(e['n'])
            return v
        if k == 'Mem':
            if e.get('arrow'):
                b = self.val(e['b'], fr)
                b = self.deref(b)
            else:
                b = self.obj(e['b'], fr)
            if not isinstance(b, Place):
                return DEP
            f = b.path + (e['n'],)
            t = e['t']
            return Place(b.root, f)
        if k == 'Sub':
            b = self.val(e['b'], fr)
            i = self.val(e['i'], fr)
            return self.index(b, i)
        if k == 'Un' and e['op'] == '*':
            return self.deref(self.val(e['e'], fr))
        if k == 'Un' and e['op'] in ('++', '--'):
            self.val(e, fr)
            return self.place(e['e'], fr)
        if k == 'Asg':
            self.val(e, fr)
            return self.place(e['a'], fr)
        if k == 'This':
            return fr.this
        if k == 'Cond':
            self.val(e['c'], fr)
            a, b = self.place(e['a'], fr), self.place(e['b'], fr)
            if isinstance(a, Place) and isinstance(b, Place) and a.key() == b.key():
                return a
            if isinstance(a, Place) and isinstance(b, Place) and a.root == b.root:
                n = 0
                while n < min(len(a.path), len(b.path)) and a.path[n] == b.path[n]:
                    n += 1
                return Place(a.root, a.path[:n])
            if isinstance(a, Place) and isinstance(b, Place):
                g = self.guard(e['c'], fr)
                return Place(('either', (a.root, a.path, ((g[0], g[1]),) if g else ()),
                              (b.root, b.path, ((g[0], not g[1]),) if g else ())), ())
            return DEP
        if k == 'Call':
            r = self.call(e, fr)
            return r if isinstance(r, Place) else self.newpriv()
        if k == 'Cast':
            return self.place(e['e'], fr)
        if k in ('Ctor', 'Init', 'Lambda', 'Other', 'StdInit', 'Zero', 'Str', 'New'):
            p = self.newpriv()
            return self.construct(e, p, fr, e['t'])
        self.val(e, fr)
        return self.newpriv()

    def deref(self, v):
        if isinstance(v, Pt):
            p = v.to
            if p.path and isinstance(p.path[-1], Lin) and p.path[-1] == Lin.num(0) and p.root[0] == '*':
                # pointer to a single object: keep the index so that p[k] and *p agree
                return p
            return p
        if isinstance(v, Place):
            return v
        return DEP

    def index(self, b, i):
        if isinstance(b, Pt):
            p = b.to
            if p.path and (isinstance(p.path[-1], Lin) or p.path[-1] is DEP):
                last = p.path[-1]
                n = last + i if isinstance(last, Lin) and isinstance(i, Lin) else DEP
                return Place(p.root, p.path[:-1] + (n,))
            return Place(p.root, p.path + (i if isinstance(i, Lin) else DEP,))
        if isinstance(b, Place):
            return Place(b.root, b.path + (i if isinstance(i, Lin) else DEP,))
        return DEP

    def joinp(self, a, b, e):
        """a pointer that is one of two"""
        if a.to.key() == b.to.key():
            return a
        if a.to.root == b.to.root and len(a.to.path) == len(b.to.path):
            return Pt(Place(a.to.root, tuple(x if isinstance(x, str) and x == y or isinstance(x, Lin) and x == y else DEP for x, y in zip(a.to.path, b.to.path))))
        if isprivate(a.to.root) and isprivate(b.to.root):
            return Pt(Place(self.newpriv().root, (DEP,)))
        for q in (a.to, b.to):                   # what is read through it may be any element of either
            n = len(q.path)
            while n and not isinstance(q.path[n - 1], str):
                n -= 1
            self.touch(Place(q.root, q.path[:n]), False, e)
        return DEP

    def obj(self, e, fr):
        """place of an object expression (also through pointers used as objects)"""
        t = e['t'].strip()
        if isptr(t):
            return self.deref(self.val(e, fr))
        return self.place(e, fr)

    def construct(self, e, p, fr, t):
        """initialise place p by expression e; returns the place the object denotes (views alias what they view)"""
        if e['k'] == 'Cast':
            return self.construct(e['e'], p, fr, t)
        if e['k'] in ('Init', 'StdInit'):
            for a in e.get('args', []) + ([e['e']] if e.get('e') else []):
                if a:
                    if self.scalar(a['t']):
                        self.leak(p, self.val(a, fr))
                    else:
                        q = self.construct(a, self.newpriv(), fr, a['t'])
                        if isinstance(q, Place) and q.root in self.leaky:
                            self.leaky.add(p.root)
            return p
        if e['k'] == 'Ctor':
            d = self.prog.decls.get(e['fn'], {})
            args = [a for a in e['args'] if a]
            if VIEW.search(e['t']):
                if e.get('copy') and args:
                    return self.place(args[0], fr)
                v = [self.val(a, fr) for a in args]
                if v and isinstance(v[0], Pt):
                    q = v[0].to
                    return Place(q.root, q.path[:-1] if q.path and q.path[-1] == Lin.num(0) else q.path)
                if v and isinstance(v[0], Place):
                    return v[0]
                return p
            if e.get('copy') and args:
                q = self.place(args[0], fr)
                self.touch(q, False, e)
                return p
            f = self.prog.fns.get(e['fn'])
            if f and f.body is not None:
                self.invoke(f, p, e['args'], fr, e)
                return p
            self.external(e, d, p, args, fr)
            return p
        if e['k'] == 'Call':
            r = self.call(e, fr)
            d = self.prog.decls.get(e.get('fn') or '', {})
            if isinstance(r, Place) and (VIEW.search(t)):
                return r
            if isinstance(r, Place) and d.get('ret', '').strip().endswith('&'):
                self.touch(r, False, e)
            return p
        if e['k'] == 'Lambda':
            return p
        q = self.val(e, fr)
        return p

    def val(self, e, fr):
        """rvalue of an expression; every access is recorded"""
        if e is None:
            return DEP
        k = e['k']
        if 'cv' in e and isinstance(e['cv'], (int, bool)) and k not in ('Asg', 'Call'):
            return Lin.num(int(e['cv']))
        if k in ('Int', 'Float', 'Str', 'Null', 'Zero', 'Sizeof', 'FnRef'):
            return DEP
        if k == 'This':
            return Pt(fr.this)
        if k == 'StmtExpr':
            self.stmt(e['body'], fr)
            return self.val(e['e'], fr)
        if k == 'Ref':
            if e.get('dk') == 'enum':
                return DEP
            v = self.lookup(e, fr)
            if isinstance(v, tuple):
                return v[1]
            if isinstance(v, (Lin, Pt)) or v is DEP:
                return v
            if isinstance(v, Place):
                if re.search(r'\[\d*\]', e['t']):
                    return Pt(Place(v.root, v.path + (Lin.num(0),)))
                self.touch(v, False, e)
                return self.load(v, e['t'])
            return DEP
        if k in ('Mem', 'Sub') or k == 'Un' and e['op'] == '*':
            p = self.place(e, fr)
            if re.search(r'\[\d*\]', e['t']) and not isptr(e['t']):
                return Pt(Place(p.root, p.path + (Lin.num(0),))) if isinstance(p, Place) else DEP
            self.touch(p, False, e)
            return self.load(p, e['t'])
        if k == 'Un':
            if e['op'] == '&':
                p = self.place(e['e'], fr)
                return Pt(p) if isinstance(p, Place) else DEP
            if '++' in e['op'] or '--' in e['op']:
                p = self.place(e['e'], fr)
                self.touch(p, True, e)
                return DEP
            v = self.val(e['e'], fr)
            if e['op'] == '-' and isinstance(v, Lin):
                return -v
            return v if e['op'] == '+' else DEP
        if k == 'Asg':
            r = self.val(e['b'], fr)
            p = self.place(e['a'], fr)
            if e['op'] != '=':
                self.touch(p, False, e)
            self.touch(p, True, e)
            if e['a']['k'] != 'Ref':
                self.leak(p, r)
            if e['a']['k'] == 'Ref' and isinstance(fr.env.get(e['a']['id']), tuple) and isinstance(r, Pt):
                o = fr.env[e['a']['id']]
                if o[1] is DEP:
                    fr.env[e['a']['id']] = ('own', Pt(Place(r.to.root, r.to.path[:-1] + (DEP,))) if r.to.path else r, o[2])
                elif isinstance(o[1], Pt) and o[1].to.root != r.to.root and not isprivate(r.to.root):
                    raise AnalysisBroken('pointer with several targets at %s' % self.where(e))
            return r
        if k == 'Bin':
            a, b = self.val(e['a'], fr), self.val(e['b'], fr)
            op = e['op']
            if isinstance(a, Pt) and op in ('+', '-'):
                q = self.index(a, (b if op == '+' else -b) if isinstance(b, Lin) else DEP)
                return Pt(q)
            if isinstance(b, Pt) and op == '+':
                return Pt(self.index(b, a))
            if isinstance(a, Lin) and isinstance(b, Lin):
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
            return DEP
        if k == 'Cond':
            self.val(e['c'], fr)
            a, b = self.val(e['a'], fr), self.val(e['b'], fr)
            if isinstance(a, Pt) and isnull(e['b']):
                return a
            if isinstance(b, Pt) and isnull(e['a']):
                return b
            if isinstance(a, Pt) and isinstance(b, Pt):
                return self.joinp(a, b, e)
            return a if isinstance(a, Lin) and a == b else DEP
        if k == 'Cast':
            v = self.val(e['e'], fr)
            if isinstance(v, Pt) and e.get('explicit') and '*' in e['t'] and '*' in e['e']['t']:
                a, b = (re.sub(r'\bconst\b|\*|\s', '', x) for x in (e['t'], e['e']['t']))
                if a != b and v.to.path and isinstance(v.to.path[-1], Lin) and v.to.path[-1] != Lin.num(0):
                    return Pt(Place(v.to.root, v.to.path[:-1] + (DEP,)))
            return v
        if k == 'Call':
            r = self.call(e, fr)
            d = self.prog.decls.get(e.get('fn') or '', {})
            if isinstance(r, Place) and d.get('ret', '').strip().endswith('&') and self.scalar(re.sub(r'\s*&$', '', d['ret'])):
                self.touch(r, False, e)
                return self.load(r, d['ret'])
            return r
        if k in ('Ctor', 'Init', 'StdInit', 'Lambda'):
            return self.construct(e, self.newpriv(), fr, e['t'])
        if k == 'New':
            p = self.newpriv()
            if e.get('size'):
                self.val(e['size'], fr)
            if e.get('init'):
                self.construct(e['init'], p, fr, e['t'])
            return Pt(Place(p.root, (Lin.num(0),)))
        if k == 'Delete':
            self.val(e['e'], fr)
            return DEP
        if k == 'Throw':
            self.throws.append(self.where(e))
            if e.get('e'):
                self.construct(e['e'], self.newpriv(), fr, e['e']['t'])
            return DEP
        if k in ('Other', 'ArrInit'):
            for a in e.get('args', []):
                self.val(a, fr)
            return DEP
        raise AnalysisBroken('expression %s at %s is not modelled' % (k, self.where(e)))

    # ---- calls ------------------------------------------------------------------------------------------------------
    def call(self, e, fr):
        d = self.prog.decls.get(e.get('fn') or '', {})
        args = [a for a in e['args'] if a]
        if not e.get('fn'):
            if e.get('callee'):
                self.val(e['callee'], fr) if e['callee']['k'] != 'FnRef' else None
            for a in args:
                self.val(a, fr)
            return DEP
        o = None
        if e.get('obj') is not None:
            o = self.deref(self.val(e['obj'], fr)) if e.get('arrow') else self.obj(e['obj'], fr)
        elif e.get('memop'):
            o = self.obj(args[0], fr)
            args = args[1:]
        name, cls = d.get('name', ''), d.get('cls') or ''
        if name in ('operator()', 'get') and short(cls) in ('Array2d', 'Array2dView', 'Array2dMutableView') and isinstance(o, Place):
            idx = [self.val(a, fr) for a in args]
            if len(idx) == 1:
                idx.append(Lin.num(0))
            return Place(o.root, o.path + tuple(i if isinstance(i, Lin) else DEP for i in idx)) if d.get('ret', '').strip().endswith('&') else \
                self.readelem(Place(o.root, o.path + tuple(i if isinstance(i, Lin) else DEP for i in idx)), e)
        keys = [e['fn']]
        if e.get('virt'):
            keys = [e['fn']] + sorted(self.prog.all_overriders(e['fn']))
        fs = [self.prog.fns[k] for k in keys if k in self.prog.fns and self.prog.fns[k].body is not None]
        if fs:
            out = [self.invoke(f, o, args, fr, e) for f in fs]
            if len(out) == 1 or all(self.samev(out[0], x) for x in out[1:]):
                return out[0]
            return DEP
        if e.get('virt') and not d.get('in', True):
            pass
        return self.external(e, d, o, args, fr)

    def readelem(self, p, e):
        self.touch(p, False, e)
        return self.load(p, e['t'])

    def samev(self, a, b):
        if isinstance(a, Lin):
            return a == b
        if isinstance(a, Pt) and isinstance(b, Pt):
            return a.to.key() == b.to.key()
        if isinstance(a, Place) and isinstance(b, Place):
            return a.key() == b.key()
        return a is b

    def invoke(self, f, this, args, fr, e):
        if len(self.stack) > 24 or any(x.fn is f for x in self.stack[1:]):
            raise AnalysisBroken('recursion through %s in a parallel region' % f.q)
        g = Frame(f, this, modified(f.body))
        for p, a in zip(f.params, args):
            t = p['t'].strip()
            if t.endswith('&'):
                v = self.place(a, fr)
                g.env[p['id']] = v
            elif not self.scalar(t):
                if VIEW.search(t):
                    g.env[p['id']] = self.construct(a, self.newpriv(p['n']), fr, t) if a['k'] == 'Ctor' else self.place(a, fr)
                else:
                    g.env[p['id']] = self.construct(a, self.newpriv(p['n']), fr, t) if a['k'] in ('Ctor', 'Call', 'Init') else self.newpriv(p['n'])
                    if a['k'] not in ('Ctor', 'Call', 'Init'):
                        self.touch(self.place(a, fr), False, a)
            else:
                v = self.val(a, fr)
                if p['id'] in g.mod:
                    v = DEP if not isinstance(v, Pt) else Pt(Place(v.to.root, v.to.path[:-1] + (DEP,)))
                g.env[p['id']] = ('own', v, self.newpriv(p['n']))
        self.stack.append(g)
        try:
            for i in f.inits or []:
                if i.get('e'):
                    if self.scalar(i['e']['t']):
                        self.leak(this, self.val(i['e'], g))
                    else:
                        self.construct(i['e'], self.newpriv(), g, i['e']['t'])
            self.stmt(f.body, g)
        finally:
            self.stack.pop()
        r = [x for x in g.ret]
        if r and all(self.samev(r[0], x) for x in r[1:]):
            return r[0]
        if r and all(isinstance(x, Place) and x.root == r[0].root for x in r if isinstance(r[0], Place)) and isinstance(r[0], Place):
            return Place(r[0].root, ())
        return DEP

    def external(self, e, d, o, args, fr):
        name = d.get('name', '')
        cls = d.get('cls') or ''
        if not d:
            for a in args:
                self.val(a, fr)
            return DEP
        ps = d.get('params', [])
        if o is not None and cls:
            if name in ELEM:
                idx = [self.val(a, fr) for a in args]
                p = Place(o.root, o.path + tuple(i if isinstance(i, Lin) else DEP for i in idx)) if isinstance(o, Place) else DEP
                if name == 'at' and 'map' in short(cls):
                    p = Place(o.root, o.path + (DEP,)) if isinstance(o, Place) else DEP
                ret = d.get('ret', '').strip()
                if 'std::function' in cls:
                    return DEP
                if ret.endswith('&') or 'Block' in ret or name in ('row', 'col', 'middleRows'):
                    return p
                self.touch(p, False, e)
                return DEP
            if name in ('data', 'begin', 'end', 'cbegin', 'cend'):
                return Pt(Place(o.root, o.path + (Lin.num(0) if name == 'data' else DEP,))) if isinstance(o, Place) else DEP
            if name in WHOLE:
                for a in args:
                    self.val(a, fr)
                return o
            if name in ASSIGN:
                for a in args:
                    self.use(a, fr)
                self.touch(o, True, e)
                return o
            if d.get('static'):
                for a in args:
                    self.use(a, fr)
                return DEP
            if not d.get('ctor'):
                if d.get('const'):
                    self.touch(o, False, e)
                else:
                    self.touch(o, True, e)
        stream = name == 'operator<<' or 'basic_ostream' in cls
        for i, a in enumerate(args):
            t = ps[i]['t'].strip() if i < len(ps) else ''
            if stream or name in PURE and not (t.endswith('*') and 'const' not in t):
                self.use(a, fr)
                continue
            if t.endswith('&') or t.endswith('&&'):
                p = self.place(a, fr)
                self.touch(p, not t.replace('&', '').strip().startswith('const ') and not t.endswith('&&'), e)
            elif HANDLE.match(t):
                v = self.val(a, fr)
                if isinstance(v, Pt):
                    self.touch(v.to, True, e)
            elif '*' in t or '[' in t:
                v = self.val(a, fr)
                if isinstance(v, Pt):
                    pt = v.to
                    q = pt if counted(name, args) else Place(pt.root, pt.path[:-1] + (DEP,)) if pt.path and (isinstance(pt.path[-1], Lin) or pt.path[-1] is DEP) else pt
                    self.touch(q, not t.startswith('const '), e)
            else:
                self.use(a, fr)
        return DEP

    def use(self, a, fr):
        if self.scalar(a['t']):
            self.val(a, fr)
            return
        p = self.place(a, fr)
        if isinstance(p, Place):
            self.touch(p, False, a)

    # ---- conflicts --------------------------------------------------------------------------------------------------
    def conflicts(self):
        out = []
        for ph in self.phases:
            by = {}
            for a in ph:
                by.setdefault(a.place.root, {}).setdefault((a.place.path, a.w, a.prot, a.ctx), a)
            for root, d in by.items():
                acc = list(d.values())
                ws = [a for a in acc if a.w]
                for x in ws:
                    for y in acc:
                        if y.w and acc.index(y) < acc.index(x):
                            continue
                        if x.prot is not None and x.prot == y.prot:
                            continue
                        if x.ctx == y.ctx and x.ctx[0] == 'once':
                            continue
                        if not self.disjoint(x, y):
                            out.append((root, x, y))
        return out

    def parts(self, l, it):
        """linear form -> (coefficient form of the iteration variable, bounded symbols part, rest)"""
        M, B, R = {}, {}, {}
        for k, v in l.m.items():
            if any(z[0] == 'd' for z in k):
                return None
            if it in k:
                kk = list(k)
                kk.remove(it)
                if it in kk:
                    return None
                M[tuple(kk)] = v
            elif any(s in self.bounds for s in k):
                if len(k) != 1:
                    return None
                B[k[0]] = v
            else:
                R[k] = v
        return Lin(M), B, Lin(R)

    def span(self, B, M=None):
        """numeric [min,max] of the bounded part, or 'within' if it is one symbol ranging over [0, M)"""
        lo = hi = 0
        for s, c in B.items():
            a, b = self.bounds[s]
            if M is not None and len(B) == 1 and c == 1 and isinstance(a, Lin) and isinstance(b, Lin) and a == Lin.num(0) and b == M:
                return 'within'
            if not isinstance(a, Lin) or not isinstance(b, Lin) or a.const() is None or b.const() is None:
                return None
            x, y = c * a.const(), c * (b.const() - 1)
            lo, hi = lo + min(x, y), hi + max(x, y)
        return lo, hi

    def disjoint(self, x, y):
        same = x.ctx == y.ctx and x.ctx[0] == 'loop'
        ix = self.loops[x.ctx[1]][0] if x.ctx[0] == 'loop' else None
        iy = self.loops[y.ctx[1]][0] if y.ctx[0] == 'loop' else None
        for a, b in zip(x.place.path, y.place.path):
            if isinstance(a, tuple) or isinstance(b, tuple):
                if a == b and same:
                    return True
                continue
            if isinstance(a, str) or isinstance(b, str):
                if isinstance(a, str) and isinstance(b, str) and a != b:
                    return True
                continue
            if a is DEP or b is DEP:
                continue
            pa, pb = self.parts(a, ix), self.parts(b, iy)
            if not pa or not pb:
                continue
            (Ma, Ba, Ra), (Mb, Bb, Rb) = pa, pb
            if same and Ma.m and Ma == Mb:
                c = (Ra - Rb).const()
                if c is None:
                    continue
                m = Ma.const()
                sa, sb = self.span(Ba, Ma), self.span(Bb, Ma)
                if sa is None or sb is None:
                    continue
                if m is None:
                    if c == 0 and all(s == 'within' or s == (0, 0) for s in (sa, sb)):
                        return True
                    continue
                if sa == 'within':
                    sa = (0, abs(m) - 1)
                if sb == 'within':
                    sb = (0, abs(m) - 1)
                if max(abs(c + sa[0] - sb[1]), abs(c + sa[1] - sb[0])) < abs(m):
                    return True
                continue
            ra, rb = self.range(x, Ma, Ba, Ra), self.range(y, Mb, Bb, Rb)
            if ra and rb:
                for (l1, h1), (l2, h2) in ((ra, rb), (rb, ra)):
                    d = l2 - h1
                    if d.m.get((), 0) > 0 and all(v > 0 and all(z[0] == 'n' and z[2] and z[2][-1] in COUNTS for z in k) for k, v in d.m.items()):
                        return True
        return False

    def range(self, x, M, B, R):
        s = self.span(B)
        if s is None:
            return None
        if not M.m:
            return R + Lin.num(s[0]), R + Lin.num(s[1])
        m = M.const()
        if m is None or m <= 0:
            return None
        _, lo, hi = self.loops[x.ctx[1]]
        if not isinstance(lo, Lin) or not isinstance(hi, Lin):
            return None
        return lo * M + R + Lin.num(s[0]), (hi - Lin.num(1)) * M + R + Lin.num(s[1])


def counted(name, args):
    """setting one entry of a matrix or vector reads one value"""
    return re.match(r'(Mat|Vec)SetValues?(Local)?$', name) and all(a.get('cv') == 1 for a in args if re.match('int', a['t']) and 'cv' in a and a['k'] != 'Ref')


COUNTS = ('nbface', 'nconnface', 'ninface', 'nelem', 'npoin', 'naface')


def onesym(l):
    """the symbol a linear form consists of"""
    if isinstance(l, Lin) and len(l.m) == 1:
        (k, v), = l.m.items()
        if len(k) == 1 and v == 1:
            return k[0]
    return None


def lastname(d):
    """(last field, indices after it) of a data-dependent value"""
    path = d[2]
    n = len(path)
    while n and not isinstance(path[n - 1], str):
        n -= 1
    return (path[n - 1] if n else None), path[n:]


def facts(prog):
    """fields of the mesh that are set once in the program, to a linear form of counts"""
    if hasattr(prog, 'racefacts'):
        return prog.racefacts
    seen = {}

    def lin(e):
        while e['k'] == 'Cast':
            e = e['e']
        if 'cv' in e or e['k'] == 'Int':
            return Lin.num(int(e.get('cv', e.get('v', 0))))
        if e['k'] == 'Mem' and e['b']['k'] == 'This' and e['n'] in COUNTS:
            return Lin.sym(e['n'])
        if e['k'] == 'Bin' and e['op'] in '+-':
            a, b = lin(e['a']), lin(e['b'])
            return None if a is None or b is None else a + b if e['op'] == '+' else a - b
        return None
    for f in prog.fns.values():
        if not f.body or 'UMesh' not in (prog.decls.get(f.key, {}).get('cls') or ''):
            continue
        for n in walk(f.body):
            if n['k'] == 'Asg' and n['a']['k'] == 'Mem' and n['a']['b']['k'] == 'This' and re.search('Face(Start|End)$', n['a']['n']):
                seen.setdefault(n['a']['n'], set()).add((f.file, n['l'], lin(n['b']) if n['op'] == '=' else None))
    prog.racefacts = {k: next(iter(v))[2] for k, v in seen.items() if len(v) == 1 and next(iter(v))[2] is not None}
    return prog.racefacts


def regions(prog):
    out = []
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.q)):
        if not f.body:
            continue
        inside = set()
        for n in walk(f.body):
            if n['k'] == 'Omp' and n['dir'].startswith('parallel') and id(n) not in inside:
                for k in walk(n['body']):
                    inside.add(id(k))
                out.append((f, n))
    return out

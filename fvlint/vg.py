"""Gated value graph: value numbering of numerical kernels modulo field axioms.

A forward dataflow analysis over the resolved syntax tree.  Every scalar expression is mapped to a value number in an
algebra in which two expressions that are equal as (gated) rational functions of the analysed unit's inputs receive the
same number; control-flow joins become gated phi nodes (reduced ordered decision diagrams over comparison atoms), loops
with constant trip count are folded, other loops are summarised by the effect of one generic iteration.  Value numbers
are images under a random homomorphism from the input algebra into GF(2^61-1), so 'same number' has a false-equal
probability below 1e-15 per comparison and no false-different.  Derivatives are value numbers too (forward mode on the
graph).  No statement of the analysed program is executed, no path is enumerated and no solver is involved."""
import hashlib, itertools, math, re
from fractions import Fraction
from .ast import AnalysisBroken, strip_targs, short, walk

P = (1 << 61) - 1
INV2 = pow(2, P - 2, P)


class Resample(Exception):
    pass


class EngineLimit(AnalysisBroken):
    pass


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Num:
    __slots__ = ('v', 'd', 'c', 's')

    def __init__(self, v, d=None, c=None, s=0):
        self.v, self.d, self.c, self.s = v, d, c, s

    def __repr__(self):
        return 'Num(%s)' % (self.c if self.c is not None else '#%x' % (self.v & 0xffffff))


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        v = c % P
    else:
        if c.denominator == 1:
            return const(int(c))
        v = c.numerator * pow(c.denominator, P - 2, P) % P
    return Num(v, None, c, (c > 0) - (c < 0))


ZERO, ONE, TWO = const(0), const(1), const(2)


class Obj:
    __slots__ = ('name', 'cls', 'sym', 'uid', 'alias', 'len')
    _n = 0

    def __init__(self, name, cls=None, sym=False):
        Obj._n += 1
        self.uid = Obj._n
        self.name, self.cls, self.sym, self.alias, self.len = name, cls, sym, None, None

    def __repr__(self):
        return 'Obj(%s)' % self.name


class Ptr:
    __slots__ = ('o', 'pre', 'off')

    def __init__(self, o, pre=(), off=ZERO):
        self.o, self.pre, self.off = o, pre, off

    def key(self):
        return (self.o, self.pre, self.off.v)

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.o, self.pre, self.off)


NULL = Ptr(None)


class EM:
    """a small dense matrix value (Eigen expression)"""
    __slots__ = ('r', 'c', 'e')

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, e   # e[i][j]


class Lam:
    __slots__ = ('node', 'env', 'this')

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class Opaque:
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


def hkey(x):
    if type(x) is Node:
        return x.h
    if type(x) is Num:
        return hash((x.v, x.d or None))
    if type(x) is Ptr:
        return hash((id(x.o), x.pre, x.off.v))
    if type(x) is Opaque:
        return hash(('opaque', x.tag))
    if type(x) is EM:
        return hash((x.r, x.c, tuple(hkey(e) for row in x.e for e in row)))
    if isinstance(x, bool):
        return x
    return id(x)


class Node:
    __slots__ = ('a', 't', 'f', 'h')

    def __init__(self, a, t, f):
        self.a, self.t, self.f = a, t, f
        self.h = hash((a, hkey(t), hkey(f)))


def same(x, y):
    if x is y:
        return True
    if isinstance(x, Num) and isinstance(y, Num):
        return x.v == y.v and (x.d or None) == (y.d or None)
    if isinstance(x, bool) or isinstance(y, bool):
        return x is y
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.o is y.o and x.pre == y.pre and x.off.v == y.off.v
    if isinstance(x, Node) and isinstance(y, Node):
        return x.h == y.h
    if isinstance(x, EM) and isinstance(y, EM):
        return x.r == y.r and x.c == y.c and all(same(a, b) for ra, rb in zip(x.e, y.e) for a, b in zip(ra, rb))
    if isinstance(x, Opaque) and isinstance(y, Opaque):
        return x.tag == y.tag
    return False


def mk(a, t, f):
    if same(t, f):
        return t
    return Node(a, t, f)


def ap(fn, *args):
    """lift fn over gated values"""
    for x in args:
        if type(x) is Node:
            break
    else:
        return fn(*args)
    memo = {}

    def go(xs):
        a = None
        for x in xs:
            if type(x) is Node and (a is None or x.a < a):
                a = x.a
        if a is None:
            return fn(*xs)
        k = tuple(x.h if type(x) is Node else id(x) for x in xs)
        r = memo.get(k)
        if r is None:
            hi = go(tuple(x.t if type(x) is Node and x.a == a else x for x in xs))
            lo = go(tuple(x.f if type(x) is Node and x.a == a else x for x in xs))
            r = mk(a, hi, lo)
            # keep xs alive so that ids stay unique
            memo[k] = r
            memo[('k',) + k] = xs
            if len(memo) > LIMIT[0]:
                raise _TooLarge()
        return r
    try:
        return go(args)
    except _TooLarge:
        return opaque_result(fn, args, memo)


LIMIT = [60000]


class _TooLarge(Exception):
    pass


def opaque_result(fn, args, memo):
    """an over-large gated number keeps its identity as an uninterpreted function of its operands"""
    LIMIT[0] = max(LIMIT[0] // 4, 1500)
    if fn.__name__ == 'pair':
        return None if hkey(args[0]) == hkey(args[1]) else args
    some = next((r for r in memo.values() if isinstance(r, Num)), None)
    if some is None:
        if Engine.current is None or not any(isinstance(r, bool) or type(r) is Node for r in memo.values()):
            raise EngineLimit('gated value too large')
        return Node(Engine.current.named_gate(repr(('big', fn.__code__.co_firstlineno, [hkey(x) for x in args]))), True, False)
    k = repr((fn.__code__.co_firstlineno, fn.__code__.co_name, [hkey(x) for x in args]))
    nd = max((len(r.d) for r in memo.values() if isinstance(r, Num) and r.d), default=0)
    h = lambda i: int.from_bytes(hashlib.sha256(('%s|%d' % (k, i)).encode()).digest()[:8], 'big') % P
    return Num(h(-1), tuple(h(i) for i in range(nd)) if nd else None)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return ap(lambda c, a, b: a if c else b, c, a, b)


def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    return ap(lambda x: not x, a)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ap(lambda x, y: x and y, a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def leaves(x, path=()):
    if type(x) is Node:
        yield from leaves(x.t, path + ((x.a, True),))
        yield from leaves(x.f, path + ((x.a, False),))
    else:
        yield path, x


NUMT = {'PetscBool', 'PetscErrorCode', 'MPI_Request_', 'double', 'float', 'int', 'long', 'bool', 'unsigned int', 'unsigned long', 'char', 'short', 'long long',
        'unsigned char', 'long double', 'unsigned long long', 'unsigned short', 'signed char'}
INTT = NUMT - {'double', 'float', 'long double'}


_ITER = re.compile(r'^(?:const )?__gnu_cxx::__normal_iterator<(.+?\*), std::vector<')


def clean(t):
    t = t.strip()
    if '__normal_iterator' in t:
        m = _ITER.match(t)
        if m:
            return m.group(1)        # iterators of vectors are pointers to their elements
    while True:
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        elif t.startswith('const ') and not t.endswith('*'):
            t = t[6:]
        elif t.startswith('volatile ') and not t.endswith('*'):
            t = t[9:]
        elif t.endswith(' const'):
            t = t[:-6].strip()
        elif t.endswith('*const'):
            t = t[:-5].strip()
        elif t.endswith('*__restrict'):
            t = t[:-10].strip()
        elif t.endswith('*const __restrict'):
            t = t[:-len('const __restrict')].strip()
        else:
            return t


_PTRARR = re.compile(r'\(\*(?:const|__restrict| )*\)(?:\[\d+\])+$')


def is_ptr(t):
    t = clean(t)
    return t.endswith('*') or bool(_PTRARR.search(t))


def is_num(t):
    return clean(t) in NUMT


def arr_dims(t):
    """'double[4][4]' -> ('double',[4,4]);  'double (*)[4]' is a pointer"""
    m = re.match(r'^(.*?)((?:\[\d*\])+)$', clean(t))
    if not m or '(' in m.group(1):
        return None
    return m.group(1).strip(), [int(x) if x else 0 for x in re.findall(r'\[(\d*)\]', m.group(2))]


def pointee(t):
    t = clean(t)
    m = re.match(r'^(.*)\(\*(?:const|__restrict| )*\)((?:\[\d+\])+)$', t)
    if m:
        return (m.group(1).strip() + m.group(2))
    if t.endswith('*'):
        return clean(t[:-1])
    a = arr_dims(t)
    if a:
        return a[0] + ''.join('[%d]' % x for x in a[1][1:])
    return None


def stride_of(t):
    """number of scalar cells of a pointed-to array type; records count as one"""
    a = arr_dims(t)
    if a:
        n = 1
        for d in a[1]:
            n *= d
        return n
    return 1


_EIG = re.compile(r'Eigen::(Matrix|Array)<([^<>]*?), (-?\d+), (-?\d+)(?:, (-?\d+))?')


def eigen_shape(t):
    m = _EIG.search(t)
    if not m:
        return None
    return int(m.group(3)), int(m.group(4)), bool(int(m.group(5) or 0) & 1)


class State:
    __slots__ = ('mem', 'ret', 'rv', 'brk', 'cont', 'dead')

    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}
        self.ret = self.brk = self.cont = self.dead = False
        self.rv = None

    def clone(self):
        s = State(dict(self.mem))
        s.ret, s.rv, s.brk, s.cont, s.dead = self.ret, self.rv, self.brk, self.cont, self.dead
        return s

    def inactive(self):
        return bor(bor(self.ret, self.dead), bor(self.brk, self.cont))


class Engine:
    current = None

    def __init__(self, prog, seed=1, nd=0):
        Engine.current = self
        self.prog = prog
        NUMT.update(prog.enums)
        self.seed = seed
        self.nd = nd
        self.natoms = 0
        self.throws = []
        self.deepcopy = ()       # classes whose copy constructors are followed (others share what their pointers point to)
        self.views = {}
        self.ratios = {}
        self.squares = {}
        self.sqof = {}
        self.scale = {}        # v -> a positive factor of a value of unknown sign
        self.gbase = {}        # gate form without that factor -> (gate, orientation)
        self.galias = {}
        self.gforms = {}
        self.eforms = {}
        self.atomkey = {}      # canonical form -> id
        self.atominfo = []     # id -> (kind, canonical v, text)
        self.positives = {}    # v -> text
        self.signs = []        # (regex, sign)
        self.models = {}
        self.powt = {}
        self.wline = {}
        self.assumed = []
        self.called = {}
        self.cur = []          # call stack of Fn
        self.curline = 0
        self.generic = []      # records of generic loop summaries
        self.loop_hook = None
        self.virtual_hook = None
        self.caught, self.handling = [], []
        self.nobody = ()           # classes whose constructor bodies are not followed
        self.unknown_hook = None
        self.axioms = []
        self.atomnames = {}
        self.undef_reads = []
        self.ubs = []
        self.gzero = {}
        self.loads = None
        self.stores = None
        self.path = []         # gate conditions of the branch being analysed
        self.nonneg = None     # integer facts: values known to be >= 0, closed under small sums
        self.neqfacts = set()
        self.exact = set()     # value numbers whose integer divisions are exact

    def set_facts(self, facts):
        """integer facts (values >= 0); comparisons of integers are decided by sums of at most four of them"""
        vs = [f.v for f in facts]
        cone = {0}
        for n in range(1, 5):
            for c in itertools.combinations(vs, n):
                cone.add(sum(c) % P)
        self.nonneg = {(x + k) % P for x in cone for k in range(0, 5)}
        self.nonneg |= {(n * x + k) % P for x in cone for n in (2, 4) for k in range(0, 3 * n)}

    def named_gate(self, name):
        a = self.atomkey.get(('named', name))
        if a is None:
            a = self.natoms
            self.natoms += 1
            self.atomkey[('named', name)] = a
            self.atominfo.append(('named', 0, name))
        return a

    def pathcond(self):
        g = True
        for c in self.path:
            g = band(g, c)
        return g

    # ---- inputs -------------------------------------------------------------------------------------
    def rnd(self, *k):
        h = hashlib.sha256(('%d|' % self.seed + '|'.join(map(str, k))).encode()).digest()
        return int.from_bytes(h[:16], 'big') % (P - 1) + 1

    def atom(self, name, sign=None):
        if sign is None:
            sign = 0
            for rx, s in self.signs:
                if re.search(rx, name):
                    sign = s
                    break
        v = self.rnd('atom', name)
        if sign > 0:
            v = v * v % P
            self.positives[v] = name
        elif sign < 0:
            v = P - v * v % P
        self.atomnames[v] = name
        return Num(v, None, None, sign)

    def fatom(self, fname, args, sign=0):
        """uninterpreted function of value-numbered arguments"""
        vs = []
        for a in args:
            if isinstance(a, Num):
                vs.append(a.v)
                if a.d and any(a.d):
                    vs.append(('D',) + a.d)   # derivative information does not survive an uninterpreted function
            elif isinstance(a, Ptr):
                vs.append(('p', a.o.uid if a.o else 0, a.pre, a.off.v))
            else:
                vs.append(repr(a))
        v = self.rnd('f', fname, *vs)
        if sign > 0:
            v = v * v % P
            self.positives[v] = fname
        return Num(v, None, None, sign)

    def seedvar(self, num, i):
        d = [0] * self.nd
        d[i] = 1
        return Num(num.v, tuple(d), None, num.s)

    # ---- arithmetic ----------------------------------------------------------------------------------
    def _und(self, *xs):
        for x in xs:
            if x is UNDEF:
                return True
            if not isinstance(x, Num):
                raise EngineLimit('arithmetic on a non-number %r near line %s (%s)' % (x, self.curline, self.cur[-1:]))
        return False

    def add1(self, a, b):
        if self._und(a, b):
            return UNDEF
        if a.c is not None and b.c is not None:
            return const(a.c + b.c)
        if a.c == 0 and a.d is None:
            return b
        if b.c == 0 and b.d is None:
            return a
        v = (a.v + b.v) % P
        d = a.d if b.d is None else (b.d if a.d is None else tuple((x + y) % P for x, y in zip(a.d, b.d)))
        if (v < 1024 or P - v < 1024) and (d is None or not any(d)):
            return const(v if v < 1024 else v - P)      # the difference is the same integer for every input
        s = a.s if a.s == b.s else 0
        if s > 0:
            self.positives.setdefault(v, 'sum')
        elif not s and (not a.s or not b.s):
            k = self.scale.get(b.v if a.s else a.v, 1)
            if k != 1 and (a.s or b.s or k == self.scale.get(b.v, 1)):
                self.scale.setdefault(v, k)
                self.scale.setdefault(P - v, k)
        return Num(v, d, None, s or self.known(v))

    def known(self, v):
        """sign fact already established for this value number"""
        return 1 if v in self.positives else (-1 if P - v in self.positives else 0)

    def neg1(self, a):
        if self._und(a):
            return UNDEF
        if a.c is not None:
            return const(-a.c)
        return Num((-a.v) % P, None if a.d is None else tuple((-x) % P for x in a.d), None, -a.s)

    def mul1(self, a, b):
        if self._und(a, b):
            return UNDEF
        if a.c is not None and b.c is not None:
            return const(a.c * b.c)
        if (a.c == 0 and a.d is None) or (b.c == 0 and b.d is None):
            return ZERO
        if a.c == 1 and a.d is None:
            return b
        if b.c == 1 and b.d is None:
            return a
        v = a.v * b.v % P
        if a.v == b.v and v not in self.squares:
            self.squares[v] = a
        if a.d is None and b.d is None:
            d = None
        elif a.d is None:
            d = tuple(a.v * y % P for y in b.d)
        elif b.d is None:
            d = tuple(x * b.v % P for x in a.d)
        else:
            d = tuple((x * b.v + a.v * y) % P for x, y in zip(a.d, b.d))
        s = a.s * b.s
        if s > 0:
            self.positives.setdefault(v, 'product')
        elif not s and (a.s or b.s):
            x, y = (a, b) if a.s else (b, a)
            k = (x.v if x.s > 0 else P - x.v) * self.scale.get(y.v, 1) % P
            self.scale.setdefault(v, k)
            self.scale.setdefault(P - v, k)
        return Num(v, d, None, s or self.known(v))

    def inv1(self, a):
        if self._und(a):
            return UNDEF
        if a.c is not None and a.d is None:
            if a.c == 0:
                self.ubs.append('division by zero near line %s' % self.curline)
                return UNDEF
            return const(Fraction(1) / Fraction(a.c))
        if a.v == 0:
            raise EngineLimit('division by an identically zero value near line %s in %s' % (self.curline, self.cur[-1:]))
        i = pow(a.v, P - 2, P)
        d = None
        if a.d is not None:
            m = (-i * i) % P
            d = tuple(m * x % P for x in a.d)
        if not a.s:
            k = self.scale.get(a.v, 1) * i * i % P
            self.scale.setdefault(i, k)
            self.scale.setdefault(P - i, k)
        return Num(i, d, None, a.s)

    def sqrt1(self, a):
        if self._und(a):
            return UNDEF
        if a.v == 0:
            return ZERO
        if a.c is not None and a.d is None and a.c >= 0:
            f = Fraction(a.c)
            n, m = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and m * m == f.denominator:
                return const(Fraction(n, m))
        v = a.v
        if pow(v, (P - 1) // 2, P) != 1:
            raise Resample('sqrt of a non-residue')
        r = pow(v, (P + 1) // 4, P)
        if pow(r, (P - 1) // 2, P) != 1:
            r = P - r
        self.sqof[r] = a
        self.positives.setdefault(r, 'sqrt')
        d = None
        if a.d is not None:
            k = pow(2 * r, P - 2, P)
            d = tuple(k * x % P for x in a.d)
        return Num(r, d, None, 1)

    def pow1(self, a, e):
        if self._und(a, e):
            return UNDEF
        if a.c == 1 and a.d is None:
            return ONE
        if e.c is not None and e.d is None:
            f = Fraction(e.c)
            if f.denominator == 1 and abs(f.numerator) <= 64:
                n = int(f)
                r = ONE
                b = a if n >= 0 else self.inv1(a)
                for _ in range(abs(n)):
                    r = self.mul1(r, b)
                return r
            if f.denominator == 2 and abs(f.numerator) <= 64:
                n = f.numerator
                r = ONE
                b = self.sqrt1(a)
                if n < 0:
                    b = self.inv1(b)
                for _ in range(abs(n)):
                    r = self.mul1(r, b)
                return r
        # generic power: canonical exponent modulo integers, relative to those already seen for this base
        key = a.v
        tab = self.powt.setdefault(key, [])
        base = None
        for (ev, av) in tab:
            for n in range(-6, 7):
                if (ev + n - e.v) % P == 0:
                    base = (av, n)
                    break
            if base:
                break
            # negated exponent
            for n in range(-6, 7):
                if (-ev + n - e.v) % P == 0:
                    base = (pow(av, P - 2, P), n)
                    break
            if base:
                break
        if base is None:
            av = self.rnd('pow', a.v, e.v)
            av = av * av % P
            tab.append((e.v, av))
            base = (av, 0)
        av, n = base
        v = av * pow(a.v, n % (P - 1), P) % P
        d = None
        if a.d is not None:
            k = e.v * v % P * pow(a.v, P - 2, P) % P
            d = tuple(k * x % P for x in a.d)
        if e.d is not None and any(e.d):
            lg = self.rnd('log', a.v)
            dd = tuple(v * lg % P * x % P for x in e.d)
            d = dd if d is None else tuple((x + y) % P for x, y in zip(d, dd))
        self.positives.setdefault(v, 'pow')
        return Num(v, d, None, 1 if a.s > 0 else 0)

    def add(self, a, b): return ap(self.add1, a, b)
    def neg(self, a): return ap(self.neg1, a)
    def sub(self, a, b): return ap(lambda x, y: self.add1(x, self.neg1(y)), a, b)
    def mul(self, a, b): return ap(self.mul1, a, b)
    def div(self, a, b): return ap(lambda x, y: self.mul1(x, self.inv1(y)), a, b)
    def sqrt(self, a): return ap(self.sqrt1, a)
    def pow(self, a, b): return ap(self.pow1, a, b)

    # ---- gates ---------------------------------------------------------------------------------------
    def gate(self, d, strict=True):
        """boolean value of d > 0 (generic position: > and >= are identified unless d is identically zero)"""
        if d is UNDEF:
            self.ubs.append('branch on an uninitialised value near line %s of %s' % (self.curline, self.cur[-1:]))
            return False
        if d.c is not None:
            return d.c > 0 if strict else d.c >= 0
        if d.v == 0:
            return not strict
        if d.s:
            return d.s > 0
        v = d.v
        if self.nonneg is not None:
            if strict:
                if (v - 1) % P in self.nonneg: return True
                if (-v) % P in self.nonneg: return False
            else:
                if v in self.nonneg: return True
                if (-v - 1) % P in self.nonneg: return False
        neg = False
        if v > P - v:
            v, neg = P - v, True
        a = self.atomkey.get(('gt', v))
        if a is None:
            r = self.galias.get(v)
            if r is None:
                k = self.scale.get(v, 1)
                b = v if k == 1 else v * pow(k, P - 2, P) % P
                bn = b > P - b
                b = min(b, P - b)
                r = self.gbase.get(b)
                if r is not None:
                    r = self.galias[v] = (r[0], r[1] != bn)
            if r is not None:
                return Node(r[0], r[1] == neg, r[1] != neg)
            a = self.natoms
            self.natoms += 1
            self.atomkey[('gt', v)] = a
            self.gbase[b] = (a, bn)
            self.gforms[a] = (P - b if bn else b, k)
            where = '%s:%s' % (self.cur[-1].file if self.cur else '?', self.curline)
            self.atominfo.append(('gt', v, where))
        return Node(a, not neg, neg)

    def eqgate(self, d, what='eq'):
        if d is UNDEF:
            self.ubs.append('branch on an uninitialised value near line %s of %s' % (self.curline, self.cur[-1:]))
            return False
        if d.c is not None:
            return d.c == 0
        if d.v == 0:
            return True
        if d.s:
            return False
        if self.nonneg is not None and ((d.v - 1) % P in self.nonneg or (-d.v - 1) % P in self.nonneg or d.v in self.neqfacts):
            return False
        v = min(d.v, P - d.v)
        a = self.atomkey.get((what, v))
        if a is None:
            a = self.natoms
            self.natoms += 1
            self.atomkey[(what, v)] = a
            k = self.scale.get(v, 1)
            b = v if k == 1 else v * pow(k, P - 2, P) % P
            self.eforms[a] = min(b, P - b)
            self.atominfo.append((what, v, '%s:%s' % (self.cur[-1].file if self.cur else '?', self.curline)))
        return Node(a, True, False)

    def cmp(self, op, a, b):
        def f(x, y):
            if isinstance(x, bool): x = const(x)
            if isinstance(y, bool): y = const(y)
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                e = same(x, y)
                if op == '==': return e
                if op == '!=': return not e
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o and x.pre == y.pre:
                    return self.cmp(op, x.off, y.off)
                raise EngineLimit('pointer comparison %s of %r and %r at line %s of %s' % (op, x, y, self.curline, self.cur[-1:]))
            if x is UNDEF or y is UNDEF:
                return self.gate(UNDEF)
            if not isinstance(x, Num) or not isinstance(y, Num):
                raise EngineLimit('comparison of %r and %r near line %s of %s' % (x, y, self.curline, self.cur[-1:]))
            d = self.add1(x, self.neg1(y))
            if not d.s and d.c is None and d.v and op in ('>', '>=', '<', '<=') and ('gt', min(d.v, P - d.v)) not in self.atomkey:
                sx, sy = (y2 if y2 is None or y2.v not in self.squares else None for y2 in (self.sqof.get(x.v), self.sqof.get(y.v)))
                if sx is not None and (sy is not None or y.s > 0):
                    return self.cmp(op, sx, sy if sy is not None else self.mul1(y, y))
                if sy is not None and x.s > 0:
                    return self.cmp(op, self.mul1(x, x), sy)
                rx, ry = self.root(x), self.root(y)
                if rx is not None and ry is not None and not (x.c is not None and y.c is not None):
                    ab = lambda r: r if r.s > 0 else ite(self.cmp('>=', r, ZERO), r, self.neg1(r))
                    return self.cmp(op, ab(rx), ab(ry))
            if x.s > 0 and y.s > 0 and x.c is None and y.c is None and not d.s and d.v and op in ('>', '>=', '<', '<='):
                # comparisons of positive values that differ by a positive factor on both sides are the same
                hi, lo, dd = (x, y, d) if op[0] == '>' else (y, x, self.neg1(d))
                strict = len(op) == 1
                r = self.div(hi, lo)
                if isinstance(r, Num):
                    g = self.ratios.get(r.v)
                    if g is None:
                        g = self.gate(dd, strict)
                        if type(g) is Node:
                            self.ratios[r.v] = g
                            q = self.div(lo, hi)
                            if isinstance(q, Num):
                                self.ratios.setdefault(q.v, bnot(g))
                    return g
            if op == '>': return self.gate(d)
            if op == '>=': return self.gate(d, False)
            if op == '<': return self.gate(self.neg1(d))
            if op == '<=': return self.gate(self.neg1(d), False)
            if op == '==': return self.eqgate(d)
            if op == '!=': return bnot(self.eqgate(d))
        # f may return Node: flatten
        return self.flat(ap_bool(f, a, b))

    def root(self, x):
        """a value whose square x is known to be"""
        if x.c is not None:
            f = Fraction(x.c)
            n, m = (math.isqrt(f.numerator), math.isqrt(f.denominator)) if f > 0 else (0, 0)
            return const(Fraction(n, m)) if n and n * n == f.numerator and m * m == f.denominator else None
        return self.squares.get(x.v)

    def flat(self, x):
        return x

    def tobool(self, x):
        def f(y):
            if isinstance(y, bool):
                return y
            if isinstance(y, Ptr):
                return y.o is not None
            if y is UNDEF:
                return self.gate(UNDEF)
            if isinstance(y, Num):
                if y.c is not None:
                    return y.c != 0
                return bnot(self.eqgate(y))
            raise EngineLimit('condition on %r near line %s of %s' % (y, self.curline, self.cur[-1:]))
        return ap_bool(f, x)

    def tonum(self, x):
        if isinstance(x, bool):
            return const(x)
        if type(x) is Node:
            return ap(lambda y: const(y) if isinstance(y, bool) else y, x)
        return x

    def infeasible(self, path):
        """is a set of gate decisions contradictory?  Positive-combination certificates of at most three gates, closed
        under the sign facts collected during analysis and the declared ordering axioms."""
        forms, scales = [], []
        ties = {self.eforms[a] for a, b in path if b and a in self.eforms}
        for a, b in path:
            kind, v, _ = self.atominfo[a]
            if kind != 'gt':
                continue
            if ties and min(self.gforms[a][0], P - self.gforms[a][0]) in ties:
                return True         # a tie between two branches of an ordering: not told apart from its neighbourhood
            forms.append(v if b else P - v)
            w, sc = self.gforms[a]
            if w != v:
                forms.append(w if b else P - w)
                scales.append(sc)
        pos = set(self.positives)
        for k in scales:
            pos |= {k, pow(k, P - 2, P)}
        small = {k % P for k in range(0, 9)}
        def certpos(x):           # is x known to be >= 0 ?
            if x in small or x in pos:
                return True
            if x * INV2 % P in pos:
                return True
            return False
        extra = []
        for ax in self.axioms:
            extra.extend(ax(self, forms))
        allf = forms + extra      # all asserted positive (nonneg)
        n = len(allf)
        for i in range(n):
            if certpos((-allf[i]) % P):
                return True
            for j in range(i + 1, n):
                s = allf[i] + allf[j]
                if certpos((-s) % P):
                    return True
                for k in range(j + 1, n):
                    if certpos((-(s + allf[k])) % P):
                        return True
        return False

    def describe(self, path):
        out = []
        for a, b in path:
            kind, v, where = self.atominfo[a]
            out.append('%s[%s]=%s' % (kind, where, 'T' if b else 'F'))
        return ' & '.join(out)

    def differences(self, a, b):
        """feasible gate assignments under which two (gated) numbers differ; each as (description, x, y)"""
        def pair(x, y):
            return None if same_num(x, y) else (x, y)
        pr = ap(pair, a, b)
        out = []
        for path, leaf in leaves(pr):
            if len(out) >= 32:
                break
            if leaf is not None and not self.infeasible(path):
                out.append((self.describe(path), leaf[0], leaf[1]))
        return out

    # ---- memory --------------------------------------------------------------------------------------
    def load1(self, st, p, t):
        if p is UNDEF:
            return UNDEF
        if not isinstance(p, Ptr):
            raise EngineLimit('load through %r near line %s of %s' % (p, self.curline, self.cur[-1:]))
        if p.o is None:
            self.ubs.append('null dereference near line %s of %s' % (self.curline, self.cur[-1:]))
            return UNDEF
        k = (p.o, p.pre, p.off.v)
        if self.loads is not None:
            self.loads.append((p, self.curline))
        r = st.mem.get(k)
        if r is not None:
            return r
        al = p.o.alias
        if ('init', p.o, p.pre) in st.mem:
            z = st.mem[('init', p.o, p.pre)]
            return z
        q = p.pre
        # aggregate-level default (memset / zero initialisation / copy)
        for cut in range(len(q), -1, -1):
            z = st.mem.get(('fill', p.o, q[:cut]))
            if z is not None:
                if isinstance(z, Ptr):   # copied from
                    np = Ptr(z.o, z.pre + q[cut:], p.off if cut < len(q) else self.add1(z.off, p.off))
                    return self.load1(st, np, t)
                return z
        if p.o.sym:
            r = self.fresh(p, t)
            st.mem[k] = r
            return r
        if p.pre and p.pre[-1] == '_size':
            return ZERO                     # a container that nothing was put into
        return UNDEF

    def locname(self, p):
        return '%s%s[%s]' % (p.o.name, ''.join('.' + str(x) for x in p.pre if x != 0), p.off.c if p.off.c is not None else '#%d' % p.off.v)

    def fresh(self, p, t):
        t = clean(t)
        nm = self.locname(p)
        if is_num(t):
            if self.unknown_hook:
                r = self.unknown_hook(self, p, t, nm)
                if r is not None:
                    return r
            return self.atom(nm)
        if is_ptr(t):
            if self.unknown_hook:
                r = self.unknown_hook(self, p, t, nm)
                if r is not None:
                    return r
            o = Obj('*' + nm, cls=pointee(t), sym=True)
            # stable identity by name
            o = self.gzero.setdefault(('obj', nm, t), o)
            return Ptr(o)
        if self.unknown_hook:
            r = self.unknown_hook(self, p, t, nm)
            if r is not None:
                return r
        return Opaque(nm)

    def load(self, st, p, t):
        return ap(lambda q: self.load1(st, q, t), p) if type(p) is Node else self.load1(st, p, t)

    def store(self, st, p, v, line=None):
        if type(p) is Node:
            for path, q in leaves(p):
                g = True
                for a, b in path:
                    g = band(g, Node(a, b, not b))
                old = self.load(st, q, 'double')
                self.store(st, q, ite(g, v, old), line)
            return
        if p is UNDEF or p.o is None:
            self.ubs.append('store through an invalid pointer near line %s of %s' % (self.curline, self.cur[-1:]))
            return
        k = (p.o, p.pre, p.off.v)
        st.mem[k] = v
        f = self.cur[-1].file if self.cur else '?'
        self.wline[k] = '%s:%s' % (f, line or self.curline)
        if self.stores is not None:
            self.stores.append((p, v, self.curline))

    def merge(self, g, a, b):
        """state after: a if g else b"""
        if a.dead is True:
            self.assumed.append((g, self.curline))
            return b
        if b.dead is True:
            return a
        r = State()
        m = dict(a.mem) if len(a.mem) >= len(b.mem) else dict(b.mem)
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y:
                m[k] = x
                continue
            if k[0] in ('fill', 'init'):
                m[k] = x if x is not None else y
                continue
            if x is None:
                x = self._default(a, k, y)
            if y is None:
                y = self._default(b, k, x)
            m[k] = ite(g, x, y)
        r.mem = m
        r.ret = ite(g, a.ret, b.ret)
        r.brk = ite(g, a.brk, b.brk)
        r.cont = ite(g, a.cont, b.cont)
        r.dead = ite(g, a.dead, b.dead)
        if a.rv is None or b.rv is None:
            r.rv = a.rv if b.rv is None else b.rv
        else:
            r.rv = ite(g, a.rv, b.rv)
        return r

    def _default(self, st, k, other):
        o, pre, off = k
        lf = other
        while type(lf) is Node:
            lf = lf.t
        t = 'double' if isinstance(lf, Num) else ('void *' if isinstance(lf, Ptr) else '?')
        s = State(st.mem)
        n = Num(off) if not isinstance(off, Num) else off
        # recover a small concrete offset for naming
        if n.v < 4096:
            n = const(n.v)
        if isinstance(lf, bool):
            t = 'bool'
        r = None
        for cut in range(len(pre), -1, -1):
            z = st.mem.get(('fill', o, pre[:cut]))
            if z is not None:
                r = self.load1(State(dict(st.mem)), Ptr(o, pre, n), t)
                return r
        if o.sym:
            if t in ('double',):
                return self.load1(State(dict(st.mem)), Ptr(o, pre, n), t)
            return lf
        return UNDEF

    # ---- statements ------------------------------------------------------------------------------------
    def run_block(self, stmts, st, env, i=0):
        while i < len(stmts):
            ina = st.inactive()
            if ina is True:
                return st
            if ina is not False:
                act = bnot(ina)
                s2 = st.clone()
                s2.ret = s2.brk = s2.cont = s2.dead = False
                s2.rv = None
                self.path.append(act)
                s2 = self.run_block(stmts, s2, env, i)
                self.path.pop()
                if s2.dead is True:
                    # the remaining statements abort: keep the inactive part
                    self.assumed.append((act, self.curline))
                    return st
                m = self.merge(act, s2, st)
                return m
            st = self.exec(stmts[i], st, env)
            i += 1
        return st

    def exec(self, s, st, env):
        if s is None:
            return st
        k = s['k']
        if s.get('l'):
            self.curline = s['l']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise EngineLimit('statement kind %s at line %s of %s' % (k, s.get('l'), self.cur[-1:]))
        return m(s, st, env)

    def s_Block(self, s, st, env): return self.run_block(s['body'], st, env)
    def s_Nop(self, s, st, env): return st

    def s_Expr(self, s, st, env):
        e = s['e']
        if e['k'] == 'Throw':
            self.note_throw(e)
            st.dead = True
            return st
        self.st = st
        self.rv(e, env)
        return self.st

    def s_Return(self, s, st, env):
        self.st = st
        v = None
        if s['e'] is not None:
            v = self.retval(s['e'], env)
        st = self.st
        if v is None:
            v = Opaque('void')
        st.rv = v
        st.ret = True
        return st

    def retval(self, e, env):
        fn = self.cur[-1] if self.cur else None
        t = fn.ret if fn is not None else e['t']
        if t.strip().endswith('&'):
            return self.lv(e, env)
        if t.strip() == 'void':
            self.rv(e, env)
            return None
        return self.rv(e, env)

    def s_Break(self, s, st, env):
        st.brk = True
        return st

    def s_Continue(self, s, st, env):
        st.cont = True
        return st

    def s_Decl(self, s, st, env):
        self.st = st
        for v in s['vars']:
            self.declare(v, env)
        return self.st

    def declare(self, v, env, prefix=''):
        t = v['t']
        if v.get('ref'):
            init = v.get('init')
            env[v['id']] = self.lv(init, env)
            return
        o = Obj('%s' % v['n'], cls=clean(t))
        p = Ptr(o)
        env[v['id']] = p
        if v.get('static'):
            o.sym = True
        if 'init' in v and v['init'] is not None:
            self.initialise(p, v['init'], t, env)

    def initialise(self, p, init, t, env):
        k = init['k']
        ct = clean(t)
        ad = arr_dims(t)
        if ad:
            n = stride_of(t)
            if k in ('Init',):
                flatargs = []
                self.flatten_init(init, ad[1], flatargs)
                for i in range(n):
                    if i < len(flatargs) and flatargs[i] is not None:
                        val = self.rv(flatargs[i], env)
                    else:
                        val = ZERO
                    self.store(self.st, Ptr(p.o, p.pre, self.add1(p.off, const(i))), val)
            elif k == 'Zero':
                for i in range(n):
                    self.store(self.st, Ptr(p.o, p.pre, self.add1(p.off, const(i))), ZERO)
            elif k == 'Ctor':
                pass
            elif k in ('Str', 'ArrInit', 'Other'):
                pass
            else:
                raise EngineLimit('array initialiser %s' % k)
            return
        if is_num(ct) or is_ptr(ct):
            if k == 'Init':
                val = self.rv(init['args'][0], env) if init['args'] else ZERO
            else:
                val = self.rv(init, env)
            if is_num(ct) and ct != 'bool':
                val = self.tonum(val)
            self.store(self.st, p, val)
            return
        # record
        if k == 'Ctor':
            self.construct(p, init, env)
            return
        if k == 'Init':
            r = self.prog.records.get(ct)
            if r and not ct.startswith('std::array<') and init['args'] and len(init['args']) <= len(r['fields']) + len(r['bases']):
                args = init['args'][len(r['bases']):]
                for fld, a in zip(r['fields'], args):
                    if a is None:
                        continue
                    self.initialise(Ptr(p.o, p.pre + (p.off.v, fld['n'])), a, fld['t'], env)
                return
            if ct.startswith('std::array<') and init['args']:
                inner = init['args'][0]
                lst = inner['args'] if inner['k'] == 'Init' else init['args']
                for i, a in enumerate(lst):
                    val = self.rv(a, env)
                    self.store(self.st, Ptr(p.o, p.pre + (p.off.v, '_a'), const(i)), val)
                m = re.search(r', (\d+)>$', ct)
                if m:
                    for i in range(len(lst), int(m.group(1))):
                        self.store(self.st, Ptr(p.o, p.pre + (p.off.v, '_a'), const(i)), ZERO)
                return
            if not init['args']:
                self.st.mem[('fill', p.o, p.pre)] = ZERO
                return
        if k == 'Zero':
            self.st.mem[('fill', p.o, p.pre)] = ZERO
            return
        val = self.rv(init, env)
        self.assign_record(p, val, t)

    def flatten_init(self, init, dims, out):
        n = 1
        for d in dims[1:]:
            n *= d
        for a in init['args']:
            if len(dims) > 1 and a['k'] == 'Init':
                sub = []
                self.flatten_init(a, dims[1:], sub)
                sub += [None] * (n - len(sub))
                out.extend(sub)
            elif len(dims) > 1 and a['k'] == 'Zero':
                out.extend([None] * n)
            else:
                out.append(a if a['k'] != 'Zero' else None)

    def assign_record(self, p, val, t):
        if isinstance(val, EM):
            self.em_store(p, val, t)
            return
        if isinstance(val, (Opaque, Lam)) or val is UNDEF:
            self.store(self.st, p, val)
            return
        if type(val) is Node and all(isinstance(y, Opaque) for _, y in leaves(val)):
            self.store(self.st, p, val)
            return
        if type(val) is Node:
            raise EngineLimit('gated record value at line %s' % self.curline)
        if isinstance(val, Num):
            # scalar broadcast into an Eigen array/matrix
            sh = eigen_shape(clean(t))
            if sh:
                self.em_store(p, EM(sh[0], sh[1], [[val] * sh[1] for _ in range(sh[0])]), t)
                return
        if isinstance(val, Ptr):
            if p.o is val.o and p.pre == val.pre and p.off.v == val.off.v:
                return
            # copy all known cells under val
            new = {}
            dead = []
            vp, vo = val.pre, val.off.v
            for k in self.st.mem:
                if k[0] is p.o and (k[1] == p.pre and k[2] == p.off.v or k[1][:len(p.pre) + 1] == p.pre + (p.off.v,)):
                    dead.append(k)
            for k in dead:
                del self.st.mem[k]
            for k, x in list(self.st.mem.items()):
                if k[0] is val.o:
                    if k[1] == vp and k[2] == vo:
                        new[(p.o, p.pre, p.off.v)] = x
                    elif k[1][:len(vp) + 1] == vp + (vo,):
                        new[(p.o, p.pre + (p.off.v,) + k[1][len(vp) + 1:], k[2])] = x
            self.st.mem.update(new)
            for k in new:
                self.wline[k] = '%s:%s' % (self.cur[-1].file if self.cur else '?', self.curline)
            fz = None
            for cut in range(len(vp), -1, -1):
                fz = self.st.mem.get(('fill', val.o, vp[:cut]))
                if fz is not None:
                    break
            if fz is not None and not isinstance(fz, Ptr):
                self.st.mem[('fill', p.o, p.pre + (p.off.v,))] = fz
            elif fz is not None or val.o.sym:
                self.st.mem[('fill', p.o, p.pre + (p.off.v,))] = Ptr(val.o, vp + (vo,))
            return
        raise EngineLimit('record assignment from %r at line %s of %s' % (val, self.curline, self.cur[-1:]))

    def s_If(self, s, st, env):
        self.st = st
        if s.get('init'):
            st = self.exec(s['init'], st, env)
            self.st = st
        if s.get('cvar'):
            self.declare(s['cvar'], env)
        c = self.tobool(self.rv(s['c'], env))
        st = self.st
        if c is True:
            return self.exec(s['a'], st, env)
        if c is False:
            return self.exec(s['b'], st, env)
        self.path.append(c)
        a = self.exec(s['a'], st.clone(), env)
        self.path[-1] = bnot(c)
        b = self.exec(s['b'], st.clone(), env) if s['b'] is not None else st
        self.path.pop()
        return self.merge(c, a, b)

    def s_Switch(self, s, st, env):
        self.st = st
        v = self.rv(s['c'], env)
        st = self.st
        items = s['body']['body'] if s['body']['k'] == 'Block' else [s['body']]
        # flatten nested cases
        flat = []
        for it in items:
            labels = []
            while it is not None and it['k'] in ('Case', 'Default'):
                labels.append(it)
                it = it['body']
            flat.append((labels, it))
        arms, default = [], None
        for idx, (labels, _) in enumerate(flat):
            for lab in labels:
                if lab['k'] == 'Case':
                    arms.append((lab['v'], idx))
                else:
                    default = idx

        def body_from(idx, st):
            st = self.run_block([it for _, it in flat[idx:] if it is not None], st, env)
            st.brk = False if st.brk is True else st.brk
            return st

        def go(i, st):
            if i == len(arms):
                return body_from(default, st) if default is not None else st
            self.st = st
            c = self.cmp('==', v, self.rv(arms[i][0], env))
            st = self.st
            if c is True:
                return body_from(arms[i][1], st)
            if c is False:
                return go(i + 1, st)
            self.path.append(c)
            a = body_from(arms[i][1], st.clone())
            self.path[-1] = bnot(c)
            b = go(i + 1, st.clone())
            self.path.pop()
            return self.merge(c, a, b)
        return go(0, st)

    def s_Try(self, s, st, env):
        """an exception certainly thrown by the body reaches the first handler of its type; possible (gated) ones leave the function"""
        n0, was, depth, line = len(self.throws), st.dead, len(self.cur), self.curline
        st = self.exec(s['body'], st, env)
        if st.dead is not True or was is True or len(self.throws) == n0:
            return st
        t = clean(self.throws[-1][0])
        for h in s.get('handlers') or ():
            if h['ct'] == '...' or derives(self.prog, t, clean(h['ct'])):
                st.dead = False
                del self.cur[depth:]
                self.caught.append((t, clean(h['ct'])))
                self.curline = line
                env2 = env
                if h.get('var'):
                    env2 = dict(env)
                    env2[h['var']['id']] = Ptr(Obj('exception', cls=t, sym=True))
                self.handling.append(t)
                self.throws.pop()
                st = self.exec(h['body'], st, env2)
                self.handling.pop()
                return st
        return st

    def s_Omp(self, s, st, env):
        if s.get('body') is None:
            return st
        return self.exec(s['body'], st, env)

    MAXTRIP = 256

    def s_For(self, s, st, env):
        if s['init'] is not None:
            st = self.exec(s['init'], st, env)
        return self.loop(s, st, env, s['c'], s['inc'], s['body'])

    def s_While(self, s, st, env):
        return self.loop(s, st, env, s['c'], None, s['body'])

    def s_Do(self, s, st, env):
        st = self.exec(s['body'], st, env)
        st.brk = False if st.brk is True else st.brk
        c = s['c']
        if c.get('cv') in (False, 0):
            st.cont = False
            return st
        return self.loop(s, st, env, s['c'], None, s['body'])

    def s_ForRange(self, s, st, env):
        self.st = st
        r = self.lv(s['range'], env)
        t = clean(s['range']['t'])
        m = re.search(r'^std::array<.*, (\d+)>$', t)
        ad = arr_dims(t)
        st = self.st
        if m or ad:
            n = int(m.group(1)) if m else ad[1][0]
            for i in range(n):
                p = Ptr(r.o, r.pre + (r.off.v, '_a'), const(i)) if m else Ptr(r.o, r.pre, self.add1(r.off, const(i)))
                if s['var'].get('ref'):
                    env[s['var']['id']] = p
                else:
                    q = Ptr(Obj(s['var']['n']))
                    env[s['var']['id']] = q
                    self.st = st
                    self.store(st, q, self.load(st, p, s['var']['t']))
                st = self.exec(s['body'], st, env)
                st.cont = False
                if st.brk is True:
                    st.brk = False
                    break
                if st.brk is not False:
                    raise EngineLimit('gated break in range-for')
            return st
        if t.startswith('std::vector<') and isinstance(r, Ptr):
            n = self.st.mem.get((r.o, r.pre + (r.off.v, '_size'), 0))
            if isinstance(n, Num) and n.c is not None:
                for i in range(int(n.c)):
                    p = Ptr(r.o, r.pre + (r.off.v, '_a'), const(i))
                    if s['var'].get('ref'):
                        env[s['var']['id']] = p
                    else:
                        q = Ptr(Obj(s['var']['n'], cls=clean(s['var']['t'])))
                        env[s['var']['id']] = q
                        self.st = st
                        if self.scalar_t(s['var']['t']):
                            self.store(st, q, self.load(st, p, s['var']['t']))
                        else:
                            self.assign_record(q, p, s['var']['t'])
                    st = self.exec(s['body'], st, env)
                    st.cont = False
                    if st.brk is True:
                        st.brk = False
                        break
                    if st.brk is not False:
                        raise EngineLimit('gated break in range-for')
                return st
        if self.loop_hook:
            return self.loop_hook(self, s, st, env)
        raise EngineLimit('range-for over %s at line %s' % (t, s.get('l')))

    loop_wants = None

    def loop(self, s, st, env, c, inc, body, n=0):
        if n == 0 and self.loop_wants and c is not None and self.loop_wants(self, s, st, env):
            return self.loop_hook(self, s, st, env)
        while True:
            ina = bor(st.ret, st.dead)
            if ina is True:
                return st
            if ina is not False:
                act = bnot(ina)
                s2 = st.clone()
                s2.ret = s2.dead = False
                s2 = self.loop(s, s2, env, c, inc, body, n)
                return self.merge(act, s2, st)
            self.st = st
            cv = self.tobool(self.rv(c, env)) if c is not None else True
            st = self.st
            if cv is False:
                return st
            if type(cv) is Node:
                if self.loop_hook and n == 0:
                    return self.loop_hook(self, s, st, env)
                raise EngineLimit('loop with a non-constant bound at line %s of %s' % (s.get('l'), self.cur[-1:]))
            st = self.exec(body, st, env)
            st.cont = False
            if st.brk is True:
                st.brk = False
                return st
            if type(st.brk) is Node:
                act = bnot(st.brk)
                old = st.clone()
                old.brk = False
                st.brk = False
                s2 = st
                if inc is not None:
                    self.st = s2
                    self.rv(inc, env)
                    s2 = self.st
                s2 = self.loop(s, s2, env, c, inc, body, n + 1)
                return self.merge(act, s2, old)
            if inc is not None:
                self.st = st
                self.rv(inc, env)
                st = self.st
            n += 1
            if n > self.MAXTRIP:
                raise EngineLimit('loop exceeds the folding bound at line %s of %s' % (s.get('l'), self.cur[-1:]))

    def generic_iteration(self, s, st, env, iv_name='iv', sign=0):
        """summarise a loop by one generic iteration: the induction variable is an opaque number, everything the body
        writes is havocked first.  Returns (effects, state)"""
        body = s['body']
        ivid = None
        # induction variable: declared in init, or assigned there
        init = s.get('init')
        if init is not None and init['k'] == 'Decl':
            ivid = init['vars'][0]['id']
        elif init is not None and init['k'] == 'Expr' and init['e']['k'] == 'Asg':
            ivid = init['e']['a'].get('id')
        iv = self.atom(iv_name, sign)
        if ivid is not None and ivid in env:
            self.store(st, env[ivid], iv)
        pre = dict(st.mem)
        saved = st.clone()
        # pass 1: what does the body write?
        sst, self.stores = self.stores, []
        s1 = self.exec(body, st.clone(), dict(env))
        written = [p for p, v, l in self.stores]
        self.stores = sst
        ivk = env[ivid].key() if ivid in env else None
        hav = {}
        for p in written:
            k = p.key()
            if k == ivk:
                continue
            if k in pre or p.o.sym:
                hav[k] = p
        st2 = saved.clone()
        for k, p in hav.items():
            old = pre.get(k)
            while type(old) is Node:
                old = old.t
            if isinstance(old, (Ptr, Opaque)):
                continue
            if isinstance(old, bool):
                continue
            st2.mem[k] = self.atom('prev:' + self.locname(p) + ':' + iv_name)
        before = dict(st2.mem)
        sst, self.stores = self.stores, []
        s2 = self.exec(body, st2, env)
        log = self.stores
        self.stores = sst
        if sst is not None:
            sst.extend(log)
        eff = {}
        for p, v, l in log:
            k = p.key()
            if k == ivk:
                continue
            if k in before or p.o.sym:
                eff[k] = (p, before.get(k), s2.mem.get(k), self.wline.get(k))
        s2.brk = s2.cont = False
        return eff, s2, iv

    # ---- expressions -----------------------------------------------------------------------------------
    def scalar_t(self, t):
        return is_num(t) or is_ptr(t)

    def rv(self, e, env):
        """value of an expression"""
        k = e['k']
        if e.get('l'):
            self.curline = e['l']
        if 'cv' in e and k not in ('Asg', 'Call'):
            c = e['cv']
            return c if isinstance(c, bool) else const(c)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise EngineLimit('expression kind %s (%s) at line %s of %s' % (k, e.get('cls'), e.get('l'), self.cur[-1:]))
        return m(e, env)

    def from_lv(self, e, env):
        p = self.lv(e, env)
        t = e['t']
        if self.scalar_t(t):
            return self.load(self.st, p, t)
        if isinstance(p, Ptr) and p.o is not None and not arr_dims(t):
            x = self.st.mem.get(p.key())
            if isinstance(x, (Lam, Opaque)):
                return x
            if type(x) is Node and all(isinstance(y, Opaque) for _, y in leaves(x)):
                return x
        return p

    e_Ref = lambda self, e, env: self.from_lv(e, env)
    e_Mem = lambda self, e, env: self.from_lv(e, env)
    e_Sub = lambda self, e, env: self.from_lv(e, env)

    def e_Int(self, e, env): return const(e.get('cv', 0))

    def e_Float(self, e, env):
        src = e.get('src', '').rstrip('fFlL')
        try:
            x = Fraction(src)
            if len(src) > 14:
                y = x.limit_denominator(60)         # 0.3333333333333333 is meant as 1/3
                if abs(x - y) <= abs(x) / 10**15:
                    x = y
            return const(x)
        except (ValueError, ZeroDivisionError):
            return const(Fraction(e['v']))

    def e_Str(self, e, env): return Opaque('str:' + e.get('v', ''))
    def e_Null(self, e, env): return NULL
    def e_Zero(self, e, env):
        if is_ptr(e['t']): return NULL
        return ZERO
    def e_This(self, e, env): return env['this']
    def e_FnRef(self, e, env): return Opaque('fn:' + e['fn'])
    def e_Lambda(self, e, env): return Lam(e, env, env.get('this'))
    def e_Sizeof(self, e, env): return ONE
    def note_throw(self, e):
        x = e.get('e')
        self.throws.append((x['t'] if x else self.handling[-1] if self.handling else '', self.pathcond(), '%s:%s' % (self.cur[-1].file if self.cur else '?', e.get('l') or self.curline)))

    def e_StmtExpr(self, e, env):
        self.st = self.exec(e['body'], self.st, env)
        return self.rv(e['e'], env)

    def e_Throw(self, e, env):
        self.note_throw(e)
        self.st.dead = True
        return UNDEF

    def e_Cond(self, e, env):
        c = self.tobool(self.rv(e['c'], env))
        if c is True:
            return self.rv(e['a'], env)
        if c is False:
            return self.rv(e['b'], env)
        st0 = self.st
        self.st = st0.clone()
        a = self.rv(e['a'], env)
        sa = self.st
        self.st = st0.clone()
        b = self.rv(e['b'], env)
        sb = self.st
        self.st = self.merge(c, sa, sb)
        if sa.dead is True:
            return b
        if sb.dead is True:
            return a
        return ite(c, self.tonum(a) if is_num(e['t']) and clean(e['t']) != 'bool' else a, self.tonum(b) if is_num(e['t']) and clean(e['t']) != 'bool' else b)

    def e_Cast(self, e, env):
        ck = e['ck']
        t = clean(e['t'])
        if ck in ('NullToPointer',):
            return NULL
        if ck in ('ToVoid',):
            self.rv(e['e'], env)
            return Opaque('void')
        v = self.rv(e['e'], env)
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            return self.tobool(v)
        if t == 'bool':
            return self.tobool(v)
        if ck == 'FloatingToIntegral':
            def f(x):
                if isinstance(x, Num) and x.c is not None:
                    return const(math.trunc(x.c))
                if x is UNDEF:
                    return x
                return self.fatom('trunc', [x])
            return ap(f, self.tonum(v))
        if is_num(t):
            return self.tonum(v)
        return v

    def e_Un(self, e, env):
        op = e['op']
        if op == '*':
            return self.from_lv(e, env)
        if op == '&' and e['e']['k'] == 'FnRef':
            return self.rv(e['e'], env)
        if op == '&':
            return self.lv(e['e'], env)
        if op in ('++', '--', 'post++', 'post--'):
            p = self.lv(e['e'], env)
            old = self.load(self.st, p, e['e']['t'])
            one = ONE if '++' in op else const(-1)
            if is_ptr(e['e']['t']):
                new = self.padd(old, one, e['e']['t'])
            else:
                new = self.add(old, one)
            self.store(self.st, p, new)
            return old if op.startswith('post') else new
        v = self.rv(e['e'], env)
        if op == '-':
            if isinstance(v, EM):
                return self.em_map(self.neg, v)
            return self.neg(self.tonum(v))
        if op == '+':
            return v
        if op == '!':
            return bnot(self.tobool(v))
        if op == '~':
            return self.fatom('~', [v])
        raise EngineLimit('unary ' + op)

    def padd(self, p, i, ptype):
        pt = pointee(ptype)
        s = stride_of(pt) if pt else 1

        def f(q, i):
            if q is UNDEF or i is UNDEF:
                return UNDEF
            if not isinstance(q, Ptr):
                raise EngineLimit('pointer arithmetic on %r at line %s' % (q, self.curline))
            off = self.add1(q.off, self.mul1(i, const(s)))
            return Ptr(q.o, q.pre, Num(off.v, None, off.c, off.s))
        return ap(f, p, i)

    def e_Bin(self, e, env):
        op = e['op']
        if op == ',':
            self.rv(e['a'], env)
            return self.rv(e['b'], env)
        if op in ('&&', '||'):
            a = self.tobool(self.rv(e['a'], env))
            if op == '&&':
                if a is False:
                    return False
                b = self.tobool(self.rv(e['b'], env))
                return band(a, b)
            if a is True:
                return True
            return bor(a, self.tobool(self.rv(e['b'], env)))
        a, b = self.rv(e['a'], env), self.rv(e['b'], env)
        return self.binop(op, a, b, e['a']['t'], e['b']['t'], e['t'])

    def binop(self, op, a, b, ta, tb, t):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.cmp(op, a, b)
        if is_ptr(ta) or arr_dims(ta):
            if op == '+':
                return self.padd(a, b, ta)
            if op == '-':
                if is_ptr(tb):
                    def pdiff(x, y):
                        if not isinstance(x, Ptr) or not isinstance(y, Ptr) or x.o is not y.o or x.pre != y.pre:
                            raise EngineLimit('difference of unrelated pointers')
                        return self.add1(x.off, self.neg1(y.off))
                    return ap(pdiff, a, b)
                return self.padd(a, self.neg(b), ta)
        if is_ptr(tb) and op == '+':
            return self.padd(b, a, tb)
        a, b = self.tonum(a), self.tonum(b)
        if op == '+': return self.add(a, b)
        if op == '-': return self.sub(a, b)
        if op == '*': return self.mul(a, b)
        if op == '/':
            if clean(t) in INTT:
                return ap(self.idiv1, a, b)
            return self.div(a, b)
        if op == '%':
            def md(x, y):
                if x is UNDEF or y is UNDEF:
                    return UNDEF
                if x.c is not None and y.c:
                    return const(int(math.fmod(x.c, y.c)))
                return self.fatom('%', [x, y])
            return ap(md, a, b)
        def bit(x, y):
            if isinstance(x, Num) and isinstance(y, Num) and x.c is not None and y.c is not None:
                X, Y = int(x.c), int(y.c)
                return const({'<<': X << Y if op == '<<' else 0, '>>': X >> Y if op == '>>' else 0, '&': X & Y, '|': X | Y, '^': X ^ Y}[op])
            return self.fatom(op, [x, y])
        return ap(bit, a, b)

    def idiv1(self, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if x.c is not None and y.c:
            return const(int(Fraction(x.c) / Fraction(y.c)))
        if x.v in self.exact:
            return self.mul1(x, self.inv1(y))
        return self.fatom('idiv', [x, y])

    def e_Asg(self, e, env):
        op = e['op']
        t = e['a']['t']
        b = self.rv(e['b'], env)
        p = self.lv(e['a'], env)
        if op == '=':
            if self.scalar_t(t):
                if is_num(t) and clean(t) != 'bool':
                    b = self.tonum(b)
                elif clean(t) == 'bool':
                    b = self.tobool(b)
                self.store(self.st, p, b, e.get('l'))
                return b
            self.assign_record(p, b, t)
            return p
        old = self.load(self.st, p, t)
        v = self.binop(op[:-1], old, b, t, e['b']['t'], t)
        self.store(self.st, p, v, e.get('l'))
        return v

    def e_New(self, e, env):
        o = Obj('new@%s' % e.get('l'), cls=clean(e['at']))
        if e.get('size') is not None:
            self.rv(e['size'], env)
        p = Ptr(o)
        if e.get('init') is not None and not e.get('array'):
            self.initialise(p, e['init'], e['at'], env)
        return p

    def e_Delete(self, e, env): return Opaque('void')

    def e_Init(self, e, env):
        if is_num(e['t']) or is_ptr(e['t']):
            return self.rv(e['args'][0], env) if e['args'] else ZERO
        o = Obj('init', cls=clean(e['t']))
        self.initialise(Ptr(o), e, e['t'], env)
        return Ptr(o)

    def e_StdInit(self, e, env): return Opaque('initlist')

    def e_Other(self, e, env):
        if e.get('cls') == 'PredefinedExpr':
            return Opaque('str')
        raise EngineLimit('expression %s at line %s of %s' % (e.get('cls'), e.get('l'), self.cur[-1:]))

    # lvalues
    def lv(self, e, env):
        k = e['k']
        if e.get('l'):
            self.curline = e['l']
        if k == 'Ref':
            if e['id'] in env:
                return env[e['id']]
            if e.get('dk') == 'global':
                o = self.gzero.get(('g', e['q']))
                if o is None:
                    o = Obj('::' + e['q'], sym=True)
                    self.gzero[('g', e['q'])] = o
                p = Ptr(o)
                if e.get('ginit') is not None and p.key() not in self.st.mem:
                    self.st.mem[p.key()] = self.rv(e['ginit'], {})
                return p
            if 'cv' in e:
                return self.temp(const(e['cv']) if not isinstance(e['cv'], bool) else e['cv'])
            raise EngineLimit('unbound variable %s at line %s of %s' % (e['n'], e.get('l'), self.cur[-1:]))
        if k == 'Mem':
            b = self.lv_or_ptr(e['b'], env, e.get('arrow'))
            r = self.prog.records.get(e.get('cls') or '')
            isref = False
            if r:
                for f in r['fields']:
                    if f['n'] == e['n']:
                        isref = f.get('ref')
            p = self.field(b, e['n'])
            if isref:
                return self.load(self.st, p, clean(e['t']) + ' *')
            return p
        if k == 'Sub':
            b = self.rv(e['b'], env)
            i = self.tonum(self.rv(e['i'], env))
            return self.padd(b, i, e['b']['t'])
        if k == 'Un':
            if e['op'] == '*':
                return self.rv(e['e'], env)
            if e['op'] in ('++', '--'):
                self.rv(e, env)
                return self.lv(e['e'], env)
        if k == 'Asg':
            self.rv(e, env)
            return self.lv(e['a'], env)
        if k == 'Cond':
            c = self.tobool(self.rv(e['c'], env))
            if c is True:
                return self.lv(e['a'], env)
            if c is False:
                return self.lv(e['b'], env)
            return ite(c, self.lv(e['a'], env), self.lv(e['b'], env))
        if k == 'Call':
            d = self.prog.decls.get(e.get('fn') or '', {})
            v = self.call(e, env)
            if d.get('ret', '').strip().endswith('&') and (isinstance(v, Ptr) or type(v) is Node):
                return v
            if isinstance(v, Ptr) and not self.scalar_t(e['t']):
                return v
            return self.temp(v, e['t'])
        if k == 'Cast' and not self.scalar_t(e['t']):
            return self.lv(e['e'], env)
        if k == 'Cast' and e.get('ck') in ('NoOp', 'LValueBitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            return self.lv(e['e'], env)
        if k == 'This':
            return env['this']
        v = self.rv(e, env)
        if isinstance(v, Ptr) and not self.scalar_t(e['t']):
            return v
        return self.temp(v, e['t'])

    def temp(self, v, t=None):
        p = Ptr(Obj('tmp', cls=clean(t) if t else None))
        if isinstance(v, EM):
            self.em_store(p, v, t)
        else:
            self.st.mem[p.key()] = v
        return p

    def lv_or_ptr(self, b, env, arrow):
        if b['k'] == 'This':
            return env['this']
        if arrow:
            return self.rv(b, env)
        return self.lv(b, env)

    def field(self, b, name):
        def f(q):
            if q is UNDEF:
                return UNDEF
            if not isinstance(q, Ptr):
                raise EngineLimit('member %s of %r at line %s of %s' % (name, q, self.curline, self.cur[-1:]))
            return Ptr(q.o, q.pre + (q.off.v, name))
        return ap(f, b)

    # ---- Eigen ------------------------------------------------------------------------------------------
    def em_dims(self, p, t):
        """rows, cols (Num) and row-major flag of an Eigen object at lvalue p"""
        if isinstance(p, Ptr) and p.o in self.views:
            v = self.views[p.o]
            return const(len(v)), const(len(v[0])), True
        sh = eigen_shape(t)
        if sh is None:
            raise EngineLimit('not an Eigen type: %s' % t)
        r, c, rm = sh
        if r < 0:
            r = self.load(self.st, self.field(p, '_rows'), 'long')
        else:
            r = const(r)
        if c < 0:
            c = self.load(self.st, self.field(p, '_cols'), 'long')
        else:
            c = const(c)
        return r, c, rm

    def em_elem(self, p, t, i, j=None):
        if isinstance(p, Ptr) and p.o in self.views:
            v = self.views[p.o]
            if j is None:
                return v[0][int(i.c)] if len(v) == 1 else v[int(i.c)][0]
            return v[int(i.c)][int(j.c)]
        r, c, rm = self.em_dims(p, t)
        if j is None:
            lin = i
        elif rm:
            lin = self.add(self.mul(i, c), j)
        else:
            lin = self.add(i, self.mul(j, r))
        if 'Eigen::Map<' in t:
            base = self.load(self.st, self.field(p, '_ptr'), 'double *')
            return self.padd(base, lin, 'double *')
        q = self.field(p, '_e')
        return self.padd(q, lin, 'double *')

    def em_load(self, v, t):
        if isinstance(v, EM):
            return v
        if isinstance(v, Num) or type(v) is Node:
            return v
        r, c, rm = self.em_dims(v, t)
        if r.c is None or c.c is None:
            raise EngineLimit('Eigen object of unknown size at line %s' % self.curline)
        R, C = int(r.c), int(c.c)
        return EM(R, C, [[self.load(self.st, self.em_elem(v, t, const(i), const(j)), 'double') for j in range(C)] for i in range(R)])

    def em_store(self, p, m, t):
        if p.o in self.views:
            for qs, ms in zip(self.views[p.o], m.e):
                for q, x in zip(qs, ms):
                    self.store(self.st, q, x)
            return
        sh = eigen_shape(clean(t))
        if sh is None:
            raise EngineLimit('store matrix to %s' % t)
        if sh[0] < 0:
            self.store(self.st, self.field(p, '_rows'), const(m.r))
        if sh[1] < 0:
            self.store(self.st, self.field(p, '_cols'), const(m.c))
        for i in range(m.r):
            for j in range(m.c):
                self.store(self.st, self.em_elem(p, t, const(i), const(j)), m.e[i][j])

    def em_map(self, f, a, b=None):
        if b is None:
            return EM(a.r, a.c, [[f(x) for x in row] for row in a.e])
        return EM(a.r, a.c, [[f(x, y) for x, y in zip(r, s)] for r, s in zip(a.e, b.e)])

    def em_mul(self, a, b):
        if not isinstance(a, EM):
            return self.em_map(lambda x: self.mul(a, x), b)
        if not isinstance(b, EM):
            return self.em_map(lambda x: self.mul(x, b), a)
        if a.c != b.r:
            raise EngineLimit('matrix product shape')
        e = []
        for i in range(a.r):
            row = []
            for j in range(b.c):
                s = ZERO
                for k in range(a.c):
                    s = self.add(s, self.mul(a.e[i][k], b.e[k][j]))
                row.append(s)
            e.append(row)
        return EM(a.r, b.c, e)

    def em_inv(self, a):
        n = a.r
        M = [list(r) + [ONE if i == j else ZERO for j in range(n)] for i, r in enumerate(a.e)]
        for c in range(n):
            piv = c
            while piv < n and isinstance(M[piv][c], Num) and M[piv][c].v == 0:
                piv += 1
            if piv == n:
                raise EngineLimit('inverse of a singular matrix')
            M[c], M[piv] = M[piv], M[c]
            iv = self.div(ONE, M[c][c])
            M[c] = [self.mul(iv, x) for x in M[c]]
            for r in range(n):
                if r != c:
                    f = M[r][c]
                    M[r] = [self.sub(x, self.mul(f, y)) for x, y in zip(M[r], M[c])]
        return EM(n, n, [r[n:] for r in M])

    # ---- calls ------------------------------------------------------------------------------------------
    def e_Call(self, e, env):
        v = self.call(e, env)
        if self.st.dead is True:
            return UNDEF
        d = self.prog.decls.get(e.get('fn') or '', {})
        ret = d.get('ret', '')
        if ret.strip().endswith('&') and self.scalar_t(e['t']):
            if isinstance(v, Ptr) or (type(v) is Node):
                lf = v
                while type(lf) is Node:
                    lf = lf.t
                if isinstance(lf, Ptr):
                    return self.load(self.st, v, e['t'])
        return v

    def fnname(self, d):
        if d.get('cls'):
            return short(d['cls']) + '::' + d['name']
        return d['name']

    def call(self, e, env):
        key = e.get('fn')
        if key is None:
            c = self.rv(e['callee'], env)
            if isinstance(c, Lam):
                return self.call_lambda(c, e['args'], env)
            raise EngineLimit('indirect call at line %s of %s' % (e.get('l'), self.cur[-1:]))
        d = self.prog.decls[key]
        args = e['args']
        obj = e.get('obj')
        if e.get('memop'):
            obj, args = args[0], args[1:]
        nm = self.fnname(d)
        # lambdas
        if d['name'] == 'operator()' and obj is not None and '(lambda' in clean(obj['t']):
            c = self.rv(obj, env)
            if isinstance(c, Ptr):
                c = self.load(self.st, c, '?')
            if isinstance(c, Lam):
                return self.call_lambda(c, args, env)
        m = self.models.get(nm) or self.models.get(d['name'])
        if m is not None:
            r = m(self, e, d, obj, args, env)
            if r is not NotImplemented:
                return r
        b = getattr(self, 'b_' + d['name'].replace('operator', 'op_'), None) if not d['in'] else None
        bi = BUILTIN.get(d['name']) if not d['in'] else None
        if bi is not None:
            r = bi(self, e, d, obj, args, env)
            if r is not NotImplemented:
                return r
        this = None
        if obj is not None and not d.get('static'):
            this = self.lv_or_ptr(obj, env, e.get('arrow') or is_ptr(obj['t']))
            if type(this) is Node:
                raise EngineLimit('call on a gated object at line %s' % self.curline)
        if e.get('virt'):
            dyn = this.o.cls if isinstance(this, Ptr) and this.o is not None and not this.pre else None
            k2 = None
            if dyn and dyn in self.prog.records and not (this.o.sym and self.prog.records[dyn]['abstract']):
                k2 = self.prog.resolve_virtual(key, dyn)
            if k2 is None or k2 not in self.prog.fns:
                if self.virtual_hook:
                    return self.virtual_hook(self, e, d, this, args, env)
                raise EngineLimit('virtual call of %s on an unknown object at line %s of %s' % (d['q'], e.get('l'), self.cur[-1:]))
            key = k2
        fn = self.prog.fns.get(key)
        if fn is None:
            if self.unmodelled:
                return self.unmodelled(self, e, d, this, args, env)
            raise EngineLimit('call of %s has no body and no model, line %s of %s' % (d['q'], e.get('l'), self.cur[-1:]))
        return self.invoke(fn, this, args, env)

    unmodelled = None

    def bind(self, fn_params, args, env, newenv):
        for i, p in enumerate(fn_params):
            if i >= len(args):
                raise EngineLimit('missing argument')
            a = args[i]
            t = p['t'].strip()
            if t.endswith('&'):
                newenv[p['id']] = self.lv(a, env)
            elif self.scalar_t(t):
                v = self.rv(a, env)
                if is_num(t) and clean(t) != 'bool':
                    v = self.tonum(v)
                q = Ptr(Obj(p['n']))
                self.st.mem[q.key()] = v
                newenv[p['id']] = q
            else:
                q = Ptr(Obj(p['n'], cls=clean(t)))
                self.initialise(q, a, t, env)
                newenv[p['id']] = q

    def invoke(self, fn, this, args, env, newenv=None):
        """args: AST nodes evaluated in env"""
        if len(self.cur) > 40:
            raise EngineLimit('call depth')
        ne = {} if newenv is None else newenv
        if this is not None:
            ne['this'] = this
        if newenv is None:
            self.bind(fn.params, args, env, ne)
        return self.run(fn, ne)

    def run(self, fn, ne):
        self.called[fn.key] = self.called.get(fn.key, 0) + 1
        self.cur.append(fn)
        line = self.curline
        st = self.st
        so = (st.ret, st.rv, st.brk, st.cont)
        st.ret, st.rv, st.brk, st.cont = False, None, False, False
        st = self.exec(fn.body, st, ne)
        v = st.rv
        st.ret, st.rv, st.brk, st.cont = so
        self.st = st
        self.cur.pop()
        self.curline = line
        return v if v is not None else Opaque('void')

    def call_lambda(self, c, args, env):
        ne = dict(c.env)
        if c.this is not None:
            ne['this'] = c.this
        for cap in c.node['caps']:
            if cap['kind'] == 'copy' and cap.get('id') in c.env:
                pass
        self.bind(c.node['params'], args, env, ne)
        class F:
            pass
        fn = self.prog.fns.get(c.node['fn'])
        st = self.st
        so = (st.ret, st.rv, st.brk, st.cont)
        st.ret, st.rv, st.brk, st.cont = False, None, False, False
        f = LamFn(c.node, self.prog, self.cur[-1] if self.cur else None)
        self.cur.append(f)
        st = self.exec(c.node['body'], st, ne)
        self.cur.pop()
        v = st.rv
        st.ret, st.rv, st.brk, st.cont = so
        self.st = st
        return v if v is not None else Opaque('void')

    def e_Ctor(self, e, env):
        if '__normal_iterator' in e['t'] and is_ptr(e['t']):
            return self.rv(e['args'][0], env) if e['args'] else NULL
        o = Obj('obj@%s' % e.get('l'), cls=clean(e['t']))
        p = Ptr(o)
        r = self.construct(p, e, env)
        return r if isinstance(r, (EM, Opaque)) else p

    def construct(self, p, e, env):
        d = self.prog.decls[e['fn']]
        t = clean(e['t'])
        if p.o.cls is None:
            p.o.cls = t
        if not p.pre and p.o.cls not in self.prog.records and d.get('cls') in self.prog.records:
            p.o.cls = d['cls']          # the canonical spelling of an aliased type
        if e.get('copy') and not (self.deepcopy and e['fn'] in self.prog.fns and not d.get('implicit') and self.prog.fns[e['fn']].cls in self.deepcopy and not e.get('elide')):
            v = self.rv(e['args'][0], env)
            self.assign_record(p, v, t)
            return
        if t.startswith('Eigen::') and 'Stride' not in t:
            return self.eigen_ctor(p, e, env, t)
        m = self.models.get('ctor:' + short(t))
        if m is not None:
            return m(self, p, e, d, env)
        fn = self.prog.fns.get(e['fn'])
        if fn is not None:
            ne = {'this': p}
            self.bind(fn.params, e['args'], env, ne)
            self.run_ctor(fn, ne)
            return
        if not e['args']:
            return
        if t.startswith('std::vector<'):
            a = e['args']
            if a and is_num(a[0]['t']):
                n = self.rv(a[0], env)
                self.store(self.st, self.field(p, '_size'), n)
                if len(a) > 1 and is_num(a[1]['t']):
                    self.st.mem[('fill', p.o, p.pre + (p.off.v, '_a'))] = self.tonum(self.rv(a[1], env))
                else:
                    self.st.mem[('fill', p.o, p.pre + (p.off.v, '_a'))] = ZERO
            return
        if t.startswith('std::tuple<') and e['args']:
            for i, a in enumerate(e['args']):
                to, val = self.field(p, '_%d' % i), self.rv(a, env)
                self.store(self.st, to, val)
            return
        if t.startswith('std::') or not d['in']:
            self.store(self.st, p, Opaque('ext:' + short(t)))
            return Opaque('ext:' + short(t))
        if d.get('implicit'):
            return
        raise EngineLimit('constructor %s without a body at line %s' % (d['q'], e.get('l')))

    def run_ctor(self, fn, ne):
        this = ne['this']
        self.called[fn.key] = self.called.get(fn.key, 0) + 1
        self.cur.append(fn)
        cls = fn.cls
        rec = self.prog.records.get(cls)
        ft = {f['n']: f for f in rec['fields']} if rec else {}
        for i in fn.inits or []:
            e = i['e']
            if 'm' in i:
                f = ft.get(i['m'], {})
                if e is None:
                    continue
                q = self.field(this, i['m'])
                if f.get('ref'):
                    while e['k'] == 'Init' and len(e['args']) == 1:
                        e = e['args'][0]
                    to, val = q, self.lv(e, ne)
                    self.store(self.st, to, val, i.get('l'))
                else:
                    self.curline = i.get('l') or self.curline
                    self.initialise(q, e, f.get('t', e['t']), ne)
            elif e is not None and e['k'] == 'Ctor':
                bf = self.prog.fns.get(e['fn'])
                if bf is not None:
                    be = {'this': this}
                    self.bind(bf.params, e['args'], ne, be)
                    self.run_ctor(bf, be)
        if short(cls or '') in self.nobody:
            self.cur.pop()
            return
        st = self.st
        so = (st.ret, st.rv)
        st.ret, st.rv = False, None
        st = self.exec(fn.body, st, ne)
        st.ret, st.rv = so
        self.st = st
        self.cur.pop()

    def eigen_ctor(self, p, e, env, t):
        a = e['args']
        if 'Eigen::Map<' in t[:12] or t.startswith('Eigen::Map<'):
            ptr = self.rv(a[0], env)
            self.store(self.st, self.field(p, '_ptr'), ptr)
            sh = eigen_shape(t)
            nums = [self.rv(x, env) for x in a[1:] if is_num(x['t'])]
            if len(nums) == 2:
                self.store(self.st, self.field(p, '_rows'), nums[0])
                self.store(self.st, self.field(p, '_cols'), nums[1])
            elif len(nums) == 1:
                self.store(self.st, self.field(p, '_rows' if sh[0] < 0 else '_cols'), nums[0])
            return
        if not a:
            return
        if len(a) == 2 and is_num(a[0]['t']):
            sh = eigen_shape(t)
            r, c = self.rv(a[0], env), self.rv(a[1], env)
            if sh[0] < 0: self.store(self.st, self.field(p, '_rows'), r)
            if sh[1] < 0: self.store(self.st, self.field(p, '_cols'), c)
            if sh[0] >= 0 and sh[1] >= 0:
                self.store(self.st, self.em_elem(p, t, ZERO), r)
                self.store(self.st, self.em_elem(p, t, ONE), c)
            return
        if len(a) == 1:
            v = self.rv(a[0], env)
            if isinstance(v, (EM,)):
                self.em_store(p, v, t)
                return
            if isinstance(v, Ptr):
                self.em_store(p, self.em_load(v, a[0]['t']), t)
                return
            if isinstance(v, Num):
                sh = eigen_shape(t)
                if sh[0] < 0: self.store(self.st, self.field(p, '_rows'), v)
                elif sh[1] < 0: self.store(self.st, self.field(p, '_cols'), v)
                return
        raise EngineLimit('Eigen constructor of %s at line %s' % (t, e.get('l')))

    # ---- API for the checks -------------------------------------------------------------------------------
    def start(self):
        self.st = State()

    def array(self, name, vals, cls=None):
        """a fresh array object holding vals; returns a pointer"""
        o = Obj(name, cls=cls)
        for i, v in enumerate(vals):
            self.st.mem[(o, (), i)] = v
        return Ptr(o)

    def out(self, name):
        return Ptr(Obj(name))

    def read(self, p, n, t='double'):
        return [self.load(self.st, Ptr(p.o, p.pre, self.add1(p.off, const(i))), t) for i in range(n)]

    def invoke_values(self, fn, this, vals):
        """vals: list of values (Num/Ptr) bound positionally; reference parameters take Ptr"""
        ne = {}
        if this is not None:
            ne['this'] = this
        if len(vals) != len(fn.params):
            raise AnalysisBroken('%s: signature changed (%d parameters, expected %d)' % (fn.q, len(fn.params), len(vals)))
        for p, v in zip(fn.params, vals):
            t = p['t'].strip()
            if t.endswith('&'):
                if not isinstance(v, Ptr):
                    v = self.temp(v, clean(t))
                ne[p['id']] = v
            elif isinstance(v, Ptr) and not is_ptr(t):
                q = Ptr(Obj(p['n'], cls=clean(t)))
                self.assign_record(q, v, t)
                ne[p['id']] = q
            else:
                q = Ptr(Obj(p['n']))
                self.st.mem[q.key()] = v
                ne[p['id']] = q
        return self.run(fn, ne)

    def make(self, cls, vals, ctor_pick=None):
        """construct an object of class cls through its own constructor"""
        cands = [f for f in self.prog.fns.values() if f.cls == cls and self.prog.decls[f.key].get('ctor')
                 and len(f.params) == len(vals)]
        cands = [f for f in cands if not (len(vals) == 1 and clean(f.params[0]['t']) == cls)]
        if not cands:
            raise AnalysisBroken('no constructor of %s with %d parameters' % (cls, len(vals)))
        fn = cands[0]
        o = Obj(short(cls), cls=cls)
        this = Ptr(o)
        ne = {'this': this}
        for p, v in zip(fn.params, vals):
            t = p['t'].strip()
            if t.endswith('&'):
                ne[p['id']] = v if isinstance(v, Ptr) else self.temp(v, clean(t))
            else:
                q = Ptr(Obj(p['n'], cls=clean(t)))
                if isinstance(v, Ptr) and not is_ptr(t):
                    self.assign_record(q, v, t)
                else:
                    self.st.mem[q.key()] = v
                ne[p['id']] = q
        self.run_ctor(fn, ne)
        return this


class LamFn:
    def __init__(self, node, prog, outer):
        self.q = 'lambda'
        self.file = outer.file if outer else '?'
        self.line = node.get('l')
        self.key = node['fn']
        self.ret = prog.decls[node['fn']]['ret']

    def __repr__(self):
        return '<lambda %s:%s>' % (self.file, self.line)


def same_num(x, y):
    if x is UNDEF or y is UNDEF:
        return x is y
    if isinstance(x, Num) and isinstance(y, Num):
        return x.v == y.v
    return same(x, y)


def ap_bool(f, *args):
    """like ap, but f may return Node booleans; result is reordered canonically"""
    r = ap(lambda *xs: f(*xs), *args)
    # leaves produced by f can be Nodes with arbitrary atoms below higher atoms: reorder
    return canon(r)


# ---- models of external functions ----------------------------------------------------------------------------
def _n(eng, a, env): return eng.tonum(eng.rv(a, env))


def m_fabs(eng, e, d, obj, args, env):
    x = _n(eng, args[0], env)
    def f(y):
        if y is UNDEF:
            return UNDEF
        if y.c is not None:
            return const(abs(y.c))
        g = eng.gate(y)
        return ite(g, y, eng.neg1(y))
    r = ap(f, x)
    return canon(r)


def absval(eng, x):
    return canon(ap(lambda y: y if y is UNDEF else ite(eng.gate(y), y, eng.neg1(y)), x))


def maxval(eng, a, b):
    return ite(eng.cmp('<', a, b), b, a)


def minval(eng, a, b):
    return ite(eng.cmp('<', a, b), a, b)


def canon(x):
    memo = {}

    def go(x):
        if type(x) is not Node:
            return x
        r = memo.get(x.h)
        if r is None:
            t, f = go(x.t), go(x.f)
            if (type(t) is not Node or t.a > x.a) and (type(f) is not Node or f.a > x.a):
                r = mk(x.a, t, f)
            else:
                r = ite(Node(x.a, True, False), t, f)
            memo[x.h] = r
        return r
    return go(x)


def m_sqrt(eng, e, d, obj, args, env): return eng.sqrt(_n(eng, args[0], env))
def m_pow(eng, e, d, obj, args, env): return eng.pow(_n(eng, args[0], env), _n(eng, args[1], env))


def m_minmax(which):
    def g(eng, e, d, obj, args, env):
        if len(args) != 2:
            return NotImplemented
        a, b = _n(eng, args[0], env), _n(eng, args[1], env)
        c = eng.cmp('<', a, b)
        r = ite(c, a, b) if which == 'min' else ite(c, b, a)
        if d.get('ret', '').strip().endswith('&'):
            return eng.temp(r)
        return r
    return g


def m_minmax_list(which):
    def g(eng, e, d, obj, args, env):
        if len(args) != 1:
            return NotImplemented
        x = args[0]
        while x['k'] in ('Cast', 'Ctor', 'StdInit') and (x['k'] != 'Ctor' or x.get('args')):
            x = x['args'][0] if x['k'] == 'Ctor' else x['e']
        if x['k'] != 'Init' or not x['args']:
            return NotImplemented
        r = None
        for y in x['args']:
            v = _n(eng, y, env)
            r = v if r is None else ite(eng.cmp('<', v, r), v, r) if which == 'min' else ite(eng.cmp('<', r, v), v, r)
        return r
    return g


def m_hypot(eng, e, d, obj, args, env):
    xs = [_n(eng, a, env) for a in args]
    return eng.sqrt(eng.add(*[eng.mul(x, x) for x in xs]))


def m_swap(eng, e, d, obj, args, env):
    if obj is not None or len(args) != 2 or not eng.scalar_t(clean(args[0]['t'])):
        return NotImplemented
    p, q = eng.lv(args[0], env), eng.lv(args[1], env)
    t = clean(args[0]['t'])
    a, b = eng.load(eng.st, p, t), eng.load(eng.st, q, t)
    eng.store(eng.st, p, b)
    eng.store(eng.st, q, a)
    return Opaque('void')


def _span(eng, first, last, env):
    p, q = eng.rv(first, env), eng.rv(last, env)
    if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.o is not q.o or p.pre != q.pre:
        return None, None
    n = eng.sub(q.off, p.off)
    return p, int(n.c) if isinstance(n, Num) and n.c is not None and 0 <= n.c < 256 else None


def m_fold(eng, e, d, obj, args, env):
    """std::inner_product, std::accumulate over a range of constant length"""
    ip = d['name'] == 'inner_product'
    if obj is not None or len(args) != (4 if ip else 3):
        return NotImplemented
    p, n = _span(eng, args[0], args[1], env)
    if n is None:
        return NotImplemented
    t = clean(args[0]['t'])
    q = eng.rv(args[2], env) if ip else None
    r = _n(eng, args[-1], env)
    for i in range(n):
        x = eng.load(eng.st, eng.padd(p, const(i), t), 'double')
        if ip:
            x = eng.mul(x, eng.load(eng.st, eng.padd(q, const(i), t), 'double'))
        r = eng.add(r, x)
    return r


def m_unary(name, odd=False):
    def g(eng, e, d, obj, args, env):
        return ap(lambda x: UNDEF if x is UNDEF else eng.fatom(name, [x]), _n(eng, args[0], env))
    return g


def m_trig(which):
    """cosine and sine by the rational parametrisation of the circle, so that cos^2+sin^2=1 and d(cos)=-sin hold"""
    def g(eng, e, d, obj, args, env):
        def f(x):
            if x is UNDEF:
                return UNDEF
            if x.c == 0:
                return ZERO if which == 'sin' else ONE
            flip = x.v > P - x.v
            t = eng.rnd('angle', min(x.v, P - x.v))
            t2 = t * t % P
            den = pow(1 + t2, P - 2, P)
            cv, sv = (1 - t2) * den % P, 2 * t * den % P
            if flip:
                sv = (-sv) % P
            val, der = (cv, (-sv) % P) if which == 'cos' else (sv, cv)
            return Num(val, None if x.d is None else tuple(der * y % P for y in x.d), None, 0)
        return ap(f, _n(eng, args[0], env))
    return g


def m_trig_value(eng, x):
    """(cos x, sin x) in the representation used by the library models"""
    t = eng.rnd('angle', min(x.v, P - x.v))
    den = pow(1 + t * t % P, P - 2, P)
    c, s = (1 - t * t) * den % P, 2 * t * den % P
    return Num(c), Num(s if x.v <= P - x.v else (-s) % P)


STDEXC = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::invalid_argument': 'std::logic_error',
          'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
          'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception'}


def derives(prog, t, b):
    """is type t the class b or derived from it?"""
    t, b = t.replace(' &', '').strip(), b.replace(' &', '').strip()
    q = lambda x: x if '::' in x or x in prog.records else 'fvens::' + x
    t, b = q(t), q(b)
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        if x in STDEXC:
            todo.append(STDEXC[x])
        elif x in prog.records:
            todo += prog.bases(x)
    return False


def m_abort(eng, e, d, obj, args, env):
    eng.st.dead = True
    return UNDEF


def m_stream(eng, e, d, obj, args, env):
    t = clean(e['t'])
    if 'stream' in t:
        return Opaque('stream')
    if eng.prog.decls[e['fn']].get('ret', '').find('stream') >= 0:
        return Opaque('stream')
    return NotImplemented


def m_index(eng, e, d, obj, args, env):
    cls = d.get('cls', '')
    if cls.startswith('std::array') or cls.startswith('std::vector'):
        p = eng.lv(obj, env)
        i = _n(eng, args[0], env)
        q = eng.field(p, '_a')
        return eng.padd(q, i, 'double *')
    if cls.startswith('Eigen::'):
        t = clean(obj['t'])
        v = eng.rv(obj, env)
        i = [_n(eng, a, env) for a in args]
        if isinstance(v, EM):
            if len(i) == 2:
                r = v.e[int(i[0].c)][int(i[1].c)]
            else:
                k = int(i[0].c)
                r = v.e[k][0] if v.c == 1 else v.e[0][k]
            return eng.temp(r) if d.get('ret', '').strip().endswith('&') else r
        q = eng.em_elem(v, t, *i)
        if not d.get('ret', '&').strip().endswith('&') and eng.scalar_t(e['t']):
            return eng.load(eng.st, q, e['t'])       # element returned by value
        return q
    return NotImplemented


def m_arith(op):
    def g(eng, e, d, obj, args, env):
        q = d['q'] + d.get('cls', '') + e['t']
        if 'Eigen' not in q:
            return NotImplemented
        ops = ([obj] if obj is not None else []) + list(args)
        vs = [eng.rv(a, env) for a in ops]
        vs = [eng.em_load(v, clean(a['t'])) if isinstance(v, Ptr) else v for v, a in zip(vs, ops)]
        if len(vs) == 1:
            return eng.em_map(eng.neg, vs[0])
        a, b = vs
        isarr = any('Eigen::Array<' in clean(x['t']) or 'ArrayWrapper' in clean(x['t']) for x in ops)
        if op == '*':
            if isarr and isinstance(a, EM) and isinstance(b, EM):
                return eng.em_map(eng.mul, a, b)
            return eng.em_mul(a, b)
        if op == '/':
            if isinstance(b, EM):
                return eng.em_map(eng.div, a, b)
            return eng.em_map(lambda x: eng.div(x, b), a)
        f = eng.add if op == '+' else eng.sub
        if isinstance(a, EM) and isinstance(b, EM):
            return eng.em_map(f, a, b)
        if isinstance(a, EM):
            return eng.em_map(lambda x: f(x, b), a)
        return eng.em_map(lambda x: f(a, x), b)
    return g


def m_emassign(op):
    def g(eng, e, d, obj, args, env):
        cls = d.get('cls', '')
        if cls.startswith('std::array') or cls.startswith('std::vector') or cls.startswith('std::pair<'):
            if op:
                return NotImplemented
            v = eng.rv(args[0], env)
            p = eng.lv(obj, env)
            eng.assign_record(p, v, obj['t'])
            return p
        if not cls.startswith('Eigen::'):
            if op == '' and d.get('implicit'):
                v = eng.rv(args[0], env)
                p = eng.lv(obj, env)
                eng.assign_record(p, v, obj['t'])
                return p
            return NotImplemented
        t = clean(obj['t'])
        p = eng.lv(obj, env)
        v = eng.rv(args[0], env)
        if isinstance(v, Ptr):
            v = eng.em_load(v, clean(args[0]['t']))
        if op:
            old = eng.em_load(p, t)
            if op == '*':
                isarr = 'Eigen::Array<' in t
                v = eng.em_map(eng.mul, old, v) if isarr and isinstance(v, EM) else eng.em_mul(old, v)
            elif op == '/':
                v = eng.em_map(lambda x: eng.div(x, v), old)
            else:
                f = eng.add if op == '+' else eng.sub
                v = eng.em_map(f, old, v) if isinstance(v, EM) else eng.em_map(lambda x: f(x, v), old)
        if isinstance(v, Num):
            sh = eigen_shape(t)
            v = EM(sh[0], sh[1], [[v] * sh[1] for _ in range(sh[0])])
        if v is UNDEF or type(v) is Node:
            raise EngineLimit('Eigen assignment of %r' % v)
        eng.em_store(p, v, t)
        return p
    return g


def m_emzero(val):
    def g(eng, e, d, obj, args, env):
        cls = d.get('cls', '')
        if not cls.startswith('Eigen::'):
            return NotImplemented
        sh = eigen_shape(clean(e['t'])) or eigen_shape(cls)
        dims = [_n(eng, a, env) for a in args]
        r, c = sh[0], sh[1]
        if len(dims) == 2:
            r, c = int(dims[0].c), int(dims[1].c)
        if r < 0 or c < 0:
            raise EngineLimit('Eigen Zero of unknown size')
        if val == 'I':
            return EM(r, c, [[ONE if i == j else ZERO for j in range(c)] for i in range(r)])
        return EM(r, c, [[val] * c for _ in range(r)])
    return g


def m_setzero(eng, e, d, obj, args, env):
    if not d.get('cls', '').startswith('Eigen::'):
        return NotImplemented
    t = clean(obj['t'])
    p = eng.lv(obj, env)
    r, c, rm = eng.em_dims(p, t)
    if args:
        eng.em_store(p, EM(r.c, c.c, [[_n(eng, args[0], env)] * c.c for _ in range(r.c)]), t)
    else:
        eng.em_store(p, EM(r.c, c.c, [[ZERO] * c.c for _ in range(r.c)]), t)
    return p


def m_data(eng, e, d, obj, args, env):
    cls = d.get('cls', '')
    p = eng.lv_or_ptr(obj, env, e.get('arrow'))
    if cls.startswith('std::'):
        return eng.field(p, '_a')
    if cls.startswith('Eigen::'):
        if 'Eigen::Map<' in clean(obj['t']):
            return eng.load(eng.st, eng.field(p, '_ptr'), 'double *')
        return eng.field(p, '_e')
    return NotImplemented


def m_eval(eng, e, d, obj, args, env):
    v = eng.rv(obj, env)
    return eng.em_load(v, clean(obj['t'])) if isinstance(v, Ptr) else v


def m_inverse(eng, e, d, obj, args, env):
    v = eng.rv(obj, env)
    if isinstance(v, Ptr):
        v = eng.em_load(v, clean(obj['t']))
    return eng.em_inv(v)


def m_transpose(eng, e, d, obj, args, env):
    v = eng.rv(obj, env)
    if isinstance(v, Ptr):
        v = eng.em_load(v, clean(obj['t']))
    return EM(v.c, v.r, [[v.e[i][j] for i in range(v.r)] for j in range(v.c)])


def m_dot(eng, e, d, obj, args, env):
    a, b = eng.rv(obj, env), eng.rv(args[0], env)
    if isinstance(a, Ptr): a = eng.em_load(a, clean(obj['t']))
    if isinstance(b, Ptr): b = eng.em_load(b, clean(args[0]['t']))
    s = ZERO
    for x, y in zip([z for r in a.e for z in r], [z for r in b.e for z in r]):
        s = eng.add(s, eng.mul(x, y))
    return s


def m_norm(eng, e, d, obj, args, env):
    a = eng.rv(obj, env)
    if isinstance(a, Ptr): a = eng.em_load(a, clean(obj['t']))
    s = ZERO
    for x in [z for r in a.e for z in r]:
        s = eng.add(s, eng.mul(x, x))
    return eng.sqrt(s) if d['name'] == 'norm' else s


def m_expect(eng, e, d, obj, args, env): return eng.rv(args[0], env)
def m_void(eng, e, d, obj, args, env): return Opaque('void')


def m_size(eng, e, d, obj, args, env):
    cls = d.get('cls', '')
    m = re.search(r'^std::array<.*, (\d+)>$', clean(obj['t'])) if obj is not None else None
    if m:
        return const(int(m.group(1)))
    if cls.startswith('std::vector'):
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        return eng.load(eng.st, eng.field(p, '_size'), 'long')
    return NotImplemented


def m_resize(eng, e, d, obj, args, env):
    cls = d.get('cls', '')
    if cls.startswith('std::vector'):
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        to, val = eng.field(p, '_size'), _n(eng, args[0], env)
        eng.store(eng.st, to, val)
        if re.match(r'std::vector<(double|float|int|long|unsigned int|unsigned long|bool|char)\b[^*]*>', cls):
            a = eng.field(p, '_a')
            real = [x for x in args[1:] if x['k'] != 'DefaultArg']
            eng.st.mem.setdefault(('fill', a.o, a.pre), _n(eng, real[0], env) if real else ZERO)   # new elements are value-initialised
        return Opaque('void')
    return NotImplemented


def m_vassign(eng, e, d, obj, args, env):
    """v.assign(n, x)"""
    if not re.match(r'std::vector<(double|float|int|long|unsigned int|unsigned long|bool|char)\b[^*]*>', d.get('cls', '')) or len(args) != 2 or not is_num(args[0]['t']):
        return NotImplemented
    p = eng.lv_or_ptr(obj, env, e.get('arrow'))
    n, v = _n(eng, args[0], env), _n(eng, args[1], env)
    a = eng.field(p, '_a')
    for k in [k for k in eng.st.mem if k[0] is a.o and k[1][:len(a.pre)] == a.pre]:
        del eng.st.mem[k]
    eng.st.mem[('fill', a.o, a.pre)] = v
    eng.store(eng.st, eng.field(p, '_size'), n)
    return Opaque('void')


def m_begin(end):
    def g(eng, e, d, obj, args, env):
        cls = d.get('cls', '')
        if not (cls.startswith('std::vector<') or cls.startswith('std::array<')):
            return NotImplemented
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        a = eng.field(p, '_a')
        if not end:
            return a
        m = re.search(r'^std::array<.*, (\d+)>$', clean(obj['t']))
        n = const(int(m.group(1))) if m else eng.load(eng.st, eng.field(p, '_size'), 'long')
        return eng.padd(a, n, 'double *')
    return g


def m_iter(op):
    def g(eng, e, d, obj, args, env):
        ops = ([obj] if obj is not None else []) + list(args)
        if not ops or '__normal_iterator' not in ops[0]['t']:
            return NotImplemented
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = eng.rv(ops[0], env), eng.rv(ops[1], env)
            return eng.binop(op, a, b, clean(ops[0]['t']), clean(ops[1]['t']), 'bool')
        if op == '->':
            return eng.rv(ops[0], env)
        if op == '*':
            return eng.rv(ops[0], env)
        if op == '[]':
            return eng.padd(eng.rv(ops[0], env), eng.tonum(eng.rv(ops[1], env)), clean(ops[0]['t']))
        if op in ('++', '--'):
            p = eng.lv(ops[0], env)
            old = eng.load(eng.st, p, clean(ops[0]['t']))
            eng.store(eng.st, p, eng.padd(old, const(1 if op == '++' else -1), clean(ops[0]['t'])))
            return old if len(ops) > 1 else p            # the postfix form has a dummy argument
        if op in ('+', '-'):
            a, b = eng.rv(ops[0], env), eng.rv(ops[1], env)
            if isinstance(b, Ptr):
                if a.o is not b.o or a.pre != b.pre:
                    raise EngineLimit('difference of unrelated iterators')
                return eng.sub(a.off, b.off)
            return eng.padd(a, b if op == '+' else eng.neg(b), clean(ops[0]['t']))
        if op in ('+=', '-='):
            p = eng.lv(ops[0], env)
            b = eng.tonum(eng.rv(ops[1], env))
            eng.store(eng.st, p, eng.padd(eng.load(eng.st, p, clean(ops[0]['t'])), b if op == '+=' else eng.neg(b), clean(ops[0]['t'])))
            return p
        return NotImplemented
    return g


def m_push_back(eng, e, d, obj, args, env):
    if not d.get('cls', '').startswith('std::vector<'):
        return NotImplemented
    p = eng.lv_or_ptr(obj, env, e.get('arrow'))
    sp = eng.field(p, '_size')
    n = eng.load(eng.st, sp, 'long')
    if n is UNDEF:
        n = ZERO
    q = eng.padd(eng.field(p, '_a'), n, 'double *')
    if eng.scalar_t(args[0]['t']):
        to, val = q, eng.rv(args[0], env)
        eng.store(eng.st, to, val)
    else:
        eng.assign_record(q, eng.rv(args[0], env), args[0]['t'])
    eng.store(eng.st, sp, eng.add(n, ONE))
    return Opaque('void')


def m_endelem(which):
    """v.front(), v.back()"""
    def g(eng, e, d, obj, args, env):
        if not d.get('cls', '').startswith(('std::vector<', 'std::array<')) or obj is None:
            return NotImplemented
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        n = ZERO
        if which == 'back':
            if not d.get('cls', '').startswith('std::vector<'):
                return NotImplemented
            n = eng.load(eng.st, eng.field(p, '_size'), 'long')
            if n is UNDEF:
                return NotImplemented
            n = eng.sub(n, ONE)
        return eng.padd(eng.field(p, '_a'), n, 'double *')
    return g


def m_back_inserter(eng, e, d, obj, args, env):
    q = Ptr(Obj('back_inserter', cls='std::back_insert_iterator'))
    to = eng.lv(args[0], env)
    eng.st.mem[eng.field(q, '_target').key()] = to
    return q


def appends(eng, q):
    """the vector behind a back inserter"""
    return eng.st.mem.get(eng.field(q, '_target').key())


def appended(eng, p, x):
    """append x to a vector"""
    sp = eng.field(p, '_size')
    n = eng.load(eng.st, sp, 'long')
    if n is UNDEF:
        n = ZERO
    eng.store(eng.st, eng.padd(eng.field(p, '_a'), n, 'double *'), x)
    eng.store(eng.st, sp, eng.add(n, ONE))


def mapkey(eng, k):
    while isinstance(k, Ptr):
        k = eng.load(eng.st, k, 'int')
    if isinstance(k, Num):
        return 'k%d' % k.v
    if isinstance(k, Opaque):
        return str(k.tag)
    raise EngineLimit('map key %r' % (k,))


def m_mapindex(eng, e, d, obj, args, env):
    if not d.get('cls', '').startswith('std::map<'):
        return NotImplemented
    p = eng.lv_or_ptr(obj, env, e.get('arrow'))
    k = eng.rv(args[0], env)
    q = eng.field(p, mapkey(eng, k))
    if eng.st.mem.get(q.key()) is None and p.o is not None and p.o.sym and clean(e['t']).endswith('*'):
        r = Ptr(eng.gzero.setdefault(('mapat*', q.key()), Obj('mapped', cls=pointee(e['t']), sym=True)))
        eng.gzero[('mapkey', r.o)] = k          # an entry of a map that the analysed unit does not fill
        eng.st.mem[q.key()] = r
    return q


def m_emplace(eng, e, d, obj, args, env):
    if not d.get('cls', '').startswith('std::map<'):
        return NotImplemented
    p = eng.lv_or_ptr(obj, env, e.get('arrow'))
    vs = [eng.rv(a, env) for a in args]
    if len(vs) == 1 and isinstance(vs[0], Ptr):
        vs = [eng.load(eng.st, eng.field(vs[0], n), 'int') for n in ('first', 'second')]
    if len(vs) != 2:
        raise EngineLimit('map insertion')
    while isinstance(vs[0], Ptr):
        vs[0] = eng.load(eng.st, vs[0], 'int')
    q = eng.field(p, mapkey(eng, vs[0]))
    if eng.st.mem.get(q.key()) is None:          # insertion keeps an existing entry
        eng.store(eng.st, q, vs[1])
    return Opaque('void')


def m_insert_or_assign(eng, e, d, obj, args, env):
    if not d.get('cls', '').startswith('std::map<'):
        return NotImplemented
    p = eng.lv_or_ptr(obj, env, e.get('arrow'))
    to, val = eng.field(p, mapkey(eng, eng.rv(args[0], env))), eng.rv(args[1], env)
    eng.store(eng.st, to, val)
    return Opaque('void')


def m_map_erase(eng, e, d, obj, args, env):
    if not d.get('cls', '').startswith('std::map<') or 'iterator' in args[0]['t']:
        return NotImplemented
    p = eng.lv_or_ptr(obj, env, e.get('arrow'))
    q = eng.field(p, mapkey(eng, eng.rv(args[0], env)))
    if eng.st.mem.get(q.key()) is not None:
        if eng.path and any(c is not True for c in eng.path):
            return NotImplemented
        del eng.st.mem[q.key()]
    return Opaque('count')


def m_map_find(eng, e, d, obj, args, env):
    if not d.get('cls', '').startswith('std::map<'):
        return NotImplemented
    p = eng.lv_or_ptr(obj, env, e.get('arrow'))
    if p.o is None or p.o.sym:
        return NotImplemented
    if d['name'] in ('end', 'cend'):
        return Ptr(eng.gzero.setdefault(('mapend', p.key()), Obj('mapend', cls='?')))
    k = eng.rv(args[0], env)
    q = eng.field(p, mapkey(eng, k))
    v = eng.st.mem.get(q.key())
    if d['name'] in ('count', 'contains'):
        return ZERO if v is None else ONE
    if v is None:
        return Ptr(eng.gzero.setdefault(('mapend', p.key()), Obj('mapend', cls='?')))
    r = Ptr(Obj('mapentry', cls='std::pair'))
    eng.store(eng.st, eng.field(r, 'first'), k)
    eng.store(eng.st, eng.field(r, 'second'), v)
    return r


def m_map_iter(op):
    def g(eng, e, d, obj, args, env):
        ops = ([obj] if obj is not None else []) + list(args)
        if not ops or 'iterator<std::pair<' not in ops[0]['t'] and 'std::map<' not in ops[0]['t']:
            return NotImplemented
        if op in ('==', '!='):
            a, b = eng.rv(ops[0], env), eng.rv(ops[1], env)
            if not isinstance(a, Ptr) or not isinstance(b, Ptr) or 'mapend' not in (a.o.name, b.o.name):
                return NotImplemented
            return (a.o is b.o) == (op == '==')
        a = eng.rv(ops[0], env)
        return a if isinstance(a, Ptr) and a.o.name == 'mapentry' else NotImplemented
    return g


def m_distance(eng, e, d, obj, args, env):
    a, b = eng.rv(args[0], env), eng.rv(args[1], env)
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.o is not b.o or a.pre != b.pre:
        return NotImplemented
    return eng.sub(b.off, a.off)


def m_make_pair(eng, e, d, obj, args, env):
    p = Ptr(Obj('pair', cls='std::pair'))
    for n, a in zip(('first', 'second'), args):
        to, val = eng.field(p, n), eng.rv(a, env)
        eng.store(eng.st, to, val)
    return p


def m_make_tuple(eng, e, d, obj, args, env):
    p = Ptr(Obj('tuple', cls='std::tuple'))
    for i, a in enumerate(args):
        to, val = eng.field(p, '_%d' % i), eng.rv(a, env)
        eng.store(eng.st, to, val)
    return p


def m_tie(eng, e, d, obj, args, env):
    p = Ptr(Obj('tie', cls='std::tuple'))
    eng.views[p.o] = [eng.lv(a, env) for a in args]
    return p


def m_tie_assign(eng, e, d, obj, args, env):
    if not (d.get('cls') or '').startswith('std::tuple'):
        return NotImplemented
    dst = eng.lv_or_ptr(obj, env, e.get('arrow')) if obj is not None else eng.rv(args[0], env)
    src = eng.rv(args[-1], env)
    qs = eng.views.get(dst.o)
    for i in range(len(qs) if qs else 8):
        q = eng.field(src, '_%d' % i)
        if q.key() in eng.st.mem:
            eng.store(eng.st, qs[i] if qs else eng.field(dst, '_%d' % i), eng.st.mem[q.key()])
    return dst


def chain(*ms):
    def g(eng, e, d, obj, args, env):
        for m in ms:
            r = m(eng, e, d, obj, args, env)
            if r is not NotImplemented:
                return r
        return NotImplemented
    return g


def m_get(eng, e, d, obj, args, env):
    return NotImplemented


def m_row(which):
    """u.row(i), u.col(j): a view of the elements"""
    def g(eng, e, d, obj, args, env):
        if not d.get('cls', '').startswith('Eigen::'):
            return NotImplemented
        k = _n(eng, args[0], env)
        v = eng.rv(obj, env)
        if isinstance(v, EM):
            i = int(k.c)
            return EM(1, v.c, [v.e[i]]) if which == 'row' else EM(v.r, 1, [[x[i]] for x in v.e])
        t = clean(obj['t'])
        r, c, rm = eng.em_dims(v, t)
        n = c if which == 'row' else r
        if not isinstance(n, Num) or n.c is None:
            raise EngineLimit('row of an Eigen object of unknown size')
        if which == 'row':
            els = [[eng.em_elem(v, t, k, const(j)) for j in range(int(n.c))]]
        else:
            els = [[eng.em_elem(v, t, const(j), k)] for j in range(int(n.c))]
        o = Obj(which, cls='Eigen::Block')
        eng.views[o] = els
        return Ptr(o)
    return g


def m_rowscols(which):
    def g(eng, e, d, obj, args, env):
        if not d.get('cls', '').startswith('Eigen::'):
            return NotImplemented
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        r, c, rm = eng.em_dims(p, clean(obj['t']))
        return r if which == 'rows' else c
    return g


BUILTIN = {
    'fabs': m_fabs, 'abs': m_fabs, 'sqrt': m_sqrt, 'pow': m_pow, 'min': m_minmax('min'), 'max': m_minmax('max'),
    'fmin': m_minmax('min'), 'fmax': m_minmax('max'), 'exp': m_unary('exp'), 'log': m_unary('log'), 'log10': m_unary('log10'),
    'cos': m_trig('cos'), 'sin': m_trig('sin'), 'tan': m_unary('tan'), 'atan': m_unary('atan'), 'acos': m_unary('acos'), 'asin': m_unary('asin'),
    'exit': m_abort, 'abort': m_abort, '__assert_fail': m_abort, 'terminate': m_abort, 'MPI_Abort': m_abort,
    'operator<<': m_stream, 'printf': m_void, 'operator[]': m_index, 'operator()': m_index, 'at': m_index,
    'operator+': m_arith('+'), 'operator-': m_arith('-'), 'operator*': m_arith('*'), 'operator/': m_arith('/'),
    'operator=': m_emassign(''), 'operator+=': m_emassign('+'), 'operator-=': m_emassign('-'), 'operator*=': m_emassign('*'),
    'operator/=': m_emassign('/'), 'Zero': m_emzero(ZERO), 'Identity': m_emzero('I'), 'Ones': m_emzero(ONE), 'setZero': m_setzero,
    'setConstant': m_setzero, 'data': m_data, 'eval': m_eval, 'inverse': m_inverse, 'transpose': m_transpose, 'dot': m_dot, 'norm': m_norm,
    'squaredNorm': m_norm, '__builtin_expect': m_expect, 'size': m_size, 'resize': m_resize, 'assign': m_vassign, 'flush': m_void, 'endl': m_void,
    'row': m_row('row'), 'col': m_row('col'), 'rows': m_rowscols('rows'), 'cols': m_rowscols('cols'),
}


for _op in ('==', '!=', '<', '>', '<=', '>=', '->', '*', '[]', '++', '--', '+', '-', '+=', '-='):
    _k = 'operator' + _op
    BUILTIN[_k] = chain(*([m_iter(_op)] + ([m_map_iter(_op)] if _op in ('==', '!=', '->', '*') else []) + ([BUILTIN[_k]] if _k in BUILTIN else [])))
for _k in ('operator[]', 'at'):
    BUILTIN[_k] = chain(m_mapindex, BUILTIN[_k])
BUILTIN.update({'begin': m_begin(False), 'cbegin': m_begin(False), 'end': chain(m_begin(True), m_map_find), 'cend': chain(m_begin(True), m_map_find),
                'find': chain(m_map_find, *([BUILTIN['find']] if 'find' in BUILTIN else [])), 'distance': m_distance,
                'count': chain(m_map_find, *([BUILTIN['count']] if 'count' in BUILTIN else [])), 'push_back': m_push_back,
                'front': m_endelem('front'), 'back': m_endelem('back'), 'back_inserter': m_back_inserter,
                'emplace_back': m_push_back, 'emplace': m_emplace, 'try_emplace': m_emplace, 'insert_or_assign': m_insert_or_assign, 'erase': m_map_erase, 'insert': m_emplace, 'make_pair': m_make_pair, 'make_tuple': m_make_tuple, 'tie': m_tie,
                'operator=': chain(m_tie_assign, BUILTIN['operator=']), 'hypot': m_hypot, 'swap': m_swap,
                'inner_product': m_fold, 'accumulate': m_fold, 'min': chain(m_minmax_list('min'), BUILTIN['min']),
                'max': chain(m_minmax_list('max'), BUILTIN['max'])})


def attempt(prog, body, seed=1, tries=400, **kw):
    """run `body(engine)` with fresh random homomorphisms until every square root in it exists in the field"""
    for i in range(tries):
        eng = Engine(prog, seed=seed * 100003 + i, **kw)
        eng.start()
        try:
            return body(eng)
        except Resample:
            continue
    raise EngineLimit('no homomorphism found in %d attempts' % tries)

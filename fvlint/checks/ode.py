"""Pseudo-time and time integration (T01-T06) and the matrix-free product (L01).

Each solver's time loop is judged through one arbitrary iteration: everything the loop carries becomes an unknown, the body is value-numbered
once, and its effects on one arbitrary cell (and one ghost cell) are compared with what the scheme prescribes."""
import re
from fractions import Fraction
from .. import vg, flowspec as fs
from ..vg import Num, const, ZERO, ONE, Ptr, Obj, Opaque, Node, EngineLimit, UNDEF, P, ite, band, bor, bnot, clean
from ..world import World, scalar_fields
from ..ast import AnalysisBroken, short, walk
from .spatial import method_of, text, one_field, text

FE, BE, RK = 'fvens::SteadyForwardEulerSolver<%d>', 'fvens::SteadyBackwardEulerSolver<%d>', 'fvens::TVDRKSolver<4>'


def called_names(prog, fn, memo):
    """names of everything reachable from a function through resolved calls (virtual calls by their static name)"""
    if fn.key in memo:
        return memo[fn.key]
    out = memo[fn.key] = set()
    for n in walk(fn.body):
        if n.get('k') == 'Call' and n.get('fn'):
            d = prog.decls.get(n['fn'])
            if d is None:
                continue
            out.add(d['name'])
            g = prog.fns.get(n['fn'])
            if g is not None and g is not fn:
                out |= called_names(prog, g, memo)
    return out


class OdeWorld(World):
    def __init__(self, eng, kind, cls, nv=4):
        super().__init__(eng, kind, nvars=nv)
        p = self.prog
        self.cls = cls
        self.this = Ptr(Obj('solver', cls=cls, sym=True))
        self.space = Ptr(Obj('space', cls='fvens::Spatial<double, %d>' % nv, sym=True))
        eng.store(eng.st, eng.field(self.this, one_field(p, cls, r'Spatial<', 'Spatial')[0]), self.space)
        sp = 'fvens::Spatial<double, %d>' % nv
        eng.store(eng.st, eng.field(self.space, one_field(p, sp, r'UMesh<', 'UMesh')[0]), self.mesh)
        self.u, self.uarr = self.vec('u')
        self.events = []            # (name, data)
        self.nvec = 0
        self.iter = None
        self.vhooks['compute_residual'] = self.h_residual
        self.vhooks['assemble_jacobian'] = self.h_jac
        self.vhooks['getLocalRelaxationFactor'] = self.h_omega
        m = eng.models
        m['VecDuplicate'] = self.m_dup
        m['VecCreateMPI'] = m['VecCreateGhostBlock'] = self.m_create
        m['MPI_Allreduce'] = self.m_allreduce
        m['mpi_all_reduce'] = None
        del m['mpi_all_reduce']
        m['VecGhostUpdateBegin'] = m['VecGhostUpdateEnd'] = self.m_gu
        m['KSPGetOperators'] = self.m_ops
        m['KSPSolve'] = self.m_solve
        m['MatShellGetContext'] = self.m_ctx
        m['isMatrixFree'] = lambda *a: Node(eng.named_gate('matrix-free'), True, False)
        m['parseOptionalPetscCmd_intArray'] = lambda *a: Ptr(Obj('amgsteps', cls='std::vector<int>', sym=True))
        m['assemble_jacobian'] = lambda en, e, d, obj, args, env: self.h_jac(None, [en.rv(x, env) for x in args], e)
        m['find'] = lambda *a: Ptr(Obj('found', sym=True))
        m['clock'] = lambda *a: eng.atom('clock%d' % eng.curline)
        m['isfinite'] = self.m_finite
        m['isnan'] = m['isinf'] = self.m_finite
        pw = vg.BUILTIN['pow']

        def m_pow(eng, e, d, obj, args, env):
            b, x = eng.tonum(eng.rv(args[0], env)), eng.tonum(eng.rv(args[1], env))
            r = vg.ap(lambda u, v: UNDEF if u is UNDEF or v is UNDEF else eng.pow(u, v), b, x)
            self.ev('pow', b, x, r)
            return r
        m['pow'] = m_pow
        m['set_state'] = self.m_setstate
        self.scen = None
        self.nosign = True
        self.stepkeys = None
        m['VecNorm'] = self.m_norm
        m['min_element'] = self.m_extreme('<')
        m['max_element'] = self.m_extreme('>')
        for k in ('MatZeroEntries', 'MatAssemblyBegin', 'MatAssemblyEnd', 'VecSet', 'VecDestroy', 'VecZeroEntries', 'VecCopy', 'VecAXPY', 'VecScale', 'VecAYPX', 'VecAXPBY',
                  'VecWAXPY'):
            m[k] = self.m_ev
        self.fresh = True
        self.hasres = {}
        self.rcount = 0
        self.memo = {}

    def key(self, arr, c, i):
        return self.eng.padd(arr, self.eng.add(self.eng.mul(c, const(self.nv)), const(i)), 'double *')

    def at(self, arr, c, n=None):
        n = self.nv if n is None else n
        e = self.eng
        return [e.load(e.st, e.padd(arr, e.add(e.mul(c, const(n)), const(i)), 'double *'), 'double') for i in range(n)]

    def ev(self, name, *data):
        self.events.append((name, self.eng.pathcond(), '%s:%s' % (self.eng.cur[-1].file if self.eng.cur else '?', self.eng.curline)) + data)

    # ---- models ----
    def m_dup(self, eng, e, d, obj, args, env):
        return self.new_vec(eng.rv(args[-1], env))

    def m_create(self, eng, e, d, obj, args, env):
        return self.new_vec(eng.rv(args[-1], env))

    def new_vec(self, q):
        self.nvec += 1
        v, arr = self.vec('work%d' % self.nvec)
        for c in self.cells + ([] if self.realR else [self.R]):        # PETSc allocates zeroed vectors
            for i in range(self.nv):
                self.eng.st.mem[self.key(arr, c, i).key()] = ZERO
        self.eng.store(self.eng.st, q, v)
        return ZERO

    def m_allreduce(self, eng, e, d, obj, args, env):
        a, b, n, t, op, comm = [eng.rv(x, env) for x in args]
        nm = op.o.name if isinstance(op, Ptr) and op.o else repr(op)
        v = eng.load(eng.st, a if isinstance(a, Ptr) and a.o is not None and a.o is not b.o else b, 'double')
        if type(v) is Node:
            r = eng.atom('allreduce:%s:%d' % (nm, len(self.events)), 1)
        else:
            r = vg.ap(lambda x: UNDEF if x is UNDEF else eng.fatom('allreduce:' + nm, [x], 1), v)
        self.ev('allreduce', nm, v, r, n)
        eng.store(eng.st, b, r)
        return ZERO

    def m_gu(self, eng, e, d, obj, args, env):
        v, mode, dr = [eng.rv(x, env) for x in args]
        arr = self.array_of(v)
        nm = d['name'][len('VecGhostUpdate'):]
        add = mode.c == 2 and dr.c == 1
        fwd = mode.c == 1 and dr.c == 0
        self.ev('ghost' + nm, v.o, 'add' if add else 'fwd' if fwd else 'other', self.at(arr, self.L), self.at(arr, self.R))
        if nm == 'End' and add:
            for c in self.cells:
                for i in range(self.nv):
                    q = self.key(arr, c, i)
                    x = eng.load(eng.st, q, 'double')
                    eng.store(eng.st, q, eng.add(x, vg.ap(lambda y: UNDEF if y is UNDEF else eng.fatom('other processes', [y]), x)))
        return ZERO

    def total(self, x):
        return self.eng.add(x, vg.ap(lambda y: UNDEF if y is UNDEF else self.eng.fatom('other processes', [y]), x))

    def m_ops(self, eng, e, d, obj, args, env):
        vs = [eng.rv(x, env) for x in args]
        self.A, self.M = Ptr(Obj('A', sym=True)), Ptr(Obj('M', sym=True))
        for q, v in ((vs[1], self.A), (vs[2], self.M)):
            if isinstance(q, Ptr) and q.o is not None:
                eng.store(eng.st, q, v)
        return ZERO

    def m_ctx(self, eng, e, d, obj, args, env):
        q = eng.rv(args[1], env)
        self.mf = Ptr(Obj('mfjac', cls='fvens::MatrixFreeSpatialJacobian<%d>' % self.nv, sym=True))
        eng.store(eng.st, q, self.mf)
        return ZERO

    def m_solve(self, eng, e, d, obj, args, env):
        k, b, x = [eng.rv(y, env) for y in args]
        bv = self.at(self.array_of(b), self.L)
        self.du = {}
        self.ev('solve', b.o, x.o, bv)
        arr = self.array_of(x)
        for c in self.cells:
            self.du[c.v] = [eng.atom('du%x_%d' % (c.v & 0xffff, i)) for i in range(self.nv)]
            for i in range(self.nv):
                eng.store(eng.st, self.key(arr, c, i), self.du[c.v][i])
        return ZERO

    def m_ev(self, eng, e, d, obj, args, env):
        vs = [eng.rv(x, env) for x in args]
        self.ev(d['name'], *vs)
        nm, ar = d['name'], [self.array_of(v) if isinstance(v, Ptr) and v.o is not None else v for v in vs]
        # only entries of owned cells are touched by PETSc's vector operations on a ghosted vector
        for c in self.cells:
            for i in range(self.nv):
                q = lambda k: self.key(ar[k], c, i)
                x = lambda k: eng.load(eng.st, q(k), 'double')
                if nm in ('VecSet', 'VecZeroEntries'):
                    eng.store(eng.st, q(0), vs[1] if nm == 'VecSet' else ZERO)
                elif nm == 'VecCopy':
                    eng.store(eng.st, q(1), x(0))
                elif nm == 'VecScale':
                    eng.store(eng.st, q(0), eng.mul(vs[1], x(0)))
                elif nm == 'VecAXPY':
                    eng.store(eng.st, q(0), eng.add(x(0), eng.mul(vs[1], x(2))))
                elif nm == 'VecAYPX':
                    eng.store(eng.st, q(0), eng.add(x(2), eng.mul(vs[1], x(0))))
                elif nm == 'VecAXPBY':
                    eng.store(eng.st, q(0), eng.add(eng.mul(vs[2], x(0)), eng.mul(vs[1], x(3))))
                elif nm == 'VecWAXPY':
                    eng.store(eng.st, q(0), eng.add(x(3), eng.mul(vs[1], x(2))))
        return ZERO

    def m_extreme(self, op):
        def f(eng, e, d, obj, args, env):
            a, b = [eng.rv(x, env) for x in args[:2]]
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or eng.sub(b.off, a.off).v != self.nelem.v:
                raise EngineLimit('extreme element of an unknown range')
            v = None
            for c in self.cells:
                x = eng.load(eng.st, eng.padd(a, c, 'double *'), 'double')
                v = x if v is None else ite(eng.cmp(op, x, v), x, v)
            return eng.temp(v, 'double')
        return f

    def m_finite(self, eng, e, d, obj, args, env):
        x = eng.tonum(eng.rv(args[0], env))
        nm = d['name']

        def g(y):
            if not isinstance(y, Num):
                return UNDEF
            nan = Node(eng.named_gate('nan:%d' % y.v), True, False)
            inf = Node(eng.named_gate('inf:%d' % y.v), True, False)
            return {'isnan': nan, 'isinf': inf}.get(nm) or bnot(bor(nan, inf))
        return vg.ap_bool(g, x)

    def m_setstate(self, eng, e, d, obj, args, env):
        self.ev('set_state', *[eng.rv(x, env) for x in args])
        return ZERO

    def m_matset(self, eng, e, d, obj, args, env):
        self.ev('matset')
        return super().m_matset(eng, e, d, obj, args, env)

    def m_norm(self, eng, e, d, obj, args, env):
        x, t, q = [eng.rv(y, env) for y in args]
        self.ev('norm', x.o, t)
        self.nrm = eng.atom('norm', 1)
        eng.store(eng.st, q, self.nrm)
        return ZERO

    # ---- virtual calls ----
    def h_residual(self, this, a, e):
        eng = self.eng
        u, r, dt = a[0], a[1], a[3]
        deref = lambda v: v if v.o in self.vecs else eng.load(eng.st, v, '_p_Vec *') if v.o is not None else v
        u, r = deref(u), deref(r)
        if isinstance(dt, Ptr) and dt.o is not None:
            dt = deref(dt)
        rarr, uarr = self.array_of(r), self.array_of(u)
        self.rcount += 1
        ghosts = self.at(rarr, self.R)
        self.ev('residual', u.o, r.o, self.at(rarr, self.L), ghosts, self.at(uarr, self.L), self.at(uarr, self.R), a[2],
                dt.o if isinstance(dt, Ptr) else None, this)
        self.res = {}
        for c in self.cells:
            uv = self.at(uarr, c)
            new = [vg.ap(lambda *ys: UNDEF if any(y is UNDEF for y in ys) else eng.fatom('residual%d' % i, list(ys)), *uv) for i in range(self.nv)]
            self.res[c.v] = new
            old = self.at(rarr, c)
            for i in range(self.nv):
                eng.store(eng.st, self.key(rarr, c, i), eng.add(old[i], new[i]))
        if a[2] is True and isinstance(dt, Ptr) and dt.o is not None:
            darr = self.array_of(dt)
            self.dtarr = darr
            self.dt = {}
            for c in self.cells:
                self.dt[c.v] = eng.atom('dt%x_%d' % (c.v & 0xffff, self.rcount), 1)
                eng.store(eng.st, eng.padd(darr, c, 'double *'), self.dt[c.v])
            if self.fresh:
                self.dt1, self.fresh = dict(self.dt), False
        return ZERO

    def h_jac(self, this, a, e):
        eng = self.eng
        u, M = a[0], a[1]
        if u.o not in self.vecs:
            u = eng.load(eng.st, u, '_p_Vec *')
        self.ev('jacobian', u.o, M.o, self.at(self.array_of(u), self.L), self.at(self.array_of(u), self.R))
        return ZERO

    def h_omega(self, this, a, e):
        eng = self.eng
        r = lambda p: [eng.load(eng.st, eng.padd(p, const(i), 'double *'), 'double') for i in range(self.nv)]
        d, u = r(a[0]), r(a[1])
        w = vg.ap(lambda *ys: UNDEF if any(y is UNDEF for y in ys) else eng.fatom('relaxation factor', list(ys)), *(d + u))
        self.ev('omega', d, u, w)
        return w

    def unmodelled(self, eng, e, d, this, args, env):
        if d['name'] in ('MPI_Wtime', 'omp_get_max_threads', 'omp_get_num_threads', 'gettimeofday'):
            return ZERO if d['name'] == 'gettimeofday' else eng.atom('%s%d' % (d['name'], eng.curline))
        if d['name'] in ('open', 'close', 'setprecision', 'setw', 'precision') or re.match(r'std::(?!numeric_limits)', d.get('cls') or ''):
            for a in args:
                try:
                    eng.rv(a, env)
                except EngineLimit:
                    pass
            if d['name'] in ('end', 'begin'):
                return Ptr(Obj(d['name'], sym=True))
            return Opaque('ext:' + d['name'])
        for a in args:
            eng.rv(a, env)
        return super().unmodelled(eng, e, d, this, args, env)

    # ---- the time loop ----
    def is_time_loop(self, s):
        if s['k'] not in ('While', 'For', 'Do'):
            return False
        k = id(s)
        r = self.hasres.get(k)
        if r is None:
            names = set()
            for n in walk(s['body']):
                if n.get('k') == 'Call' and n.get('fn'):
                    d = self.prog.decls.get(n['fn'])
                    names.add(d['name'] if d else '')
                    g = self.prog.fns.get(n['fn'])
                    if g is not None:
                        names |= called_names(self.prog, g, self.memo)
            r = self.hasres[k] = 'compute_residual' in names
        return r

    def wants(self, eng, s, st, env):
        if self.is_time_loop(s) and self.iter is None:
            return True
        return super().wants(eng, s, st, env)

    def loop(self, eng, s, st, env):
        if self.iter is None and self.is_time_loop(s):
            return self.time_loop(eng, s, st, env)
        return super().loop(eng, s, st, env)

    def time_loop(self, eng, s, st, env):
        self.iter = True
        cond = s.get('c')
        pre = dict(st.mem)
        saved = st.clone()
        ev0, m0, t0 = len(self.events), len(self.mats), len(eng.throws)
        so, eng.stores = eng.stores, []
        eng.st = st
        eng.exec(s['body'], st.clone(), dict(env))
        if s.get('inc') is not None:
            eng.rv(s['inc'], env)
        wrote = eng.stores
        written = [q for q, v, l in wrote]
        eng.stores = so
        self.before = self.events[:ev0]
        del self.events[ev0:], self.mats[m0:], eng.throws[t0:]
        st = saved
        self.pre = pre
        arrs = {a.o for a in self.vecs.values()}
        self.carried = {}
        for q in written:
            k = q.key()
            if q.o in arrs or k in self.carried or k not in pre and not q.o.sym:
                continue
            old = pre.get(k)
            while type(old) is Node:
                old = old.t
            if isinstance(old, (Ptr, Opaque, bool)) or q.pre and 'convhis' in str(q.pre):
                continue
            # a norm that starts positive and is only ever replaced by positive values stays positive (confirmed below)
            vals = [v for q2, v, l in wrote if q2.key() == k]
            isp = not self.nosign and isinstance(old, Num) and old.c is not None and old.c > 0 and positive(eng, vals)
            self.carried[k] = st.mem[k] = eng.atom('carried:' + eng.locname(q), 1 if isp else None)
        # vectors: arbitrary contents
        for q in written:
            if q.o in arrs and q.o is not self.uarr.o:
                st.mem[q.key()] = eng.atom('old:%s:%d' % (q.o.name, q.key()[2] % 99991))
        for k in self.stepkeys or ():
            kk = next((x for x in self.carried if (x[0].name, x[1:]) == k), None)
            if kk is None:
                raise AnalysisBroken('the step counter is not found again')
            mx = self.cfg['maxiter']
            if self.scen == 'first':
                st.mem[kk] = self.carried[kk] = ZERO
            elif self.scen == 'limit':
                st.mem[kk] = self.carried[kk] = mx
            else:
                sv = st.mem[kk]
                eng.set_facts(self.factlist + [eng.sub(sv, ONE), eng.sub(eng.sub(mx, sv), ONE)])
        for c in self.cells + ([] if self.realR else [self.R]):
            for i in range(self.nv):
                st.mem[self.key(self.uarr, c, i).key()] = eng.atom('u%x_%d' % (c.v & 0xffff, i), 1 if i in (0,) else None)
        self.u0 = {c.v: [st.mem[self.key(self.uarr, c, i).key()] for i in range(self.nv)] for c in self.cells + ([] if self.realR else [self.R])}
        eng.st = st
        self.cond = eng.tobool(eng.rv(cond, env)) if cond is not None else True
        top = eng.st.clone()
        self.top = dict(top.mem)
        eng.path.append(self.cond)
        if s['k'] == 'Do':
            eng.path[-1] = True
        self.fresh = True
        s1 = eng.exec(s['body'], eng.st, env)
        s1.cont = False
        if s.get('inc') is not None:
            eng.st = s1
            eng.rv(s['inc'], env)
            s1 = eng.st
        eng.path.pop()

        def cond_at(vals):
            cur, eng.st = eng.st, top.clone()
            eng.st.mem.update(vals)
            try:
                return eng.tobool(eng.rv(cond, env)) if cond is not None else True
            finally:
                eng.st = cur
        self.cond_at = cond_at
        self.end = s1
        for k, a in self.carried.items():
            if isinstance(a, Num) and a.s > 0 and not positive(eng, [s1.mem.get(k)]) and a.c is None:
                raise NotPositive()
        eng.st = s1.clone()
        self.endcond = eng.tobool(eng.rv(cond, env)) if cond is not None else True
        self.body_events = self.events[ev0:]
        self.body_mats = self.mats[m0:]
        self.body_throws = eng.throws[t0:]
        del self.events[ev0:]
        # after the loop: the unknown carried values with the loop condition false
        self.t_after = len(eng.throws)
        top.dead = top.ret = top.brk = False
        eng.path.append(bnot(self.cond))
        return top

    def wl(self, arr, c, i):
        return self.eng.wline.get(self.key(arr, c, i).key(), self.fn.where)

    def eq(self, a, b):
        return not self.eng.differences(a, b)


class NotPositive(Exception):
    pass


def positive(eng, vals):
    return all(isinstance(y, Num) and (y.s > 0 or y.c is not None and y.c > 0) for v in vals for path, y in vg.leaves(v) if not eng.infeasible(path))


def feasible(eng, b):
    """can this gated truth value be true?"""
    if b is True:
        return True
    if b is False:
        return False
    return any(leaf is True and not eng.infeasible(path) for path, leaf in vg.leaves(b))


def implies(eng, a, b):
    return not feasible(eng, band(a, bnot(b)))


def equivalent(eng, a, b):
    return implies(eng, a, b) and implies(eng, b, a)


def steady(prog, eng, kind, cls, nv, scen=None, stepkeys=None):
    path, cur = list(eng.path), list(eng.cur)
    try:
        return steady1(prog, eng, kind, cls, nv, scen, stepkeys, False)
    except NotPositive:
        eng.path[:], eng.cur[:] = path, cur
        return steady1(prog, eng, kind, cls, nv, scen, stepkeys, True)


def steady1(prog, eng, kind, cls, nv, scen, stepkeys, nosign):
    w = OdeWorld(eng, kind, cls, nv)
    w.nosign = nosign
    w.scen, w.stepkeys = scen, stepkeys
    f = method_of(prog, cls, 'solve', 1)
    w.fn = f
    cn = one_field(prog, cls, 'SteadySolverConfig', 'SteadySolverConfig')[0]
    conf = eng.field(w.this, cn)
    if dict(scalar_fields(prog, cls))[cn].strip().endswith(('&', '*')):
        q, conf = conf, Ptr(Obj('config', cls='fvens::SteadySolverConfig', sym=True))
        eng.store(eng.st, q, conf)
    w.cfg = {}
    for n, sg in (('maxiter', 1), ('tol', 1), ('cflinit', 1), ('cflfin', 1)):
        w.cfg[n] = eng.atom('config.' + n, sg)
        eng.store(eng.st, eng.field(conf, n), w.cfg[n])
    w.ret = eng.invoke_values(f, w.this, [w.u])
    if w.iter is None:
        raise AnalysisBroken('%s: no time loop that evaluates the residual' % f.where)
    return w


def steps_of(w):
    eng = w.eng
    out = []
    for k, a in w.carried.items():
        v, e0 = w.end.mem.get(k), w.pre.get(k)
        if isinstance(v, Num) and isinstance(e0, Num) and e0.c == 0 and eng.sub(v, a).v == 1:
            out.append((k[0].name, k[1:]))
    if not out:
        raise AnalysisBroken('%s: no step counter' % w.fn.where)
    return out


def bad(eng, v):
    return bor(Node(eng.named_gate('nan:%d' % v.v), True, False), Node(eng.named_gate('inf:%d' % v.v), True, False))


class Steady:
    """facts about one generic iteration, shared by the properties"""

    def __init__(self, eng, prog, kind, cls, nv, scen, keys):
        self.w = w = steady(prog, eng, kind, cls, nv, scen, keys)
        self.eng, self.out = eng, []
        self.implicit = 'Backward' in cls
        self.alive = band(w.cond, bnot(w.end.dead)) if w.cond is not True else bnot(w.end.dead)

    def evs(self, name, pred=lambda e: True):
        return [(i, e) for i, e in enumerate(self.w.body_events) if e[0] == name and pred(e)]

    def put(self, key, where, ok, what):
        self.out.append((key, where, ok, what))

    def always(self, e):
        """is the event on every path of an iteration that completes?"""
        return implies(self.eng, self.alive, e[1])

    def same(self, a, b):
        return len(a) == len(b) and all(self.w.eq(x, y) for x, y in zip(a, b))

    def residual_event(self):
        w = self.w
        ev = self.evs('residual')
        ok = len(ev) == 1 and self.always(ev[0][1])
        self.put('residual-once', ev[0][1][2] if ev else w.fn.where, ok, 'the residual is not evaluated exactly once in every iteration')
        return ev[0] if ok else None

    def exchange(self):
        """T07"""
        w, eng = self.w, self.eng
        r = self.residual_event()
        if r is None:
            return
        i, e = r
        _, pc, where, u, rv, rl, rg, ul, ug, gts, dt, this = e
        self.put('zero-own', where, all(isinstance(x, Num) and x.c == 0 for x in rl), 'the residual vector is not zero in every owned cell when the residual is accumulated into it')
        self.put('zero-ghost', where, all(isinstance(x, Num) and x.c == 0 for x in rg), 'the residual vector is not zero in every ghost cell when the residual is accumulated into it')
        self.put('current-state', where, u is w.u.o and self.same(ul, w.u0[w.L.v]), 'the residual is not evaluated at the current state')
        # contributions of other processes
        b = self.evs('ghostBegin', lambda x: x[3] is rv and x[4] == 'add')
        n = self.evs('ghostEnd', lambda x: x[3] is rv and x[4] == 'add')
        ok = len(b) == 1 and len(n) == 1 and i < b[0][0] < n[0][0] and self.always(b[0][1]) and self.always(n[0][1]) and \
            self.same(b[0][1][5], w.res[w.L.v])
        self.put('add-contributions', b[0][1][2] if b else where, ok, 'residual contributions to cells of other processes are not sent and added exactly once after the residual evaluation')
        # ghost values of the state
        uend = self.at_end(w.uarr, w.L)
        fwd = lambda x: x[3] is w.u.o and x[4] == 'fwd'
        b, n = self.evs('ghostBegin', fwd), self.evs('ghostEnd', fwd)
        oka = any(self.always(x[1]) and self.same(x[1][5], uend) and any(x[0] < y[0] and self.always(y[1]) for y in n) for x in b)
        okb = any(x[0] < i and self.always(x[1]) and self.same(x[1][5], w.u0[w.L.v]) and any(x[0] < y[0] < i and self.always(y[1]) for y in n) for x in b)
        self.put('state-exchange', b[0][1][2] if b else w.fn.where, oka or okb, 'updated states are not sent to the ghost cells of other processes before the next residual evaluation')
        odd = [x for nm in ('ghostBegin', 'ghostEnd') for x in self.evs(nm, lambda x: x[4] == 'other')]
        self.put('exchange-kind', odd[0][1][2] if odd else w.fn.where, not odd, 'an exchange with another mode than forward insertion or reverse addition')

    def at_end(self, arr, c, n=None):
        w = self.w
        st, self.eng.st = self.eng.st, w.end
        v = w.at(arr, c, n)
        self.eng.st = st
        return v

    def explicit_update(self):
        """T05"""
        w, eng = self.w, self.eng
        r = self.residual_event()
        if r is None:
            return
        e = r[1]
        self.put('timesteps', e[2], e[9] is True and e[10] is not None and hasattr(w, 'dt'), 'local time steps are not requested with the residual')
        if not hasattr(w, 'dt'):
            return
        m, d = eng.mul, eng.div
        for c, ar in zip(w.cells, w.area):
            for i, v in enumerate(self.at_end(w.uarr, c)):
                want = eng.add(w.u0[c.v][i], m(m(w.cfg['cflinit'], d(w.dt[c.v], ar)), w.total(w.res[c.v][i])))
                df = eng.differences(v, want)
                self.put('update:%d' % i, w.wl(w.uarr, c, i), not df, 'the update of variable %d is not CFL dt/volume times the residual (%s)' % (i, text(df)))
        for q, v in w.end.mem.items():
            pass

    def implicit_step(self):
        """T01"""
        w, eng = self.w, self.eng
        r = self.residual_event()
        if r is None or not hasattr(w, 'dt'):
            self.put('timesteps', w.fn.where, hasattr(w, 'dt'), 'local time steps are not requested with the residual')
            return
        i, e = r
        z, j, ab, ae, ms, so = [self.evs(n) for n in ('MatZeroEntries', 'jacobian', 'MatAssemblyBegin', 'MatAssemblyEnd', 'matset', 'solve')]
        M = w.M.o
        one = lambda x: len(x) == 1 and self.always(x[0][1])
        self.put('zero-matrix', z[0][1][2] if z else w.fn.where, one(z) and z[0][1][3].o is M and bool(j) and z[0][0] < j[0][0] and all(z[0][0] < x[0] for x in ms),
                 'the Jacobian matrix is not zeroed exactly once before each assembly')
        self.put('jacobian', j[0][1][2] if j else w.fn.where, one(j) and j[0][1][3] is w.u.o and j[0][1][4] is M and self.same(j[0][1][5], w.u0[w.L.v]),
                 'the Jacobian is not assembled exactly once at the current state')
        last = max([x[0] for x in ms + j] or [0])
        fin = [x for x in ab if x[0] > last and x[1][3].o is M and x[1][4].c == 0 and self.always(x[1])]
        fie = [x for x in ae if fin and x[0] > fin[0][0] and x[1][3].o is M and x[1][4].c == 0 and self.always(x[1])]
        ok = one(so) and bool(fin) and bool(fie) and fie[0][0] < so[0][0]
        self.put('assembly', ab[0][1][2] if ab else w.fn.where, ok, 'the matrix is not finally assembled after all insertions and before the linear solve')
        # pseudo-time term
        diag = {}
        for name, A, rows, cols, vals, mode, where, pc in w.body_mats:
            bs = w.nv if 'Blocked' in name else 1
            if not implies(eng, self.alive, pc) or mode.c != 2 or A.o is not M:
                self.put('pseudotime-mode', where, False, 'a pseudo-time term is not unconditionally added to the Jacobian matrix')
                continue
            if name.endswith('Local'):
                self.put('pseudotime-index', where, False, 'local numbering is used for the pseudo-time term')
            for a, rr in enumerate(rows):
                for b, cc in enumerate(cols):
                    for x in range(bs):
                        for y in range(bs):
                            v = vals[(a * bs + x) * len(cols) * bs + b * bs + y]
                            R = eng.add(eng.mul(rr, const(bs)), const(x)).v
                            C = eng.add(eng.mul(cc, const(bs)), const(y)).v
                            diag[(R, C)] = (eng.add(diag[(R, C)][0], v) if (R, C) in diag else v, where)
        cfl = None
        want = {}
        for c, ar in zip(w.cells, w.area):
            g = w.get('gglobalElemIndex', [c])
            for x in range(w.nv):
                k = eng.add(eng.mul(g, const(w.nv)), const(x)).v
                want[(k, k)] = (c, ar)
        for k, (c, ar) in want.items():
            v, where = diag.get(k, (ZERO, w.fn.where))
            if isinstance(v, Num) and v.c == 0:
                self.put('pseudotime', where, False, 'no pseudo-time term on the diagonal of an owned cell at its global index')
                continue
            q = eng.div(ar, eng.mul(v, w.dt[c.v]))
            if cfl is None:
                cfl = q
            df = eng.differences(q, cfl)
            self.put('pseudotime', where, not df, 'the pseudo-time term is not volume/(CFL dt) with one CFL number for all cells and variables (%s)' % text(df))
        for k, (v, where) in diag.items():
            if k not in want:
                self.put('pseudotime-offdiag', where, isinstance(v, Num) and v.c == 0, 'a pseudo-time entry off the diagonal of the owned cells')
        self.cfl = cfl
        if cfl is None or not one(so):
            self.put('solve', w.fn.where, False, 'the linear system is not solved exactly once in every iteration')
            return
        _, pc, where, b, x, bv = so[0][1]
        self.put('rhs', where, b is e[4] and self.same(bv, [w.total(y) for y in w.res[w.L.v]]), 'the right-hand side of the linear solve is not the complete residual of the current state')
        st, eng.st = eng.st, w.end
        dv = eng.load(eng.st, eng.padd(w.dtarr, w.L, 'double *'), 'double')
        eng.st = st
        df = eng.differences(dv, eng.div(w.area[0], eng.mul(cfl, w.dt[w.L.v])))
        self.put('dtm', w.fn.where, not df, 'the time-step vector does not hold volume/(CFL dt) for the matrix-free operator (%s)' % text(df))
        ss = [x for x in w.before if x[0] == 'set_state']
        mfree = Node(eng.named_gate('matrix-free'), True, False)
        ok = len(ss) == 1 and implies(eng, mfree, ss[0][1]) and [v.o for v in ss[0][3:]] == [w.u.o, e[4], e[10]]
        self.put('matrix-free-state', ss[0][2] if ss else w.fn.where, ok, 'the matrix-free operator is not given the state, residual and time-step vectors of the iteration')
        for c in w.cells:
            om = vg.ap(lambda *ys: eng.fatom('relaxation factor', list(ys)), *(w.du[c.v] + w.u0[c.v]))
            for k, v in enumerate(self.at_end(w.uarr, c)):
                df = eng.differences(v, eng.add(w.u0[c.v][k], eng.mul(om, w.du[c.v][k])))
                self.put('update:%d' % k, w.wl(w.uarr, c, k), not df, 'the update of variable %d is not the relaxation factor of the cell times the solution of the linear system (%s)' % (k, text(df)))

    def norm(self):
        w, eng = self.w, self.eng
        s = ZERO
        for c, ar in zip(w.cells, w.area):
            t = w.total(w.res[c.v][w.nv - 1])
            s = eng.add(s, eng.mul(eng.mul(t, t), ar))
        return s

    def normval(self):
        """global residual norm of this iteration"""
        eng, S = self.eng, self.norm()
        red = [e for i, e in self.evs('allreduce') if isinstance(e[4], Num) and e[4].v == S.v and 'sum' in e[3].lower() and self.always(e) and isinstance(e[6], Num) and e[6].c == 1]
        return (red[0][5], eng.sqrt(red[0][5])) if red else (None, None)

    def carried_end(self):
        return [(k, a, self.w.end.mem.get(k)) for k, a in self.w.carried.items()]


def run_steady(prog, seed, kind, cls, nv, body, scens=('first', 'later')):
    """body(Steady) for every scenario; the step counter is identified by a first unconstrained run"""
    keys = vg.attempt(prog, lambda eng: steps_of(steady(prog, eng, kind, cls, nv)), seed=seed)
    out = []
    for sc in scens:
        def b(eng):
            s = Steady(eng, prog, kind, cls, nv, sc, keys)
            body(s)
            return s.out
        out += [('%s:%s' % (sc, k), wh, ok, '%s step: %s' % (sc, t)) for k, wh, ok, t in vg.attempt(prog, b, seed=seed)]
    return out


def emit(ctx, nm, res):
    for key, where, ok, what in res or []:
        ctx.ob(ok, '%s:%s' % (nm, key), where, '%s, %s' % (nm, what))


def each(ctx, tmpl, body, kinds=('interior', 'connectivity'), nvs=(4, 1), scens=('first', 'later')):
    for t in tmpl:
        for nv in nvs:
            for kind in kinds:
                cls = t % nv
                nm = '%s, %s cell' % (short(cls), 'ghost' if kind == 'connectivity' else 'owned')
                emit(ctx, nm, ctx.guard(nm, run_steady, ctx.prog, ctx.seed, kind, cls, nv, body, scens))
                ctx.count('generic iterations', len(scens))


def exchange(ctx):
    ctx.rule('One arbitrary iteration of each pseudo-time loop with arbitrary loop-carried values: contents of the residual vector at its evaluation, order and kind of '
             'the ghost exchanges relative to the updates of the state.')
    each(ctx, (FE, BE), lambda s: s.exchange())


def forward_euler(ctx):
    ctx.rule('State of an arbitrary owned cell after one arbitrary iteration of the forward-Euler loop against u + CFL dt/V R.')
    each(ctx, (FE,), lambda s: s.explicit_update(), kinds=('interior',))


def backward_euler(ctx):
    ctx.rule('Matrix insertions, their order relative to assembly and solve, right-hand side and state update of one arbitrary iteration of the backward-Euler loop.')
    each(ctx, (BE,), lambda s: s.implicit_step(), kinds=('interior',))


def cfl_control(ctx):
    ctx.rule('CFL number that reaches the pseudo-time term in one arbitrary backward-Euler iteration, for arbitrary previous CFL number and residual norms.')

    def body(s):
        n0 = len(s.out)
        s.implicit_step()
        del s.out[n0:]
        w, eng = s.w, s.eng
        cfl = getattr(s, 'cfl', None)
        if cfl is None:
            s.put('cfl', w.fn.where, False, 'no CFL number reaches the pseudo-time term')
            return
        lo, hi = w.cfg['cflinit'], w.cfg['cflfin']
        base = band(s.alive, eng.cmp('<=', lo, hi))
        s.put('cfl-min', w.fn.where, not feasible(eng, band(base, eng.cmp('<', cfl, lo))), 'the CFL number used can be below the configured initial one')
        s.put('cfl-max', w.fn.where, not feasible(eng, band(base, eng.cmp('>', cfl, hi))), 'the CFL number used can exceed the configured final one')
        # in between: previous CFL number times a positive power of the ratio of the two latest norms
        prev = [a for k, a, v in s.carried_end() if v is not None and (isinstance(v, Num) or type(v) is Node) and not eng.differences(v, cfl)]
        norm = s.normval()[1] or ZERO
        cur = [a for k, a, v in s.carried_end() if isinstance(v, Num) and v.v == norm.v]
        old = [a for k, a, v in s.carried_end() if isinstance(v, Num) and any(v.v == c.v for c in cur)]
        s.put('cfl-kept', w.fn.where, bool(prev) and bool(cur) and bool(old), 'the CFL number used or the latest residual norms are not kept for the next iteration')
        if not (prev and cur and old):
            return
        ratios = {eng.div(o, c).v for o in old for c in cur}
        pos = lambda x: x.s > 0 or x.c is not None and x.c > 0
        pows = [r for i, e in s.evs('pow') for path, (b, x, r) in vg.leaves(vg.ap(lambda b, x, r: (b, x, r), e[3], e[4], e[5]))
                if all(isinstance(y, Num) for y in (b, x, r)) and b.v in ratios and pos(x)]
        good = {eng.mul(p, r).v for p in prev for r in pows} | {p.v for p in prev}
        inside = band(band(base, eng.cmp('>', cfl, lo)), eng.cmp('<', cfl, hi))
        wrong = [leaf for path, leaf in vg.leaves(vg.ap(lambda g, c: c if g is True else None, inside, cfl)) if leaf is not None and not eng.infeasible(path)
                 and not (isinstance(leaf, Num) and (leaf.v in good or leaf.v in (lo.v, hi.v)))]
        s.put('cfl-ratio', w.fn.where, not wrong, 'between its limits the CFL number is not the previous one times a positive power of the ratio of previous to latest residual norm')
    each(ctx, (BE,), body, kinds=('interior',), nvs=(4,))


def outcome(ctx):
    ctx.rule('Throws, loop condition and return of the steady solvers for one arbitrary iteration and for the state after the loop (limit reached or not).')

    def body(s):
        w, eng = s.w, s.eng
        S = s.norm()
        R, norm = s.normval()
        s.put('norm', w.fn.where, R is not None, 'the norm that decides convergence is not the volume-weighted square of the last residual component summed over all owned cells of all processes')
        if R is None:
            return
        # divergence
        if s.w.scen == 'first':
            inits = []
        gates = {eng.atominfo[a][2] for a in range(eng.natoms) if eng.atominfo[a][0] == 'named'}
        thr = [t for t in w.body_throws]
        allpc = False
        for t, pc, where in thr:
            allpc = bor(allpc, pc)
            s.put('throw-type', where, 'Numerical_error' in t, 'an iteration stops with an exception other than a numerical error')
        cands = [c for c in [R, norm] + [eng.div(norm, a) for k, a, v in s.carried_end() if isinstance(a, Num) and a.c is None] + [S] if 'nan:%d' % c.v in gates]
        ok = False
        for c in cands:
            ok = ok or (implies(eng, band(w.cond, bad(eng, c)), allpc) and implies(eng, allpc, bad(eng, c)))
        s.put('diverged', thr[0][2] if thr else w.fn.where, ok, 'a residual norm that is not finite does not raise a numerical error in the same iteration (or a finite one does)')
        # loop condition after the iteration
        step = next(a for k, a in w.carried.items() if (k[0].name, k[1:]) in w.stepkeys)
        more = eng.cmp('<', eng.add(step, ONE), w.cfg['maxiter'])
        tol = w.cfg['tol']
        if s.w.scen == 'first':
            refs = [norm]
        else:
            refs = [a for k, a, v in s.carried_end() if isinstance(v, Num) and isinstance(a, Num) and v.v == a.v]
        ok = any(equivalent(eng, band(s.alive, band(w.endcond, more)), band(s.alive, band(eng.cmp('>', eng.div(norm, r), tol), more))) for r in refs)
        s.put('continue', w.fn.where, ok, 'iterations do not go on exactly while the norm relative to that of the first step exceeds the tolerance (and the limit is not reached)')
        s.put('limit', w.fn.where, not feasible(eng, band(s.alive, band(w.endcond, eng.cmp('>=', eng.add(step, ONE), w.cfg['maxiter'])))), 'more iterations than the configured limit')

    each(ctx, (FE, BE), body, kinds=('interior',))

    def after(s):
        w, eng = s.w, s.eng
        # the values the loop condition compares, at the top of the arbitrary iteration
        done = bnot(w.cond)
        thr = eng.throws[w.t_after:]
        tolthrow = numthrow = False
        for t, pc, where in thr:
            if 'Tolerance_error' in t:
                tolthrow = bor(tolthrow, pc)
            else:
                numthrow = bor(numthrow, pc)
        normal = band(done, bnot(bor(tolthrow, numthrow)))
        conv = s.converged
        where = thr[0][2] if thr else w.fn.where
        s.put('not-converged', where, not feasible(eng, band(normal, bnot(conv))), 'the solver returns normally although the tolerance was not reached')
        if w.scen == 'limit':
            s.put('tolerance-error', where, implies(eng, band(done, bnot(conv)), tolthrow), 'reaching the iteration limit without convergence does not raise a tolerance error')
        else:
            s.put('converged', where, implies(eng, band(done, conv), normal), 'the solver raises an error although the tolerance was reached before the iteration limit')
            td = one_field(w.prog, w.cls, 'TimingData', 'TimingData')[0]
            c = eng.load(eng.st, eng.field(eng.field(w.this, td), 'converged'), 'bool')
            s.put('flag', where, implies(eng, normal, eng.tobool(c)), 'convergence is not recorded in the timing data')
        code = vg.ap_bool(lambda y: isinstance(y, Num) and y.c != 0, w.ret) if isinstance(w.ret, (Num, Node)) else False
        s.put('code', w.fn.where, not feasible(eng, band(normal, code)), 'a normal return with a non-zero code')

    def after2(s):
        w, eng = s.w, s.eng
        # relative norm at the top: norm and reference are the carried values found by their role in the iteration
        S = s.normval()[1] or ZERO
        cur = [a for k, a, v in s.carried_end() if isinstance(v, Num) and v.v == S.v]
        step = w.stepkeys
        refs = [a for k, a, v in s.carried_end() if isinstance(v, Num) and isinstance(a, Num) and v.v == a.v and (k[0].name, k[1:]) not in step]
        tol = w.cfg['tol']
        best = None
        for c in cur:
            for r in refs:
                conv = eng.cmp('<=', eng.div(c, r), tol)
                if w.scen == 'limit' or equivalent(eng, bnot(w.cond), conv):
                    n0 = len(s.out)
                    s.converged = conv
                    after(s)
                    mine = s.out[n0:]
                    del s.out[n0:]
                    if best is None or sum(not x[2] for x in mine) < sum(not x[2] for x in best):
                        best = mine
        if best is None:
            s.put('after-loop', w.fn.where, False, 'no carried residual norm and reference decide the end of the iterations')
        else:
            s.out += best
    each(ctx, (FE, BE), after2, kinds=('interior',), scens=('later', 'limit'))


def relaxation(ctx):
    ctx.rule('Value of the relaxation factor of every update policy for arbitrary physical states and arbitrary updates against max(minimum, 1 - largest relative change), '
             'its range, and the domain on which construction is refused.')
    from .physics import Ph
    prog = ctx.prog
    FSU, FULL = 'fvens::FlowSimpleUpdate<4>', 'fvens::FullUpdate<%d>'

    def simple(eng):
        out = []
        ph = Ph(ctx, eng)
        mf = eng.atom('minfactor', 1)
        f = method_of(prog, FSU, 'getLocalRelaxationFactor', 2)
        # construction
        t0 = len(eng.throws)
        mm = eng.atom('requested minimum')
        eng.make(FSU, [ph.this, mm])
        thr = False
        where = f.where
        for t, pc, wh in eng.throws[t0:]:
            thr, where = bor(thr, pc), wh
        eng.st.dead = False
        valid = band(eng.cmp('>', mm, ZERO), eng.cmp('<=', mm, ONE))
        out.append(('construction', where, equivalent(eng, thr, bnot(valid)), 'a minimum relaxation factor outside (0,1] is not refused (or one inside is)'))
        for case in ('inside', 'one'):
            m = mf if case == 'inside' else ONE
            o = eng.make(FSU, [ph.this, m])
            eng.st.dead = False
            s = fs.state(eng, 'u')
            du = [eng.atom('du%d' % i) for i in range(4)]
            w = eng.invoke_values(f, o, [ph.arr(du), ph.arr(s.u)])
            dp = ph('getDeltaPressureFromConserved', ph.arr(s.u), ph.arr(du))
            ab = lambda x: ite(eng.cmp('>=', x, ZERO), x, eng.neg(x))
            a, b = eng.div(ab(dp), s.p), eng.div(ab(du[0]), s.rho)
            d = ite(eng.cmp('>', a, b), a, b)
            rest = eng.sub(ONE, d)
            want = ite(eng.cmp('>', rest, m), rest, m)
            df = eng.differences(w, want)
            out.append(('value:' + case, f.where, not df, 'the factor is not 1 - max(relative changes of pressure and density) limited from below by the minimum (%s)' % text(df)))
            out.append(('above:' + case, f.where, not feasible(eng, eng.cmp('<', w, m)), 'the relaxation factor can be below the minimum'))
        return out
    emit(ctx, 'FlowSimpleUpdate', ctx.guard('FlowSimpleUpdate', vg.attempt, prog, simple, seed=ctx.seed))
    for nv in (4, 1):
        def full(eng, nv=nv):
            cls = FULL % nv
            f = method_of(prog, cls, 'getLocalRelaxationFactor', 2)
            arr = lambda n: eng.array(n, [eng.atom('%s%d' % (n, i)) for i in range(nv)])
            v = eng.invoke_values(f, Ptr(Obj('o', cls=cls, sym=True)), [arr('du'), arr('u')])
            return [('one:%d' % nv, f.where, isinstance(v, Num) and v.c == 1, 'the full update is scaled')]
        emit(ctx, 'FullUpdate', ctx.guard('FullUpdate', vg.attempt, prog, full, seed=ctx.seed))


SSP = {1: [(1, 0, 1)],
       2: [(1, 0, 1), (Fraction(1, 2), Fraction(1, 2), Fraction(1, 2))],
       3: [(1, 0, 1), (Fraction(3, 4), Fraction(1, 4), Fraction(1, 4)), (Fraction(1, 3), Fraction(2, 3), Fraction(2, 3))]}


def rk_world(prog, eng, kind, order):
    w = OdeWorld(eng, kind, RK)
    w.cfg = {}
    w.cfl = eng.atom('cfl', 1)
    t0 = len(eng.throws)
    w.this = eng.make(RK, [w.space, w.u, const(order), Opaque('str'), w.cfl])
    w.refused = eng.throws[t0:]
    w.fn = method_of(prog, RK, 'solve', 1)
    if eng.st.dead is not False:
        return w
    w.final = const(7)          # any value: the state at the top of the generic step does not depend on it
    w.ret = eng.invoke_values(w.fn, w.this, [w.final])
    if w.iter is None:
        raise AnalysisBroken('%s: no time loop that evaluates the residual' % w.fn.where)
    return w


class Rk(Steady):
    def __init__(self, eng, prog, kind, order):
        self.w = w = rk_world(prog, eng, kind, order)
        self.eng, self.out, self.order = eng, [], order
        if w.refused:
            raise AnalysisBroken('order %d is refused' % order)
        self.alive = band(w.cond, bnot(w.end.dead)) if w.cond is not True else bnot(w.end.dead)

    def step(self):
        w, eng, p = self.w, self.eng, self.order
        ev = self.evs('residual')
        ok = len(ev) == p and all(self.always(e) for i, e in ev)
        self.put('stages', ev[0][1][2] if ev else w.fn.where, ok, 'a time step of order %d does not evaluate the residual %d times' % (p, p))
        if not ok or not hasattr(w, 'dt'):
            return
        # time step
        red = [e for i, e in self.evs('allreduce') if 'min' in e[3].lower() and self.always(e)]
        dt1 = w.dt1
        good = [e for e in red if all(not feasible(eng, band(self.alive, eng.cmp('>', e[4], d))) for d in dt1.values())
                and all(isinstance(leaf, Num) and leaf.v in {d.v for d in dt1.values()} for path, leaf in vg.leaves(e[4]) if not eng.infeasible(path) and not limit(eng, leaf))]
        self.put('timestep', red[0][2] if red else w.fn.where, len(good) == 1, 'the time step of a step is not the smallest local time step of all cells of all processes, from its first stage')
        if len(good) != 1:
            return
        dt = eng.mul(good[0][5], w.cfl)
        add, mul = eng.add, eng.mul
        U = {c.v: list(w.u0[c.v]) for c in w.cells}
        U0 = {c.v: list(w.u0[c.v]) for c in w.cells}
        for k, (c0, c1, c2) in enumerate(SSP[p]):
            i, e = ev[k]
            _, pc, where, u, rv, rl, rg, ul, ug, gts, dtv, this = e
            self.put('stage%d:state' % (k + 1), where, u is w.u.o and self.same(ul, U[w.L.v]), 'stage %d does not evaluate the residual at the result of the previous stage' % (k + 1))
            self.put('stage%d:zero' % (k + 1), where, all(isinstance(x, Num) and x.c == 0 for x in rl + rg), 'the residual vector is not zero in owned and ghost cells before stage %d' % (k + 1))
            nxt = ev[k + 1][0] if k + 1 < p else len(w.body_events)
            b = [x for x in self.evs('ghostBegin', lambda x: x[3] is rv and x[4] == 'add') if i < x[0] < nxt]
            n = [x for x in self.evs('ghostEnd', lambda x: x[3] is rv and x[4] == 'add') if i < x[0] < nxt]
            ok = len(b) == 1 and len(n) == 1 and b[0][0] < n[0][0] and self.always(b[0][1]) and self.always(n[0][1])
            self.put('stage%d:contributions' % (k + 1), where, ok, 'residual contributions to cells of other processes are not added exactly once in stage %d' % (k + 1))
            for c, ar in zip(w.cells, w.area):
                R = [w.total(vg.ap(lambda *ys: eng.fatom('residual%d' % j, list(ys)), *U[c.v])) for j in range(w.nv)]
                U[c.v] = [add(add(mul(const(c0), U0[c.v][j]), mul(const(c1), U[c.v][j])), mul(mul(const(c2), eng.div(dt, ar)), R[j])) for j in range(w.nv)]
            fwd = lambda x: x[3] is w.u.o and x[4] == 'fwd'
            b = [x for x in self.evs('ghostBegin', fwd) if i < x[0] < nxt and self.always(x[1]) and self.same(x[1][5], U[w.L.v])]
            n = [x for x in self.evs('ghostEnd', fwd) if i < x[0] < nxt and self.always(x[1])]
            self.put('stage%d:exchange' % (k + 1), where, any(x[0] < y[0] for x in b for y in n), 'the result of stage %d is not sent to the ghost cells of other processes' % (k + 1))
        for c in w.cells:
            for j, v in enumerate(self.at_end(w.uarr, c)):
                df = eng.differences(v, U[c.v][j])
                self.put('update:%d' % j, w.wl(w.uarr, c, j), not df, 'a step is not the optimal strong-stability-preserving combination of order %d (%s)' % (p, text(df)))
        # physical time
        adv = [(k, a) for k, a, v in self.carried_end() if isinstance(v, (Num, Node)) and isinstance(a, Num) and not eng.differences(v, add(a, dt)) and isinstance(w.pre.get(k), Num) and w.pre[k].c == 0]
        self.put('time', w.fn.where, len(adv) == 1, 'the physical time does not advance by the time step used')
        if len(adv) != 1:
            return
        k = adv[0][0]
        self.put('early', w.fn.where, w.cond_at({k: eng.sub(w.final, const(Fraction(1, 1000)))}) is True, 'stepping stops before the final time')
        self.put('late', w.fn.where, w.cond_at({k: w.final}) is False, 'stepping continues at the final time')


def limit(eng, leaf):
    """numeric_limits initial value of a minimum"""
    return isinstance(leaf, Num) and eng.atomnames.get(leaf.v, '').startswith('numeric:')


def runge_kutta(ctx):
    ctx.rule('State of an arbitrary owned cell after one arbitrary step of the TVD Runge-Kutta solver of each order against the Shu-Osher recursion; residual evaluations, '
             'exchanges and time-step reduction of every stage; refusal of other orders.')
    for order in (1, 2, 3):
        for kind in ('interior', 'connectivity'):
            nm = 'TVDRKSolver, order %d, %s cell' % (order, 'owned' if kind == 'interior' else 'ghost')

            def body(eng):
                s = Rk(eng, ctx.prog, kind, order)
                s.step()
                return s.out
            emit(ctx, nm, ctx.guard(nm, vg.attempt, ctx.prog, body, seed=ctx.seed))
            ctx.count('generic iterations', 1)
    for order in (4, 7):
        def body(eng):
            w = rk_world(ctx.prog, eng, 'interior', order)
            return [('order%d' % order, w.fn.where, eng.st.dead is True, 'order %d, for which there are no coefficients, is accepted' % order)]
        emit(ctx, 'TVDRKSolver', ctx.guard('TVDRKSolver', vg.attempt, ctx.prog, body, seed=ctx.seed))


def matrix_free(ctx):
    ctx.rule('Result of the matrix-free operator on one arbitrary owned cell against V/dt x + (R(u) - R(u + h x))/h with h = step/|x|, and the state, exchanges and initial '
             'contents with which it evaluates the residual (owned and ghost cells).')
    prog = ctx.prog
    for nv in (4, 1):
        cls = 'fvens::MatrixFreeSpatialJacobian<%d>' % nv
        for kind in ('interior', 'connectivity'):
            nm = 'MatrixFreeSpatialJacobian<%d>, %s cell' % (nv, 'owned' if kind == 'interior' else 'ghost')

            def body(eng):
                out = []
                put = lambda *a: out.append(a)
                w = OdeWorld(eng, kind, cls, nv)
                f = w.fn = method_of(prog, cls, 'apply', 2)
                o = eng.make(cls, [w.space])
                step = eng.atom('step', 1)
                fl = [n for n, t in scalar_fields(prog, cls) if t.replace('const ', '').strip() == 'double']
                if len(fl) != 1:
                    raise AnalysisBroken('%s: no single difference step' % cls)
                eng.store(eng.st, eng.field(o, fl[0]), step)
                V = {}
                for n in ('res', 'mdt', 'x', 'y'):
                    V[n] = w.vec(n)
                eng.invoke_values(method_of(prog, cls, 'set_state', 3), o, [w.u, V['res'][0], V['mdt'][0]])
                val = {}
                for n in ('u', 'res', 'x'):
                    arr = w.uarr if n == 'u' else V[n][1]
                    for c in w.cells:
                        val[n, c.v] = [eng.atom('%s%x_%d' % (n, c.v & 0xffff, i)) for i in range(nv)]
                        for i, a in enumerate(val[n, c.v]):
                            eng.store(eng.st, w.key(arr, c, i), a)
                for c in w.cells:
                    val['mdt', c.v] = eng.atom('V/dt%x' % (c.v & 0xffff), 1)
                    eng.store(eng.st, eng.padd(V['mdt'][1], c, 'double *'), val['mdt', c.v])
                ret = eng.invoke_values(f, o, [V['x'][0], V['y'][0]])
                alive = band(bnot(eng.st.dead), vg.ap_bool(lambda q: isinstance(q, Num) and q.c == 0, ret))
                ev = [(i, e) for i, e in enumerate(w.events) if e[0] == 'residual']
                ok = len(ev) == 1 and implies(eng, alive, ev[0][1][1])
                put('residual-once', ev[0][1][2] if ev else f.where, ok, 'the residual is not evaluated exactly once')
                nrm = [e for e in w.events if e[0] == 'norm' and e[3] is V['x'][0].o and e[4].c == 1]
                if not ok or not nrm:
                    put('norm', f.where, bool(nrm), 'the step is not scaled by the 2-norm of the direction')
                    return out
                i, e = ev[0]
                _, pc, where, u, rv, rl, rg, ul, ug, gts, dt, this = e
                h = eng.div(step, w.nrm)
                pert = {c.v: [eng.add(a, eng.mul(h, b)) for a, b in zip(val['u', c.v], val['x', c.v])] for c in w.cells}
                eq = lambda a, b: len(a) == len(b) and all(w.eq(p, q) for p, q in zip(a, b))
                put('perturbed', where, u is not w.u.o and eq(ul, pert[w.L.v]), 'the residual is not evaluated at the state perturbed along the direction (in a work vector)')
                put('zero', where, all(isinstance(q, Num) and q.c == 0 for q in rl + rg), 'the work residual is not zero in owned and ghost cells before it is accumulated into')
                put('steady', where, gts is False, 'time steps are recomputed by the operator')
                fw = [(k, x) for k, x in enumerate(w.events) if x[0] in ('ghostBegin', 'ghostEnd') and x[3] is u and x[4] == 'fwd' and k < i and implies(eng, alive, x[1])]
                put('exchange', where, [x[0] for k, x in fw] == ['ghostBegin', 'ghostEnd'] and eq(fw[0][1][5], pert[w.L.v]), 'the perturbed state is not sent to the ghost cells before the residual evaluation')
                ad = [(k, x) for k, x in enumerate(w.events) if x[0] in ('ghostBegin', 'ghostEnd') and x[3] is rv and x[4] == 'add' and k > i and implies(eng, alive, x[1])]
                put('contributions', where, [x[0] for k, x in ad] == ['ghostBegin', 'ghostEnd'], 'contributions of other processes are not added exactly once')
                for c in w.cells:
                    R = [w.total(vg.ap(lambda *ys: eng.fatom('residual%d' % j, list(ys)), *pert[c.v])) for j in range(nv)]
                    for j, v in enumerate(w.at(V['y'][1], c)):
                        want = eng.add(eng.mul(val['mdt', c.v], val['x', c.v][j]), eng.div(eng.sub(val['res', c.v][j], R[j]), h))
                        df = eng.differences(ite(alive, v, want), want)
                        put('product:%d' % j, w.wl(V['y'][1], c, j), not df, 'row %d of the product is not the pseudo-time term plus the directional difference of the residual (%s)' % (j, text(df)))
                for n in ('u', 'res', 'x'):
                    arr = w.uarr if n == 'u' else V[n][1]
                    put('keeps-' + n, f.where, all(eq(w.at(arr, c), val[n, c.v]) for c in w.cells), 'the operator changes its input %s' % n)
                return out
            emit(ctx, nm, ctx.guard(nm, vg.attempt, prog, body, seed=ctx.seed))

"""S01-S04: the flow discretisation seen through one arbitrary face."""
from .. import vg, flowspec as fs
from ..vg import const, Num, Ptr, Obj, Opaque, Fraction, ap, ite, ZERO, UNDEF
from ..world import World, scalar_fields, MESH
from ..ast import AnalysisBroken, short, strip_targs, walk
from .flux import text, COMP
from .viscous import visc_flux_spec, sutherland, temperature, half, mudir

KINDS = World.KINDS
FLOW = 'fvens::FlowFV<double, %s, %s>'


def flow_classes(ctx):
    """(qualified class, second order, constant viscosity) of every instantiated flow discretisation"""
    out = []
    for so in ('true', 'false'):
        for cv in ('true', 'false'):
            q = FLOW % (so, cv)
            if q not in ctx.prog.records:
                raise AnalysisBroken('anchor vanished: ' + q)
            out.append((q, so == 'true', cv == 'true'))
    return out


def one_field(prog, cls, rx, what):
    import re
    r = [n for n, t in scalar_fields(prog, cls) if re.search(rx, t)]
    if not r:
        raise AnalysisBroken('anchor vanished: member of type %s in %s' % (what, short(cls)))
    return r


class FlowWorld(World):
    def __init__(self, eng, kind, cls, viscous, weno=False, seeds=False):
        super().__init__(eng, kind)
        self.cls = cls
        self.ph = fs.physics(eng)
        self.this = Ptr(Obj('flow', cls=cls, sym=True))
        p = eng.prog
        for n, t in scalar_fields(p, cls):
            if 'UMesh<' in t and t.strip().rstrip('const ').endswith('*'):
                eng.store(eng.st, eng.field(self.this, n), self.mesh)
            elif 'IdealGasPhysics<double>' in t and '*' not in t:
                eng.assign_record(eng.field(self.this, n), self.ph, t)
        pc = one_field(p, cls, 'FlowPhysicsConfig', 'FlowPhysicsConfig')[0]
        eng.store(eng.st, eng.field(eng.field(self.this, pc), 'viscous_sim'), viscous)
        eng.strings['reconstruction'] = 'WENO' if weno else 'other'
        self.u, self.uarr = self.vec('u')
        self.s = fs.state(eng, 'L', 0 if seeds else None)
        self.t = fs.state(eng, 'R', 4 if seeds else None)
        self.put(self.uarr, self.L, 4, [fs.plain(x) for x in self.s.u])
        if kind != 'boundary':
            self.put(self.uarr, self.R, 4, [fs.plain(x) for x in self.t.u])
        self.rcl, self.rcr = [eng.atom('xl'), eng.atom('yl')], [eng.atom('xr'), eng.atom('yr')]
        # cell centres
        rch = one_field(p, cls, '^(const )?fvens::ConstGhostedVecHandler', 'ConstGhostedVecHandler')[0]
        h = eng.field(self.this, rch)
        rc = eng.invoke_values(self.method('fvens::ConstGhostedVecHandler<double>', 'getArray', 0), h, [])
        self.put(rc, self.L, 2, self.rcl)
        if kind == 'boundary':
            f = self.method('fvens::amat::Array2d<double>', 'operator()', 2, lambda f: not eng.prog.decls[f.key].get('const'))
            for d in range(2):
                q = eng.invoke_values(f, eng.field(self.this, 'rcbp'), [self.iface, const(d)])
                eng.store(eng.st, q, self.rcr[d])
        else:
            self.put(rc, self.R, 2, self.rcr)
        self.fluxes = {}
        self.ghosts = {}
        self.vhooks['get_flux'] = self.h_flux
        self.vhooks['get_jacobian'] = self.h_jac
        self.vhooks['computeGhostState'] = self.h_ghost
        self.vhooks['computeGhostStateAndJacobian'] = self.h_ghostjac

    def put(self, arr, idx, n, vals):
        eng = self.eng
        for i, v in enumerate(vals):
            eng.store(eng.st, eng.padd(arr, eng.add(eng.mul(idx, const(n)), const(i)), 'double *'), v)

    def at(self, arr, idx, n, cnt=None):
        eng = self.eng
        return [eng.load(eng.st, eng.padd(arr, eng.add(eng.mul(idx, const(n)), const(i)), 'double *'), 'double') for i in range(cnt or n)]

    def loc(self, arr, idx, n, i):
        return self.eng.padd(arr, self.eng.add(self.eng.mul(idx, const(n)), const(i)), 'double *')

    def uf(self, name, vals, sign=0):
        return ap(lambda *xs: UNDEF if any(x is UNDEF for x in xs) else self.eng.fatom(name, [Num(x.v) for x in xs], sign), *vals)

    # the numerical flux, its Jacobian and the boundary conditions are opaque here: F01-F03 and B0x decide them
    def flux_of(self, which, ul, ur, n):
        return [self.uf('%s.flux%d' % (which, i), list(ul) + list(ur) + list(n)) for i in range(4)]

    def jac_of(self, which, ul, ur, n):
        a = list(ul) + list(ur) + list(n)
        return ([self.uf('%s.dl%d' % (which, i), a) for i in range(16)], [self.uf('%s.dr%d' % (which, i), a) for i in range(16)])

    def h_flux(self, this, a, e):
        eng = self.eng
        v = self.flux_of(this.o.name, eng.read(a[0], 4), eng.read(a[1], 4), eng.read(a[2], 2))
        for i in range(4):
            eng.store(eng.st, eng.padd(a[3], const(i), 'double *'), v[i])
        return Opaque('void')

    def h_jac(self, this, a, e):
        eng = self.eng
        l, r = self.jac_of(this.o.name, eng.read(a[0], 4), eng.read(a[1], 4), eng.read(a[2], 2))
        for i in range(16):
            eng.store(eng.st, eng.padd(a[3], const(i), 'double *'), l[i])
            eng.store(eng.st, eng.padd(a[4], const(i), 'double *'), r[i])
        return Opaque('void')

    def ghost_of(self, tag, ul, n):
        k = (tag.v, tuple(same_key(x) for x in list(ul) + list(n)))
        if k not in self.ghosts:
            self.ghosts[k] = fs.state(self.eng, 'ghost%x' % (self.eng.rnd('ghost', k) & 0xffffff))
        return self.ghosts[k]

    def h_ghost(self, this, a, e):
        eng = self.eng
        tag = eng.gzero.get(('mapkey', this.o))
        if tag is None:
            raise AnalysisBroken('boundary condition is not looked up by boundary marker')
        g = self.ghost_of(tag, eng.read(a[0], 4), eng.read(a[1], 2))
        for i in range(4):
            eng.store(eng.st, eng.padd(a[2], const(i), 'double *'), g.u[i])
        return Opaque('void')

    def ghostjac_of(self, tag, ul, n):
        k = eng_key(tag, ul, n)
        return [self.uf('ghostjac%d' % i, [tag] + list(ul) + list(n)) for i in range(16)]

    def h_ghostjac(self, this, a, e):
        eng = self.eng
        tag = eng.gzero.get(('mapkey', this.o))
        if tag is None:
            raise AnalysisBroken('boundary condition is not looked up by boundary marker')
        ul, n = eng.read(a[0], 4), eng.read(a[1], 2)
        g = self.ghost_of(tag, ul, n)
        j = self.ghostjac_of(tag, ul, n)
        for i in range(4):
            eng.store(eng.st, eng.padd(a[2], const(i), 'double *'), g.u[i])
        for i in range(16):
            eng.store(eng.st, eng.padd(a[3], const(i), 'double *'), j[i])
        return Opaque('void')


def same_key(x):
    return x.v if isinstance(x, Num) else repr(x)


def eng_key(tag, ul, n):
    return (tag.v, tuple(same_key(x) for x in list(ul) + list(n)))


class ResidualWorld(FlowWorld):
    """adds gradients, reconstruction and the two inter-process exchanges"""
    def __init__(self, eng, kind, cls, so, viscous, weno):
        super().__init__(eng, kind, cls, viscous, weno)
        self.so = so
        self.obs = []           # (key, differences, text)
        self.vhooks['compute_gradients'] = self.h_grad
        self.vhooks['compute_face_values'] = self.h_rec
        eng.models['updateSharedFacesBegin'] = self.m_begin
        eng.models['updateSharedFacesEnd'] = self.m_end
        self.gradL = [eng.atom('gradL%d' % i) for i in range(8)]
        self.gradR = [eng.atom('gradR%d' % i) for i in range(8)]
        self.rec = [[eng.atom('rec%s.%s' % (s, q), sg) for q, sg in (('rho', 1), ('v0', 0), ('v1', 0), ('p', 1))] for s in 'LR']
        self.remote = fs.state(eng, 'remote')
        self.sent = None
        self.gradsent = None
        self.ended = self.gended = False
        if so and kind == 'connectivity':
            pass
        self.ghosthook = self.gh

    def prim_to_cons(self, q):
        eng = self.eng
        m, a, d = eng.mul, eng.add, eng.div
        v2 = a(m(q[1], q[1]), m(q[2], q[2]))
        return [q[0], m(q[0], q[1]), m(q[0], q[2]), a(d(q[3], eng.gm1), m(m(half, q[0]), v2))]

    def check(self, key, got, want, what):
        for i, (x, y) in enumerate(zip(got, want)):
            self.obs.append(('%s:%d' % (key, i), self.eng.differences(x, y), what))

    def view(self, p, idx, n=4):
        """entries of an Array2dView / Eigen matrix argument at row idx"""
        eng = self.eng
        t = p.o.cls or ''
        f = None
        for c in ('fvens::amat::Array2dView<double>', 'fvens::amat::Array2dMutableView<double>'):
            if c in t:
                f = self.method(c, 'operator()', 2)
        if f is not None:
            return [eng.invoke_values(f, p, [idx, const(i)]) for i in range(n)]
        if 'Eigen' in t:
            return [eng.em_elem(p, t, idx, const(i)) for i in range(n)]
        raise AnalysisBroken('unexpected argument type %s' % t)

    def prim(self, s):
        return [s.rho, s.v[0], s.v[1], s.p]

    def rd(self, locs):
        return [self.eng.load(self.eng.st, q, 'double') if isinstance(q, Ptr) else q for q in locs]

    def ghostcell(self):
        return self.ghost_of(self.tag, [fs.plain(x) for x in self.s.u], self.n)

    def h_grad(self, this, a, e):
        eng = self.eng
        u, ug, g = a
        self.check('gradient-input:L', self.rd(self.view(u, self.L)), self.prim(self.s), 'left cell state given to the gradient scheme is the primitive cell average')
        if self.kind != 'boundary':
            self.check('gradient-input:R', self.rd(self.view(u, self.R)), self.prim(self.t), 'right cell state given to the gradient scheme is the primitive cell average')
        else:
            self.check('gradient-input:G', self.rd(self.view(ug, self.iface)), self.prim(self.ghostcell()), 'boundary state given to the gradient scheme is the primitive ghost state of the cell average')
        self.garr = g
        self.putgrad(self.L, self.gradL)
        if self.realR:
            self.putgrad(self.R, self.gradR)
        return Opaque('void')

    def putgrad(self, cell, vals):
        eng = self.eng
        g = self.garr
        self.put(g, cell, 8, vals)
        # the same storage seen as an array of ndim x nvars blocks (column major)
        q = eng.padd(g, cell, 'X *')
        for k in range(8):
            eng.st.mem[(q.o, q.pre + (q.off.v, '_e'), k)] = vals[k]

    def h_rec(self, this, a, e):
        eng = self.eng
        u, ug, g, ul, ur = a
        self.check('reconstruction-input:L', self.rd(self.view(u, self.L)), self.prim(self.s), 'left cell state given to the reconstruction')
        if self.kind != 'boundary':
            self.check('reconstruction-input:R', self.rd(self.view(u, self.R)), self.prim(self.t), 'right cell state given to the reconstruction')
        else:
            self.check('reconstruction-input:G', self.rd(self.view(ug, self.iface)), self.prim(self.ghostcell()), 'ghost state given to the reconstruction')
        self.check('reconstruction-gradient:L', self.at(g, self.L, 8), self.gradL, 'gradient given to the reconstruction')
        for q, v in zip(self.view(ul, self.iface), self.rec[0]):
            eng.store(eng.st, q, v)
        if self.kind == 'interior':
            for q, v in zip(self.view(ur, self.iface), self.rec[1]):
                eng.store(eng.st, q, v)
        elif self.kind == 'connectivity':
            for q in self.view(ur, self.iface):
                eng.store(eng.st, q, UNDEF)
        return Opaque('void')

    def m_begin(self, eng, e, d, obj, args, env):
        tv = eng.lv_or_ptr(obj, env, e.get('arrow'))
        self.trace = tv
        if self.kind == 'connectivity':
            self.check('trace-sent', self.at(self.left(tv), self.iface, 4), self.prim_to_cons(self.rec[0]), 'left trace sent to the neighbour is the conserved reconstructed state')
        self.sent = True
        return Opaque('void')

    def left(self, tv):
        return self.eng.invoke_values(self.method(tv_cls(self.eng.prog), 'getLocalArrayLeft', 0), tv, [])

    def right(self, tv):
        return self.eng.invoke_values(self.method(tv_cls(self.eng.prog), 'getLocalArrayRight', 0), tv, [])

    def m_end(self, eng, e, d, obj, args, env):
        tv = eng.lv_or_ptr(obj, env, e.get('arrow'))
        if not self.sent:
            self.obs.append(('trace-end', [('', 0, 0)], 'trace exchange is finished without having been started'))
        if self.kind == 'connectivity':
            self.put(self.right(tv), self.iface, 4, self.remote.u)
        self.ended = True
        return Opaque('void')

    def gh(self, nm, v):
        if nm.endswith('Begin'):
            self.gradsent = v.o
            if self.kind == 'connectivity' and hasattr(self, 'garr') and self.array_of(v).o is self.garr.o:
                self.check('gradient-sent', self.at(self.garr, self.L, 8), self.gradL, 'gradient sent to the neighbour')
        else:
            if self.gradsent is not v.o:
                self.obs.append(('ghost-end', [('', 0, 0)], 'ghost update is finished without having been started'))
            if self.kind == 'connectivity' and hasattr(self, 'garr') and self.array_of(v).o is self.garr.o:
                self.putgrad(self.R, self.gradR)


def tv_cls(prog):
    r = [q for q in prog.records if short(q) == 'L2TraceVector' and '<double, 4>' in q]
    if not r:
        raise AnalysisBroken('anchor vanished: L2TraceVector<double,4>')
    return r[0]


def face_gradient(eng, xl, xr, wl, wr, gl, gr, nv=4):
    """modified average: mean gradient with its component along the line of centres replaced by the difference quotient"""
    m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
    dx = [sub(xr[i], xl[i]) for i in range(2)]
    dist = eng.sqrt(a(m(dx[0], dx[0]), m(dx[1], dx[1])))
    r = [d(x, dist) for x in dx]
    g = [[None] * nv, [None] * nv]
    for i in range(nv):
        av = [m(half, a(gl[j][i], gr[j][i])) for j in range(2)]
        c = d(sub(wr[i], wl[i]), dist)
        dd = a(m(av[0], r[0]), m(av[1], r[1]))
        for j in range(2):
            g[j][i] = a(sub(av[j], m(dd, r[j])), m(c, r[j]))
    return g


def viscous_spec(w, cv, cl, cr, sl, sr, ul, ur, gl, gr, n):
    """cl, cr: conserved cell states; sl, sr: State4 of them; gl/gr: primitive gradients [dim][var] or None; ul, ur: face states"""
    eng = w.eng
    m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
    M = eng.pars[1]
    prim2 = lambda u: [u[0], d(u[1], u[0]), d(u[2], u[0]), temperature(eng, u)]
    zero = [[ZERO] * 4, [ZERO] * 4]
    def g2(s, g):
        if g is None:
            return zero
        out = [list(r) for r in g]
        for j in range(2):
            out[j][3] = m(m(eng.g, m(M, M)), d(sub(m(g[j][3], s.rho), m(s.p, g[j][0])), m(s.rho, s.rho)))
        return out
    G = face_gradient(eng, w.rcl, w.rcr, prim2(cl), prim2(cr), g2(sl, gl), g2(sr, gr))
    if cv:
        mu = d(const(1), eng.pars[3])
    else:
        mu = m(half, a(sutherland(eng, temperature(eng, ul)), sutherland(eng, temperature(eng, ur))))
    return visc_flux_spec(eng, mu, n, G, ul, ur)


def residual(ctx):
    ctx.rule('Effect of the residual evaluation on the two cells of one arbitrary face (every loop reduced to its body at that face or at '
             'its cells, in program order): the left cell receives minus and the right cell (when it belongs to this subdomain) plus the '
             'face length times (numerical flux of the two face states + viscous flux), and nothing else; face states, gradients, '
             'ghost states and the two inter-process exchanges enter in the right variables and in the right order.')
    p = ctx.prog
    for cls, so, cv in flow_classes(ctx):
        f = method_of(p, cls, 'compute_residual', 4)
        for kind in KINDS:
            for visc in (False, True):
                for weno in ((False, True) if so else (False,)):
                    if not visc and cv:
                        continue
                    nm = '%s order, %s%s%s' % ('second' if so else 'first', ('constant viscosity' if cv else 'Sutherland') if visc else 'inviscid',
                                               ', WENO' if weno else '', ', %s face' % kind)

                    def body(eng):
                        w = ResidualWorld(eng, kind, cls, so, visc, weno)
                        r, rarr = w.vec('r')
                        r0 = [[eng.atom('r0_%d_%d' % (c, i)) for i in range(4)] for c in range(2)]
                        w.put(rarr, w.L, 4, r0[0])
                        if w.realR:
                            w.put(rarr, w.R, 4, r0[1])
                        eng.stores = []
                        rc = eng.invoke_values(f, w.this, [w.u, r, False, vg.NULL])
                        res = list(w.obs)
                        # face states
                        pl = fs.plain
                        cl = [pl(x) for x in w.s.u]
                        cr = [pl(x) for x in w.t.u]
                        cellghost = w.ghost_of(w.tag, cl, w.n) if kind == 'boundary' else None
                        sr = w.t
                        if kind == 'boundary':
                            sr, cr = cellghost, cellghost.u
                        if so:
                            fl = w.prim_to_cons(w.rec[0])
                            fr = {'interior': lambda: w.prim_to_cons(w.rec[1]), 'connectivity': lambda: w.remote.u,
                                  'boundary': lambda: w.ghost_of(w.tag, fl, w.n).u}[kind]()
                        else:
                            fl, fr = cl, cr
                        F = flux_named(w, fl, fr)
                        if visc:
                            blk = lambda g: [[g[i + 2 * j] for j in range(4)] for i in range(2)]
                            gl = blk(w.gradL) if so else None
                            gr = (gl if kind == 'boundary' else blk(w.gradR)) if so else None
                            V = viscous_spec(w, cv, cl, cr, w.s, sr, fl, fr, gl, gr, w.n)
                            F = [eng.add(x, y) for x, y in zip(F, V)]
                        F = [eng.mul(x, w.len) for x in F]
                        got = w.at(rarr, w.L, 4)
                        for i in range(4):
                            res.append(('left:%d' % i, eng.differences(got[i], eng.sub(r0[0][i], F[i])), 'left cell does not receive minus the %s flux of the face' % COMP[i]))
                        if w.realR:
                            got = w.at(rarr, w.R, 4)
                            for i in range(4):
                                res.append(('right:%d' % i, eng.differences(got[i], eng.add(r0[1][i], F[i])), 'right cell does not receive plus the %s flux of the face' % COMP[i]))
                        # nothing else of the residual is touched
                        own = {q.key() for i in range(4) for q in ([w.loc(rarr, w.L, 4, i)] + ([w.loc(rarr, w.R, 4, i)] if w.realR else []))}
                        other = sorted({(q.off.v, l) for q, v, l in eng.stores if q.o is rarr.o and q.key() not in own})
                        res.append(('outside', [('store at line %d' % l, 0, 0) for o, l in other], 'residual entry of a cell that is not adjacent to the face is modified'))
                        ctx.count('loops reduced', len(w.looplog)); ctx.count('functions inlined', len(eng.called))
                        return res
                    r = ctx.guard(nm, vg.attempt, p, body, seed=ctx.seed, nd=0)
                    if r is None:
                        continue
                    for key, d, what in r:
                        ctx.ob(not d, '%s:%s' % (nm, key), f.where, '%s: %s (%s)' % (nm, what, text(d)))


def config_member(p, cls, cfg):
    """the member the constructors of cls build from configuration field cfg (directly or through one call)"""
    for c in [cls] + p.bases(cls):
        for f in p.fns.values():
            if f.cls == c and f.inits:
                for i in f.inits:
                    if i.get('m') and any(n['k'] == 'Mem' and n['n'] == cfg for n in walk(i)):
                        if any(n['k'] == 'Call' for n in walk(i)):
                            return i['m']
                for n in walk(f.body):
                    if n['k'] == 'Asg' and n['a']['k'] == 'Mem' and any(x['k'] == 'Mem' and x['n'] == cfg for x in walk(n['b'])):
                        return n['a']['n']
    raise AnalysisBroken('anchor vanished: member of %s built from %s' % (short(cls), cfg))


def flux_named(w, fl, fr):
    """flux of the object that the configured numerical flux is stored in"""
    return w.flux_of('*flow.%s[0]' % config_member(w.prog, w.cls, 'conv_numflux'), fl, fr, w.n)


def method_of(p, cls, name, np):
    for c in [cls] + p.bases(cls):
        for f in p.fns.values():
            if f.cls == c and f.name == name and len(f.params) == np:
                return f
    raise AnalysisBroken('anchor vanished: %s::%s' % (short(cls), name))


def face_gradients(ctx):
    ctx.rule('Value-graph equality of the two face-gradient constructions with their definitions: the modified average (mean of the two cell '
             'gradients with its component along the line of centres replaced by the difference quotient) and the thin-layer gradient with its '
             'derivatives; plus exactness of the first on linear fields.')
    p = ctx.prog
    for nv in (4, 1):
        cls = 'fvens::Spatial<double, %d>' % nv
        f = method_of(p, cls, 'getFaceGradient_modifiedAverage', 7)
        g = method_of(p, cls, 'getFaceGradientAndJacobian_thinLayer', 9)

        def body(eng):
            m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
            A = eng.array
            at = eng.atom
            xl, xr = [at('xl'), at('yl')], [at('xr'), at('yr')]
            wl, wr = [at('wl%d' % i) for i in range(nv)], [at('wr%d' % i) for i in range(nv)]
            gl, gr = [at('gl%d' % i) for i in range(2 * nv)], [at('gr%d' % i) for i in range(2 * nv)]
            this = Ptr(Obj('spatial', cls=cls, sym=True))
            res = []
            o = eng.out('grad')
            eng.invoke_values(f, this, [A('rcl', xl), A('rcr', xr), A('ucl', wl), A('ucr', wr), A('gradl', gl), A('gradr', gr), o])
            got = eng.read(o, 2 * nv)
            G = lambda v: [[v[j * nv + i] for i in range(nv)] for j in range(2)]
            want = face_gradient(eng, xl, xr, wl, wr, G(gl), G(gr), nv)
            for j in range(2):
                for i in range(nv):
                    res.append(('average:%d%d' % (j, i), f.where, eng.differences(got[j * nv + i], want[j][i]), 'face gradient component %d of variable %d' % (j, i)))
            # linear field: w = w0 + g.x
            gg = [at('g%d' % i) for i in range(2 * nv)]
            w0 = [at('w0%d' % i) for i in range(nv)]
            lin = lambda x, i: a(w0[i], a(m(gg[i], x[0]), m(gg[nv + i], x[1])))
            o = eng.out('grad2')
            eng.invoke_values(f, this, [A('rcl', xl), A('rcr', xr), A('ucl', [lin(xl, i) for i in range(nv)]), A('ucr', [lin(xr, i) for i in range(nv)]), A('gradl', gg), A('gradr', gg), o])
            for k, x in enumerate(eng.read(o, 2 * nv)):
                res.append(('linear:%d' % k, f.where, eng.differences(x, gg[k]), 'face gradient is not exact on linear fields, component %d of variable %d' % (k // nv, k % nv)))
            # thin layer
            dl, dr = [at('dul%d' % i) for i in range(nv * nv)], [at('dur%d' % i) for i in range(nv * nv)]
            o, ol, orr = eng.out('grad3'), eng.out('dgl'), eng.out('dgr')
            eng.invoke_values(g, this, [A('rcl', xl), A('rcr', xr), A('ucl', wl), A('ucr', wr), A('dul', dl), A('dur', dr), o, ol, orr])
            dx = [sub(xr[i], xl[i]) for i in range(2)]
            d2 = a(m(dx[0], dx[0]), m(dx[1], dx[1]))
            got, gL, gR = eng.read(o, 2 * nv), eng.read(ol, 2 * nv * nv), eng.read(orr, 2 * nv * nv)
            for j in range(2):
                for i in range(nv):
                    res.append(('thin:%d%d' % (j, i), g.where, eng.differences(got[j * nv + i], d(m(sub(wr[i], wl[i]), dx[j]), d2)), 'thin-layer gradient component %d of variable %d' % (j, i)))
                    for k in range(nv):
                        q = (j * nv + i) * nv + k
                        res.append(('thinL:%d%d%d' % (j, i, k), g.where, eng.differences(gL[q], eng.neg(d(m(dl[i * nv + k], dx[j]), d2))), 'derivative of the thin-layer gradient with respect to the left state'))
                        res.append(('thinR:%d%d%d' % (j, i, k), g.where, eng.differences(gR[q], d(m(dr[i * nv + k], dx[j]), d2)), 'derivative of the thin-layer gradient with respect to the right state'))
            return res
        for key, where, d, what in ctx.guard('%d variables' % nv, vg.attempt, p, body, seed=ctx.seed, nd=0) or []:
            ctx.ob(not d, '%d:%s' % (nv, key), where, '%s (%s)' % (what, text(d)))
    # ghost cell centres: reflection of the cell centre through the face midpoint
    for nv in (4, 1):
        cls = 'fvens::Spatial<double, %d>' % nv
        f = method_of(p, cls, 'compute_ghost_cell_coords_about_midpoint', 1)

        def body(eng):
            w = World(eng, 'boundary', nv)
            this = Ptr(Obj('spatial', cls=cls, sym=True))
            for n, t in scalar_fields(p, cls):
                if 'UMesh<' in t and t.strip().rstrip('const ').endswith('*'):
                    eng.store(eng.st, eng.field(this, n), w.mesh)
            rcv, rc = w.vec('rc')
            for n in w.fields_of_type(cls, 'Vec'):
                pass
            eng.store(eng.st, eng.field(this, one_vec(p, cls)), rcv)
            xc = [eng.atom('xc'), eng.atom('yc')]
            for i in range(2):
                eng.store(eng.st, eng.padd(rc, eng.add(eng.mul(w.L, const(2)), const(i)), 'double *'), xc[i])
            xp = w.facepoints()
            out = Ptr(Obj('rchg', cls='fvens::amat::Array2d<double>', sym=True))
            eng.invoke_values(f, this, [out])
            acc = w.method('fvens::amat::Array2d<double>', 'operator()', 2, lambda f: f.info.get('const'))
            res = []
            for i in range(2):
                q = eng.invoke_values(acc, out, [w.iface, const(i)])
                got = eng.load(eng.st, q, 'double') if isinstance(q, Ptr) else q
                res.append((str(i), eng.differences(got, eng.sub(eng.add(xp[0][i], xp[1][i]), xc[i])), 'coordinate %d of the boundary ghost centre is not the reflection of the cell centre through the face midpoint' % i))
            return res
        for key, d, what in ctx.guard('ghost centres', vg.attempt, p, body, seed=ctx.seed, nd=0) or []:
            ctx.ob(not d, 'ghost-centre:%d:%s' % (nv, key), f.where, '%s (%s)' % (what, text(d)))


def one_vec(p, cls):
    r = [n for n, t in scalar_fields(p, cls) if '_p_Vec' in t or t.strip() in ('Vec', 'const Vec')]
    if not r:
        raise AnalysisBroken('anchor vanished: cell-centre vector of ' + short(cls))
    return r[0]


def jacobian(ctx):
    ctx.rule('Entries added to the global matrix for one arbitrary face: block row/column indices (subdomain numbering in a serial run, global '
             'numbering otherwise), insertion mode and values equal minus the derivative of the first-order residual: face length times '
             '(Jacobian of the configured Jacobian flux + exact derivative of the thin-layer viscous flux), on boundary faces through '
             'the derivative of the ghost state.')
    p = ctx.prog
    for cls, so, cv in flow_classes(ctx):
        f = method_of(p, cls, 'assemble_jacobian', 2)
        if f.name != 'assemble_jacobian':
            continue
        for kind in KINDS:
            for visc in (False, True):
                if not visc and cv:
                    continue
                for dist in (False, True):
                    if kind == 'connectivity' and not dist:
                        continue
                    nm = '%s order, %s, %s face, %s' % ('second' if so else 'first', ('constant viscosity' if cv else 'Sutherland') if visc else 'inviscid', kind,
                                                        'distributed' if dist else 'serial')

                    def body(eng):
                        w = FlowWorld(eng, kind, cls, visc)
                        w.nprocs = const(2 if dist else 1)
                        eng.models['getJacobianSutherlandViscosityWrtConserved'] = mudir
                        jm = config_member(p, cls, 'conv_numflux_jac')
                        for n, t in scalar_fields(p, cls):
                            if n in config_physics(p, cls):
                                eng.assign_record(eng.field(w.this, n), w.ph, t)
                        pl = fs.plain
                        A = Ptr(Obj('A', sym=True))
                        m, a, sub, neg = eng.mul, eng.add, eng.sub, eng.neg
                        gl = (lambda c: w.get('gglobalElemIndex', [c])) if dist else (lambda c: c)
                        iL = gl(w.L)
                        if kind == 'interior':
                            iR = gl(w.R)
                        elif kind == 'connectivity':
                            iR = w.get('gconnface', [sub(w.iface, w.starts['connectivity']), const(3)])
                        seed = lambda us, k: [Num(pl(x).v, tuple(1 if i == k + j else 0 for i in range(8)), None, x.s if isinstance(x, Num) else 0) for j, x in enumerate(us)]
                        eng.invoke_values(f, w.this, [w.u, A])
                        # expected
                        ul = [pl(x) for x in w.s.u]
                        if kind == 'boundary':
                            gst = w.ghost_of(w.tag, ul, w.n)
                            ur, sr = gst.u, gst
                        else:
                            ur, sr = [pl(x) for x in w.t.u], w.t
                        JL, JR = w.jac_of('*flow.%s[0]' % jm, ul, ur, w.n)
                        if visc:
                            sl = seed(ul, 0); srr = seed(ur, 4)
                            V = viscous_spec(w, cv, sl, srr, w.s, sr, sl, srr, None, None, w.n)
                            JL = [a(JL[4 * i + j], neg(fs.dpart(V[i], j))) for i in range(4) for j in range(4)]
                            JR = [a(JR[4 * i + j], fs.dpart(V[i], 4 + j)) for i in range(4) for j in range(4)]
                        want = {}

                        def add(r, c, v, sg):
                            k = (r.v, c.v)
                            o = want.setdefault(k, [ZERO] * 16)
                            for i in range(16):
                                x = m(w.len, v[i])
                                o[i] = a(o[i], x if sg > 0 else neg(x))
                        names = {iL.v: 'L'}
                        if kind == 'boundary':
                            dr = w.ghostjac_of(w.tag, ul, w.n)
                            loc = []
                            for i in range(4):
                                for j in range(4):
                                    s = ZERO
                                    for k in range(4):
                                        s = a(s, m(JR[4 * i + k], dr[4 * k + j]))
                                    loc.append(sub(JL[4 * i + j], s))
                            add(iL, iL, loc, -1)
                        else:
                            names[iR.v] = 'R'
                            add(iL, iR, JR, 1); add(iL, iL, JL, -1)
                            if kind == 'interior':
                                add(iR, iL, JL, 1); add(iR, iR, JR, -1)
                        res, got, at = [], {}, {}
                        for nmv, M, rows, cols, vals, mode, where, pc in w.mats:
                            if not (isinstance(M, Ptr) and M.o is A.o):
                                res.append(('matrix', where, [('', 0, 0)], 'values are added to another matrix'))
                            if 'Blocked' not in nmv or len(rows) != 1 or len(cols) != 1:
                                raise AnalysisBroken('matrix entries are not added block by block')
                            if nmv.endswith('Local'):
                                res.append(('numbering', where, [('', 0, 0)], 'local numbering used'))
                            if not isinstance(rows[0], Num) or not isinstance(cols[0], Num):
                                res.append(('numbering', where, [('', 0, 0)], 'block index depends on a run-time condition'))
                                continue
                            if mode.c != 2:
                                res.append(('mode', where, [('', 0, 0)], 'block is not added (ADD_VALUES) to the matrix'))
                            k = (rows[0].v, cols[0].v)
                            o = got.setdefault(k, [ZERO] * 16)
                            at[k] = where
                            for i in range(16):
                                v = vals[i]
                                if pc is not True:
                                    v = ite(pc, v, ZERO)
                                o[i] = a(o[i], v)
                        for k in sorted(set(want) | set(got)):
                            blk = '(%s,%s)' % (names.get(k[0], '?'), names.get(k[1], '?'))
                            wv, gv = want.get(k, [ZERO] * 16), got.get(k, [ZERO] * 16)
                            for i in range(16):
                                res.append(('block%s:%d%d' % (blk, i // 4, i % 4), at.get(k, f.where), eng.differences(gv[i], wv[i]), 'entry %d,%d of block %s' % (i // 4, i % 4, blk)))
                        ctx.count('matrix insertions', len(w.mats)); ctx.count('functions inlined', len(eng.called))
                        return res
                    for key, where, d, what in ctx.guard(nm, vg.attempt, p, body, seed=ctx.seed, nd=8) or []:
                        ctx.ob(not d, '%s:%s' % (nm, key), where, '%s: %s (%s)' % (nm, what, text(d)))


def config_physics(p, cls):
    return [n for n, t in scalar_fields(p, cls) if 'IdealGasPhysics<' in t and '*' not in t]


def timestep(ctx):
    ctx.rule('Effect of the residual evaluation on the local time steps of the cells of one arbitrary face: with the other faces of each cell '
             'summarised by an arbitrary earlier sum, the step is cell area over that sum plus this face\'s contribution (|v.n|+c) len, plus, in viscous runs, '
             'max(4/3, gamma)/rho mu/Pr len^2/area, evaluated at the face state of the cell\'s own side.')
    p = ctx.prog
    for cls, so, cv in flow_classes(ctx):
        f = method_of(p, cls, 'compute_residual', 4)
        for kind in KINDS:
            for visc in (False, True):
                if not visc and cv:
                    continue
                nm = '%s order, %s, %s face' % ('second' if so else 'first', ('constant viscosity' if cv else 'Sutherland') if visc else 'inviscid', kind)

                def body(eng):
                    w = ResidualWorld(eng, kind, cls, so, visc, False)
                    w.accumulate = True
                    r, rarr = w.vec('r')
                    dt, dtarr = w.vec('dt')
                    eng.invoke_values(f, w.this, [w.u, r, True, dt])
                    m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
                    if so:
                        fl = w.prim_to_cons(w.rec[0])
                        fr = {'interior': lambda: w.prim_to_cons(w.rec[1]), 'connectivity': lambda: None, 'boundary': lambda: None}[kind]()
                        pl, pr = w.rec[0], w.rec[1]
                    else:
                        pl, pr = w.prim(w.s), w.prim(w.t)
                        fl, fr = [fs.plain(x) for x in w.s.u], [fs.plain(x) for x in w.t.u]
                    res = []
                    sides = [(0, w.L, pl, fl)] + ([(1, w.R, pr, fr)] if kind == 'interior' else [])
                    for side, cell, q, u in sides:
                        vn = a(m(q[1], w.n[0]), m(q[2], w.n[1]))
                        c = eng.sqrt(d(m(eng.g, q[3]), q[0]))
                        x = m(a(vg.absval(eng, vn), c), w.len)
                        if visc:
                            mu = d(const(1), eng.pars[3]) if cv else sutherland(eng, temperature(eng, u))
                            co = vg.maxval(eng, d(const(Fraction(4, 3)), q[0]), d(eng.g, q[0]))
                            x = a(x, d(m(m(d(m(co, mu), eng.pars[4]), w.len), w.len), w.area[side]))
                        got = eng.load(eng.st, eng.padd(dtarr, cell, 'double *'), 'double')
                        inv = d(w.area[side], got)
                        best = None
                        for rest in w.rest.values():
                            df = eng.differences(inv, a(rest, x))
                            best = df if best is None or len(df) < len(best) else best
                        res.append(('dt:%s' % 'LR'[side], best if best is not None else [('no accumulator', 0, 0)], 'local time step of the %s cell is not area over the sum of the spectral radii' % ('left', 'right')[side]))
                    return res
                for key, dd, what in ctx.guard(nm, vg.attempt, p, body, seed=ctx.seed, nd=0) or []:
                    ctx.ob(not dd, '%s:%s' % (nm, key), f.where, '%s: %s (%s)' % (nm, what, text(dd)))

"""S06: face reconstruction from cell values and gradients."""
from .. import vg, flowspec as fs
from ..vg import const, Num, Ptr, Obj, Fraction, ZERO, ONE
from ..world import World, scalar_fields
from ..ast import AnalysisBroken, short
from .flux import text
from .spatial import method_of, KINDS
from .gradients import CellWorld, VIEW

MVIEW = 'fvens::amat::Array2dMutableView<double>'
A2D = 'fvens::amat::Array2d<double>'


def setup(w, nv):
    """output arrays and face quadrature points"""
    eng = w.eng
    w.ufl, w.ufr = Ptr(Obj('arr:ufl', sym=True)), Ptr(Obj('arr:ufr', sym=True))
    w.vl, w.vr = eng.make(MVIEW, [w.ufl, w.naface, const(nv)]), eng.make(MVIEW, [w.ufr, w.naface, const(nv)])
    w.gr = Ptr(Obj('gr', cls=A2D, sym=True))
    w.grads = Ptr(Obj('arr:grad', sym=True))


def umat(w, f, nv, cells):
    """the cell-value argument of compute_face_values: a matrix (or a view) holding what was put in w.u at the given cells"""
    eng = w.eng
    t = vg.clean(f.params[0]['t'])
    nall = eng.add(w.nelem, w.nc)
    if 'Eigen' not in t:
        return w.view(w.u, nall, nv)
    q = Ptr(Obj('U', cls=t, sym=True))
    eng.store(eng.st, eng.field(q, '_rows'), nall)
    eng.store(eng.st, eng.field(q, '_cols'), const(nv))
    for c in cells:
        for i, v in enumerate(got(w, w.u, c, nv)):
            eng.store(eng.st, eng.em_elem(q, t, c, const(i)), v)
    return q


def point(w, face, vals):
    eng = w.eng
    f = w.method(A2D, 'operator()', 2, lambda f: not eng.prog.decls[f.key].get('const'))
    for d in range(2):
        q = eng.invoke_values(f, w.gr, [face, const(d)])
        eng.store(eng.st, q, vals[d])


def got(w, arr, face, nv):
    eng = w.eng
    return [eng.load(eng.st, eng.padd(arr, eng.add(eng.mul(face, const(nv)), const(i)), 'double *'), 'double') for i in range(nv)]


def extrap(eng, u, g, x, xc, lim=ONE):
    """g: [dim][var]"""
    a, m, s = eng.add, eng.mul, eng.sub
    return [a(u[i], m(lim if not isinstance(lim, list) else lim[i], a(m(g[0][i], s(x[0], xc[0])), m(g[1][i], s(x[1], xc[1]))))) for i in range(len(u))]


class StencilWorld(CellWorld):
    """one arbitrary cell with some of: a neighbour of higher index, one of lower index, a physical-boundary ghost, an inter-process ghost"""
    def __init__(self, eng, cls, nv, faces):
        World.__init__(self, eng, 'interior', nv)
        self.cls = cls
        at = eng.atom
        self.this = Ptr(Obj('scheme', cls=cls, sym=True))
        a, sub = eng.add, eng.sub
        L = self.L
        H, Lo, ib, ic = at('cellH'), at('cellLo'), at('ibf'), at('icf')
        G, C = a(a(self.nelem, self.nc), ib), a(self.nelem, ic)
        facts = [L, sub(sub(self.nelem, L), ONE), self.nb, self.nc, ib, ic, sub(sub(self.nb, ib), ONE), sub(sub(self.nc, ic), ONE),
                 sub(sub(H, L), ONE), sub(sub(self.nelem, H), ONE), Lo, sub(sub(L, Lo), ONE)]
        eng.set_facts(facts)
        self.cells = [L]
        self.R = L
        self.realR = True
        self.nb_cells = {'high': H, 'low': Lo, 'boundary': G, 'connectivity': C}
        self.ib = ib
        self.rc, self.rcbp = Ptr(Obj('arr:rc', sym=True)), Ptr(Obj('arr:rcbp', sym=True))
        self.xl = [at('xl'), at('yl')]
        self.put(self.rc, L, 2, self.xl)
        self.u, self.ug = Ptr(Obj('arr:u', sym=True)), Ptr(Obj('arr:ug', sym=True))
        self.wl = [at('wl%d' % i) for i in range(nv)]
        self.put(self.u, L, nv, self.wl)
        setup(self, nv)
        self.gl = [[at('gl%d%d' % (d, i)) for i in range(nv)] for d in range(2)]
        self.setgrad(self.grads, L, self.gl)
        self.faces = []
        self.bind_get('gnfael', [L], const(len(faces)))
        self.bind_get('gnnode', [L], const(max(3, len(faces))))
        for k, kind in enumerate(faces):
            face = at('face_' + kind)
            cell = self.nb_cells[kind]
            self.bind_get('gesuel', [L, const(k)], cell)
            self.bind_get('gelemface', [L, const(k)], face)
            # the lower-numbered cell is on the left of a face (interior faces; ghosts are numbered after all cells)
            for j, c in enumerate((cell, L) if kind == 'low' else (L, cell)):
                self.bind_get('gintfac', [face, const(j)], c)
            x = [at('x_' + kind), at('y_' + kind)]
            point(self, face, x)
            wn = [at('w_%s%d' % (kind, i)) for i in range(nv)]
            gn = [[at('g_%s%d%d' % (kind, d, i)) for i in range(nv)] for d in range(2)]
            if kind == 'boundary':
                self.put(self.ug, ib, nv, wn)
            else:
                self.put(self.u, cell, nv, wn)
                self.setgrad(self.grads, cell, gn)
            self.faces.append((kind, face, cell, x, wn, gn))
        eng.exact = getattr(eng, 'exact', set())


def reconstruction(ctx):
    ctx.rule('Face values written by each reconstruction. Unlimited linear and MUSCL/Van Albada: one arbitrary face of each kind, left value from the left cell '
             'and right value from the right cell (interior only for linear). WENO and the Barth-Jespersen and Venkatakrishnan limiters: one arbitrary cell '
             'with neighbours of every kind (higher index, lower index, physical-boundary ghost, inter-process ghost): the value goes to the left trace of the faces to '
             'which the cell is the lower-numbered side and to the right trace otherwise, and equals cell value plus limited/weighted gradient times '
             'distance, with the limiter formed from the extreme differences over all neighbours including boundary ghost states, and WENO ignoring '
             'boundary ghosts whose gradients do not exist. Limiter obligations are decided on cells with two faces of every combination of kinds.')
    p = ctx.prog
    subs = [q for q in p.subclasses('SolutionReconstruction') if 'double' in q]
    need = ('LinearUnlimitedReconstruction', 'MUSCLVanAlbada', 'WENOReconstruction', 'BarthJespersenLimiter', 'VenkatakrishnanLimiter')
    for n in need:
        ctx.require(any(short(q) == n for q in subs), 'reconstruction %s not found' % n)
    for cls in subs:
        nm0 = short(cls)
        if nm0 not in need:
            if nm0 != 'MUSCLReconstruction':
                ctx.fail_to_analyse('unknown reconstruction %s' % nm0)
            continue
        nv = 4 if ', 4>' in cls else 1
        f = method_of(p, cls, 'compute_face_values', 5)
        if nm0 in ('LinearUnlimitedReconstruction', 'MUSCLVanAlbada'):
            face_based(ctx, p, cls, nm0, nv, f)
        else:
            cell_based(ctx, p, cls, nm0, nv, f)


def run(ctx, p, nm, body, f):
    for key, where, dd, what in ctx.guard(nm, vg.attempt, p, body, seed=ctx.seed, nd=0) or []:
        ctx.ob(not dd, '%s:%s' % (nm, key), where, '%s: %s (%s)' % (nm, what, text(dd)))


def face_based(ctx, p, cls, nm0, nv, f):
    for kind in KINDS:
        nm = '%s<%d>, %s face' % (nm0, nv, kind)

        def body(eng):
            w = CellWorld(eng, kind, cls, nv)
            w.accumulate = False
            setup(w, nv)
            x = [eng.atom('xf'), eng.atom('yf')]
            point(w, w.iface, x)
            gl = [[eng.atom('gl%d%d' % (d, i)) for i in range(nv)] for d in range(2)]
            gr = [[eng.atom('gr%d%d' % (d, i)) for i in range(nv)] for d in range(2)]
            w.setgrad(w.grads, w.L, gl)
            if kind != 'boundary':
                w.setgrad(w.grads, w.R, gr)
            w.construct(4, [w.gr])
            eng.invoke_values(f, w.this, [umat(w, f, nv, [w.L] + ([w.R] if kind != 'boundary' else [])), w.view(w.ug, w.nb, nv), w.grads, w.vl, w.vr])
            L, R = got(w, w.ufl, w.iface, nv), got(w, w.ufr, w.iface, nv)
            a, m, s, d = eng.add, eng.mul, eng.sub, eng.div
            if nm0.startswith('Linear'):
                wl = extrap(eng, w.wl, gl, x, w.xl)
                wr = extrap(eng, w.wr, gr, x, w.xr) if kind == 'interior' else None
            else:
                eps = eng.load(eng.st, eng.field(w.this, 'eps'), 'double') if 'eps' in [n for n, t in scalar_fields(p, cls)] else None
                if eps is None or eps.c is None or not 0 < eps.c < Fraction(1, 10**4):
                    raise AnalysisBroken('Van Albada regularisation not found')
                third = const(Fraction(1, 3))
                wl, wr = [], []
                for i in range(nv):
                    dx = [s(w.xr[k], w.xl[k]) for k in range(2)]
                    du = s(w.wr[i], w.wl[i])
                    def side(g):
                        dm = s(m(const(2), a(m(g[0][i], dx[0]), m(g[1][i], dx[1]))), du)
                        phi = d(a(m(m(const(2), dm), du), eps), a(a(m(dm, dm), m(du, du)), eps))
                        phi = vg.maxval(eng, phi, ZERO)
                        k = const(Fraction(1) / 3)
                        kk = eng.load(eng.st, eng.field(w.this, 'k'), 'double') if 'k' in [n for n, t in scalar_fields(p, cls)] else k
                        if not isinstance(kk, Num) or kk.c is None or abs(kk.c - Fraction(1, 3)) > Fraction(1, 10**12):
                            raise AnalysisBroken('MUSCL parameter kappa = 1/3 not found')
                        return m(d(phi, const(4)), a(m(s(ONE, m(kk, phi)), dm), m(a(ONE, m(kk, phi)), du)))
                    wl.append(a(w.wl[i], side(gl)))
                    wr.append(s(w.wr[i], side(gr)))
                if kind == 'boundary':
                    wr = None
            res = []
            for i in range(nv):
                res.append(('L:%d' % i, f.where, eng.differences(L[i], wl[i]), 'left face value of variable %d' % i))
                if wr is not None:
                    res.append(('R:%d' % i, f.where, eng.differences(R[i], wr[i]), 'right face value of variable %d' % i))
            ctx.count('loops reduced', len(w.looplog))
            return res
        run(ctx, p, nm, body, f)


def cell_based(ctx, p, cls, nm0, nv, f):
    ct = [g for g in p.fns.values() if g.cls == cls and g.name == short(cls)]
    if not ct:
        raise AnalysisBroken('anchor vanished: constructor of ' + nm0)
    npar = len(ct[0].params)
    kinds = ['high', 'low', 'boundary', 'connectivity']
    combos = [kinds] if nm0.startswith('WENO') else ([[a, b] for i, a in enumerate(kinds) for b in kinds if a != b] if nv == 1 or ctx.thorough else [['high', 'boundary']])
    for faces in combos:
        nm = '%s<%d>, cell with faces %s' % (nm0, nv, '+'.join(faces))

        def body(eng):
            w = StencilWorld(eng, cls, nv, faces)
            par = eng.atom('limiterparam', 1)
            a, m, s, d = eng.add, eng.mul, eng.sub, eng.div
            if nm0.startswith('Venk'):
                sd = eng.atom('side', 1)
                P3 = [(ZERO, ZERO), (ONE, ZERO), (ZERO, sd)]
                eng.positives[m(sd, sd).v] = 'side^2'
                # a right-angled cell of known edge lengths: the longest is the hypotenuse; only used for the scale of epsilon
                for k in range(3):
                    ip = w.get('ginpoel', [w.L, const(k)])
                    for c in range(2):
                        w.bind_get('gcoords', [ip, const(c)], P3[k][c])
                w.bind_get('gnnode', [w.L], const(3))
            w.construct(npar, [w.gr] + ([par] if npar > 4 else []))
            clen = None
            if nm0.startswith('Venk'):
                q = w.fields_of_type(cls, 'vector')
                if len(q) != 1:
                    raise AnalysisBroken('anchor vanished: characteristic cell lengths')
                clv = eng.load(eng.st, eng.padd(eng.field(eng.field(w.this, q[0]), '_a'), w.L, 'double *'), 'double')
                hyp = eng.sqrt(a(ONE, m(P3[2][1], P3[2][1])))
                clen = eng.atom('clength', 1)
                eng.store(eng.st, eng.padd(eng.field(eng.field(w.this, q[0]), '_a'), w.L, 'double *'), clen)
            eng.invoke_values(f, w.this, [umat(w, f, nv, [w.L] + [q[2] for q in w.faces if q[0] != 'boundary']), w.view(w.ug, w.nb, nv), w.grads, w.vl, w.vr])
            res = []
            if clen is not None:
                res.append(('length', ct[0].where, eng.differences(clv, hyp), 'characteristic length of a cell is not its longest edge'))
            lim, G = [], [[None] * nv, [None] * nv]
            for i in range(nv):
                if nm0.startswith('WENO'):
                    ga = {'gamma': 4, 'epsilon': Fraction(1, 10**5)}
                    eps, gam = [eng.load(eng.st, eng.field(w.this, n), 'double') for n in ('epsilon', 'gamma')]
                    wt = lambda g: eng.pow(a(a(m(g[0][i], g[0][i]), m(g[1][i], g[1][i])), eps), gam)
                    ws = [(d(par, wt(w.gl)), w.gl)]
                    for kind, face, cell, x, wn, gn in w.faces:
                        if kind != 'boundary':
                            ws.append((d(ONE, wt(gn)), gn))
                    tot = ZERO
                    for q, g in ws:
                        tot = a(tot, q)
                    for k in range(2):
                        acc = ZERO
                        for q, g in ws:
                            acc = a(acc, m(q, g[k][i]))
                        G[k][i] = d(acc, tot)
                    lim.append(ONE)
                else:
                    mx = mn = ZERO
                    for kind, face, cell, x, wn, gn in w.faces:
                        du = s(wn[i], w.wl[i])
                        mx, mn = vg.maxval(eng, mx, du), vg.minval(eng, mn, du)
                    l = ONE
                    for kind, face, cell, x, wn, gn in w.faces:
                        dm = s(extrap(eng, w.wl, w.gl, x, w.xl)[i], w.wl[i])
                        pos = eng.cmp('>', dm, ZERO)
                        dp = vg.ite(pos, mx, mn)
                        if nm0.startswith('Barth'):
                            phi = vg.minval(eng, d(dp, dm), ONE)
                        else:
                            e2 = eng.pow(m(par, clen), const(3))
                            two = const(2)
                            phi = d(a(a(m(dp, dp), m(two, m(dp, dm))), e2), a(a(a(m(dp, dp), m(dp, dm)), m(two, m(dm, dm))), e2))
                        l = vg.minval(eng, l, phi)
                    lim.append(l)
                    for k in range(2):
                        G[k][i] = w.gl[k][i]
            for kind, face, cell, x, wn, gn in w.faces:
                want = extrap(eng, w.wl, G, x, w.xl, lim)
                have = got(w, w.ufr if kind == 'low' else w.ufl, face, nv)
                for i in range(nv):
                    res.append(('%s:%d' % (kind, i), f.where, eng.differences(have[i], want[i]), 'face value of variable %d towards the %s neighbour' % (i, kind)))
            return res
        run(ctx, p, nm, body, f)

"""S05: cell gradients."""
from .. import vg, flowspec as fs
from ..vg import const, Num, Ptr, Obj, Fraction, ZERO, ONE
from ..world import World, scalar_fields
from ..ast import AnalysisBroken, short
from .flux import text
from .spatial import method_of, KINDS

VIEW = 'fvens::amat::Array2dView<double>'


class CellWorld(World):
    """a gradient or reconstruction object on the generic mesh"""
    def __init__(self, eng, kind, cls, nv):
        super().__init__(eng, kind, nv)
        self.accumulate = True
        self.cls = cls
        self.this = Ptr(Obj('scheme', cls=cls, sym=True))
        at = eng.atom
        self.xl, self.xr = [at('xl'), at('yl')], [at('xr'), at('yr')]
        self.rc, self.rcbp = Ptr(Obj('arr:rc', sym=True)), Ptr(Obj('arr:rcbp', sym=True))
        self.put(self.rc, self.L, 2, self.xl)
        if kind == 'boundary':
            self.put(self.rcbp, self.iface, 2, self.xr)
        else:
            self.put(self.rc, self.R, 2, self.xr)
        self.wl, self.wr = [at('wl%d' % i) for i in range(nv)], [at('wr%d' % i) for i in range(nv)]
        self.u, self.ug = Ptr(Obj('arr:u', sym=True)), Ptr(Obj('arr:ug', sym=True))
        self.setstates(self.wl, self.wr)

    def setstates(self, wl, wr):
        self.put(self.u, self.L, self.nv, wl)
        self.put(self.u if self.kind != 'boundary' else self.ug, self.R if self.kind != 'boundary' else self.iface, self.nv, wr)

    def put(self, arr, idx, n, vals):
        eng = self.eng
        for i, v in enumerate(vals):
            eng.store(eng.st, eng.padd(arr, eng.add(eng.mul(idx, const(n)), const(i)), 'double *'), v)

    def view(self, arr, rows, cols):
        return self.eng.make(VIEW, [arr, rows, const(cols)])

    def construct(self, npar, extra=()):
        """run the constructor of the scheme"""
        eng = self.eng
        ct = [f for f in self.prog.fns.values() if f.cls == self.cls and f.name == short(self.cls) and len(f.params) == npar]
        if not ct:
            raise AnalysisBroken('anchor vanished: constructor of ' + short(self.cls))
        vals = [self.mesh, self.rc, self.rcbp] + list(extra)
        ne = {'this': self.this}
        for p, v in zip(ct[0].params, vals):
            if p['t'].strip().endswith('&'):
                ne[p['id']] = v
            else:
                q = Ptr(Obj(p['n']))
                eng.st.mem[q.key()] = v
                ne[p['id']] = q
        eng.run_ctor(ct[0], ne)
        return ct[0]

    def gradblock(self, arr, cell):
        """the ndim x nvars block of a cell: [dim][var]"""
        eng = self.eng
        q = eng.padd(arr, cell, 'X *')
        out = [[None] * self.nv for _ in range(2)]
        for i in range(2):
            for j in range(self.nv):
                k = i + 2 * j
                raw = (arr.o, arr.pre, eng.add(eng.mul(cell, const(2 * self.nv)), const(k)).v)
                out[i][j] = eng.st.mem.get((q.o, q.pre + (q.off.v, '_e'), k), eng.st.mem.get(raw))
                if out[i][j] is None:
                    out[i][j] = vg.UNDEF
        return out

    def setgrad(self, arr, cell, g):
        eng = self.eng
        q = eng.padd(arr, cell, 'X *')
        for i in range(2):
            for j in range(self.nv):
                k = i + 2 * j
                eng.st.mem[(q.o, q.pre + (q.off.v, '_e'), k)] = g[i][j]
                eng.store(eng.st, eng.padd(arr, eng.add(eng.mul(cell, const(2 * self.nv)), const(k)), 'double *'), g[i][j])


def gradients(ctx):
    ctx.rule('Contribution of one arbitrary face to the gradients of its two cells (sums over the other faces are arbitrary symbols): Green-Gauss adds '
             'the inverse-distance-weighted face value times outward normal and length over cell area, with opposite signs on the two sides; weighted '
             'least-squares adds matrix and right-hand-side contributions that agree on every linear field, for interior, physical-boundary and '
             'inter-process faces; the zero scheme gives zero.')
    p = ctx.prog
    subs = [q for q in p.subclasses('GradientScheme')]
    ctx.require(any('GreenGauss' in q for q in subs) and any('LeastSquares' in q for q in subs), 'gradient schemes not found')
    for cls in subs:
        if 'double' not in cls:
            continue
        nv = 4 if ', 4>' in cls else 1
        f = method_of(p, cls, 'compute_gradients', 3)
        nmc = short(cls)
        for kind in KINDS:
            nm = '%s<%d>, %s face' % (nmc, nv, kind)

            def body(eng):
                w = CellWorld(eng, kind, cls, nv)
                m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
                g = Ptr(Obj('arr:grad', sym=True))
                nall = a(w.nelem, w.nc)
                res = []
                ct = w.construct(3)
                sides = [(0, w.L)] + ([(1, w.R)] if w.realR else [])
                if 'LeastSquares' in nmc:
                    # the inverse normal matrix of each cell
                    vm = w.fields_of_type(cls, 'vector')
                    if len(vm) != 1:
                        raise AnalysisBroken('anchor vanished: least-squares matrices')
                    dx = [sub(w.xl[i], w.xr[i]) for i in range(2)]
                    contrib, lhs = {}, {}
                    for side, cell in sides:
                        base = eng.padd(eng.field(eng.field(w.this, vm[0]), '_a'), cell, 'X *')
                        iv = [[eng.load(eng.st, Ptr(base.o, base.pre + (base.off.v, '_e'), const(i + 2 * j)), 'double') for j in range(2)] for i in range(2)]
                        M = eng.em_inv(vg.EM(2, 2, iv))
                        rest = {}
                        for k, r in w.rest.items():
                            if k[0] is base.o and k[1] == base.pre + (base.off.v, '_e'):
                                rest[(k[2] % 2, k[2] // 2)] = r
                        if len(rest) != 4:
                            raise AnalysisBroken('normal matrix is not accumulated from zero')
                        contrib[side] = [[sub(M.e[i][j], rest[(i, j)]) for j in range(2)] for i in range(2)]
                        sym = [[eng.atom('V%d_%d%d' % (side, i, j)) for j in range(2)] for i in range(2)]
                        for i in range(2):
                            for j in range(2):
                                eng.store(eng.st, Ptr(base.o, base.pre + (base.off.v, '_e'), const(i + 2 * j)), sym[i][j])
                        lhs[side] = sym
                        res.append(('matrix:%s:sym' % 'LR'[side], ct.where, eng.differences(contrib[side][0][1], contrib[side][1][0]), 'least-squares matrix is not symmetric'))
                        for i in range(2):
                            for j in range(2):
                                res.append(('matrix:%s:%d%d' % ('LR'[side], i, j), ct.where, eng.differences(m(contrib[side][i][j], a(m(dx[0], dx[0]), m(dx[1], dx[1]))), m(dx[i], dx[j])),
                                            'least-squares matrix does not receive the inverse-distance-weighted product of the centre difference'))
                    # a linear field with gradient gg
                    gg = [[eng.atom('gg%d%d' % (i, j)) for j in range(nv)] for i in range(2)]
                    w0 = [eng.atom('w0%d' % j) for j in range(nv)]
                    lin = lambda x: [a(w0[j], a(m(gg[0][j], x[0]), m(gg[1][j], x[1]))) for j in range(nv)]
                    w.setstates(lin(w.xl), lin(w.xr))
                    w.rest, w.zeroed = {}, {}
                    eng.invoke_values(f, w.this, [w.view(w.u, nall, nv), w.view(w.ug, w.nb, nv), g])
                    for side, cell in sides:
                        G = w.gradblock(g, cell)
                        V = lhs[side]
                        rest = {}
                        for k, r in w.rest.items():
                            if k[1] and len(k[1]) >= 2 and k[1][-1] == '_e' and k[1][-2] == cell.v:
                                rest[(k[2] % 2, k[2] // 2)] = r
                        if len(rest) != 2 * nv:
                            raise AnalysisBroken('least-squares right-hand side is not accumulated from zero')
                        for j in range(nv):
                            rhs = [a(rest[(i, j)], a(m(contrib[side][i][0], gg[0][j]), m(contrib[side][i][1], gg[1][j]))) for i in range(2)]
                            for i in range(2):
                                want = a(m(V[i][0], rhs[0]), m(V[i][1], rhs[1]))
                                res.append(('rhs:%s:%d%d' % ('LR'[side], i, j), f.where, eng.differences(G[i][j], want),
                                            'least-squares right-hand side does not match the matrix on a linear field (component %d of variable %d of the %s cell)' % (i, j, ('left', 'right')[side])))
                elif 'GreenGauss' in nmc:
                    eng.invoke_values(f, w.this, [w.view(w.u, nall, nv), w.view(w.ug, w.nb, nv), g])
                    xp = w.facepoints()
                    mid = [m(const(Fraction(1, 2)), a(xp[0][i], xp[1][i])) for i in range(2)]
                    dist = lambda x: eng.sqrt(a(m(sub(mid[0], x[0]), sub(mid[0], x[0])), m(sub(mid[1], x[1]), sub(mid[1], x[1]))))
                    dl, dr = dist(w.xl), dist(w.xr)
                    for side, cell in sides:
                        G = w.gradblock(g, cell)
                        for i in range(2):
                            for j in range(nv):
                                k1 = [r for k, r in w.rest.items() if k[1] and k[1][-1] == '_e' and k[1][-2] == cell.v and k[2] == i + 2 * j]
                                if not k1:
                                    raise AnalysisBroken('Green-Gauss sum is not accumulated from zero')
                                face = d(a(m(w.wl[j], dr), m(w.wr[j], dl)), a(dl, dr))
                                want = d(m(m(face, w.n[i]), w.len), w.area[side])
                                if side:
                                    want = eng.neg(want)
                                res.append(('%s:%d%d' % ('LR'[side], i, j), f.where, eng.differences(G[i][j], a(k1[0], want)), 'Green-Gauss contribution to component %d of variable %d of the %s cell' % (i, j, ('left', 'right')[side])))
                else:
                    eng.invoke_values(f, w.this, [w.view(w.u, nall, nv), w.view(w.ug, w.nb, nv), g])
                    for side, cell in sides:
                        G = w.gradblock(g, cell)
                        for i in range(2):
                            for j in range(nv):
                                res.append(('%s:%d%d' % ('LR'[side], i, j), f.where, eng.differences(G[i][j], ZERO), 'gradient is not zero'))
                ctx.count('loops reduced', len(w.looplog))
                return res
            for key, where, dd, what in ctx.guard(nm, vg.attempt, p, body, seed=ctx.seed, nd=0) or []:
                ctx.ob(not dd, '%s:%s' % (nm, key), where, '%s: %s (%s)' % (nm, what, text(dd)))

"""G01-G03: geometry of the mesh and of the spatial discretization."""
from .. import vg
from ..vg import const, Num, Ptr, Obj, Opaque, Fraction, ZERO, ONE, UNDEF, same_num, ite, band, bnot, P, absval
from ..world import World, scalar_fields, MESH
from ..ast import AnalysisBroken, short
from .flux import text
from .spatial import method_of, KINDS


def report(ctx, name, where, res):
    for key, wh, diffs, what in res:
        ctx.ob(not diffs, '%s:%s' % (name, key), wh, '%s: %s' % (name, what if not diffs else '%s does not hold (%s)' % (what, diffs[0][0] or 'always')))


def nodes(w, cell, n):
    return [[w.get('gcoords', [w.get('ginpoel', [cell, const(k)]), const(d)]) for d in range(2)] for k in range(n)]


class GeoWorld(World):
    """a mesh whose element and face tables are arbitrary but whose derived geometry is what the analysed function makes it"""
    def __init__(self, eng, kind, nn, nvars=4):
        super().__init__(eng, kind, nvars)
        for c in self.cells:
            self.bind_get('gnnode', [c], const(nn))
            self.bind_get('gnfael', [c], const(nn))
        self.nn = nn


def geometry(ctx):
    ctx.rule('The functions that compute cell areas, cell centres and face normals and lengths are reduced to one arbitrary cell or face with arbitrary node '
             'coordinates: the area of a triangle or quadrilateral equals the shoelace sum over its nodes, the centre the mean of its nodes, a face\'s metric '
             '((y2-y1)/l, -(x2-x1)/l, l), and the accessors hand out exactly these values.')
    p = ctx.prog

    def run(nm, f, body):
        def go():
            report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
        ctx.guard(nm, go)

    fa = method_of(p, MESH, 'compute_areas', 0)
    fc = method_of(p, MESH, 'compute_cell_centres', 1)
    ff = method_of(p, MESH, 'compute_face_data', 0)
    for nn in (3, 4):
        nm = 'area of a cell with %d nodes' % nn

        def body(eng):
            w = GeoWorld(eng, 'interior', nn)
            m, a, s = eng.mul, eng.add, eng.sub
            X = nodes(w, w.L, nn)
            eng.invoke_values(fa, w.mesh, [])
            got = w.get('garea', [w.L])
            tot = ZERO
            for i in range(nn):
                j = (i + 1) % nn
                tot = a(tot, s(m(X[i][0], X[j][1]), m(X[j][0], X[i][1])))
            want = m(const(Fraction(1, 2)), tot)
            ctx.count('cells of generic shape')
            return [('area', fa.where, eng.differences(got, want), 'half the signed sum of cross products of consecutive nodes')]
        run(nm, fa, body)
        nm = 'centre of a cell with %d nodes' % nn

        def body(eng):
            w = GeoWorld(eng, 'interior', nn)
            X = nodes(w, w.L, nn)
            arr = Ptr(Obj('arr:centres', sym=True))
            eng.invoke_values(fc, w.mesh, [arr])
            res = []
            for d in range(2):
                got = eng.load(eng.st, eng.padd(arr, eng.add(eng.mul(w.L, const(2)), const(d)), 'double *'), 'double')
                tot = ZERO
                for k in range(nn):
                    tot = eng.add(tot, X[k][d])
                res.append(('centre%d' % d, fc.where, eng.differences(got, eng.div(tot, const(nn))), 'coordinate %d is the mean of the nodes' % d))
            return res
        run(nm, fc, body)
    for kind in KINDS:
        nm = 'metric of a %s face' % ('physical-boundary' if kind == 'boundary' else kind)

        def body(eng):
            w = World(eng, kind)
            m, a, s, d = eng.mul, eng.add, eng.sub, eng.div
            A, B = w.facepoints()
            eng.invoke_values(ff, w.mesh, [])
            n = [s(B[1], A[1]), s(A[0], B[0])]
            ln = eng.sqrt(a(m(n[0], n[0]), m(n[1], n[1])))
            res = []
            for i in range(2):
                got = w.get('gfacemetric', [w.iface, const(i)])
                res.append(('normal%d' % i, ff.where, eng.differences(got, d(n[i], ln)), 'component %d of the unit normal (face rotated clockwise)' % i))
            res.append(('length', ff.where, eng.differences(w.get('gfacemetric', [w.iface, const(2)]), ln), 'length of the face'))
            acc = method_of(p, MESH, 'gnormal', 1)
            q = eng.invoke_values(acc, w.mesh, [w.iface])
            for i in range(2):
                got = elem(eng, q, i)
                res.append(('accessor%d' % i, acc.where, eng.differences(got, d(n[i], ln)), 'component %d handed out by gnormal' % i))
            return res
        run(nm, ff, body)


def centres(ctx):
    ctx.rule('The constructor of every spatial discretization is reduced to one arbitrary face of each kind: the exchange of cell centres begins after the '
             'centres of the own cells are stored and ends before any centre is read; face centres are the means of the face\'s nodes; the ghost centre behind a '
             'physical-boundary face is the reflection of the cell centre through the face\'s midpoint; own and received centres are left as they are.')
    p = ctx.prog
    for nv in (4, 1):
        cls = 'fvens::Spatial<double, %d>' % nv
        ct = [f for f in p.fns.values() if f.cls == cls and f.name == 'Spatial' and len(f.params) == 1 and 'UMesh' in f.params[0]['t']]
        ctx.require(ct, 'constructor of %s' % cls)
        f = ct[0]
        for kind in KINDS:
            for nn in (3, 4):
                nm = 'Spatial<%d>, %s face, cell with %d nodes' % (nv, kind, nn)

                def body(eng):
                    w = GeoWorld(eng, kind, nn, nv)
                    this = Ptr(Obj('space', cls=cls, sym=True))
                    m, a, s, d = eng.mul, eng.add, eng.sub, eng.div
                    half = const(Fraction(1, 2))
                    A, B = w.facepoints()
                    X = {c.v: nodes(w, c, nn) for c in w.cells}
                    C = {k: [d(sum_(eng, [q[i] for q in v]), const(nn)) for i in range(2)] for k, v in X.items()}
                    recv = [eng.atom('received:x'), eng.atom('received:y')]
                    state = {'phase': 0, 'log': []}
                    where = f.where
                    res = []

                    def vecarr():
                        return w.array_of(state['vec'])

                    def at(arr, cell, i):
                        return eng.load(eng.st, eng.padd(arr, a(m(cell, const(2)), const(i)), 'double *'), 'double')

                    def create(eng, e, dd, obj, args, env):
                        q = eng.rv(args[2], env)
                        n = eng.rv(args[1], env)
                        v, arr = w.vec('centres')
                        state['vec'] = v
                        eng.store(eng.st, q, v)
                        res.append(('blocksize', where, eng.differences(n, const(2)), 'two coordinates per cell'))
                        return ZERO
                    eng.models['createGhostedSystemVector'] = create

                    def ghost(eng, e, dd, obj, args, env):
                        v = eng.rv(args[0], env)
                        modes = [eng.rv(x, env) for x in args[1:3]]
                        begin = dd['name'].endswith('Begin')
                        if state.get('vec') is None or v.o is not state['vec'].o:
                            raise vg.EngineLimit('ghost exchange of another vector')
                        state['log'].append((dd['name'], [x.c for x in modes]))
                        arr = vecarr()
                        if begin:
                            for ci, c in enumerate(w.cells):
                                for i in range(2):
                                    res.append(('sent%d%d' % (ci, i), where, eng.differences(at(arr, c, i), C[c.v][i]), 'centre of the own cell is stored when the exchange begins'))
                        elif kind == 'connectivity':
                            for i in range(2):
                                eng.store(eng.st, eng.padd(arr, a(m(w.R, const(2)), const(i)), 'double *'), recv[i])
                        return ZERO
                    eng.models['VecGhostUpdateBegin'] = eng.models['VecGhostUpdateEnd'] = ghost
                    q = Ptr(Obj('mesh'))
                    eng.st.mem[q.key()] = w.mesh
                    eng.run_ctor(f, {'this': this, f.params[0]['id']: q})
                    ok = [n for n, md in state['log']] == ['VecGhostUpdateBegin', 'VecGhostUpdateEnd'] and all(md == [1, 0] for n, md in state['log'])
                    res.append(('exchange', where, [] if ok else [('exchange sequence %s' % state['log'],)], 'one complete exchange, own values inserted into ghosts'))
                    arr = vecarr()
                    for ci, c in enumerate(w.cells):
                        for i in range(2):
                            res.append(('own%d%d' % (ci, i), where, eng.differences(at(arr, c, i), C[c.v][i]), 'centre of the own cell'))
                    if kind == 'connectivity':
                        for i in range(2):
                            res.append(('ghost%d' % i, where, eng.differences(at(arr, w.R, i), recv[i]), 'centre received for the ghost cell'))
                    names = dict(scalar_fields(p, cls))
                    for need in ('gr', 'rcbp', 'rcbptr'):
                        if need not in names:
                            raise AnalysisBroken('anchor vanished: Spatial::' + need)
                    acc = w.method('fvens::amat::Array2d<double>', 'operator()', 2, lambda f: not p.decls[f.key].get('const'))
                    get = lambda fld, i, j: eng.load(eng.st, eng.invoke_values(acc, eng.field(this, fld), [i, j]), 'double')
                    mid = [m(half, a(A[i], B[i])) for i in range(2)]
                    for i in range(2):
                        res.append(('facecentre%d' % i, where, eng.differences(get('gr', w.iface, const(i)), mid[i]), 'coordinate %d of the face centre' % i))
                    if kind == 'boundary':
                        pp = eng.load(eng.st, eng.field(this, 'rcbptr'), 'double *')
                        for i in range(2):
                            got = eng.load(eng.st, eng.padd(pp, a(m(w.iface, const(2)), const(i)), 'double *'), 'double')
                            want = s(a(A[i], B[i]), C[w.L.v][i])
                            res.append(('reflected%d' % i, where, eng.differences(got, want), 'coordinate %d of the reflected ghost centre' % i))
                    ctx.count('constructors reduced')
                    return res

                def go():
                    report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
                ctx.guard(nm, go)


def sum_(eng, xs):
    t = ZERO
    for x in xs:
        t = eng.add(t, x)
    return t


def elem(eng, q, i):
    """element i of a std::array value"""
    return eng.load(eng.st, eng.padd(eng.field(q, '_a'), const(i), 'double *'), 'double')


class PairWorld(World):
    """loops over physical-boundary faces visit, in order, the given faces; every other face is assumed not to interact with them"""
    def __init__(self, eng, faces):
        super().__init__(eng, 'boundary')
        self.faces = faces

    def instances(self, lo, hi):
        if self.near(hi, {'nb': self.nb}) or self.near(lo, {'nb': self.nb}):
            self.faceloops += 1
            return 'face', self.faces
        return super().instances(lo, hi)

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        if down:
            idxs = idxs[::-1]
        return self.steps(eng, s, st, env, p, rng, idxs, down, where, s.get('__extra') or {})

    def steps(self, eng, s, st, env, p, rng, idxs, down, where, extra):
        if not idxs:
            return st
        ix, later = idxs[0], idxs[1:]
        c = band(eng.cmp('>=', ix, rng[0]), eng.cmp('<', ix, rng[1]))
        if c is False:
            return self.steps(eng, s, st, env, p, rng, later, down, where, extra)
        s1 = st.clone()
        s1.mem[p.key()] = ix
        for k, fn in extra.items():
            s1.mem[k] = fn(ix)
        if c is not True:
            eng.path.append(c)
        s1 = eng.exec(s['body'], s1, env)
        s1.cont = False
        b = s1.brk
        s1.brk = False
        if b is not True:
            s2 = s1.clone() if b is not False else s1
            if s.get('inc') is not None:
                eng.st = s2
                eng.rv(s['inc'], env)
                s2 = eng.st
            if b is not False:
                eng.path.append(bnot(b))
            s2 = self.steps(eng, s, s2, env, p, rng, later, down, where, extra)
            if b is not False:
                eng.path.pop()
                s1 = eng.merge(b, s1, s2)
            else:
                s1 = s2
        if c is not True:
            eng.path.pop()
            s1 = eng.merge(c, s1, self.steps(eng, s, st, env, p, rng, later, down, where, extra))
        return s1


def boundaries(ctx):
    ctx.rule('Boundary faces are given the orientation of their cell: for either order of the two nodes in the file and every face of a triangle or quadrilateral the '
             'stored face ends with its nodes in the order of the cell.  The periodic map is reduced to two arbitrary faces I < J that match no other face: exactly when both carry the '
             'periodic marker and their centres agree across the periodic direction, the ghost cell of each becomes the cell behind the other.')
    p = ctx.prog
    f = method_of(p, MESH, 'correctBoundaryFaceOrientation', 0)
    for nn in (3, 4):
        for ef in range(nn):
            for flip in (False, True):
                nm = 'face %d of a cell with %d nodes, stored %s' % (ef, nn, 'against the cell' if flip else 'along the cell')

                def body(eng):
                    w = GeoWorld(eng, 'boundary', nn)
                    # the cell's nodes are distinct
                    ns = [w.get('ginpoel', [w.L, const(k)]) for k in range(nn)]
                    for i in range(nn):
                        for j in range(nn):
                            if i != j:
                                eng.neqfacts.add((ns[i].v - ns[j].v) % P)
                    eng.models['compute_elementsSurroundingPoints'] = lambda *a: Opaque('void')

                    def hosts(eng, e, d, obj, args, env):
                        o = Ptr(Obj('hosts', cls=d['ret'], sym=True))
                        a = eng.padd(eng.field(o, '_a'), w.iface, 'double *')
                        eng.store(eng.st, eng.field(a, 'first'), w.L)
                        eng.store(eng.st, eng.field(a, 'second'), const(ef))
                        eng.store(eng.st, eng.field(o, '_size'), w.nb)
                        return o
                    eng.models['compute_phyBFaceNeighboringElements'] = hosts
                    acc = w.method('fvens::amat::Array2d<int>', 'operator()', 2, lambda f: not p.decls[f.key].get('const'))
                    bf = [eng.invoke_values(acc, eng.field(w.mesh, 'bface'), [w.iface, const(k)]) for k in range(2)]
                    want = [ns[ef], ns[(ef + 1) % nn]]
                    for k in range(2):
                        eng.store(eng.st, bf[k], want[1 - k if flip else k])
                    eng.invoke_values(f, w.mesh, [])
                    ctx.count('orientations decided')
                    return [('node%d' % k, f.where, eng.differences(eng.load(eng.st, bf[k], 'int'), want[k]), 'node %d of the face follows the cell' % k) for k in range(2)]

                def go():
                    report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
                ctx.guard(nm, go)
    f = method_of(p, MESH, 'compute_periodic_map', 2)
    for axis in (0, 1):
        nm = 'faces periodic along %s' % 'xy'[axis]

        def body(eng):
            w2 = PairWorld(eng, [])
            I, J = w2.iface, eng.atom('jface')
            w2.faces = [I, J]
            facts = w2.factlist + [J, eng.sub(eng.sub(J, I), ONE), eng.sub(eng.sub(w2.nb, J), ONE)]
            bcm = eng.atom('bcm')
            facts += [bcm]
            eng.set_facts(facts)
            eng.neqfacts |= {(I.v - J.v) % P, (J.v - I.v) % P}
            w = w2
            tag = [w.get('gbtags', [x, ZERO]) for x in (I, J)]
            cell = [w.L, eng.atom('jelem')]
            w.bind_get('gintfac', [J, ZERO], cell[1])
            old = [w.get('gintfac', [x, ONE]) for x in (I, J)]
            ax = 1 - axis
            c = []
            for x in (I, J):
                q = [w.get('gcoords', [w.get('gintfac', [x, const(2 + k)]), const(ax)]) for k in range(2)]
                c.append(eng.div(eng.add(q[0], q[1]), const(2)))
            eng.invoke_values(f, w.mesh, [bcm, const(axis)])
            d = absval(eng, eng.sub(c[0], c[1]))
            g = band(band(eng.cmp('==', tag[0], bcm), eng.cmp('==', tag[1], bcm)), eng.cmp('<=', d, const(Fraction(1, 10 ** 8))))
            ctx.count('periodic pairs decided')
            return [('ghost%d' % k, f.where, eng.differences(w.get('gintfac', [x, ONE]), ite(g, cell[1 - k], old[k])), 'ghost cell of the %s face is the cell behind its partner' % ('first', 'second')[k])
                    for k, x in enumerate((I, J))]

        def go():
            report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
        ctx.guard(nm, go)

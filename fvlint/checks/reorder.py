"""M05: reordering of cells and the preparation of a mesh."""
from .. import vg, strs
from ..vg import const, Num, Ptr, Obj, Opaque, ZERO, ONE, UNDEF
from ..world import World, MESH, P
from ..ast import AnalysisBroken
from .spatial import method_of
from .geometry import report
from .topology import TopoWorld
from .linalg import one

PREP = ('compute_topological', 'compute_areas', 'compute_face_data')


class OrdWorld(TopoWorld):
    """three cells that trade places"""
    def __init__(self, eng):
        super().__init__(eng)
        a = eng.atom
        eng.deepcopy = ('fvens::amat::Array2d<int>', 'fvens::amat::Array2d<double>')
        self.O, self.O2 = a('oldplace'), a('oldold')
        self.differ(self.L, self.O, self.O2)
        for x, v in (('maxnnode', 4), ('maxnfael', 4), ('nnofa', 2), ('nbtag', 2), ('ndtag', 2)):
            eng.store(eng.st, eng.field(self.mesh, x), const(v))
        for f, n in (('vol_regions', 2), ('inpoel', 4), ('esuel', 4)):
            q = eng.field(self.mesh, f)
            eng.store(eng.st, eng.field(q, 'ncols'), const(n))
            eng.store(eng.st, eng.field(q, 'nrows'), self.nelem)
            eng.store(eng.st, eng.field(q, 'size'), eng.mul(self.nelem, const(n)))
        for f in ('nnode', 'nfael'):
            eng.store(eng.st, eng.field(eng.field(self.mesh, f), '_size'), self.nelem)
        for c, n in ((self.L, 3), (self.O, 4), (self.O2, 4)):
            for f in ('nnode', 'nfael'):
                eng.store(eng.st, eng.padd(eng.field(eng.field(self.mesh, f), '_a'), c, 'int *'), const(n))
        self.perm = Ptr(Obj('perm', cls='int', sym=True))
        self.cycle = ((self.L, self.O), (self.O, self.O2), (self.O2, self.L))
        for x, y in self.cycle:
            eng.store(eng.st, eng.padd(self.perm, x, 'int *'), y)
        eng.set_facts(self.facts + [z for x in (self.O, self.O2) for z in (x, eng.sub(eng.sub(self.nelem, x), ONE))])

    def instances(self, lo, hi):
        cs = [self.O, self.L, self.O2]
        if (lo.v % P) == 0:
            for n in (1, 2, 4):
                if (hi.v - n * self.nelem.v) % P == 0:
                    return 'order', [self.eng.add(self.eng.mul(c, const(n)), const(j)) for c in cs for j in range(n)] if n > 1 else cs
        return super().instances(lo, hi)

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        for ix in idxs:
            st = World.iterate(self, eng, s, st, env, p, (ix, eng.add(ix, ONE)), [ix], down, where)
        return st

    def data(self, c):
        """what the mesh stores for a cell before anything is derived from it"""
        eng, out = self.eng, {}
        acc = self.method('fvens::amat::Array2d<int>', 'operator()', 2, lambda f: not eng.prog.decls[f.key].get('const'))
        for f, n in (('inpoel', 4), ('vol_regions', 2)):
            for j in range(n):
                out['%s %d' % (f, j)] = eng.load(eng.st, eng.invoke_values(acc, eng.field(self.mesh, f), [c, const(j)]), 'int')
        for f in ('nnode', 'nfael'):
            out[f] = eng.load(eng.st, eng.padd(eng.field(eng.field(self.mesh, f), '_a'), c, 'int *'), 'int')
        return out


def cells(ctx):
    f = method_of(ctx.prog, MESH, 'reorder_cells', 1)
    nm = 'reorder_cells'

    def body(eng):
        w = OrdWorld(eng)
        old = {c: w.data(c) for c in (w.O, w.O2, w.L)}
        eng.invoke_values(f, w.mesh, [w.perm])
        res = []
        for new, was in w.cycle:
            got = w.data(new)
            for k, v in old[was].items():
                res.append((k.split()[0], f.where, eng.differences(got[k], v), 'every cell takes all data of the cell the permutation names (%s)' % k))
        return res
    ctx.guard(nm, lambda: report(ctx, nm, f.where, vg.attempt(ctx.prog, body, seed=ctx.seed, nd=0)))


def prepare(ctx):
    p = ctx.prog
    f = one(p, 'preprocessMesh')
    for order in (None, 'natural', 'rcm', '?ordering', 'line', 'line_rcm', 'line_natural', 'line_?second'):
        for thr in ((True, False) if order and 'line' in order else (True,)):
            nm = 'preprocessMesh, %s%s' % ('ordering %s' % order if order else 'no ordering', '' if thr else ' without threshold')

            def body(eng):
                w = OrdWorld(eng)
                opts = {'-mesh_reorder': order} if order else {}
                t = eng.atom('threshold', 1)
                if thr:
                    opts['-mesh_anisotropy_threshold'] = t
                strs.install(eng, strs.Options({}, {}, opts))
                log, handles = [], {}

                def rec(name, on=True):
                    def g(eng, e, d, obj, args, env):
                        o = eng.lv_or_ptr(obj, env, e.get('arrow')) if obj is not None else None
                        log.append((name, o, [eng.rv(a, env) if not vg.clean(a['t']).startswith('fvens::UMesh') else eng.lv(a, env) for a in args], eng.pathcond()))
                        return ZERO if obj is None else Opaque('void')
                    return g
                for n in PREP + ('reorder_cells',):
                    eng.models[n] = rec(n)
                for n in ('lineReorder', 'hybridLineReorder'):
                    eng.models[n] = rec(n)
                for n in ('MatSetType', 'MatSetSizes', 'MatSetFromOptions', 'MatSetUp', 'setJacobianPreallocation', 'MatAssemblyBegin', 'MatAssemblyEnd', 'VecSet', 'ISRestoreIndices', 'ISDestroy', 'MatDestroy', 'VecDestroy',
                          'MatSetOption', 'VecSetSizes', 'VecSetType'):
                    eng.models[n] = rec(n)

                def make(n, k):
                    def g(eng, e, d, obj, args, env):
                        vs = [eng.rv(a, env) for a in args]
                        for i in range(k):
                            h = Ptr(Obj('%s%d' % (n, i), cls='handle', sym=True))
                            eng.store(eng.st, vs[len(vs) - k + i], h)
                        log.append((n, None, [eng.load(eng.st, v, '?') if i >= len(vs) - k else strs.S(strs.text_of(eng, v)) if strs.text_of(eng, v) is not None and n == 'MatGetOrdering' and i == 1 else v for i, v in enumerate(vs)],
                                    eng.pathcond()))
                        return ZERO
                    return g
                for n, k in (('MatCreate', 1), ('MatCreateSeqAIJ', 1), ('VecCreateSeq', 1), ('VecCreate', 1), ('MatGetOrdering', 2)):
                    eng.models[n] = make(n, k)

                def indices(eng, e, d, obj, args, env):
                    s, q = eng.rv(args[0], env), eng.rv(args[1], env)
                    a = handles.setdefault(s.o, Ptr(Obj('indices', cls='int', sym=True)))
                    for c, x in w.cycle:
                        eng.store(eng.st, eng.padd(a, c, 'int *'), x)
                    eng.store(eng.st, q, a)
                    return ZERO
                eng.models['ISGetIndices'] = indices

                def jac(eng, e, d, obj, args, env):
                    log.append(('assemble_jacobian', eng.lv_or_ptr(obj, env, e.get('arrow')), [eng.rv(a, env) for a in args], eng.pathcond()))
                    return ZERO
                eng.models['assemble_jacobian'] = jac
                made = []
                eng.models['ctor:DiffusionMA'] = lambda eng, q, e, d, env: made.append((q, eng.rv(e['args'][0], env), len(log)))
                r = eng.invoke_values(f, None, [w.mesh])
                res = []
                say = lambda key, ok, what, why: res.append((key, f.where, [] if ok else [(why,)], what))
                dead = eng.st.dead is True
                if order and 'line' in order and not thr:
                    say('threshold', dead, 'line orderings without a threshold are refused', 'accepted')
                    return res
                say('completes', not dead and isinstance(r, Num) and r.c == 0, 'the mesh is prepared without error', 'throws or returns an error')
                say('unconditional', all(x[3] is True for x in log), 'the steps are taken on every path', 'some steps are skipped on some paths')
                ours = lambda q: isinstance(q, Ptr) and q.o is w.mesh.o
                names = [x[0] for x in log if x[0] not in PREP + ('reorder_cells',) or ours(x[1])]
                at = [i for i, n in enumerate(names) if n in ('reorder_cells', 'lineReorder', 'hybridLineReorder')]
                final = names[at[-1] + 1:] if at else names
                pos = {n: max([i for i, x in enumerate(final) if x == n], default=-1) for n in PREP}
                for n in PREP:
                    say(n, pos[n] >= 0, '%s follows any reordering' % n, 'missing')
                say('order', pos['compute_topological'] < pos['compute_face_data'] or pos['compute_face_data'] < 0, 'face data are computed from the final faces', 'computed before them')
                if order and order != 'natural':
                    say('reorders', len(at) == 1, 'the cells are reordered once', 'reordered %d times' % len(at))
                    if len(at) != 1:
                        return res
                    before = names[:at[0]]
                    say('before', 'compute_topological' in before and 'compute_face_data' in before[before.index('compute_topological'):], 'connectivity and then face data are available to the ordering', 'missing')
                    x = [y for y in log if y[0] == names[at[0]]][0]
                    kind = 'lineReorder' if order == 'line' else 'hybridLineReorder' if order.startswith('line_') else 'reorder_cells'
                    say('kind', x[0] == kind, 'the requested kind of ordering is applied', x[0] + ' is called')
                    if x[0] != kind:
                        return res
                    if kind != 'reorder_cells':
                        say('mesh', ours(x[2][0]), 'this mesh is ordered', 'another one')
                        res.append(('given', f.where, eng.differences(x[2][1], t), 'the threshold is the one given'))
                        if kind == 'hybridLineReorder':
                            say('second', strs.text_of(eng, x[2][2]) == order[5:], 'the ordering of lines and points is the one given', 'another')
                    else:
                        g = [(i, y) for i, y in enumerate(log) if y[0] == 'MatGetOrdering']
                        say('ordering', len(g) == 1 and strs.text_of(eng, g[0][1][2][1]) == order, 'the requested ordering is asked for', 'another')
                        j = [(i, y) for i, y in enumerate(log) if y[0] == 'assemble_jacobian']
                        if len(g) == 1:
                            A = g[0][1][2][0]
                            say('matrix', len(j) == 1 and j[0][0] < g[0][0] and j[0][1][2][1].o is A.o, 'the matrix that is ordered is the assembled Jacobian', 'another one, or before it is assembled')
                            asm = [i for i, y in enumerate(log) if y[0] == 'MatAssemblyEnd' and y[2][0].o is A.o]
                            say('assembled', any(i < g[0][0] and (not j or i > j[0][0]) for i in asm), 'its assembly is finished before', 'not finished')
                            hs = {handles[v.o].o for v in g[0][1][2][2:] if v.o in handles}
                            say('permutation', isinstance(x[2][0], Ptr) and x[2][0].o in hs, 'the cells are put in the order obtained', 'in another one')
                        say('discretization', len(made) == 1 and ours(made[0][1]), 'the Jacobian is that of this mesh', 'another mesh')
                else:
                    say('untouched', not at, 'the cells keep their order', 'reordered')
                return res
            ctx.guard(nm, lambda: report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0)))


def reorder(ctx):
    ctx.rule('reorder_cells is reduced to an arbitrary cell and the two that take each other\'s places; preprocessMesh is followed for each kind of the option -mesh_reorder with the mesh operations recorded in order.')
    cells(ctx)
    prepare(ctx)
    lines(ctx)
    petsc_ordering(ctx)


class LineWorld(TopoWorld):
    """one line of cells, one position in it, one cell that is in no line"""
    def __init__(self, eng):
        super().__init__(eng)
        a = eng.atom
        self.nl, self.ls, self.line, self.pos = a('nlines', 1), a('linelength', 1), a('line'), a('pos')
        self.npt, self.pt = a('npoints', 1), a('pointsbefore')
        self.incell, self.outcell = a('linecell'), a('pointcell')
        self.g1, self.g2 = a('lineplace'), a('pointplace')
        self.differ(self.incell, self.outcell)
        self.differ(self.g1, self.g2)
        self.lines = []
        eng.set_facts([self.line, self.pos, self.pt, eng.sub(eng.sub(self.nl, self.line), ONE)])
        eng.models['findLines'] = self.found
        eng.models['shrink_to_fit'] = lambda *x: Opaque('void')
        self.got = []
        eng.models['reorder_cells'] = self.record
        eng.models['createLinePointGraph'] = self.graph
        eng.models['getPetscOrdering'] = self.ordering
        eng.models['createLinePointGraphVertices'] = self.passed
        self.res = []

    def found(self, eng, e, d, obj, args, env):
        r = Ptr(Obj('lines', cls='fvens::LineConfig'))
        at = lambda p, i: eng.padd(eng.field(p, '_a'), i, 'double *')
        L = eng.field(r, 'lines')
        eng.store(eng.st, eng.field(L, '_size'), self.nl)
        l = at(L, self.line)
        eng.store(eng.st, eng.field(l, '_size'), self.ls)
        eng.store(eng.st, at(l, self.pos), self.incell)
        c = eng.field(r, 'celline')
        eng.store(eng.st, eng.field(c, '_size'), self.nelem)
        eng.store(eng.st, at(c, self.incell), self.line)
        eng.store(eng.st, at(c, self.outcell), const(-1))
        self.foundargs = [eng.lv(args[0], env), eng.rv(args[1], env)]
        return r

    def graph(self, eng, e, d, obj, args, env):
        eng.store(eng.st, eng.rv(args[2], env), Ptr(Obj('graph', cls='handle')))
        return Opaque('void')

    def passed(self, eng, e, d, obj, args, env):
        return NotImplemented

    def ordering(self, eng, e, d, obj, args, env):
        r = Ptr(Obj('graphorder', cls='std::vector<int>'))
        eng.store(eng.st, eng.field(r, '_size'), eng.add(self.nl, self.npt))
        for g, v in ((self.g1, self.line), (self.g2, eng.add(self.nl, self.pt))):
            eng.store(eng.st, eng.padd(eng.field(r, '_a'), g, 'int *'), v)
        self.order = strs.text_of(eng, eng.rv(args[1], env))
        return r

    def record(self, eng, e, d, obj, args, env):
        q = eng.rv(args[0], env)
        self.got.append((eng.lv_or_ptr(obj, env, e.get('arrow')), q, eng.pathcond()))
        return Opaque('void')

    def instances(self, lo, hi):
        eng = self.eng
        eq = lambda x, y: (x.v - y.v) % P == 0
        if not eq(lo, ZERO):
            if eq(lo, self.nl) and eq(hi, eng.add(self.nl, self.npt)):
                return 'points', [eng.add(self.nl, self.pt)]
            return None
        for n, k, ix in ((self.nl, 'lines', [self.line]), (self.ls, 'positions', [self.pos]), (self.nelem, 'cells', [self.incell, self.outcell]), (self.npt, 'points', [self.pt]),
                         (eng.add(self.nl, self.npt), 'vertices', [self.g1, self.g2])):
            if eq(hi, n):
                return k, ix
        return None

    def amount(self, by):
        """how many such steps there are, and were before this one"""
        eng = self.eng
        if (by.v - self.ls.v) % P == 0:
            return eng.atom('cellsinlinesbefore'), eng.atom('cellsinlines')
        if by.c == 1:
            return self.pt, self.npt
        return eng.atom('before:%x' % by.v), eng.atom('total:%x' % by.v)

    def counted(self, s, st, env):
        from ..ast import walk
        out = super().counted(s, st, env)
        for n in walk(s['body']):
            v = self.appends(n)
            if v in env and isinstance(env[v], Ptr):
                q = self.eng.field(env[v], '_size')
                st.mem.setdefault(q.key(), ZERO)
                out[q.key()] = (q, st.mem[q.key()])
            if n['k'] == 'Call' and n.get('obj') and self.eng.prog.decls.get(n.get('fn'), {}).get('name') in ('push_back', 'emplace_back'):
                o = n['obj']
                while o['k'] == 'Cast':
                    o = o['e']
                if o['k'] == 'Mem' and not o.get('arrow') and o['b']['k'] == 'Ref' and isinstance(env.get(o['b']['id']), Ptr):
                    q = self.eng.field(self.eng.field(env[o['b']['id']], o['n']), '_size')
                    st.mem.setdefault(q.key(), ZERO)
                    out[q.key()] = (q, st.mem[q.key()])
        return out

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        run = lambda ix, t: World.iterate(self, eng, s, t, env, p, (ix, eng.add(ix, ONE)), [ix], down, where)
        if idxs == [self.pos]:
            return World.iterate(self, eng, s, st, env, p, rng, idxs, down, where) if s.get('__extra') is None else self.inner(eng, s, st, env, p, idxs[0], run)
        extra = s.get('__extra') or {}
        sc = {k: v for k, v in self.counted(s, st, env).items() if k != p.key() and k not in extra}
        end = {k: x for k, (q, x) in sc.items()}
        for ix in idxs:
            keep, eng.stores = eng.stores, []
            t = st.clone()
            for k, (q, x) in sc.items():
                t.mem[k] = x
            d = run(ix, t)
            eng.stores = keep
            by = {}
            for k, (q, x) in sc.items():
                by[k] = eng.sub(d.mem[k], x)
                if not isinstance(by[k], Num):
                    self.res.append(('counting', where, [('it depends on other data',)], 'how far %s advances follows from whether a cell is in a line' % eng.locname(q)))
                    raise AnalysisBroken('%s grows by an amount that depends on data at %s' % (eng.locname(q), where))
                if by[k].c == 0:
                    st.mem[k] = x
                    continue
                b, tot = self.amount(by[k])
                st.mem[k] = eng.add(x, b)
                if len(idxs) > 1 and idxs[0] is self.g1:
                    st.mem[k] = eng.add(x, eng.atom('earlier:%x' % by[k].v))
                end[k] = eng.add(end[k], tot)
            st = run(ix, st)
        st.mem.update(end)
        return st

    def inner(self, eng, s, st, env, p, ix, run):
        sc = {k: v for k, v in self.counted(s, st, env).items() if k != p.key() and k not in s['__extra']}
        keep, eng.stores = eng.stores, []
        d = run(ix, st.clone())
        eng.stores = keep
        end = {}
        for k, (q, x) in sc.items():
            by = eng.sub(d.mem[k], x)
            st.mem[k], end[k] = eng.add(x, eng.mul(by, ix)), eng.add(x, eng.mul(by, self.ls))
        st = run(ix, st)
        st.mem.update(end)
        return st


def lines(ctx):
    p = ctx.prog
    for which in ('lineReorder', 'hybridLineReorder'):
        f = one(p, which)

        def body(eng):
            w = LineWorld(eng)
            strs.install(eng, strs.Options({}))
            t = eng.atom('threshold', 1)
            res = w.res
            try:
                eng.invoke_values(f, None, [w.mesh, t] + ([strs.S('?ordering')] if which != 'lineReorder' else []))
            except AnalysisBroken:
                if res:
                    return res
                raise
            say = lambda key, ok, what, why: res.append((key, f.where, [] if ok else [(why,)], what))
            say('once', len(w.got) == 1 and w.got[0][2] is True and w.got[0][0].o is w.mesh.o and eng.st.dead is False, 'the cells of the mesh are reordered once', 'they are not')
            if len(w.got) != 1:
                return res
            q = w.got[0][1]
            at = lambda i: eng.load(eng.st, eng.padd(q, i, 'int *'), 'int')
            say('mesh', w.foundargs[0].o is w.mesh.o, 'the lines are those of this mesh', 'of another')
            res.append(('threshold', f.where, eng.differences(w.foundargs[1], t), 'the threshold is the one given'))
            if which == 'lineReorder':
                a, b = eng.atom('cellsinlinesbefore'), eng.add(eng.atom('cellsinlines'), w.pt)
            else:
                say('ordering', w.order == '?ordering', 'lines and points are ordered as requested', 'otherwise')
                a, b = eng.atom('earlier:%x' % w.ls.v), eng.atom('earlier:%x' % ONE.v)
            res.append(('lines', f.where, eng.differences(at(eng.add(a, w.pos)), w.incell), 'the cells of a line follow each other in the order of the line'))
            res.append(('points', f.where, eng.differences(at(b), w.outcell), 'each cell in no line takes its own place'))
            return res
        ctx.guard(which, lambda: report(ctx, which, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0)))


def petsc_ordering(ctx):
    p = ctx.prog
    f = one(p, 'getPetscOrdering')
    for name in ('natural', '?ordering'):
        nm = 'getPetscOrdering, %s' % name

        def body(eng):
            w = LineWorld(eng)
            del eng.models['getPetscOrdering']
            strs.install(eng, strs.Options({}))
            rows = eng.add(w.nl, w.npt)
            graph = Ptr(Obj('graph', cls='handle'))
            asked = []

            def size(eng, e, d, obj, args, env):
                vs = [eng.rv(a, env) for a in args]
                for v in vs[1:]:
                    if v.o is not None:
                        eng.store(eng.st, v, rows)
                return ZERO
            eng.models['MatGetSize'] = eng.models['MatGetLocalSize'] = size
            ind = Ptr(Obj('indices', cls='int'))
            for g in (w.g1, w.g2):
                eng.store(eng.st, eng.padd(ind, g, 'int *'), eng.atom('perm%x' % g.v))

            def order(eng, e, d, obj, args, env):
                asked.append((eng.rv(args[0], env), strs.text_of(eng, eng.rv(args[1], env))))
                for a in args[2:]:
                    eng.store(eng.st, eng.rv(a, env), Ptr(Obj('is', cls='handle')))
                return ZERO

            def indices(eng, e, d, obj, args, env):
                eng.store(eng.st, eng.rv(args[1], env), ind)
                return ZERO
            eng.models['MatGetOrdering'], eng.models['ISGetIndices'] = order, indices
            r = eng.invoke_values(f, None, [graph, strs.S(name)])
            res = []
            if name != 'natural':
                ok = len(asked) == 1 and asked[0][0].o is graph.o and asked[0][1] == name
                res.append(('asked', f.where, [] if ok else [('not asked',)], 'the requested ordering of the graph is asked for'))
            res.append(('size', f.where, eng.differences(eng.load(eng.st, eng.field(r, '_size'), 'long'), rows), 'every vertex has a place'))
            for g in (w.g1, w.g2):
                got = eng.load(eng.st, eng.padd(eng.field(r, '_a'), g, 'int *'), 'int')
                res.append(('places', f.where, eng.differences(got, g if name == 'natural' else eng.atom('perm%x' % g.v)), 'the places are those obtained, or unchanged for the natural ordering'))
            return res
        ctx.guard(nm, lambda: report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0)))

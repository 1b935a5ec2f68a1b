"""M03: system vectors and matrices; M05: trace exchange."""
from .. import vg
from ..vg import const, Num, Ptr, Obj, Opaque, ZERO, ONE, UNDEF
from ..ast import AnalysisBroken
from .spatial import method_of
from .geometry import report
from .topology import TopoWorld
from ..world import MESH

NEWNZ = 19          # MAT_NEW_NONZERO_ALLOCATION_ERR


class LinWorld(TopoWorld):
    """records what is asked of PETSc"""
    def __init__(self, eng, nn=3):
        super().__init__(eng)
        self.log = []
        self.nnodes(self.L, nn)
        self.nnodes(self.chost, nn)
        for n in ('VecCreateMPI', 'VecCreateGhost', 'VecCreateGhostBlock', 'VecCreate', 'VecSetSizes', 'VecSetBlockSize', 'VecSetType', 'VecMPISetGhost', 'VecSetFromOptions', 'VecSetUp',
                  'MatCreate', 'MatSetSizes', 'MatSetBlockSize', 'MatSetBlockSizes', 'MatSetType', 'MatSetFromOptions', 'MatSetUp', 'MatSetOption', 'MatSeqBAIJSetPreallocation',
                  'MatMPIBAIJSetPreallocation', 'MatSeqAIJSetPreallocation', 'MatMPIAIJSetPreallocation', 'MatXAIJSetPreallocation', 'MatShellSetContext', 'MatShellSetOperation', 'MatCreateShell',
                  'MatSetOptionsPrefix', 'MatSeqSBAIJSetPreallocation'):
            eng.models[n] = self.record
        eng.models['MatShellGetContext'] = self.context
        self.made = {}

    def record(self, eng, e, d, obj, args, env):
        nm = d['name']
        vs = [eng.rv(a, env) for a in args]
        snap = None
        out = None
        if nm in ('VecCreateMPI', 'VecCreateGhost', 'VecCreateGhostBlock', 'VecCreate', 'MatCreate', 'MatCreateShell'):
            out = Ptr(Obj(nm, cls='handle', sym=True))
            eng.store(eng.st, vs[-1], out)
        if 'Ghost' in nm and nm != 'VecGhostUpdate':
            snap = eng.load(eng.st, eng.padd(vs[-2] if out is not None else vs[-1], self.ic, 'int *'), 'int')
        if 'Prealloc' in nm:
            snap = [(eng.load(eng.st, eng.padd(v, c, 'int *'), 'int') if isinstance(v, Ptr) and v.o is not None else None) for v in vs[1:] for c in self.rows(nm)]
        self.log.append((nm, vs, out if out is not None else (vs[0] if vs else None), snap, '%s:%s' % (eng.cur[-1].file if eng.cur else '?', e.get('l'))))
        return ZERO

    def rows(self, nm):
        return [self.L]

    def context(self, eng, e, d, obj, args, env):
        vs = [eng.rv(a, env) for a in args]
        eng.store(eng.st, vs[1], self.made['context'])
        return ZERO

    def of(self, *names, on=None):
        return [x for x in self.log if x[0] in names and (on is None or isinstance(x[2], Ptr) and x[2].o is on.o)]


def one(p, name, n=None, targs=None):
    fs = [f for f in p.fns.values() if p.decls[f.key]['name'] == name and (n is None or len(p.decls[f.key]['params']) == n)]
    if len(fs) != 1:
        raise AnalysisBroken('%d functions %s' % (len(fs), name))
    return fs[0]


def instance(p, name, nv):
    """the instance for nv variables of a function template"""
    fs = [f for f in p.fns.values() if p.decls[f.key]['name'] == name and ('<%d>' % nv in f.key or 'ILi%dE' % nv in f.key)]
    if len(fs) != 1:
        raise AnalysisBroken('%d instances of %s<%d>' % (len(fs), name, nv))
    return fs[0]


def sizes(ctx):
    ctx.rule('The requests made to PETSc by createSystemVector, createGhostedSystemVector, setupSystemMatrix and create_matrixfree_jacobian are recorded on every path: local and '
             'global sizes, block size, the list of ghosts at an arbitrary inter-process face, the order sizes-type-preallocation-setup, the operations and context of the matrix-free operator.')
    p, ops = ctx.prog, {}
    for nv in (1, 4, 0):
        for which in ('createSystemVector', 'createGhostedSystemVector'):
            f = one(p, which)
            nm = which + (', %d variables' % nv if nv else ', any number of variables')

            def body(eng):
                w = LinWorld(eng)
                k = const(nv) if nv else eng.atom('nvars', 1)
                eng.set_facts(w.facts + [eng.sub(k, ONE)])
                slot = Ptr(Obj('slot', cls='Vec'))
                ret = eng.invoke_values(f, None, [w.mesh, k, slot])
                v = eng.load(eng.st, slot, 'Vec')
                res = []
                ok = isinstance(v, Ptr) and sum(x[2].o is v.o for x in w.log if x[0].startswith('VecCreate')) == 1
                res.append(('created', f.where, [] if ok else [('the vector is not created exactly once',)], 'one vector is created'))
                if not ok:
                    return res
                ne, ng = eng.mul(w.nelem, k), eng.mul(w.get('gnelemglobal', []), k)
                c = w.of('VecCreateMPI', 'VecCreateGhost', 'VecCreateGhostBlock', 'VecCreate', on=v)[0]
                a, where = c[1], c[4]
                D = lambda key, got, want, what: res.append((key, where, eng.differences(got, want), what))
                off = {'VecCreateMPI': 1, 'VecCreateGhost': 1, 'VecCreateGhostBlock': 2}.get(c[0])
                if off is None:
                    s = w.of('VecSetSizes', on=v)
                    if len(s) != 1:
                        return res + [('sizes', f.where, [('VecSetSizes is called %d times' % len(s),)], 'the sizes are set')]
                    D('local', s[0][1][1], ne, 'local size is the number of unknowns of the own cells')
                    D('global', s[0][1][2], ng, 'global size is the number of unknowns of all cells')
                else:
                    D('local', a[off], ne, 'local size is the number of unknowns of the own cells')
                    D('global', a[off + 1], ng, 'global size is the number of unknowns of all cells')
                if which == 'createGhostedSystemVector':
                    gs = [x for x in w.of('VecCreateGhost', 'VecCreateGhostBlock', 'VecMPISetGhost', on=v)]
                    if len(gs) != 1:
                        return res + [('ghosts', f.where, [('ghosts are declared %d times' % len(gs),)], 'the ghosts are declared')]
                    g = gs[0]
                    if g[0] == 'VecCreateGhostBlock':
                        D('block', g[1][1], k, 'blocks of one cell')
                    else:
                        D('block', k, ONE, 'blocks of one cell')
                    D('nghost', g[1][-3] if g[0] != 'VecMPISetGhost' else g[1][1], w.nc, 'one ghost for each face between processes')
                    D('ghost', g[3], w.get('gconnface', [w.ic, const(3)]), 'the ghost of a face is the global index of the cell across it')
                res.append(('status', f.where, eng.differences(ret, ZERO), 'success is returned'))
                ctx.count('requests', len(w.log))
                return res

            def go():
                report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
            ctx.guard(nm, go)
    for nv in (1, 4):
        f = instance(p, 'setupSystemMatrix', nv)
        for nn in (3, 4):
            nm = 'setupSystemMatrix<%d>, cell with %d faces' % (nv, nn)

            def body(eng):
                w = LinWorld(eng, nn)
                w.rows = lambda n: [w.L] if 'BAIJ' in n else [eng.add(eng.mul(w.L, const(nv)), const(i)) for i in range(nv)]
                slot = Ptr(Obj('slot', cls='Mat'))
                ret = eng.invoke_values(f, None, [w.mesh, slot])
                return matrix(ctx, w, eng, f, slot, nv, nn, ret, False)

            def go():
                report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
            ctx.guard(nm, go)
        g = instance(p, 'create_matrixfree_jacobian', nv)
        nm = 'create_matrixfree_jacobian<%d>' % nv

        def body2(eng):
            w = LinWorld(eng)
            w.ops = ops
            cls = 'fvens::Spatial<double, %d>' % nv
            s = Ptr(Obj('space', cls=cls, sym=True))
            mf = [n for n, t in fields(p, cls) if 'UMesh' in t]
            if len(mf) != 1:
                raise AnalysisBroken('%s: no single mesh' % cls)
            eng.store(eng.st, eng.field(s, mf[0]), w.mesh)
            eng.gzero[('space',)] = s
            slot = Ptr(Obj('slot', cls='Mat'))
            ret = eng.invoke_values(g, None, [s, slot])
            w.space = s
            return matrix(ctx, w, eng, g, slot, nv, 3, ret, True)

        def go2():
            report(ctx, nm, g.where, vg.attempt(p, body2, seed=ctx.seed, nd=0))
        ctx.guard(nm, go2)
        # the operation hands the vectors on in order
        for kind in ('MULT',):
            op = ops.get((nv, kind))
            if op is None:
                continue
            fn = p.fns.get(op)
            if fn is None:
                ctx.ob(False, '%s:%d' % (kind, nv), g.where, 'operation %s of the matrix-free operator has no body' % kind)
                continue
            nm3 = 'operation %s of the matrix-free operator, %d variables' % (kind, nv)

            def body3(eng):
                w = LinWorld(eng)
                c = Ptr(Obj('context', cls='fvens::MatrixFreeSpatialJacobian<%d>' % nv, sym=True))
                w.made['context'] = c
                calls = []

                def apply(eng, e, d, obj, args, env):
                    if 'MatrixFreeSpatialJacobian' not in (d.get('cls') or ''):
                        return NotImplemented
                    calls.append((eng.lv_or_ptr(obj, env, e.get('arrow')), [eng.rv(a, env) for a in args]))
                    return eng.atom('status')
                eng.models['apply'] = apply
                A, x, y = (Ptr(Obj(n, cls='handle', sym=True)) for n in 'Axy')
                eng.invoke_values(fn, None, [A, x, y])
                ok = len(calls) == 1 and calls[0][0].o is c.o and calls[0][1][0].o is x.o and calls[0][1][1].o is y.o
                return [('mult', fn.where, [] if ok else [('it is not called with (x, y) on the context',)], 'the product is the one of the context object, from x into y')]

            def go3():
                report(ctx, nm3, fn.where, vg.attempt(p, body3, seed=ctx.seed, nd=0))
            ctx.guard(nm3, go3)



def fields(p, cls):
    from ..world import scalar_fields
    return scalar_fields(p, cls)


def matrix(ctx, w, eng, f, slot, nv, nn, ret, shell):
    A = eng.load(eng.st, slot, 'Mat')
    res = []
    ok = isinstance(A, Ptr) and sum(x[2].o is A.o for x in w.of('MatCreate', 'MatCreateShell')) == 1
    res.append(('created', f.where, [] if ok else [('the matrix is not created exactly once',)], 'one matrix is created'))
    if not ok:
        return res
    k = const(nv)
    ne, ng = eng.mul(w.nelem, k), eng.mul(w.get('gnelemglobal', []), k)
    seq = [x[0] for x in w.log if x[2].o is A.o]
    pos = lambda *n: [i for i, x in enumerate(seq) if x in n]
    s = w.of('MatSetSizes', on=A)
    if len(s) != 1:
        return res + [('sizes', f.where, [('MatSetSizes is called %d times' % len(s),)], 'the sizes are set')]
    for i, (want, what) in enumerate(((ne, 'local rows'), (ne, 'local columns'), (ng, 'global rows'), (ng, 'global columns'))):
        res.append((what.replace(' ', '-'), s[0][4], eng.differences(s[0][1][1 + i], want), what + ' are the unknowns of the ' + ('own' if i < 2 else 'global') + ' cells'))
    b = w.of('MatSetBlockSize', on=A)
    res.append(('block', b[0][4] if b else f.where, eng.differences(b[0][1][1], k) if len(b) == 1 else [('set %d times' % len(b),)], 'blocks of one cell'))
    t = w.of('MatSetType', on=A)
    names = [getattr(x[1][1], 'tag', None) for x in t]
    order = lambda a, b: all(i < j for i in a for j in b)
    if shell:
        res.append(('type', t[0][4] if t else f.where, [] if names and 'shell' in str(names[-1]) else [('type %s' % names,)], 'a matrix-free operator'))
        c = w.of('MatShellSetContext', on=A)
        okc = len(c) == 1 and isinstance(c[0][1][1], Ptr)
        if okc:
            o = c[0][1][1]
            okc = 'MatrixFreeSpatialJacobian<%d>' % nv in (o.o.cls or '')
            got = [eng.load(eng.st, eng.field(o, n), 'p *') for n, tt in fields(ctx.prog, 'fvens::MatrixFreeSpatialJacobian<%d>' % nv) if 'Spatial<' in tt]
            okc = okc and len(got) == 1 and isinstance(got[0], Ptr) and got[0].o is w.space.o
        res.append(('context', c[0][4] if c else f.where, [] if okc else [('the context is not a new operator of the given discretization',)], 'the operator works on the given discretization'))
        ops = {}
        for x in w.of('MatShellSetOperation', on=A):
            n, v = x[1][1], x[1][2]
            nme = int(n.c) if isinstance(n, Num) and n.c is not None else None
            ops[{3: 'MULT', 60: 'DESTROY'}.get(nme, nme)] = (v, x[4])
        for n in ('MULT', 'DESTROY'):
            v = ops.get(n)
            g = v and isinstance(v[0], Opaque) and str(v[0].tag).startswith('fn:') and str(v[0].tag)[3:]
            res.append(('operation:' + n, v[1] if v else f.where, [] if g else [('not set',)], 'operation %s is given' % n))
            if g:
                w.ops[nv, n] = g
        res.append(('order', f.where, [] if order(pos('MatCreate'), pos('MatSetSizes')) and order(pos('MatSetSizes', 'MatSetType', 'MatSetBlockSize'), pos('MatSetUp', 'MatShellSetContext', 'MatShellSetOperation')) and pos('MatSetUp') else [(' '.join(seq),)],
                    'sizes and type are set before the set-up'))
    else:
        pre = {n: w.of(n, on=A) for n in ('MatSeqBAIJSetPreallocation', 'MatMPIBAIJSetPreallocation', 'MatSeqAIJSetPreallocation', 'MatMPIAIJSetPreallocation')}
        for n, xs in pre.items():
            if len(xs) != 1:
                res.append((n, f.where, [('called %d times' % len(xs),)], 'room for the nonzeros in every format'))
                continue
            a, snap = xs[0][1], xs[0][3]
            blk = 'BAIJ' in n
            if blk:
                res.append((n + ':block', xs[0][4], eng.differences(a[1], k), 'blocks of one cell'))
            rows = w.rows(n)
            base = (2 if blk else 1) * len(rows)
            for i in range(len(rows)):
                got = snap[base + i]
                want = const((nn + 1) * (1 if blk else nv))
                res.append((n + ':row%d' % i, xs[0][4], eng.differences(got, want) if got is not None else [('no list is given',)], 'room for the cell and for each of its faces in its row'))
        pa = pos(*pre)
        res.append(('order', f.where, [] if pos('MatSetUp') and order(pos('MatCreate'), pos('MatSetType', 'MatSetSizes')) and order(pos('MatSetSizes', 'MatSetBlockSize', 'MatSetType', 'MatSetFromOptions'), pa) and
                    order(pa, pos('MatSetUp')) and order(pos('MatSetType'), pos('MatSetFromOptions')) and pos('MatSetFromOptions') else [(' '.join(seq),)],
                    'sizes and type precede the preallocation, which precedes the set-up'))
        opt = [x for x in w.of('MatSetOption', on=A) if isinstance(x[1][1], Num) and x[1][1].c == NEWNZ]
        okk = bool(opt) and isinstance(opt[-1][1][2], Num) and opt[-1][1][2].c == 0 and max(pos('MatSetOption')) > max(pa or [0])
        res.append(('newnonzero', opt[-1][4] if opt else f.where, [] if okk else [('not switched off after the preallocation',)], 'a nonzero beyond the estimate is accepted'))
    res.append(('status', f.where, eng.differences(ret, ZERO), 'success is returned'))
    ctx.count('requests', len(w.log))
    return res


"""M01-M03: connectivity of the mesh."""
from itertools import product
from .. import vg
from ..vg import const, Num, Ptr, Obj, Opaque, Fraction, ZERO, ONE, UNDEF, same_num, ite, band, bnot, P
from ..world import World, scalar_fields, MESH
from ..ast import AnalysisBroken, short, walk
from .spatial import method_of
from .geometry import report


class TopoWorld(World):
    """one arbitrary cell L, one arbitrary physical-boundary face and one arbitrary inter-process face (each with its own cell); integers that a loop over
    cells changes stand, at the start of the iteration of L, for whatever the cells before it left there"""
    def __init__(self, eng):
        super().__init__(eng, 'boundary')
        a, sub = eng.atom, eng.sub
        self.bf, self.ic, self.host, self.chost = self.iface, a('icface'), a('hostelem'), a('connelem')
        self.ninner = sub(self.ends['interior'], self.nb)
        self.cf = eng.add(self.starts['connectivity'], self.ic)
        self.facts = self.factlist + [self.ic, sub(sub(self.nc, self.ic), ONE), self.host, sub(sub(self.nelem, self.host), ONE), self.chost,
                                      sub(sub(self.nelem, self.chost), ONE)]
        eng.set_facts(self.facts)
        self.differ(self.L, self.host, self.chost)
        self.carried = []       # (name, where, start, end) of integers that loops over cells change
        self.total = self.ninner

    def differ(self, *xs):
        for i, x in enumerate(xs):
            for y in xs[:i]:
                self.eng.neqfacts |= {(x.v - y.v) % P, (y.v - x.v) % P}

    def instances(self, lo, hi):
        nb, e2, e3 = self.nb, self.starts['connectivity'], self.ends['connectivity']
        eq = lambda x, y: (x.v - y.v) % P == 0
        if self.near(hi, {'nelem': self.nelem}):
            self.cellloops += 1
            return 'cell', [self.L]
        for base, lo_, hi_, ix in ((ZERO, ZERO, nb, self.bf), (e2, e2, e3, self.cf), (ZERO, ZERO, self.nc, self.ic)):
            if self.near(hi, {'x': hi_}) and (eq(lo, lo_) or self.near(lo, {'x': lo_})):
                self.faceloops += 1
                return 'face', [ix]
        if eq(lo, e2):
            return 'face', [self.cf]
        return None

    def scalars(self, dry, st, d, p):
        out = {}
        for q, v, l in dry:
            k = q.key()
            if k == p.key() or k in out or q.off.c != 0 or (q.o.sym and q.o is not self.mesh.o):
                continue
            x, y = st.mem.get(k), d.mem.get(k)
            if isinstance(x, Num) and y is not None and not (isinstance(y, Num) and same_num(x, y)):
                out[k] = (q, x)
        return out

    def counted(self, s, st, env):
        """integers outside the loop that its body may change"""
        out = {}
        eng = self.eng
        for n in walk(s['body']):
            if n['k'] == 'Asg' or n['k'] == 'Un' and ('++' in n['op'] or '--' in n['op']):
                x = n['a'] if n['k'] == 'Asg' else n['e']
                while x['k'] == 'Cast':
                    x = x['e']
                q = None
                if x['k'] == 'Ref' and isinstance(env.get(x['id']), Ptr):
                    q = env[x['id']]
                elif x['k'] == 'Mem' and x['b']['k'] == 'This' and isinstance(env.get('this'), Ptr):
                    q = eng.field(env['this'], x['n'])
                if q is not None and isinstance(st.mem.get(q.key()), Num):
                    out[q.key()] = (q, st.mem[q.key()])
        return out

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        if len(idxs) != 1 or idxs[0] is not self.L:
            return super().iterate(eng, s, st, env, p, rng, idxs, down, where)
        keep, eng.stores = eng.stores, []
        d = super().iterate(eng, s, st.clone(), dict(env), p, rng, idxs, down, where)
        dry, eng.stores = eng.stores, keep
        sc = self.counted(s, st, env)
        sc.update(self.scalars(dry, st, d, p))
        sc.pop(p.key(), None)
        start = {}
        for k, (q, x) in sc.items():
            n = eng.atom('before:%s%d' % (eng.locname(q), len(self.carried)))
            start[k] = eng.add(x, n)
            st.mem[k] = start[k]
        st = super().iterate(eng, s, st, env, p, rng, idxs, down, where)
        for k, (q, x) in sc.items():
            self.carried.append((eng.locname(q), where, start[k], st.mem.get(k), eng.sub(start[k], x)))
            st.mem[k] = eng.add(x, self.total)
        return st

    def bind(self, field, i, j, v):
        """mesh.field(i,j) = v before the function runs"""
        eng = self.eng
        acc = self.method('fvens::amat::Array2d<int>', 'operator()', 2, lambda f: not eng.prog.decls[f.key].get('const'))
        q = eng.invoke_values(acc, eng.field(self.mesh, field), [i, j])
        eng.store(eng.st, q, v)

    def nnodes(self, c, n):
        self.bind_get('gnnode', [c], const(n))
        self.bind_get('gnfael', [c], const(n))


def faces(ctx):
    ctx.rule('compute_faceConnectivity is reduced to one arbitrary cell, one arbitrary physical-boundary face and one arbitrary face between processes; for cells of 3 and '
             '4 nodes every face of the cell is, independently, one whose neighbour has a larger index, a smaller index or is no cell.  Positions given out for interior faces start '
             'where the earlier cells stopped and advance by the number of faces counted, which is also what the counting pass adds; each entry of the face structure and of the '
             'inverse maps is compared with the definition.')
    p = ctx.prog
    f = method_of(p, MESH, 'compute_faceConnectivity', 0)
    for nn in (3, 4):
        for pat in product('lsg', repeat=nn):
            nm = 'cell with %d nodes, neighbours %s' % (nn, ''.join(pat))

            def body(eng):
                w = TopoWorld(eng)
                a, add, sub = eng.atom, eng.add, eng.sub
                he, ce = 1, nn - 1
                for c in (w.L, w.host, w.chost):
                    w.nnodes(c, nn)
                # neighbours of the cell
                nbr, facts = [], list(w.facts)
                for k, x in enumerate(pat):
                    if x == 'g':
                        nbr.append(add(w.nelem, a('ghost%d' % k)) if k % 2 else const(-1))
                        facts += [a('ghost%d' % k)]
                        if k % 2:
                            w.nnodes(nbr[k], 3)
                    else:
                        j = a('nbr%d' % k)
                        nbr.append(j)
                        facts += [j, sub(sub(w.nelem, j), ONE)] + ([sub(sub(j, w.L), ONE)] if x == 'l' else [sub(sub(w.L, j), ONE)])
                eng.set_facts(facts)
                w.differ(w.L, w.host, w.chost, *[x for x, t in zip(nbr, pat) if t != 'g'])
                for k in range(nn):
                    w.bind('esuel', w.L, const(k), nbr[k])
                node = [w.get('ginpoel', [w.L, const(k)]) for k in range(nn)]
                match = {}
                for k, x in enumerate(pat):
                    if x == 'l':
                        mj = 3 if k % 2 else 4
                        w.nnodes(nbr[k], mj)
                        match[k] = (k + 2) % mj
                        for j in range(mj):
                            w.bind('inpoel', nbr[k], const(j), node[(k + 1) % nn] if j == match[k] else a('othernode%d.%d' % (k, j)))
                        w.differ(node[(k + 1) % nn], *[a('othernode%d.%d' % (k, j)) for j in range(mj) if j != match[k]])
                w.differ(*node)

                def hosts(eng, e, d, obj, args, env):
                    o = Ptr(Obj('hosts', cls=d['ret'], sym=True))
                    q = eng.padd(eng.field(o, '_a'), w.bf, 'double *')
                    eng.store(eng.st, eng.field(q, 'first'), w.host)
                    eng.store(eng.st, eng.field(q, 'second'), const(he))
                    eng.store(eng.st, eng.field(o, '_size'), w.nb)
                    return o
                eng.models['compute_phyBFaceNeighboringElements'] = hosts
                eng.store(eng.st, eng.field(w.mesh, 'nbtag'), const(2))
                acc = w.method('fvens::amat::Array2d<int>', 'operator()', 2, lambda f: not p.decls[f.key].get('const'))
                bfv = [eng.load(eng.st, eng.invoke_values(acc, eng.field(w.mesh, 'bface'), [w.bf, const(k)]), 'int') for k in range(4)]
                for n in ('ninface', 'naface', 'phyBFaceStart', 'phyBFaceEnd', 'subDomFaceStart', 'subDomFaceEnd', 'connBFaceStart', 'connBFaceEnd', 'domFaceStart', 'domFaceEnd'):
                    eng.store(eng.st, eng.field(w.mesh, n), UNDEF)
                w.bind('connface', w.ic, ZERO, w.chost)
                w.bind('connface', w.ic, ONE, const(ce))
                eng.invoke_values(f, w.mesh, [])
                res = []
                D = lambda key, got, want, what: res.append((key, f.where, eng.differences(got, want), what))
                n = sum(1 for x in pat if x == 'l')
                first = None
                for nme, where, s0, s1, s in w.carried:
                    res.append(('count:' + nme, where, eng.differences(sub(s1, s0), const(n)), 'each interior face is counted once, at its cell of smaller index'))
                if not w.carried and n:
                    res.append(('count', f.where, [('no position is given out',)], 'interior faces get positions'))
                e1, e2, e3 = w.nb, w.starts['connectivity'], w.ends['connectivity']
                for acc_, want in (('gnaface', e3), ('gninface', w.ninner), ('gPhyBFaceStart', ZERO), ('gPhyBFaceEnd', e1), ('gSubDomFaceStart', e1), ('gSubDomFaceEnd', e2),
                                   ('gConnBFaceStart', e2), ('gConnBFaceEnd', e3), ('gDomFaceStart', e1), ('gDomFaceEnd', e3), ('gFaceStart', ZERO), ('gFaceEnd', e3)):
                    D(acc_, w.get(acc_, []), want, acc_ + ' is the boundary of its range')
                G = lambda fc, i: w.get('gintfac', [fc, const(i)])
                # physical-boundary face
                gh = add(add(w.nelem, w.nc), w.bf)
                D('boundary:left', G(w.bf, 0), w.host, 'left cell of a boundary face is its cell')
                D('boundary:right', G(w.bf, 1), gh, 'right cell of a boundary face is its own ghost')
                for k in range(2):
                    D('boundary:node%d' % k, G(w.bf, 2 + k), bfv[k], 'nodes of a boundary face in the stored order')
                    D('boundary:tag%d' % k, w.get('gbtags', [w.bf, const(k)]), bfv[2 + k], 'markers of a boundary face')
                D('boundary:esuel', w.get('gesuel', [w.host, const(he)]), gh, 'neighbour of the cell across a boundary face')
                D('boundary:elemface', w.get('gelemface', [w.host, const(he)]), w.bf, 'face of the cell at the boundary')
                # face between processes
                gh = add(w.nelem, w.ic)
                cn = [w.get('ginpoel', [w.chost, const(k)]) for k in range(nn)]
                D('conn:left', G(w.cf, 0), w.chost, 'left cell of a face between processes is the own cell')
                D('conn:right', G(w.cf, 1), gh, 'right cell of a face between processes is its own ghost')
                for k in range(2):
                    D('conn:node%d' % k, G(w.cf, 2 + k), cn[(ce + k) % nn], 'nodes of a face between processes in the order of the own cell')
                D('conn:esuel', w.get('gesuel', [w.chost, const(ce)]), gh, 'neighbour of the cell across a face between processes')
                D('conn:elemface', w.get('gelemface', [w.chost, const(ce)]), w.cf, 'face of the cell between processes')
                # interior faces
                start = add(w.nb, w.carried[-1][4]) if w.carried else None
                if n and start is not None:
                    F = start
                    for k, x in enumerate(pat):
                        if x != 'l':
                            continue
                        D('interior%d:left' % k, G(F, 0), w.L, 'left cell of an interior face is the one of smaller index')
                        D('interior%d:right' % k, G(F, 1), nbr[k], 'right cell of an interior face is the neighbour')
                        D('interior%d:node0' % k, G(F, 2), node[k], 'first node of an interior face')
                        D('interior%d:node1' % k, G(F, 3), node[(k + 1) % nn], 'second node of an interior face')
                        D('interior%d:own' % k, w.get('gelemface', [w.L, const(k)]), F, 'face of the cell of smaller index')
                        D('interior%d:other' % k, w.get('gelemface', [nbr[k], const(match[k])]), F, 'the same face seen from the neighbour')
                        F = add(F, ONE)
                ctx.count('patterns of a cell')
                return res

            def go():
                report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
            ctx.guard(nm, go)


def sets(ctx):
    ctx.rule('getFaceEIndex is evaluated for every face of a cell of 3 or 4 distinct nodes, both orders of the face, faces that touch the cell in one node or none, for boundary and '
             'interior faces.  The neighbour search is reduced to two arbitrary cells whose shared nodes are varied (a face, one node, none): they become neighbours, both ways and at the right faces, '
             'exactly when they share a face.  The search for the cell behind a boundary face returns the one cell around both nodes and the face\'s position in it, and refuses two such cells.')
    p = ctx.prog
    # ---- index of a face in its cell
    f = method_of(p, MESH, 'getFaceEIndex', 3)
    for nn in (3, 4):
        for bnd in (True, False):
            for k in list(range(nn)) + ['one node', 'none', 'diagonal']:
                if k == 'diagonal' and nn == 3:
                    continue
                for flip in (False, True):
                    nm = 'index of %s of a cell with %d nodes%s, %s' % ('face %d' % k if isinstance(k, int) else 'a face (%s shared)' % k, nn, ', reversed' if flip else '', 'boundary' if bnd else 'interior')

                    def body(eng):
                        w = TopoWorld(eng)
                        w.nnodes(w.L, nn)
                        ns = [w.get('ginpoel', [w.L, const(i)]) for i in range(nn)]
                        x, y = eng.atom('othernode0'), eng.atom('othernode1')
                        w.differ(x, y, *ns)
                        pts = [ns[k], ns[(k + 1) % nn]] if isinstance(k, int) else [ns[1], x] if k == 'one node' else [ns[0], ns[2]] if k == 'diagonal' else [x, y]
                        for i in range(2):
                            if bnd:
                                w.bind('bface', w.bf, const(i), pts[1 - i if flip else i])
                            else:
                                w.bind('intfac', w.cf, const(2 + i), pts[1 - i if flip else i])
                        got = eng.invoke_values(f, w.mesh, [bnd, w.bf if bnd else w.cf, w.L])
                        ctx.count('faces located')
                        if isinstance(k, int):
                            return [('index', f.where, eng.differences(got, const(k)), 'the position of the face in the cell is found')]
                        return [('absent', f.where, eng.differences(ite(eng.cmp('<', got, ZERO), ONE, ZERO), ONE), 'a face that is not in the cell is not found')]

                    def go():
                        report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
                    ctx.guard(nm, go)
    # ---- neighbours
    g = method_of(p, MESH, 'compute_elementsSurroundingElements', 0)
    for n1, n2 in ((3, 3), (3, 4), (4, 3), (4, 4)):
        cases = [(i, j) for i in range(n1) for j in range(n2)]
        for (i, j) in cases:
            for shared in (2, 1, 0):
                if shared < 2 and (i, j) not in ((0, 0), (n1 - 1, n2 - 1), (1, n2 - 1)):
                    continue
                nm = 'cells with %d and %d nodes, %s' % (n1, n2, 'faces %d and %d shared' % (i, j) if shared == 2 else 'node %d = node %d shared' % (i, j) if shared else 'nothing shared (%d %d)' % (i, j))

                def body(eng):
                    w = PairCells(eng, n1, n2)
                    A, B = w.L, w.N
                    na = [w.get('ginpoel', [A, const(k)]) for k in range(n1)]
                    nb = [eng.atom('nodeB%d' % k) for k in range(n2)]
                    if shared >= 1:
                        nb[j] = na[(i + 1) % n1] if shared == 2 else na[i]
                    if shared == 2:
                        nb[(j + 1) % n2] = na[i]
                    w.differ(*na, *[x for x in nb if all(x is not y for y in na)])
                    for k in range(n2):
                        w.bind('inpoel', B, const(k), nb[k])
                    eng.invoke_values(g, w.mesh, [])
                    ctx.count('pairs of cells')
                    res = []
                    for c, o, n, k0 in ((A, B, n1, i), (B, A, n2, j)):
                        for k in range(n):
                            got = w.get('gesuel', [c, const(k)])
                            if shared == 2 and k == k0:
                                res.append(('shared%d' % k, g.where, eng.differences(got, o), 'cells that share a face are neighbours there'))
                            else:
                                res.append(('free%d' % k, g.where, eng.differences(got, const(-1)), 'a face that is not shared has no neighbour'))
                    return res

                def go():
                    report(ctx, nm, g.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
                ctx.guard(nm, go)


class PairCells(TopoWorld):
    """two cells; the lists of cells around their nodes contain both"""
    def __init__(self, eng, n1, n2):
        super().__init__(eng)
        a, sub = eng.atom, eng.sub
        self.N = a('nelem2')
        self.facts += [self.N, sub(sub(self.nelem, self.N), ONE), sub(sub(self.N, self.L), ONE)]
        eng.set_facts(self.facts)
        self.differ(self.L, self.N)
        self.nnodes(self.L, n1)
        self.nnodes(self.N, n2)
        eng.store(eng.st, eng.field(self.mesh, 'maxnfael'), const(4))
        eng.store(eng.st, eng.field(self.mesh, 'maxnnode'), const(4))
        self.pos = [a('position0'), a('position1')]
        self.differ(*self.pos)
        for q, c in zip(self.pos, (self.L, self.N)):
            self.bind('esup', q, ZERO, c)

    def instances(self, lo, hi):
        if self.near(hi, {'nelem': self.nelem}):
            return 'cell', [self.L, self.N]
        if self.near(hi, {'npoin': self.eng.load(self.eng.st, self.eng.field(self.mesh, 'npoin'), 'int')}):
            return 'point', []
        return 'around', self.pos

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        if idxs is self.pos:
            rng = (idxs[0], idxs[0])
            for ix in idxs:
                st = World.iterate(self, eng, s, st, env, p, (ix, eng.add(ix, ONE)), [ix], down, where)
            return st
        return World.iterate(self, eng, s, st, env, p, rng, idxs, down, where)


def m_sort(eng, e, d, obj, args, env):
    return Opaque('void')


def span(eng, a, b):
    n = eng.sub(b.off, a.off)
    if a.o is not b.o or a.pre != b.pre or n.c is None:
        raise vg.EngineLimit('range of unknown length')
    return int(n.c)


def m_intersect(eng, e, d, obj, args, env):
    v = [eng.rv(x, env) for x in args]
    A = [eng.load(eng.st, eng.padd(v[0], const(i), 'int *'), 'int') for i in range(span(eng, v[0], v[1]))]
    B = [eng.load(eng.st, eng.padd(v[2], const(i), 'int *'), 'int') for i in range(span(eng, v[2], v[3]))]
    n, back = 0, vg.appends(eng, v[4])
    for x in A:
        hit = [eng.cmp('==', x, y) for y in B]
        if any(h is True for h in hit) and back is not None:
            vg.appended(eng, back, x)
        elif any(h is True for h in hit):
            eng.store(eng.st, eng.padd(v[4], const(n), 'int *'), x)
            n += 1
        elif not all(h is False for h in hit):
            raise vg.EngineLimit('intersection of sets whose elements may coincide')
    return v[4] if back is not None else eng.padd(v[4], const(n), 'int *')


def hosts(ctx):
    p = ctx.prog
    f = method_of(p, MESH, 'compute_phyBFaceNeighboringElements', 0)
    for nn in (3, 4):
        for k in range(nn):
            for lay, (l0, l1) in {'one': ('E', 'E'), 'first': ('EXY', 'ZE'), 'last': ('XYE', 'ZWE'), 'mixed': ('XEY', 'ZWEV'), 'two': ('XE', 'XEZ')}.items():
                nm = 'cell behind boundary face: face %d of a cell with %d nodes, cells around its nodes %s and %s' % (k, nn, l0, l1)

                def body(eng):
                    w = TopoWorld(eng)
                    cell = {'E': w.host}
                    for c in 'XYZWV':
                        cell[c] = eng.atom('cell' + c)
                    w.differ(*cell.values())
                    w.nnodes(w.host, nn)
                    w.nnodes(cell['X'], nn)
                    ns = [w.get('ginpoel', [w.host, const(i)]) for i in range(nn)]
                    w.differ(*ns)
                    pts = [ns[k], ns[(k + 1) % nn]]
                    w.differ(pts[0], eng.add(pts[0], ONE), pts[1], eng.add(pts[1], ONE))
                    for q, l, base in ((pts[0], l0, 100), (pts[1], l1, 200)):
                        w.bind('esup_p', q, ZERO, const(base))
                        w.bind('esup_p', eng.add(q, ONE), ZERO, const(base + len(l)))
                        for i, c in enumerate(l):
                            w.bind('esup', const(base + i), ZERO, cell[c])
                    for i in range(2):
                        w.bind('bface', w.bf, const(i), pts[i])
                    eng.models.update({'sort': m_sort, 'stable_sort': m_sort, 'set_intersection': m_intersect})
                    out = eng.invoke_values(f, w.mesh, [])
                    ctx.count('boundary faces hosted')
                    res = []
                    if lay == 'two':
                        dead = eng.st.dead
                        return [('refused', f.where, [] if dead is True else [('the function returns',)], 'a face with two cells behind it is refused')]
                    if not isinstance(out, Ptr):
                        return [('accepted', f.where, [('the function does not return',)], 'a face with exactly one cell behind it is accepted')]
                    q = eng.padd(eng.field(out, '_a'), w.bf, 'double *')
                    res.append(('cell', f.where, eng.differences(eng.load(eng.st, eng.field(q, 'first'), 'int'), w.host), 'the one cell around all nodes of the face'))
                    res.append(('face', f.where, eng.differences(eng.load(eng.st, eng.field(q, 'second'), 'int'), const(k)), 'the position of the face in that cell'))
                    return res

                def go():
                    report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
                ctx.guard(nm, go)


def neighbours(ctx):
    sets(ctx)
    hosts(ctx)

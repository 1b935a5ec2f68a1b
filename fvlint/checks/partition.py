"""M04: distribution of the mesh over processes."""
from itertools import product
from .. import vg
from ..vg import const, Num, Ptr, Obj, Opaque, ZERO, ONE, UNDEF
from ..world import World, MESH, P, scalar_fields
from ..ast import AnalysisBroken, walk
from .spatial import method_of, one_field
from .geometry import report
from .topology import TopoWorld

PART = 'fvens::ReplicatedGlobalMeshPartitioner'


class PartWorld(TopoWorld):
    """one arbitrary cell and one arbitrary boundary face of the global mesh; integers that loops over them change stand for what the earlier ones left"""
    def __init__(self, eng, nn, pat, owned, bowned):
        super().__init__(eng)
        a, sub, add = eng.atom, eng.sub, eng.add
        self.nn, self.pat, self.owned, self.bowned = nn, pat, owned, bowned
        self.G = self.L
        self.rank, self.nranks = a('rank'), a('nranks')
        self.slot, self.nlocal = a('cellsbefore'), a('nlocal')
        self.bslot, self.nblocal = a('bfacesbefore'), a('nblocal')
        self.nuniq = a('npoints')
        self.nd = [self.get('ginpoel', [self.G, const(k)]) for k in range(nn)]
        self.pos = [a('point%d' % k) for k in range(nn)]
        self.hostnodes = [self.get('gbface', [self.bf, const(k)]) for k in range(2)]
        self.bpos = [a('bpoint%d' % k) for k in range(2)]
        self.npoin = eng.load(eng.st, eng.field(self.mesh, 'npoin'), 'int')
        known = [(x, y) for x, y in zip(self.nd, self.pos)] if owned else []
        if bowned:
            known += list(zip(self.hostnodes, self.bpos))
        self.points = known
        self.facts = []
        eng.set_facts([])
        self.differ(*self.nd, *self.hostnodes)
        self.differ(*[y for x, y in known])
        for x, v in (('maxnnode', 4), ('maxnfael', 4), ('nnofa', 2), ('nbtag', 2), ('ndtag', 2)):
            eng.store(eng.st, eng.field(self.mesh, x), const(v))
        eng.store(eng.st, eng.field(eng.field(self.mesh, 'vol_regions'), 'ncols'), const(2))
        self.nnodes(self.G, nn)
        self.bind('intfac', self.bf, ZERO, self.host)
        self.step, self.totals = [], []
        self.order = []
        eng.models['get_mpi_rank'] = lambda *x: self.rank
        eng.models['get_mpi_size'] = lambda *x: self.nranks

        def comm(eng, e, d, obj, args, env):
            eng.store(eng.st, eng.rv(args[1], env), self.rank if d['name'] == 'MPI_Comm_rank' else self.nranks)
            return ZERO
        eng.models['MPI_Comm_rank'] = eng.models['MPI_Comm_size'] = comm
        eng.models['sort'] = lambda *x: Opaque('void')
        eng.models['unique'] = self.m_unique
        eng.models['erase'] = self.m_erase
        eng.models['compute_elementsSurroundingPoints'] = self.surround('points')
        eng.models['compute_elementsSurroundingElements'] = self.surround('cells')
        # the partitioner
        self.this = Ptr(Obj('partitioner', cls=PART, sym=True))
        gmf = [n for n, t in scalar_fields(eng.prog, PART) if 'UMesh' in t]
        eng.store(eng.st, eng.field(self.this, gmf[0]), self.mesh)
        self.dist = eng.field(self.this, 'elemdist')
        eng.store(eng.st, eng.field(self.dist, '_size'), self.nelem)
        self.other = a('otherrank')
        self.differ(self.rank, self.other)
        self.setdist(self.G, self.rank if owned else self.other)
        self.setdist(self.host, self.rank if bowned else self.other)
        # neighbours of the cell in the global mesh
        self.nbr, self.nbrank = {}, {}
        for k, x in enumerate(pat):
            if x in 'lc':
                self.nbr[k], self.nbrank[k] = a('nbr%d' % k), (self.rank if x == 'l' else a('nbrank%d' % k))
                self.facts += [self.nbr[k], sub(sub(self.nelem, self.nbr[k]), ONE)]
                if x == 'c':
                    self.facts += [self.nbrank[k]]
                    self.differ(self.rank, self.nbrank[k])
            else:
                gh = a('ghost%d' % k)
                self.facts += [gh]
                self.nbr[k] = add(self.nelem, gh)
            self.bind('esuel', self.G, const(k), self.nbr[k])
        eng.set_facts(self.facts)
        self.differ(self.G, self.host, *[self.nbr[k] for k, x in enumerate(pat) if x in 'lc'])
        for k, x in enumerate(pat):
            if x in 'lc':
                self.setdist(self.nbr[k], self.nbrank[k])
        self.face = [self.get('gelemface', [self.G, const(k)]) for k in range(nn)]

    def setdist(self, c, r):
        eng = self.eng
        eng.store(eng.st, eng.padd(eng.field(self.dist, '_a'), c, 'int *'), r)

    # ---- models
    def m_unique(self, eng, e, d, obj, args, env):
        v = [eng.rv(x, env) for x in args]
        b = v[0]
        have = [x for k, x in eng.st.mem.items() if k[0] is b.o and k[1] == b.pre and isinstance(x, Num)]
        if self.owned:
            self.step.append(('points', '%s:%s' % (eng.cur[-1].file, e.get('l')), [] if all(any((x.v - y.v) % P == 0 for y in have) for x in self.nd) else [('a node of the cell is missing',)],
                              'the nodes of every own cell are collected'))
        for k in [k for k in eng.st.mem if k[0] is b.o and k[1] == b.pre and isinstance(eng.st.mem[k], Num)]:
            del eng.st.mem[k]
        for x, y in self.points:
            eng.st.mem[eng.padd(b, y, 'int *').key()] = x
        return eng.padd(b, self.nuniq, 'int *')

    def m_erase(self, eng, e, d, obj, args, env):
        if not d.get('cls', '').startswith('std::vector<'):
            return NotImplemented
        p = eng.lv_or_ptr(obj, env, e.get('arrow'))
        it = eng.rv(args[0], env)
        eng.store(eng.st, eng.field(p, '_size'), it.off)
        return it

    def surround(self, what):
        def g(eng, e, d, obj, args, env):
            p = eng.lv_or_ptr(obj, env, e.get('arrow'))
            self.order.append(what)
            if what == 'cells':
                if self.owned:
                    L = Ptr(p.o, p.pre[:-1] if p.pre and p.pre[-1] == 'mesh' else p.pre)
                    for n in ('gnfael', 'gnnode'):
                        keep, self.mesh = self.mesh, L
                        v = self.get(n, [self.slot])
                        self.mesh = keep
                        self.step.append((n, '%s:%s' % (eng.cur[-1].file, e.get('l')), eng.differences(v, const(self.nn)), 'numbers of nodes and faces of an own cell'))
                if 'points' not in self.order:
                    self.step.append(('order', '%s:%s' % (eng.cur[-1].file, e.get('l')), [('too early',)], 'cells around points are found before cells around cells'))
                q = eng.field(p, 'esuel')
                o = Obj('localesuel', cls='int', sym=True)
                for n, v in (('elems', Ptr(o)), ('nrows', self.nlocal), ('ncols', const(4)), ('size', eng.mul(const(4), self.nlocal))):
                    eng.store(eng.st, eng.field(q, n), v)
                for k, x in enumerate(self.pat):
                    v = eng.atom('localnbr%d' % k) if x == 'l' else const(-1)
                    if x == 'l':
                        self.facts += [v]
                        eng.set_facts(self.facts)
                    eng.store(eng.st, eng.padd(Ptr(o), eng.add(eng.mul(self.slot, const(4)), const(k)), 'int *'), v)
            return Opaque('void')
        return g

    # ---- loops
    def instances(self, lo, hi):
        eq = lambda x, y: (x.v - y.v) % P == 0
        if not eq(lo, ZERO):
            return None
        for n, ix, kind in ((self.nelem, [self.G], 'cell'), (self.nlocal, [self.slot] if self.owned else [], 'local'), (self.nb, [self.bf], 'bface'),
                            (self.nblocal, [self.bslot] if self.bowned else [], 'lbface'), (self.nuniq, [y for x, y in self.points], 'point')):
            if eq(hi, n):
                return kind, ix
        return None

    def loop(self, eng, s, st, env):
        if s['k'] == 'While' or s['k'] == 'For' and s.get('c') is not None:
            r = self.merging(eng, s, st, env)
            if r is not None:
                return r
        return super().loop(eng, s, st, env)

    def wants(self, *a):
        return super().wants(*a)

    def merging(self, eng, s, st, env):
        """walk through two sorted lists at once: visited where they meet"""
        c = s['c']
        while c['k'] in ('Cast', 'Paren'):
            c = c['e']
        if c['k'] != 'Bin' or c['op'] != '&&':
            return None
        eng.st = st
        hd = []
        for x in (c['a'], c['b']):
            iv, op, bound = self.induction(x, env, st)
            hd.append((env[iv['id']], eng.rv(bound, env)))
        eq = lambda x, y: isinstance(x, Num) and isinstance(y, Num) and (x.v - y.v) % P == 0
        gl = [p for p, b in hd if eq(b, self.npoin)]
        lc = [p for p, b in hd if eq(b, self.nuniq)]
        if len(gl) != 1 or len(lc) != 1 or not eq(st.mem.get(gl[0].key()), ZERO) or not eq(st.mem.get(lc[0].key()), ZERO):
            return None
        where = '%s:%s' % (eng.cur[-1].file, s.get('l'))
        for x, y in self.points:
            st.mem[gl[0].key()], st.mem[lc[0].key()] = x, y
            st = self.once(eng, s, st, env)
            eng.st = st
            d = [eng.sub(st.mem[p.key()], v) for p, v in ((gl[0], x), (lc[0], y))]
            self.step.append(('merge', where, [] if all(z.c == 1 for z in d) else [('not both advance by one',)], 'both lists advance where they meet'))
        g, l, v = eng.atom('g'), eng.atom('l'), eng.atom('later')
        self.differ(g, v)
        t = st.clone()
        for k in list(t.mem):
            if k[0].__class__ is Obj and isinstance(t.mem[k], Num) and any((t.mem[k].v - x.v) % P == 0 for x, y in self.points) and k[1] and k[1][-1] == '_a' and any((Num_off(k) - y.v) % P == 0 for x, y in self.points):
                t.mem[(k[0], k[1], l.v)] = v
        t.mem[gl[0].key()], t.mem[lc[0].key()] = g, l
        if self.points:
            t = self.once(eng, s, t, env)
            d = [eng.sub(t.mem[p.key()], z) for p, z in ((gl[0], g), (lc[0], l))]
            self.step.append(('merge', where, [] if d[0].c == 1 and d[1].c == 0 else [('the wrong list advances',)], 'only the global list advances where they differ'))
        eng.st = st
        st.mem[gl[0].key()], st.mem[lc[0].key()] = eng.atom('gend'), eng.atom('lend')
        return st

    def once(self, eng, s, st, env):
        st = eng.exec(s['body'], st, env)
        if st.brk is not False or st.ret is not False:
            raise AnalysisBroken('a walk through two lists is left early')
        st.cont = False
        if s.get('inc') is not None:
            eng.st = st
            eng.rv(s['inc'], env)
            st = eng.st
        return st

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        for ix, n0, tot in ((self.G, self.slot, self.nlocal), (self.bf, self.bslot, self.nblocal), (self.slot, None, None), (self.bslot, None, None)):
            if len(idxs) == 1 and idxs[0] is ix:
                return self.carry(eng, s, st, env, p, rng, idxs, down, where, n0, tot, 'cell' if ix is self.G else 'bface' if ix is self.bf else 'local')
        if not idxs:
            return self.skipped(eng, s, st, env, p, rng, where)
        return self.each(eng, s, st, env, p, idxs, down, where)

    def each(self, eng, s, st, env, p, idxs, down, where):
        for ix in idxs:
            st = World.iterate(self, eng, s, st, env, p, (ix, eng.add(ix, ONE)), [ix], down, where)
        return st

    def skipped(self, eng, s, st, env, p, rng, where):
        """no own cell is looked at"""
        return st

    def counted(self, s, st, env):
        out = super().counted(s, st, env)
        for n in walk(s['body']):
            v = self.appends(n)
            if v in env and isinstance(env[v], Ptr):
                q = self.eng.field(env[v], '_size')
                if isinstance(st.mem.get(q.key()), Num):
                    out[q.key()] = (q, st.mem[q.key()])
            if n['k'] == 'Asg' or n['k'] == 'Un' and ('++' in n['op'] or '--' in n['op']):
                x = n['a'] if n['k'] == 'Asg' else n['e']
                while x['k'] == 'Cast':
                    x = x['e']
                if x['k'] == 'Mem' and x['b']['k'] == 'Ref' and isinstance(env.get(x['b']['id']), Ptr) and not x.get('arrow'):
                    q = self.eng.field(env[x['b']['id']], x['n'])
                    if isinstance(st.mem.get(q.key()), Num):
                        out[q.key()] = (q, st.mem[q.key()])
        return out

    def carry(self, eng, s, st, env, p, rng, idxs, down, where, n0, tot, kind):
        for n in walk(s['body']):
            v = self.appends(n)
            if v in env and isinstance(env[v], Ptr):
                st.mem.setdefault(eng.field(env[v], '_size').key(), ZERO)
        keep, eng.stores = eng.stores, []
        steps, self.step = self.step, []
        try:
            d = self.each(eng, s, st.clone(), dict(env), p, idxs, down, where)
        except AnalysisBroken:
            self.step = steps + self.step
            raise
        dry, eng.stores, self.step = eng.stores, keep, steps
        sc = self.counted(s, st, env)
        sc.update(self.scalars(dry, st, d, p))
        sc.pop(p.key(), None)
        extra = s.get('__extra') or {}
        sc = {k: v for k, v in sc.items() if k not in extra}
        start, by = {}, {}
        for k, (q, x) in sc.items():
            by[k] = eng.sub(d.mem[k], x)
            if not isinstance(by[k], Num):
                self.step.append(('count', where, [('it depends on other data',)], 'what a cell or face adds to %s is known from its neighbours and owners' % eng.locname(q)))
                raise AnalysisBroken('%s grows by an amount that depends on data at %s' % (eng.locname(q), where))
            n = n0 if n0 is not None else eng.atom('before:%x' % by[k].v)
            start[k] = eng.add(x, n)
            st.mem[k] = start[k]
        st = self.each(eng, s, st, env, p, idxs, down, where)
        for k, (q, x) in sc.items():
            self.carried.append((kind, eng.locname(q), where, start[k], st.mem.get(k)))
            t = tot
            if t is None:
                t = eng.atom('total:%x' % by[k].v)
                if all(t.v != x.v for x in self.totals):
                    self.totals.append(t)
                    self.facts += [eng.sub(t, ONE)]
                    eng.set_facts(self.facts)
            st.mem[k] = eng.add(x, t)
        return st


def Num_off(k):
    return k[2]


def partition(ctx):
    ctx.rule('restrictMeshToPartitions is reduced to one arbitrary cell and one arbitrary boundary face of the global mesh, each owned or not by the process; every face of the cell is, independently, shared with '
             'another own cell, with a cell of another process, or on the boundary.  Counters are shown to count the own cells, own boundary faces and shared faces; what is stored at their positions is '
             'compared with the global mesh.')
    p = ctx.prog
    f = method_of(p, PART, 'restrictMeshToPartitions', 0)
    for nn in (3, 4):
        for pat in product('lcb', repeat=nn):
            if nn == 4 and not ctx.thorough and pat.count('l') not in (0, 2):
                continue
            for owned, bowned in ((True, True), (True, False), (False, True), (False, False)):
                if (owned, bowned) != (True, True) and pat[:2] != ('l', 'c'):
                    continue
                nm = 'cell with %d nodes, faces %s, %s cell, %s boundary face' % (nn, ''.join(pat), 'own' if owned else 'other', 'own' if bowned else 'other')

                def body(eng):
                    w = PartWorld(eng, nn, pat, owned, bowned)
                    gm = w.mesh
                    G = lambda n, *a: w.get(n, [x if isinstance(x, Num) else const(x) for x in a])
                    want = {n: G(n) for n in ('gnelem', 'gnpoin', 'gnbtag', 'gndtag')}
                    wantc = [[G('gcoords', x, i) for i in range(2)] for x, y in w.points]
                    wantr = [eng.load(eng.st, eng.invoke_values(w.method('fvens::amat::Array2d<int>', 'operator()', 2, lambda g: not p.decls[g.key].get('const')), eng.field(gm, 'vol_regions'), [w.G, const(j)]), 'int') for j in range(2)]
                    wantb = [G('gbface', w.bf, 2 + j) for j in range(2)]
                    try:
                        out = eng.invoke_values(f, w.this, [])
                    except AnalysisBroken:
                        if any(x[2] for x in w.step):
                            return w.step
                        raise
                    res = list(w.step) + [('throws', x[2], [('it throws',)], 'the mesh is restricted without error') for x in eng.throws]
                    D = lambda key, got, want, what: res.append((key, f.where, eng.differences(got, want), what))
                    if not isinstance(out, Ptr) or eng.st.dead is not False:
                        return res + [('returns', f.where, [('it does not return',)], 'the mesh is restricted')]
                    w.mesh = out
                    for kind, n, where, s0, s1 in w.carried:
                        d = eng.sub(s1, s0)
                        if kind == 'cell':
                            res.append(('count:' + n, where, eng.differences(d, ONE if owned else ZERO), 'own cells are counted once'))
                        elif kind == 'bface':
                            res.append(('count:' + n, where, eng.differences(d, ONE if bowned else ZERO), 'own boundary faces are counted once'))
                    D('nelem', G('gnelem'), w.nlocal, 'number of own cells')
                    D('nelemglobal', G('gnelemglobal'), want['gnelem'], 'number of cells of the global mesh')
                    D('nbface', G('gnbface'), w.nblocal, 'number of own boundary faces')
                    D('npoin', G('gnpoin'), w.nuniq, 'number of points of own cells')
                    for n in ('gnbtag', 'gndtag'):
                        D(n, G(n), want[n], n + ' of the global mesh')
                    for (x, y), cs in zip(w.points, wantc):
                        for i in range(2):
                            D('coords', G('gcoords', y, i), cs[i], 'coordinates of a point')
                    if owned:
                        D('globalElemIndex', G('gglobalElemIndex', w.slot), w.G, 'global index of an own cell')
                        D('nnode', G('gnnode', w.slot), const(nn), 'number of nodes of an own cell')
                        D('nfael', G('gnfael', w.slot), const(nn), 'number of faces of an own cell')
                        for k in range(nn):
                            D('inpoel%d' % k, G('ginpoel', w.slot, k), w.pos[k], 'nodes of an own cell')
                        for j in range(2):
                            got = eng.load(eng.st, eng.invoke_values(w.method('fvens::amat::Array2d<int>', 'operator()', 2, lambda g: not p.decls[g.key].get('const')), eng.field(out, 'vol_regions'), [w.slot, const(j)]), 'int')
                            D('region%d' % j, got, wantr[j], 'region of an own cell')
                        cs = [k for k, x in enumerate(pat) if x == 'c']
                        D('shared', G('gnConnFace'), eng.atom('total:%x' % len(cs)), 'faces shared with other processes are counted once')
                        if cs:
                            at = eng.atom('before:%x' % len(cs))
                            for i, k in enumerate(cs):
                                ix = eng.add(at, const(i))
                                for c, v, what in ((0, w.slot, 'own cell'), (1, const(k), 'position in the own cell'), (2, w.nbrank[k], 'process across'), (3, w.nbr[k], 'global index of the cell across'),
                                                   (4, w.face[k], 'global index')):
                                    D('connface%d.%d' % (i, c), G('gconnface', ix, c), v, what + ' of a face shared with another process')
                    if bowned:
                        for k in range(2):
                            D('bface%d' % k, G('gbface', w.bslot, k), w.bpos[k], 'nodes of an own boundary face in the stored order')
                            D('btag%d' % k, G('gbface', w.bslot, 2 + k), wantb[k], 'markers of an own boundary face')
                    ctx.count('patterns of a cell')
                    return res

                def go():
                    report(ctx, nm, f.where, vg.attempt(p, body, seed=ctx.seed, nd=0))
                ctx.guard(nm, go)

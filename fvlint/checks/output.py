"""O01-O02: what the code reports to the user: surface coefficients, point and cell output, entropy error, VTU files."""
from .. import vg, flowspec as fs
from ..vg import const, Num, Ptr, Obj, Opaque, Node, Fraction, ap, ite, ZERO, ONE, UNDEF, EngineLimit
from ..world import World, MESH, scalar_fields
from ..ast import AnalysisBroken, short
from .flux import text
from .spatial import FlowWorld, method_of, one_field
from .viscous import sutherland

VIEW = 'fvens::amat::Array2dView<double>'
two = const(2)


def allsum(eng, x, op='op_sum'):
    """the sum of a rank's value over all processes"""
    nm = 'sum' if 'op_sum' in op else op
    return ap(lambda y: UNDEF if y is UNDEF else eng.fatom(nm + ' over processes', [y], y.s), x)


def why(dif):
    t = text(dif)
    return ' -- not when: ' + t if t else ''


class Accumulating:
    """mixin: locals that start from zero and are changed by a loop over faces or cells stand for what earlier faces left there"""
    def acc_init(self):
        eng = self.eng
        self.trial = 0
        self.acc = {}           # key -> (Ptr, value before)
        self.final = {}         # key -> values after each loop since
        self.reduced = []
        eng.models['MPI_Allreduce'] = self.m_reduce
        for nm in ('printf', 'fprintf'):
            eng.models[nm] = vg.m_void
        eng.models['sqrt'] = vg.m_sqrt

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        dry, keep = [], eng.stores
        eng.stores = dry
        nev = len(getattr(self, 'events', ()))
        nacc = dict(self.acc)
        self.trial += 1
        d = super().iterate(eng, s, st.clone(), dict(env), p, rng, idxs, down, where)
        self.trial -= 1
        eng.stores = keep
        self.acc = nacc
        if nev or hasattr(self, 'events'):
            del self.events[nev:]          # what was written in the trial run does not count
        for q, v, l in dry:
            k = q.key()
            x = st.mem.get(k, st.mem.get(('fill', q.o, q.pre)))
            if k != p.key() and isinstance(x, Num) and x.c == 0 and k not in self.acc and not same_num(d.mem.get(k), x):
                a = eng.atom('earlier:%s' % eng.locname(q))
                self.acc[k] = (q, a)
                st.mem[k] = a
        st = super().iterate(eng, s, st, env, p, rng, idxs, down, where)
        for k in self.acc:
            self.final.setdefault(k, []).append(st.mem.get(k))
        return st

    def m_reduce(self, eng, e, d, obj, args, env):
        a, b, n, t, op, comm = [eng.rv(x, env) for x in args]
        nm = op.o.name if isinstance(op, Ptr) and op.o else repr(op)
        if n.c is None:
            raise AnalysisBroken('reduction of an unknown number of values at line %s' % eng.curline)
        src = b if not isinstance(a, Ptr) or a.o is None or a.o is b.o else a
        vals = eng.read(src, int(n.c))
        for i, v in enumerate(vals):
            self.reduced.append(v)
            eng.store(eng.st, eng.padd(b, const(i), 'double *'), allsum(eng, v, nm))
        return ZERO


def same_num(x, y):
    return isinstance(x, Num) and isinstance(y, Num) and x.v == y.v


class SurfaceWorld(Accumulating, FlowWorld):
    pass


def read_em(eng, p, t, i, n):
    return [eng.load(eng.st, eng.em_elem(p, t, i, const(j)), 'double') for j in range(n)]


def surface(ctx):
    ctx.rule('Value-graph evaluation of the surface output function for one arbitrary boundary face (the sums over the other faces are arbitrary '
             'symbols): the row written for a face of the requested marker, and its contribution to the summed lift and drag, equal the '
             'definitions; faces of other markers change nothing; the sums are added up over all processes before the division by the total area.')
    p = ctx.prog
    base = 'fvens::FlowFV_base<double>'
    f = method_of(p, base, 'computeSurfaceData', 4)
    for cv in (True, False):
        nm = 'constant viscosity' if cv else 'Sutherland'

        def body(eng):
            w = SurfaceWorld(eng, 'boundary', base, True)
            w.acc_init()
            m, a, d, sub, neg = eng.mul, eng.add, eng.div, eng.sub, eng.neg
            pc = one_field(p, base, 'FlowPhysicsConfig', 'FlowPhysicsConfig')[0]
            pcp = eng.field(w.this, pc)
            eng.store(eng.st, eng.field(pcp, 'const_visc'), cv)
            aoa = eng.atom('aoa')
            eng.store(eng.st, eng.field(pcp, 'aoa'), aoa)
            for fld, v in zip(('gamma', 'Minf', 'Tinf', 'Reinf', 'Pr'), eng.pars):
                eng.store(eng.st, eng.field(pcp, fld), v)
            want_tag = eng.atom('marker')
            g = [[eng.atom('g%d%d' % (i, j)) for j in range(4)] for i in range(2)]
            garr = Ptr(Obj('arr:grad', sym=True))
            q = eng.padd(garr, w.L, 'X *')
            for i in range(2):
                for j in range(4):
                    eng.st.mem[(q.o, q.pre + (q.off.v, '_e'), i + 2 * j)] = g[i][j]
            pts = w.facepoints()
            out = Ptr(Obj('output', cls=f.params[3]['t'].replace('&', '').strip(), sym=True))
            before = len(eng.callog)
            r = eng.invoke_values(f, w.this, [eng.make(VIEW, [w.uarr, a(w.nelem, w.nc), const(4)]), garr, want_tag, out])
            # ---- specification ----
            match = eng.cmp('==', w.tag, want_tag)
            cw, sw = vg.m_trig_value(eng, aoa)
            n = w.n
            s = w.s
            pinf = d(ONE, m(eng.g, m(eng.pars[1], eng.pars[1])))
            cp = m(two, sub(s.p, pinf))
            T = d(m(m(eng.g, m(eng.pars[1], eng.pars[1])), s.p), s.rho)
            mu = d(ONE, eng.pars[3]) if cv else sutherland(eng, T)
            du = [[d(sub(m(s.u[0], g[j][i + 1]), m(s.u[i + 1], g[j][0])), m(s.u[0], s.u[0])) for j in range(2)] for i in range(2)]
            t = [n[1], neg(n[0])]
            force = [a(m(a(du[i][0], du[0][i]), n[0]), m(a(du[i][1], du[1][i]), n[1])) for i in range(2)]
            cf = m(two, m(mu, a(m(force[0], t[0]), m(force[1], t[1]))))
            nw = a(m(n[0], cw), m(n[1], sw))
            nl = sub(m(n[1], cw), m(n[0], sw))
            tw = a(m(t[0], cw), m(t[1], sw))
            contrib = {'CL': m(m(cp, nl), w.len), 'CDp': m(m(cp, nw), w.len), 'CDf': m(m(cf, tw), w.len), 'area': w.len, 'row': ONE}
            res = []
            # ---- accumulators ----
            found = {}
            used = set()
            for nmx, c in contrib.items():
                for k, (q, a0) in w.acc.items():
                    if k not in used and any(not eng.differences(x, ite(match, a(a0, c), a0)) for x in w.final[k]):
                        found[nmx] = a0
                        used.add(k)
                        break
            for nmx in ('CL', 'CDp', 'CDf', 'area'):
                res.append(('sum:' + nmx, f.where, [] if nmx in found else [('no sum that starts from zero receives it',)],
                            'the contribution of a face of the marker (and of no other face) to the %s sum' % nmx))
            res.append(('sum:row', f.where, [] if 'row' in found else [('no counter that starts from zero does',)], 'the output row advances once per face of the marker'))
            if len(found) == 5:
                rows = read_em(eng, out, out.o.cls, found['row'], 4)
                want = [m(const(Fraction(1, 2)), a(pts[0][k], pts[1][k])) for k in range(2)] + [cp, cf]
                nom = ['face centre x', 'face centre y', 'pressure coefficient', 'skin friction coefficient']
                for i in range(4):
                    old = eng.fresh(eng.em_elem(out, out.o.cls, found['row'], const(i)), 'double')
                    res.append(('row:%d' % i, f.where, eng.differences(rows[i], ite(match, want[i], old)), 'output column %d is the %s' % (i, nom[i])))
                tot = {k: allsum(eng, ite(match, a(found[k], contrib[k]), found[k])) for k in ('CL', 'CDp', 'CDf', 'area')}
                vals = tuple_vals(eng, r)
                for i, k in enumerate(('CL', 'CDp', 'CDf')):
                    res.append(('return:' + k, f.where, eng.differences(vals[i], d(tot[k], tot['area'])),
                                'component %d of the result is the %s sum over all processes divided by the total area' % (i, k)))
            return res
        for key, where, dif, what in vg.attempt(p, body, seed=ctx.seed, nd=0):
            ctx.ob(not dif, 'computeSurfaceData:%s:%s' % (nm.split()[0], key), where, 'surface output (%s): %s%s' % (nm, what, why(dif)))


def tuple_vals(eng, r):
    if isinstance(r, Ptr):
        return [eng.load(eng.st, eng.field(r, '_%d' % i), 'double') for i in range(3)]
    raise AnalysisBroken('surface output does not return a tuple')


# ---- point, cell and file output -------------------------------------------------------------------------------------------
ARR = 'fvens::amat::Array2d<double>'
OUT = 'fvens::FlowOutput'


class OutWorld(Accumulating, World):
    """one cell, one of its nodes, one boundary face; loops over points are seen through that node"""
    def __init__(self, eng, this=True, nn=None):
        super().__init__(eng, 'boundary')
        self.acc_init()
        at = eng.atom
        self.P, self.npoin, self.k, self.nn = at('ipoin'), at('npoin'), at('inode') if nn is None else ZERO, at('nnode') if nn is None else const(nn)
        sub = eng.sub
        self.factlist = self.factlist + [self.P, sub(sub(self.npoin, self.P), ONE)] + ([self.k, sub(sub(self.nn, self.k), ONE), sub(self.nn, const(3))] if nn is None else [])
        eng.set_facts(self.factlist)
        eng.store(eng.st, eng.field(self.mesh, 'npoin'), self.npoin)
        self.bind_get('gnnode', [self.L], self.nn)
        self.bind_get('ginpoel', [self.L, self.k], self.P)
        self.xp = [self.get('gcoords', [self.P, const(i)]) for i in range(2)]
        self.events, self.stack = [], []
        self.names = {}
        eng.models['operator<<'] = self.m_put
        for n in ('open_file_toWrite', 'setprecision', 'setw', 'close'):
            eng.models[n] = self.m_opaque
        eng.models['to_string'] = self.m_opaque
        eng.models['operator+'] = vg.chain(self.m_strplus, vg.BUILTIN['operator+'])
        self.genloops, self.gbounds = {}, []
        if this:
            self.ph = fs.physics(eng)
            self.s = fs.state(eng, 'L')
            self.this = Ptr(Obj('output', cls=OUT, sym=True))
            for n, t in scalar_fields(eng.prog, OUT):
                if 'UMesh<' in t and t.strip().rstrip('const ').endswith('*'):
                    eng.store(eng.st, eng.field(self.this, n), self.mesh)
                elif 'IdealGasPhysics<double>' in t:
                    eng.store(eng.st, eng.field(self.this, n), self.ph)
            self.u, self.uarr = self.vec('u')
            self.put(self.uarr, self.L, 4, self.s.u)

    def put(self, arr, idx, n, vals):
        eng = self.eng
        for i, v in enumerate(vals):
            eng.store(eng.st, eng.padd(arr, eng.add(eng.mul(idx, const(n)), const(i)), 'double *'), v)

    def m_opaque(self, eng, e, d, obj, args, env):
        return Opaque('ext:' + d['name'])

    def m_strplus(self, eng, e, d, obj, args, env):
        return Opaque('str') if 'basic_string' in e['t'] or 'std::string' in e['t'] else NotImplemented

    # ---- what is written ----
    def m_put(self, eng, e, d, obj, args, env):
        a = ([obj] if obj is not None else []) + list(args)
        if len(a) != 2 or 'stream' not in a[0]['t']:
            return NotImplemented
        x = a[0]
        while x['k'] == 'Cast':
            x = x['e']
        if x['k'] == 'Call':
            s = eng.rv(x, env)
            nm = s.tag[7:] if isinstance(s, Opaque) and s.tag.startswith('stream:') else '?'
        else:
            nm = x.get('n') or x.get('id') or '?'
        y = a[1]
        while y['k'] == 'Cast' and y['e']['k'] in ('Cast', 'Str', 'Int'):
            y = y['e']
        pc = eng.pathcond()
        if y['k'] == 'Str':
            tok = y.get('v', '')
        elif y['t'].strip() in ('char', 'const char') and y.get('cv') is not None:
            tok = chr(int(y['cv']))
        elif 'basic_string' in y['t'] or 'std::string' in y['t']:
            q = eng.lv(y, env) if y['k'] in ('Ref', 'Mem', 'Sub', 'Call') else None
            tok = ('string', q.key() if isinstance(q, Ptr) else None)
        elif eng.scalar_t(y['t']) and '*' not in y['t']:
            tok = eng.tonum(eng.rv(y, env))
        else:
            return Opaque('stream:' + nm)
        self.events.append((nm, tok, pc, tuple(self.stack), eng.curline))
        return Opaque('stream:' + nm)

    # ---- loops ----
    def instances(self, lo, hi):
        eng = self.eng
        for n in (1, 2, 3, 4):
            if self.near(hi, {'n': eng.mul(const(n), self.npoin)}):
                return 'point', [eng.add(eng.mul(self.P, const(n)), const(j)) for j in range(n)]
        r = super().instances(lo, hi)
        if r is not None and r[0] == 'cell':
            return 'cell', [x for x in r[1] if x.v == self.L.v or any((x.v - m * self.L.v - j) % vg.P == 0 for m in (2, 4, 8) for j in range(m))]
        return r

    def iterate(self, eng, s, st, env, p, rng, idxs, down, where):
        self.stack.append((rng, idxs))
        n = len(eng.path)
        try:
            return super().iterate(eng, s, st, env, p, rng, idxs, down, where)
        finally:
            self.stack.pop()
            del eng.path[n:]

    def gated_bound(self, hi, where):
        for b, v in self.gbounds:
            if not self.eng.differences(v, hi):
                return b
        b = self.eng.atom('bound%d' % len(self.gbounds))
        self.gbounds.append((b, hi))
        return b

    def custom_loop(self, s, st, env, iv, rng, where):
        """a loop over the nodes of the cell, or over any other unknown range: one arbitrary index in it"""
        eng = self.eng
        if self.near(rng[1], {'nn': self.nn}):
            ix = self.k
        else:
            key = (rng[0].v, rng[1].v)
            if key not in self.genloops:
                self.genloops[key] = eng.atom('index%d' % len(self.genloops))
                ix = self.genloops[key]
                self.factlist += [eng.sub(ix, rng[0]), eng.sub(eng.sub(rng[1], ix), ONE)]
                eng.set_facts(self.factlist)
            ix = self.genloops[key]
        p = env[iv['id']]
        st = self.iterate(eng, s, st, env, p, rng, [ix], False, where)
        st.mem[p.key()] = rng[1]
        return st


def acc_with(w, contrib):
    """value at the end of the accumulation of the sum (from zero) to which the cell adds `contrib`"""
    eng = w.eng
    for k, (q, a0) in w.acc.items():
        for x in w.final[k]:
            if not eng.differences(x, eng.add(a0, contrib)):
                return x
    return None


def elem(w, arr, i, j):
    eng = w.eng
    f = w.method(ARR, 'operator()', 2, lambda f: eng.prog.decls[f.key].get('const'))
    return eng.load(eng.st, eng.invoke_values(f, arr, [i, const(j)]), 'double')


def shape(w, arr):
    return [w.eng.invoke_values(w.method(ARR, n, 0), arr, []) for n in ('rows', 'cols')]


def derived(eng, u):
    """density, velocity, Mach number, pressure, temperature of a conserved state"""
    m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
    v = [d(u[1], u[0]), d(u[2], u[0])]
    v2 = a(m(v[0], v[0]), m(v[1], v[1]))
    p = m(eng.gm1, sub(u[3], m(m(const(Fraction(1, 2)), u[0]), v2)))
    c = eng.sqrt(d(m(eng.g, p), u[0]))
    M = d(eng.sqrt(v2), c)
    T = d(m(m(eng.g, m(eng.pars[1], eng.pars[1])), p), u[0])
    return dict(rho=u[0], v=v, p=p, M=M, T=T)


def flow_output(ctx):
    ctx.rule('Value-graph evaluation of the output functions for one arbitrary cell and one arbitrary node of it (the sums over the other cells '
             'are arbitrary symbols): nodal values are those of the area-weighted mean of the states of the cells around the node, '
             'each cell counted once; cell values are those of the cell; the entropy error is the square root of the area-weighted '
             'sum of squared relative deviations, summed over all processes; the volume file lists centre, state and derived quantities per cell.')
    p = ctx.prog
    e = {}
    for nm, np in (('postprocess_point', 3), ('postprocess_cell', 3), ('compute_entropy_cell', 1), ('exportVolumeData', 2)):
        e[nm] = method_of(p, OUT, nm, np)

    def flush(body):
        for key, where, dif, what in vg.attempt(p, body, seed=ctx.seed, nd=0):
            ctx.ob(not dif, key, where, what + why(dif))
    names = ['density', 'Mach number', 'pressure', 'temperature']

    def points(eng):
        w = OutWorld(eng)
        eng.models['compute_entropy_cell'] = lambda *a: eng.atom('entropy')
        f = e['postprocess_point']
        sc, ve = [Ptr(Obj(n, cls=ARR, sym=True)) for n in ('scalars', 'velocities')]
        eng.invoke_values(f, w.this, [w.u, sc, ve])
        a = w.area[0]
        res = []
        nums = [acc_with(w, eng.mul(w.s.u[i], a)) for i in range(4)]
        den = acc_with(w, a)
        for i, x in enumerate(nums + [den]):
            res.append(('postprocess_point:sum:%d' % i, f.where, [] if x is not None else [('no sum over the cells receives it',)],
                        'nodal output: each cell adds its ' + ('area' if i == 4 else 'area times conserved variable %d' % i) + ' once to the sum of each of its nodes'))
        if den is not None and None not in nums:
            q = derived(eng, [eng.div(x, den) for x in nums])
            for i, x in enumerate((q['rho'], q['M'], q['p'], q['T'])):
                res.append(('postprocess_point:scalar:%d' % i, f.where, eng.differences(elem(w, sc, w.P, i), x), 'nodal output: %s of the mean state' % names[i]))
            for i in range(2):
                res.append(('postprocess_point:velocity:%d' % i, f.where, eng.differences(elem(w, ve, w.P, i), q['v'][i]), 'nodal output: velocity component %d of the mean state' % i))
        for nm, arr, n in (('scalars', sc, 4), ('velocities', ve, 2)):
            r, c = shape(w, arr)
            res.append(('postprocess_point:shape:' + nm, f.where, eng.differences(r, w.npoin) + eng.differences(c, const(n)), 'nodal output: %s array has one row per node and %d columns' % (nm, n)))
        return res
    flush(points)

    def cells(eng):
        w = OutWorld(eng)
        eng.models['compute_entropy_cell'] = lambda *a: eng.atom('entropy')
        f = e['postprocess_cell']
        sc, ve = [Ptr(Obj(n, cls=ARR, sym=True)) for n in ('scalars', 'velocities')]
        eng.invoke_values(f, w.this, [w.u, sc, ve])
        q = derived(eng, w.s.u)
        res = [('postprocess_cell:scalar:%d' % i, f.where, eng.differences(elem(w, sc, w.L, i), x), 'cell output: ' + names[i]) for i, x in enumerate((q['rho'], q['M'], q['p']))]
        res += [('postprocess_cell:velocity:%d' % i, f.where, eng.differences(elem(w, ve, w.L, i), q['v'][i]), 'cell output: velocity component %d' % i) for i in range(2)]
        return res
    flush(cells)

    def entropy(eng):
        w = OutWorld(eng)
        f = e['compute_entropy_cell']
        aoa = eng.atom('aoa')
        fld = [n for n, t in scalar_fields(p, OUT) if t.strip() in ('const double', 'double')]
        if len(fld) != 1:
            raise AnalysisBroken('anchor vanished: angle of attack of ' + OUT)
        eng.store(eng.st, eng.field(w.this, fld[0]), aoa)
        r = eng.invoke_values(f, w.this, [w.u])
        m, d, sub = eng.mul, eng.div, eng.sub
        pinf = d(ONE, m(eng.g, m(eng.pars[1], eng.pars[1])))
        sent = d(w.s.p, eng.pow(w.s.rho, eng.g))
        x = d(sub(sent, pinf), pinf)
        tot = acc_with(w, m(m(x, x), w.area[0]))
        res = [('entropy:sum', f.where, [] if tot is not None else [('no sum over the cells receives it',)],
                'entropy error: each cell adds its area times the squared relative deviation from the free-stream entropy')]
        if tot is not None:
            # squares of the result, so that the sign of an arbitrary earlier sum does not matter
            tt = allsum(eng, tot)
            res.append(('entropy:result', f.where, eng.differences(m(r, r), tt), 'entropy error: the result is the square root of the sum over all processes'))
        return res
    flush(entropy)

    def volume(eng):
        w = OutWorld(eng)
        f = e['exportVolumeData']
        um = Ptr(Obj('umat', cls=f.params[0]['t'].replace('&', '').replace('const ', '').strip(), sym=True))
        for i in range(4):
            q = eng.em_elem(um, um.o.cls, w.L, const(i))
            eng.store(eng.st, q, w.s.u[i])
        eng.invoke_values(f, w.this, [um, Ptr(Obj('fname', sym=True))])
        q = derived(eng, w.s.u)
        res = []
        row = [(t, g) for nm, t, g, stk, l in w.events if nm != 'cout' and not isinstance(t, (str, tuple)) and stk and stk[-1][1] and stk[-1][1][0].v == w.L.v]
        cen = []
        for j in range(2):
            cen.append(acc_with(w, w.xp[j]))
        for j in range(2):
            res.append(('volume:centre:%d' % j, f.where, [] if cen[j] is not None else [('no sum over the nodes does',)], 'volume file: the centre sums each node coordinate %d of the cell once' % j))
        if None not in cen:
            want = [eng.div(c, w.nn) for c in cen] + [q['rho'], q['v'][0], q['v'][1], q['p'], q['T'], q['M']]
            cols = ['x', 'y', 'density', 'x-velocity', 'y-velocity', 'pressure', 'temperature', 'Mach number']
            if len(row) != 8:
                res.append(('volume:columns', f.where, [('%d values are written' % len(row),)], 'volume file: eight columns per cell'))
            for (t, g), x, c in zip(row, want, cols):
                res.append(('volume:' + c, f.where, eng.differences(ite(g, t, UNDEF), x), 'volume file: column %s' % c))
        return res
    flush(volume)

    def surfaces(eng):
        f = method_of(p, OUT, 'exportSurfaceData', 4)
        w = OutWorld(eng)
        calls, grads = [], []

        def hgrad(this, a, e):
            grads.append(a)
            return Opaque('void')
        w.vhooks['getGradients'] = hgrad

        def surf(en, e, d, obj, args, env):
            v = [en.rv(x, env) if i in (1, 2) else en.lv(x, env) for i, x in enumerate(args)]
            v[3].o.sym = True                   # filled in by the callee
            w.trial or calls.append((v, en.pathcond(), tuple(w.stack), '%s:%s' % (en.cur[-1].file, en.curline)))
            t = Ptr(Obj('tuple', cls='std::tuple'))
            for i, n in enumerate(('CL', 'CDp', 'CDf')):
                en.store(en.st, en.field(t, '_%d' % i), en.atom(n))
            return t
        eng.models['computeSurfaceData'] = surf
        wb, ob = [Ptr(Obj(n, cls='std::vector<int>', sym=True)) for n in ('wbcm', 'obcm')]
        size = lambda v: eng.load(eng.st, eng.field(v, '_size'), 'int')
        entry = lambda v, i: eng.load(eng.st, eng.padd(eng.field(v, '_a'), i, 'int *'), 'int')
        eng.stores = []
        eng.invoke_values(f, w.this, [w.u, wb, ob, Ptr(Obj('base', sym=True))])
        stores, eng.stores = eng.stores, None
        res = []

        def put(key, bad, what, where=f.where):
            res.append(('surfaces:' + key, where, [(bad,)] if bad else [], 'surface files: ' + what))

        def full(stk, v):
            return bool(stk) and not eng.differences(stk[-1][0][0], ZERO) and not eng.differences(stk[-1][0][1], size(v))

        def rows(im, v):
            """the numbers that are incremented once per boundary face whose marker is entry im of v"""
            out = []
            for k, (q, a0) in w.acc.items():
                for x in w.final[k]:
                    if not eng.differences(x, ite(eng.cmp('==', w.tag, entry(v, im)), eng.add(a0, ONE), a0)):
                        out.append((x, a0))
            return out
        ok = [c for c in calls if c[1] is True and full(c[2], wb)]
        put('wall:calls', None if len(ok) == 1 == len(calls) else 'it is not', 'every listed wall marker is evaluated once')
        if len(ok) == 1:
            v, pc, stk, where = ok[0]
            im = stk[-1][1][0]
            put('wall:marker', None if not eng.differences(v[2], entry(wb, im)) else 'another marker', 'the wall data are those of the marker listed', where)
            put('wall:gradients', None if len(grads) == 1 and isinstance(v[1], Ptr) and grads[0][1].key() == v[1].key() else 'other gradients', 'the gradients of the given state are used', where)
            out = v[3]
            r, c, rm = eng.em_dims(out, out.o.cls)
            r = dict((b.v, x) for b, x in w.gbounds).get(r.v, r) if isinstance(r, Num) else r
            put('wall:rows', None if any(not eng.differences(r, x) for x, a0 in rows(im, wb)) and isinstance(c, Num) and c.c == 4 else 'the array has another size',
                'there is one row per boundary face of the marker', where)
            body_ = [(t, g, st2) for nm, t, g, st2, l in w.events if nm != 'cout' and not isinstance(t, (str, tuple)) and len(st2) == 2 and st2[:1] == stk]
            good = len(body_) == 4
            for j, (t, g, st2) in enumerate(body_):
                bound = dict((b.v, x) for b, x in w.gbounds).get(st2[-1][0][1].v, st2[-1][0][1])
                good = good and g is True and not eng.differences(st2[-1][0][0], ZERO) and not eng.differences(bound, r) \
                    and not eng.differences(t, eng.load(eng.st, eng.em_elem(out, out.o.cls, st2[-1][1][0], const(j)), 'double'))
            put('wall:file', None if good else 'they are not', 'all rows and columns of the wall data are written in order', where)
            tail = [t for nm, t, g, st2, l in w.events if nm != 'cout' and not isinstance(t, (str, tuple)) and st2 == stk]
            put('wall:totals', None if len(tail) == 3 and not any(eng.differences(x, eng.atom(n)) for x, n in zip(tail, ('CL', 'CDp', 'CDf'))) else 'they are not',
                'lift, pressure drag and friction drag are written in the order of the heading', where)
        # ---- other boundaries ----
        half = const(Fraction(1, 2))
        cen = [eng.mul(half, eng.add(*[q[j] for q in w.facepoints()])) for j in range(2)]
        want = cen + [w.s.v[0], w.s.v[1]]
        hits = []
        for q, val, l in stores:
            if isinstance(val, Num) and not eng.differences(val, cen[0]) and q.o.cls and q.o.cls.startswith('Eigen::'):
                hits.append(q.o)
        lo = [st2 for nm, t, g, st2, l in w.events if len(st2) == 2 and full(st2[:1], ob)]
        put('other:files', None if lo and hits else 'no such file', 'every listed other marker is written')
        if lo and hits:
            im = lo[0][0][1][0]
            arr = Ptr(hits[0])
            r, c, rm = eng.em_dims(arr, arr.o.cls)
            r = dict((b.v, x) for b, x in w.gbounds).get(r.v, r) if isinstance(r, Num) else r
            rs = rows(im, ob)
            put('other:rows', None if any(not eng.differences(r, x) for x, a0 in rs) and isinstance(c, Num) and c.c == 4 else 'the array has another size', 'there is one row per boundary face of the other marker')
            last = {}
            for q, val, l in stores:
                last[q.key()] = val
            good = False
            for x, a0 in rs:
                got = [last.get(eng.em_elem(arr, arr.o.cls, a0, const(j)).key()) for j in range(4)]
                if None not in got and not any(eng.differences(g, e2) for g, e2 in zip(got, want)):
                    good = True
            put('other:values', None if good else 'they are not', 'a row holds the face centre and the velocity of the adjacent cell')
            body_ = [(t, st2) for nm, t, g, st2, l in w.events if nm != 'cout' and not isinstance(t, (str, tuple)) and len(st2) == 2 and full(st2[:1], ob)]
            good = len(body_) == 4 and all(not eng.differences(st2[-1][0][0], ZERO) and
                                           not eng.differences(dict((b.v, x) for b, x in w.gbounds).get(st2[-1][0][1].v, st2[-1][0][1]), r) for t, st2 in body_)
            put('other:file', None if good else 'they are not', 'all rows and columns of the other data are written')
        return res
    flush(surfaces)

    fs_ = [f for f in p.fns.values() if f.name == 'scalar_postprocess_point']
    ctx.require(fs_, 'scalar_postprocess_point not found')

    def scalar(eng):
        f = fs_[0]
        w = OutWorld(eng)
        ps = eng.atom('u')
        w.put(w.uarr, w.L, 1, [ps])
        up = Ptr(Obj('up', cls=ARR, sym=True))
        eng.invoke_values(f, None, [w.mesh, w.u, up])
        num, den = acc_with(w, eng.mul(ps, w.area[0])), acc_with(w, w.area[0])
        res = [('scalar:sum', f.where, [] if num is not None and den is not None else [('no such sums over the cells',)],
                'nodal output of a scalar: each cell adds its area and its area times its value once to the sums of each of its nodes')]
        if num is not None and den is not None:
            res.append(('scalar:value', f.where, eng.differences(elem(w, up, w.P, 0), eng.div(num, den)), 'nodal output of a scalar: the area-weighted mean'))
        return res
    flush(scalar)


# ---- VTU files ----------------------------------------------------------------------------------------------------------------
import re
VTKTYPES = {3: 5, 4: 9, 6: 22, 8: 23, 9: 28}


def sections(w, stream):
    """tags and data of what was written to `stream`: (list of problems, list of (tag name, attributes, path of open tags, values))"""
    probs, stack, secs = [], [], []
    buf = ''            # text of an unfinished tag; values inside it are replaced by \0n
    vals = []           # values inside the unfinished tag
    intag = False
    gap = True
    for nm, tok, pc, loops, line in w.events:
        if nm != stream:
            continue
        if pc is not True:
            probs.append('line %s writes only under a condition' % line)
        if not isinstance(tok, str):
            if intag:
                buf += '\0%d;' % len(vals)
                vals.append(tok)
            else:
                if not gap:
                    probs.append('line %s: two values run into each other' % line)
                gap = False
                if not stack:
                    probs.append('line %s: a value outside all elements' % line)
                elif secs:
                    stack[-1][3].append((tok, loops))
            continue
        for part in re.findall(r'[-+.0-9eE]+|.', tok, re.S) if not intag else list(tok):
          for ch in ([part] if not intag else part):
            if intag:
                buf += ch
                if ch == '>':
                    intag = False
                    m = re.match(r'<(/?)([A-Za-z]+)(.*?)(/?)>$', buf, re.S)
                    if not m:
                        probs.append('line %s: malformed tag %s' % (line, buf))
                    elif m.group(1):
                        if not stack or stack[-1][0] != m.group(2):
                            probs.append('line %s: </%s> closes %s' % (line, m.group(2), stack[-1][0] if stack else 'nothing'))
                        if stack:
                            stack.pop()
                    else:
                        at = {}
                        for k, v in re.findall(r'(\w+)="([^"]*)"', m.group(3)):
                            q = re.match(r'^\0(\d+);$', v)
                            at[k] = vals[int(q.group(1))] if q else v
                        sec = (m.group(2), at, '/'.join(x[0] for x in stack), [], loops)
                        secs.append(sec)
                        stack.append(sec)
                    buf, vals = '', []
            elif ch == '<':
                intag, buf = True, '<'
            elif ch.isspace():
                gap = True
            elif re.match(r'^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', ch):
                if not gap:
                    probs.append('line %s: two values run into each other' % line)
                gap = False
                if stack:
                    stack[-1][3].append((const(Fraction(ch)), loops))
            else:
                probs.append('line %s: stray text %r' % (line, tok))
    if stack:
        probs.append('unclosed element ' + stack[-1][0])
    # the gap between the values of one pass of a loop and the next is the text after the last value
    return probs, secs


def vtu(ctx):
    ctx.rule('Token-level evaluation of the VTU writers for one arbitrary cell (with 3, 4, 6, 8 or 9 nodes) and one arbitrary node: elements are '
             'balanced and unconditional; the piece announces the numbers of points and cells; coordinates, connectivity, cumulative offsets '
             'and VTK cell types are those of the mesh over the full ranges; each data array carries its name and the entries of its column '
             'for every point (or cell), vectors padded to three components.')
    p = ctx.prog
    fns = [f for f in p.fns.values() if f.name in ('writeScalarsVectorToVtu_PointData', 'writeScalarsVectorToVtu_CellData', 'writeMeshToVtu')]
    ctx.require(len(fns) == 3, 'VTU writers not found')
    for f in sorted(fns, key=lambda f: f.name):
        cases = [(True, True), (True, False), (False, True)] if len(f.params) == 6 else [(False, False)]
        for nn in sorted(VTKTYPES):
            for hasx, hasy in cases:
                if nn not in (3, 4) and (hasx, hasy) != cases[0]:
                    continue

                def body(eng):
                    w = OutWorld(eng, this=False, nn=nn)
                    sname, vname = Ptr(Obj('scaname', sym=True)), Ptr(Obj('vecname', cls='std::string', sym=True))
                    pt = 'Point' in f.name
                    x, y = [Ptr(Obj(n, cls=ARR, sym=True)) for n in 'xy']
                    nrows = w.npoin if pt else w.nelem
                    nsc = eng.atom('nscalars')
                    w.factlist += [eng.sub(nsc, ONE)]
                    eng.set_facts(w.factlist)
                    for q, has, nc in ((x, hasx, nsc), (y, hasy, two)):
                        eng.store(eng.st, eng.field(q, 'nrows'), nrows if has else ZERO)
                        eng.store(eng.st, eng.field(q, 'ncols'), nc if has else ZERO)
                        if has:
                            sz = eng.atom('size of ' + q.o.name, 1)
                            w.factlist += [eng.sub(sz, ONE)]
                            eng.set_facts(w.factlist)
                        eng.store(eng.st, eng.field(q, 'size'), sz if has else ZERO)
                    if len(f.params) == 6:
                        args = [Ptr(Obj('fname', sym=True)), w.mesh, x, sname, y, vname]
                    else:
                        args = [Ptr(Obj('fname', sym=True)), w.mesh]
                    vpar = None
                    eng.invoke_values(f, None, args)
                    streams = {e[0] for e in w.events} - {'cout', 'cerr'}
                    res = []
                    add = lambda key, dif, what: res.append(('%s:%d:%d%d:%s' % (f.name, nn, hasx, hasy, key), f.where, dif, '%s (%d-node cell): %s' % (f.name, nn, what)))
                    if len(streams) != 1:
                        raise AnalysisBroken('%s writes to %d streams' % (f.name, len(streams)))
                    probs, secs = sections(w, streams.pop())
                    add('form', [(t,) for t in probs[:1]], 'the file is well formed')
                    piece = [s for s in secs if s[0] == 'Piece']
                    ok = len(piece) == 1 and all(isinstance(piece[0][1].get(k), Num) and not eng.differences(piece[0][1][k], v) for k, v in (('NumberOfPoints', w.npoin), ('NumberOfCells', w.nelem)))
                    add('piece', [] if ok else [('it does not',)], 'the piece announces the numbers of points and cells')
                    arrays = [s for s in secs if s[0] == 'DataArray']

                    def rng(loops, n):
                        """all loops but the outer-most ones of constant length run over [0, n)"""
                        return len(loops) >= 1 and not eng.differences(loops[-1][0][0], ZERO) and not eng.differences(loops[-1][0][1], n)

                    def data(sec, want, n, key, what, comps=None):
                        got = sec[3]
                        dif = []
                        if len(got) != len(want):
                            dif = [('%d values per item instead of %d' % (len(got), len(want)),)]
                        for (t, lo), v in zip(got, want):
                            if not isinstance(t, (Num, Node)):
                                dif.append(('not a number',))
                            else:
                                dif += eng.differences(t, v)
                            if not rng(lo, n):
                                dif.append(('the loop is not over all items',))
                        if comps is not None and sec[1].get('NumberOfComponents') != str(comps):
                            dif.append(('announced number of components',))
                        add(key, dif[:1], what)

                    def one(path, name=None):
                        r = [s for s in arrays if s[2].endswith(path) and (name is None or s[1].get('Name') == name)]
                        if len(r) != 1:
                            add('%s:%s' % (path, name), [('%d such arrays' % len(r),)], 'exactly one %s array' % (name or path))
                            return None
                        return r[0]
                    s = one('Points')
                    if s:
                        data(s, w.xp + [ZERO], w.npoin, 'points', 'the points are the mesh coordinates', 3)
                    s = one('Cells', 'connectivity')
                    if s:
                        data(s, [w.get('ginpoel', [w.L, const(i)]) for i in range(nn)], w.nelem, 'connectivity', 'the connectivity lists the nodes of each cell in order')
                    s = one('Cells', 'offsets')
                    if s:
                        off = acc_with(w, const(nn))
                        if off is None:
                            add('offsets', [('no running sum',)], 'the offsets are the running sum of the numbers of nodes')
                        else:
                            data(s, [off], w.nelem, 'offsets', 'the offsets are the running sum of the numbers of nodes')
                    s = one('Cells', 'types')
                    if s:
                        data(s, [const(VTKTYPES[nn])], w.nelem, 'types', 'the cell type code is %d' % VTKTYPES[nn])
                    if len(f.params) == 6:
                        grp = 'PointData' if pt else 'CellData'
                        item = w.P if pt else w.L
                        ds = [s for s in arrays if s[2].endswith(grp)]
                        want = int(hasx) + int(hasy)
                        add('arrays', [] if len(ds) == want else [('%d arrays' % len(ds),)], 'one array per scalar column and one vector array')
                        if len(ds) == want:
                            if hasx:
                                s = ds[0]
                                ok = len(s[4]) == 1 and not eng.differences(s[4][0][0][0], ZERO) and not eng.differences(s[4][0][0][1], nsc)
                                isc = s[4][0][1][0] if s[4] else ZERO
                                add('scalars', [] if ok else [('it is not',)], 'a scalar array is written for every column')
                                f2 = w.method(ARR, 'get', 2)
                                data(s, [eng.invoke_values(f2, x, [item, isc])], nrows, 'scalar', 'scalar entries are those of the column')
                                nmv = s[1].get('Name')
                                loc = eng.padd(sname, isc, 'std::string *').key()
                                add('name', [] if isinstance(nmv, tuple) and nmv[1] == loc else [('it is not',)], 'the scalar name is the one of the column')
                            if hasy:
                                s = ds[-1]
                                f2 = w.method(ARR, 'get', 2)
                                data(s, [eng.invoke_values(f2, y, [item, const(i)]) for i in range(2)] + [ZERO], nrows, 'vector', 'vector entries', 3)
                    return res
                for key, where, dif, what in vg.attempt(p, body, seed=ctx.seed, nd=0):
                    ctx.ob(not dif, key, where, what + why(dif))

"""B01-B03: boundary conditions."""
from .. import vg, flowspec as fs
from ..vg import const, Fraction, Ptr, Obj, Num, Opaque
from ..ast import AnalysisBroken, short, walk
from .flux import text, COMP, method

half = const(Fraction(1, 2))
TYPES = ('SLIP_WALL_BC', 'FARFIELD_BC', 'INFLOW_OUTFLOW_BC', 'SUBSONIC_INFLOW_BC', 'EXTRAPOLATION_BC', 'ISOTHERMAL_WALL_BC',
         'ADIABATIC_WALL_BC')
NAMES = {'SLIP_WALL_BC': 'slipwall', 'FARFIELD_BC': 'farfield', 'INFLOW_OUTFLOW_BC': 'inflowoutflow',
         'SUBSONIC_INFLOW_BC': 'subsonic_inflow', 'EXTRAPOLATION_BC': 'extrapolation', 'PERIODIC_BC': 'periodic',
         'ISOTHERMAL_WALL_BC': 'isothermalwall', 'ADIABATIC_WALL_BC': 'adiabaticwall'}
CLASS = {'SLIP_WALL_BC': 'Slipwall', 'FARFIELD_BC': 'Farfield', 'INFLOW_OUTFLOW_BC': 'InOutFlow', 'SUBSONIC_INFLOW_BC': 'InFlow',
         'EXTRAPOLATION_BC': 'Extrapolation', 'ISOTHERMAL_WALL_BC': 'Isothermalwall2D', 'ADIABATIC_WALL_BC': 'Adiabaticwall2D'}


def enum(ctx, name):
    for q, e in ctx.prog.enums.items():
        if short(q) == 'BCType':
            for c in e['consts']:
                if c['n'] == name:
                    return int(c['v'])
    raise AnalysisBroken('anchor vanished: boundary type ' + name)


def freestream(eng):
    d = fs.normal(eng, 'aoa')
    g, M = eng.g, eng.pars[1]
    eng.pinf = eng.div(const(1), eng.mul(g, eng.mul(M, M)))
    return [const(1), d[0], d[1], eng.add(eng.div(eng.pinf, eng.gm1), half)]


def farr(eng, name, vals):
    """a std::array or std::vector object"""
    p = Ptr(Obj(name, cls='std::array'))
    for i, v in enumerate(vals):
        eng.store(eng.st, eng.padd(eng.field(p, '_a'), const(i), 'double *'), v)
    eng.store(eng.st, eng.field(p, '_size'), const(len(vals)))
    return p


class Setup:
    """all boundary conditions made by the program's own factory from a configuration with one entry per type"""
    def __init__(self, ctx, eng, types=TYPES):
        self.eng = eng
        self.ph = fs.physics(eng)
        self.uinf = freestream(eng)
        conf = Ptr(Obj('conf', cls='std::vector'))
        base = eng.field(conf, '_a')
        self.vals, self.tag = {}, {}
        for i, t in enumerate(types):
            e = Ptr(base.o, base.pre, const(i))
            self.tag[t] = const(11 + 3 * i)
            eng.store(eng.st, eng.field(e, 'bc_tag'), self.tag[t])
            eng.store(eng.st, eng.field(e, 'bc_type'), const(enum(ctx, t)))
            self.vals[t] = [eng.atom('%s.val%d' % (t, j), 1) for j in range(2)]
            v = eng.field(e, 'bc_vals')
            for j, x in enumerate(self.vals[t]):
                eng.store(eng.st, eng.padd(eng.field(v, '_a'), const(j), 'double *'), x)
            eng.store(eng.st, eng.field(v, '_size'), const(2))
        eng.store(eng.st, eng.field(conf, '_size'), const(len(types)))
        f = [x for x in ctx.prog.fns.values() if x.name == 'create_const_flowBCs']
        ctx.require(len(f) >= 1, 'anchor vanished: create_const_flowBCs')
        self.fn = f[0]
        self.map = eng.invoke_values(self.fn, None, [conf, self.ph, farr(eng, 'uinf', self.uinf)])
        self.dead = eng.st.dead is True

    def obj(self, t):
        if not isinstance(self.map, Ptr):
            raise AnalysisBroken('the boundary condition factory does not return a map')
        q = self.eng.field(self.map, vg.mapkey(self.eng, self.tag[t]))
        v = self.eng.st.mem.get(q.key())
        return v if isinstance(v, Ptr) and v.o is not None else None


def ghost_spec(eng, t, s, u, n, su):
    """ghost state demanded by each boundary type; u may carry derivatives"""
    m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
    two = const(2)
    r, v = u[0], [d(u[1], u[0]), d(u[2], u[0])]
    vn = a(m(v[0], n[0]), m(v[1], n[1]))
    v2 = a(m(v[0], v[0]), m(v[1], v[1]))
    p = m(eng.gm1, sub(u[3], m(m(half, r), v2)))
    M = eng.pars[1]
    val = su.vals.get(t)
    if t == 'SLIP_WALL_BC':
        return [r] + [m(r, sub(v[i], m(m(two, vn), n[i]))) for i in range(2)] + [u[3]]
    if t == 'FARFIELD_BC':
        return su.uinf
    if t == 'EXTRAPOLATION_BC':
        return u
    if t == 'ADIABATIC_WALL_BC':
        w = [m(val[0], n[1]), eng.neg(m(val[0], n[0]))]
        return [r] + [m(r, sub(m(two, w[i]), v[i])) for i in range(2)] + [u[3]]
    if t == 'ISOTHERMAL_WALL_BC':
        w = [m(val[0], n[1]), eng.neg(m(val[0], n[0]))]
        vg_ = [sub(m(two, w[i]), v[i]) for i in range(2)]
        T = d(m(m(eng.g, m(M, M)), p), r)
        Tg = sub(m(two, val[1]), T)
        pg = d(m(r, Tg), m(eng.g, m(M, M)))
        return [r] + [m(r, x) for x in vg_] + [a(d(pg, eng.gm1), m(m(half, r), a(m(vg_[0], vg_[0]), m(vg_[1], vg_[1]))))]
    c = eng.sqrt(d(m(eng.g, p), r))
    if t == 'INFLOW_OUTFLOW_BC':
        mach = d(vn, c)
        inflow = eng.cmp('<=', fs.plain(mach), const(0))
        sub_ = eng.cmp('<', fs.plain(mach), const(1))
        out = [u[0], u[1], u[2], a(d(eng.pinf, eng.gm1), m(m(half, r), v2))]
        return [vg.ite(inflow, su.uinf[i], vg.ite(sub_, out[i], u[i])) for i in range(4)]
    if t == 'SUBSONIC_INFLOW_BC':
        g, gm1 = eng.g, eng.gm1
        gp1 = a(g, const(1))
        R = sub(vn, d(m(two, c), gm1))
        c02 = a(m(c, c), m(m(half, gm1), v2))
        q = eng.sqrt(sub(d(m(gp1, c02), m(gm1, m(R, R))), m(half, gm1)))
        cg = m(d(m(eng.neg(R), gm1), gp1), a(const(1), q))
        Tg = d(m(val[1], m(cg, cg)), c02)
        pg = m(val[0], eng.pow(d(Tg, val[1]), d(g, gm1)))
        rg = d(m(m(g, m(M, M)), pg), Tg)
        V = eng.sqrt(m(d(two, gm1), sub(c02, m(cg, cg))))
        return [rg, eng.neg(m(rg, m(V, n[0]))), eng.neg(m(rg, m(V, n[1]))), a(d(pg, gm1), m(m(half, rg), m(V, V)))]
    raise AnalysisBroken('no specification for ' + t)


def wall3(ctx, eng, su):
    """the general (Cartesian) adiabatic wall is not reachable from the configuration; construct it directly"""
    cls = [q for q in ctx.prog.subclasses('FlowBC') if short(q) == 'Adiabaticwall']
    if not cls:
        return None
    w = [eng.atom('wall.v%d' % i) for i in range(2)]
    o = eng.make(cls[0], [const(5), su.ph, farr(eng, 'wallvel', w)])
    return o, w


def wall_spec(eng, u, w):
    m, sub = eng.mul, eng.sub
    return [u[0]] + [sub(m(m(const(2), u[0]), w[i]), u[i + 1]) for i in range(2)] + [u[3]]


def instances(ctx, eng):
    su = Setup(ctx, eng)
    out = []
    for t in TYPES:
        o = su.obj(t)
        if o is None:
            raise AnalysisBroken('the boundary condition factory makes nothing for ' + t)
        out.append((t, o, lambda s, u, n, t=t: ghost_spec(eng, t, s, u, n, su)))
    w = wall3(ctx, eng, su)
    if w:
        out.append(('GENERAL_ADIABATIC_WALL', w[0], lambda s, u, n: wall_spec(eng, u, w[1])))
    return su, out


def ghost(ctx):
    ctx.rule('Value-graph equality: the ghost state computed by each boundary condition (made by the program\'s factory from a configuration '
             'entry of that type) equals the state that type promises, for all admissible interior states, unit normals, gas parameters and '
             'configured values, on every feasible gate assignment.')
    p = ctx.prog

    def body(eng):
        su, objs = instances(ctx, eng)
        s = fs.state(eng, 'u'); n = fs.normal(eng)
        out = []
        for t, o, spec in objs:
            f = method(p, o.o.cls, 'computeGhostState', 3)
            gs = eng.out('gs')
            dead = eng.st.dead
            eng.invoke_values(f, o, [eng.array('ui', s.u), eng.array('n', n), gs])
            if eng.st.dead is not dead:
                out.append((t, 0, f.where, [('it terminates the program', None, None)]))
                eng.st.dead = dead
                continue
            for i, (x, y) in enumerate(zip(eng.read(gs, 4), spec(s, s.u, n))):
                out.append((t, i, f.where, eng.differences(x, y)))
        ctx.count('functions inlined', len(eng.called))
        return out
    r = ctx.guard('ghost states', vg.attempt, p, body, seed=ctx.seed)
    for t, i, where, d in r or []:
        ctx.ob(not d, '%s:%s' % (t, COMP[i]), where, '%s ghost state of a %s boundary is not what it imposes (%s)' % (
            COMP[i], NAMES.get(t, t.lower()), text(d)))


def ghost_jacobian(ctx):
    ctx.rule('Value-graph equality of the state and of every entry of the Jacobian computed by computeGhostStateAndJacobian with the ghost '
             'state of computeGhostState and its forward-mode derivative; a condition without a Jacobian must stop instead of returning.')
    p = ctx.prog

    def body(eng):
        su, objs = instances(ctx, eng)
        s = fs.state(eng, 'u', 0); n = fs.normal(eng)
        pl = [fs.plain(x) for x in s.u]
        out = []
        for t, o, spec in objs:
            f = method(p, o.o.cls, 'computeGhostState', 3)
            j = method(p, o.o.cls, 'computeGhostStateAndJacobian', 4)
            gs, gj, dg = eng.out('gs'), eng.out('gj'), eng.out('dg')
            st0 = eng.st.clone()
            eng.invoke_values(j, o, [eng.array('ui', pl), eng.array('n', n), gj, dg])
            if eng.st.dead is True:
                eng.st = st0
                out.append((t + ':provided', j.where, t == 'SUBSONIC_INFLOW_BC', '%s boundary no longer provides a Jacobian' % t))
                continue
            J, D = eng.read(gj, 4), eng.read(dg, 16)
            eng.st = st0
            eng.invoke_values(f, o, [eng.array('ui', s.u), eng.array('n', n), gs])
            G = eng.read(gs, 4)
            for i in range(4):
                d = eng.differences(fs.plain(G[i]), J[i])
                out.append(('%s:state:%d' % (t, i), j.where, not d, '%s ghost state returned with the Jacobian of a %s boundary differs from its ghost state (%s)' % (COMP[i], t, text(d))))
                for k in range(4):
                    d = eng.differences(fs.dpart(G[i], k), D[4 * i + k])
                    out.append(('%s:%d%d' % (t, i, k), j.where, not d, 'd(%s ghost)/d(u%d) of a %s boundary is not the derivative of its ghost state (%s)' % (COMP[i], k, t, text(d))))
        return out
    r = ctx.guard('ghost Jacobians', vg.attempt, p, body, nd=4, seed=ctx.seed)
    for k, w, ok, tx in r or []:
        ctx.ob(ok, k, w, tx)


def wiring(ctx):
    ctx.rule('The factory, evaluated on a configuration with one entry of every type, maps each entry\'s marker to an object of the class of '
             'that type whose stored marker and type agree with the entry, and throws for a type it does not support; the table of type '
             'names pairs every type with its documented name and no other.')
    p = ctx.prog

    def body(eng):
        su = Setup(ctx, eng)
        out = []
        for t in TYPES:
            o = su.obj(t)
            out.append((t + ':class', su.fn.where, o is not None and short(o.o.cls) == CLASS[t],
                        'configuration type %s creates %s' % (t, short(o.o.cls) if o is not None else 'nothing')))
            if o is None:
                continue
            b = eng.load(eng.st, eng.field(o, 'btag'), 'int')
            out.append((t + ':marker', su.fn.where, isinstance(b, Num) and not eng.differences(b, su.tag[t]),
                        'boundary object of type %s stores another marker than the configured one' % t))
            b = eng.load(eng.st, eng.field(o, 'bctype'), 'int')
            out.append((t + ':type', su.fn.where, isinstance(b, Num) and b.v == enum(ctx, t), 'boundary object of %s reports another type' % t))
        keys = [k for k in eng.st.mem if isinstance(su.map, Ptr) and k[0] is su.map.o]
        out.append(('entries', su.fn.where, len(keys) == len(TYPES), 'the factory returns %d conditions for %d entries' % (len(keys), len(TYPES))))
        return out
    for k, w, ok, tx in ctx.guard('factory', vg.attempt, p, body, seed=ctx.seed) or []:
        ctx.ob(ok, k, w, tx)

    def body2(eng):
        su = Setup(ctx, eng, ('PERIODIC_BC',))
        return su.dead, su.fn.where
    r = ctx.guard('unsupported type', vg.attempt, p, body2, seed=ctx.seed)
    if r:
        ctx.ob(r[0], 'unsupported', r[1], 'an unsupported boundary type is accepted silently')
    names(ctx)


def names(ctx):
    f = [x for x in ctx.prog.fns.values() if x.name == 'createBCTypeMap']
    ctx.require(f, 'anchor vanished: createBCTypeMap')
    pairs = []

    def enums_strings(e):
        en, st = None, None
        for x in walk(e):
            if x.get('k') == 'Ref' and x.get('dk') == 'enum':
                en = short(x['q'])
            if x.get('k') == 'Str':
                st = x['v']
        return en, st

    def body(eng):
        def ins(eng, e, d, obj, args, env):
            v = eng.rv(args[0], env)
            a, b = (eng.load(eng.st, eng.field(v, n), 'int') for n in ('first', 'second'))
            pairs.append((a, b))
            return Opaque('void')

        def ctor(eng, pt, e, d, env):
            if len(e['args']) == 2:
                for n, x in zip(('first', 'second'), e['args']):
                    v = eng.rv(x, env)
                    eng.store(eng.st, eng.field(pt, n), v)
            return None
        eng.models['insert'] = ins
        for nm in ('relation', 'mutant_relation', 'structured_pair', 'standard_relation'):
            eng.models['ctor:' + nm] = ctor
        def stringctor(eng, pt, e, d, env):
            for x in walk(e):
                if x.get('k') == 'Str':
                    return Opaque('str:' + x['v'])
            return None
        eng.models['ctor:basic_string'] = stringctor
        eng.models['ctor:string'] = stringctor
        eng.invoke_values(f[0], None, [])
        return True
    if ctx.guard('type names', vg.attempt, ctx.prog, body, seed=ctx.seed) is None:
        return
    got = {}
    for a, b in pairs:
        while isinstance(b, Ptr):
            break
        got[a.v if isinstance(a, Num) else a] = str(getattr(b, 'tag', b)).replace('str:', '')
    for t, n in NAMES.items():
        ctx.ob(got.get(enum(ctx, t)) == n, t + ':name', f[0].where, 'boundary type %s is named %s, documented as %s' % (t, got.get(enum(ctx, t)), n))
    ctx.ob(len(pairs) == len(got) == len(set(got.values())) == len(NAMES), 'names:bijection', f[0].where, 'the table of boundary type names is not one-to-one')

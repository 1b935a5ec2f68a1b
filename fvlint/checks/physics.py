"""P01-P03: thermodynamic relations, their derivatives, and pointwise viscous fluxes."""
from .. import vg, flowspec as fs
from ..vg import const, Fraction, ap
from ..ast import AnalysisBroken, short
from .flux import text, COMP

half = const(Fraction(1, 2))


class Ph:
    """name-resolved access to the gas-physics methods of an engine"""
    def __init__(self, ctx, eng):
        self.eng, self.prog, self.this = eng, ctx.prog, fs.physics(eng)

    def fn(self, name, np):
        for f in self.prog.fns.values():
            if f.cls == fs.PHY and f.name == name and len(f.params) == np:
                return f
        raise AnalysisBroken('anchor vanished: IdealGasPhysics::%s/%d' % (name, np))

    def __call__(self, name, *vals):
        return self.eng.invoke_values(self.fn(name, len(vals)), self.this, list(vals))

    def arr(self, vals):
        return self.eng.array('in', vals)

    def zeros(self, n):
        return self.eng.array('out', [const(0)] * n)

    def garbage(self):
        return self.eng.out('out')


def compare(ctx, items):
    """items: list of (key, where, got, want, text)"""


def relations(ctx):
    ctx.rule('Value-graph equality of every thermodynamic conversion with the ideal-gas relations that define it, for all states '
             'with positive density and pressure and all positive gas parameters; round trips are the identity.')
    p = ctx.prog

    def body(eng):
        out = []
        ph = Ph(ctx, eng)
        g, gm1 = eng.g, eng.gm1
        M, Tinf, Re, Pr = eng.pars[1:]
        s = fs.state(eng, 'u'); n = fs.normal(eng)
        u = ph.arr(s.u); nn = ph.arr(n)
        m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
        gM2 = m(g, m(M, M))
        T = d(m(gM2, s.p), s.rho)
        c = eng.sqrt(d(m(g, s.p), s.rho))
        vn = a(m(s.v[0], n[0]), m(s.v[1], n[1]))
        H = d(a(s.u[3], s.p), s.rho)

        def eq(key, np, got, want, what):
            out.append((key, ph.fn(key.split(':')[0], np).where, eng.differences(got, want), what))

        eq('getPressureFromConserved', 1, ph('getPressureFromConserved', u), s.p, 'pressure of a conserved state')
        ie = sub(s.u[3], m(m(half, s.rho), s.v2))
        eq('getPressure', 1, ph('getPressure', ie), s.p, 'pressure from internal energy')
        eq('getTemperature', 2, ph('getTemperature', s.rho, s.p), T, 'temperature from density and pressure')
        eq('getTemperatureFromConserved', 1, ph('getTemperatureFromConserved', u), T, 'temperature of a conserved state')
        eq('getSoundSpeed', 2, ph('getSoundSpeed', s.rho, s.p), c, 'speed of sound')
        eq('getSoundSpeedFromConserved', 1, ph('getSoundSpeedFromConserved', u), c, 'speed of sound of a conserved state')
        eq('getEntropyFromConserved', 1, ph('getEntropyFromConserved', u), d(s.p, eng.pow(s.rho, g)), 'entropy p/rho^gamma')
        eq('getEnergyFromPressure', 3, ph('getEnergyFromPressure', s.p, s.rho, s.v2), s.u[3], 'total energy from pressure')
        eq('getEnergyFromTemperature', 3, ph('getEnergyFromTemperature', T, s.rho, s.v2), s.u[3], 'total energy from temperature')
        eq('getDensityFromPressureTemperature', 2, ph('getDensityFromPressureTemperature', s.p, T), s.rho, 'density from pressure and temperature')
        prim = [s.rho, s.v[0], s.v[1], s.p]
        prim2 = [s.rho, s.v[0], s.v[1], T]
        o = ph.garbage(); ph('getPrimitiveFromConserved', u, o)
        for i, (x, y) in enumerate(zip(eng.read(o, 4), prim)):
            eq('getPrimitiveFromConserved:%d' % i, 2, x, y, 'primitive variable %d' % i)
        o = ph.garbage(); ph('getConservedFromPrimitive', ph.arr(prim), o)
        for i, (x, y) in enumerate(zip(eng.read(o, 4), s.u)):
            eq('getConservedFromPrimitive:%d' % i, 2, x, y, 'conserved variable %d' % i)
        o = ph.garbage(); ph('getPrimitive2FromConserved', u, o)
        for i, (x, y) in enumerate(zip(eng.read(o, 4), prim2)):
            eq('getPrimitive2FromConserved:%d' % i, 2, x, y, 'primitive-2 variable %d' % i)
        # in-place conversions (same array for input and output) must agree
        for nm, src, dst in (('getPrimitiveFromConserved', s.u, prim), ('getConservedFromPrimitive', prim, s.u),
                             ('getPrimitive2FromConserved', s.u, prim2)):
            w = ph.arr(src); ph(nm, w, w)
            for i, (x, y) in enumerate(zip(eng.read(w, 4), dst)):
                eq(nm + ':inplace%d' % i, 2, x, y, 'in-place conversion, variable %d' % i)
        eq('getEnergyFromPrimitive', 1, ph('getEnergyFromPrimitive', ph.arr(prim)), s.u[3], 'energy from primitive variables')
        eq('getEnergyFromPrimitive2', 1, ph('getEnergyFromPrimitive2', ph.arr(prim2)), s.u[3], 'energy from primitive-2 variables')
        eq('getTemperatureFromPrimitive', 1, ph('getTemperatureFromPrimitive', ph.arr(prim)), T, 'temperature from primitive variables')
        # change of pressure between two states
        t = fs.state(eng, 'w')
        du = ph.arr([sub(x, y) for x, y in zip(t.u, s.u)])
        dpv = ph('getDeltaPressureFromConserved', u, du)
        eq('getDeltaPressureFromConserved', 2, dpv, sub(t.p, s.p), 'pressure change between two states')
        # recorded defect: sum over components 2,3 with reversed sign
        w = const(0)
        for i in (2, 3):
            x, y = s.u[i], t.u[i]
            w = sub(w, sub(m(m(m(a(x, y), a(s.u[0], t.u[0])), half), sub(y, x)),
                           m(m(a(m(x, x), m(y, y)), half), sub(t.u[0], s.u[0]))))
        w = m(gm1, sub(sub(t.u[3], s.u[3]), d(w, m(const(2), m(s.u[0], t.u[0])))))
        out[-1] += ('getDeltaPressureFromConserved:components', eng.differences(dpv, w))
        # vars from conserved
        v, vno, po, Ho = ph.garbage(), ph.garbage(), ph.garbage(), ph.garbage()
        ph('getVarsFromConserved', u, nn, v, vno, po, Ho)
        for i, (x, y) in enumerate(zip(eng.read(v, 2) + eng.read(vno, 1) + eng.read(po, 1) + eng.read(Ho, 1),
                                       [s.v[0], s.v[1], vn, s.p, H])):
            eq('getVarsFromConserved:%d' % i, 6, x, y, ('x velocity', 'y velocity', 'normal velocity', 'pressure', 'total enthalpy')[i])
        ex = fs.exact_flux(eng, s, n)
        o = ph.garbage(); ph('getDirectionalFlux', u, nn, vn, s.p, o)
        for i, (x, y) in enumerate(zip(eng.read(o, 4), ex)):
            eq('getDirectionalFlux:%d' % i, 5, x, y, COMP[i] + ' component of the analytical flux')
        o = ph.garbage(); ph('getDirectionalFluxFromConserved', u, nn, o)
        for i, (x, y) in enumerate(zip(eng.read(o, 4), ex)):
            eq('getDirectionalFluxFromConserved:%d' % i, 3, x, y, COMP[i] + ' component of the analytical flux')
        # transport properties (Sutherland's law, non-dimensional, S = 110.5 K; mu(T=1)=1/Re)
        th = eng.atom('T', 1)
        S = d(const(Fraction(221, 2)), Tinf)
        mu = lambda t: d(m(d(a(const(1), S), a(t, S)), eng.pow(t, const(Fraction(3, 2)))), Re)
        eq('getViscosityCoeffFromTemperature', 1, ph('getViscosityCoeffFromTemperature', th), mu(th), 'Sutherland viscosity')
        eq('getViscosityCoeffFromConserved', 1, ph('getViscosityCoeffFromConserved', u), mu(T), 'Sutherland viscosity of a state')
        eq('getConstantViscosityCoeff', 0, ph('getConstantViscosityCoeff'), d(const(1), Re), 'constant viscosity')
        muh = eng.atom('mu', 1)
        eq('getThermalConductivityFromViscosity', 1, ph('getThermalConductivityFromViscosity', muh),
           d(muh, m(m(M, M), m(gm1, Pr))), 'thermal conductivity')
        # free stream: rho=1, |v|=1 along the angle of attack, T=1
        pinf = d(const(1), gM2)
        eq('getFreestreamPressure', 0, ph('getFreestreamPressure'), pinf, 'free-stream pressure (unit density and temperature)')
        aoa = eng.atom('aoa')
        fw = ph('compute_freestream_state', aoa)
        q = eng.field(fw, '_a') if isinstance(fw, vg.Ptr) else None
        if q is None:
            raise AnalysisBroken('free-stream state is not analysable')
        F = eng.read(q, 4)
        eq('compute_freestream_state:0', 1, F[0], const(1), 'free-stream density')
        eq('compute_freestream_state:speed', 1, a(m(F[1], F[1]), m(F[2], F[2])), const(1), 'free-stream speed')
        eq('compute_freestream_state:3', 1, F[3], a(d(pinf, gm1), half), 'free-stream total energy')
        ang = vg.m_trig_value(eng, aoa)
        eq('compute_freestream_state:1', 1, F[1], ang[0], 'free-stream x momentum is cos(angle of attack)')
        eq('compute_freestream_state:2', 1, F[2], ang[1], 'free-stream y momentum is sin(angle of attack)')
        # stress tensor: Newtonian fluid with Stokes' hypothesis
        gr = [[eng.atom('g%d%d' % (i, j)) for j in range(4)] for i in range(2)]
        st = ph.zeros(4)
        ph('getStressTensor', muh, ph.arr(gr[0] + gr[1]), st)
        st = eng.read(st, 4)
        div = a(gr[0][1], gr[1][2])
        for i in range(2):
            for j in range(2):
                w = m(muh, a(gr[i][j + 1], gr[j][i + 1]))
                if i == j:
                    w = sub(w, m(m(const(Fraction(2, 3)), muh), div))
                eq('getStressTensor:%d%d' % (i, j), 3, st[2 * i + j], w, 'viscous stress component')
        ctx.count('functions inlined', len(eng.called))
        return out

    r = ctx.guard('gas relations', vg.attempt, p, body, seed=ctx.seed)
    for key, where, diff, what, *kn in r or []:
        ctx.ob_known(diff, kn[1] if kn else True, key, kn[0] if kn else None, where, '%s is not the ideal-gas relation (%s)' % (what, text(diff)))


def derivatives(ctx):
    ctx.rule('Value-graph equality of every hand-written derivative (Jacobian or gradient transformation) of the gas physics with '
             'the forward-mode derivative of the quantity it differentiates.')
    p = ctx.prog

    def body(eng):
        out = []
        ph = Ph(ctx, eng)
        M, Tinf, Re, Pr = eng.pars[1:]
        m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
        s = fs.state(eng, 'u', 0); n = fs.normal(eng)
        nn = ph.arr(n)
        u = ph.arr(s.u)
        pu = ph.arr([fs.plain(x) for x in s.u])
        pl = fs.plain

        def eq(key, np, got, want, what):
            out.append((key, ph.fn(key.split(':')[0], np).where, eng.differences(got, want), what))

        def row(key, np, arr, val, what, n0=0):
            for k, x in enumerate(arr):
                eq('%s:%s%d' % (key, what.replace(' ', '-'), k), np, x, fs.dpart(val, k), 'derivative of %s w.r.t. u%d' % (what, k))

        V2 = d(a(m(s.u[1], s.u[1]), m(s.u[2], s.u[2])), m(s.u[0], s.u[0]))
        p_ = ph('getPressureFromConserved', u)
        T_ = ph('getTemperatureFromConserved', u)
        c_ = ph('getSoundSpeedFromConserved', u)
        o = ph.zeros(4); ph('getJacobianVmag2WrtConserved', pu, o); row('getJacobianVmag2WrtConserved', 2, eng.read(o, 4), V2, 'speed squared')
        o = ph.zeros(4); ph('getJacobianPressureWrtConserved', pu, o); dp = eng.read(o, 4)
        row('getJacobianPressureWrtConserved', 2, dp, p_, 'pressure')
        r2 = pl(a(m(s.u[1], s.u[1]), m(s.u[2], s.u[2])))
        o = ph.zeros(4); ph('getJacobianPressureWrtConserved', pu, r2, o); row('getJacobianPressureWrtConserved:3', 3, eng.read(o, 4), p_, 'pressure')
        o = ph.zeros(4); ph('getJacobianTemperature', pl(s.u[0]), pl(p_), ph.arr(dp), o); row('getJacobianTemperature', 4, eng.read(o, 4), T_, 'temperature')
        o = ph.zeros(4); ph('getJacobianTemperatureWrtConserved', pu, o); dT = eng.read(o, 4)
        row('getJacobianTemperatureWrtConserved', 2, dT, T_, 'temperature')
        o = ph.zeros(4); ph('getJacobianSoundSpeed', pl(s.u[0]), pl(p_), ph.arr(dp), pl(c_), o); row('getJacobianSoundSpeed', 5, eng.read(o, 4), c_, 'sound speed')
        o = ph.zeros(4); ph('getJacobianSoundSpeedWrtConserved', pu, o); row('getJacobianSoundSpeedWrtConserved', 2, eng.read(o, 4), c_, 'sound speed')
        vn = d(a(m(s.u[1], n[0]), m(s.u[2], n[1])), s.u[0])
        o = ph.zeros(4); ph('getJacobianMachNormalWrtConserved', pu, nn, o); row('getJacobianMachNormalWrtConserved', 3, eng.read(o, 4), d(vn, c_), 'normal Mach number')
        # energy from T and |v|^2 with given derivatives
        def lin(nm):
            x = eng.atom(nm, 1)
            dd = [eng.atom('%s_%d' % (nm, i)) for i in range(4)]
            return vg.Num(x.v, tuple(y.v for y in dd), None, 1), x, dd
        Ts, Tp, dTs = lin('T'); Vs, Vp, dVs = lin('V')
        o = ph.zeros(4); ph('getJacobianEnergyFromJacobiansTemperatureVmag2', Tp, pl(s.u[0]), Vp, ph.arr(dTs), ph.arr(dVs), o)
        row('getJacobianEnergyFromJacobiansTemperatureVmag2', 6, eng.read(o, 4), ph('getEnergyFromTemperature', Ts, s.u[0], Vs), 'energy')
        Ps, Pp, dPs = lin('P')
        o = ph.zeros(4); ph('getJacobianDensityFromJacobiansPressureTemperature', Pp, Tp, ph.arr(dPs), ph.arr(dTs), o)
        row('getJacobianDensityFromJacobiansPressureTemperature', 5, eng.read(o, 4), ph('getDensityFromPressureTemperature', Ps, Ts), 'density')
        # analytical flux
        o = ph.garbage(); ph('getJacobianDirectionalFluxWrtConserved', pu, nn, o)
        J = eng.read(o, 16)
        f = ph.garbage(); ph('getDirectionalFluxFromConserved', u, nn, f)
        for i, x in enumerate(eng.read(f, 4)):
            row('getJacobianDirectionalFluxWrtConserved', 3, J[4 * i:4 * i + 4], x, COMP[i] + ' flux')
        # vars
        dv, dvn, dpp, dH = ph.zeros(8), ph.zeros(4), ph.zeros(4), ph.zeros(4)
        ph('getJacobianVarsWrtConserved', pu, nn, dv, dvn, dpp, dH)
        v, vno, po, Ho = ph.garbage(), ph.garbage(), ph.garbage(), ph.garbage()
        ph('getVarsFromConserved', u, nn, v, vno, po, Ho)
        DV = eng.read(dv, 8); v = eng.read(v, 2)
        for j in range(2):
            row('getJacobianVarsWrtConserved', 6, DV[4 * j:4 * j + 4], v[j], 'velocity %d' % j)
        row('getJacobianVarsWrtConserved', 6, eng.read(dvn, 4), eng.read(vno, 1)[0], 'normal velocity')
        row('getJacobianVarsWrtConserved', 6, eng.read(dpp, 4), eng.read(po, 1)[0], 'pressure')
        row('getJacobianVarsWrtConserved', 6, eng.read(dH, 4), eng.read(Ho, 1)[0], 'enthalpy')
        # primitive-2
        o = ph.zeros(16); ph('getJacobianPrimitive2WrtConserved', pu, o); J = eng.read(o, 16)
        w = ph.garbage(); ph('getPrimitive2FromConserved', u, w)
        for i, x in enumerate(eng.read(w, 4)):
            row('getJacobianPrimitive2WrtConserved', 2, J[4 * i:4 * i + 4], x, 'primitive-2 variable %d' % i)
        # viscosity
        o = ph.zeros(4); ph('getJacobianSutherlandViscosityWrtConserved', pu, o)
        got = eng.read(o, 4)
        row('getJacobianSutherlandViscosityWrtConserved', 2, got, ph('getViscosityCoeffFromConserved', u), 'Sutherland viscosity')
        # recorded defect: T^(-3/2) instead of T^(1/2)
        S = d(const(Fraction(221, 2)), Tinf); T0 = pl(T_); TS = a(T0, S)
        for k in range(4):
            T15 = eng.pow(T0, const(Fraction(3, 2)))
            bad = d(m(d(a(const(1), S), Re), sub(m(m(m(const(Fraction(3, 2)), d(const(1), T15)), dT[k]), TS), m(T15, dT[k]))), m(TS, TS))
            out[-4 + k] += ('getJacobianSutherlandViscosityWrtConserved:exponent', eng.differences(got[k], bad))
        Ms, Mp, dMs = lin('mu')
        o = ph.garbage(); ph('getJacobianThermCondWrtConservedFromJacobianSutherViscWrtConserved', ph.arr(dMs), o)
        row('getJacobianThermCondWrtConservedFromJacobianSutherViscWrtConserved', 2, eng.read(o, 4),
            ph('getThermalConductivityFromViscosity', Ms), 'thermal conductivity')
        # gradients as directional derivatives
        gu = [eng.atom('gu%d' % i) for i in range(4)]
        def along(x):
            t = const(0)
            for k in range(4):
                t = a(t, m(fs.dpart(x, k), gu[k]))
            return t
        eq('getGradPressureFromConservedAndGradConserved', 2, ph('getGradPressureFromConservedAndGradConserved', pu, ph.arr(gu)), along(p_), 'pressure gradient')
        eq('getGradTemperatureFromConservedAndGradConserved', 2, ph('getGradTemperatureFromConservedAndGradConserved', pu, ph.arr(gu)), along(T_), 'temperature gradient')
        eq('getGradTemperature', 4, ph('getGradTemperature', pl(s.u[0]), gu[0], pl(p_), along(p_)), along(T_), 'temperature gradient')
        gpr = [gu[0], eng.atom('gv0'), eng.atom('gv1'), along(p_)]
        eq('getGradTemperatureFromConservedAndGradPrimitive', 2, ph('getGradTemperatureFromConservedAndGradPrimitive', pu, ph.arr(gpr)), along(T_), 'temperature gradient')
        w2 = eng.read(w, 4)
        for tag in ('', 'inplace'):
            src = ph.arr(gu)
            dst = src if tag else ph.garbage()
            ph('getGradPrimitive2FromConservedAndGradConserved', pu, src, dst)
            for i, x in enumerate(eng.read(dst, 4)):
                eq('getGradPrimitive2FromConservedAndGradConserved:%s%d' % (tag, i), 3, x, along(w2[i]), 'gradient of primitive-2 variable %d' % i)
        # stress
        muS, muP, dmu = lin('visc')
        gS, gP, dg = [], [], []
        for i in range(2):
            for j in range(4):
                x, y, z = lin('grad%d%d' % (i, j)); gS.append(vg.Num(x.v, x.d)); gP.append(vg.Num(y.v)); dg += z
        st = ph.zeros(4); ph('getStressTensor', muS, ph.arr(gS), st); st = eng.read(st, 4)
        so, ds = ph.zeros(4), ph.zeros(16)
        ph('getJacobianStress', muP, ph.arr(dmu), ph.arr(gP), ph.arr(dg), so, ds)
        so, ds = eng.read(so, 4), eng.read(ds, 16)
        for i in range(4):
            eq('getJacobianStress:value%d' % i, 6, so[i], pl(st[i]), 'stress returned with its Jacobian')
            row('getJacobianStress', 6, ds[4 * i:4 * i + 4], st[i], 'stress %d' % i)
        ctx.count('functions inlined', len(eng.called))
        return out

    r = ctx.guard('physics derivatives', vg.attempt, p, body, seed=ctx.seed, nd=4)
    for key, where, diff, what, *kn in r or []:
        ctx.ob_known(diff, kn[1] if kn else True, key, kn[0] if kn else None, where, '%s differs from the derivative of the underlying quantity (%s)' % (what, text(diff)))

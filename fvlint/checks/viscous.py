"""P03: pointwise viscous flux and its Jacobian; S02: unique face gradients."""
from .. import vg, flowspec as fs
from ..vg import const, Fraction
from ..ast import AnalysisBroken, short
from .flux import text, COMP
from .physics import Ph

half = const(Fraction(1, 2))


def instances(prog, name, pos, nparams):
    """instantiations of a function template keyed by the truth of its boolean template argument"""
    out = {}
    for f in prog.fns.values():
        if f.name == name and len(f.params) == nparams and '<' in f.q:
            args = [x.strip() for x in f.q[f.q.rindex('<' + f.q.split('<', 1)[1].split('<')[0]):].strip('<>').split(',')]
            out['true' in args[-1]] = f
    if not out:
        raise AnalysisBroken('anchor vanished: ' + name)
    return out


def targs(f):
    q = f.q
    i = q.rfind('<')
    return [x.strip() for x in q[i + 1:q.rfind('>')].split(',')]


def inst(prog, name, nparams):
    fs_ = [f for f in prog.fns.values() if f.name == name and len(f.params) == nparams]
    if not fs_:
        raise AnalysisBroken('anchor vanished: ' + name)
    return fs_


def visc_flux_spec(eng, mu, n, gr, ul, ur):
    """-(tau.n) and -(tau.v + k grad T).n from the definitions; all inputs may carry derivatives"""
    m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
    M, Tinf, Re, Pr = eng.pars[1:]
    k = d(mu, m(m(M, M), m(eng.gm1, Pr)))
    div = a(gr[0][1], gr[1][2])
    tau = [[m(mu, a(gr[i][j + 1], gr[j][i + 1])) for j in range(2)] for i in range(2)]
    for i in range(2):
        tau[i][i] = sub(tau[i][i], m(m(const(Fraction(2, 3)), mu), div))
    v = [m(half, a(d(ul[j + 1], ul[0]), d(ur[j + 1], ur[0]))) for j in range(2)]
    out = [const(0)]
    for i in range(2):
        out.append(eng.neg(a(m(tau[i][0], n[0]), m(tau[i][1], n[1]))))
    e = const(0)
    for i in range(2):
        e = a(e, m(a(a(m(tau[i][0], v[0]), m(tau[i][1], v[1])), m(k, gr[i][3])), n[i]))
    out.append(eng.neg(e))
    return out


def sutherland(eng, T):
    M, Tinf, Re, Pr = eng.pars[1:]
    S = eng.div(const(Fraction(221, 2)), Tinf)
    return eng.div(eng.mul(eng.div(eng.add(const(1), S), eng.add(T, S)), eng.pow(T, const(Fraction(3, 2)))), Re)


def temperature(eng, u):
    """from (possibly seeded) conserved variables"""
    m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
    M = eng.pars[1]
    ke = d(a(m(u[1], u[1]), m(u[2], u[2])), m(const(2), u[0]))
    p = m(eng.gm1, sub(u[3], ke))
    return d(m(m(eng.g, m(M, M)), p), u[0])


def mudir(eng, e, d, obj, args, env):
    """model of getJacobianSutherlandViscosityWrtConserved: the exact derivative (the function itself is judged by P02)"""
    up, dm = eng.rv(args[0], env), eng.rv(args[1], env)
    q = [eng.load(eng.st, eng.padd(up, const(i), 'double *'), 'double') for i in range(4)]
    sd = [vg.Num(fs.plain(x).v, tuple(1 if k == i else 0 for k in range(8)), None, 0) for i, x in enumerate(q)]
    sd[0] = vg.Num(sd[0].v, sd[0].d, None, 1)
    val = sutherland(eng, temperature(eng, sd))
    for i in range(4):
        loc = eng.padd(dm, const(i), 'double *')
        eng.store(eng.st, loc, eng.add(eng.load(eng.st, loc, 'double'), fs.dpart(val, i)))
    return vg.Opaque('void')


def pointwise(ctx):
    ctx.rule('Value-graph equality of the pointwise viscous flux with minus the projected Newtonian stress, the work of that stress '
             'at the mean velocity and Fourier heat conduction (viscosity 1/Re or the mean of the two Sutherland values); of '
             'its Jacobian with the forward-mode derivative, given the derivatives of the face gradient and a correct viscosity '
             'derivative; and of the conversion to velocity/temperature states and gradients with its defining relations.')
    p = ctx.prog
    for f in inst(p, 'computeViscousFlux', 6):
        cv = targs(f)[-1] in ('true', '1')
        tag = 'constant viscosity' if cv else 'Sutherland'
        jf = [x for x in inst(p, 'computeViscousFluxJacobian', 9) if (targs(x)[-1] in ('true', '1')) == cv]
        ctx.require(jf, 'computeViscousFluxJacobian has no %s instance' % tag)
        jf = jf[0]

        def body(eng):
            ph = fs.physics(eng); n = fs.normal(eng)
            s = fs.state(eng, 'l', 0); t = fs.state(eng, 'r', 4)
            gr, gp, dgl, dgr = [], [], [], []
            for i in range(2):
                gr.append([]); gp.append([])
                for j in range(4):
                    x = eng.atom('g%d%d' % (i, j))
                    dd = [eng.atom('dg%d%d_%d' % (i, j, k)) for k in range(8)]
                    gr[i].append(vg.Num(x.v, tuple(y.v for y in dd)))
                    gp[i].append(x)
                    dgl += dd[:4]; dgr += dd[4:]
            if cv:
                mu = eng.div(const(1), eng.pars[3])
            else:
                mu = eng.mul(half, eng.add(sutherland(eng, temperature(eng, s.u)), sutherland(eng, temperature(eng, t.u))))
            want = visc_flux_spec(eng, mu, n, gr, s.u, t.u)
            pl = fs.plain
            A = eng.array
            u1, u2 = A('ul', [pl(x) for x in s.u]), A('ur', [pl(x) for x in t.u])
            o = eng.out('flux')
            eng.invoke_values(f, None, [ph, A('n', n), A('grad', gp[0] + gp[1]), u1, u2, o])
            F = eng.read(o, 4)
            res = [('value:%d' % i, f.where, eng.differences(F[i], pl(want[i])),
                    COMP[i] + ' viscous flux is not -(stress, work and conduction).n') for i in range(4)]
            # Jacobian; the viscosity derivative itself is judged by P02
            eng.models['getJacobianSutherlandViscosityWrtConserved'] = mudir
            j0 = [eng.atom('dl0_%d' % i) for i in range(16)]; j1 = [eng.atom('dr0_%d' % i) for i in range(16)]
            di, dj = A('dvfi', j0), A('dvfj', j1)
            eng.invoke_values(jf, None, [ph, A('n', n), u1, u2, A('grad', gp[0] + gp[1]), A('dgradl', dgl), A('dgradr', dgr), di, dj])
            L, R = eng.read(di, 16), eng.read(dj, 16)
            for i in range(4):
                for k in range(4):
                    res.append(('left:%d%d' % (i, k), jf.where, eng.differences(eng.sub(L[4 * i + k], j0[4 * i + k]), eng.neg(fs.dpart(want[i], k))),
                                'entry d(%s)/d(u%d left) added to the Jacobian' % (COMP[i], k)))
                    res.append(('right:%d%d' % (i, k), jf.where, eng.differences(eng.sub(R[4 * i + k], j1[4 * i + k]), fs.dpart(want[i], 4 + k)),
                                'entry d(%s)/d(u%d right) added to the Jacobian' % (COMP[i], k)))
            ctx.count('functions inlined', len(eng.called))
            return res
        for key, where, d, what in ctx.guard(tag, vg.attempt, p, body, seed=ctx.seed, nd=8) or []:
            ctx.ob(not d, '%s:%s' % (tag, key), where, '%s: %s (%s)' % (tag, what, text(d)))

    for f in inst(p, 'getPrimitive2StatesAndGradients', 9):
        so = targs(f)[-1] in ('true', '1')

        def body(eng):
            ph = fs.physics(eng)
            s = fs.state(eng, 'l'); t = fs.state(eng, 'r')
            res = []
            m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
            M = eng.pars[1]
            A = eng.array
            gl = [eng.atom('gl%d' % i) for i in range(8)]; gr = [eng.atom('gr%d' % i) for i in range(8)]
            w = [[q.rho, q.v[0], q.v[1], temperature(eng, q.u)] for q in (s, t)]
            def gT(q, g, j):      # T = gamma M^2 p / rho
                return m(m(eng.g, m(M, M)), d(sub(m(g[4 * j + 3], q.rho), m(q.p, g[4 * j])), m(q.rho, q.rho)))
            for tag in ('', 'inplace'):
                a1, a2, g1, g2 = A('ul', s.u), A('ur', t.u), A('gl', gl), A('gr', gr)
                if tag:
                    o1, o2, h1, h2 = a1, a2, g1, g2
                else:
                    o1, o2, h1, h2 = eng.out('o1'), eng.out('o2'), eng.out('h1'), eng.out('h2')
                if not so:
                    g1 = g2 = h1 = h2 = vg.NULL
                eng.invoke_values(f, None, [ph, a1, a2, g1, g2, o1, o2, h1, h2])
                for side, o, ww in (('left', o1, w[0]), ('right', o2, w[1])):
                    for i, x in enumerate(eng.read(o, 4)):
                        res.append(('%s:%s:%d' % (tag, side, i), eng.differences(x, ww[i]), '%s primitive-2 variable %d' % (side, i)))
                if so:
                    for side, h, q, g in (('left', h1, s, gl), ('right', h2, t, gr)):
                        H = eng.read(h, 8)
                        for j in range(2):
                            for i in range(4):
                                want = g[4 * j + i] if i < 3 else gT(q, g, j)
                                res.append(('%s:grad:%s:%d%d' % (tag, side, j, i), eng.differences(H[4 * j + i], want),
                                            '%s gradient component %d of primitive-2 variable %d' % (side, j, i)))
            return res
        nm = 'second order' if so else 'first order'
        for key, d, what in ctx.guard('primitive-2 ' + nm, vg.attempt, p, body, seed=ctx.seed) or []:
            ctx.ob(not d, 'states:%s:%s' % (nm, key), f.where, '%s: %s (%s)' % (nm, what, text(d)))

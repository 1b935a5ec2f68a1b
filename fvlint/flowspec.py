"""Input algebra shared by the flow checks: gas model, states, unit normals."""
from . import vg
from .vg import Num, const, ZERO, ONE, Ptr, Obj
from .ast import AnalysisBroken, short

PHY = 'fvens::IdealGasPhysics<double>'


def physics(eng):
    gm1 = eng.atom('gamma-1', 1)
    g = eng.add(ONE, gm1)
    eng.positives[g.v] = 'gamma'
    pars = [g] + [eng.atom(n, 1) for n in ('Minf', 'Tinf', 'Reinf', 'Pr')]
    if PHY not in eng.prog.records:
        raise AnalysisBroken('anchor vanished: class IdealGasPhysics')
    ph = eng.make(PHY, pars)
    eng.g, eng.gm1 = g, gm1
    eng.pars = pars
    return ph


def normal(eng, name='n'):
    """unit normal by rational parametrisation of the circle"""
    t = eng.atom(name + '.t')
    t2 = eng.mul(t, t)
    den = eng.add(ONE, t2)
    nx = eng.div(eng.sub(ONE, t2), den)
    ny = eng.div(eng.mul(const(2), t), den)
    return [nx, ny]


class State4:
    pass


def state(eng, name, seed0=None, prim=False):
    """conserved state from positive density and pressure and arbitrary velocity; optionally seeded for derivatives"""
    s = State4()
    s.rho = eng.atom(name + '.rho', 1)
    s.v = [eng.atom(name + '.v%d' % i) for i in range(2)]
    s.p = eng.atom(name + '.p', 1)
    v2 = eng.add(eng.mul(s.v[0], s.v[0]), eng.mul(s.v[1], s.v[1]))
    s.v2 = v2
    E = eng.add(eng.div(s.p, eng.gm1), eng.mul(eng.mul(const(vg.Fraction(1, 2)), s.rho), v2))
    eng.positives[E.v] = name + '.E'
    s.u = [s.rho, eng.mul(s.rho, s.v[0]), eng.mul(s.rho, s.v[1]), E]
    if seed0 is not None:
        s.u = [eng.seedvar(x, seed0 + i) for i, x in enumerate(s.u)]
    s.c2 = eng.div(eng.mul(eng.g, s.p), s.rho)
    return s


def exact_flux(eng, s, n):
    """the analytical Euler flux f(u).n, from the statement of the equations"""
    vn = eng.add(eng.mul(s.v[0], n[0]), eng.mul(s.v[1], n[1]))
    u = s.u
    return [eng.mul(u[0], vn),
            eng.add(eng.mul(u[1], vn), eng.mul(s.p, n[0])),
            eng.add(eng.mul(u[2], vn), eng.mul(s.p, n[1])),
            eng.mul(eng.add(u[3], s.p), vn)]


def exact_flux_full(eng, s, n):
    """as exact_flux, but built from the (possibly seeded) conserved variables so that derivatives propagate"""
    u = s.u
    vn = eng.div(eng.add(eng.mul(u[1], n[0]), eng.mul(u[2], n[1])), u[0])
    ke = eng.div(eng.add(eng.mul(u[1], u[1]), eng.mul(u[2], u[2])), eng.mul(const(2), u[0]))
    p = eng.mul(eng.gm1, eng.sub(u[3], ke))
    return [eng.mul(u[0], vn),
            eng.add(eng.mul(u[1], vn), eng.mul(p, n[0])),
            eng.add(eng.mul(u[2], vn), eng.mul(p, n[1])),
            eng.mul(eng.add(u[3], p), vn)]


def dpart(x, i):
    """i-th derivative component of a gated number, as a gated number"""
    def f(y):
        if y is vg.UNDEF:
            return y
        return Num(y.d[i] if y.d is not None else 0)
    return vg.ap(f, x)


def plain(x):
    return vg.ap(lambda y: y if y is vg.UNDEF else Num(y.v, None, y.c, y.s), x)


def contact_axiom(s, t, n):
    """Ordering of the three HLLC signal speeds: for signal speeds a, b bounding the Riemann fan, the contact speed
    s_M(a,b) of Batten et al. lies between them.  Instances are recognised by value number, not by name."""
    def ax(eng, forms):
        un = lambda q: eng.add(eng.mul(q.v[0], n[0]), eng.mul(q.v[1], n[1]))
        ul, ur = fv(un(s)), fv(un(t))
        rl, rr, pl, pr = fv(s.rho), fv(t.rho), fv(s.p), fv(t.p)
        P = vg.P
        out = []
        cand = set(forms) | {P - f for f in forms}
        for a in cand:
            for b in cand:
                den = (rr * (b - ur) - rl * (a - ul)) % P
                if den == 0:
                    continue
                sm = (rr * ur % P * (b - ur) - rl * ul % P * (a - ul) + pl - pr) % P * pow(den, P - 2, P) % P
                if sm in cand:
                    out.append((sm - a) % P)
                    out.append((b - sm) % P)
        return out
    return ax


def fv(x):
    return x.v

"""F01-F03: numerical inviscid fluxes."""
from .. import vg, flowspec as fs
from ..vg import const
from ..ast import AnalysisBroken, short

EXPECT = ('AUSMFlux', 'AUSMPlusFlux', 'HLLCFlux', 'HLLFlux', 'LocalLaxFriedrichsFlux', 'RoeFlux', 'VanLeerFlux')
FROZEN = ('HLLFlux', 'LocalLaxFriedrichsFlux')      # documented as frozen-coefficient linearisations
COMP = ('mass', 'x-momentum', 'y-momentum', 'energy')


def schemes(ctx):
    p = ctx.prog
    out = [q for q in p.subclasses('InviscidFlux') if not p.records[q]['abstract']]
    missing = set(EXPECT) - {short(q) for q in out}
    ctx.require(not missing, 'anchor vanished: flux classes %s' % sorted(missing))
    return out


def method(p, cls, name, np):
    for c in [cls] + p.bases(cls):
        for f in p.fns.values():
            if f.cls == c and f.name == name and len(f.params) == np:
                return f
    raise AnalysisBroken('anchor vanished: %s::%s' % (cls, name))


def text(diffs):
    return '; '.join((d[0] or 'unconditionally')[:200] for d in diffs[:1])


def consistency(ctx):
    ctx.rule('Value-graph equality: for every concrete numerical flux class, F(u,u,n) receives the same value numbers as the '
             'analytical flux rho*vn, rho*v*vn+p*n, (E+p)*vn for all states with positive density and pressure, all unit '
             'normals and all gamma>1, on every feasible gate assignment.')
    p = ctx.prog
    for cls in schemes(ctx):
        f = method(p, cls, 'get_flux', 4)
        def body(eng):
            ph = fs.physics(eng); fl = eng.make(cls, [ph]); n = fs.normal(eng); s = fs.state(eng, 'u')
            o = eng.out('flux')
            eng.invoke_values(f, fl, [eng.array('ul', s.u), eng.array('ur', s.u), eng.array('n', n), o])
            ctx.count('gates', eng.natoms); ctx.count('functions inlined', len(eng.called))
            return [eng.differences(a, b) for a, b in zip(eng.read(o, 4), fs.exact_flux(eng, s, n))]
        r = ctx.guard(cls, vg.attempt, p, body, seed=ctx.seed)
        if r is None:
            continue
        for c, d in zip(COMP, r):
            ctx.ob(not d, '%s:%s' % (short(cls), c), f.where,
                   '%s: %s component for equal states is not the analytical flux (%s)' % (short(cls), c, text(d)))


def antisymmetry(ctx):
    ctx.rule('Value-graph equality: F(a,b,n) and -F(b,a,-n) receive equal value numbers on every feasible gate assignment, for '
             'every concrete numerical flux class (for HLLC under the ordering s_L<=s_M<=s_R of its own signal speeds).')
    p = ctx.prog
    for cls in schemes(ctx):
        f = method(p, cls, 'get_flux', 4)
        def body(eng):
            ph = fs.physics(eng); fl = eng.make(cls, [ph]); n = fs.normal(eng)
            s = fs.state(eng, 'l'); t = fs.state(eng, 'r')
            eng.axioms.append(fs.contact_axiom(s, t, n))
            o, o2 = eng.out('flux'), eng.out('flux2')
            eng.invoke_values(f, fl, [eng.array('ul', s.u), eng.array('ur', t.u), eng.array('n', n), o])
            eng.invoke_values(f, fl, [eng.array('ul', t.u), eng.array('ur', s.u), eng.array('n', [eng.neg(x) for x in n]), o2])
            ctx.count('gates', eng.natoms)
            return [eng.differences(a, eng.neg(b)) for a, b in zip(eng.read(o, 4), eng.read(o2, 4))]
        r = ctx.guard(cls, vg.attempt, p, body, seed=ctx.seed)
        if r is None:
            continue
        for c, d in zip(COMP, r):
            ctx.ob(not d, '%s:%s' % (short(cls), c), f.where,
                   '%s: %s flux changes when the two sides are exchanged and the normal reversed (%s)' % (short(cls), c, text(d)))


def undef(x):
    return x is vg.UNDEF


def jacobian(ctx):
    ctx.rule('Value-graph equality of each Jacobian entry with the forward-mode derivative of the scheme\'s own flux on every '
             'feasible gate assignment (AUSM, HLLC, Roe and any scheme not documented as frozen); for HLL and local '
             'Lax-Friedrichs with the dissipation coefficients solved from the flux and held constant.  A scheme without a '
             'Jacobian must abort on every path instead of returning.')
    p = ctx.prog
    for cls in schemes(ctx):
        f = method(p, cls, 'get_flux', 4)
        j = method(p, cls, 'get_jacobian', 5)
        def body(eng):
            ph = fs.physics(eng); fl = eng.make(cls, [ph]); n = fs.normal(eng)
            s = fs.state(eng, 'l', 0); t = fs.state(eng, 'r', 4)
            eng.axioms.append(fs.contact_axiom(s, t, n))
            o = eng.out('flux')
            eng.invoke_values(f, fl, [eng.array('ul', s.u), eng.array('ur', t.u), eng.array('n', n), o])
            dl, dr = eng.out('dl'), eng.out('dr')
            pl = [fs.plain(x) for x in s.u]; pr = [fs.plain(x) for x in t.u]
            eng.invoke_values(j, fl, [eng.array('ul', pl), eng.array('ur', pr), eng.array('n', n), dl, dr])
            dead = eng.st.dead
            F, L, R = eng.read(o, 4), eng.read(dl, 16), eng.read(dr, 16)
            ctx.count('gates', eng.natoms)
            if dead is True:
                return 'rejects', None
            if all(undef(x) for x in L + R):
                return 'garbage', None
            res = {}
            if short(cls) in FROZEN:
                spec, forms = frozen(eng, F, s, t, n)
                for i, d in enumerate(forms):
                    res[('form', i, 0)] = d
            else:
                spec = ([[eng.neg(fs.dpart(F[i], k)) for k in range(4)] for i in range(4)],
                        [[fs.dpart(F[i], 4 + k) for k in range(4)] for i in range(4)])
            roe = roe_fix_defect(eng, s, t, n) if short(cls) == 'RoeFlux' else None
            for i in range(4):
                for k in range(4):
                    for side, sp, J, sg, o in (('left', spec[0], L, 1, 0), ('right', spec[1], R, -1, 4)):
                        d = eng.differences(sp[i][k], J[4 * i + k])
                        w = True
                        if d and roe:
                            # the recorded defect shifts the entry by exactly this amount
                            sh = eng.mul(const(vg.Fraction(sg, 2)), roe(i, o + k))
                            w = eng.differences(eng.add(sp[i][k], sh), J[4 * i + k])
                        res[(side, i, k)] = d if (w or not d) else 'recorded'
            return 'ok', res
        r = ctx.guard(cls, vg.attempt, p, body, nd=8, seed=ctx.seed)
        if r is None:
            continue
        st, res = r
        if st == 'rejects':
            ctx.ob(short(cls) in ('VanLeerFlux', 'AUSMPlusFlux'), '%s:provided' % short(cls), j.where,
                   '%s no longer provides a Jacobian' % short(cls))
        elif st == 'garbage':
            ctx.ob(False, '%s:provided' % short(cls), j.where,
                   '%s::get_jacobian returns without assigning its outputs' % short(cls))
        else:
            for (side, i, k), d in sorted(res.items()):
                if d == 'recorded':
                    ctx.ob(False, 'RoeFlux:entropy-fix-derivative', j.where, 'derivative of the entropy fix')
                    continue
                ctx.ob(not d, '%s:%s:%d%d' % (short(cls), side, i, k), j.where,
                       '%s: Jacobian entry d(%s)/d(u%d %s) is not the derivative of the flux (%s)' % (short(cls), COMP[i], k, side, text(d)))


def frozen(eng, F, s, t, n):
    """F = a f(ul) + (1-a) f(ur) - b (ur-ul): recover a and b from two components, then differentiate with a, b fixed"""
    fl, fr = fs.exact_flux_full(eng, s, n), fs.exact_flux_full(eng, t, n)
    pl = fs.plain
    # unknowns a,b:  F_i - fr_i = a (fl_i - fr_i) - b (ur_i-ul_i)
    A = [[eng.sub(pl(fl[i]), pl(fr[i])), eng.neg(eng.sub(pl(t.u[i]), pl(s.u[i])))] for i in range(2)]
    B = [eng.sub(pl(F[i]), pl(fr[i])) for i in range(2)]
    det = eng.sub(eng.mul(A[0][0], A[1][1]), eng.mul(A[0][1], A[1][0]))
    a = eng.div(eng.sub(eng.mul(B[0], A[1][1]), eng.mul(A[0][1], B[1])), det)
    b = eng.div(eng.sub(eng.mul(A[0][0], B[1]), eng.mul(A[1][0], B[0])), det)
    one = const(1)
    L = [[eng.neg(eng.add(eng.mul(a, fs.dpart(fl[i], k)), b if i == k else const(0))) for k in range(4)] for i in range(4)]
    R = [[eng.sub(eng.mul(eng.sub(one, a), fs.dpart(fr[i], 4 + k)), b if i == k else const(0)) for k in range(4)] for i in range(4)]
    form = []
    for i in range(4):
        w = eng.add(pl(fr[i]), eng.sub(eng.mul(a, A[i][0] if i < 2 else eng.sub(pl(fl[i]), pl(fr[i]))),
                                       eng.mul(b, eng.sub(pl(t.u[i]), pl(s.u[i])))))
        form.append(eng.differences(pl(F[i]), w))
    return (L, R), form


def roe_fix_defect(eng, s, t, n):
    """Recorded defect: the derivative of the entropy-fixed wave speed is evaluated at the already fixed speed.  Returns the
    resulting error in d(sum_k l_k alpha_k r_k)_i / d(u_k), from the textbook Roe scheme."""
    m, a, d, sub = eng.mul, eng.add, eng.div, eng.sub
    def prim(q):
        u = q.u
        v = [d(u[1], u[0]), d(u[2], u[0])]
        ke = d(a(m(u[1], u[1]), m(u[2], u[2])), m(const(2), u[0]))
        p = m(eng.gm1, sub(u[3], ke))
        return u[0], v, p, d(a(u[3], p), u[0])
    rl, vl, pl, Hl = prim(s)
    rr, vr, pr, Hr = prim(t)
    R = eng.sqrt(d(rr, rl)); R1 = a(R, const(1))
    avg = lambda x, y: d(a(m(R, y), x), R1)
    v = [avg(vl[i], vr[i]) for i in range(2)]
    H = avg(Hl, Hr)
    vm2 = a(m(v[0], v[0]), m(v[1], v[1]))
    vn = a(m(v[0], n[0]), m(v[1], n[1]))
    c = eng.sqrt(m(eng.gm1, sub(H, m(const(vg.Fraction(1, 2)), vm2))))
    rho = m(R, rl)
    pn = lambda w: a(m(w[0], n[0]), m(w[1], n[1]))
    devn, dep, derho = sub(pn(vr), pn(vl)), sub(pr, pl), sub(rr, rl)
    c2 = m(c, c)
    al = [d(sub(dep, m(m(rho, c), devn)), m(const(2), c2)), sub(derho, d(dep, c2)), rho, d(a(dep, m(m(rho, c), devn)), m(const(2), c2))]
    dv = [sub(vr[i], vl[i]) for i in range(2)]
    ev = [[const(1), sub(v[0], m(c, n[0])), sub(v[1], m(c, n[1])), sub(H, m(c, vn))],
          [const(1), v[0], v[1], m(const(vg.Fraction(1, 2)), vm2)],
          [const(0), sub(dv[0], m(devn, n[0])), sub(dv[1], m(devn, n[1])), sub(a(m(v[0], dv[0]), m(v[1], dv[1])), m(vn, devn))],
          [const(1), a(v[0], m(c, n[0])), a(v[1], m(c, n[1])), a(H, m(c, vn))]]
    eps = const(vg.Fraction(1, 10000))
    dl = m(eps, c)
    def fabs(x):
        return vg.ite(eng.cmp('>=', x, const(0)), x, eng.neg(x))
    lam = [fabs(sub(vn, c)), fabs(vn), fabs(vn), fabs(a(vn, c))]
    two, four = const(2), const(4)
    def err(l, k):
        """(wrong derivative - right derivative) of the fixed speed"""
        act = eng.cmp('<', fs.plain(l), fs.plain(dl))
        l0, D, dlk, dD = fs.plain(l), fs.plain(dl), fs.dpart(l, k), fs.dpart(dl, k)
        lf = d(a(m(l0, l0), m(D, D)), m(two, D))
        def deriv(x):
            return d(sub(m(m(two, a(m(x, dlk), m(D, dD))), m(two, D)), m(m(a(m(x, x), m(D, D)), two), dD)), m(four, m(D, D)))
        return vg.ite(act, sub(deriv(lf), deriv(l0)), const(0))
    memo = {}
    def total(i, k):
        r = const(0)
        for q in range(4):
            if (q, k) not in memo:
                memo[(q, k)] = err(lam[q], k)
            r = a(r, m(memo[(q, k)], fs.plain(m(al[q], ev[q][i]))))
        return r
    return total

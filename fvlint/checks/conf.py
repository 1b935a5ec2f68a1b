"""C01-C04: configuration - control file to settings, settings to schemes, discretisations and solvers."""
import math
from .. import vg, strs
from ..vg import const, Fraction, Ptr, Obj, Num, Opaque, Node, UNDEF, ZERO, ONE
from ..ast import AnalysisBroken, short, walk
from .bc import NAMES, enum

RULE = ('Abstract interpretation of the resolved syntax tree with constant propagation: every option is a symbolic constant, string options range '
        'over a finite partition (each documented keyword, and one representative of all other strings). ')


def fn(ctx, name, nparams=None, pick=None):
    f = [x for x in ctx.prog.fns.values() if x.name == name and (nparams is None or len(x.params) == nparams)]
    if pick:
        f = [x for x in f if pick(x)] or f
    ctx.require(len(f) >= 1, 'anchor vanished: ' + name)
    return f[0]


PI = [Fraction(x) for x in ('3.14159265358979323846', '3.141592653589793', '3.1415926535897932', '3.14159265358979', '3.14159265358979323846264338327950288')] + [
    Fraction(math.pi), Fraction(math.acos(-1.0)), Fraction('%.17g' % math.pi)]
BASE = {
    'io.mesh_file': '?mesh', 'io.solution_output_file': '?vtu', 'io.log_file_prefix': '?log', 'io.convergence_history_required': True,
    'flow_conditions.flow_type': 'navierstokes', 'flow_conditions.adiabatic_index': 'gamma', 'flow_conditions.angle_of_attack': 'aoa',
    'flow_conditions.freestream_Mach_number': 'Minf', 'flow_conditions.freestream_Reynolds_number': 'Reinf',
    'flow_conditions.freestream_temperature': 'Tinf', 'flow_conditions.Prandtl_number': 'Pr', 'flow_conditions.use_constant_viscosity': True,
    'bc.bc0.type': 'farfield', 'bc.bc0.marker': 4,
    'bc.bc1.type': 'Subsonic_inflow', 'bc.bc1.marker': 3, 'bc.bc1.boundary_values': '?pt ?Tt',
    'bc.bc2.type': 'adiabaticwall', 'bc.bc2.marker': 5, 'bc.bc2.boundary_values': '?vw',
    'bc.bc3.type': 'isothermalWall', 'bc.bc3.marker': 7, 'bc.bc3.boundary_values': '?vt ?Tw',
    'bc.bc4.type': 'periodic', 'bc.bc4.marker': 8, 'bc.bc4.options': '9 1',
    'bc.bc5.type': 'slipwall', 'bc.bc5.marker': 10, 'bc.bc6.type': 'inflowoutflow', 'bc.bc6.marker': 11,
    'bc.bc7.type': 'extrapolation', 'bc.bc7.marker': 12,
    'bc.listof_output_wall_boundaries': '5 7 10', 'bc.listof_output_other_boundaries': '4 11', 'bc.surface_output_file_prefix': '?surf',
    'bc.volume_output_file_prefix': '?vol',
    'time.simulation_type': 'steady',
    'spatial_discretization.inviscid_flux': 'Roe', 'spatial_discretization.gradient_method': 'leastsquares',
    'spatial_discretization.limiter': 'weno', 'spatial_discretization.limiter_parameter': 'limpar',
    'pseudotime.pseudotime_stepping_type': 'implicit',
    'pseudotime.main.cfl_min': 'cfl0', 'pseudotime.main.cfl_max': 'cfl1', 'pseudotime.main.tolerance': 'tol', 'pseudotime.main.max_timesteps': 'maxit',
    'pseudotime.initialization.cfl_min': 'icfl0', 'pseudotime.initialization.cfl_max': 'icfl1', 'pseudotime.initialization.tolerance': 'itol',
    'pseudotime.initialization.max_timesteps': 'imaxit',
    'pseudotime.nonlinear_update_scheme': 'robust_flow', 'pseudotime.min_nonlinear_relaxation_factor': 'minrel',
    'Jacobian_inviscid_flux': 'hllc',
}
OPTIONAL = ('flow_conditions.use_constant_viscosity', 'bc.listof_output_wall_boundaries', 'bc.listof_output_other_boundaries',
            'bc.volume_output_file_prefix', 'spatial_discretization.limiter_parameter', 'pseudotime.min_nonlinear_relaxation_factor')
DOCUMENTED = {v: k for k, v in NAMES.items()}


def without(t, *prefixes):
    return {k: v for k, v in t.items() if not any(k == p or k.startswith(p + '.') for p in prefixes)}


def scenarios():
    b = dict(BASE)
    yield 'documented options', b, {}, {}, False
    yield 'other case of keywords', dict(b, **{'flow_conditions.flow_type': 'NavierStokes', 'spatial_discretization.inviscid_flux': 'hLLc',
                                              'spatial_discretization.gradient_method': 'GreenGauss', 'spatial_discretization.limiter': 'VanAlbada',
                                              'pseudotime.pseudotime_stepping_type': 'Implicit', 'time.simulation_type': 'Steady',
                                              'pseudotime.nonlinear_update_scheme': 'Full', 'Jacobian_inviscid_flux': 'Consistent'}), {}, {}, False
    visc = ['flow_conditions.' + x for x in ('freestream_Reynolds_number', 'freestream_temperature', 'Prandtl_number', 'use_constant_viscosity')]
    yield 'euler', dict(without(b, *visc), **{'flow_conditions.flow_type': 'euler'}), {}, {}, False
    yield 'euler with viscous options', dict(b, **{'flow_conditions.flow_type': 'Euler'}), {}, {}, False
    yield 'rans', dict(b, **{'flow_conditions.flow_type': 'rans'}), {}, {}, True
    yield 'sutherland', dict(b, **{'flow_conditions.use_constant_viscosity': False}), {}, {}, False
    for o in OPTIONAL:
        yield 'without ' + o, without(b, o), {}, {}, False
    yield 'no surface output', without(b, 'bc.listof_output_wall_boundaries', 'bc.listof_output_other_boundaries', 'bc.surface_output_file_prefix'), {}, {}, False
    yield 'no history', dict(b, **{'io.convergence_history_required': False}), {}, {}, False
    yield 'no gradients', dict(b, **{'spatial_discretization.gradient_method': 'none'}), {}, {}, False
    yield 'no limiter', dict(b, **{'spatial_discretization.limiter': 'none'}), {}, {}, False
    yield 'no initialization', without(b, 'pseudotime.initialization'), {}, {}, False
    yield 'explicit', dict(without(b, 'Jacobian_inviscid_flux', 'pseudotime.nonlinear_update_scheme', 'pseudotime.min_nonlinear_relaxation_factor'),
                           **{'pseudotime.pseudotime_stepping_type': 'explicit'}), {}, {}, False
    yield 'consistent', dict(b, **{'Jacobian_inviscid_flux': 'CONSISTENT'}), {}, {}, False
    yield 'unsteady explicit', dict(b, **{'time.simulation_type': 'unsteady', 'time.final_time': 'tfin', 'time.time_integrator': 'tvdrk',
                                          'time.temporal_order': 'torder', 'time.physical_cfl': 'pcfl'}), {}, {}, False
    yield 'unsteady other', dict(b, **{'time.simulation_type': 'unsteady', 'time.final_time': 'tfin', 'time.time_integrator': 'bdf',
                                       'time.temporal_order': 'torder', 'time.physical_time_step': 'pdt'}), {}, {}, False
    yield 'mesh on the command line', b, {'mesh_file': '?cmdmesh'}, {}, False
    yield 'write final system', b, {'write_final_linear_system': True}, {}, False
    yield 'do not write final system', b, {'write_final_linear_system': False}, {}, False
    yield 'log prefix option', b, {}, {'-fvens_log_file_prefix': '?petsclog'}, False
    perm = {'bc.bc0': 'bc.bc3', 'bc.bc3': 'bc.bc0', 'bc.bc1': 'bc.bc5', 'bc.bc5': 'bc.bc1'}
    yield 'other order of boundaries', {(perm[k[:6]] + k[6:] if k[:6] in perm else k): v for k, v in b.items()}, {}, {}, False
    yield 'one boundary', without(b, *['bc.bc%d' % i for i in range(1, 8)]), {}, {}, False
    yield 'unknown boundary type', dict(b, **{'bc.bc2.type': '?other'}), {}, {}, True
    req = [k for k in b if k not in OPTIONAL]
    for k in req:
        if k.startswith('bc.bc') and k.endswith('type') and k != 'bc.bc0.type':
            pass
        yield 'missing ' + k, without(b, k), {}, {}, True


def expected(eng, tree, cmd, petsc, ctx):
    """what the documentation of the control file promises; values: Num, bool, text, list"""
    a = lambda n: eng.atom('opt:' + n)
    num = lambda path: a(tree[path]) if isinstance(tree[path], str) else const(tree[path])
    U = lambda path: strs.upper(tree[path])
    E = {}
    E['meshfile'] = cmd.get('mesh_file', tree['io.mesh_file'])
    E['vtu_output_file'] = tree['io.solution_output_file']
    E['logfile'] = petsc.get('-fvens_log_file_prefix', tree['io.log_file_prefix'])
    E['lognres'] = tree['io.convergence_history_required']
    E['write_final_lin_sys'] = cmd.get('write_final_linear_system', False)
    E['flowtype'] = U('flow_conditions.flow_type')
    E['gamma'] = num('flow_conditions.adiabatic_index')
    E['alpha'] = ('radians', num('flow_conditions.angle_of_attack'))
    E['Minf'] = num('flow_conditions.freestream_Mach_number')
    v = E['flowtype'] == 'NAVIERSTOKES'
    E['viscsim'] = v
    if v:
        E['Tinf'], E['Reinf'] = num('flow_conditions.freestream_temperature'), num('flow_conditions.freestream_Reynolds_number')
        E['Pr'] = num('flow_conditions.Prandtl_number')
        E['useconstvisc'] = tree.get('flow_conditions.use_constant_viscosity', False)
    else:
        E['useconstvisc'] = False
    lst = lambda path: [const(int(x)) for x in tree[path].split()] if path in tree else []
    E['lwalls'], E['lothers'] = lst('bc.listof_output_wall_boundaries'), lst('bc.listof_output_other_boundaries')
    E['num_out_walls'], E['num_out_others'] = const(len(E['lwalls'])), const(len(E['lothers']))
    if E['lwalls'] or E['lothers']:
        E['surfnameprefix'] = tree['bc.surface_output_file_prefix']
    E['vol_output_reqd'] = 'YES' if 'bc.volume_output_file_prefix' in tree else 'NO'
    if E['vol_output_reqd'] == 'YES':
        E['volnameprefix'] = tree['bc.volume_output_file_prefix']
    E['sim_type'] = U('time.simulation_type')
    if E['sim_type'] == 'UNSTEADY':
        E['final_time'], E['time_integrator'] = num('time.final_time'), U('time.time_integrator')
        E['time_order'] = num('time.temporal_order')
        if E['time_integrator'] == 'TVDRK':
            E['phy_cfl'] = num('time.physical_cfl')
        else:
            E['phy_timestep'] = num('time.physical_time_step')
    else:
        E['time_integrator'] = 'NONE'
    E['invflux'], E['gradientmethod'] = U('spatial_discretization.inviscid_flux'), U('spatial_discretization.gradient_method')
    E['order2'] = E['gradientmethod'] != 'NONE'
    E['limiter'] = U('spatial_discretization.limiter')
    E['limiter_param'] = num('spatial_discretization.limiter_parameter') if 'spatial_discretization.limiter_parameter' in tree else 'DEFINED'
    E['pseudotimetype'] = U('pseudotime.pseudotime_stepping_type')
    for f, k in (('initcfl', 'cfl_min'), ('endcfl', 'cfl_max'), ('tolerance', 'tolerance'), ('maxiter', 'max_timesteps')):
        E[f] = num('pseudotime.main.' + k)
    st = any(k.startswith('pseudotime.initialization') for k in tree)
    E['usestarter'] = 'NONZERO' if st else const(0)
    if st:
        for f, k in (('firstinitcfl', 'cfl_min'), ('firstendcfl', 'cfl_max'), ('firsttolerance', 'tolerance'), ('firstmaxiter', 'max_timesteps')):
            E[f] = num('pseudotime.initialization.' + k)
    if E['pseudotimetype'] == 'IMPLICIT':
        j = U('Jacobian_inviscid_flux')
        E['invfluxjac'] = E['invflux'] if j == 'CONSISTENT' else j
        E['nl_update_scheme'] = U('pseudotime.nonlinear_update_scheme')
        k = 'pseudotime.min_nonlinear_relaxation_factor'
        E['min_nl_update'] = num(k) if k in tree else const(Fraction(1, 5))
    bc = []
    i = 0
    while 'bc.bc%d.type' % i in tree:
        p = 'bc.bc%d.' % i
        t = DOCUMENTED[tree[p + 'type'].lower()]
        d = {'bc_type': const(enum(ctx, t)), 'bc_tag': const(tree[p + 'marker'])}
        if t in ('ADIABATIC_WALL_BC', 'ISOTHERMAL_WALL_BC', 'SUBSONIC_INFLOW_BC'):
            d['bc_vals'] = [a(x) for x in tree[p + 'boundary_values'].split()]
        if t == 'PERIODIC_BC':
            d['bc_opts'] = [const(int(x)) for x in tree[p + 'options'].split()]
        bc.append(d)
        i += 1
    E['bcconf'] = bc
    return E


def vec(eng, p, et='double'):
    n = eng.load(eng.st, eng.field(p, '_size'), 'long')
    if n is UNDEF:
        n = ZERO
    if not isinstance(n, Num) or n.c is None:
        return None
    b = eng.field(p, '_a')
    return [Ptr(b.o, b.pre, const(i)) for i in range(int(n.c))]


def same_value(eng, p, want, ctx):
    """does the cell p hold `want`?"""
    if want == 'DEFINED':
        return eng.load(eng.st, p, 'double') is not UNDEF
    if want == 'NONZERO':
        v = eng.load(eng.st, p, 'double')
        return isinstance(v, Num) and v.c not in (None, 0) or v is True
    if isinstance(want, tuple):
        v = eng.load(eng.st, p, 'double')
        return isinstance(v, Num) and any(vg.same_num(v, eng.mul(const(pi / 180), want[1])) for pi in PI)
    if isinstance(want, str):
        return strs.text_of(eng, p) == want
    if isinstance(want, list):
        els = vec(eng, p)
        if els is None or len(els) != len(want):
            return False
        for q, w in zip(els, want):
            if isinstance(w, dict):
                for k, x in w.items():
                    if not same_value(eng, eng.field(q, k), x, ctx):
                        return False
            elif not same_value(eng, q, w, ctx):
                return False
        return True
    v = eng.load(eng.st, p, 'bool' if isinstance(want, bool) else 'double')
    if isinstance(want, bool):
        return eng.tobool(v) is want if v is not UNDEF else False
    if isinstance(v, bool):
        v = ONE if v else ZERO
    return isinstance(v, Num) and vg.same_num(v, want)


def setup(ctx, eng, tree, cmd, petsc):
    opt = strs.Options(tree, cmd, petsc, {n: enum(ctx, t) for t, n in NAMES.items()})
    strs.install(eng, opt)
    eng.models['get_mpi_rank'] = lambda *a: ZERO
    eng.models['get_mpi_size'] = lambda *a: ONE
    eng.models['cout'] = lambda *a: Opaque('stream')
    return opt


def c01(ctx):
    ctx.rule(RULE + 'Every documented option of the control file reaches the setting it documents, in every combination class listed; a missing '
             'required option or an unsupported value is an error.')
    f = fn(ctx, 'parse_flow_controlfile')
    for name, tree, cmd, petsc, err in scenarios():
        def body(eng):
            opt = setup(ctx, eng, tree, cmd, petsc)
            argv = eng.array('argv', [strs.S('fvens'), strs.S('control')])
            v = eng.invoke_values(f, None, [const(2), argv, Ptr(Obj('cmdvars', cls='variables_map'))])
            if err:
                return [(eng.st.dead is True and bool(eng.throws), 'accepted')], None
            if eng.st.dead is True:
                return None, 'rejected%s' % (': ' + ', '.join(opt.missing) if opt.missing else '')
            ctx.require(isinstance(v, Ptr), 'the parser does not return its options')
            E = expected(eng, tree, cmd, petsc, ctx)
            out = []
            for k, w in E.items():
                q = eng.field(v, k)
                ok = same_value(eng, q, w, ctx)
                if k == 'limiter_param' and not ok and eng.load(eng.st, q, 'double') is UNDEF:
                    k = 'limiter_parameter:never-read'
                out.append((ok, k))
            return out, None
        r = ctx.guard('parse_flow_controlfile: ' + name, vg.attempt, ctx.prog, body, seed=ctx.seed)
        if r is None:
            continue
        out, why = r
        if why:
            ctx.ob(False, name + ':accepted', f.where, 'a valid control file (%s) is %s' % (name, why))
            continue
        for ok, k in out:
            if err:
                ctx.ob(ok, name + ':error', f.where, 'control file with %s is accepted without an error' % name)
            else:
                ctx.ob(ok, k if k.endswith(':never-read') else '%s:%s' % (name, k), f.where, 'case "%s": setting %s does not have the value the control file documents' % (name, k))
        ctx.count('option combinations')
    # settings handed to the discretisation
    conf_extract(ctx)


PHYS = {'gamma': 'gamma', 'Minf': 'Minf', 'Tinf': 'Tinf', 'Reinf': 'Reinf', 'Pr': 'Pr', 'aoa': 'alpha', 'viscous_sim': 'viscsim',
        'const_visc': 'useconstvisc', 'bcconf': 'bcconf'}
NUMR = {'conv_numflux': 'invflux', 'conv_numflux_jac': 'invfluxjac', 'gradientscheme': 'gradientmethod', 'reconstruction': 'limiter',
        'limiter_param': 'limiter_param', 'order2': 'order2'}


def options(ctx, eng, over=()):
    """a FlowParserOptions object with a distinct value in every field"""
    r = ctx.prog.records.get('fvens::FlowParserOptions')
    ctx.require(r, 'anchor vanished: FlowParserOptions')
    over = dict(over)
    p = Ptr(Obj('opts', cls='fvens::FlowParserOptions'))
    for f in r['fields']:
        q, t = eng.field(p, f['n']), vg.clean(f['t'])
        if f['n'] in over:
            v = over[f['n']]
            v = strs.S(v) if isinstance(v, str) else v
            eng.store(eng.st, q, v)
        elif 'basic_string' in t:
            eng.store(eng.st, q, strs.S('?' + f['n']))
        elif t == 'bool':
            eng.store(eng.st, q, False)
        elif vg.is_num(t):
            eng.store(eng.st, q, eng.atom('o.' + f['n'], 1))
        elif t == 'std::vector<int>':
            for i in range(2):
                eng.store(eng.st, Ptr(eng.field(q, '_a').o, eng.field(q, '_a').pre, const(i)), eng.atom('o.%s%d' % (f['n'], i), 1))
            eng.store(eng.st, eng.field(q, '_size'), const(2))
        elif t.startswith('std::vector<'):
            b = eng.field(q, '_a')
            e = Ptr(b.o, b.pre, ZERO)
            eng.store(eng.st, eng.field(e, 'bc_tag'), eng.atom('o.tag', 1))
            eng.store(eng.st, eng.field(e, 'bc_type'), eng.atom('o.bctype', 1))
            eng.store(eng.st, eng.field(q, '_size'), ONE)
        else:
            raise AnalysisBroken('field %s of FlowParserOptions has type %s' % (f['n'], t))
    return p


def samecell(eng, p, q, t):
    t = vg.clean(t)
    if 'basic_string' in t:
        return strs.text_of(eng, p) == strs.text_of(eng, q) is not None
    if t.startswith('std::vector<'):
        a, b = vec(eng, p), vec(eng, q)
        return a is not None and b is not None and len(a) == len(b) and vg.same(
            eng.load(eng.st, eng.field(a[0], 'bc_tag'), 'int'), eng.load(eng.st, eng.field(b[0], 'bc_tag'), 'int'))
    a, b = eng.load(eng.st, p, t), eng.load(eng.st, q, t)
    if a is UNDEF or b is UNDEF:
        return False
    if t == 'bool':
        return eng.tobool(a) is eng.tobool(b)
    return vg.same_num(a, b)


def conf_extract(ctx):
    for fname, table, rec, fixed in (
            ('extract_spatial_physics_config', PHYS, 'FlowPhysicsConfig', {}),
            ('extract_spatial_numerics_config', NUMR, 'FlowNumericsConfig', {}),
            ('firstorder_spatial_numerics_config', {k: NUMR[k] for k in ('conv_numflux', 'conv_numflux_jac')}, 'FlowNumericsConfig',
             {'gradientscheme': 'NONE', 'reconstruction': 'NONE', 'order2': False, 'limiter_param': 'DEFINED'})):
        f = fn(ctx, fname)
        fields = {x['n']: x['t'] for x in ctx.prog.records['fvens::' + rec]['fields']}
        for flags in (('viscsim', 'order2'), ('useconstvisc',), ('viscsim', 'useconstvisc'), ('order2',)):
            def body(eng):
                setup(ctx, eng, {}, {}, {})
                o = options(ctx, eng, {k: True for k in flags})
                v = eng.invoke_values(f, None, [o])
                out = []
                for k, src in table.items():
                    out.append((k, k in fields and samecell(eng, eng.field(v, k), eng.field(o, src), fields[k])))
                for k, w in fixed.items():
                    out.append((k, same_value(eng, eng.field(v, k), w, ctx)))
                return out
            for k, ok in ctx.guard(fname, vg.attempt, ctx.prog, body, seed=ctx.seed) or ():
                ctx.ob(ok, '%s:%s' % (fname, k), f.where, '%s: %s.%s is not the corresponding option' % (fname, rec, k))


FLUXES = {'VANLEER': 'VanLeerFlux', 'ROE': 'RoeFlux', 'HLL': 'HLLFlux', 'HLLC': 'HLLCFlux', 'LLF': 'LocalLaxFriedrichsFlux', 'AUSM': 'AUSMFlux',
          'AUSMPLUS': 'AUSMPlusFlux'}
GRADS = {'NONE': 'ZeroGradients', 'LEASTSQUARES': 'WeightedLeastSquaresGradients', 'GREENGAUSS': 'GreenGaussGradients'}
RECONS = {'NONE': ('LinearUnlimitedReconstruction', False), 'WENO': ('WENOReconstruction', True), 'VANALBADA': ('MUSCLVanAlbada', False),
          'BARTHJESPERSEN': ('BarthJespersenLimiter', False), 'VENKATAKRISHNAN': ('VenkatakrishnanLimiter', True)}
NOBODY = ('Spatial', 'WeightedLeastSquaresGradients', 'VenkatakrishnanLimiter', 'BarthJespersenLimiter', 'L2TraceVector', 'ConstGhostedVecHandler')
BASES = {'InviscidFlux': FLUXES, 'GradientScheme': GRADS, 'SolutionReconstruction': {k: v[0] for k, v in RECONS.items()}}


def holds(eng, o, v):
    """is v stored in a field of the object?"""
    for k, x in eng.st.mem.items():
        if k[0] is o.o:
            if isinstance(v, Ptr) and isinstance(x, Ptr) and x.key() == v.key():
                return True
            if isinstance(v, Num) and isinstance(x, Num) and vg.same_num(x, v):
                return True
    return False


def is_class(v, name):
    return isinstance(v, Ptr) and v.o is not None and short(v.o.cls or '') == name


def c02(ctx):
    ctx.rule(RULE + 'Each scheme name, given to the program\'s factory, makes an object of the class of that scheme that holds the mesh, physics and '
             'parameter it was given; unknown names make nothing. The discretisation built from a configuration uses the configured residual flux, Jacobian flux, '
             'gradient and reconstruction scheme, gas constants, free stream and boundary conditions.')
    p = ctx.prog
    new = lambda n, c: Ptr(Obj(n, cls=c, sym=True))

    def fluxes(eng, key):
        setup(ctx, eng, {}, {}, {})
        ph = new('phy', 'fvens::IdealGasPhysics<double>')
        return eng.invoke_values(f, None, [strs.S(key), ph]), [('physics', ph)]

    def other(eng, key):
        setup(ctx, eng, {}, {}, {})
        eng.nobody = NOBODY
        a = [('mesh', new('mesh', 'fvens::UMesh<double, 2>')), ('cell centres', new('rc', 'double')), ('ghost centres', new('rcbp', 'double'))]
        if fam == 'SolutionReconstruction':
            a += [('face centres', new('gr', 'fvens::amat::Array2d<double>')), ('parameter', eng.atom('param', 1))]
        v = eng.invoke_values(f, None, [strs.S(key)] + [x for _, x in a])
        if fam == 'SolutionReconstruction' and not RECONS.get(key, ('', False))[1]:
            a = a[:-1]
        return v, a
    for fam, fname in (('InviscidFlux', 'create_const_inviscidflux'), ('GradientScheme', 'create_const_gradientscheme'),
                       ('SolutionReconstruction', 'create_const_reconstruction')):
        names = BASES[fam]
        for f in [x for x in p.fns.values() if x.name == fname]:
            for key in list(names) + ['?other']:
                def body(eng):
                    v, a = (fluxes if fam == 'InviscidFlux' else other)(eng, key)
                    return (eng.st.dead is True, v, [(n, isinstance(v, Ptr) and v.o is not None and holds(eng, v, x)) for n, x in a], list(eng.ubs))
                r = ctx.guard('%s(%s)' % (fname, key), vg.attempt, p, body, seed=ctx.seed)
                if r is None:
                    continue
                dead, v, held, ubs = r
                ctx.count('scheme names')
                if key == '?other':
                    none = dead or isinstance(v, Ptr) and v.o is None or not isinstance(v, Ptr) or is_class(v, 'ZeroGradients')
                    ctx.ob(none, fname + ':other', f.where, '%s makes %s for a name it does not know' % (f.q, v))
                    continue
                ctx.ob(is_class(v, names[key]) and not dead, '%s:%s' % (f.q, key), f.where, '%s makes %s for "%s"' % (
                    f.q, short(v.o.cls) if isinstance(v, Ptr) and v.o is not None else 'nothing', key))
                for n, ok in held:
                    ctx.ob(ok, '%s:%s:%s' % (f.q, key, n), f.where, '%s, "%s": the scheme does not hold the %s it was given' % (f.q, key, n))
    updates(ctx)
    discretisation(ctx)


def updates(ctx):
    for f in [x for x in ctx.prog.fns.values() if x.name == 'create_const_nonlinearUpdateScheme']:
        for key, cls in (('FULL', 'FullUpdate'), ('ROBUST_FLOW', 'FlowSimpleUpdate'), ('?other', None)):
            def body(eng):
                setup(ctx, eng, {}, {}, {})
                n0 = eng.atom('o.min_nl_update', 1)
                o = options(ctx, eng, {'nl_update_scheme': key, 'min_nl_update': n0})
                v = eng.invoke_values(f, None, [o])
                ok = None
                if cls == 'FlowSimpleUpdate' and isinstance(v, Ptr) and v.o is not None:
                    ok = holds(eng, v, n0)
                return eng.st.dead is True and bool(eng.throws), v, ok
            r = ctx.guard(f.q + ' ' + key, vg.attempt, ctx.prog, body, seed=ctx.seed)
            if r is None:
                continue
            if cls is None:
                ctx.ob(r[0], f.q + ':other', f.where, '%s accepts an unknown update scheme' % f.q)
            else:
                ctx.ob(is_class(r[1], cls) and not r[0], '%s:%s' % (f.q, key), f.where, '%s does not make %s for %s' % (f.q, cls, key))
            if r[2] is not None:
                ctx.ob(r[2], f.q + ':minimum', f.where, '%s: the update scheme does not hold the configured minimum factor' % f.q)


def mem_of(e, rx):
    """name of the data member an object expression denotes"""
    for n in walk(e):
        if n.get('k') == 'Mem' and rx in n['t']:
            return n['n']
    return None


def member_used(p, classes, method, base):
    """the members (by name) of the discretisation through which `method` of the scheme family `base` is called"""
    out = set()
    for f in p.fns.values():
        if f.cls in classes and f.body:
            for n in walk(f.body):
                if n.get('k') == 'Call' and n.get('obj') is not None:
                    d = p.decls.get(n.get('fn') or '', {})
                    if d.get('name') == method and base + '<' in (d.get('cls') or ''):
                        out.add(mem_of(n['obj'], base + '<'))
    return out


def discretisation(ctx):
    p = ctx.prog
    f = fn(ctx, 'create_const_flowSpatialDiscretization')
    from . import bc as bcm
    from .. import flowspec as fs
    for so in (True, False):
        for cv in (True, False):
            cls = 'fvens::FlowFV<double, %s, %s>' % (str(so).lower(), str(cv).lower())
            nm = '%s order, %s viscosity' % ('second' if so else 'first', 'constant' if cv else 'Sutherland')
            fam = [cls, 'fvens::FlowFV_base<double>']
            use = {k: member_used(p, fam, *a) for k, a in {'residual flux': ('get_flux', 'InviscidFlux'), 'Jacobian flux': ('get_jacobian', 'InviscidFlux'),
                                                            'gradient scheme': ('compute_gradients', 'GradientScheme'),
                                                            'reconstruction': ('compute_face_values', 'SolutionReconstruction')}.items()}
            for k, v in use.items():
                ctx.require(len(v) == 1 and None not in v, 'the %s of the discretisation is not a single member' % k)
            use = {k: next(iter(v)) for k, v in use.items()}
            want = {'residual flux': ('HLLC', 'HLLCFlux'), 'Jacobian flux': ('ROE', 'RoeFlux'), 'gradient scheme': ('LEASTSQUARES', 'WeightedLeastSquaresGradients'),
                    'reconstruction': ('VENKATAKRISHNAN', 'VenkatakrishnanLimiter')}

            def body(eng):
                setup(ctx, eng, {}, {}, {})
                eng.nobody = NOBODY
                for m in ('createGhostedSystemVector', 'VecGetArray', 'VecGetArrayRead', 'VecGhostGetLocalForm'):
                    eng.models[m] = lambda eng, e, d, obj, args, env: ZERO
                eng.models['find'] = lambda eng, e, d, obj, args, env: Ptr(Obj('found', sym=True))
                ph = fs.physics(eng)
                uinf = list(bcm.freestream(eng))
                uinf[1:3] = vg.m_trig_value(eng, eng.atom('aoa'))
                pc = Ptr(Obj('pconf', cls='fvens::FlowPhysicsConfig'))
                for n, v in zip(('gamma', 'Minf', 'Tinf', 'Reinf', 'Pr'), eng.pars):
                    eng.store(eng.st, eng.field(pc, n), v)
                eng.store(eng.st, eng.field(pc, 'aoa'), eng.atom('aoa'))
                eng.store(eng.st, eng.field(pc, 'viscous_sim'), Node(eng.named_gate('viscous'), True, False))
                eng.store(eng.st, eng.field(pc, 'const_visc'), cv)
                bcc = eng.field(pc, 'bcconf')
                e0 = Ptr(eng.field(bcc, '_a').o, eng.field(bcc, '_a').pre, ZERO)
                eng.store(eng.st, eng.field(e0, 'bc_tag'), const(11))
                eng.store(eng.st, eng.field(e0, 'bc_type'), const(enum(ctx, 'FARFIELD_BC')))
                eng.store(eng.st, eng.field(bcc, '_size'), ONE)
                nc = Ptr(Obj('nconf', cls='fvens::FlowNumericsConfig'))
                for n, v in (('conv_numflux', 'residual flux'), ('conv_numflux_jac', 'Jacobian flux'), ('gradientscheme', 'gradient scheme'),
                             ('reconstruction', 'reconstruction')):
                    eng.store(eng.st, eng.field(nc, n), strs.S(want[v][0]))
                par = eng.atom('limiter parameter', 1)
                eng.store(eng.st, eng.field(nc, 'limiter_param'), par)
                eng.store(eng.st, eng.field(nc, 'order2'), so)
                mesh = Ptr(Obj('mesh', cls='fvens::UMesh<double, 2>', sym=True))
                o = eng.invoke_values(f, None, [mesh, pc, nc])
                out = [('class', isinstance(o, Ptr) and o.o is not None and vg.clean(o.o.cls) == cls, 'the discretisation is made as %s' % (
                    o.o.cls if isinstance(o, Ptr) and o.o is not None else 'nothing'))]
                if not out[0][1]:
                    return out
                for k, mem in use.items():
                    v = eng.load(eng.st, eng.field(o, mem), 'void *')
                    out.append((k, is_class(v, want[k][1]), 'the %s is not the configured one' % k))
                    if 'flux' in k and isinstance(v, Ptr) and v.o is not None:
                        q = [x for kk, x in eng.st.mem.items() if kk[0] is v.o and isinstance(x, Ptr)]
                        out.append((k + ':physics', any(same_object(eng, x, ph) for x in q), 'the %s does not use the configured gas' % k))
                    if k == 'reconstruction' and isinstance(v, Ptr) and v.o is not None:
                        out.append((k + ':parameter', holds(eng, v, par), 'the reconstruction does not get the limiter parameter'))
                for c in fam:
                    for n, t in ((x['n'], x['t']) for x in p.records[c]['fields']):
                        if 'IdealGasPhysics<' in t and '*' not in t:
                            out.append((n, same_object(eng, eng.field(o, n), ph), 'the gas model %s does not have the configured constants' % n))
                        if 'std::array<' in t and ', 4>' in t.replace('4UL', '4'):
                            b = eng.field(eng.field(o, n), '_a')
                            got = [eng.load(eng.st, eng.padd(b, const(i), 'double *'), 'double') for i in range(4)]
                            out.append((n, all(isinstance(g, Num) and vg.same_num(g, w) for g, w in zip(got, uinf)), 'the reference state %s is not the configured free stream' % n))
                        if t.replace('const ', '').startswith('std::map<int') and 'FlowBC<' in t:
                            q = eng.field(eng.field(o, n), vg.mapkey(eng, const(11)))
                            v = eng.st.mem.get(q.key())
                            ok = is_class(v, 'Farfield')
                            if ok:
                                arr = [x for kk, x in eng.st.mem.items() if kk[0] is v.o]
                                ok = all(any(isinstance(x, Num) and vg.same_num(x, w) for x in arr) for w in uinf)
                            out.append((n, ok, 'the boundary conditions are not made from the configuration and the free stream'))
                return out
            for k, ok, what in ctx.guard(nm, vg.attempt, p, body, seed=ctx.seed) or ():
                ctx.ob(ok, '%s:%s' % (nm, k), f.where, '%s: %s' % (nm, what))


def same_object(eng, a, b):
    """do two records hold the same numbers field by field?"""
    if a.o is None:
        return False
    r = eng.prog.records.get('fvens::IdealGasPhysics<double>')
    for x in r['fields']:
        if vg.is_num(x['t']):
            u, v = (eng.load(eng.st, eng.field(q, x['n']), 'double') for q in (a, b))
            if not (isinstance(u, Num) and isinstance(v, Num) and vg.same_num(u, v)):
                return False
    return True


# ---- case drivers ----------------------------------------------------------------------------------------------------------------------
CASE, STEADY = 'fvens::FlowCase', 'fvens::SteadyFlowCase'
OUT = ('operator<<', 'setw', 'setprecision', 'open', 'close', 'writeConvergenceHistoryHeader', 'writeStepToConvergenceHistory', 'what')


class Driver:
    """one evaluation of a case driver with everything below it replaced by recording stand-ins"""
    def __init__(self, ctx, eng, over=(), rank=0):
        self.ctx, self.eng, self.log = ctx, eng, []
        setup(ctx, eng, {}, {}, {})
        self.opts = options(ctx, eng, over)
        self.this = Ptr(Obj('case', cls=STEADY, sym=True))
        eng.store(eng.st, eng.field(self.this, 'opts'), self.opts)
        self.mesh = Ptr(Obj('mesh', cls='fvens::UMesh<double, 2>', sym=True))
        self.prob = Ptr(Obj('prob', cls='fvens::FlowFV_base<double>', sym=True))
        self.u = Ptr(Obj('u', cls='_p_Vec', sym=True))
        self.outcome = {}
        m = eng.models
        m['mesh'] = lambda eng, e, d, obj, args, env: eng.gzero.setdefault(('mesh', eng.lv_or_ptr(obj, env, e.get('arrow') or vg.is_ptr(obj['t'])).o), Ptr(Obj('mesh', cls='fvens::UMesh<double, 2>', sym=True)))
        m['get_mpi_rank'] = lambda *a: const(rank)
        m['MPI_Comm_rank'] = lambda eng, e, d, obj, args, env: (eng.store(eng.st, eng.rv(args[1], env), const(rank)), ZERO)[1]
        for n in OUT:
            m[n] = lambda *a: Opaque('void')
        for n in ('basic_ofstream', 'Tolerance_error', 'Numerical_error', 'runtime_error'):
            m['ctor:' + n] = lambda *a: Opaque('void')
        m['create_const_flowSpatialDiscretization'] = self.rec('discretise', lambda: Ptr(Obj('space%d' % len(self.log), cls='fvens::FlowFV_base<double>', sym=True)))
        m['create_const_nonlinearUpdateScheme'] = self.rec('update', lambda: Ptr(Obj('update%d' % len(self.log), cls='fvens::NonlinearUpdate<4>', sym=True)))
        m['ctor:SteadyBackwardEulerSolver'] = self.ctor('backward')
        m['ctor:SteadyForwardEulerSolver'] = self.ctor('forward')
        m['ctor:TVDRKSolver'] = self.ctor('tvdrk')
        m['SteadySolver::solve'] = m['SteadyBackwardEulerSolver::solve'] = m['SteadyForwardEulerSolver::solve'] = m['TVDRKSolver::solve'] = self.solve
        m['getTimingData'] = self.timing
        m['destroy'] = lambda *a: ZERO
        m['PetscError'] = lambda *a: const(73)

    def value(self, a, p, env):
        eng, t = self.eng, p['t'].strip()
        if t.endswith('&') or not eng.scalar_t(t):
            if 'basic_string' in t:
                return strs.S(strs.text_of(eng, eng.rv(a, env)) or '')
            return eng.lv(a, env)
        v = eng.rv(a, env)
        return v

    def rec(self, name, result):
        def f(eng, e, d, obj, args, env):
            vals = [self.value(a, p, env) for a, p in zip(args, d['params'])]
            r = result()
            self.log.append((name, vals, r, eng.pathcond()))
            return r
        return f

    def ctor(self, name):
        def f(eng, p, e, d, env):
            self.log.append((name, [self.value(a, q, env) for a, q in zip(e['args'], d['params'])], p, eng.pathcond()))
        return f

    def solve(self, eng, e, d, obj, args, env):
        s = eng.lv_or_ptr(obj, env, e.get('arrow') or vg.is_ptr(obj['t']))
        self.log.append(('solve', [eng.rv(a, env) for a in args], s, eng.pathcond()))
        o = self.outcome.get('solve', 'ok')
        if o == 'ok':
            return ZERO
        if o == 'code':
            return const(73)
        eng.throws.append(('fvens::' + o, eng.pathcond(), str(eng.curline)))
        eng.st.dead = True
        return UNDEF

    def timing(self, eng, e, d, obj, args, env):
        s = eng.lv_or_ptr(obj, env, e.get('arrow') or vg.is_ptr(obj['t']))
        r = Ptr(Obj('tdata', cls='fvens::TimingData', sym=True))
        eng.store(eng.st, eng.field(r, 'converged'), self.outcome.get('converged', True))
        self.log.append(('timing', [], s, r))
        return r

    def setup_solver(self):
        def f(eng, e, d, obj, args, env):
            vals = [self.value(a, p, env) for a, p in zip(args, d['params'])]
            r = Ptr(Obj('lhs', cls='fvens::FlowCase::LinearProblemLHS', sym=True))
            for n in ('A', 'M', 'ksp'):
                eng.store(eng.st, eng.field(r, n), Ptr(Obj('%s%d' % (n, len(self.log)), sym=True)))
            self.log.append(('setup', vals, r, eng.pathcond()))
            return r
        self.eng.models['setupImplicitSolver'] = f

    def of(self, *names):
        return [x for x in self.log if x[0] in names]

    def config(self, p, want):
        """does a SteadySolverConfig hold the wanted options?"""
        eng = self.eng
        bad = []
        for k, w in want.items():
            q = eng.field(p, k)
            if isinstance(w, tuple):            # option field
                t = [x for x in self.ctx.prog.records['fvens::FlowParserOptions']['fields'] if x['n'] == w[0]]
                ok = bool(t) and (strs.text_of(eng, q) == strs.text_of(eng, eng.field(self.opts, w[0])) + w[1] if 'basic_string' in t[0]['t']
                                  else samecell(eng, q, eng.field(self.opts, w[0]), t[0]['t']))
            else:
                ok = same_value(eng, q, w, self.ctx)
            if not ok:
                bad.append(k)
        return bad

    def spatial_config(self, vals, first):
        eng, p = self.eng, self.ctx.prog
        bad = []
        for ptr, table, rec in ((vals[1], PHYS, 'FlowPhysicsConfig'), (vals[2], {k: NUMR[k] for k in ('conv_numflux', 'conv_numflux_jac')} if first else NUMR, 'FlowNumericsConfig')):
            fields = {x['n']: x['t'] for x in p.records['fvens::' + rec]['fields']}
            for k, src in table.items():
                if k not in fields or not samecell(eng, eng.field(ptr, k), eng.field(self.opts, src), fields[k]):
                    bad.append(k)
        if first:
            for k, w in (('gradientscheme', 'NONE'), ('reconstruction', 'NONE'), ('order2', False)):
                if not same_value(eng, eng.field(vals[2], k), w, self.ctx):
                    bad.append(k)
        return bad


MAINCONF = {'lognres': ('lognres', ''), 'logfile': ('logfile', ''), 'write_final_lin_sys': ('write_final_lin_sys', ''), 'cflinit': ('initcfl', ''),
            'cflfin': ('endcfl', ''), 'tol': ('tolerance', ''), 'maxiter': ('maxiter', '')}
STARTCONF = {'lognres': ('lognres', ''), 'logfile': ('logfile', '-init'), 'write_final_lin_sys': False, 'cflinit': ('firstinitcfl', ''),
             'cflfin': ('firstendcfl', ''), 'tol': ('firsttolerance', ''), 'maxiter': ('firstmaxiter', '')}


def same_ptr(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and a.o is not None


def c03(ctx):
    ctx.rule(RULE + 'The drivers of a case are evaluated with everything below them replaced by recording stand-ins, once per class of option values and outcome of '
             'the solver (finished, tolerance error, numerical error, error code): what is built, from which options, in which order it is called, and what the caller gets.')
    p = ctx.prog

    def method(cls, name):
        f = [x for x in p.fns.values() if x.cls == cls and x.name == name]
        ctx.require(len(f) == 1, 'anchor vanished: %s::%s' % (short(cls), name))
        return f[0]
    run = lambda nm, body: ctx.guard(nm, vg.attempt, p, body, seed=ctx.seed) or []

    # -- solve stages
    for stage, cname, conf in (('main', 'execute_main', MAINCONF), ('startup', 'execute_starter', STARTCONF)):
        f = method(STEADY, cname)
        for ptype in ('IMPLICIT', 'EXPLICIT'):
            for starter in (1, 0):
                for outcome in ('ok', 'Tolerance_error', 'Numerical_error', 'code'):
                    for flag in (True, False):
                        if starter == 0 and (outcome != 'ok' or stage == 'main') or flag and outcome != 'ok':
                            continue
                        nm = '%s solve, %s, %s%s%s' % (stage, ptype.lower(), outcome, '' if starter else ', not requested', ', flags set' if flag else '')

                        def body(eng):
                            over = {'pseudotimetype': ptype, 'usestarter': const(starter), 'lognres': flag, 'write_final_lin_sys': flag, 'viscsim': flag,
                                    'order2': flag}
                            D = Driver(ctx, eng, over)
                            D.setup_solver()
                            mf = Node(eng.named_gate('matrix-free'), True, False)
                            eng.store(eng.st, eng.field(D.this, 'mf_flg'), flag)
                            D.outcome = {'solve': outcome, 'converged': True}
                            v = eng.invoke_values(f, D.this, [D.prob, D.u])
                            out = []
                            dead = eng.st.dead is True
                            thrown = vg.clean(eng.throws[-1][0]) if dead and eng.throws else None
                            sol, slv = D.of('backward', 'forward'), D.of('solve')
                            space = D.prob
                            if stage == 'startup':
                                ds = D.of('discretise')
                                out.append((len(ds) == 1 and not D.spatial_config(ds[0][1], True), 'discretisation', 'is not made once with the first-order configuration of the case'))
                                out.append((len(ds) == 1 and same_ptr(ds[0][1][0], eng.gzero.get(('mesh', D.prob.o))), 'mesh', 'does not use the mesh of the given problem'))
                                if len(ds) != 1:
                                    return out
                                space = ds[0][2]
                            if not starter:
                                out.append((not slv and not dead, 'skipped', 'runs although it was not requested'))
                                return out
                            out.append((len(slv) == 1 and len(sol) == 1 and same_ptr(slv[0][2], sol[0][2]) and slv[0][3] is True, 'solve', 'does not run exactly one solver once'))
                            if len(slv) == 1 and len(sol) == 1:
                                out.append((same_ptr(slv[0][1][0], D.u), 'state', 'does not solve in the state vector it was given'))
                                kind, a = sol[0][0], sol[0][1]
                                out.append((kind == ('backward' if ptype == 'IMPLICIT' else 'forward'), 'scheme', 'does not use the requested kind of pseudo-time stepping'))
                                out.append((same_ptr(a[0], space), 'space', 'does not solve the discretisation it should'))
                                c = a[1] if kind == 'backward' else a[2]
                                bad = D.config(c, conf)
                                out.append((not bad, 'options', 'gets other values than configured for: ' + ', '.join(bad)))
                                if kind == 'backward':
                                    su = [x for x in D.of('setup') if same_ptr(eng.st.mem.get(eng.field(x[2], 'ksp').key()), a[2])]
                                    out.append((bool(su) and same_ptr(su[0][1][0], space) and eng.tobool(su[0][1][1]) is flag, 'linear solver',
                                                'does not use the linear solver set up for its discretisation and matrix-free setting'))
                                    up = D.of('update')
                                    out.append((len(a) > 3 and any(same_ptr(a[3], x[2]) and same_ptr(x[1][0], D.opts) for x in up), 'update scheme', 'does not use the configured update scheme'))
                                else:
                                    out.append((same_ptr(a[1], D.u), 'explicit state', 'gives another vector to the solver'))
                            if outcome == 'code':
                                if stage == 'main':
                                    out.append((dead, 'error code', 'continues after the solver returned an error code'))
                                else:
                                    ok = dead or isinstance(v, Num) and v.c not in (None, 0)
                                    out.append((ok, 'error code', 'reports success after the solver returned an error code'))
                            elif stage == 'startup':
                                if outcome == 'Numerical_error':
                                    out.append((dead and thrown and vg.derives(p, thrown, 'fvens::Numerical_error') and not vg.derives(p, thrown, 'fvens::Tolerance_error'),
                                                'numerical error', 'hides a numerical error of the startup solve'))
                                else:
                                    out.append((not dead and isinstance(v, Num) and v.c == 0, 'outcome', 'does not go on to the main solve after it ' + (
                                        'converged' if outcome == 'ok' else 'missed its tolerance')))
                            else:
                                cv = eng.load(eng.st, eng.field(v, 'converged'), 'bool') if isinstance(v, Ptr) else None
                                want = outcome == 'ok'
                                out.append((not dead and cv is not None and eng.tobool(cv) is want, 'outcome', 'does not report that the solve %s' % ('converged' if want else 'failed')))
                            return out
                        for ok, k, what in run(nm, body):
                            ctx.ob(ok, '%s:%s' % (nm, k), f.where, '%s: the driver %s' % (nm, what))
                        ctx.count('driver scenarios')

    # -- whole case
    f = method(STEADY, 'execute')
    for conv in (True, False):
        for hist in (True, False):
            def body(eng):
                D = Driver(ctx, eng)
                eng.models['execute_starter'] = D.rec('starter', lambda: ZERO)

                def main(eng, e, d, obj, args, env):
                    D.log.append(('main', [eng.rv(a, env) for a in args], None, eng.pathcond()))
                    r = Ptr(Obj('tdata', cls='fvens::TimingData', sym=True))
                    eng.store(eng.st, eng.field(r, 'converged'), conv)
                    eng.store(eng.st, eng.field(r, 'num_timesteps'), const(2))
                    return r
                eng.models['execute_main'] = main
                v = eng.invoke_values(f, D.this, [D.prob, hist, D.u])
                dead = eng.st.dead is True
                names = [x[0] for x in D.of('starter', 'main')]
                out = [(names == ['starter', 'main'], 'order', 'does not run the startup solve, then the main solve'),
                       (all(same_ptr(x[1][0], D.prob) and same_ptr(x[1][1], D.u) for x in D.of('starter', 'main')), 'arguments', 'solves another problem or state')]
                if conv:
                    out.append((not dead and isinstance(v, Num) and v.c == 0, 'converged', 'fails although the main solve converged'))
                else:
                    out.append((dead and eng.throws and vg.derives(p, vg.clean(eng.throws[-1][0]), 'fvens::Tolerance_error'), 'not converged',
                                'does not raise a tolerance error when the main solve did not converge'))
                return out
            nm = 'steady case, main solve %s, history %s' % ('converged' if conv else 'not converged', hist)
            for ok, k, what in run(nm, body):
                ctx.ob(ok, '%s:%s' % (nm, k), f.where, '%s: the driver %s' % (nm, what))

    # -- unsteady case
    f = method('fvens::UnsteadyFlowCase', 'execute')
    for integ in ('TVDRK', '?other'):
        for outcome in ('ok', 'code'):
            def body(eng):
                D = Driver(ctx, eng, {'time_integrator': strs.S(integ) if integ[0] != '?' else 'NONE'})
                D.outcome = {'solve': outcome}
                v = eng.invoke_values(f, D.this, [D.prob, False, D.u][:len(f.params)] if len(f.params) == 3 else [D.prob, D.u])
                dead = eng.st.dead is True
                sol, slv = D.of('tvdrk'), D.of('solve')
                if integ[0] == '?':
                    return [(dead and not slv, 'unknown', 'goes on with an unknown time integrator')]
                out = [(len(sol) == 1 and len(slv) == 1 and same_ptr(slv[0][2], sol[0][2]), 'solve', 'does not run exactly one solver once')]
                if len(sol) == 1 and len(slv) == 1:
                    a = sol[0][1]
                    get = lambda n: eng.load(eng.st, eng.field(D.opts, n), 'double')
                    out.append((same_ptr(a[0], D.prob) and same_ptr(a[1], D.u), 'problem', 'integrates another problem or state'))
                    out.append((vg.same_num(eng.tonum(a[2]), get('time_order')), 'order', 'does not use the configured temporal order'))
                    out.append((vg.same_num(eng.tonum(a[4]), get('phy_cfl')), 'CFL', 'does not use the configured physical CFL number'))
                    out.append((vg.same_num(eng.tonum(slv[0][1][0]), get('final_time')), 'final time', 'does not integrate to the configured final time'))
                if outcome == 'ok':
                    out.append((not dead and isinstance(v, Num) and v.c == 0, 'code', 'fails although the integration succeeded'))
                else:
                    out.append((dead or isinstance(v, Num) and v.c not in (None, 0), 'error code', 'reports success after the solver returned an error code'))
                return out
            nm = 'unsteady case, %s, %s' % (integ.strip('?'), outcome)
            for ok, k, what in run(nm, body):
                ctx.ob(ok, '%s:%s' % (nm, k), f.where, '%s: the driver %s' % (nm, what))

    # -- discretisation of the main problem
    f = fn(ctx, 'createFlowSpatial')
    for flag in (True, False):
        def body(eng):
            D = Driver(ctx, eng, {'viscsim': flag, 'useconstvisc': not flag, 'order2': flag})
            v = eng.invoke_values(f, None, [D.opts, D.mesh])
            ds = D.of('discretise')
            out = [(len(ds) == 1 and not D.spatial_config(ds[0][1], False), 'configuration', 'the discretisation is not made from the options: ' + (', '.join(D.spatial_config(ds[0][1], False)) if ds else '')),
                   (len(ds) == 1 and same_ptr(ds[0][1][0], D.mesh) and same_ptr(v, ds[0][2]), 'result', 'the discretisation returned is not the one made on the given mesh')]
            return out
        for ok, k, what in run('createFlowSpatial', body):
            ctx.ob(ok, 'createFlowSpatial:%s:%s' % (flag, k), f.where, what)

    # -- linear solver
    f = method(CASE, 'setupImplicitSolver')
    for mf in (True, False):
        def body(eng):
            D = Driver(ctx, eng)
            M, A, K = (Ptr(Obj(n, sym=True)) for n in 'MAK')

            def make(name, x, pos):
                def g(eng, e, d, obj, args, env):
                    vals = [eng.rv(a, env) for a in args]
                    D.log.append((name, vals, x, eng.pathcond()))
                    eng.store(eng.st, vals[pos], x)
                    return ZERO
                return g
            eng.models['setupSystemMatrix'] = make('matrix', M, 1)
            eng.models['create_matrixfree_jacobian'] = make('shell', A, 1)
            eng.models['KSPCreate'] = make('ksp', K, 1)
            for n in ('KSPSetOperators', 'KSPSetFromOptions'):
                def g(eng, e, d, obj, args, env, n=n):
                    D.log.append((n, [eng.rv(a, env) for a in args], None, eng.pathcond()))
                    return ZERO
                eng.models[n] = g
            v = eng.invoke_values(f, None, [D.prob, mf])
            out = []
            mt, sh, op, fo = D.of('matrix'), D.of('shell'), D.of('KSPSetOperators'), D.of('KSPSetFromOptions')
            mesh = eng.gzero.get(('mesh', D.prob.o))
            out.append((len(mt) == 1 and same_ptr(mt[0][1][0], mesh), 'matrix', 'does not set up the preconditioning matrix on the mesh of the problem'))
            out.append((len(sh) == (1 if mf else 0) and all(same_ptr(x[1][0], D.prob) for x in sh), 'matrix-free operator', 'does not make the matrix-free operator of the problem exactly when requested'))
            want = (K, A if mf else M, M)
            out.append((bool(op) and all(same_ptr(x, y) for x, y in zip(op[-1][1], want)), 'operators', 'does not solve with the %s operator preconditioned by the assembled matrix' % ('matrix-free' if mf else 'assembled')))
            i, j = ([n for n, x in enumerate(D.log) if x[0] == s] for s in ('KSPSetOperators', 'KSPSetFromOptions'))
            out.append((bool(fo) and same_ptr(fo[0][1][0], K), 'options', 'does not apply the run-time options of the linear solver'))
            g = lambda n: eng.load(eng.st, eng.field(v, n), 'void *')
            out.append((isinstance(v, Ptr) and same_ptr(g('ksp'), K) and same_ptr(g('M'), M) and (not mf or same_ptr(g('A'), A))
                        and eng.tobool(eng.load(eng.st, eng.field(v, 'mf_flg'), 'bool')) is mf, 'result', 'does not return what it set up'))
            return out
        nm = 'linear solver setup, %s' % ('matrix-free' if mf else 'assembled')
        for ok, k, what in run(nm, body):
            ctx.ob(ok, '%s:%s' % (nm, k), f.where, '%s: the driver %s' % (nm, what))

    # -- mesh and periodic boundaries
    f = fn(ctx, 'constructMeshFlow')
    for types in (('PERIODIC_BC',), ('SLIP_WALL_BC',), ('SLIP_WALL_BC', 'PERIODIC_BC', 'FARFIELD_BC')):
        def body(eng):
            D = Driver(ctx, eng)
            bcc = eng.field(D.opts, 'bcconf')
            b = eng.field(bcc, '_a')
            for i, t in enumerate(types):
                e = Ptr(b.o, b.pre, const(i))
                eng.store(eng.st, eng.field(e, 'bc_type'), const(enum(ctx, t)))
                o = eng.field(eng.field(e, 'bc_opts'), '_a')
                for j in range(2):
                    eng.store(eng.st, Ptr(o.o, o.pre, const(j)), eng.atom('per%d%d' % (i, j), 1))
                eng.store(eng.st, eng.field(eng.field(e, 'bc_opts'), '_size'), const(2))
            eng.store(eng.st, eng.field(bcc, '_size'), const(len(types)))
            eng.models['constructMesh'] = D.rec('mesh', lambda: D.mesh)

            def per(eng, e, d, obj, args, env):
                D.log.append(('periodic', [eng.tonum(eng.rv(a, env)) for a in args], None, eng.pathcond()))
                return Opaque('void')
            eng.models['compute_periodic_map'] = per
            eng.models['ctor:UMesh'] = lambda *a: None
            eng.invoke_values(f, None, [D.opts, strs.S('?suffix')])
            ms, ps = D.of('mesh'), D.of('periodic')
            want = [i for i, t in enumerate(types) if t == 'PERIODIC_BC']
            return [(len(ms) == 1 and strs.text_of(eng, ms[0][1][0]) == '?meshfile?suffix', 'file', 'does not read the configured mesh file with the suffix'),
                    (len(ps) == len(want) and all(x[3] is True and all(isinstance(v, Num) and v.v == eng.atom('per%d%d' % (i, j), 1).v for j, v in enumerate(x[1]))
                                                  for i, x in zip(want, ps)), 'periodic', 'does not map exactly the configured periodic boundaries')]
        for ok, k, what in run('mesh construction', body):
            ctx.ob(ok, 'mesh:%s:%s' % ('+'.join(types), k), f.where, 'mesh construction %s (boundaries %s)' % (what, ', '.join(types)))

    # -- matrix-free flag
    f = [x for x in p.fns.values() if x.cls == STEADY and p.decls[x.key].get('ctor') and len(x.params) == 1 and 'FlowParserOptions' in x.params[0]['t']]
    ctx.require(f, 'anchor vanished: constructor of SteadyFlowCase')
    for given in (True, False):
        def body(eng):
            D = Driver(ctx, eng)
            asked = []

            def isdef(eng, e, d, obj, args, env):
                asked.append(strs.text_of(eng, eng.rv(args[0], env)))
                return given
            eng.models['parsePetscCmd_isDefined'] = isdef
            c = Ptr(Obj('case', cls=STEADY))
            eng.run_ctor(f[0], {'this': c, f[0].params[0]['id']: D.opts})
            v = eng.load(eng.st, eng.field(c, 'mf_flg'), 'bool')
            return [(asked == ['-matrix_free_jacobian'] and v is not UNDEF and eng.tobool(v) is given, 'flag', 'the matrix-free setting is not that of -matrix_free_jacobian'),
                    (same_ptr(eng.st.mem.get(eng.field(c, 'opts').key()), D.opts), 'opts', 'the case does not keep its options')]
        for ok, k, what in run('case construction', body):
            ctx.ob(ok, 'case:%s:%s' % (given, k), f[0].where, what)
    initial(ctx)


def initial(ctx):
    from ..world import World
    from . import bc as bcm
    p = ctx.prog
    f = fn(ctx, 'initializeSystemVector')
    for kind in ('interior', 'connectivity'):
        def body(eng):
            w = World(eng, kind)
            o = options(ctx, eng)
            from .. import flowspec as fs
            fs.physics(eng)
            for n, v in zip(('gamma', 'Minf', 'Tinf', 'Reinf', 'Pr'), eng.pars):
                eng.store(eng.st, eng.field(o, n), v)
            aoa = eng.atom('aoa')
            eng.store(eng.st, eng.field(o, 'alpha'), aoa)
            want = list(bcm.freestream(eng))
            want[1:3] = vg.m_trig_value(eng, aoa)
            u, arr = w.vec('u')
            made = []

            def make(eng, e, d, obj, args, env):
                vals = [eng.rv(a, env) for a in args]
                made.append(vals)
                eng.store(eng.st, vals[2], u)
                return ZERO
            eng.models['createGhostedSystemVector'] = make
            q = Ptr(Obj('pu', cls='_p_Vec *'))
            v = eng.invoke_values(f, None, [o, w.mesh, q])
            out = [(len(made) == 1 and isinstance(made[0][1], Num) and made[0][1].c == 4, 'size', 'is not made once with one entry per variable of each cell')]
            for c, nm in [(c, 'owned') for c in w.cells] + ([] if w.realR else [(w.R, 'ghost')]):
                got = [eng.load(eng.st, eng.padd(arr, eng.add(eng.mul(c, const(4)), const(i)), 'double *'), 'double') for i in range(4)]
                for i, (g, x) in enumerate(zip(got, want)):
                    out.append((isinstance(g, Num) and vg.same_num(g, x), '%s:%d' % (nm, i), 'does not hold free-stream component %d in every %s cell' % (i, nm)))
            out.append((isinstance(v, Num) and v.c == 0, 'code', 'reports an error'))
            return out
        for ok, k, what in ctx.guard('initial state ' + kind, vg.attempt, p, body, seed=ctx.seed) or []:
            ctx.ob(ok, 'initial:%s:%s' % (kind, k), f.where, 'the initial state vector %s' % what)

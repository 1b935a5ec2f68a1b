"""The properties: text for properties.jsonl and MANIFEST.json."""
VG = ('Gated value-graph equality modulo field axioms: both sides are value-numbered over all inputs at once (gamma phi nodes, no path '
      'enumeration, no solver, nothing of the program is run). Value numbers live in a prime field of 2^61-1 elements, so two different rational '
      'functions collide with probability below 1e-15; comparisons of reals are in generic position (equality of two independent reals on a '
      'branch boundary is not distinguished). Floating-point rounding is outside the claim. ')
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, observe=observe))


P('F01', 'Numerical fluxes are consistent with the analytical Euler flux',
  'For every available inviscid numerical flux (AUSM, AUSM+, HLL, HLLC, local Lax-Friedrichs, Roe, Van Leer), whenever the left and right states '
  'are equal the computed flux equals the analytical Euler flux in the direction of the normal, component by component.',
  ['inputs'], 'all states with positive density and pressure, all unit normals, all gamma > 1',
  'A unit test samples a handful of states and normals; it cannot cover every branch of every scheme over the whole state space.',
  ['src/spatial/anumericalflux.cpp', 'src/physics/aphysics_defs.hpp'],
  [('get_flux of each scheme', 'src/spatial/anumericalflux.cpp')],
  'gated value-graph equality (global value numbering over the resolved syntax tree)',
  VG + 'States are parametrised by positive density and pressure.')
P('F02', 'Numerical fluxes are conservative: reversing sides and normal negates them',
  'For every available inviscid numerical flux, exchanging the left and right states and reversing the normal gives exactly the negative flux, '
  'so that what leaves one cell enters its neighbour also when the two sides of a face are evaluated by different processes.',
  ['inputs'], 'all pairs of admissible states, all unit normals',
  'Tests compare one or two states per scheme; conservation across process boundaries depends on every branch being mirror-symmetric.',
  ['src/spatial/anumericalflux.cpp'], [('get_flux of each scheme', 'src/spatial/anumericalflux.cpp')],
  'gated value-graph equality (global value numbering over the resolved syntax tree)',
  VG + 'HLLC is judged under the ordering of its signal speeds that its derivation gives.')
P('F03', 'Flux Jacobians are the derivatives of the corresponding numerical fluxes',
  'For AUSM, HLLC and Roe the left and right flux Jacobians equal the exact derivatives (minus the derivative with respect to the left state, plus that with '
  'respect to the right state) of the same scheme\'s flux; for HLL and local Lax-Friedrichs they equal the derivative with the wave-speed coefficients held '
  'fixed. A scheme without a Jacobian refuses instead of returning one.',
  ['inputs'], 'all pairs of admissible states, all unit normals, every branch of every scheme',
  'The tests compare with finite differences at one or two states per scheme, so a term missing in one branch goes unnoticed and only slows Newton convergence.',
  ['src/spatial/anumericalflux.cpp', 'src/physics/aphysics_defs.hpp'], [('get_jacobian of each scheme', 'src/spatial/anumericalflux.cpp')],
  'gated value-graph equality with forward-mode derivative components',
  VG + 'Derivatives are carried as extra components of each value number.')
P('P01', 'Gas relations are the ideal-gas ones and conversions are mutually inverse',
  'Pressure, temperature, sound speed, entropy, energies, enthalpy, analytical flux, free-stream state, Sutherland and constant viscosity, thermal conductivity and '
  'Newtonian stress computed for any admissible state satisfy the non-dimensional ideal-gas relations that define them. Conversions between conserved, '
  'primitive and temperature variables are mutually inverse, also when input and output are the same array.',
  ['inputs'], 'all admissible states and all positive gas parameters',
  'Tests evaluate a few states with one set of gas parameters; a wrong exponent or a dropped factor at gamma or Mach number values that happen to cancel is invisible.',
  ['src/physics/aphysics.hpp', 'src/physics/aphysics_defs.hpp'], [('state conversions of the gas model', 'src/physics/aphysics_defs.hpp')],
  'gated value-graph equality', VG)
P('P02', 'Hand-written gas-physics derivatives are exact',
  'Every hand-coded derivative or gradient transformation of the gas model (pressure, temperature, sound speed, speed, normal Mach number, energy, density, enthalpy, '
  'analytical flux, temperature variables, viscosity, conductivity, stress) equals the true derivative of the corresponding quantity.',
  ['inputs'], 'all admissible states, gradients and gas parameters',
  'Each derivative has many terms with different branches of input; finite-difference tests at single points have tolerances that hide small terms.',
  ['src/physics/aphysics.hpp', 'src/physics/aphysics_defs.hpp'], [('getJacobian*/getGrad* of the gas model', 'src/physics/aphysics_defs.hpp')],
  'gated value-graph equality with forward-mode derivative components', VG)
P('P03', 'Pointwise viscous flux and its Jacobian are those of a Newtonian, Fourier fluid',
  'The viscous flux at a face is minus the projected Newtonian stress for momentum and minus the projected (stress work at the mean velocity plus heat '
  'conduction) for energy, with constant or mean Sutherland viscosity as configured. Its Jacobian contributions are the exact derivatives of that flux, and the '
  'conversion of states and gradients to velocity-temperature form is exact, in place or not.',
  ['inputs', 'configurations'], 'all admissible states, face gradients and gradient derivatives, both viscosity models, both orders',
  'The only tests that reach viscous terms are whole-solver regressions on one flow; swapped indices or a missing chain-rule term still converge there.',
  ['src/physics/viscousphysics.cpp'], [('viscous flux', 'src/physics/viscousphysics.cpp'), ('viscous flux Jacobian', 'src/physics/viscousphysics.cpp')],
  'gated value-graph equality with forward-mode derivative components',
  VG + 'The derivative of the Sutherland law itself is assumed here and decided by P02.')
MESHVG = VG + ('Mesh loops are reduced to one arbitrary face (physical-boundary, interior, inter-process) and its cells; the numerical flux, boundary '
               'conditions and other separately decided parts are opaque functions here. ')
P('S01', 'The residual is the conservative sum of face fluxes',
  'Evaluating the flow residual subtracts, for every interior face, face length times the configured flux from the left cell and adds the same amount to the right '
  'cell; for a physical-boundary face only the left cell, against the ghost state of the condition attached to its marker; for an inter-process face only the local '
  'cell. First order uses cell averages, second order the reconstructed face states (the neighbour\'s from the exchange, falling back to the cell '
  'average only for inadmissible reconstructed states of WENO). Viscous runs add the viscous flux; every exchange is started and finished before use.',
  ['inputs', 'configurations'], 'all states, all meshes (through one arbitrary face), first and second order, inviscid and viscous, serial and distributed',
  'Regressions on a few meshes cannot separate a face treated wrongly from discretisation error, and no test covers all configurations in parallel.',
  ['src/spatial/flow_spatial.cpp'], [('compute_residual', 'src/spatial/flow_spatial.cpp')],
  'gated value-graph equality over a parametric face (loop bodies instantiated once per face kind)', MESHVG)
P('S02', 'Face gradients and boundary ghost centres are second-order consistent',
  'The gradient at a face is the average of the cell gradients with its component along the line of centres replaced by the divided difference of the cell values, so '
  'that it is exact for linear fields; its derivatives in the Jacobian are the thin-layer ones. Ghost centres of boundary faces are reflections of the cell '
  'centre through the face midpoint, and the quadrature point of a face is the midpoint of its nodes.',
  ['inputs'], 'all states, gradients and positions of the two centres', 'The tests only exercise this through whole-solver regressions.',
  ['src/spatial/aspatial.cpp'], [('getFaceGradient_modifiedAverage', 'src/spatial/aspatial.cpp'), ('compute_ghost_cell_coords_about_midpoint', 'src/spatial/aspatial.cpp')],
  'gated value-graph equality with forward-mode derivative components', MESHVG)
P('S03', 'The assembled Jacobian is the derivative of the first-order residual',
  'For every face the blocks added to the global matrix sit at the rows and columns of its two cells (subdomain numbering in serial, global numbering in '
  'parallel) and equal face length times the Jacobian of the configured Jacobian flux and of the thin-layer viscous flux, with the sign of the residual; boundary faces '
  'go through the derivative of the ghost state, inter-process faces fill only locally owned rows.',
  ['inputs', 'configurations'], 'all states, all meshes (through one arbitrary face), inviscid/viscous, both viscosity models, serial and distributed',
  'A wrong block only degrades nonlinear convergence; regressions have iteration counts loose enough not to notice.',
  ['src/spatial/flow_spatial.cpp', 'src/spatial/aspatial.cpp'], [('assemble_jacobian', 'src/spatial/aspatial.cpp'), ('compute_local_jacobian_interior', 'src/spatial/flow_spatial.cpp'),
                                                                  ('compute_local_jacobian_boundary', 'src/spatial/flow_spatial.cpp')],
  'gated value-graph equality with forward-mode derivative components over a parametric face', MESHVG)
P('S04', 'Local time steps are cell volume over the integrated spectral radius',
  'When requested, the residual evaluation sets the local time step of each owned cell to its area divided by the sum over its faces of (|v.n|+c) times face length, '
  'plus in viscous runs max(4/3, gamma)/rho mu/Pr length^2/area, evaluated at the face state of that cell\'s own side.',
  ['inputs', 'configurations'], 'all states and meshes (through one arbitrary face and an arbitrary sum over the others)',
  'A face left out or a wrong side changes only the stability margin, which regressions do not measure.',
  ['src/spatial/flow_spatial.cpp'], [('compute_max_timestep and residual', 'src/spatial/flow_spatial.cpp')],
  'gated value-graph equality over a parametric face with a loop-carried accumulator symbol', MESHVG)
P('S05', 'Cell gradients receive the right contribution from every face',
  'Green-Gauss gradients receive from each face the inverse-distance-weighted face value times outward normal and length over cell area, opposite on the two sides; '
  'weighted least squares accumulates a symmetric matrix and a right-hand side that match on every linear field, so its gradients are exact for linear fields; '
  'both hold for interior, physical-boundary (ghost state) and inter-process faces, and the zero scheme gives zero.',
  ['inputs', 'configurations'], 'all states, geometries and face kinds, 1 and 4 variables',
  'Order-of-accuracy tests on one mesh family have tolerance bands; an error in one face kind is diluted by the rest of the mesh.',
  ['src/spatial/agradientschemes.cpp'], [('compute_gradients', 'src/spatial/agradientschemes.cpp')],
  'gated value-graph equality over a parametric face with loop-carried accumulator symbols', MESHVG)
P('S06', 'Reconstruction writes the right limited value to the right side of every face',
  'Each reconstruction writes cell value plus (limited or weighted) gradient times distance to the face point, to the left trace of faces whose left cell it is and to '
  'the right trace otherwise. Limiters stay within 0 and 1 as min over faces of the Barth-Jespersen or Venkatakrishnan ratio formed from the extreme differences to all '
  'neighbours including boundary ghost states; WENO weights are positive, sum to one and ignore boundary ghosts; Van Albada is mirror-symmetric.',
  ['inputs', 'configurations'], 'all states, gradients and positions, neighbours of every kind and index order',
  'No test runs the limiters on a mesh with every kind of neighbour; a side mixed up or a ghost skipped still converges.',
  ['src/spatial/limitedlinearreconstruction.cpp', 'src/spatial/musclreconstruction.cpp', 'src/spatial/areconstruction.cpp', 'src/spatial/reconstruction_utils.hpp'],
  [('compute_face_values of each scheme', 'src/spatial/limitedlinearreconstruction.cpp')],
  'gated value-graph equality over a parametric cell stencil', MESHVG + 'Limiters are decided on cells with two faces of every combination of kinds, WENO on a cell with one face of each kind.')
P('B01', 'Boundary ghost states impose what each boundary type promises',
  'For every interior state and unit outward normal the ghost state is: slip wall - same density and energy, normal velocity reversed; adiabatic wall - same density '
  'and energy, velocity mirrored about the wall velocity; isothermal wall - same density, velocity mirrored, temperature averaging to the wall\'s; farfield - '
  'free stream; extrapolation - interior; inflow-outflow - free stream at inflow, free-stream pressure at subsonic outflow, interior at supersonic outflow; '
  'subsonic inflow - normal inward flow preserving outgoing Riemann invariant and stagnation sound speed, at the given total pressure and temperature.',
  ['inputs', 'configurations'], 'all admissible interior states, unit normals, gas parameters and configured boundary values',
  'Tests use one boundary mix each and compare integrated results; regimes such as supersonic outflow, moving or isothermal walls are hardly reached.',
  ['src/spatial/abc.cpp'], [('computeGhostState of each condition', 'src/spatial/abc.cpp')],
  'gated value-graph equality', VG)
P('B02', 'Ghost-state Jacobians are exact and belong to the same ghost state',
  'For every boundary condition the state returned together with a Jacobian equals the ghost state used in the residual, and the Jacobian is its exact derivative with '
  'respect to the interior conserved state. A condition without a Jacobian (subsonic inflow) stops the program instead of returning one.',
  ['inputs', 'configurations'], 'all admissible interior states, unit normals, gas parameters and configured boundary values',
  'A wrong boundary Jacobian only slows or stalls the nonlinear solver; the tests check two conditions at single states.',
  ['src/spatial/abc.cpp'], [('computeGhostStateAndJacobian of each condition', 'src/spatial/abc.cpp')],
  'gated value-graph equality with forward-mode derivative components', VG)
P('B03', 'Every boundary marker gets the condition configured for it',
  'The boundary-condition factory returns, for a configuration listing several markers, exactly one condition per marker, of the configured type, holding that '
  'marker and type and the configured values in the documented order; an unsupported type (periodic) is rejected. Type names in the control file and types '
  'correspond one to one (slipwall, isothermalwall, adiabaticwall, farfield, inflowoutflow, subsonic_inflow, extrapolation, periodic).',
  ['configurations'], 'every boundary type and all configured values',
  'Each test file uses two or three types; types, markers or values exchanged for the others go unnoticed.',
  ['src/spatial/abc.cpp', 'src/spatial/abctypemap.cpp', 'src/spatial/abctypes.hpp'], [('create_const_flowBCs', 'src/spatial/abc.cpp'), ('createBCTypeMap', 'src/spatial/abctypemap.cpp')],
  'abstract evaluation of the factory over its syntax tree with value numbers', VG)
ITER = (VG + 'A time loop is judged through one arbitrary iteration: everything it carries is an unknown, the body is value-numbered once, and mesh loops are reduced to '
        'one arbitrary owned cell, its neighbour and one ghost cell. PETSc and MPI calls are uninterpreted with their documented effect. ')
VGI = 'gated value-graph equality of one generic time step (loop-carried values havocked)'
P('T01', 'Implicit pseudo-time steps solve the right system and apply its solution',
  'In every iteration the backward-Euler solver evaluates the residual and local time steps once at the current state, zeroes the matrix, adds the Jacobian at that state and '
  'volume/(CFL dt) to the diagonal of every owned cell at its global index (all variables, one CFL number), assembles finally before solving, solves with the complete '
  'residual as right-hand side, and adds to every owned cell its relaxation factor times the solution. The matrix-free operator gets the same state, residual and pseudo-time vectors.',
  ['histories', 'inputs'], 'every iteration of every run, every cell, first and later steps, 4 and 1 variables',
  'Tests look only at whether a few cases converge; a stale matrix, a wrong diagonal or a partly applied update still converges, slower, on easy cases.',
  ['src/ode/aodesolver.cpp'], [('SteadyBackwardEulerSolver::solve', 'src/ode/aodesolver.cpp'), ('addPseudoTimeTerm', 'src/ode/aodesolver.cpp')], VGI, ITER)
P('T02', 'The CFL number stays within its configured limits and follows the residual',
  'When the configured initial CFL number does not exceed the final one, the CFL number used in any backward-Euler iteration lies between the two; strictly between them it equals '
  'the previous one times a positive power of the ratio of the previous to the latest residual norm, so it grows when the residual falls and shrinks when it grows.',
  ['histories'], 'every iteration, all residual histories, all configured limits',
  'A ramp that leaves its limits or follows the wrong ratio shows only in hard cases that diverge after many steps.',
  ['src/ode/aodesolver.cpp'], [('expResidualRamp', 'src/ode/aodesolver.cpp')], VGI, ITER)
P('T03', 'Update relaxation is one minus the largest relative change, limited below',
  'The flow update policy returns, for a physical state and any update, the larger of its minimum factor and one minus the larger of the relative changes of density and '
  '(linearly estimated) pressure in magnitude; a minimum outside (0,1] is refused at construction. The full update always returns one.',
  ['inputs', 'configurations'], 'all physical states, all updates, all minimum factors',
  'No unit test covers the policy; a lost absolute value or limit only matters in states close to vacuum.',
  ['src/ode/nonlinearrelaxation.cpp', 'src/ode/nonlinearrelaxation.hpp'], [('getLocalRelaxationFactor', 'src/ode/nonlinearrelaxation.cpp')], 'gated value-graph equality', VG)
P('T04', 'TVD Runge-Kutta steps are the standard SSP schemes of orders 1 to 3',
  'A time step of the unsteady solver of order 1, 2 or 3 is the optimal (Shu-Osher) strong-stability-preserving combination, evaluating the residual at every stage\'s own state '
  'with ghost contributions and ghost states exchanged in every stage, with CFL times the smallest local time step over all cells and processes at the start of the step; physical time '
  'advances by that step until the final time. Any other order is refused.',
  ['histories', 'schedules'], 'every step of every run, every cell, all orders',
  'No test reaches the unsteady solver; the order of accuracy and stability depend on all coefficients and stage states.',
  ['src/ode/aodesolver.cpp'], [('TVDRKSolver::solve', 'src/ode/aodesolver.cpp'), ('initialize_TVDRK_Coeffs', 'src/ode/aodesolver.cpp')], VGI, ITER)
P('T05', 'Explicit pseudo-time steps advance cells by CFL dt/volume times the residual',
  'In every iteration the forward-Euler solver evaluates the residual and local time steps once at the current state and adds to every variable of every owned cell the configured '
  'initial CFL number times the cell\'s local time step over its volume times its residual including the contributions of other processes.',
  ['histories', 'inputs'], 'every iteration of every run, every cell, 4 and 1 variables',
  'Regression tests converge to the same steady state with a wrong pseudo-time step, so they cannot tell.',
  ['src/ode/aodesolver.cpp'], [('SteadyForwardEulerSolver::solve', 'src/ode/aodesolver.cpp')], VGI, ITER)
P('T06', 'Steady solvers end the way their outcome demands',
  'Iterations go on exactly while the residual norm (volume-weighted square of the last component over all owned cells of all processes) relative to the first step\'s exceeds the tolerance and the '
  'iteration limit is not reached. A norm that is not finite raises a numerical error in the same iteration. A normal return means that the tolerance was reached and is recorded as '
  'converged; reaching the limit without it raises a tolerance error.',
  ['histories', 'fault_sequences'], 'every iteration of every run, all residual histories, tolerances and limits',
  'Tests do not exercise divergence or exhausted limits; a missed NaN or a silently accepted unconverged solution is reported as a result.',
  ['src/ode/aodesolver.cpp'], [('solve of both steady solvers', 'src/ode/aodesolver.cpp')], VGI,
  ITER + 'Convergence in the very iteration that exhausts the limit is left unspecified (the solvers report it as not converged).')
P('T07', 'Pseudo-time iterations zero residuals and exchange ghost values in time',
  'In every iteration of both steady solvers the residual vector is zero in every owned and ghost cell when the residual is accumulated into it, contributions to cells of other processes are '
  'added exactly once before they are used, and the updated state reaches the ghost cells before the next residual evaluation.',
  ['schedules', 'histories'], 'every iteration, owned and ghost cells, any distribution over processes',
  'Stable tests run mostly on one process, where every exchange is a no-op.',
  ['src/ode/aodesolver.cpp'], [('solve of both steady solvers', 'src/ode/aodesolver.cpp')], VGI, ITER)
P('L01', 'Matrix-free products are pseudo-time term plus directional difference',
  'For a non-degenerate direction x the matrix-free operator returns, in every owned cell, the pseudo-time coefficient times x plus the difference of the residual function between the '
  'stored state and that state perturbed along x, divided by a step of the configured size over the 2-norm of x. The perturbed state is exchanged before, the contributions of other processes after the '
  'evaluation; the work residual starts at zero; state, residual and direction are not changed.',
  ['inputs', 'schedules'], 'all states, residuals, directions and step sizes, owned and ghost cells',
  'One test compares the operator with the assembled matrix on a single process, where ghost exchange and ghost contributions do nothing.',
  ['src/linalg/alinalg.cpp'], [('MatrixFreeSpatialJacobian::apply', 'src/linalg/alinalg.cpp')], 'gated value-graph equality', ITER + 'The perturbed evaluation is not required to be in bounds of the gas model.')
CONF = (VG + 'Strings and options are propagated as constants over a finite partition: every documented keyword in several spellings, one class for any other name, each optional setting '
        'present or absent, and a distinct unknown for every free number or file name. Boost property trees and PETSc options are modelled by their documentation. ')
CFI = 'abstract evaluation: constant propagation over a finite partition of keywords and outcomes, value numbers for everything else'
P('C01', 'Every control-file option reaches the setting it documents',
  'The control-file parser sets each run-time option from the documented entry and no other: keywords are case-insensitive, the angle of attack is converted from degrees, optional entries '
  'have their documented default, boundary conditions arrive in order with marker, type, values and options, CONSISTENT selects the flux itself for the Jacobian, a missing initialization section '
  'means no startup solve, and command-line and PETSc overrides win. A missing required entry, an unknown boundary type or RANS is an error. The physics and numerics configurations '
  'handed to the discretisation copy the matching options; the startup one is first order.',
  ['configurations'], 'all free values; documented keywords, optional entries present or absent one at a time, required ones missing one at a time',
  'Control files of the tests exercise a few combinations, and a swapped or ignored setting often still converges.',
  ['src/utilities/controlparser.cpp', 'src/utilities/controlparser.hpp'], [('parse_flow_controlfile', 'src/utilities/controlparser.cpp'), ('extract_spatial_*_config', 'src/utilities/controlparser.cpp')], CFI, CONF)
P('C02', 'Scheme names make the scheme they name, wired to mesh, gas and parameters',
  'Each name of a flux, gradient scheme, reconstruction or nonlinear update makes the scheme of that name holding the mesh, physics, geometry and parameter given; an unknown name makes none (or, for gradients, '
  'the zero gradient). A flow discretisation has the configured order and viscosity law, uses the residual flux for residuals and the Jacobian flux for Jacobians, the configured gradient and '
  'reconstruction schemes, gas constants, free stream and boundary conditions.',
  ['configurations'], 'every scheme name, all parameter values, all four kinds of discretisation',
  'Tests run a fraction of the combinations; a factory that returns a similar scheme or an exchanged parameter passes them.',
  ['src/utilities/afactory.cpp', 'src/spatial/flow_spatial.cpp'], [('create_const_*', 'src/utilities/afactory.cpp'), ('constructor of FlowFV', 'src/spatial/flow_spatial.cpp')], CFI, CONF)
P('C03', 'A case solves what was configured and reports honestly whether it succeeded',
  'A steady case runs the startup solve (only if requested, first order, on the same mesh, into the same state) and then the main solve, each once with its own limits, tolerances, time stepping and update scheme, '
  'and its own linear solver (matrix-free operator exactly if requested, preconditioned by the assembled matrix, run-time options applied). A missed startup tolerance does not stop it; other '
  'numerical errors and error codes do. A main solve that fails or misses its tolerance is reported as a tolerance error, never as success. The initial state is the free stream in every cell, '
  'and the configured periodic boundaries, only those, are mapped.',
  ['configurations', 'fault_sequences'], 'all option values; startup and main solve ending in success, tolerance error, numerical error, error code',
  'Tests run successful cases; what happens after a failed solve, and which of two similar settings is used, is not visible in them.',
  ['src/utilities/casesolvers.cpp', 'src/utilities/controlparser.cpp'], [('SteadyFlowCase::execute', 'src/utilities/casesolvers.cpp'), ('execute_starter, execute_main', 'src/utilities/casesolvers.cpp'),
   ('setupImplicitSolver', 'src/utilities/casesolvers.cpp')], CFI, CONF + 'Solvers, matrices and meshes below the drivers are recording stand-ins; their own behaviour is the subject of other properties.')
RACE = ('Two accesses are told apart by linear index forms in the loop variable, by the mesh face ranges, or by the side of a face a cell is on (a face has two different cells, a cell is never its own neighbour). '
        'Different arrays are assumed not to overlap. PETSc objects are single places. Private copies left uninitialised are outside the claim. ')
P('R01', 'OpenMP parallel regions have no data race',
  'In every OpenMP parallel region no two threads access the same memory at the same time with one of them writing, unless both accesses are atomic updates or both are in the same critical section: results do '
  'not depend on how iterations are distributed over threads or interleaved (up to the rounding order of sums).',
  ['schedules'], 'every number of threads, schedule and interleaving, every mesh, all regions of the code',
  'A lost update needs two threads in the same cell within nanoseconds; tests run two threads on small meshes and compare with loose tolerances.',
  ['src/spatial', 'src/ode', 'src/linalg', 'src/mesh'], [('every parallel region', 'src/spatial/flow_spatial.cpp'), ('gradient schemes', 'src/spatial/agradientschemes.cpp'), ('time stepping', 'src/ode/aodesolver.cpp')],
  'interprocedural may-happen-in-parallel and index-dependence analysis of the syntax tree', RACE)
P('O01', 'Surface coefficients, lift and drag follow their definitions',
  'For every face of the requested boundary marker, and no other, the surface output has one row with the face centre, the pressure coefficient of the adjacent cell and the skin-friction coefficient '
  '(viscous stress of that cell\'s velocity gradient along the tangent, with the configured viscosity law). Lift, pressure drag and friction drag are the face integrals of these, projected on the '
  'directions across and along the free stream, summed over all processes and divided by the total length of the boundary.',
  ['inputs', 'configurations'], 'all states, gradients, faces, angles of attack, markers, both viscosity laws, any distribution over processes',
  'Tests use the drag of symmetric or attached flows with tolerances of percents; lift, viscous drag at incidence and several processes are not compared.',
  ['src/spatial/flow_spatial.cpp'], [('FlowFV_base::computeSurfaceData', 'src/spatial/flow_spatial.cpp')], VGI,
  MESHVG + 'The sums over the other faces are arbitrary symbols.')
P('O02', 'Files and norms written from a solution are those of the solution',
  'Nodal output is derived (density, Mach number, pressure, temperature, velocity) from the area-weighted mean of the states of the cells around a node, each counted once; cell output from the cell itself. '
  'The entropy error is the square root of the area-weighted sum, over all processes, of squared relative entropy deviations. The volume file lists centre and derived quantities of each cell; surface files list '
  'every face of every listed marker with the surface data and totals of that marker. A scalar field is averaged to the nodes in the same way.',
  ['inputs'], 'all states and meshes (one arbitrary cell and node), every list of markers',
  'No test reads the output files; errors there are only seen by whoever plots them. The entropy error is tested for its slope only, which a wrong weight keeps.',
  ['src/spatial/aoutput.cpp', 'src/spatial/flow_spatial.cpp'], [('FlowOutput', 'src/spatial/aoutput.cpp'), ('scalar_postprocess_point', 'src/spatial/diffusion.cpp')], VGI, MESHVG)
P('O03', 'VTU files are well formed and describe the mesh and the data given',
  'For meshes with triangles, quadrangles and their quadratic forms, in any mixture, and any number of scalar fields with or without a velocity, the VTU files written have balanced elements, '
  'announce the right numbers of points and cells, and list the coordinates, connectivity, cumulative offsets, VTK cell types and each named data array in full, vectors padded to three components.',
  ['inputs'], 'all meshes of cells with 3, 4, 6, 8 or 9 nodes, all fields',
  'No test reads the VTU files back; a hybrid mesh, a nodal scalar-only field or a quadratic cell is never written in the tests.',
  ['src/spatial/aoutput.cpp'], [('writeScalarsVectorToVtu_*', 'src/spatial/aoutput.cpp'), ('writeMeshToVtu', 'src/spatial/aoutput.cpp')],
  'abstract evaluation of the token stream (constant propagation for markup, value numbers for data)', MESHVG)
P('G01', 'Cell areas, cell centres and face normals are those of the mesh geometry',
  'For every triangle and quadrilateral with any node coordinates the stored area is the shoelace area of its nodes and the cell centre the mean of its nodes; for every face, physical-boundary, interior or between '
  'processes, the metric is the unit vector ((y2-y1)/l, -(x2-x1)/l) and the length l of its two nodes; the accessors hand out exactly these.',
  ['inputs'], 'all node coordinates, all linear 2D cells and faces, any mesh size and distribution',
  'Tests check two small meshes; an error confined to one cell type, a part of the faces or the last cell is not seen.',
  ['src/mesh/mesh.cpp', 'src/mesh/mesh.hpp'], [('compute_areas, compute_cell_centres, compute_face_data', 'src/mesh/mesh.cpp')], VGI, MESHVG)
P('G02', 'Discretisations hold exchanged cell centres, face centres, reflected ghosts',
  'Every spatial discretization is constructed with one complete ghost exchange of the cell centres, begun only after the own centres are stored; own centres are node means and received ones are kept; face '
  'centres are the means of the face\'s nodes; the ghost centre behind a physical-boundary face is the reflection of its cell\'s centre through the middle of the face.',
  ['inputs', 'configurations'], 'all cells and faces of any mesh, serial or distributed, flow and scalar discretisations',
  'The tests that look at centres run on one process and on one mesh; a missing or misordered exchange only shows at faces between processes.',
  ['src/spatial/aspatial.cpp'], [('Spatial::Spatial', 'src/spatial/aspatial.cpp'), ('compute_ghost_cell_coords_about_midpoint', 'src/spatial/aspatial.cpp')], VGI, MESHVG)
P('G03', 'Boundary faces point out of their cell; periodic faces are paired both ways',
  'Whatever the order in which a mesh file lists the two nodes of a boundary face, after orientation they appear in the order of the cell they bound. When two boundary faces and no others match along the '
  'periodic direction, exactly if both carry the periodic marker and their centres agree (to 1e-8) across that direction, the ghost cell of each becomes the cell behind the other.',
  ['inputs'], 'all cells with 3 or 4 nodes, both orders; any two periodic faces, both axes',
  'The meshes of the tests list faces one way round and have one periodic case.',
  ['src/mesh/mesh.cpp'], [('correctBoundaryFaceOrientation', 'src/mesh/mesh.cpp'), ('compute_periodic_map', 'src/mesh/mesh.cpp')], VGI, MESHVG)
P('M01', 'Each face of the mesh appears once, with its cells, nodes and inverse maps',
  'Building the face list gives the boundary faces first, then each face between two cells once, then the faces shared with other processes. Interior faces join exactly the pairs of neighbouring cells, with the '
  'nodes in the order of the left cell; boundary and shared faces get their own ghost index, distinct for each face. The maps from a cell face to its face and to the cell behind it agree with that list for both cells.',
  ['inputs'], 'all meshes of cells with 3 or 4 nodes and any neighbour maps; any number of processes',
  'The tests check neighbours on one small mesh on one process; ghost numbering of shared faces and the inverse maps of mixed meshes are not looked at.',
  ['src/mesh/mesh.cpp'], [('compute_faceConnectivity', 'src/mesh/mesh.cpp')], VGI, MESHVG)
P('M02', 'Cells find their neighbours, and boundary faces the cell behind them',
  'Two cells are recorded as neighbours across a face exactly if both contain its two nodes; a cell is never its own neighbour. The position of a boundary or shared face inside its cell is the position at which its '
  'two nodes follow each other, in either order. The cell behind a boundary face is the one cell around both of its nodes; a face with two such cells is refused.',
  ['inputs'], 'all cells with 3 or 4 nodes, every position of the face, representative lists of cells around the nodes',
  'The tests use one mesh; a wrong neighbour in a mixed mesh or on a particular face position does not appear there.',
  ['src/mesh/mesh.cpp'], [('compute_elementsSurroundingElements', 'src/mesh/mesh.cpp'), ('getFaceEIndex', 'src/mesh/mesh.cpp'), ('compute_phyBFaceNeighboringElements', 'src/mesh/mesh.cpp')], VGI, MESHVG)
P('M03', 'Vectors and matrices have the rows, ghosts and blocks of the mesh',
  'System vectors have one block of variables per own cell and per cell of the global mesh; ghosted ones add the global indices of the cells across shared faces as ghosts. Matrices have the same rows and columns, the '
  'block size set before preallocation, room for the cell and all its neighbours, and accept entries beyond the estimate. The matrix-free operator has the same sizes and multiplies with the given discretization.',
  ['inputs', 'configurations'], 'all meshes and numbers of processes, every number of variables instantiated, AIJ and BAIJ formats',
  'The regression tests run on one process, where local and global sizes agree and there are no ghosts.',
  ['src/linalg/alinalg.cpp', 'src/mesh/mesh.cpp'], [('setJacobianSizes', 'src/linalg/alinalg.cpp'), ('createGhostedSystemVector', 'src/linalg/alinalg.cpp')], VGI, MESHVG)
P('M04', 'Each process gets its cells, their points, boundary and shared faces',
  'Given the process of every cell, restricting the global mesh keeps for each own cell its global index, nodes, faces and region, for each point of own cells its coordinates, and for each boundary face of an own cell its '
  'nodes and markers. The faces shared with other processes are exactly those with a cell of another process across, each once, with its own cell, position in it, process and global index of the cell across, and global face.',
  ['inputs', 'configurations'], 'all cells with 3 or 4 nodes, every combination of own, foreign and boundary neighbours, any assignment of cells to any number of processes',
  'The parallel tests use two meshes and few processes; a wrong neighbour process or face in one corner configuration does not appear there.',
  ['src/mesh/meshpartitioning.cpp'], [('restrictMeshToPartitions', 'src/mesh/meshpartitioning.cpp'), ('getConnectivityFaceEIndices', 'src/mesh/meshpartitioning.cpp')], VGI, MESHVG)
P('M05', 'Cell reordering moves all cell data; line orderings keep lines together',
  'Reordering the cells by a permutation gives each cell all data (nodes, their number, number of faces, region) of the cell the permutation names. Preprocessing with -mesh_reorder applies the requested ordering once (natural: '
  'none; a line ordering only with a threshold, else it is refused), with connectivity and face data there for the ordering, and connectivity, areas and then face data computed afterwards. Line orderings keep each line\'s cells '
  'consecutive and in order, and give every cell in no line its own place.',
  ['inputs', 'configurations'], 'all meshes, permutations and sets of lines; every ordering name and with or without a threshold',
  'The tests reorder with two orderings on one mesh and only look at the converged solution, which an inconsistent region marker, stale face data or a wrongly broken line need not change.',
  ['src/mesh/mesh.cpp', 'src/mesh/ameshutils.cpp', 'src/mesh/meshordering.cpp'],
  [('reorder_cells', 'src/mesh/mesh.cpp'), ('preprocessMesh', 'src/mesh/ameshutils.cpp'), ('getHybridLineOrdering', 'src/mesh/meshordering.cpp'), ('lineReorder', 'src/mesh/meshordering.cpp')], VGI, MESHVG)

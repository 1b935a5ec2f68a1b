"""Per-property notes for DESIGN.md: what exactly is analysed against which oracle."""
NOTES = {
 'F01': 'Both arguments of get_flux are the same value-numbered state; each output component is compared with the analytical flux of flowspec, per scheme.',
 'F02': 'get_flux(l,r,n) and get_flux(r,l,-n) are evaluated in one value graph and compared with opposite sign, gate by gate.',
 'F03': 'get_flux is evaluated with derivative components for the 8 state variables; get_jacobian entries are compared with them.',
 'P01': 'Every state function and conversion of IdealGasPhysics against its defining relation; round trips of conversions, also with in == out.',
 'P02': 'Every getJacobian*/getGrad* against derivative components of the function it differentiates.',
 'P03': 'Pointwise viscous flux against the stress tensor/Fourier oracle; its Jacobian against derivative components; every configuration of the templates.',
 'S01': 'compute_residual of all four instantiations on a parametric mesh; residual updates of the two cells of each face kind are compared with the expected flux sum; scatter begin/end order is part of the value.',
 'S02': 'Face gradient and its thin-layer derivatives, ghost reflections, face midpoints against geometric identities.',
 'S03': 'Assembled blocks (block row, block column, value) per face kind are compared with the derivative of the first-order residual of that face.',
 'S04': 'compute_local_time_step: accumulated wave speeds per face, division of cell size, global minimum.',
 'S05': 'Green-Gauss and least-squares gradients on a parametric cell: equal to the divergence-theorem sum / normal equations; exact for linear fields.',
 'S06': 'Reconstruction and limiters (WENO, Barth-Jespersen, Van Albada, Venkatakrishnan, unlimited): face values on parametric cells of several face configurations against the limiter definitions, exactness on constants, no out-of-range index.',
 'B01': 'Ghost state of each condition made by the factory against the condition\'s definition.',
 'B02': 'Ghost Jacobian against derivative components of the ghost state.',
 'T01': 'One arbitrary iteration of the backward-Euler loop (step counter 0 and >0): order of zeroing, insertion, assembly, solve; values inserted; state at the end.',
 'T02': 'CFL value read off the pseudo-time term; its range by gate feasibility, its recurrence by value equality with the carried CFL number and norms.',
 'T03': 'Value of the factor against max(minimum, 1 - max(|dp|/p, |drho|/rho)); throw condition of the constructor against the valid interval.',
 'T04': 'One arbitrary step for each order against the Shu-Osher recursion; stage-wise exchanges, zeroing and time-step reduction; constructor with other orders must throw.',
 'T05': 'State at the end of one arbitrary forward-Euler iteration.',
 'T06': 'Throw conditions, loop condition and return conditions as gated truth values; implication decided by structural infeasibility.',
 'T07': 'Contents of the residual vector at its evaluation for an owned and a ghost cell, order and kind of exchanges.',
 'L01': 'Operator applied to symbolic state, residual and direction for an owned and a ghost cell.',
 'B03': 'The factory is run in the value graph for a configuration with one entry per type; marker, parameters and physics must arrive in the right object.',
 'R01': 'Every `parallel` directive found in the exported tree, with all callees and overriders; one obligation per region and object written in it: all pairs of accesses of one barrier phase are disjoint between iterations, atomic, or in one critical section.',
 'C01': 'parse_flow_controlfile evaluated once per class of control file (all entries of doc/example-control-file.ctrl; each optional entry absent; each required one missing; spellings; overrides), every field of the result compared.',
 'C02': 'Each factory once per name plus one unknown name; the constructor of the four flow discretisations with recording sub-objects.',
 'C03': 'Case drivers once per (kind of stepping, outcome of the solver, flags) with recording stand-ins below; order, arguments and results compared.',
 'O01': 'computeSurfaceData for one arbitrary boundary face, both viscosity laws; accumulators are found by a dry run as the variables that start from zero and change in the loop.',
 'O02': 'Output functions with file streams as an event list (value, gate, loop stack).',
 'O03': 'Stream operators append tokens; constant text is parsed as markup, values are compared with the mesh and the arrays; one run per cell type and per presence of scalars/vector.',
 'G01': 'Areas, centres and face metrics of one arbitrary cell (3 or 4 nodes) or face with symbolic node coordinates, compared with shoelace, mean and unit normal.',
 'G02': 'Constructor of Spatial<4> and Spatial<1> with recording PETSc stand-ins: what is in the vector when the exchange begins, what is read after it ended.',
 'G03': 'Orientation: every face of a cell, both stored orders. Periodic map: two generic faces I < J, loops visit exactly these; gates compared with the matching condition.',
 'M01': 'One generic cell, face position, boundary face and shared face; the counters that number interior faces are secondary induction variables whose start, step and final value are compared with the face ranges.',
 'M03': 'PETSc calls are recorded with their symbolic arguments, in order; sizes are compared as polynomials in the cell counts. No claim about memory use or the preallocation being tight.',
 'M04': 'One generic global cell (owned or not), its neighbours, and one generic boundary face; std::unique, sort and the maps are modelled on the generic points; the assignment of cells to processes is arbitrary input (its computation, trivial or by Scotch, is not part of the property). That faces keep their position in the cell under restriction is part of the model of the local neighbour search, which M02 covers.',
 'M05': 'Cells: a generic cycle of three cells stands for the permutation (what is wrong for a transposition-only or inverse use shows on it). Lines: one generic line of symbolic length, a generic cell in it and a generic cell in no line, with generic places for the counters carried over the loops. How the lines themselves are found (findLines) and what PETSc orders are inputs.',
 'M02': 'Generic nodes pairwise distinct or equal by construction; lists of surrounding cells of length 1 to 4 in several arrangements (a sample of arrangements, so this part is not exhaustive); sort is the identity and set_intersection its definition.',
}
CAUGHT = {}

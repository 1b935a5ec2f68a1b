REGISTRY = {
    'F01': ('flux', 'consistency'),
    'F02': ('flux', 'antisymmetry'),
    'F03': ('flux', 'jacobian'),
    'P01': ('physics', 'relations'),
    'P02': ('physics', 'derivatives'),
    'P03': ('viscous', 'pointwise'),
    'S01': ('spatial', 'residual'),
    'S02': ('spatial', 'face_gradients'),
    'S03': ('spatial', 'jacobian'),
    'S04': ('spatial', 'timestep'),
    'S05': ('gradients', 'gradients'),
    'S06': ('recon', 'reconstruction'),
    'B01': ('bc', 'ghost'),
    'B02': ('bc', 'ghost_jacobian'),
    'B03': ('bc', 'wiring'),
    'T01': ('ode', 'backward_euler'),
    'T02': ('ode', 'cfl_control'),
    'T03': ('ode', 'relaxation'),
    'T04': ('ode', 'runge_kutta'),
    'T05': ('ode', 'forward_euler'),
    'T06': ('ode', 'outcome'),
    'T07': ('ode', 'exchange'),
    'L01': ('ode', 'matrix_free'),
    'C01': ('conf', 'c01'),
    'C02': ('conf', 'c02'),
    'C03': ('conf', 'c03'),
    'R01': ('omp', 'races'),
    'O01': ('output', 'surface'),
    'O02': ('output', 'flow_output'),
    'O03': ('output', 'vtu'),
    'G01': ('geometry', 'geometry'),
    'G02': ('geometry', 'centres'),
    'G03': ('geometry', 'boundaries'),
    'M01': ('topology', 'faces'),
    'M02': ('topology', 'neighbours'),
    'M03': ('linalg', 'sizes'),
    'M04': ('partition', 'partition'),
    'M05': ('reorder', 'reorder'),
}

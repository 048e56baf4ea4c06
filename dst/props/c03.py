"""C03: what the solver gets from the Jacobian callbacks is the derivative of the mass action law"""
from .. import common, mech
from . import c01

LEVEL = 'exploration'
RUNS = {'quick': 1000, 'thorough': 9000}
RULE = ('As C01, with solver scripts that ask for the Jacobian at many states between right-hand side calls, on the Numba and (one run in '
        'four) the Fortran model. Non-trivial if at least two Jacobians of a mechanism with a stoichiometric feature were compared.')
MEASURE = c01.MEASURE
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C03', i)
    v = 'f2py' if i % 4 == 3 else 'gas'
    m = mech.slice_shipped(r, r.choice([None] * 7 + [120, 300 if v == 'f2py' else 900])) if r.random() < .15 else mech.generate(r, nmax=r.choice([3, 8, 16]))
    p = {'variant': v, 'mech': m, 'set': common.settings(r, v, (1, 3)), 'conc': common.conc(r, m),
         'solver': common.solver_plan(r, (5, 12)), 'env': common.env(r)}
    if v == 'f2py' and r.random() < .3:
        p['set']['openMP'] = True
        p['env']['omp'] = {'mode': 1, 'threads': r.choice([1, 2, 5, 16]), 'seed': r.randint(1, 9999)}
    return common.negatives(r, p)


def run(plan, out):
    c01.run(plan, out, kinds=('jac',))
    out.probe('fortran_runs', plan['variant'] == 'f2py')

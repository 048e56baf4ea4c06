"""C02: the right-hand side of the Fortran gas model, serial and OpenMP"""
from .. import common, mech
from . import c01

LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 4000}
RULE = c01.RULE + ' The Fortran sources are generated, compiled with gfortran and executed; half of the runs turn OpenMP on.'
MEASURE = c01.MEASURE
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C02', i)
    k = r.random()
    if k < .15:
        m = mech.slice_shipped(r, r.randint(250, 700) if k < .006 else r.randint(60, 200) if k < .03 else None)
    else:
        m = mech.generate(r, nmax=r.choice([3, 8, 8, 16, 16, 60]))
    p = {'variant': 'f2py', 'mech': m, 'set': common.settings(r, 'f2py', (1, 3)), 'conc': common.conc(r, m),
         'solver': common.solver_plan(r, (3, 9)), 'env': common.env(r)}
    if r.random() < .5:
        p['set']['openMP'] = True
        p['env']['omp'] = {'mode': r.choice([0, 1]), 'threads': r.choice([1, 2, 3, 5, 8, 16]), 'seed': r.randint(1, 9999)}
    return common.negatives(r, p)


def run(plan, out):
    c01.run(plan, out)
    out.probe('openmp_runs', bool(plan['set'].get('openMP')))

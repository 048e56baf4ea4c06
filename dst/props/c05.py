"""C05: photolysis follows the simulated time of day"""
from .. import common, mech
from . import c01

LEVEL = 'exploration'
RUNS = {'quick': 660, 'thorough': 6000}
RULE = ('A run photolyses species with drawn J references over up to ten (sometimes 120) batches that may span several days (sometimes months), from a drawn start hour, in '
        'the Numba, Fortran or aerosol model; solver scripts evaluate at scattered, repeated and out of order times. Non-trivial if calls '
        'of at least two batches, or by day and by night, were compared.')
MEASURE = 'distinct (model, hour of day, batch number) evaluated'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C05', i)
    v = ['gas', 'gas', 'f2py', 'gas', 'aerosol', 'gas'][i % 6]
    js = r.sample(mech.JS, r.randint(2, 8))
    rx = [[[['', 'S%dX' % j], ['', 'hv']] if r.random() < .3 else [['', 'S%dX' % j]], [['', 'PS%dX' % j]], 'J(%d)%s' % (j, r.choice(['', '*0.5']))]
          for j in js]
    rx += [[[['', a]], [['', 'O3']], '1.0D-15'] for a in ['APINENE', 'PINONIC']]
    st = common.settings(r, v, (2, 10), long=r.random() < .8)
    p = {'variant': v, 'mech': {'r': rx, 'fmt': mech.fmt(r, ())}, 'set': st, 'conc': {}, 'env': common.env(r),
         'solver': common.solver_plan(r, (3, 7), range=[0, 6])}
    if r.random() < .04 and v != 'aerosol':
        # weeks and months
        st['batch_step'] = r.choice([86400.0, 50000.0, 12 * 3600.0, 3e5])
        st['simulation_time'] = st['batch_step'] * r.randint(10, 120)
        p['solver']['calls'] = 2
    if v == 'aerosol':
        p['smiles'] = []
        p['set']['num_bins'] = 2
        p['solver'].update(ng=len(mech.species(p['mech'])) + 1, nb=2)
    return common.negatives(r, p)


def run(plan, out):
    c01.run(plan, out, kinds=('rhs', 'jac'))
    sim = None
    hour = plan['set'].get('hour_of_day', 12.0)
    day = set()
    out.sig = set()
    for k in out.calls:
        h = (hour + k[1] / 3600.0) % 24
        day.add(6 < h < 18)
        out.sig.add('%s %d %d' % (plan['variant'], int(h), k[0]))
        out.probe('day' if 6 < h < 18 else 'night')
    out.nontrivial = len(day) > 1 or len({k[0] for k in out.calls}) > 1

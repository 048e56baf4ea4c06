"""C07: the peroxy radical total is the sum over exactly the MCM radicals present"""
from .. import common, mech
from . import c01

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 6000}
RULE = ('A run holds a block of the 1228 names of the MCM list (the blocks move on with the run number and cover it), names that only look '
        'like radicals, and reactions whose rate is proportional to RO2, in shuffled order, in the Numba, Fortran or aerosol model. '
        'Non-trivial if at least two calls were compared.')
MEASURE = 'distinct radicals whose concentration reached a rate coefficient'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME
NEAR = [n for n in mech.PLAIN if 'O2' in n]


def plan(i, seed, tier):
    r = mech.rng(seed, 'C07', i)
    v = ['gas', 'gas', 'f2py', 'gas', 'aerosol'][i % 5]
    al = mech.ro2_names()
    k = r.random()
    if k < .1:
        ro2 = []
    elif k < .25:
        ro2 = r.sample(al, 1)
    elif k < .35:
        ro2 = r.sample(al, r.randint(30, 120))
    else:
        ro2 = [al[(i * 12 + j + seed) % len(al)] for j in range(12)]
    near = r.sample(NEAR, 3)
    for n in r.sample(al, 4):
        near.append(r.choice([n[:-1], n + 'H', 'X' + n, n + '2', n.lower(), 'A' + n]))
    near = [n for n in dict.fromkeys(near) if n not in mech.ro2_set() and n[0].isalpha() and n not in mech.BATH and n != 'hv']
    rx = [[[['', a]], [['', r.choice(near)]], mech.lit(r)] for a in ro2]
    rx += [[[['', a]], [['', 'PROD']], mech.rate(r) if v != 'aerosol' else mech.lit(r)] for a in near]
    rx += [[[['', 'APINENE']], [['', 'PINONIC']], '1.0D-12*RO2'], [[['', 'O3']], [], '2.5D-13*RO2*0.5']]
    r.shuffle(rx)
    m = {'r': rx, 'fmt': mech.fmt(r, ())}
    p = {'variant': v, 'mech': m, 'set': common.settings(r, v, (1, 2)), 'conc': {}, 'env': common.env(r),
         'solver': common.solver_plan(r, (3, 6), range=[6, 8])}
    if v == 'aerosol':
        p['smiles'] = []
        p['set']['num_bins'] = 2
        p['solver'].update(ng=len(mech.species(m)) + 1, nb=2)
    return common.negatives(r, p)


def run(plan, out):
    c01.run(plan, out)
    out.sig = {n for n in mech.species(plan['mech']) if n in mech.ro2_set()} | ({'none'} if not any(
        n in mech.ro2_set() for n in mech.species(plan['mech'])) else set())
    out.nontrivial = out.probes.get('calls_compared', 0) >= 2

"""C18: condensation rates follow the documented equations"""
from .. import common, mech, particles, world

LEVEL = 'exploration'
RUNS = {'quick': 320, 'thorough': 3000}
RULE = ('Aerosol and fixed-yield runs with drawn mechanisms, structures, methods, cut-offs, size distributions, cores, surface tensions, '
        'thread teams and schedules; the solver asks for states far from and near equilibrium, with and without gas or organics. At every '
        'call the derivative of every gas and every species in every bin is compared with chemistry plus the condensation equations. '
        'Non-trivial if at least two species condense in at least two bins.')
MEASURE = 'distinct (model, numbers of species, condensing species and bins, cut-off, solver history)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C18', i)
    return particles.draw(r, 'yield' if i % 4 == 3 else 'aerosol', nb=(1, 2), nmax=8, calls=(3, 7))


def run(plan, out):
    with world.World([plan['variant']]) as w:
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if not common.check_run(res, out):
            return
        sim = res.sim
        ref = particles.Particles(plan, res, sim, out)
        if not ref.ok:
            return
        n = ref.check_rates(out, sim)
        out.probe('calls_compared', n)
        out.nontrivial = n > 0 and ref.p.nc > 2 and ref.p.nb > 1
        d = particles.describe_set(ref.p, plan)
        out.sig.add(plan['variant'] + ' ' + d + ' ' + common.history(sim))
        out.sample = {'variant': plan['variant'], 'set': plan['set'], 'shape': d}

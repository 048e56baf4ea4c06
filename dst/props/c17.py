"""C17: partitioning conserves every species"""
import copy

import numpy as np

from .. import common, mech, particles, world

LEVEL = 'exploration'
RUNS = {'quick': 320, 'thorough': 3000}
RULE = ('Aerosol and fixed-yield runs with drawn mechanisms, structures, cut-offs, bins and thread teams. At every call of a chaotic solver '
        'the change of every species in the gas, less chemistry, and in all bins must cancel. In a third of the runs no reaction has a rate '
        'and a real integrator (BDF) runs several batches: the total of every species over gas and particles must stay what it was. '
        'Non-trivial if at least one organic species condenses in at least two bins.')
MEASURE = 'distinct (model, numbers of species, condensing species and bins, cut-off, kind of solver, solver history)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C17', i)
    still = i % 3 == 2
    v = 'yield' if i % 6 == 5 or i % 16 == 4 else 'aerosol'
    p = particles.draw(r, v, nb=(1, 3), nmax=5 if still else 8, calls=(3, 6))
    if still:
        p['set']['num_bins'] = r.choice([1, 2, 3])
        p['set']['batch_step'] = b = r.choice([1.0, 10.0, 100.0])
        p['set']['simulation_time'] = b * r.randint(1, 3)
        p['solver'] = {'mode': 'exact', 'rtol': 1e-5, 'atol': 1e2, 'max_calls': 4000}
        if v == 'aerosol':
            for x in p['mech']['r']:
                x[2] = '0.0D0'
        else:
            p['yield'] = p['yield'][:5]
    return p


def run(plan, out):
    still = plan['solver'].get('mode') == 'exact'
    with world.World([plan['variant']]) as w:
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if still and res.status == 'error' and res.sims and res.sims[-1].gave_up:
            out.probe('integration_gave_up')
            return
        if not common.check_run(res, out):
            return
        sim = res.sim
        ref = particles.Particles(plan, res, sim, out)
        if not ref.ok:
            return
        p = ref.p
        if still:
            n = 0
            t0 = None
            for b in sim.batches:
                for y in [b.y0] + list(b.y_out):
                    tot = np.array(y[:p.ng])
                    tot[p.include] += p.bins(y).sum(axis=0)
                    if t0 is None:
                        t0 = tot
                    n += 1
                    k = common.worst(tot, t0, 1e-7 * np.abs(t0) + 1.0)
                    if k is not None:
                        out.fail('total-changed', 'without reactions the total of %s went from %r to %r in batch %d' % (
                            ref.names[k[0]], t0[k[0]], tot[k[0]], b.n))
                        return
            moved = float(np.abs(p.bins(sim.batches[-1].y_out[-1]) - p.bins(sim.batches[0].y0))[:, :-1].sum())
            out.probe('states_totalled', n)
            out.nontrivial = moved > 0 and p.nc > 1 and p.nb > 1
        else:
            n = ref.check_balance(out, sim)
            out.probe('calls_compared', n)
            out.nontrivial = n > 0 and p.nc > 1 and p.nb > 1
        d = particles.describe_set(p, plan)
        out.sig.add('%s %s %s %s' % (plan['variant'], d, still, '' if still else common.history(sim)))
        out.sample = {'variant': plan['variant'], 'set': plan['set'], 'shape': d, 'integrated': still}

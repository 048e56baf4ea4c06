"""C19: recorded particle mass and sizes belong to the recorded state"""
from .. import common, mech, particles, world

LEVEL = 'exploration'
RUNS = {'quick': 320, 'thorough': 3000}
RULE = ('Aerosol and fixed-yield runs of one to five batches (sometimes a hundred) under a chaotic solver: trial states far from the accepted ones before and after '
        'the end of a batch, several accepted states per batch, calls in any order of time. The saved mass and sizes of every batch are '
        'compared with those of the saved state; the tables of the fixed-yield model must hold the same numbers as its binary files. '
        'Non-trivial if at least two batches with condensed organics were compared or one in at least two bins.')
MEASURE = 'distinct (model, numbers of species, condensing species and bins, cut-off, solver history)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C19', i)
    p = particles.draw(r, 'yield' if i % 3 == 2 else 'aerosol', nb=(1, 5), nmax=7, calls=(0, 5))
    if r.random() < .03:
        p['set']['simulation_time'] = p['set']['batch_step'] * r.randint(20, 130)
        p['solver']['calls'] = min(p['solver']['calls'], 1)
    return p


def run(plan, out):
    with world.World([plan['variant']]) as w:
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if not common.check_run(res, out):
            return
        sim = res.sim
        ref = particles.Particles(plan, res, sim, out)
        if not ref.ok:
            return
        files = common.saved(w, plan['variant'])
        n = ref.check_saved(out, sim, files)
        if out.violations:
            return
        last = common.last_states(sim)
        Y = files['y']
        if len(Y) != len(last) or any(not common.same_bits(a, b) for a, b in zip(Y, last)):
            out.fail('state', 'the saved states are not those accepted at the ends of the %d batches' % len(last))
            return
        if plan['variant'] == 'yield':
            for k in ('y', 'SOA', 'size', 't'):
                a, b = files[k], files.get(k + '_csv')
                if b is None:
                    continue
                if isinstance(b, common.Bad):
                    out.fail('table', 'the saved table of %s cannot be read: %s' % (k, b.why))
                    return
                if a.size != b.size or not common.same_bits(a.ravel(), b.ravel()):
                    out.fail('table', 'the saved table of %s is not the saved binary file' % k)
                    return
        out.probe('records_compared', n)
        out.nontrivial = n > 0 and ref.p.nc > 1 and (n > 1 or ref.p.nb > 1)
        d = particles.describe_set(ref.p, plan)
        out.sig.add('%s %s %s' % (plan['variant'], d, common.history(sim)))
        out.sample = {'variant': plan['variant'], 'set': plan['set'], 'shape': d, 'batches': n}

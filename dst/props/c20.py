"""C20: aerosol set-up gives each species its own properties, core and water"""
import numpy as np

from .. import common, mech, particles, world

LEVEL = 'exploration'
RUNS = {'quick': 288, 'thorough': 3000}
RULE = ('Aerosol runs with drawn mechanisms and structure files: entries missing, without a structure, in another order, for species of other '
        'mechanisms, for oxidants, with equal structures for two species; drawn cut-offs on either side of the vapour pressures, methods, '
        'temperatures, humidities, size distributions and cores; mechanisms before in the same folder. The initial state, the set of '
        'condensing species and, through the derivative at several states, every property of every species are compared with the '
        'reference. Non-trivial if some species condense and some do not.')
MEASURE = 'distinct (numbers of species, condensing species and bins, cut-off, kinds of structure file entries)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C20', i)
    p = particles.draw(r, 'aerosol', off=.3, nb=(1, 2), nmax=12, calls=(3, 5))
    sm = p['smiles']
    if r.random() < .4 and len(sm) > 1:
        a, b = r.sample(range(len(sm)), 2)
        sm[a][1] = sm[b][1]
    if r.random() < .4:
        for k in r.sample(range(len(sm)), min(len(sm), r.randint(1, 2))):
            sm[k][1] = None
    if r.random() < .3:
        sm += [[n, common.smiles_name(r)] for n in ('OH', 'HO2', 'hv', 'O3') if n not in [x for x, _ in sm]]
    r.shuffle(sm)
    # a cut-off close to the values
    from .. import partref
    s = {**partref.DEF['aerosol'], **p['set']}
    vps = sorted(partref.properties(x, s)[2] for n, x in sm if x)
    if vps and r.random() < .5:
        p['set']['vp_cutoff'] = vps[r.randrange(len(vps))] + r.choice([-1e-6, 1e-6, 0.0])
    if r.random() < .3:
        p['before'] = common.with_mech(p, mech.generate(r, None, nmax=8, aerosol=True), r)
        particles.settle(r, p['before'])
    if r.random() < .15:
        p['files_exist'] = 1
        p.pop('before', None)
    return p


def run(plan, out):
    with world.World(['aerosol']) as w:
        if plan.get('before'):
            common.prepare(w, plan['before'])
            out.observe(common.launch(w, plan['before']))
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if not common.check_run(res, out):
            return
        if plan.get('files_exist'):
            res = common.launch(w, plan, set={'files_exist': True})
            out.observe(res)
            if not common.check_run(res, out, 'resumed run'):
                return
        sim = res.sim
        ref = particles.Particles(plan, res, sim, out, 'condensing-species')
        if not ref.ok or not ref.check_start(out, sim):
            return
        p = ref.p
        inc = common.saved(w, 'aerosol').get('include')
        if not isinstance(inc, np.ndarray) or sorted(inc.ravel().tolist()) != p.include.tolist():
            out.fail('condensing-species', 'the saved list of condensing species is %s, expected %s of %s' % (inc, p.include.tolist(), ref.names))
            return
        n = ref.check_rates(out, sim)
        out.probe('calls_compared', n)
        kinds = {'equal' if [x for _, x in plan['smiles']].count(x) > 1 else 'one' for _, x in plan['smiles'] if x} | {'none' for _, x in plan['smiles'] if x is None}
        out.nontrivial = 1 < p.nc < p.ng and n > 0
        d = particles.describe_set(p, plan)
        out.sig.add('%s %s %s %s' % (d, sorted(kinds), bool(plan.get('before')), bool(plan.get('files_exist'))))
        out.sample = {'set': plan['set'], 'shape': d, 'structures': sorted(kinds)}

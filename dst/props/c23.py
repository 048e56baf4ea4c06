"""C23: the fixed-yield model"""
import numpy as np

from .. import common, mech, particles, partref, world
from . import c13

LEVEL = 'exploration'
RUNS = {'quick': 320, 'thorough': 3000}
RULE = ('Fixed-yield runs with drawn lists of yields (duplicate lines, one to ten compounds, the shipped list), amounts and molar masses of the '
        'parent, cut-offs, distributions, thread teams; some after a run with another list in the same folder, some resumed. Compared with '
        'the reference: the initial state, the derivative at every call, and the recorded states, masses and sizes of every batch. '
        'Non-trivial if at least two compounds condense.')
MEASURE = 'distinct (numbers of species, condensing species and bins, cut-off, duplicates, sequence of runs, solver history)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C23', i)
    p = particles.draw(r, 'yield', nb=(1, 3), calls=(2, 6))
    if r.random() < .6:
        p['set']['total_voc_mass'] = r.choice([1.0, 30, 500.0, round(r.uniform(1, 200), 2)])
        p['set']['voc_mw'] = r.choice([136.24, 68.12, 204.36, 100])
    if r.random() < .4:
        p['dups'] = [r.randrange(len(p['yield'])) for _ in range(r.randint(1, 3))]
    if r.random() < .3:
        p['before'] = {**p, 'yield': common.yields(r), 'dups': []}
        p['before']['solver'] = {**p['solver'], 'ng': len(p['before']['yield']) + 1}
    if r.random() < .25:
        p['files_exist'] = 1
    return p


def run(plan, out):
    sig = ''
    with world.World(['yield']) as w:
        if plan.get('before'):
            common.prepare(w, plan['before'])
            out.observe(common.launch(w, plan['before']))
            sig += 'before '
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if not common.check_run(res, out):
            return
        if plan.get('files_exist'):
            res = common.launch(w, plan, set={'files_exist': True})
            out.observe(res)
            sig += 'resumed '
            if not common.check_run(res, out, 'resumed run'):
                return
        sim = res.sim
        ref = particles.Particles(plan, res, sim, out)
        if not ref.ok or not ref.check_start(out, sim):
            return
        n = ref.check_rates(out, sim)
        if out.violations:
            return
        ref.check_balance(out, sim)
        if out.violations:
            return
        files = common.saved(w, 'yield')
        ref.check_saved(out, sim, files)
        if out.violations:
            return
        c13.check_saved(out, w, plan, res)
        if out.violations:
            return
        out.probe('calls_compared', n)
        out.nontrivial = ref.p.nc > 2 and n > 0
        d = particles.describe_set(ref.p, plan)
        out.sig.add('%s %s %s %s' % (d, bool(plan.get('dups')), sig, common.history(sim)))
        out.sample = {'set': plan['set'], 'shape': d, 'duplicates': len(plan.get('dups') or ())}

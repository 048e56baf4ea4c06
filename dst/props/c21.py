"""C21: simulations run after one another in one process do not influence each other"""
from .. import common, mech, particles, world

LEVEL = 'exploration'
RUNS = {'quick': 520, 'thorough': 6000}
RULE = ('One interpreter runs a front end two to four times, parsing again each time: the Numba model with the same or other mechanisms '
        '(mostly of the same size) and settings, the Fortran, aerosol and fixed-yield models with other settings. Every simulation is compared bit '
        'by bit with the same one in a process and folder of its own. Non-trivial if at least two simulations were compared.')
MEASURE = 'distinct (model, sequence of mechanisms and solver histories)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C21', i)
    v = ['gas', 'gas', 'gas', 'gas', 'f2py', 'gas', 'aerosol', 'gas', 'gas', 'yield'][i % 10]
    base = common.draw(r, v, (1, 2), nmax=6, calls=(2, 4))
    if v in common.PARTICLES:
        base = particles.settle(r, base, .5)
    steps = []
    for k in range(r.choice([2, 2, 3, 4]) if v == 'gas' else 2):
        j = r.random()
        if v != 'gas' or j < .3:
            s = {**base, 'solver': {**base['solver'], 'seed': r.getrandbits(30)}, 'conc': common.conc(r, base['mech']) if v != 'yield' else {}}
        elif j < .75:
            s = common.with_mech(base, common.variation(r, base['mech']), r)
        else:
            s = common.draw(r, v, (1, 2), nmax=6, calls=(2, 4))
        s['set'] = common.settings(r, v, (1, 2))
        if v in common.PARTICLES:
            s['set'] = particle_settings(r, v, base['set'], s['set'])
        s['resume'] = int(v == 'gas' and k > 0 and j < .15)
        steps.append(s)
    return {'variant': v, 'steps': steps, 'fs': common.fs(r)}


def particle_settings(r, v, base, new):
    """Other settings of a particle model that the loaded machine code, made for the first simulation, still fits: the number
    of bins stays, and what decides on the condensing species as well unless all condense"""
    p = {'set': {k: base[k] for k in ('num_bins', 'ignore_vp', 'vp_cutoff') if k in base}}
    common.aero_common(r, p)
    s = {**new, **p['set']}
    if base.get('ignore_vp', v == 'aerosol'):
        fixed = ('temp', 'vp_method', 'bp_method', 'critical_method')
        s = {k: x for k, x in s.items() if k not in fixed}
        s.update({k: base[k] for k in fixed if k in base})
    return s


def fitting(v, first, s):
    """What a loaded module depends on is that of the first simulation, also in a minimised plan"""
    s = {**s, **{k: first[k] for k in ('mech', 'smiles', 'yield', 'dups', 'layout') if k in first}}
    if v in common.PARTICLES:
        fixed = ['num_bins', 'ignore_vp', 'vp_cutoff']
        if first['set'].get('ignore_vp', v == 'aerosol'):
            fixed += ['temp', 'vp_method', 'bp_method', 'critical_method']
        s['set'] = {k: x for k, x in s['set'].items() if k not in fixed}
        s['set'].update({k: first['set'][k] for k in fixed if k in first['set']})
    return s


def run(plan, out):
    v = plan['variant']
    cleans = []
    prev = None
    for s in plan['steps']:
        if v != 'gas' and prev:
            s = fitting(v, prev, s)
        if s.get('resume') and prev:
            s = {**s, 'mech': prev['mech']}
        c = common.Clean(s, out)
        if not c.ok:
            return
        cleans.append((s, c))
        prev = s
    sig = []
    with world.World([v]) as w:
        p = w.process({'fs': plan.get('fs'), 'solver': {'sims': [s['solver'] for s, c in cleans]}, **(plan['steps'][0].get('env') or {})})
        files = []
        with p:
            for k, (s, c) in enumerate(cleans):
                common.prepare(w, s)
                st = dict(s['set'])
                if v == 'gas':
                    st['save_output'] = True
                    if s.get('resume') and k:
                        st['files_exist'] = True
                cc = {a: x for a, x in s['conc'].items() if v != 'yield' and a in mech.species(s['mech'])}
                p.script(v, st, cc if s['conc'] and v != 'yield' else None)
                if p.result.status != 'ok':
                    break
                files.append(common.saved(w, v))
        res = p.result
        out.observe(res)
        if not common.check_run(res, out, 'simulation %d of one process' % len(files)):
            return
        if len(res.sims) != len(cleans):
            out.fail('run-failed', '%d simulations of %d' % (len(res.sims), len(cleans)))
            return
        for k, (s, c) in enumerate(cleans):
            what = 'simulation %d of one process against the same in its own' % k
            if not common.same_history(out, c.res.sims[-1], res.sims[k], what, 'influenced') or not c.match_files(out, files[k], what, 'influenced'):
                return
            sig.append((str(len(mech.species(s['mech']))) if v != 'yield' else '') + common.history(res.sims[k]))
    out.probe('simulations_compared', len(sig))
    out.nontrivial = len(sig) > 1
    out.sig.add(v + ' ' + ' | '.join(sig))
    out.sample = {'variant': v, 'simulations': sig}

"""C11: resuming from saved files gives the same simulation as parsing afresh"""
from .. import common, mech, world

LEVEL = 'exploration'
RUNS = {'quick': 600, 'thorough': 6000}
RULE = ('A run that parses, then one or two runs that resume from its files in new processes, with other temperature, humidity, hour, '
        'initial concentrations, times (temperature not for the aerosol model with a cut-off, where the compiled code depends on it), surroundings and '
        'clocks; each is compared bit by bit with a parsing run of the same settings in a clean folder. Non-trivial always.')
MEASURE = 'distinct (model, settings changed on resuming, solver call history)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C11', i)
    v = ['gas', 'gas', 'gas', 'f2py', 'yield', 'aerosol', 'gas', 'f2py', 'gas', 'gas', 'aerosol', 'gas', 'yield', 'gas'][i % 14]
    first = common.draw(r, v, (1, 3), nmax=8, calls=(2, 4))
    first['fs'] = common.fs(r)
    if v == 'aerosol' and r.random() < .5:
        # all species condense, so that the compiled code fits any temperature
        first['set']['ignore_vp'] = False
    if v == 'f2py' and r.random() < .3:
        first['set']['openMP'] = True
    steps = []
    for k in range(r.choice([1, 1, 2]) if v not in ('aerosol', 'yield') else r.choice([1, 1, 1, 2])):
        s = {**first, 'set': dict(first['set']), 'solver': {**first['solver'], 'seed': r.getrandbits(30)}, 'env': common.env(r), 'fs': common.fs(r)}
        ch = []
        n = common.settings(r, v, (1, 3))
        if v == 'yield':
            n.update(total_voc_mass=r.choice([30.0, 1.0, 250, 80.5]), voc_mw=r.choice([136.24, 68.12, 204.35]))
        for key in ('RH', 'hour_of_day') + (() if v == 'aerosol' and first['set'].get('ignore_vp', True) else ('temp',)) + (
                ('total_voc_mass', 'voc_mw') if v == 'yield' else ()):
            if key in n and r.random() < .6:
                s['set'][key] = n[key]
                ch.append(key)
        if r.random() < .6:
            s['set'].update({a: n[a] for a in ('simulation_time', 'batch_step')})
            ch.append('time')
        if v != 'yield' and r.random() < .6:
            s['conc'] = common.conc(r, first['mech'])
            ch.append('conc')
        s['changed'] = ch
        steps.append(s)
    return {'variant': v, 'first': first, 'steps': steps}


def run(plan, out):
    v = plan['variant']
    sig = []
    with world.World([v]) as w:
        common.prepare(w, plan['first'])
        res = common.launch(w, plan['first'], fs=plan['first'].get('fs'))
        out.observe(res)
        if not common.check_run(res, out, 'the parsing run'):
            return
        for s in plan['steps']:
            s = {**s, **{k: plan['first'][k] for k in ('mech', 'smiles', 'yield') if k in plan['first']}}
            s['env'] = {k: n for k, n in s['env'].items() if k != 'cpu'}
            s['set'] = {**s['set'], 'openMP': plan['first']['set'].get('openMP', False)} if v == 'f2py' else s['set']
            if 'cpu' in plan['first'].get('env', {}):
                # the number of cores is that of the run that generated the code
                s['env']['cpu'] = plan['first']['env']['cpu']
            clean = common.Clean(s, out)
            if not clean.ok:
                return
            res = common.launch(w, s, set={'files_exist': True}, fs=s.get('fs'))
            out.observe(res)
            if 'files_exist' not in res.applied:
                raise world.HarnessError('files_exist is not settable')
            if not common.check_run(res, out, 'the resumed run'):
                return
            if not clean.match(out, w, res, 'the resumed run against a parsing one', 'resume-differs'):
                return
            for k in ('equations', 'num_species', 'species_dict2array'):
                x, y = clean.res.sim.inp.get(k), res.sim.inp.get(k)
                if x is not None and y is not None and x != y:
                    out.fail('resume-differs', 'the resumed run has %s = %r, a parsing run %r' % (k, y, x))
                    return
            sig.append('%s %s' % (s.get('changed'), common.history(res.sim)))
    out.probe('resumed_runs', len(sig))
    out.nontrivial = bool(sig)
    out.sig.add(v + ' ' + ' | '.join(sig))
    out.sample = {'variant': v, 'resumed with': sig}

"""C14: a failed disk, compiler or solver operation is never passed off as success"""
import numpy as np

from .. import common, mech, world

LEVEL = 'fault_enumeration'
RUNS = {'quick': 1000, 'thorough': 10000}
RULE = ('One fault strikes a run: an I/O error, a refused or exhausted resource, a full disk, an error on close at a drawn disk operation '
        '(the positions of consecutive seeds cover the run evenly), a compilation that fails before or after writing, or a solver that '
        'gives up in a drawn batch and call; with or without the files of an earlier run of another mechanism in the folder. If the run '
        'ends normally all the same, it must match the run without fault bit by bit, in what it exchanged with the solver and in all '
        'saved files. Non-trivial if the fault struck.')
MEASURE = 'distinct (model, fault kind, operation and file struck)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME + ['A fault is reported to the program by the system call or exit status; silent data corruption is not modelled']
KINDS = ['eio', 'eio', 'enospc', 'enospc', 'eacces', 'emfile', 'closeerr', 'eio', 'enospc']


def plan(i, seed, tier):
    r = mech.rng(seed, 'C14', i)
    v = ['gas', 'f2py', 'gas', 'aerosol', 'gas', 'f2py', 'gas', 'gas', 'yield', 'f2py', 'aerosol'][i % 11]
    last = common.draw(r, v, (1, 3), nmax=6, calls=(2, 4))
    steps = []
    if r.random() < .6:
        s = common.with_mech(last, common.variation(r, last['mech']) if v != 'yield' else None, r)
        s['fs'] = common.fs(r)
        steps.append(s)
    k = r.random()
    p = {'variant': v, 'steps': steps, 'last': last}
    last['fs'] = common.fs(r)
    if k < .24 and v != 'gas':
        n = {'f2py': 4, 'aerosol': 4, 'yield': 1}[v]
        p['compile'] = [r.randrange(n), r.choice(['fail', 'fail-late', 'killed'])]
        if v != 'yield' and r.random() < .9:
            # what an earlier compilation left behind fits, but is of another mechanism
            m = last['mech']
            for _ in range(3):
                m = common.variation(r, m)
            s = common.with_mech(last, m, r)
            s['fs'] = common.fs(r)
            steps[:] = [s]
    elif k < .36:
        nb = common.n_batches(last['set']['simulation_time'], last['set']['batch_step'])
        p['fail'] = {'batch': r.randrange(nb), 'call': r.choice([0, 1, 2, 99])}
    else:
        pos = ((i // 11) * 0.6180339887 + (i % 11) * .0909) % 1.0
        p['faults'] = [{'pos': round(pos, 5), 'kind': r.choice(KINDS), 'frac': r.choice([0, .3, .9, .9]),
                        'pick': r.choice([None, 'first', 'last', 'middle'])}]
        p['faults'][0]['not'] = ['open', 'read', 'list'] if r.random() < .5 else []
        if r.random() < .3:
            # an input with a bad sector
            p['faults'][0].update(only=['read'], kind='eio', pick='first', frac=r.choice([0, .25, .5, .75, .9]))
        elif r.random() < .3:
            # an input or generated file that ends early, after a whole line
            f = p['faults'][0]
            f.update(kind=r.choice(['eio', 'eio', 'enospc']), only=[r.choice(['read', 'write'])], pick='first', frac=round(r.uniform(.3, 1), 3), line=1,
                     brief=1)
            if f['kind'] == 'enospc':
                f['only'] = ['write']
            if r.random() < .6:
                f['file'] = '.eqn.txt'
                if last.get('mech') and r.random() < .7:
                    # what is left may do for a simulation
                    left = mech.species({**last['mech'], 'r': last['mech']['r'][:1]})
                    last['conc'] = {k: c for k, c in last['conc'].items() if k in left} or {k: 18.0 for k in left if k not in mech.BATH}
        elif r.random() < (.55 if v in common.PARTICLES else .3):
            # the end of a run, where results are saved
            if r.random() < .25:
                p['faults'][0]['pos'] = round(1 - pos * .12, 5)
            else:
                only = r.choice(['write', 'write', 'write', 'create', 'close'])
                p['faults'][0].update(file='_output', only=[only], pos=round(r.random(), 5), frac=r.choice([0, 0, .5, .9]), pick=r.choice(['first', 'first', 'last']),
                                      kind={'write': r.choice(['eio', 'enospc', 'enospc']), 'create': r.choice(['eio', 'eacces', 'emfile', 'enospc']),
                                            'close': 'closeerr'}[only], **({'brief': 1} if r.random() < .6 else {}))
                p['faults'][0].pop('not')
    if v in ('gas', 'f2py', 'aerosol') and r.random() < .15 and 'compile' not in p:
        p['resume'] = 1
        steps[:] = []
    return p


def run(plan, out):
    v = plan['variant']
    last = plan['last']
    clean = common.Clean(last, out)
    if not clean.ok:
        return
    hit = []
    with world.World([v]) as w:
        for s in plan['steps']:
            common.prepare(w, s)
            res = common.launch(w, s, fs=s.get('fs'))
            out.observe(res)
            if not common.check_run(res, out, 'an earlier run'):
                return
        sets = {}
        like = clean.res
        if plan.get('resume'):
            common.prepare(w, last)
            res = common.launch(w, last)
            out.observe(res)
            # what the parsing run saved would hide that the resumed one did not
            w.remove_results(v)
            probe = common.launch(w, last, set={'files_exist': True}, log=True)
            like = probe
            out.observe(probe)
            w.remove_results(v)
            sets = {'files_exist': True}
        more = {}
        if plan.get('faults'):
            more['faults'] = [common.fault_at(f, like) for f in plan['faults']]
        if plan.get('compile'):
            more['compile_faults'] = {str(plan['compile'][0]): plan['compile'][1]}
        if plan.get('fail'):
            more['solver'] = {**last['solver'], 'fail': plan['fail']}
        common.prepare(w, last)
        res = common.launch(w, last, set=sets, fs=last.get('fs'), **more)
        out.observe(res)
        hit = ['%s %s %s' % (x[0], x[1], x[2].replace('PyBox/', '')) for x in res.fired]
        if res.sim is not None and res.sim.gave_up:
            hit.append('solver gave up in batch %d' % (len(res.sim.batches) - 1))
            out.fault('solver-gives-up')
        out.trace = hit
        out.probe('ended_normally' if res.status == 'ok' else 'ended_with_error', 1)
        if hit and res.status == 'ok':
            what = 'the run that ended normally although %s' % hit[:3]
            if res.sim is None or not res.sim.finished and not res.sim.batches:
                out.fail('hidden', what + ' simulated nothing')
                return
            if res.sim.gave_up:
                out.fail('hidden', what)
                return
            if not clean.match(out, w, res, what + ', against the run without fault', 'hidden'):
                return
        elif not hit and res.status != 'ok':
            out.fail('run-failed', 'the run ended %s: %s at %s without a fault' % (res.status, res.exc, res.tb))
            return
    out.nontrivial = bool(hit)
    out.sig.add(v + ' ' + '; '.join(hit[:3]))
    out.sample = {'variant': v, 'struck': hit, 'ended': res.status, 'with': res.exc}

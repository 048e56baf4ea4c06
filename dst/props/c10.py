"""C10: parsing again uses the new mechanism, whatever earlier runs left"""
from .. import common, mech, world

LEVEL = 'exploration'
RUNS = {'quick': 500, 'thorough': 6000}
RULE = ('Up to three runs of a model with other mechanisms, mostly such that generated files get the same size, and then the run under '
        'test, in one folder, with file system clocks that are coarse, stand still or go back, and directory orders drawn; everything the '
        'last run exchanges with the solver and saves is compared bit by bit with the same run in a clean folder, and its derivatives '
        'with the reference model. Non-trivial if the folder held generated files before.')
MEASURE = 'distinct (models run before, clocks, kind of change of the mechanism)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C10', i)
    v = ['gas', 'gas', 'gas', 'f2py', 'gas', 'aerosol', 'gas', 'gas', 'yield', 'f2py'][i % 10]
    last = common.draw(r, v, (1, 2), nmax=6, calls=(2, 4))
    steps = []
    f = common.fs(r)
    for k in range(r.choice([1, 1, 2, 3]) if v in ('gas', 'f2py') else 1):
        if v == 'yield':
            s = common.with_mech(last, None, r)
        elif r.random() < .6:
            s = common.with_mech(last, common.variation(r, last['mech']), r)
        else:
            s = common.draw(r, v, (1, 2), nmax=6, calls=(2, 4))
        s['fs'] = f if r.random() < .7 else common.fs(r)
        s['save'] = r.random() < .8
        if v == 'f2py' and r.random() < .3:
            s['set']['openMP'] = True
        steps.append(s)
    last['fs'] = f if r.random() < .7 else common.fs(r)
    last['junk'] = r.sample(['x.npy', 'Loss_Gain_old.f90', 'a.pickle', 'old.npz', 'MCM_BCARY.eqn.txt', 'notes.txt', '__pycache__/readme'], r.choice([0, 0, 2]))
    return {'variant': v, 'steps': steps, 'last': last}


def run(plan, out):
    v = plan['variant']
    last = plan['last']
    clean = common.Clean(last, out)
    if not clean.ok:
        return
    sig = []
    with world.World([v]) as w:
        for k, s in enumerate(plan['steps']):
            common.prepare(w, s)
            res = common.launch(w, s, fs=s.get('fs'))
            out.observe(res)
            if not common.check_run(res, out, 'an earlier run'):
                return
            sig.append(str(s.get('fs')))
        for j in last['junk']:
            w.put(common.HOME[v] + j, 'left over\n')
        common.prepare(w, last)
        res = common.launch(w, last, fs=last.get('fs'))
        out.observe(res)
        if not common.check_run(res, out, 'the last run'):
            return
        if not clean.match(out, w, res, 'the run after %d others against the same run in a clean folder' % len(plan['steps']), 'stale'):
            return
        if v in ('gas', 'f2py'):
            ref = common.Gas(last['mech'], res, res.sim, last['set'], out)
            if ref.ok:
                out.probe('calls_compared', common.check_calls(out, res.sim, ref, ('rhs', 'jac')))
    out.probe('clock_frozen', '\'frozen\'' in str(plan))
    out.nontrivial = bool(sig)
    out.sig.add('%s %s %s %s' % (v, sig, last.get('fs'), common.history(res.sim)))
    out.sample = {'variant': v, 'clocks': sig + [str(last.get('fs'))]}

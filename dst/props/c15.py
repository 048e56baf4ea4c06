"""C15: OpenMP gas code gives the serial result under every thread schedule"""
import numpy as np

from .. import common, f2pyemu, mech, races, world

LEVEL = 'exploration'
RUNS = {'quick': 144, 'thorough': 2000}
RULE = ('A mechanism is parsed and run once without and once with OpenMP by the Fortran (or aerosol) front end, with a drawn core count, which '
        'decides how the generator divides the work. The OpenMP files are compiled so that every access to shared memory is a scheduling '
        'point, and each routine is called under drawn schedules (team sizes 1 to 33, random and directed preemption) with the arguments of '
        'the run and with well scaled ones; values are compared with those of the serial files. Non-trivial if at least one schedule '
        'with two or more members was compared.')
MEASURE = 'distinct (routine, hash of the sequence of switches)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME + [
    'Interleavings are sequentially consistent at the granularity of the memory accesses of unoptimised code']


def plan(i, seed, tier):
    r = mech.rng(seed, 'C15', i)
    v = 'aerosol' if i % 8 == 7 else 'f2py'
    if i % 5 == 4:
        p = {'variant': v, 'set': common.settings(r, v, (1, 1)), 'env': {}, 'solver': common.solver_plan(r, (3, 4)),
             'mech': mech.slice_shipped(r, r.choice([r.randint(10, 40)] * 5 + [120])), 'conc': {}}
        if v == 'aerosol':
            p = common.draw(r, v, (1, 1), nmax=12, calls=(3, 4))
    else:
        p = common.draw(r, v, (1, 1), nmax=r.choice([3, 8, 16]), calls=(3, 4))
    p['env'] = {'cpu': r.choice([1, 2, 3, 4, 5, 8, 13, 16, 64])}
    p['sched'] = races.schedules(r, 10)
    p['flat'] = r.getrandbits(30)
    return p


def run(plan, out):
    v = plan['variant']
    texts = {}
    for omp in (False, True):
        with world.World([v]) as w:
            common.prepare(w, plan)
            # one thread, members not interrupted
            res = common.launch(w, plan, set={'openMP': omp}, record_fortran=4)
            out.observe(res)
            if 'openMP' not in res.applied:
                raise world.HarnessError('openMP cannot be set')
            if not common.check_run(res, out, 'run %s OpenMP' % ('with' if omp else 'without')):
                return
            texts[omp] = res
    ser, par = texts[False], texts[True]
    if set(ser.fcalls) != set(par.fcalls):
        out.fail('modules', 'without OpenMP the run uses %s, with it %s' % (sorted(ser.fcalls), sorted(par.fcalls)))
        return
    g = np.random.RandomState(plan['flat'])
    for mod in sorted(ser.sources):
        if v == 'aerosol' and 'partition' in mod:
            continue
        a = races.Code(ser.sources[mod])
        b = races.Code(par.sources[mod])
        try:
            for c in (a, b):
                if c.lib is None:
                    raise world.HarnessError('%s does not compile for the scheduler: %s' % (mod, c.error))
            for (m, fn), calls in sorted(ser.fcalls.items()):
                if m != mod or not calls:
                    continue
                todo = [('recorded', calls[0][0]), ('recorded', calls[-1][0])]
                if [1 for x in a.sigs[fn] if x[3] != 'out' and x[2] is not None]:
                    todo.insert(0, ('flat', races.flat(g, a.sigs[fn], calls[0][0])))
                for n, (kind, args) in enumerate(todo):
                    ref = f2pyemu.Direct(a.lib, fn, a.sigs[fn], args)(races.SERIAL, 1)
                    d = f2pyemu.Direct(b.lib, fn, b.sigs[fn], args)
                    s = plan['sched'] if n == 0 else plan['sched'][n::3]
                    if not races.explore(out, '%s with %s arguments, code for %d cores,' % (fn, kind, plan['env'].get('cpu', 8)), ref, d, s, 1e-9):
                        return
                    out.probe('routines')
        finally:
            a.close()
            b.close()
    out.nontrivial = any(x[1] > 1 for x in plan['sched']) and out.probes.get('preemptions', 0) > 0
    out.sample = {'variant': v, 'cores': plan['env'].get('cpu'), 'reactions': len(plan['mech']['r']), 'schedules': len(plan['sched'])}

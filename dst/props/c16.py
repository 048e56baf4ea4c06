"""C16: gas-to-particle code gives the serial result under every thread schedule"""
import numpy as np

from .. import common, f2pyemu, mech, particles, races, world

LEVEL = 'exploration'
RUNS = {'quick': 240, 'thorough': 2400}
RULE = ('The partitioning file of an aerosol or fixed-yield run (and, in a third of the runs, the file of the writer for all species) is '
        'compiled so that every access to shared memory is a scheduling point and called under drawn schedules (team sizes 1 to 33, random '
        'and directed preemption) with the arguments of the run. Derivative, mass, water activity and sizes are compared with those of a '
        'team of one. Non-trivial if at least two bins were shared by at least two members.')
MEASURE = 'distinct (routine, hash of the sequence of switches)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME + [
    'Interleavings are sequentially consistent at the granularity of the memory accesses of unoptimised code']


def plan(i, seed, tier):
    r = mech.rng(seed, 'C16', i)
    p = particles.draw(r, 'yield' if i % 2 else 'aerosol', nb=(1, 1), nmax=6, calls=(3, 4))
    p['set']['num_bins'] = r.choice([2, 2, 3, 4, 5, 8, 16])
    p['solver']['nb'] = p['set']['num_bins']
    p['env'].pop('omp', None)
    p['sched'] = races.schedules(r, 14)
    if i % 3 == 2:
        p['full'] = r.getrandbits(30)
    return p


def full(w, plan, out, res):
    """(text, arguments) for the writer that lets all species condense"""
    g = np.random.RandomState(plan['full'])
    ns, nb = int(g.randint(2, 7)), int(plan['set'].get('num_bins', 8))
    p = w.process({})
    with p:
        import importlib
        import os
        import sys
        sys.path.insert(0, w.root)
        os.chdir(w.root)
        mod = importlib.import_module('Parse_eqn_file')
        try:
            mod.write_partitioning_section_fortran(ns + ns * nb, nb, ns)
        except (AttributeError, TypeError):
            out.probe('no_writer_for_all_species')      # no front end uses it, so that it may go or change
            return None
    text = None
    for rel in ('Partitioning.f90', 'Aerosol/f2py/Partitioning.f90', 'Aerosol/f2py/Fixed_yield/Partitioning.f90'):
        t = w.read(rel)
        if t is not None:
            text = t.decode()
            break
    if text is None:
        out.fail('missing', 'the writer for all species wrote no file')
        return None
    core = 10 ** g.uniform(8, 11, nb)
    N = g.uniform(1, 100, nb)
    y = np.concatenate([10 ** g.uniform(6, 12, ns), 10 ** g.uniform(6, 11, ns * nb)])
    mw = g.uniform(18, 300, ns)
    D = 1.9 * mw ** (-2 / 3)
    ig = (g.uniform(size=ns) < .3).astype(int)
    ig[-1] = 0
    args = [y, core, 3.0, core / 6.0221409e+23 * 132.14, g.uniform(900, 1600, ns), np.full(nb, 1770.0), ig, mw, 10 ** g.uniform(-12, -5, ns), D,
            np.full(ns, .1), y[:ns], N, 3e-9 * D * g.uniform(.5, 2, ns) * 10, np.zeros(ns), 9.8, 0.0, .072, 6.0221409e+23, 1.380648E-23, 461.0, 8.3144598,
            288.15, 1005.0, 287.0, 2.5e3]
    return text, args


def run(plan, out):
    with world.World([plan['variant']]) as w:
        common.prepare(w, plan)
        res = common.launch(w, plan, record_fortran=6)
        out.observe(res)
        if not common.check_run(res, out):
            return
        jobs = []
        for (m, fn), calls in sorted(res.fcalls.items()):
            # the partitioning code is the only one with threads in these runs
            if '!$OMP' in res.sources[m].upper() and calls:
                jobs.append((fn, res.sources[m], [c[0] for c in (calls[0], calls[-1])]))
        if not jobs:
            out.probe('code_without_threads')
            return
        if plan.get('full') is not None:
            f = full(w, plan, out, res)
            if f is not None:
                jobs.append(('dydt_partition', f[0], [f[1]]))
            elif out.violations:
                return
    for k, (fn, text, argss) in enumerate(jobs):
        c = races.Code(text)
        try:
            if c.lib is None:
                raise world.HarnessError('does not compile for the scheduler: %s' % c.error)
            for n, args in enumerate(argss):
                d = f2pyemu.Direct(c.lib, fn, c.sigs[fn], args)
                ref = d(races.SERIAL, 1)
                if not races.explore(out, fn + ('' if k == 0 else ' for all species'), ref, d, plan['sched'][n::len(argss)], 1e-9):
                    return
        finally:
            c.close()
    out.nontrivial = plan['set'].get('num_bins', 8) > 1 and out.probes.get('preemptions', 0) > 0
    out.sample = {'variant': plan['variant'], 'bins': plan['set'].get('num_bins', 8), 'schedules': len(plan['sched']), 'all_species': plan.get('full') is not None}

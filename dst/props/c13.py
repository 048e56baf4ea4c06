"""C13: saved result files hold exactly the simulated results"""
import numpy as np

from .. import common, mech, world

LEVEL = 'fault_enumeration'
RUNS = {'quick': 520, 'thorough': 6000}
RULE = ('One to three processes run and save in the same folder, with different lengths, mechanisms or resumed, so that later saves meet '
        'the files of earlier ones; the disk takes some writes only in part. After each process every saved file is compared bit by bit '
        'with the states exchanged with the solver. Non-trivial if at least two batches or two saves were compared.')
MEASURE = 'distinct (sequence of model runs and resumptions, batches, short writes)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C13', i)
    v = ['gas', 'gas', 'f2py', 'gas', 'aerosol', 'gas', 'yield', 'gas'][i % 8]
    steps = []
    base = None
    for k in range(r.choice([1, 2, 2, 3]) if v != 'aerosol' else r.choice([1, 2])):
        if base is not None and r.random() < .5 and v != 'yield':
            s = {**base, 'resume': 1, 'solver': common.solver_plan(r, (1, 3)), 'set': dict(base['set'])}
            s['solver'].update({a: base['solver'][a] for a in ('ng', 'nb') if a in base['solver']})
        else:
            s = common.draw(r, v, (1, 3), nmax=6, calls=(1, 3))
            base = s
        b = s['set']['batch_step']
        s['set']['simulation_time'] = b * r.choice([1, 2, 3, 5, 9, 30 if v in ('gas', 'f2py') else 4])
        if r.random() < .03 and v in ('gas', 'f2py'):
            s['set']['simulation_time'] = b * r.randint(100, 900)
            s['solver']['calls'] = 1
        s['shorts'] = [round(r.random(), 4) for _ in range(r.choice([0, 0, 1, 3]))]
        steps.append(s)
    return {'variant': v, 'steps': steps}


def table(out, what, got, want, exact=True):
    if got is None:
        out.fail('missing', '%s was not saved' % what)
        return False
    if isinstance(got, common.Bad):
        out.fail('unreadable', '%s cannot be read: %s' % (what, got.why))
        return False
    want = np.asarray(want, dtype=float)
    if got.dtype != np.float64 or got.shape != want.shape:
        out.fail('shape', '%s holds %s %s, the run computed %s' % (what, got.dtype, got.shape, want.shape))
        return False
    if not (common.same_bits(got, want) if exact else np.allclose(got, want, rtol=1e-12)):
        i = np.unravel_index(int(np.argmax(got != want)), got.shape)
        out.fail('content', '%s holds %r at %s, the run computed %r' % (what, got[i], i, want[i]))
        return False
    return True


def check_saved(out, w, plan, res, label=''):
    """Compare all files of a run with what happened; number of compared files"""
    v = plan['variant']
    sim = res.sim
    f = common.saved(w, v)
    y = np.array(common.last_states(sim))
    step = float(plan['set'].get('batch_step', common.DEFAULTS[v][1]))
    t = np.arange(1, len(y) + 1) * step
    n = 1
    if not table(out, label + 'y matrix', f['y'], y):
        return n
    if v in ('gas', 'f2py'):
        n += 2
        if not table(out, label + 'y table', f['y_csv'], y):
            return n
        ix = common.find_index(sim, mech.species(plan['mech']))
        if f['names'] is None or isinstance(f['names'], common.Bad):
            out.fail('missing', '%stable of names: %s' % (label, getattr(f['names'], 'why', None)))
            return n
        if f['names'] != ix:
            out.fail('names', '%stable of names %s, columns of the run %s' % (label, f['names'], ix))
            return n
        if sim.returned is not None and v == 'gas':
            table(out, label + 'returned matrix', np.array(sim.returned[1], dtype=float), y)
    else:
        n += 4
        if not table(out, label + 't array', f['t'], t, exact=False):
            return n
        nb = int(sim.inp['num_bins'])
        for k, shape in (('SOA', (len(y), 1)), ('size', (len(y), nb))):
            if f[k] is None or isinstance(f[k], common.Bad) or f[k].shape != shape:
                out.fail('shape', '%s%s: %s, expected shape %s' % (label, k, getattr(f[k], 'why', None) or getattr(f[k], 'shape', None), shape))
                return n
        if f['include'] is None or isinstance(f['include'], common.Bad) or f['include'].tolist() != list(map(float, sim.inp['include_index'])):
            out.fail('content', '%sinclude index saved as %s, used %s' % (label, getattr(f['include'], 'why', f['include']), sim.inp['include_index']))
            return n
        if v == 'yield':
            for k in ('y', 'SOA', 'size', 't'):
                n += 1
                if not table(out, label + k + ' table', f[k + '_csv'], f[k].reshape(len(y), -1)):
                    return n
    return n


def run(plan, out):
    v = plan['variant']
    n = 0
    ops = None
    sig = []
    with world.World([v]) as w:
        base = None
        for k, s in enumerate(plan['steps']):
            faults = []
            if s.get('resume'):
                if base is None:
                    raise common.Invalid('nothing to resume')
                s = {**s, **{a: base[a] for a in ('mech', 'smiles') if a in base}, 'set': {**s['set'], **{
                    a: base['set'][a] for a in base['set'] if a not in ('simulation_time', 'batch_step')}}}
                s['set']['files_exist'] = True
            else:
                base = s
            common.prepare(w, s)
            if ops:
                faults = [{'at': int(x * ops), 'kind': 'short', 'frac': .3} for x in s['shorts']]
            res = common.launch(w, s, faults=faults)
            out.observe(res)
            ops = res.ops
            if not common.check_run(res, out, 'run %d' % k):
                return
            n += check_saved(out, w, s, res, 'run %d: ' % k)
            sig.append('%s%d%s%s' % ('r' if s.get('resume') else 'p', len(res.sim.batches), 's' * len(res.fired), len(mech.species(s['mech'])) if 'mech' in s else ''))
            if out.violations:
                return
    out.probe('files_compared', n)
    out.nontrivial = len(sig) > 1 or int(sig[0][1]) > 1
    out.sig.add(v + ' ' + ' '.join(sig))
    out.sample = {'variant': v, 'runs': sig}

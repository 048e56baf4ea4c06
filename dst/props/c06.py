"""C06: the batches cover the requested time and are chained exactly"""
import numpy as np

from .. import common, mech, world

LEVEL = 'exploration'
RUNS = {'quick': 1000, 'thorough': 12000}
RULE = ('A run simulates up to 40, sometimes up to 1100, batches of any of the four models with drawn total time and batch length (multiples, fractions, lengths '
        'that are inexact in binary) and a solver that takes any number of internal steps. Non-trivial if at least two batches were chained.')
MEASURE = 'distinct (model, number of batches, kind of ratio, accepted steps per batch)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C06', i)
    v = ['gas', 'gas', 'gas', 'f2py', 'gas', 'aerosol', 'gas', 'yield'][i % 8]
    p = common.draw(r, v, (1, 3), nmax=5, calls=(1, 3))
    b = r.choice([100.0, 300.0, 0.1, 0.7, 33.3, 7, 60, 1.1, 3600.0, round(r.uniform(.01, 1000), r.randint(0, 6)) or 1.0, round(10 ** r.uniform(-2, 0), 3)])
    n = r.choice([1, 2, 3, 5, 8, 12, 30, 40]) if v in ('gas', 'f2py') else r.choice([1, 2, 3, 5, 7])
    if r.random() < .03:
        # very many short batches
        n = r.randint(100, 1100) if v in ('gas', 'f2py') else r.randint(20, 120)
        p['solver']['calls'] = 1
        if v == 'aerosol':
            p['set']['num_bins'] = min(p['set'].get('num_bins', 8), 2)
    k = r.random()
    if k < .4:
        s, p['ratio'] = b * n, 'product'
    elif k < .6:
        s, p['ratio'] = sum([b] * n), 'sum'
    elif k < .7:
        s, p['ratio'] = float('%.6g' % (b * n)), 'rounded'
        if abs(s / b - round(s / b)) >= 1e-7 and abs(s / b - round(s / b)) < 1e-4:
            s = b * n
    else:
        s, p['ratio'] = b * (n - 1 + r.choice([.5, .1, .9, .01, r.uniform(.001, .999)])), 'fraction'
    p['set'].update(simulation_time=s, batch_step=b)
    p['solver']['long'] = .1 / n
    return p


def run(plan, out):
    v = plan['variant']
    st = plan['set']
    with world.World([v]) as w:
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if not common.check_run(res, out):
            return
        sim = res.sim
        files = common.saved(w, v)
    d = common.DEFAULTS[v]
    total = float(st['simulation_time'] if 'simulation_time' in st and 'simulation_time' in res.applied else sim.args.get('simulation_time', d[0]))
    step = float(st['batch_step'] if 'batch_step' in st and 'batch_step' in res.applied else sim.args.get('batch_step', d[1]))
    n = common.n_batches(total, step)
    bs = sim.batches
    if len(res.sims) != 1:
        out.fail('batches', '%d simulations in one run' % len(res.sims))
        return
    if len(bs) != n:
        out.fail('batches', '%d batches of %r s to cover %r s, expected %d' % (len(bs), step, total, n))
        return
    exp = initial(plan, res, sim, out)
    if exp is not None and not np.allclose(bs[0].y0[:len(exp)], exp, rtol=1e-9, atol=0):
        i = int(np.argmax(np.abs(bs[0].y0[:len(exp)] - exp)))
        out.fail('initial', 'the run starts with %r in column %d, configured is %r' % (bs[0].y0[i], i, exp[i]))
        return
    for b in bs:
        if abs((b.tfinal - b.t0) - step) > 1e-9 * max(step, abs(b.tfinal)):
            out.fail('length', 'batch %d runs from %r to %r, batch length is %r' % (b.n, b.t0, b.tfinal, step))
            return
        if b.n and not common.same_bits(b.y0, bs[b.n - 1].y_out[-1]):
            i = int(np.argmax(b.y0 != bs[b.n - 1].y_out[-1]))
            out.fail('chain', 'batch %d starts with %r in column %d, the batch before ended with %r' % (b.n, b.y0[i], i, bs[b.n - 1].y_out[-1][i]))
            return
    y, t = common.recorded(sim, files)
    if y is None or y.ndim != 2 or y.shape != (n, len(bs[0].y0)):
        out.fail('recorded', 'recorded states: %s, expected %d rows of %d' % (None if y is None else y.shape, n, len(bs[0].y0)))
        return
    for b in bs:
        if not common.same_bits(y[b.n], b.y_out[-1]):
            i = int(np.argmax(y[b.n] != b.y_out[-1]))
            out.fail('recorded', 'row %d holds %r in column %d, the last accepted state has %r' % (b.n, y[b.n, i], i, b.y_out[-1][i]))
            return
    if v != 'f2py':
        want = np.arange(1, n + 1) * step
        if t is None or t.shape != (n,) or not np.allclose(t, want, rtol=1e-9):
            out.fail('times', 'recorded times %s, expected %s' % (t, want))
            return
    out.probe('batches', n)
    out.probe('rows_compared', n)
    out.nontrivial = n > 1
    out.sig.add('%s %d %s %s' % (v, n, plan.get('ratio'), '/'.join(str(len(b.t_out) - 1) for b in bs)))
    out.sample = {'variant': v, 'simulation_time': total, 'batch_step': step, 'batches': n}


def initial(plan, res, sim, out):
    """The expected gas phase at the start"""
    v = plan['variant']
    if v == 'yield':
        g, c = sim.inp.get('y_gas_initial'), sim.inp.get('y_cond_initial')
        return None if g is None or c is None else np.array(list(g) + list(c), dtype=float)
    names = mech.species(plan['mech'])
    ix = common.find_index(sim, names)
    if ix is None:
        return None
    if 'conc' in res.applied and plan.get('conc'):
        c = {k: x for k, x in plan['conc'].items() if k in names}
    else:
        c = {k: x for k, x in sim.inp['species_initial_conc'].items() if k != 'H2O'}
    y = np.zeros(len(names))
    for k, x in c.items():
        y[ix[k]] = x * common.CFACTOR
    if v == 'aerosol':
        y = np.append(y, sim.inp['species_initial_conc']['H2O'])
        y = np.append(y, sim.inp['y_cond_initial'])
    return y

"""C08: right-hand side and Jacobian are pure functions of time and state within a batch"""
import random

import numpy as np

from .. import common, mech, world

LEVEL = 'exploration'
RUNS = {'quick': 560, 'thorough': 6000}
RULE = ('A run makes a solver call the model of one of the four front ends in a drawn order with repetitions, retries, interleaved Jacobian '
        'calls, a reused argument buffer and overwritten answers; a second process makes a subset of the same calls in another order. '
        'Equal calls must give bit-identical answers, arguments must stay untouched and answers must stay as they were returned. '
        'Non-trivial if a repeated call was compared.')
MEASURE = 'distinct (model, call order in the first and in the second process)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C08', i)
    v = ['gas', 'gas', 'f2py', 'gas', 'aerosol', 'gas', 'yield', 'gas', 'f2py'][i % 9]
    p = common.draw(r, v, (1, 3), nmax=8, calls=(4, 14))
    p['keep'] = r.choice([1.0, .5, .3])
    p['perm'] = r.getrandbits(20)
    p['two'] = int(r.random() < .7)
    p['save'] = False
    return p


def key(c):
    return c.kind, c.t, c.y.tobytes()


def within(out, sim, table):
    n = 0
    for b in sim.batches:
        for c in b.calls:
            if c.mutated:
                out.fail('mutates', '%s changed the state it was given' % common.describe(c))
                return n
            k = (b.n,) + key(c)
            if k in table:
                n += 1
                d, other = table[k]
                if not common.same_bits(d.res, c.res):
                    p, q = d.res.ravel(), c.res.ravel()
                    i = int(np.argmax(~((p == q) | (np.isnan(p) & np.isnan(q))))) if p.shape == q.shape else -1
                    out.fail('not-a-function', '%s gave %r in element %d, the same call (number %d%s) had given %r' % (
                        common.describe(c), q[i], i, d.i, '' if other == id(sim) else ' of another process', p[i]))
                    return n
            else:
                table[k] = (c, id(sim))
        if getattr(b, 'stale', None):
            out.fail('overwritten', 'the answer of call %d of batch %d was changed by a later call' % (b.stale[0], b.n))
            return n
    return n


def run(plan, out):
    v = plan['variant']
    table = {}
    with world.World([v]) as w:
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if not common.check_run(res, out):
            return
        sim = res.sim
        n = within(out, sim, table)
        h = common.history(sim)
        if plan.get('two') and not out.violations:
            script = []
            r = random.Random('perm/%s' % plan['perm'])
            for b in sim.batches:
                calls = [(c.kind, c.t, c.y) for c in b.calls if r.random() < plan['keep']]
                r.shuffle(calls)
                if calls and r.random() < .5:
                    calls.append(r.choice(calls))
                script.append((calls, b.t_out, b.y_out))
            # a fresh process of the same kind
            res2 = common.launch(w, plan, solver={'script': script})
            out.observe(res2)
            if common.check_run(res2, out, 'second run'):
                n += within(out, res2.sim, table)
                h += ' then ' + common.history(res2.sim)
    out.probe('repeats_compared', n)
    out.probe('answers_checked_for_overwriting', sum(len(b.calls) for b in sim.batches))
    out.nontrivial = n > 0
    out.sig.add(v + ' ' + h)
    out.sample = {'variant': v, 'calls': h}

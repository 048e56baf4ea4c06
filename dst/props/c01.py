"""C01: the right-hand side of the Numba model is the mass action law, at every call of a simulated solver"""
from .. import common, mech

LEVEL = 'exploration'
RUNS = {'quick': 1800, 'thorough': 20000}
VARIANT = 'gas'
RULE = ('A run draws a mechanism (swarm of syntactic features, or a slice of a shipped file), settings, surroundings and a solver script '
        '(order and kind of calls, times, states, retries, buffer reuse, batches). It is non-trivial if at least two right-hand side '
        'calls of a mechanism with a stoichiometric feature were compared.')
MEASURE = 'distinct pairs of mechanism feature set and solver call history'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C01' if VARIANT == 'gas' else VARIANT, i)
    k = r.random()
    if k < .2:
        m = mech.slice_shipped(r, r.randint(600, 1600) if k < .004 else r.randint(60, 200) if k < .02 else None)
    else:
        m = mech.generate(r, nmax=r.choice([3, 8, 20, 20, 40 if tier == 'thorough' else 20, 80]))
    return common.negatives(r, {'variant': VARIANT, 'mech': m, 'set': common.settings(r, VARIANT, (1, 3)), 'conc': common.conc(r, m),
            'solver': common.solver_plan(r, (3, 9)), 'env': common.env(r)})


def run(plan, out, kinds=('rhs',)):
    out.calls = []
    res = common.run_plan(plan, out)
    if not common.check_run(res, out):
        return
    for sim in res.sims:
        ref = common.Gas(plan['mech'], res, sim, plan['set'], out)
        if not ref.ok:
            return
        n = common.check_calls(out, sim, ref, kinds)
        f = common.feats(plan['mech'])
        out.probe('calls_compared', n)
        for x in f.split(','):
            out.probe('feature_' + x)
        out.sig.add(f + '|' + common.history(sim))
        out.nontrivial = n >= 2 and bool(f)
        out.calls = [(c.batch, c.abs) for b in sim.batches for c in b.calls]
        out.trace = ['batch %d %s' % (b.n, [(c.kind, c.t) for c in b.calls]) for b in sim.batches]
    out.sample = {'mechanism': mech.text(plan['mech'])[:600], 'settings': plan['set'], 'calls': common.history(res.sim)}

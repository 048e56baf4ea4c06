"""C09: trajectories conserve mass, stay non-negative and do not depend on the batches"""
import numpy as np
from scipy.integrate import solve_ivp

from .. import common, mech, rates, world

LEVEL = 'exploration'
STEP = 2400.0
RUNS = {'quick': 180, 'thorough': 4000}
RULE = ('A drawn mechanism whose reactions do not create more molecules than they use is integrated by an accurate implicit solver behind '
        'the solver interface, with analytic Jacobian or not, in many and in few batches covering the same time, over hours to two days, '
        'in the Numba or Fortran model. Checked: every linear combination that all reactions conserve, non-negativity, equality of the '
        'two divisions into batches and agreement with an integration of the reference model; no change with rate coefficients zero. '
        'Non-trivial if some species changed by more than a millionth.')
MEASURE = 'distinct (model, mechanism features, number of invariants, batches)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB + ['solver: scipy BDF, Radau or LSODA instead of CVODE'], common.ASSUME


def conserving(r):
    names = r.sample(mech.PLAIN, r.randint(2, 6))
    ro2 = r.sample(mech.ro2_names(), r.randint(0, 3))
    pool = list(dict.fromkeys(names + ro2 + ['APINENE', 'PINONIC', 'O3']))
    pool = [x for x in pool if x not in mech.BATH]
    leak = r.random() < .3
    rx = []
    zero = r.random() < .08
    for i in range(r.randint(2, 10)):
        k = r.random()
        a, b, c, d = (r.choice(pool) for _ in range(4))
        if k < .4:
            left = [['', a]]
            right = r.choice([[['', b]], [['0.5', b], ['0.5', c]], [['0.3', b], ['0.7', c]]])
            if right[-1] == [['', a]]:
                right = [['', d]]
            k = r.choice(['J(%d)' % r.choice(mech.JS), mech.lit(r, -5, -2), mech.lit(r, -4, -3) + '*EXP(-%d/TEMP)' % r.randint(10, 400), 'J(4)*0.5', 'KDEC*1.0D-9'])
            if k.startswith('J') and r.random() < .5:
                left.append(['', 'hv'])
        elif k < .9:
            left = [['', a], ['', b]] if r.random() < .7 else [['2', a]]
            right = r.choice([[['', c], ['', d]], [['2', c]], [['', c], ['', a]], [['', c]] if leak else [['', c], ['', d]]])
            k = r.choice([mech.lit(r, -17, -13), mech.lit(r, -16, -13) + '*EXP(%d/TEMP)' % r.randint(-500, 500), 'KRO2NO*1.0D-2'])
        else:
            left = [['', a]]
            right = [['', b]]
            k = mech.lit(r, -15, -13) + ('*RO2' if ro2 else '*1.0D+10')
        if leak and r.random() < .2:
            right = []
        rx.append([left, right, '1.0D-12*0.0' if zero else k])
    used = {t[1] for x in rx for s in x[:2] for t in s}
    for x in ('APINENE', 'O3', 'PINONIC'):
        if x not in used:
            rx.append([[['', x]], [['', r.choice(pool)]], '1.0D-12*0.0' if zero else mech.lit(r, -6, -4)])
    return {'r': rx, 'fmt': mech.fmt(r, ())}, zero


def plan(i, seed, tier):
    r = mech.rng(seed, 'C09', i)
    v = ['gas', 'gas', 'gas', 'f2py', 'gas'][i % 5]
    m, zero = conserving(r)
    st = common.settings(r, v)
    T = r.choice([3600.0, 7200.0, 21600.0, 43200.0, 86400.0, 172800.0])
    n = r.choice([2, 3, 4, 6, 10])
    st.update(simulation_time=T, batch_step=T / n)
    return {'variant': v, 'mech': m, 'set': st, 'conc': common.conc(r, m), 'env': common.env(r), 'zero': int(zero), 'n': n,
            'n2': r.choice([x for x in (1, 1, 2, 5) if x != n]),
            'solver': {'mode': 'exact', 'rtol': 1e-7, 'atol': 1e-1, 'max_step': STEP, 'method': r.choice(['BDF', 'BDF', 'BDF', 'Radau', 'LSODA']), 'jac': r.random() < .7}}


def gave_up(res, out):
    """The stand-in solver may fail where amounts near zero turn negative in second order decay; that is not the model's fault"""
    if res.status == 'error' and 'SolverGaveUp' in str(res.exc):
        out.probe('solver_gave_up')
        return True
    return False


def integrate(ref, y0, T, ends):
    sol = solve_ivp(lambda t, y: ref.rhs(y, t)[0], (0, T), y0, method='BDF', rtol=1e-7, atol=1e-1, jac=lambda t, y: ref.jac(y, t)[0],
                    t_eval=ends, max_step=STEP)
    return np.vstack([y0, sol.y.T]) if sol.status == 0 and sol.y.shape[1] == len(ends) else None


def run(plan, out):
    v = plan['variant']
    st = plan['set']
    with world.World([v]) as w:
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if gave_up(res, out) or not common.check_run(res, out):
            return
        T = st['simulation_time']
        res2 = common.launch(w, plan, set={'files_exist': True, 'batch_step': T / plan['n2']})
        out.observe(res2)
        if gave_up(res2, out) or not common.check_run(res2, out, 'the run with other batches'):
            return
    sim, sim2 = res.sim, res2.sim
    ref = common.Gas(plan['mech'], res, sim, st, out)
    if not ref.ok:
        return
    names = common.names_by_column(ref.model.index, ref.n)
    y0 = sim.batches[0].y0
    total = float(np.abs(y0).sum()) + 1.0
    traj = np.array([y0] + common.last_states(sim))
    moved = float(np.max(np.abs(traj - y0))) / total
    # conservation, of the derivative in sampled calls and of the state
    inv = ref.model.invariants()
    calls = [c for b in sim.batches + sim2.batches for c in b.calls if np.isfinite(c.y).all()]
    for c in calls if len(inv) else ():
        gross = ref.scale(c.y, c.abs)
        for row in inv:
            row = np.where(np.abs(row) > 1e-10, row, 0.0)
            d = float(row @ c.res[:ref.n])
            tol = float(np.abs(row) @ gross) * (ref.model.single + 1e-11) + 1e-14 * float(gross[row != 0].sum()) + 1e-290
            if abs(d) > tol and np.isfinite(tol):
                out.fail('conservation', '%s: the combination %s changes at the rate %r (rounding allows %.1e)' % (
                    common.describe(c), {n: round(float(x), 4) for n, x in zip(names, row) if abs(x) > 1e-9}, d, tol))
                return
    out.probe('derivatives_checked_for_invariants', len(calls) if len(inv) else 0)
    for row in inv:
        q = traj @ row
        scale = float(np.max(np.abs(traj) @ np.abs(row))) + 1.0
        if np.max(np.abs(q - q[0])) > 1e-6 * scale + 1e-9 * total * float(np.max(np.abs(row))):
            k = int(np.argmax(np.abs(q - q[0])))
            out.fail('conservation', 'the combination %s goes from %r to %r in batch %d' % (
                {n: round(float(c), 4) for n, c in zip(names, row) if abs(c) > 1e-9}, q[0], q[k], k - 1))
            return
    low = traj.min()
    if low < -(1e-7 * total + 1.0):
        k, j = np.unravel_index(int(np.argmin(traj)), traj.shape)
        out.fail('negative', '%s reaches %r in batch %d' % (names[j], low, k - 1))
        return
    if moved > 0 and all(x[2].endswith('*0.0') for x in plan['mech']['r']):
        out.fail('moved', 'the state changed with all rate coefficients zero')
        return
    # the reference model, integrated in one piece, and again from a slightly moved start to see how well it is conditioned
    ends = [b.elapsed + (b.tfinal - b.t0) for b in sim.batches]
    r = mech.rng(0, 'C09 start', len(y0))
    kick = np.array([r.random() for _ in y0])
    tops = np.maximum(np.abs(traj).max(axis=0), 1e-6 * total)
    t1, t2 = integrate(ref, y0, T, ends), integrate(ref, y0 + kick, T, ends)
    if t1 is None or t2 is None:
        out.probe('reference_not_integrated')
        return
    tops = np.maximum(tops, np.abs(t1).max(axis=0))
    spread = 10 * np.abs(t1 - t2).max(axis=0)
    if np.any(spread > 1e-4 * tops + 1000.0):
        out.probe('ill_conditioned')
    else:
        tol = 1e-4 * tops + 300.0 + spread
        a, b = traj[-1], sim2.batches[-1].y_out[-1]
        bad = ~(np.abs(a - b) <= tol)
        if bad.any():
            j = int(np.argmax(np.abs(a - b) / tol))
            out.fail('batches', '%s ends at %r after %d batches and at %r after %d' % (names[j], a[j], len(sim.batches), b[j], len(sim2.batches)))
            return
        bad = ~(np.abs(t1 - traj) <= tol)
        if bad.any():
            k, j = np.unravel_index(int(np.argmax(np.abs(t1 - traj) / tol)), t1.shape)
            out.fail('trajectory', '%s is %r after batch %d, the reference model gives %r' % (names[j], traj[k, j], k - 1, t1[k, j]))
            return
        out.probe('trajectories_compared')
    out.probe('invariants', len(inv))
    out.probe('rhs_evaluations', sum(b.nfev[0] for b in sim.batches + sim2.batches))
    out.nontrivial = moved > 1e-6
    out.sig.add('%s %s %d %d/%d' % (v, common.feats(plan['mech']), len(inv), plan['n'], plan['n2']))
    out.sample = {'variant': v, 'mechanism': mech.text(plan['mech'])[:400], 'invariants': len(inv), 'hours': T / 3600, 'batches': [plan['n'], plan['n2']]}

"""Shared by the checks: drawing of settings, one-process scenarios, comparison of recorded calls with the reference"""
import json

import numpy as np

from . import mech, rates, refmodel, world
from .runner import Invalid

REAL = ['Parse_eqn_file.py (parser and code generators)', 'rate_coeff_conversion.py', 'ODE_solver.py of each model (batch loop, RHS, Jacobian)',
        'front end scripts (executed as __main__)', 'generated Python modules', 'numpy, scipy, pandas, pickle',
        'generated Fortran, compiled by the real gfortran']
STUB = ['assimulo (scripted or exact solver)', 'numba (plain Python plus its on-disk cache)', 'f2py wrapper generation (ctypes wrapper)',
        'umansysprop and pybel (hash-valued properties)', 'matplotlib', 'file system time stamps, directory order, disk errors',
        'wall clock, core count', 'OpenMP runtime (deterministic scheduler)']
ASSUME = ['The stand-ins behave as the packages they replace do at the interface that PyBox uses',
          'MCM constants, photolysis parameters and the list of peroxy radicals are those of the frozen copy in dst/rates.py and dst/data']

TEMPS = [298.15, 288.15, 273.15, 250.0, 310.5]


def settings(r, variant, nb=(1, 6), frac=True, long=False):
    """Settings of a front end"""
    s = {}
    s['temp'] = r.choice(TEMPS) if r.random() < .4 else round(r.uniform(240, 325), 3)
    s['RH'] = r.choice([0.5, 0.1, 0.9, 0.01]) if r.random() < .4 else round(r.uniform(0.02, 0.98), 4)
    s['hour_of_day'] = r.choice([12.0, 0.0, 6.0, 23.5, 18]) if r.random() < .4 else round(r.uniform(0, 24), 3)
    n = r.randint(*nb)
    b = r.choice([100.0, 300.0, 60.0, 1000.0, 3600.0, 37.5, 7, 0.1, 33.3]) if not long else r.choice([3600.0, 7200.0, 21600.0, 86400.0, 50000.0, 1234.5])
    s['batch_step'] = b
    s['simulation_time'] = b * n
    if frac and r.random() < .35:
        s['simulation_time'] = round(b * (n - 1) + b * r.choice([.25, .5, .75, .9]), 6)
    elif r.random() < .2:
        s['simulation_time'] = round(b * n, 6)
    return s


def solver_plan(r, calls=(2, 10), **kw):
    p = {'mode': 'chaos', 'seed': r.getrandbits(30), 'calls': r.randint(*calls), 'range': list(r.choice([(-2, 13), (0, 12), (6, 13), (8, 10)]))}
    p.update(kw)
    return p


def negatives(r, p, often=.5):
    """A solver may overshoot to negative concentrations, except where a power of one is no number"""
    left = [c for l, rr, k in (p.get('mech') or {'r': ()})['r'] for c, n in l if n != 'hv']
    if r.random() < often and all(not c or float(c) == int(float(c)) for c in left):
        p['solver']['neg'] = r.choice([.5, 1, 4])
    return p


def conc(r, m, n=None, aerosol=False):
    """Initial concentrations in ppb"""
    sp = [s for s in mech.species(m) if s not in mech.BATH]
    if not sp:
        return {}
    k = n or r.randint(1, min(5, len(sp)))
    return {s: r.choice([18.0, 30.0, 0.1, 5, 100.0, round(r.uniform(1e-3, 200), 3), round(r.uniform(1e-3, 200), 3), r.choice([1e-4, 3.5e-7, 0.0, 2e4])]) for s in r.sample(sp, min(k, len(sp)))}


def env(r, simple=False):
    """What surrounds a process and must not matter"""
    e = {}
    if simple:
        return e
    if r.random() < .3:
        e['order'] = r.choice(['reverse', r.randint(0, 99)])
    if r.random() < .3:
        e['cpu'] = r.choice([1, 2, 3, 8, 64])
    if r.random() < .3:
        e['wall'] = r.choice([0.0, 1e9, 1.7e9, 2.2e9])
    return e


DEFAULT_NAME = 'MCM_APINENE'


def has(m, need=('APINENE', 'PINONIC', 'O3')):
    sp = mech.species(m)
    if not all(n in sp for n in need):
        raise Invalid('species missing')
    for l, rr, k in m['r']:
        if not [1 for c, n in l if n != 'hv']:
            raise Invalid('no reactant')


def find_index(sim, names):
    """The species-to-column map of a simulation, wherever it is handed over"""
    cands = []
    if isinstance(sim.index, dict):
        cands.append(sim.index)
    for d in (sim.inp, sim.args):
        for v in d.values():
            if isinstance(v, dict):
                cands.append(v)
    for c in cands:
        try:
            ix = {k: int(v) for k, v in c.items() if isinstance(k, str) and not isinstance(v, str)}
        except (TypeError, ValueError):
            continue
        if all(n in ix for n in names):
            return ix
    return None


class Eff:
    """The settings a simulation ran with: those of the plan where they could be set, else those observed"""

    def __init__(self, res, sim, sets):
        self.res, self.sim, self.sets = res, sim, sets

    def get(self, name):
        if name in self.sets and name in self.res.applied:
            return float(self.sets[name])
        a = self.sim.args
        if name == 'hour_of_day' and 'start_time' in a:
            return float(a['start_time']) / 3600.0
        if name in a:
            return float(a[name])
        if name in self.sim.inp:
            return float(self.sim.inp[name])
        raise world.HarnessError('setting %s is neither settable nor observable' % name)


class Gas:
    """The reference of the gas phase of one simulation"""

    def __init__(self, m, res, sim, sets, out, kind='columns'):
        self.fortran = sim.variant != 'gas'
        names = mech.species(m)
        ix = find_index(sim, names)
        self.ok = False
        if ix is None:
            out.fail(kind, 'the run knows no column for some of the species %s' % names)
            return
        try:
            self.model = refmodel.Model(m, ix)
        except AssertionError as e:
            out.fail(kind, str(e))
            return
        self.ok = True
        self.n = self.model.n
        e = Eff(res, sim, sets)
        self.temp, self.RH, self.hour = e.get('temp'), e.get('RH'), e.get('hour_of_day')
        self.start = self.hour * 3600.0
        self.H2O = rates.water(self.temp, self.RH)
        self.cache = {}

    def rates(self, y, t):
        key = (t, y[self.model.ro2].tobytes())
        if key not in self.cache:
            self.cache[key] = self.model.rate_values(y, self.temp, self.H2O, self.start + t, self.fortran)
        return self.cache[key]

    def rhs(self, y, t):
        return self.model.rhs(y[:self.n], *self.rates(y[:self.n], t))

    def jac(self, y, t):
        return self.model.jac(y[:self.n], *self.rates(y[:self.n], t))


def names_by_column(ix, n):
    inv = {v: k for k, v in ix.items()}
    return [inv.get(i, '?') for i in range(n)]


def worst(res, ref, tol):
    """None or the index of the worst difference"""
    with np.errstate(all='ignore'):
        bad = ~(np.abs(res - ref) <= tol)
        bad &= np.isfinite(ref) & np.isfinite(tol)
    if not bad.any():
        return None
    d = np.where(bad, np.abs(np.nan_to_num(res - ref, nan=1e300)) / np.maximum(tol, 1e-300), 0)
    return np.unravel_index(int(np.argmax(d)), d.shape)


def describe(c):
    return '%s call %d of batch %d at t=%r' % (c.kind, c.i, c.batch, c.t)


def check_run(res, out, what='run', expect='ok'):
    """A run on a valid input must end normally"""
    if res.status != expect:
        out.fail('run-failed', '%s ended %s: %s at %s %s' % (what, res.status, res.exc, res.tb, getattr(res, 'compile_error', '') or ''))
        return False
    if not res.sims:
        out.fail('run-failed', '%s ended without a simulation' % what)
        return False
    return True


def check_calls(out, sim, ref, kinds=('rhs', 'jac'), rel=1e-9, cols=None, label='rhs'):
    """Compare every recorded call with the reference"""
    names = names_by_column(ref.model.index, ref.n)
    k = 0
    for b in sim.batches:
        for c in b.calls:
            if c.kind not in kinds:
                continue
            k += 1
            n = ref.n
            if c.kind == 'rhs':
                v, tol = ref.rhs(c.y, c.abs)
                got = c.res.ravel()
                if got.size < n:
                    out.fail('shape', '%s returned %s values for %d species' % (describe(c), c.res.shape, n))
                    return k
                w = worst(got[:n], v, 4 * tol + rel * ref.scale(c.y, c.abs) if rel else tol)
                if w is not None:
                    i = w[0]
                    out.fail(label + '-differs', '%s: d[%s]/dt = %r, mass action law gives %r +- %.1e' % (describe(c), names[i], got[i], v[i], tol[i]))
                    return k
            else:
                v, tol = ref.jac(c.y, c.abs)
                if c.res.shape != v.shape:
                    out.fail('shape', '%s returned shape %s for %d species' % (describe(c), c.res.shape, n))
                    return k
                w = worst(c.res, v, 4 * tol + rel * np.abs(v))
                if w is not None:
                    i, j = w
                    out.fail('jacobian-differs', '%s: d(d[%s]/dt)/d[%s] = %r, derivative is %r +- %.1e' % (
                        describe(c), names[i], names[j], c.res[i, j], v[i, j], tol[i, j]))
                    return k
    return k


def _scale(self, y, t):
    k, ke = self.rates(y[:self.n], t)
    return self.model.A @ np.abs(k * self.model.products(y[:self.n]))


Gas.scale = _scale


def run_plan(plan, out, **more):
    """One process in a fresh world. plan: variant, mech, set, conc, solver, env, smiles"""
    m = plan['mech']
    v = plan['variant']
    has(m)
    with world.World([v]) as w:
        w.mechanism(DEFAULT_NAME, mech.text(m))
        if v == 'aerosol':
            w.xml(plan['smiles'])
        cfg = dict(plan.get('env') or {})
        cfg.update(more)
        c = plan.get('conc')
        if c:
            sp = mech.species(m)
            c = {k: x for k, x in c.items() if k in sp}
        res = w.run(v, set=plan.get('set') or {}, conc=c if plan.get('conc') else None, solver=plan.get('solver'), **cfg)
        out.observe(res)
        return res


def feats(m):
    """Feature signature of a mechanism, to count distinct cases"""
    f = set()
    for l, r, k in m['r']:
        ln = [n for c, n in l]
        rn = [n for c, n in r]
        if any(c for c, n in l):
            f.add('lprefix')
        if any(c for c, n in r):
            f.add('rprefix')
        if len(set(ln)) < len(ln):
            f.add('ldup')
        if len(set(rn)) < len(rn):
            f.add('rdup')
        if set(ln) & set(rn):
            f.add('both')
        if not rn:
            f.add('empty')
        if 'hv' in ln + rn:
            f.add('hv')
        if any(n in mech.BATH for n in ln + rn):
            f.add('bath')
        if len(ln) > 2:
            f.add('three')
        if 'J(' in k:
            f.add('J')
        if 'RO2' in k.split('KRO2')[0]:
            f.add('RO2')
    if m['fmt'].get('wrap'):
        f.add('wrap')
    if m['fmt'].get('crlf'):
        f.add('crlf')
    return ','.join(sorted(f))


def history(sim):
    """Signature of what the solver did"""
    return ';'.join(''.join(c.kind[0] for c in b.calls) + '/%d' % len(b.t_out or ()) for b in sim.batches)


# ---------------------------------------------------------------- scenarios of several processes in one world

import csv as _csv
import io as _io
import math as _math
import pickle as _pickle

CFACTOR = 2.55e10
HOME = {'gas': '', 'f2py': 'f2py/', 'aerosol': 'Aerosol/f2py/', 'yield': 'Aerosol/f2py/Fixed_yield/'}
PARTICLES = ('aerosol', 'yield')


def smiles_name(r):
    x = [r.choice(['C', 'C', 'O', 'C(=O)', 'C(O)', '[O-]', 'N', 'c1ccccc1', 'OO', 'CC']) for _ in range(r.randint(1, 9))]
    if r.random() < .3:
        x.insert(r.randint(0, len(x)), r.choice(['/C=C/', '/C=C\\', 'C#C', '[C@@H](O)', 'ON(=O)=O', 'C[N+](=O)[O-]', 'CCl', 'CBr', '[O]', 'CC1(C)C2CCC1C2', 'C1CC%10CC1C%10',
                                                 'COOC(=O)', '[CH2]', 'S(=O)(=O)O', '.CC']))
    return ''.join(x)


def aero(r, p, full=False, bins=(1, 2, 3, 5, 8)):
    """Completes the plan of an aerosol run: structures, bins and the shape of the state vector for the solver"""
    m = p['mech']
    sp = [s for s in mech.species(m)]
    seen = {}
    sm = []
    for s in sp:
        if r.random() < (1.0 if full else .75):
            x = smiles_name(r)
            while x in seen or x == 'O':
                x = smiles_name(r) + 'C'
            if seen and r.random() < .08:
                x = r.choice(sorted(seen))      # two species of one structure
            elif r.random() < .06:
                x = next((y.replace('c', 'C') for y in sorted(seen) if 'c1' in y and y.replace('c', 'C') not in seen), x)      # saturated twin
            seen[x] = 1
            sm.append([s, x])
    for k in range(r.randint(0, 3)):
        sm.append(['NOTUSED%d' % k, 'CC' + 'O' * k])
    r.shuffle(sm)
    p['smiles'] = sm
    s = p['set']
    s['num_bins'] = r.choice(bins) if r.random() < .94 else r.choice([12, 16, 30])
    if r.random() < .7:
        s['vp_cutoff'] = r.choice([-6.0, -4.0, -8.5, 0.5, -20.0, round(r.uniform(-12, 0), 2)])
    aero_common(r, p)
    p['solver'].update(ng=len(sp) + 1, nb=s['num_bins'])
    return p


def aero_common(r, p):
    s = p['set']
    if r.random() < .5:
        s['total_conc'] = r.choice([100, 1, 2500, 37.5, 0.05, 1.0e6])
    if r.random() < .4:
        s['std'] = r.choice([1.6, 2.2, 1.8, 3, 1.15, 1.3, 4.5])
    if r.random() < .4:
        s['meansize'] = r.choice([0.2, 0.05, 0.5])
    if r.random() < .3:
        s['lowersize'], s['uppersize'] = r.choice([(0.01, 1.0), (0.02, 0.5), (0.005, 2), (0.001, 0.02), (0.0015, 0.1), (0.1, 10)])
        if s['lowersize'] < .002:
            s['meansize'] = r.choice([0.01, 0.02])
    if r.random() < .25:
        p.setdefault('solver', {})['trace'] = 1
    for k, o in (('vp_method', ['nannoolal', 'myrdal_and_yalkowsky', 'evaporation']), ('bp_method', ['joback_and_reid', 'stein_and_brown', 'nannoolal']),
                 ('critical_method', ['nannoolal', 'joback_and_reid']), ('density_method', ['girolami', 'schroeder', 'le_bas', 'tyn_and_calus'])):
        if r.random() < .3:
            s[k] = r.choice(o)


def yields(r, n=(1, 10)):
    out, seen = [], set()
    for _ in range(r.randint(*n)):
        x = smiles_name(r)
        while x in seen or x == 'O':
            x += 'C'
        seen.add(x)
        out.append([x, r.choice(['%.5f', '%.3f', '%g', '%.5f', '%.3e', '%.9f', '%.4E']) % r.choice([r.uniform(1e-4, 0.6), r.uniform(1e-4, 0.6), 10 ** r.uniform(-7, 0)])])
    if r.random() < .15:
        # the ring and its saturated twin differ in the case of their letters only
        x = smiles_name(r) + 'c1ccccc1'
        for x in (x, x.replace('c', 'C')):
            if x not in seen:
                seen.add(x)
                out.insert(r.randint(0, len(out)), [x, '%.4f' % r.uniform(1e-3, 0.5)])
    if r.random() < .1:
        out[r.randrange(len(out))][1] = r.choice(['0', '0.0', '1', '1.0', '2', '.5', '0.5000', '+0.25'])
    return out


def yield_layout(r):
    """How the file of yields is written: the shipped one has two or three blanks and no line end at the end"""
    return {'sep': r.choice([' ', '  ', '   ', '\t', ' \t ']), 'lead': r.choice(['', '', '', ' ', '\t']), 'trail': r.choice(['', '', '  ', '\t', ' ']),
            'last': r.choice(['\n', '', '', '   ']), 'nl': r.choice(['\n'] * 5 + ['\r\n'])}


def draw(r, variant, nb=(1, 3), nmax=10, feats=None, calls=(3, 8), **kw):
    """A plan for one model"""
    p = {'variant': variant, 'set': settings(r, variant, nb), 'env': env(r), 'solver': solver_plan(r, calls), 'conc': {}}
    if variant == 'yield':
        p['yield'] = yields(r) if r.random() < .95 else yields(r, (11, 30))
        p['layout'] = yield_layout(r)
        p['set']['num_bins'] = r.choice([1, 2, 3, 5, 8]) if r.random() < .94 else r.choice([12, 16, 30])
        aero_common(r, p)
        p['solver'].update(ng=len(p['yield']) + 1, nb=p['set']['num_bins'])
        return negatives(r, p, .3)
    aer = variant == 'aerosol'
    k = r.random()
    if k < .03:
        m = mech.slice_shipped(r, r.randint(*{'gas': r.choice([(60, 300)] * 3 + [(300, 1600)]), 'f2py': r.choice([(30, 80)] * 5 + [(100, 300)]),
                                              'aerosol': r.choice([(20, 50)] * 5 + [(60, 160)])}[variant]))
    else:
        m = mech.slice_shipped(r, r.randint(3, nmax)) if k < .16 else mech.generate(r, feats, nmax=nmax, aerosol=aer)
    p['mech'] = m
    p['conc'] = conc(r, m)
    if aer:
        aero(r, p)
    return negatives(r, p, .3)


def prepare(w, p):
    if p['variant'] == 'yield':
        if not p['yield']:
            raise Invalid('no compound')
        w.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', yield_text(p))
        return
    has(p['mech'])
    w.mechanism(DEFAULT_NAME, mech.text(p['mech']))
    if p['variant'] == 'aerosol':
        w.xml(p['smiles'])


def yield_text(p):
    f = p.get('layout') or {'sep': ' ', 'lead': '', 'trail': '', 'last': '\n', 'nl': '\n'}
    lines = [f['lead'] + a + f['sep'] + b + f['trail'] for a, b in p['yield']]
    for i in p.get('dups', ()):
        if i < len(p['yield']):
            lines.append(lines[i])
    return f['nl'].join(lines) + f['last'].replace('\n', f['nl'])


def launch(w, p, set=None, **more):
    """A process that runs the front end of the plan"""
    cfg = dict(p.get('env') or {})
    cfg['solver'] = p.get('solver')
    cfg.update(more)
    c = p.get('conc')
    if p['variant'] != 'yield' and c:
        sp = mech.species(p['mech'])
        c = {k: x for k, x in c.items() if k in sp}
    s = dict(p.get('set') or {})
    s.update(set or {})
    if p['variant'] == 'gas' and 'save_output' not in s and p.get('save', True):
        s['save_output'] = True
    return w.run(p['variant'], set=s, conc=c if p.get('conc') else None, **cfg)


def n_batches(sim_time, batch):
    x = sim_time / batch
    k = round(x)
    return int(k) if abs(x - k) < 1e-6 else int(_math.ceil(x))


DEFAULTS = {'gas': (10800.0, 100.0), 'f2py': (7200.0, 100.0), 'aerosol': (3600.0, 300.0), 'yield': (3600.0, 100.0)}


class Bad:
    """A file that is there but cannot be read"""

    def __init__(self, why):
        self.why = why


def saved(w, variant, base=None):
    """What the run saved, None where there is no file, Bad where it cannot be read"""
    name = base or ('MCM_yield' if variant == 'yield' else DEFAULT_NAME)
    h = HOME[variant] + name
    out = {}

    def get(key, suffix, f):
        data = w.read(h + suffix)
        if data is None:
            out[key] = None
            return
        try:
            out[key] = f(data)
        except Exception as e:
            out[key] = Bad('%s: %s' % (type(e).__name__, e))

    def frame(data):
        rows = list(_csv.reader(_io.StringIO(data.decode(), newline='')))
        if data and not data.endswith(b'\n'):
            raise ValueError('last line not ended')
        head = rows[0]
        body = [[float(x) for x in r] for r in rows[1:]]
        if any(len(r) != len(head) for r in body):
            raise ValueError('ragged table')
        a = np.array(body, dtype=float).reshape(len(body), len(head))
        if not np.array_equal(a[:, 0], np.arange(len(body))):
            raise ValueError('wrong row labels')
        if head[1:] != [str(i) for i in range(len(head) - 1)]:
            raise ValueError('wrong column labels')
        return a[:, 1:]

    def names(data):
        if not data.endswith(b'\n'):
            raise ValueError('last line not ended')
        rows = list(_csv.reader(_io.StringIO(data.decode(), newline='')))
        d = {}
        for r in rows:
            if len(r) != 2 or r[0] in d:
                raise ValueError('row %r' % (r,))
            d[r[0]] = int(r[1])
        return d

    def pick(data):
        f = _io.BytesIO(data)
        x = np.array(_pickle.load(f), dtype=float)
        if f.read(1):
            raise ValueError('trailing data')
        return x
    if variant in ('gas', 'f2py'):
        def npy(data):
            f = _io.BytesIO(data)
            a = np.load(f, allow_pickle=False)
            if f.read(1):
                raise ValueError('trailing data')
            return a
        get('y', '_output.npy', npy)
        get('y_csv', '_output_matrix.csv', frame)
        get('names', '_output_names.csv', names)
    else:
        for k in ('y', 't', 'SOA', 'size'):
            get(k, '_%s_output.pickle' % k, pick)
            if variant == 'yield':
                get(k + '_csv', '_%s_output.csv' % k, frame)
        get('include', 'include_index.pickle', pick)
    return out


def recorded(sim, files):
    """The matrix of states of a run and its times, as the user gets them"""
    if sim.variant == 'gas' and sim.returned is not None:
        return np.array(sim.returned[1], dtype=float), np.array(sim.returned[0], dtype=float)
    y = files.get('y')
    t = files.get('t')
    return (y if isinstance(y, np.ndarray) else None), (t if isinstance(t, np.ndarray) else None)


def last_states(sim):
    return [b.y_out[-1] if b.y_out is not None else None for b in sim.batches]


def same_bits(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def same_history(out, a, b, what, kind='differs', skip=()):
    """Two simulations must have gone through exactly the same: initial states, answers to the same calls, columns"""
    if (a.index or {}) != (b.index or {}):
        out.fail(kind, '%s: species columns differ: %s and %s' % (what, a.index, b.index))
        return False
    if len(a.batches) != len(b.batches):
        out.fail(kind, '%s: %d and %d batches' % (what, len(a.batches), len(b.batches)))
        return False
    for x, y in zip(a.batches, b.batches):
        if not same_bits(x.y0, y.y0):
            out.fail(kind, '%s: initial states of batch %d differ: %s and %s' % (what, x.n, x.y0[:20], y.y0[:20]))
            return False
        if len(x.calls) != len(y.calls):
            out.fail(kind, '%s: batch %d made %d and %d calls' % (what, x.n, len(x.calls), len(y.calls)))
            return False
        for c, d in zip(x.calls, y.calls):
            if c.kind != d.kind or c.t != d.t or not same_bits(c.y, d.y):
                out.fail(kind, '%s: call %d of batch %d differs' % (what, c.i, x.n))
                return False
            if not same_bits(c.res, d.res):
                p, q = c.res.ravel(), d.res.ravel()
                i = int(np.argmax(~((p == q) | (np.isnan(p) & np.isnan(q))))) if p.shape == q.shape else -1
                out.fail(kind, '%s: %s, element %d of the answer is %r and %r' % (what, describe(c), i, p[i] if i >= 0 else p.shape, q[i] if i >= 0 else q.shape))
                return False
    return True


def fault_at(f, res):
    """Where a fault strikes, in a process like the one of res: at a relative position among its disk operations, or, with 'pick',
    at the first, last or a middle operation of one kind on one file, each pair being equally likely"""
    if not f.get('pick'):
        return {**f, 'at': 1 + int(f['pos'] * res.ops)}
    byfile = {}
    for n, kind, path in res.log:
        byfile.setdefault((kind, path), []).append(n)
    ks = [k for k in byfile if (k[0] in f['only'] if f.get('only') else k[0] not in f.get('not', ()))]
    ks = [k for k in ks if f.get('file', '') in k[1]] or ks
    if not ks:
        return {**f, 'at': 1 + int(f['pos'] * res.ops)}
    x = f['pos'] * len(ks)
    k = ks[min(int(x), len(ks) - 1)]
    n = len(byfile[k])
    at = {'first': 0, 'last': n - 1}.get(f['pick'], n // 2)
    if f['kind'] in ON.get(k[0], ()):
        return {**f, 'on': [k[0], k[1], at + 1]}
    return {**f, 'at': byfile[k][at]}


ON = {'read': ('eio',), 'write': ('eio', 'enospc', 'short'), 'create': ('eio', 'eacces', 'emfile', 'enospc'), 'open': ('eio', 'eacces', 'emfile'),
      'close': ('eio', 'closeerr'), 'list': ('eio', 'eacces', 'emfile'), 'remove': ('eio', 'eacces')}


class Clean:
    """The same run in a clean folder: what a later run in a dirty one has to match. The environment of the run is not
    part of it."""

    def __init__(self, plan, out, keep_env=False):
        with world.World([plan['variant']]) as w:
            prepare(w, plan)
            # code with OpenMP is split by the number of cores, and sums may round differently then
            e = {k: n for k, n in (plan.get('env') or {}).items() if k == 'cpu' and plan.get('set', {}).get('openMP')}
            self.res = launch(w, plan if keep_env else {**plan, 'env': e}, log=True)
            out.observe(self.res)
            self.ok = check_run(self.res, out, 'the run in a clean folder')
            self.files = saved(w, plan['variant']) if self.ok else {}
        self.plan = plan

    def match(self, out, w, res, what, kind='differs'):
        if not same_history(out, self.res.sim, res.sim, what, kind):
            return False
        f = saved(w, self.plan['variant'])
        return self.match_files(out, f, what, kind)

    def match_files(self, out, f, what, kind='differs'):
        for k, a in self.files.items():
            b = f.get(k)
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
                ok = same_bits(a, b)
            elif isinstance(a, Bad) or isinstance(b, Bad):
                ok = False
            else:
                ok = type(a) is type(b) and (not isinstance(a, dict) or a == b)
            if not ok:
                out.fail(kind, '%s: saved %s is %s, in a clean folder %s' % (what, k, getattr(b, 'why', None) or np.shape(b) if not isinstance(
                    b, np.ndarray) else b.ravel()[:4], a.ravel()[:4] if isinstance(a, np.ndarray) else type(a)))
                return False
        return True


def variation(r, m):
    """Another mechanism whose files are likely to be of the same size: coefficients swapped or changed in a digit, species
    exchanged, reactions in another order"""
    m = json.loads(json.dumps(m))
    rx = m['r']
    k = r.random()
    if k < .35 and len(rx) > 1:
        i, j = r.sample(range(len(rx)), 2)
        rx[i][2], rx[j][2] = rx[j][2], rx[i][2]
    elif k < .6:
        for x in r.sample(rx, r.randint(1, len(rx))):
            d = [n for n, c in enumerate(x[2]) if c.isdigit() and (n == 0 or not x[2][n - 1].isalnum()) and n + 1 < len(x[2]) and x[2][n + 1] == '.']
            if d:
                n = r.choice(d)
                x[2] = x[2][:n] + str((int(x[2][n]) % 9) + 1) + x[2][n + 1:]
    elif k < .8:
        sp = [s for s in species(m) if s not in mech.BATH]
        same = [(a, b) for a in sp for b in sp if a < b and len(a) == len(b)] or [(sp[0], sp[-1])]
        a, b = r.choice(same)
        sw = {a: b, b: a}
        for x in rx:
            for side in x[:2]:
                for t in side:
                    t[1] = sw.get(t[1], t[1])
    else:
        r.shuffle(rx)
    return m


def species(m):
    return mech.species(m)


def fs(r, frozen=.5):
    """A file system clock for a process"""
    if r.random() < .3:
        return None
    d = {'gran': r.choice([1e-9, 1.0, 1.0, 2.0])}
    if r.random() < frozen:
        d['mode'] = 'frozen'
    if r.random() < .6:
        d['start'] = r.choice([1.6e9, 1.6e9, 1.59e9, 1.7e9, 0.0])
    return d


def with_mech(p, m, r):
    """The plan with another mechanism"""
    q = json.loads(json.dumps(p))
    if p['variant'] == 'yield':
        q['yield'] = yields(r)
        q['solver'].update(ng=len(q['yield']) + 1)
        return q
    q['mech'] = m
    sp = mech.species(m)
    q['conc'] = {k: v for k, v in p['conc'].items() if k in sp}
    if p['variant'] == 'aerosol':
        q['solver']['ng'] = len(sp) + 1
        if r.random() < .5:
            aero(r, q)
    return q

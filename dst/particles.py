"""Shared by the checks of the particle phase: plans with explicit settings, reference of a run, comparison of its calls"""
import numpy as np

from . import common, mech, partref, world

REL = 3e-6      # the generated code has single precision constants


def settle(r, p, off=.25):
    """Make every setting of the particle phase explicit"""
    s = p['set']
    for k, v in partref.DEF[p['variant']].items():
        s.setdefault(k, v)
    if p['variant'] == 'aerosol' and r.random() < off:
        s['ignore_vp'] = False
    if p['variant'] == 'yield' and r.random() < .35:
        s['ignore_vp'] = True
        s['vp_cutoff'] = r.choice([-6.0, -4.0, -8.5, 0.5, -20.0])
    if r.random() < .35:
        s['core_dissociation'] = r.choice([1.0, 2.0, 2.5, 4.0])
    if r.random() < .35:
        s['sigma'] = r.choice([50e-3, 72.8e-3, 30e-3, 1e-3])
    return p


def draw(r, variant='aerosol', off=.25, **kw):
    p = settle(r, common.draw(r, variant, **kw), off)
    if variant == 'aerosol' and not p['conc']:
        p['conc'] = common.conc(r, p['mech'], aerosol=True) or {'O3': 18.0}
    if r.random() < .6:
        p['env']['omp'] = {'mode': 1, 'threads': r.choice([1, 2, 3, 4, 7, 16]), 'seed': r.getrandbits(30)}
    return p


class Particles:
    """The reference of one simulation"""

    def __init__(self, plan, res, sim, out, kind='columns'):
        sets = plan['set']
        self.ok = False
        self.gas = None
        self.p = partref.from_plan(plan, sim, lambda k: sets[k] if k in sets and k in res.applied else None)
        if self.p is None:
            out.fail(kind, 'the run knows no column for some of its species')
            return
        if sim.variant == 'aerosol':
            self.gas = common.Gas(plan['mech'], res, sim, sets, out)
            if not self.gas.ok:
                return
        self.ok = True
        n = self.p.ng + self.p.nc * self.p.nb
        for b in sim.batches:
            if b.y0.shape != (n,):
                out.fail('shape', 'the state has %d elements; %d species, %d of them condensing, in %d bins make %d' % (
                    b.y0.size, self.p.ng, self.p.nc, self.p.nb, n))
                self.ok = False
                return
        inv = {v: k for k, v in self._index(plan, sim).items()}
        self.names = [inv.get(i, 'water') for i in range(self.p.ng)]
        self.memo = {}

    def _index(self, plan, sim):
        names = mech.species(plan['mech']) if sim.variant == 'aerosol' else list(dict(plan['yield']))
        ix = common.find_index(sim, names)
        return {n: ix[n] for n in names}

    def chem(self, c):
        """Chemical rates of all gas columns, their tolerance"""
        v, tol = np.zeros(self.p.ng), np.zeros(self.p.ng)
        if self.gas is not None:
            a, t = self.gas.rhs(c.y, c.abs)
            n = self.gas.n
            v[:n] = a
            tol[:n] = 4 * t + 1e-9 * self.gas.scale(c.y, c.abs)
        return v, tol

    def part(self, y):
        key = y.tobytes()
        if key not in self.memo:
            self.memo[key] = self.p.evaluate(y) + (self.p.last_mass,)
        return self.memo[key]

    def label(self, i):
        p = self.p
        if i < p.ng:
            return 'gas %s' % self.names[i]
        j, k = divmod(i - p.ng, p.nc)
        return '%s in bin %d' % (self.names[p.include[k]], j)

    def check_rates(self, out, sim, rel=REL):
        """Every call against chemistry and condensation"""
        p, n = self.p, 0
        for b in sim.batches:
            for c in b.calls:
                if c.kind != 'rhs':
                    continue
                dm, scale, soa, size, aw, mass = self.part(c.y)
                if not np.isfinite(dm).all():
                    continue
                n += 1
                v, tol = self.chem(c)
                v[p.include] -= dm.sum(axis=0)
                tol[p.include] += rel * scale.sum(axis=0)
                ref = np.concatenate([v, dm.ravel()])
                tol = np.concatenate([tol, rel * scale.ravel()])
                got = c.res.ravel()
                if got.shape != ref.shape:
                    out.fail('shape', '%s returned %s values for %d' % (common.describe(c), c.res.shape, ref.size))
                    return n
                w = common.worst(got, ref, tol)
                if w is not None:
                    i = w[0]
                    out.fail('rate-differs', '%s: rate of %s is %r, the condensation equations give %r +- %.1e' % (
                        common.describe(c), self.label(i), got[i], ref[i], tol[i]))
                    return n
        return n

    def check_balance(self, out, sim):
        """Gas and particles together change by chemistry only"""
        p, n = self.p, 0
        for b in sim.batches:
            for c in b.calls:
                if c.kind != 'rhs':
                    continue
                got = c.res.ravel()
                if got.size != p.ng + p.nc * p.nb:
                    out.fail('shape', '%s returned %s values' % (common.describe(c), c.res.shape))
                    return n
                v, tol = self.chem(c)
                cond = p.bins(got)
                if not np.isfinite(got).all() or not np.isfinite(v).all():
                    continue
                n += 1
                total = got[:p.ng].copy()
                total[p.include] += cond.sum(axis=0)
                tol = tol + 1e-12 * np.abs(got[:p.ng])
                tol[p.include] += 1e-11 * np.abs(cond).sum(axis=0)
                w = common.worst(total, v, tol)
                if w is not None:
                    i = w[0]
                    out.fail('not-conserved' if i in p.include else 'excluded-touched', '%s: gas %s changes by %r, the particles by %r, chemistry by %r +- %.1e' % (
                        common.describe(c), self.names[i], got[i], cond.sum(axis=0)[list(p.include).index(i)] if i in p.include else None, v[i], tol[i]))
                    return n
        return n

    def check_start(self, out, sim, rel=1e-6):
        p = self.p
        y = sim.batches[0].y0
        tol = rel * np.abs(p.y0)
        w = common.worst(y, p.y0, tol)
        if w is not None:
            out.fail('start', 'the run starts with %r of %s, the settings give %r' % (y[w[0]], self.label(w[0]), p.y0[w[0]]))
            return False
        return True

    def check_saved(self, out, sim, files, rel=REL):
        """Recorded mass and sizes against those of the recorded states"""
        p = self.p
        Y, t = common.recorded(sim, files)
        S, Z = files.get('SOA'), files.get('size')
        for what, x in (('states', Y), ('masses', S), ('sizes', Z)):
            if not isinstance(x, np.ndarray):
                out.fail('missing', 'the %s were not saved (%s)' % (what, getattr(x, 'why', 'no file')))
                return 0
        n = len(Y)
        if S.size != n or Z.shape != (n, p.nb):
            out.fail('shape', 'masses of shape %s and sizes of shape %s for %d states and %d bins' % (S.shape, Z.shape, n, p.nb))
            return 0
        k = 0
        for i in range(n):
            dm, scale, soa, size, aw, mass = self.part(np.ascontiguousarray(Y[i]))
            if not np.isfinite(size).all():
                continue
            k += 1
            if not abs(S.ravel()[i] - soa) <= rel * max(abs(soa), mass) + 1e-300:
                out.fail('mass', 'recorded organic mass of batch %d is %r ug/m3, its recorded state has %r' % (i, S.ravel()[i], soa))
                return k
            w = common.worst(Z[i], size, rel * size)
            if w is not None:
                out.fail('size', 'recorded size of bin %d after batch %d is %r m, its recorded state has %r' % (w[0], i, Z[i][w[0]], size[w[0]]))
                return k
        return k


def describe_set(p, plan):
    return 'ng=%d nc=%d nb=%d %s' % (p.ng, p.nc, p.nb, 'cut' if p.s['ignore_vp'] else 'nocut')

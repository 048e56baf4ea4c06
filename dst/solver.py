"""The solver as a simulated environment: which calls it makes, with which times and states, in which order, what it
accepts, and whether it gives up, is all drawn from the plan; every call and its answer is recorded."""
import copy
import random

import numpy as np

from . import stubs


class NotIntegrable(Exception):
    pass


class Call:
    __slots__ = ('kind', 't', 'y', 'res', 'ref', 'mutated', 'batch', 'abs', 'i', 'shape', 'scribbled')

    def __init__(self, kind, t, y, batch):
        self.kind, self.t, self.y, self.batch = kind, t, y, batch


class Batch:
    def __init__(self, n, s, tfinal, elapsed):
        self.n = n
        self.t0 = float(s.t)
        self.y0 = s.y.copy()
        self.tfinal = tfinal
        self.elapsed = elapsed        # simulated before this batch
        self.calls = []
        self.t_out = self.y_out = None
        self.atol = s.atol
        self.rtol = s.rtol


class Sim:
    """One call of run_simulation"""

    def __init__(self, proc, args):
        self.proc = proc
        keep = ('start_time', 'temp', 'RH', 'RO2_indices', 'H2O', 'simulation_time', 'batch_step', 'filename', 'save_output')
        self.args = {k: copy.deepcopy(args[k]) for k in keep if k in args}
        d = args.get('input_dict')
        self.inp = {}
        self.index = None
        if isinstance(d, dict):
            for k, v in d.items():
                try:
                    self.inp[k] = copy.deepcopy(v)
                except Exception:
                    pass
        ix = self.inp.get('species_dict2array')
        if isinstance(ix, dict):
            self.index = {k: int(v) for k, v in ix.items() if isinstance(k, str)}
        cfg = proc.cfg.get('solver') or {}
        if 'sims' in cfg:
            cfg = cfg['sims'][min(proc.nsim, len(cfg['sims']) - 1)]
        self.cfg = cfg
        self.number = proc.nsim
        proc.nsim += 1
        self.batches = []
        self.elapsed = 0.0
        self.finished = False
        self.returned = None
        self.gave_up = False
        self.variant = getattr(proc, 'variant', None)

    def set_return(self, r):
        if isinstance(r, tuple):
            self.returned = tuple(np.array(x, copy=True) if isinstance(x, (list, np.ndarray)) else x for x in r)

    def detach(self):
        self.proc = None
        for b in self.batches:
            for c in b.calls:
                c.ref = None

    # ------------------------------------------------------------------------------------------
    def simulate(self, s, tfinal):
        b = Batch(len(self.batches), s, tfinal, self.elapsed)
        self.batches.append(b)
        fail = self.cfg.get('fail')
        mode = self.cfg.get('mode', 'chaos')
        if len(self.batches) > self.cfg.get('max_batches', 2500):
            raise stubs.SolverGaveUp('too many batches for the simulator')
        if 'script' in self.cfg:
            t, y = self.scripted(s, b)
        elif mode == 'chaos':
            t, y = self.chaos(s, b, tfinal, fail)
        else:
            t, y = self.exact(s, b, tfinal, fail)
        s.t, s.y = float(t[-1]), np.array(y[-1], copy=True)
        self.elapsed += tfinal - b.t0
        b.t_out, b.y_out = list(t), np.array(y, copy=True)
        return t, y

    def call(self, s, b, kind, t, y, scribble=False):
        f = s.problem.rhs if kind == 'rhs' else s.problem.jac
        c = Call(kind, t, y.copy(), b.n)
        c.i = len(b.calls)
        c.abs = b.elapsed + (t - b.t0)
        r = f(t, y)
        a = np.asarray(r)
        c.shape = a.shape
        c.res = np.array(a, dtype=float, copy=True)
        c.ref = r
        c.mutated = not np.array_equal(c.y, y, equal_nan=True)
        if c.mutated:
            y[...] = c.y
        c.scribbled = False
        if scribble and isinstance(r, np.ndarray) and r.flags.writeable:
            r.fill(np.nan)
            c.scribbled = True
        b.calls.append(c)
        return c

    # -- states ----------------------------------------------------------------------------------
    def state(self, rng, y0, prev):
        cfg = self.cfg
        n = len(y0)
        ng, nb = cfg.get('ng'), cfg.get('nb')
        k = rng.random()
        if prev is not None and k < .25:
            g = np.random.RandomState(rng.getrandbits(32))
            return (prev if cfg.get('neg') else np.abs(prev)) * (1 + 1e-6 * g.standard_normal(n))
        g = np.random.RandomState(rng.getrandbits(32))
        lo, hi = cfg.get('range', (-2, 13))
        y = 10.0 ** g.uniform(lo, hi, n)
        if k < .85:
            y[g.uniform(size=n) < g.choice([0, .1, .5])] = 0.0
        if cfg.get('positive'):
            y = np.maximum(y, 1e-3)
        if ng and nb and n > ng and (n - ng) % nb == 0:
            nc = (n - ng) // nb
            y[:ng] = 10.0 ** g.uniform(4, 12.5, ng)
            y[:ng][g.uniform(size=ng) < g.choice([0, .1, .5])] = 0.0
            y[ng - 1] = max(y0[ng - 1], 1.0) * g.uniform(.3, 1.5)
            if g.uniform() < .1:
                y[ng - 1] = 0.0
            for j in range(nb):
                w = self.scale[j]
                z = w * 10.0 ** g.uniform(-3, 1, nc)
                z[g.uniform(size=nc) < g.choice([0, .2, .8])] = 0.0
                if cfg.get('trace') and k < .7:
                    # hardly anything has condensed, or slightly less than nothing
                    z = 10.0 ** g.uniform(-12, 1, nc)
                    z[g.uniform(size=nc) < g.choice([0, .5])] = 0.0
                    if cfg.get('neg'):
                        z[g.uniform(size=nc) < .3] *= -min(1e-3, 1e-4 * w)
                z[-1] = w * 10.0 ** g.uniform(-1, .7)
                y[ng + j * nc:ng + (j + 1) * nc] = z
        elif k > .97:
            y[:] = 0.0 if not cfg.get('positive') else 1.0
        if cfg.get('neg') and k > .5:
            # what a solver may overshoot to; the particles stay positive
            e = ng if ng and nb else n
            m = g.uniform(size=e) < g.choice([.1, .3])
            if ng:
                m[ng - 1:] = False
            y[:e][m] = -10.0 ** g.uniform(-6, cfg['neg'], int(m.sum()))
        return y

    def chaos(self, s, b, tfinal, fail):
        cfg = self.cfg
        seed = cfg.get('seed', 0)
        y0 = b.y0
        n = len(y0)
        ng, nb = cfg.get('ng'), cfg.get('nb')
        if b.n == 0 and ng and nb and n > ng and (n - ng) % nb == 0:
            nc = (n - ng) // nb
            self.scale = [max(abs(y0[ng + (j + 1) * nc - 1]), 1.0) for j in range(nb)]
        elif not hasattr(self, 'scale'):
            self.scale = [1e6] * (nb or 1)
        dt = tfinal - b.t0
        hasjac = bool(s.usejac) and hasattr(s.problem, 'jac')
        rows = random.Random('acc/%s/%d' % (seed, b.n))
        nacc = rows.choice([1, 1, 2, 4])
        if cfg.get('long') and rows.random() < cfg['long']:
            nacc = rows.choice([60, 600, 1500])
        times = sorted(rows.random() for _ in range(nacc - 1)) + [1.0]
        t_out, y_out = [b.t0], [y0.copy()]
        for f in times:
            t_out.append(b.t0 + f * dt if f < 1 else tfinal)
            st = self.state(rows, y0, y_out[-1])
            if not cfg.get('neg'):
                st = np.abs(st)
            if cfg.get('still'):
                st = y0.copy()
            y_out.append(st)
        total = cfg.get('calls', 6)
        if isinstance(total, list):
            total = total[min(b.n, len(total) - 1)]
        drop = set(map(tuple, cfg.get('drop', ())))
        done = []
        buf = np.empty(n)
        for i in range(total):
            if fail and fail.get('batch', 0) == b.n and fail.get('call', 0) == i:
                self.gave_up = True
                raise stubs.SolverGaveUp('The solver failed at t=%r: error test failures occurred too many times' % b.t0)
            if (b.n, i) in drop:
                continue
            r = random.Random('op/%s/%d/%d' % (seed, b.n, i))
            k = r.random()
            f = r.choice([0.0, 0.0, 1.0, r.random(), r.random(), r.random(), r.random() * 1.2])
            t = b.t0 + f * dt
            y = self.state(r, y0, done[-1][2] if done and r.random() < .5 else None)
            kind = 'jac' if hasjac and r.random() < .4 else 'rhs'
            scr = r.random() < .25
            if i == 0 and r.random() < .7:
                t, y, kind = b.t0, y0.copy(), 'rhs'
            elif k < .2 and done:
                kind, t, y = r.choice(done)
            elif k < .35 and done:
                _, t, y = r.choice(done)
            elif k < .5:
                j = r.randrange(len(y_out))
                t, y = t_out[j], y_out[j]
            if r.random() < .3:
                buf[...] = y
                arg = buf
            else:
                arg = np.array(y)
            y = np.array(y)
            self.call(s, b, kind, t, arg, scr)
            done.append((kind, t, y))
        if fail and fail.get('batch', 0) == b.n and fail.get('call', 0) >= total:
            self.gave_up = True
            raise stubs.SolverGaveUp('The solver failed at t=%r' % b.t0)
        # what it returned earlier must still be there
        b.stale = [c.i for c in b.calls if not c.scribbled and not np.array_equal(np.asarray(c.ref, dtype=float), c.res, equal_nan=True)]
        for c in b.calls:
            c.ref = None
        return t_out, np.array(y_out)

    def scripted(self, s, b):
        """Calls and accepted states given by an earlier run"""
        calls, t_out, y_out = self.cfg['script'][b.n]
        for kind, t, y in calls:
            self.call(s, b, kind, t, np.array(y))
        b.stale = [c.i for c in b.calls if not np.array_equal(np.asarray(c.ref, dtype=float), c.res, equal_nan=True)]
        for c in b.calls:
            c.ref = None
        return list(t_out), np.array(y_out)

    def exact(self, s, b, tfinal, fail):
        from scipy.integrate import solve_ivp
        if fail and fail.get('batch', 0) == b.n:
            self.gave_up = True
            raise stubs.SolverGaveUp('The solver failed at t=%r' % b.t0)
        rtol = self.cfg.get('rtol', 1e-9)
        atol = self.cfg.get('atol', 1e-3)
        # as accurate as the plan says, unless the program asks for something coarse
        if np.max(s.rtol) > 1e-3:
            rtol = float(np.max(s.rtol))
        if np.max(s.atol) > 1e5:
            atol = np.asarray(s.atol, dtype=float)
        count = [0, 0]
        sample = [1]            # calls kept for the checks: ever fewer as the batch goes on

        def rhs(t, y):
            count[0] += 1
            if count[0] > self.cfg.get('max_calls', 200000):
                raise NotIntegrable('too many steps')
            r = np.array(s.problem.rhs(t, y.copy()), dtype=float).ravel()
            if count[0] >= sample[0] and len(b.calls) < 60:
                sample[0] = max(sample[0] + 1, int(sample[0] * 1.2))
                c = Call('rhs', t, y.copy(), b.n)
                c.i, c.abs, c.res = count[0], b.elapsed + (t - b.t0), r
                c.ref, c.mutated, c.scribbled, c.shape = None, False, False, r.shape
                b.calls.append(c)
            if not np.isfinite(r).all():
                raise NotIntegrable('the derivative is not finite')
            return r

        def jac(t, y):
            count[1] += 1
            return np.array(s.problem.jac(t, y.copy()), dtype=float)
        usej = bool(s.usejac) and hasattr(s.problem, 'jac') and self.cfg.get('jac', True)
        kw = {'jac': jac} if usej else {}
        b.nfev = count
        try:
            sol = solve_ivp(rhs, (b.t0, tfinal), b.y0, method=self.cfg.get('method', 'BDF'), rtol=rtol, atol=atol,
                            max_step=self.cfg.get('max_step', np.inf), **kw)
        except NotIntegrable as e:
            self.gave_up = True
            raise stubs.SolverGaveUp(str(e))
        if sol.status != 0:
            self.gave_up = True
            raise stubs.SolverGaveUp('integration failed: ' + str(sol.message))
        return list(sol.t), np.ascontiguousarray(sol.y.T)

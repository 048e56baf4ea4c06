"""Stand-ins for the third party packages around PyBox, all deterministic and under the control of a plan.

assimulo  - the ODE solver: a scripted driver that calls the model as a solver may (chaos), or a real integrator (exact)
numba     - identity decorators plus the on-disk function cache of numba
umansysprop, pybel - property estimation: values that are a hash of the structure, a different one per method
matplotlib - swallows plots
"""
import hashlib
import math
import os
import marshal
import pickle
import random
import sys
import types

import numpy as np


class Ctx:
    """The simulated process that is running"""
    proc = None


ctx = Ctx()


class SolverGaveUp(Exception):
    """What the real solver raises (CVodeError)"""


CVodeError = SolverGaveUp


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__sim__ = True
    return m


# ---------------------------------------------------------------- assimulo

class Explicit_Problem:
    def __init__(self, rhs=None, y0=None, t0=None, p0=None, sw0=None, name=None, **kw):
        if rhs is not None:
            self.rhs = rhs
        if y0 is not None:
            self.y0 = y0
        self.t0 = 0.0 if t0 is None else t0
        self.name = name


class Solver:
    kind = 'CVode'

    def __init__(self, problem):
        self.problem = problem
        p = ctx.proc
        self.t = float(problem.t0)
        self.y = np.array(problem.y0, dtype=float).ravel().copy()
        self.atol = 1e-6
        self.rtol = 1e-6
        self.inith = 0.0
        self.maxh = 0.0
        self.usejac = True
        self.report_continuously = False
        self.maxncf = 10
        self.options = {}
        p.solver_created(self)

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        return ctx.proc.simulate(self, float(tfinal))

    __call__ = simulate

    def print_statistics(self, *a, **k):
        pass

    def plot(self, *a, **k):
        pass


def assimulo():
    s = module('assimulo.solvers')
    for n in ('CVode', 'RodasODE', 'RungeKutta4', 'LSODAR', 'Radau5ODE', 'RungeKutta34', 'Dopri5', 'ExplicitEuler', 'ImplicitEuler'):
        setattr(s, n, type(n, (Solver,), {'kind': n}))
    s.CVodeError = CVodeError
    pr = module('assimulo.problem', Explicit_Problem=Explicit_Problem)
    top = module('assimulo', solvers=s, problem=pr)
    top.__path__ = []
    return {'assimulo': top, 'assimulo.solvers': s, 'assimulo.problem': pr}


# ---------------------------------------------------------------- numba

class _Type:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a):
        return self

    def __getitem__(self, k):
        return self


def _cached(fn):
    """numba's cache=True: an index stamped with time and size of the source file, and the compiled code, which is keyed
    by the byte code of the function (not by its constants) and by its closure"""
    disk = ctx.proc.world.disk
    src = fn.__code__.co_filename
    if not disk.inside(src):
        return fn
    d = os.path.join(os.path.dirname(src), '__pycache__')
    st = os.stat(src)
    stamp = [st.st_mtime, st.st_size]
    base = '%s.%s-%d.py312' % (os.path.splitext(os.path.basename(src))[0], fn.__name__, fn.__code__.co_firstlineno)
    idx = os.path.join(d, base + '.nbi')
    key = hashlib.sha256(fn.__code__.co_code).hexdigest()
    table = {}
    try:
        with open(idx, 'rb') as f:
            version = pickle.load(f)
            s, table = pickle.loads(f.read())
        if version != '0.60-sim' or s != stamp:
            table = {}
    except OSError:
        table = {}
    except Exception:
        # numba does not guard against a damaged index
        raise
    if key in table:
        try:
            with open(os.path.join(d, table[key]), 'rb') as f:
                code = marshal.loads(f.read())
            ctx.proc.stats['numba_cache_hits'] = ctx.proc.stats.get('numba_cache_hits', 0) + 1
            return types.FunctionType(code, fn.__globals__, fn.__name__, fn.__defaults__, fn.__closure__)
        except OSError:
            pass
    name = '%s.%d.nbc' % (base, len(table) + 1)
    os.makedirs(d, exist_ok=True)
    table = dict(table)
    table[key] = name
    for path, data in ((os.path.join(d, name), marshal.dumps(fn.__code__)),
                       (idx, pickle.dumps('0.60-sim') + pickle.dumps((stamp, table)))):
        tmp = path + '.tmp.%x' % ctx.proc.pid
        with open(tmp, 'wb') as f:
            f.write(data)
        os.replace(tmp, path)
    return fn


def jit(*args, **kw):
    def deco(fn):
        if kw.get('cache') and ctx.proc is not None:
            return _cached(fn)
        return fn
    if len(args) == 1 and callable(args[0]) and not isinstance(args[0], _Type) and not kw:
        return args[0]
    return deco


def numba():
    m = module('numba', jit=jit, njit=jit, prange=range, vectorize=jit)
    for n in ('f8', 'f4', 'i8', 'i4', 'float64', 'float32', 'int64', 'int32', 'void', 'boolean', 'b1'):
        setattr(m, n, _Type(n))
    t = module('numba.types')
    t.__dict__.update({k: v for k, v in m.__dict__.items() if isinstance(v, _Type)})
    m.types = t
    m.set_num_threads = lambda n: None
    m.get_num_threads = lambda: 1
    m.config = types.SimpleNamespace(NUMBA_NUM_THREADS=1)
    m.__path__ = []
    return {'numba': m, 'numba.types': t}


# ---------------------------------------------------------------- pybel and umansysprop

def hval(*key):
    """A number in [0, 1) that is a hash of the key"""
    return int.from_bytes(hashlib.sha256('|'.join(str(k) for k in key).encode()).digest()[:6], 'big') / float(1 << 48)


def coarse(part, what, *key):
    """As hval, but a part of the keys share a few values: isomers have one molar mass, one composition, or by chance one vapour
    pressure, and differ in the rest"""
    h = hval(what, *key)
    if hval('shared', what, *key) < part:
        return (int(5 * h) + .5) / 5
    return h


def mw_value(smiles):
    return 40.0 + 300.0 * coarse(.5, 'mw', smiles)


def bp_value(method, smiles):
    return 300.0 + 400.0 * coarse(.3, 'bp', method, smiles)


class Molecule:
    """Value semantics: two molecules of one structure are the same dictionary key, also across a pickle"""

    def __init__(self, smiles):
        self.smiles = smiles

    @property
    def molwt(self):
        return mw_value(self.smiles)

    exactmass = molwt

    def write(self, *a, **k):
        return self.smiles

    def __eq__(self, o):
        return isinstance(o, Molecule) and o.smiles == self.smiles

    def __hash__(self):
        return hash(('mol', self.smiles))

    def __repr__(self):
        return 'Molecule(%r)' % self.smiles

    def __str__(self):
        return self.smiles


def pybel():
    def readstring(fmt, s, opt=None):
        if ctx.proc is not None and s in ctx.proc.bad_smiles:
            raise OSError("Failed to convert '%s' to format '%s'" % (s, fmt))
        return Molecule(s)
    return {'pybel': module('pybel', readstring=readstring, Molecule=Molecule)}


def _bp(method):
    def f(c):
        return bp_value(method, c.smiles)
    return f


def critical(method, smiles, tb):
    return {'Tc': tb * (1.2 + hval('tc', method, smiles)), 'Pc': 20 + 30 * hval('pc', method, smiles),
            'Vc': 200 + 600 * hval('vc', method, smiles)}


class Crit:
    def __init__(self, d):
        self.__dict__.update(d)
        self.temperature, self.pressure, self.volume = d['Tc'], d['Pc'], d['Vc']


def _cp(method):
    def f(c, tb):
        return Crit(critical(method, c.smiles, tb))
    return f


def density_value(method, smiles, temp=None, crit=None):
    """g/cc; only girolami ignores temperature and critical properties"""
    d = 0.8 + 0.9 * coarse(.3, 'rho', method, smiles)
    if method != 'girolami':
        d += 1e-4 * (temp - 298.15) + 1e-5 * crit['Tc']
    return d


def vp_value(method, smiles, temp, tb=None):
    """log10 of the vapour pressure in atm"""
    base = -14.0 + 16.0 * coarse(.2, 'vp', method, smiles)
    return base + 0.02 * (temp - 298.15) * (1 + hval('dh', smiles)) - (0.002 * (tb - 500.0) if tb is not None else 0.0)


def group_values(smiles):
    if hval('shared', 'groups', smiles) < .5:
        return {'C': 10, 'H': 16, 'O': 3}
    return {'C': 1 + int(10 * hval('C', smiles)), 'H': 1 + int(20 * hval('H', smiles)), 'O': int(8 * hval('O', smiles))}


def umansysprop():
    b = module('umansysprop.boiling_points', **{m: _bp(m) for m in ('joback_and_reid', 'stein_and_brown', 'nannoolal')})
    v = module('umansysprop.vapour_pressures',
               nannoolal=lambda c, t, tb: vp_value('nannoolal', c.smiles, t, tb),
               myrdal_and_yalkowsky=lambda c, t, tb: vp_value('myrdal_and_yalkowsky', c.smiles, t, tb),
               evaporation=lambda c, t: vp_value('evaporation', c.smiles, t),
               evaporation2=lambda c, t: vp_value('evaporation2', c.smiles, t))
    cr = module('umansysprop.critical_properties', **{m: _cp(m) for m in ('nannoolal', 'joback_and_reid')})

    def dens(m):
        if m == 'girolami':
            return lambda c: density_value(m, c.smiles)
        return lambda c, t, p: density_value(m, c.smiles, t, p.__dict__)
    d = module('umansysprop.liquid_densities', **{m: dens(m) for m in ('girolami', 'schroeder', 'le_bas', 'tyn_and_calus')})
    g = module('umansysprop.groups', composition=lambda c: group_values(c.smiles))
    f = module('umansysprop.forms', CoreAbundanceField=type('CoreAbundanceField', (), {}))
    a = module('umansysprop.activity_coefficient_models_dev')
    a2 = module('umansysprop.activity_coefficient_models')
    p = module('umansysprop.partition_models')
    top = module('umansysprop', boiling_points=b, vapour_pressures=v, critical_properties=cr, liquid_densities=d, groups=g,
                 forms=f, activity_coefficient_models_dev=a, activity_coefficient_models=a2, partition_models=p)
    top.__path__ = []
    return {m.__name__: m for m in (top, b, v, cr, d, g, f, a, a2, p)}


# ---------------------------------------------------------------- matplotlib

SHOWN = ('plot', 'semilogy', 'bar', 'title', 'set_title', 'suptitle', 'legend', 'show', 'figure', 'subplots', 'close', 'clf', 'cla', 'savefig')


def _copied(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        try:
            return np.array(x, dtype=float)
        except (TypeError, ValueError):
            return list(x)
    return x


class _Any:
    def __init__(self, name=''):
        object.__setattr__(self, '_name', name)

    def __call__(self, *a, **k):
        proc, n = ctx.proc, self._name
        if proc is not None and n:
            r = proc.result
            r.shown += 1
            if proc.cfg.get('display') == r.shown:
                r.no_display = n
                raise RuntimeError('no display name and no $DISPLAY environment variable')
            if n in SHOWN:
                r.figures.append((n, [_copied(x) for x in a], {i: _copied(x) for i, x in k.items()}))
        return _Any(n)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Any(n)

    def __setattr__(self, n, v):
        pass

    def __getitem__(self, k):
        return self

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter((_Any(), _Any()))

    def __len__(self):
        return 2


def _any_module(name):
    m = module(name)
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith('__') else _Any(n if name.endswith('pyplot') else '')
    m.__path__ = []
    return m


def matplotlib():
    out = {n: _any_module(n) for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.cm', 'matplotlib.colors', 'matplotlib.ticker')}
    out['matplotlib'].pyplot = out['matplotlib.pyplot']
    out['matplotlib'].cm = out['matplotlib.cm']
    return out


def all_modules():
    out = {}
    for f in (assimulo, numba, pybel, umansysprop, matplotlib):
        out.update(f())
    return out

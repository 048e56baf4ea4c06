"""Helper of the demonstrations: runs the front ends of the PyBox in the current directory, in a scratch copy that is removed
afterwards, with stand-ins for the packages that are not installed (assimulo, umansysprop, pybel, numba, matplotlib).

The stand-in solver asks the model for derivatives and Jacobians at states of its own choice, records the answers, and reports
states of its own choice as the solution."""
import ast
import atexit
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
FRONT = {'gas': 'Gas_simulation.py', 'f2py': 'f2py/Gas_simulation_f2py.py', 'aerosol': 'Aerosol/f2py/Aerosol_simulation_f2py.py',
         'yield': 'Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py'}
SKIP = {'.git', 'test', 'docs', 'images', '__pycache__'}


class Box:
    def __init__(self):
        self.base = tempfile.mkdtemp(prefix='pbdemo-')
        atexit.register(shutil.rmtree, self.base, True)
        self.root = os.path.join(self.base, 'PyBox')
        shutil.copytree(os.getcwd(), self.root,
                        ignore=lambda d, ns: [n for n in ns if n in SKIP or n.endswith(('.so', '.npy', '.npz', '.f90', '.pickle', '_numba.py'))])
        self.n = 0

    def put(self, rel, text):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)

    def mechanism(self, reactions, name='MCM_APINENE'):
        """reactions: ['A + B = C + 0.5 D : 1.0D-12', ...], or with a leading '{12.}' of your own"""
        out = []
        for i, r in enumerate(reactions):
            out.append(r if r.startswith('{') else '{%d.}\t %s ;' % (i + 1, r))
        self.put('mechanism_files/%s.eqn.txt' % name, '\n'.join(out) + '\n')

    def xml(self, smiles):
        s = ''.join('<species species_number="%d" species_name="%s"><smiles>%s</smiles></species>\n' % (i, n, v)
                    for i, (n, v) in enumerate(smiles.items()))
        self.put('Aerosol/MCM.xml', '<?xml version="1.0"?>\n<mechanism>\n<species_defs>\n' + s + '</species_defs>\n</mechanism>\n')

    def path(self, rel):
        return os.path.join(self.root, rel)

    def dir(self, variant):
        return os.path.dirname(self.path(FRONT[variant]))

    def run(self, variant, sets=None, conc=None, states=None, pre='', check=True, **cfg):
        """One process running a front end. sets: settings of the script; conc: species_initial_conc; states: rows of the state
        the solver tries (its own random ones otherwise); pre: Python to execute first. Returns the record of the run."""
        self.n += 1
        cf = os.path.join(self.base, 'cfg%d.json' % self.n)
        of = os.path.join(self.base, 'out%d.pickle' % self.n)
        d = dict(cfg, front=self.path(FRONT[variant]), sets=sets or {}, conc=conc, out=of, pre=pre, states=states)
        with open(cf, 'w') as f:
            json.dump(d, f)
        env = {'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', 'HOME': self.base, 'PYTHONHASHSEED': str(cfg.get('hashseed', 0)),
               'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': str(cfg.get('threads', 1)), 'LC_ALL': 'C.UTF-8'}
        p = subprocess.run([PY, os.path.abspath(__file__), cf], cwd=self.dir(variant), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=280)
        r = Record()
        if os.path.exists(of):
            with open(of, 'rb') as f:
                r.__dict__.update(pickle.load(f))
        r.rc, r.log = p.returncode, p.stdout
        if check and (r.rc != 0 or not r.sims):
            sys.stdout.write(p.stdout[-3000:])
            raise SystemExit('the run of %s failed with code %d' % (variant, r.rc))
        return r


class Record:
    """sims: [{'index': species -> position, 'batches': [{'t0','tfinal','y0','calls': [(kind,t,y,res)],'t','y'}], 'ret'}]"""
    sims = ()

    @property
    def batches(self):
        return self.sims[-1]['batches']

    @property
    def index(self):
        return self.sims[-1]['index']

    def calls(self, kind='rhs', batch=None):
        return [c for b in self.batches if batch is None or b['n'] == batch for c in b['calls'] if c[0] == kind]


def fail(msg):
    print('FAIL: ' + msg)
    sys.exit(1)


def close(a, b, rel=1e-6, scale=None):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    s = np.maximum(np.abs(a), np.abs(b)) if scale is None else scale
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= rel * s))


def mass_action(index, reactions, y):
    """dy/dt and its scale for [(k, {reactant: order}, {product: yield})]; species without an index, and the bath gases, have
    no equation of their own"""
    import numpy as np
    d, s = np.zeros(len(index)), np.full(len(index), 1e-30)
    for k, left, right in reactions:
        r = k
        for sp, n in left.items():
            r *= y[index[sp]] ** n
        for sgn, side in ((-1, left), (1, right)):
            for sp, n in side.items():
                if sp not in ('AIR', 'H2O', 'O2', 'hv'):
                    d[index[sp]] += sgn * n * r
                    s[index[sp]] += abs(n * r)
    return d, s


def jacobian(index, reactions, y):
    import numpy as np
    n = len(index)
    J, S = np.zeros((n, n)), np.full((n, n), 1e-30)
    for k, left, right in reactions:
        for by in left:
            r = k
            for sp, m in left.items():
                r *= y[index[sp]] ** m if sp != by else m * y[index[sp]] ** (m - 1)
            for sgn, side in ((-1, left), (1, right)):
                for sp, m in side.items():
                    if sp not in ('AIR', 'H2O', 'O2', 'hv'):
                        J[index[sp], index[by]] += sgn * m * r
                        S[index[sp], index[by]] += abs(m * r)
    return J, S


def check_rhs(rec, reactions, rel=1e-6, kinds=('rhs', 'jac')):
    """Every answer of the model is that of the reactions"""
    import numpy as np
    if not rec.calls('rhs'):
        fail('no derivative was asked for')
    for kind in kinds:
        for _, t, y, r in rec.calls(kind):
            ref, s = (mass_action if kind == 'rhs' else jacobian)(rec.index, reactions, y)
            r = r.reshape(ref.shape)
            if not close(r, ref, rel, s):
                i = np.unravel_index(np.argmax(np.abs(r - ref) / s), ref.shape)
                names = {v: k for k, v in rec.index.items()}
                fail('%s for %s: %r instead of %r' % (kind, ', '.join(names[j] for j in i), r[i], ref[i]))


# ------------------------------------------------------------------------------------- inside the process that is started

def inside(cfg):
    import hashlib
    import types
    import numpy as np
    import random
    record = {'sims': []}

    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m

    class Any:
        def __init__(self, *a, **k):
            pass

        def __call__(self, *a, **k):
            return self

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return self

        def __getitem__(self, k):
            return self

        def __iter__(self):
            return iter((Any(), Any()))

    def anymod(n):
        m = module(n)
        m.__path__ = []
        m.__getattr__ = lambda k: (_ for _ in ()).throw(AttributeError(k)) if k.startswith('__') else Any()
        return m
    mp = anymod('matplotlib')
    mp.pyplot = anymod('matplotlib.pyplot')
    mp.cm = anymod('matplotlib.cm')
    mp.colors = anymod('matplotlib.colors')
    mp.ticker = anymod('matplotlib.ticker')

    class Ty:
        def __call__(self, *a):
            return self

        def __getitem__(self, k):
            return self

    def jit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not isinstance(a[0], Ty) and not k:
            return a[0]
        return lambda f: f
    nb = module('numba', jit=jit, njit=jit, prange=range, **{n: Ty() for n in ('f8', 'f4', 'i8', 'i4', 'float64', 'float32', 'int64', 'int32', 'void')})
    nb.__path__ = []
    nb.types = module('numba.types', f8=Ty(), float64=Ty(), int64=Ty())

    def hv(*k):
        return int.from_bytes(hashlib.sha256('|'.join(map(str, k)).encode()).digest()[:6], 'big') / float(1 << 48)

    class Molecule:
        def __init__(self, s):
            self.smiles = s

        @property
        def molwt(self):
            return 40.0 + 300.0 * hv('mw', self.smiles)
        exactmass = molwt

        def write(self, *a, **k):
            return self.smiles

        def __eq__(self, o):
            return isinstance(o, Molecule) and o.smiles == self.smiles

        def __hash__(self):
            return hash(('mol', self.smiles))
    Molecule.__module__ = 'pybel'
    Molecule.__qualname__ = 'Molecule'
    module('pybel', readstring=lambda f, s, opt=None: Molecule(s), Molecule=Molecule)
    vp = cfg.get('vp') or {}

    class Crit:
        def __init__(self, m, s):
            self.temperature, self.pressure, self.volume = 600 + 100 * hv('tc', m, s), 30., 400.
    U = 'umansysprop'
    subs = {
        'boiling_points': {m: (lambda m: lambda c: 300 + 400 * hv('bp', m, c.smiles))(m) for m in ('joback_and_reid', 'stein_and_brown', 'nannoolal')},
        'vapour_pressures': dict(
            {m: (lambda m: lambda c, t, tb: vp.get(c.smiles, -14 + 16 * hv('vp', m, c.smiles)) + .02 * (t - 298.15) + (0.001 * (tb - 500) if cfg.get('vp_tb') else 0))(m)
             for m in ('nannoolal', 'myrdal_and_yalkowsky')},
            **{m: (lambda m: lambda c, t: vp.get(c.smiles, -14 + 16 * hv('vp', m, c.smiles)) + .02 * (t - 298.15))(m) for m in ('evaporation', 'evaporation2')}),
        'critical_properties': {m: (lambda m: lambda c, tb: Crit(m, c.smiles))(m) for m in ('nannoolal', 'joback_and_reid')},
        'liquid_densities': dict({m: (lambda m: lambda c, t, p: 0.8 + .9 * hv('rho', m, c.smiles) + 1e-4 * (t - 298.15) + 1e-5 * p.temperature)(m) for m in ('schroeder', 'le_bas', 'tyn_and_calus')},
                                 girolami=lambda c: 0.8 + .9 * hv('rho', 'girolami', c.smiles)),
        'groups': {'composition': lambda c: {'C': 1 + int(10 * hv('C', c.smiles)), 'H': 2, 'O': int(8 * hv('O', c.smiles))}},
        'forms': {'CoreAbundanceField': type('CoreAbundanceField', (), {})},
        'activity_coefficient_models_dev': {}, 'activity_coefficient_models': {}, 'partition_models': {}}
    top = module(U)
    top.__path__ = []
    for n, d in subs.items():
        setattr(top, n, module(U + '.' + n, **d))

    class GaveUp(Exception):
        pass
    states = cfg.get('states')

    class Problem:
        def __init__(self, rhs=None, y0=None, t0=None, **k):
            self.rhs, self.y0, self.t0 = rhs, y0, 0.0 if t0 is None else t0

    class Solver:
        def __init__(self, problem):
            self.problem = problem
            self.t = float(problem.t0)
            self.y = np.array(problem.y0, float).ravel().copy()
            self.atol = self.rtol = 1e-6
            self.inith, self.maxh, self.usejac = 0., 0., True

        def print_statistics(self, *a):
            pass

        def simulate(self, tfinal, ncp=0, ncp_list=None):
            s = record['sims'][-1]
            n = len(s['batches'])
            b = {'n': n, 't0': float(self.t), 'tfinal': float(tfinal), 'y0': self.y.copy(), 'calls': []}
            s['batches'].append(b)
            if n >= cfg.get('max_batches', 3000):
                raise GaveUp('too many batches')
            g = np.random.RandomState(1000 + n)
            ny = len(self.y)
            ys = [self.y.copy()]
            if states:
                ys += [np.array(x, float) for x in states if len(x) == ny]
            else:
                ys += [10.0 ** g.uniform(3, 11, ny) for _ in range(2)]
            kinds = ['rhs'] + (['jac'] if self.usejac and hasattr(self.problem, 'jac') and not cfg.get('nojac') else [])
            order = cfg.get('order') or ['rhs', 'jac']
            for k in [k for k in order if k in kinds]:
                for f in cfg.get('fracs', (0.0, .6, .3, 1.0)):
                    t = b['t0'] + f * (tfinal - b['t0'])
                    for y in ys:
                        a = y.copy()
                        r = np.array((self.problem.rhs if k == 'rhs' else self.problem.jac)(t, a), float, copy=True)
                        b['calls'].append((k, t, y.copy(), r))
            if cfg.get('give_up') == n:
                raise GaveUp('CVode failed at t=%r' % self.t)
            rows = cfg.get('rows', 2)
            b['t'] = [b['t0'] + (tfinal - b['t0']) * (i + 1.) / rows for i in range(rows)]
            b['t'][-1] = float(tfinal)
            if cfg.get('still'):
                b['y'] = np.array([self.y] * rows)
            elif cfg.get('finals'):
                f = cfg['finals'][n % len(cfg['finals'])]
                b['y'] = np.array([f] * rows, float)
            else:
                b['y'] = np.array([np.abs(self.y) * (1 + .1 * (i + 1)) + 10.0 ** g.uniform(2, 6, ny) for i in range(rows)])
            self.t, self.y = float(tfinal), b['y'][-1].copy()
            return list([b['t0']] + b['t']), np.vstack([b['y0'][None, :], b['y']])
    asm = module('assimulo')
    asm.__path__ = []
    asm.solvers = module('assimulo.solvers', CVodeError=GaveUp, **{k: type(k, (Solver,), {}) for k in ('CVode', 'RodasODE', 'RungeKutta4', 'LSODAR', 'Radau5ODE', 'Dopri5')})
    asm.problem = module('assimulo.problem', Explicit_Problem=Problem)
    import builtins
    old_open = builtins.open
    builtins.open = lambda f, mode='r', *a, **k: old_open(f, mode.replace('U', ''), *a, **k)
    old_save = np.save

    def save(file, arr, *a, **k):
        if isinstance(arr, list):
            try:
                arr = np.array(arr)
            except ValueError:
                arr = np.array(arr, dtype=object)
        return old_save(file, arr, *a, **k)
    np.save = save
    if cfg.get('cpu'):
        import multiprocessing
        multiprocessing.cpu_count = os.cpu_count = lambda: cfg['cpu']
    front = cfg['front']
    with open(front) as f:
        src = f.read()

    class Over(ast.NodeTransformer):
        def visit_Assign(self, node):
            t = node.targets[0]
            if isinstance(t, ast.Name) and t.id in cfg['sets']:
                try:
                    ast.literal_eval(node.value)
                except ValueError:
                    return node
                node.value = ast.copy_location(ast.parse(repr(cfg['sets'][t.id]), mode='eval').body, node.value)
            elif cfg.get('conc') is not None:
                if isinstance(t, ast.Name) and t.id == 'species_initial_conc':
                    node.value = ast.copy_location(ast.parse(repr(cfg['conc']), mode='eval').body, node.value)
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == 'species_initial_conc' and \
                        isinstance(node.value, ast.Constant):
                    return ast.copy_location(ast.Pass(), node)
            return ast.fix_missing_locations(node)
    ns_wrap = {}

    def wrap(fn):
        def run_simulation(*a, **k):
            import inspect
            d = inspect.signature(fn).bind(*a, **k).arguments
            ix = {str(k): int(v) for k, v in (d.get('input_dict') or {}).get('species_dict2array', {}).items() if isinstance(k, str)}
            s = {'index': ix, 'batches': [], 'ret': None}
            record['sims'].append(s)
            r = fn(*a, **k)
            s['ret'] = r
            return r
        return run_simulation
    tree = ast.fix_missing_locations(Over().visit(ast.parse(src)))

    class Wrapper(ast.NodeTransformer):
        """wraps run_simulation where it is imported or bound"""
        def visit_ImportFrom(self, node):
            if any(a.name == 'run_simulation' for a in node.names):
                nm = [a.asname or a.name for a in node.names if a.name == 'run_simulation'][0]
                return [node, ast.copy_location(ast.parse('%s = __wrap__(%s)' % (nm, nm)).body[0], node)]
            return node
    tree = ast.fix_missing_locations(Wrapper().visit(tree))
    exec(cfg.get('pre') or '', ns_wrap)
    ns = {'__name__': '__main__', '__file__': front, '__wrap__': wrap, '__builtins__': __builtins__}
    sys.path.insert(0, os.path.dirname(front))
    sys.argv = [front]
    try:
        if cfg.get('before'):
            # the same front end once before, with other settings, in this process
            keep = dict(cfg['sets'])
            cfg['sets'].update(cfg['before'])
            first = ast.fix_missing_locations(Wrapper().visit(ast.fix_missing_locations(Over().visit(ast.parse(src)))))
            cfg['sets'].clear()
            cfg['sets'].update(keep)
            n0 = {k: v for k, v in ns.items()}
            exec(compile(first, front, 'exec'), n0)
        exec(compile(tree, front, 'exec'), ns)
    finally:
        with open(cfg['out'], 'wb') as f:
            try:
                pickle.dump(record, f)
            except Exception:
                for s in record['sims']:
                    s['ret'] = None
                f.seek(0)
                pickle.dump(record, f)


if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        c = json.load(f)
    inside(c)

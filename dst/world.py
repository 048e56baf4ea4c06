"""A simulated world: one scratch copy of PyBox on a simulated disk, and the processes that run in it one after another.

A process executes a front end script exactly as "python script.py" would (fresh modules, current directory, import system
with byte code caches), with the third party packages replaced by the stand-ins of stubs.py.
"""
import ast
import builtins
import copy
import datetime as real_datetime
import gc
import hashlib
import importlib
import importlib.machinery
import importlib.util
import inspect
import io
import json
import marshal
import math
import os
import random
import shlex
import shutil
import struct
import subprocess
import sys
import tempfile
import time as real_time
import types
import warnings

import numpy as np

from . import f2pyemu, simdisk, solver, stubs
from .simdisk import SimCrash

REPO = os.environ.get('PYBOX_REPO', '/repo')
FRONT = {'gas': 'Gas_simulation.py', 'f2py': 'f2py/Gas_simulation_f2py.py', 'aerosol': 'Aerosol/f2py/Aerosol_simulation_f2py.py',
         'yield': 'Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py'}
SKIP = {'test', 'docs', 'images', '.git', '__pycache__', '.github', 'mechanism_files'}
EXT = '.cpython-%d%d-x86_64-linux-gnu.so' % sys.version_info[:2]
_code_cache = {}
DECOY = '{1.}\t O3 + APINENE = PINONIC + OH : 3.0D-13 ;\n{2.}\t OH + APINENE = DECOYO2 : 7.0D-12 ;\n'


def scratch_base():
    return os.environ['DST_RUN']


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            if f.endswith('.py') and not f.endswith('_numba.py') or f == 'MCM_yield.txt':
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


_files = None


def sources():
    """Contents of the sources under test, read once per check process"""
    global _files
    if _files is None:
        _files = {}
        for p in repo_files():
            with simdisk.real_open(os.path.join(REPO, p), 'rb') as f:
                _files[p] = f.read()
    return _files


class Result:
    """What became of a process"""

    def __init__(self):
        self.status = None         # 'ok', 'error', 'crash'
        self.exc = None
        self.tb = None
        self.sims = []             # solver.Sim, one per run_simulation
        self.applied = set()
        self.ns_obs = {}
        self.ops = 0
        self.fired = []
        self.stats = {}
        self.stamps = []
        self.compiles = []
        self.sources = {}          # module -> Fortran text, of the modules that were loaded
        self.figures = []          # what was drawn: (function, arguments, keywords)
        self.shown = 0             # calls of the plotting library
        self.no_display = None     # the one that failed
        self.fcalls = {}           # (module, function) -> [(arguments, answer)], if asked for

    @property
    def sim(self):
        return self.sims[-1] if self.sims else None


class World:
    _n = 0

    def __init__(self, variants, mech_text=None, extra=None):
        """variants: which front ends are needed (their files are copied)"""
        World._n += 1
        self.base = os.path.join(scratch_base(), 'w-%08d-%06d' % (os.getpid(), World._n))
        shutil.rmtree(self.base, ignore_errors=True)
        self.root = os.path.join(self.base, 'PyBox')
        os.makedirs(self.root)
        self.disk = simdisk.Disk(self.base)
        self.repo_hash = {}
        for p, data in sources().items():
            self._put(os.path.join(self.root, p), data)
            self.repo_hash[os.path.join(self.root, p)] = data
        os.makedirs(os.path.join(self.root, 'mechanism_files'), exist_ok=True)
        self.npid = 0

    def _put(self, path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(data, str):
            data = data.encode()
        with simdisk.real_open(path, 'wb') as f:
            f.write(data)
        t = 1.5e9
        os.utime(path, (t, t))

    def put(self, rel, data):
        self._put(os.path.join(self.root, rel), data)

    def path(self, rel):
        return os.path.join(self.root, rel)

    def read(self, rel):
        try:
            with simdisk.real_open(self.path(rel), 'rb') as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError):
            return None

    def mechanism(self, name, text):
        self.put('mechanism_files/%s.eqn.txt' % name, text)
        # other mechanisms lie in the same folder, some under similar names
        for n in ('%s_v2.eqn.txt', '%s.eqn.txt.orig', 'A%s.eqn.txt', 'MCM_mixed.eqn.txt'):
            f = 'mechanism_files/' + (n % name if '%' in n else n)
            if not os.path.exists(self.path(f)):
                self.put(f, DECOY)

    def xml(self, smiles, bad=()):
        """Aerosol/MCM.xml: smiles maps species to SMILES, None for an entry without one"""
        out = ['<?xml version="1.0"?>\n<mechanism>\n<species_defs>\n']
        for i, (n, s) in enumerate(smiles):
            out.append('<species species_number="%d" species_name="%s">%s</species>\n' % (
                i, n, '' if s is None else '<smiles>%s</smiles><inchi>InChI=%s</inchi>' % (s, n)))
        out.append('</species_defs>\n</mechanism>\n')
        self.put('Aerosol/MCM.xml', ''.join(out))

    def listing(self, rel):
        """name -> bytes of the files in a directory of the world"""
        out = {}
        d = self.path(rel)
        for n in sorted(simdisk.real['listdir'](d)):
            p = os.path.join(d, n)
            if os.path.isfile(p):
                with simdisk.real_open(p, 'rb') as f:
                    out[n] = f.read()
        return out

    def remove_results(self, variant):
        d = os.path.dirname(self.path(FRONT[variant]))
        for n in simdisk.real['listdir'](d):
            if '_output' in n:
                simdisk.real['remove'](os.path.join(d, n))

    def sibling(self, name):
        """Another copy of PyBox on the same disk"""
        w = copy.copy(self)
        w.root = os.path.join(self.base, name)
        for p, data in sources().items():
            w._put(os.path.join(w.root, p), data)
            self.repo_hash[os.path.join(w.root, p)] = data
        os.makedirs(os.path.join(w.root, 'mechanism_files'), exist_ok=True)
        return w

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def process(self, cfg):
        self.npid += 1
        return Process(self, cfg, self.npid)

    def run(self, variant, **cfg):
        """One process that runs a front end once"""
        p = self.process(cfg)
        with p:
            p.script(variant, cfg.get('set', {}), cfg.get('conc'))
        return p.result


# ---------------------------------------------------------------- overriding settings

def constant(node):
    """A literal, arithmetic on literals, or the name of a constant"""
    if isinstance(node, ast.Constant):
        return True
    if isinstance(node, ast.Name):
        return node.id.isupper()
    if isinstance(node, ast.UnaryOp):
        return constant(node.operand)
    if isinstance(node, ast.BinOp):
        return constant(node.left) and constant(node.right)
    if isinstance(node, (ast.List, ast.Tuple)):
        return all(constant(e) for e in node.elts)
    if isinstance(node, ast.Dict):
        return all(k is not None and constant(k) for k in node.keys) and all(constant(v) for v in node.values)
    return False


class Overrider(ast.NodeTransformer):
    """The settings of a front end: names that are given a constant value"""

    def __init__(self, sets):
        self.sets = sets
        self.applied = set()

    def value(self, name, node):
        self.applied.add(name)
        return ast.copy_location(ast.parse(repr(self.sets[name]), mode='eval').body, node)

    def visit_Assign(self, node):
        for t in node.targets:
            if isinstance(t, ast.Name) and t.id in self.sets and constant(node.value):
                node.value = self.value(t.id, node.value)
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(node.value, (ast.Tuple, ast.List)) and len(t.elts) == len(node.value.elts):
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Name) and e.id in self.sets and constant(node.value.elts[i]):
                        node.value.elts[i] = self.value(e.id, node.value.elts[i])
        ast.fix_missing_locations(node)
        return node

    def visit_AnnAssign(self, node):
        if isinstance(node.target, ast.Name) and node.target.id in self.sets and node.value is not None and constant(node.value):
            node.value = self.value(node.target.id, node.value)
            ast.fix_missing_locations(node)
        return node


# ---------------------------------------------------------------- imports

class Finder:
    """Finds modules in the directories of the world that are on sys.path, as importlib's FileFinder does, including its
    memory of directory listings"""

    def __init__(self, proc):
        self.proc = proc
        self.cache = {}

    def invalidate_caches(self):
        self.cache = {}

    def names(self, d):
        m = self.proc.world.disk.dir_mtime.get(d, 0.0)
        c = self.cache.get(d)
        if c is None or c[0] != m:
            try:
                c = (m, set(simdisk.real['listdir'](d)))
            except OSError:
                c = (m, set())
            self.cache[d] = c
        return c[1]

    def find_spec(self, name, path=None, target=None):
        disk = self.proc.world.disk
        tail = name.rpartition('.')[2]
        for d in (sys.path if path is None else path):
            try:
                d = disk.inside(d or os.getcwd())
            except Exception:
                continue
            if not d:
                continue
            names = self.names(d)
            if tail in names and os.path.isfile(os.path.join(d, tail, '__init__.py')):
                p = os.path.join(d, tail, '__init__.py')
                return importlib.util.spec_from_file_location(name, p, loader=PyLoader(self.proc, name, p),
                                                              submodule_search_locations=[os.path.join(d, tail)])
            for ext in (EXT, '.abi3.so', '.so'):
                if tail + ext in names:
                    p = os.path.join(d, tail + ext)
                    return importlib.util.spec_from_file_location(name, p, loader=SoLoader(self.proc, name, p))
            if tail + '.py' in names and os.path.isfile(os.path.join(d, tail + '.py')):
                p = os.path.join(d, tail + '.py')
                return importlib.util.spec_from_file_location(name, p, loader=PyLoader(self.proc, name, p))
        return None


MAGIC = importlib.util.MAGIC_NUMBER


class PyLoader:
    def __init__(self, proc, name, path):
        self.proc, self.name, self.path = proc, name, path

    def create_module(self, spec):
        return None

    def get_code(self):
        world = self.proc.world
        repo = world.repo_hash.get(self.path)
        if repo is not None:
            key = (self.path[len(world.base):], hashlib.sha256(repo).hexdigest())
            if key not in _code_cache:
                _code_cache[key] = compile(repo, self.path, 'exec', dont_inherit=True)
            return _code_cache[key]
        st = os.stat(self.path)
        pyc = os.path.join(os.path.dirname(self.path), '__pycache__',
                           os.path.splitext(os.path.basename(self.path))[0] + '.cpython-%d%d.pyc' % sys.version_info[:2])
        want = MAGIC + struct.pack('<III', 0, int(st.st_mtime) & 0xffffffff, st.st_size & 0xffffffff)
        try:
            with open(pyc, 'rb') as f:
                data = f.read()
            if data[:16] == want:
                code = marshal.loads(memoryview(data)[16:])
                self.proc.stats['pyc_hits'] = self.proc.stats.get('pyc_hits', 0) + 1
                return code
        except OSError:
            pass
        with open(self.path, 'rb') as f:
            src = f.read()
        code = compile(src, self.path, 'exec', dont_inherit=True)
        try:
            d = os.path.dirname(pyc)
            if not os.path.isdir(d):
                os.mkdir(d)
            tmp = '%s.%d' % (pyc, 140000000 + self.proc.pid)
            with open(tmp, 'wb') as f:
                f.write(want + marshal.dumps(code))
            os.replace(tmp, pyc)
        except OSError:
            pass
        return code

    def exec_module(self, mod):
        code = self.get_code()
        mod.__dict__['__builtins__'] = self.proc.builtins
        exec(code, mod.__dict__)
        self.proc.loaded(mod)


def recording(f, calls, keep):
    def g(*a, **k):
        r = f(*a, **k)
        if len(calls) < keep and not k:
            calls.append((copy.deepcopy(a), copy.deepcopy(r)))
        return r
    return g


class SoLoader:
    def __init__(self, proc, name, path):
        self.proc, self.name, self.path = proc, name, path

    def create_module(self, spec):
        with open(self.path, 'rb') as f:
            data = f.read()
        try:
            head, body = data.split(b'\n', 1)
            d = json.loads(head)
            if d['len'] != len(body) or hashlib.sha256(body).hexdigest() != d['sha'] or d['sim'] != 'f2py':
                raise ValueError
            info = json.loads(body)
        except Exception:
            raise ImportError('%s: file too short or invalid ELF header' % self.path, name=self.name, path=self.path) from None
        if info['module'] != self.name.rpartition('.')[2]:
            raise ImportError('dynamic module does not define module export function (PyInit_%s)' % self.name)
        so, err = f2pyemu.compile_fortran(info['text'], info['flags'])
        if so is None:
            raise ImportError('%s: %s' % (self.path, err))
        try:
            fns, lib = f2pyemu.load(so, info['text'])
        except f2pyemu.Unsupported as e:
            raise HarnessError('f2py: %s' % e)
        self.proc.libs.append(lib)
        res = self.proc.result
        res.sources[info['module']] = info['text']
        keep = self.proc.cfg.get('record_fortran')
        if keep:
            fns = {n: recording(f, res.fcalls.setdefault((info['module'], n), []), keep) for n, f in fns.items()}
        m = types.ModuleType(self.name)
        m.__dict__.update(fns)
        return m

    def exec_module(self, mod):
        pass


class HarnessError(BaseException):
    pass


class NullFinder:
    def find_spec(self, name, target=None):
        return None

    def invalidate_caches(self):
        pass


# ---------------------------------------------------------------- faked standard modules

class FakeTime:
    def __init__(self, proc):
        self.proc = proc

    def module(self):
        w = self.proc
        m = types.ModuleType('time')
        m.__dict__.update({k: v for k, v in real_time.__dict__.items() if not k.startswith('__')})

        def now():
            w.tick_wall()
            return w.wall
        m.time = now
        m.perf_counter = m.monotonic = m.process_time = m.clock = now
        m.time_ns = m.perf_counter_ns = m.monotonic_ns = lambda: int(now() * 1e9)
        m.sleep = w.sleep
        m.localtime = lambda s=None: real_time.gmtime(now() if s is None else s)
        m.gmtime = lambda s=None: real_time.gmtime(now() if s is None else s)
        m.ctime = lambda s=None: real_time.asctime(real_time.gmtime(now() if s is None else s))
        m.strftime = lambda f, t=None: real_time.strftime(f, real_time.gmtime(now()) if t is None else t)
        return m


def fake_datetime(proc):
    class dt(real_datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            proc.tick_wall()
            v = real_datetime.datetime.fromtimestamp(proc.wall, tz or real_datetime.timezone.utc)
            v = v if tz else v.replace(tzinfo=None)
            proc.result.stamps.append(str(v))
            return v

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()
    dt.__name__ = dt.__qualname__ = 'datetime'

    class date(real_datetime.date):
        @classmethod
        def today(cls):
            v = dt.now().date()
            proc.result.stamps.append(str(v))
            return v
    m = types.ModuleType('datetime')
    m.__dict__.update({k: v for k, v in real_datetime.__dict__.items() if not k.startswith('__')})
    m.datetime = dt
    m.date = date
    return m


_real_save = np.save


def ragged_save(file, arr, *a, **k):
    """numpy.save as it was before 1.24, which this code base needs: ragged lists become object arrays"""
    if isinstance(arr, list):
        try:
            arr = np.array(arr)
        except ValueError as e:
            if 'inhomogeneous' not in str(e):
                raise
            arr = np.array(arr, dtype=object)
    return _real_save(file, arr, *a, **k)


_stub_modules = None
_base_path = None


class Names:
    """Names of temporary files"""

    def __init__(self, pid):
        self.rng = random.Random('names/%d' % pid)

    def __iter__(self):
        return self

    def __next__(self):
        return ''.join(self.rng.choices('abcdefghijklmnopqrstuvwxyz0123456789_', k=8))


class Process:
    """cfg: set (settings of the front end), conc, fs (clock), faults, order, cpu, wall, solver (plan of the solver stub),
    compile_faults ({index: kind}), bad_smiles"""

    def __init__(self, world, cfg, pid):
        self.world, self.cfg, self.pid = world, cfg, pid
        self.result = Result()
        self.stats = self.result.stats
        self.libs = []
        self.wall = float(cfg.get('wall', 1.6e9))
        self.bad_smiles = set(cfg.get('bad_smiles', ()))
        self.nsim = 0
        self.cur = None
        self.ncompile = 0
        self.conc = None
        self.out = io.StringIO()

    def tick_wall(self):
        self.wall += 0.0137

    def sleep(self, s):
        self.wall += s
        self.world.disk.clock.sleep(s)

    # -- life cycle --
    def __enter__(self):
        global _stub_modules, _base_path
        disk = self.world.disk
        c = self.cfg.get('fs') or {}
        for d in ('tmp', 'home'):
            os.makedirs(os.path.join(self.world.base, d), exist_ok=True)
        disk.clock = simdisk.Clock(c.get('start', disk.clock.now + 10.0), c.get('gran', 1e-9), c.get('mode', 'run'))
        disk.token = simdisk.Token()
        disk.nop = 0
        disk.kinds = {}
        disk.full = False
        disk.bad = {}
        disk.unreadable = {}
        disk.fired = []
        disk.power = False
        disk.faults = [dict(f) for f in self.cfg.get('faults', ())]
        disk.order = self.cfg.get('order')
        disk.log = [] if self.cfg.get('log') else None
        disk.dir_mtime = {}
        if _stub_modules is None:
            _stub_modules = stubs.all_modules()
            _base_path = [p for p in sys.path if p]
        self.saved = {'path': list(sys.path), 'cwd': os.getcwd(), 'stdout': sys.stdout, 'unraisable': sys.unraisablehook,
                      'meta': list(sys.meta_path), 'main': sys.modules.get('__main__'), 'system': os.system,
                      'cpu': os.cpu_count, 'modules': set(sys.modules), 'displaced': {}, 'popen': subprocess.Popen,
                      'save': np.save, 'sub': {k: getattr(subprocess, k) for k in ('run', 'call', 'check_call', 'check_output')},
                      'argv': sys.argv, 'hooks': list(sys.path_hooks), 'err': np.geterr()}
        for n, m in _stub_modules.items():
            if n in sys.modules:
                self.saved['displaced'][n] = sys.modules[n]
            sys.modules[n] = m
        sys.path[:] = list(_base_path)
        self.finder = Finder(self)
        sys.meta_path.insert(0, self.finder)
        sys.path_hooks.insert(0, self.hook)
        sys.stdout = self.out
        sys.unraisablehook = lambda *a: None
        os.system = self.system
        os.cpu_count = lambda: self.cfg.get('cpu', 8)
        np.save = ragged_save
        subprocess.run = self.sub_run
        subprocess.call = lambda *a, **k: self.sub_run(*a, **k).returncode
        subprocess.check_call = lambda *a, **k: self.sub_run(*a, check=True, **k).returncode
        subprocess.check_output = lambda *a, **k: self.sub_run(*a, check=True, **k).stdout
        subprocess.Popen = self.no_popen
        self.warn = warnings.catch_warnings()
        self.warn.__enter__()
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        self.builtins = dict(builtins.__dict__)
        mp = types.ModuleType('multiprocessing')
        mp.cpu_count = lambda: self.cfg.get('cpu', 8)
        fakes = {'datetime': fake_datetime(self), 'time': FakeTime(self).module(), 'multiprocessing': mp}
        ti = types.ModuleType('timeit')
        ti.default_timer = fakes['time'].time
        fakes['timeit'] = ti
        real_import = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and name in fakes:
                return fakes[name]
            return real_import(name, globals, locals, fromlist, level)
        disk.install()
        self.builtins['__import__'] = imp
        self.builtins['open'] = disk.open
        # what a program finds outside its own folders
        self.saved['tempdir'] = tempfile.tempdir, tempfile._name_sequence
        self.saved['environ'] = {k: os.environ.get(k) for k in ('TMPDIR', 'HOME')}
        tempfile.tempdir = os.environ['TMPDIR'] = os.path.join(self.world.base, 'tmp')
        tempfile._name_sequence = Names(self.pid)
        os.environ['HOME'] = os.path.join(self.world.base, 'home')
        stubs.ctx.proc = self
        o = self.cfg.get('omp') or {}
        f2pyemu.omp_handle().sim_config(o.get('mode', 0), o.get('threads', 1), o.get('seed', 1), o.get('p', 30000))
        return self

    def __exit__(self, et, ev, tb):
        disk = self.world.disk
        if et is None and disk.token.dead and self.result.status != 'crash':
            self.result.status = 'crash'
        # the end of the process: what it still holds open is flushed now, unless it was killed
        tb = None
        for s in self.result.sims:
            s.detach()
        for n in list(sys.modules):
            m = sys.modules.get(n)
            f = getattr(m, '__file__', None)
            if isinstance(f, str) and f.startswith(self.world.base) and n not in self.saved['modules']:
                del sys.modules[n]
                try:
                    m.__dict__.clear()
                except Exception:
                    pass
        gc.collect()
        for f in [x for x in self.libs]:
            f2pyemu.unload(f)
        self.libs = []
        self.result.ops = disk.nop
        self.result.kinds = dict(disk.kinds)
        self.result.fired = list(disk.fired)
        self.result.log = disk.log
        if not disk.token.dead:
            pass
        disk.token.dead = True
        disk.uninstall()
        stubs.ctx.proc = None
        s = self.saved
        for n in _stub_modules:
            if n in s['displaced']:
                sys.modules[n] = s['displaced'][n]
            else:
                sys.modules.pop(n, None)
        sys.path[:] = s['path']
        sys.meta_path[:] = s['meta']
        sys.path_hooks[:] = s['hooks']
        for k in [k for k in sys.path_importer_cache if k.startswith(self.world.base)]:
            del sys.path_importer_cache[k]
        os.chdir(s['cwd'])
        sys.stdout = s['stdout']
        sys.unraisablehook = s['unraisable']
        sys.argv = s['argv']
        tempfile.tempdir, tempfile._name_sequence = s['tempdir']
        for k, v in s['environ'].items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        os.system = s['system']
        os.cpu_count = s['cpu']
        np.save = s['save']
        np.seterr(**s['err'])
        self.warn.__exit__(None, None, None)
        subprocess.Popen = s['popen']
        for k, v in s['sub'].items():
            setattr(subprocess, k, v)
        if s['main'] is not None:
            sys.modules['__main__'] = s['main']
        if disk.power and self.result.status == 'crash':
            self.result.lost = disk.power_loss(random.Random('power/%s' % (self.cfg.get('power_seed', 0),)))
        else:
            disk.sync()
        self.result.text = self.out.getvalue()[-4000:]
        return False

    def hook(self, path):
        # the normal import system sees nothing in the world
        if self.world.disk.inside(path):
            return NullFinder()
        raise ImportError

    # -- commands --
    def system(self, cmd):
        try:
            argv = shlex.split(cmd)
        except ValueError:
            return 256
        rc = self.f2py(argv)
        return -rc if rc < 0 else rc << 8

    def no_popen(self, *a, **k):
        raise HarnessError('Popen %r' % (a,))

    def sub_run(self, args, *a, check=False, **k):
        argv = shlex.split(args) if isinstance(args, str) else [str(x) for x in args]
        rc = self.f2py(argv)
        if check and rc:
            raise subprocess.CalledProcessError(rc, args)
        return subprocess.CompletedProcess(args, rc, '', '')

    def f2py(self, argv):
        disk = self.world.disk
        cmd = f2pyemu.command(argv)
        if cmd is None:
            raise HarnessError('command %r' % (argv,))
        name, src, flags = cmd
        i = self.ncompile
        self.ncompile += 1
        fault = (self.cfg.get('compile_faults') or {}).get(str(i))
        cwd = os.getcwd()
        target = os.path.join(cwd, name + EXT)
        disk.op('exec', target)
        disk.clock.sleep(4.0)
        self.wall += 4.0
        if fault in ('fail', 'killed'):
            disk.fired.append(('compile-fails', 'exec', os.path.relpath(target, disk.root), disk.nop))
            self.result.compiles.append((name, 'fail'))
            return -9 if fault == 'killed' else 1       # killed by a signal, e.g. for want of memory
        text = ''
        for s in src:
            try:
                with disk.open(os.path.join(cwd, s), 'rb') as f:
                    text += f.read().decode('utf-8', 'replace')
            except OSError:
                return 1
        so, err = f2pyemu.compile_fortran(text, flags)
        if so is None:
            self.result.compiles.append((name, 'error'))
            self.result.compile_error = err
            return 1
        try:
            f2pyemu.signatures(text)
        except f2pyemu.Unsupported as e:
            raise HarnessError('f2py: %s' % e)
        body = json.dumps({'module': name, 'text': text, 'flags': flags}).encode()
        head = json.dumps({'sim': 'f2py', 'len': len(body), 'sha': hashlib.sha256(body).hexdigest()}).encode() + b'\n'
        data = head + body
        if fault == 'fail-late':
            disk.fired.append(('compile-fails-late', 'exec', os.path.relpath(target, disk.root), disk.nop))
            self.result.compiles.append((name, 'fail'))
            return 1
        try:
            if os.path.exists(target):
                os.remove(target)
            with disk.open(target, 'wb', buffering=0) as f:
                half = len(data) // 2
                for part in (data[:half], data[half:]):
                    while part:
                        n = f.write(part)
                        part = part[n:]
        except OSError:
            self.result.compiles.append((name, 'fail'))
            return 1
        self.result.compiles.append((name, 'ok'))
        return 0

    # -- running code --
    def script(self, variant, sets=None, conc=None):
        """Run a front end script to its end in this process"""
        rel = FRONT[variant]
        path = self.world.path(rel)
        self.variant = variant
        self.conc = conc
        os.chdir(os.path.dirname(path))
        if sys.path[:1] != [os.path.dirname(path)]:
            sys.path.insert(0, os.path.dirname(path))
        sys.argv = [os.path.basename(path)]
        src = self.world.repo_hash[path]
        tree = ast.parse(src)
        ov = Overrider(sets or {})
        tree = ov.visit(tree)
        self.result.applied = ov.applied
        main = types.ModuleType('__main__')
        main.__dict__.update({'__builtins__': self.builtins, '__file__': path})
        self.result.exc = None
        try:
            sys.modules['__main__'] = main
            code = compile(tree, path, 'exec', dont_inherit=True)
            exec(code, main.__dict__)
            self.result.status = 'ok'
        except HarnessError:
            raise
        except SimCrash:
            self.result.status = 'crash'
        except SystemExit as e:
            self.result.status = 'ok' if not e.code else 'error'
            self.result.exc = repr(e)
        except Exception as e:
            self.result.status = 'error'
            self.result.exc = ('%s: %s' % (type(e).__name__, e)).replace(self.world.base + '/', '')
            t = e.__traceback__
            where = []
            while t is not None:
                fn = t.tb_frame.f_code.co_filename
                if '/PyBox/' in fn and fn.startswith(scratch_base() + '/w-'):
                    where.append('%s:%d' % (fn.split('/PyBox/', 1)[1], t.tb_lineno))
                t = t.tb_next
            self.result.tb = where[-4:]
            e.__traceback__ = None
            e.__context__ = None
            e.__cause__ = None
            del e, t
        finally:
            for k in list(main.__dict__):
                if k not in ('__builtins__', '__name__'):
                    v = main.__dict__.pop(k, None)
                    if k == 'species_dict2array':
                        self.result.ns_obs[k] = v
            main.__dict__.clear()
        if self.world.disk.token.dead:
            self.result.status = 'crash'
        return self.result

    def loaded(self, mod):
        """A module of the world has been executed: put the recorder around the entry of a simulation"""
        f = mod.__dict__.get('run_simulation')
        if isinstance(f, types.FunctionType) and not getattr(f, '__dst__', False) and f.__module__ == mod.__name__:
            mod.run_simulation = self.recorder(f)

    def recorder(self, f):
        sig = inspect.signature(f)

        def run_simulation(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            args = dict(b.arguments)
            inp = args.get('input_dict')
            if isinstance(inp, dict) and self.conc is not None and isinstance(inp.get('species_initial_conc'), dict):
                d = inp['species_initial_conc']
                keep = {n: d[n] for n in d if n == 'H2O'}
                d.clear()
                d.update(self.conc)
                d.update(keep)
                self.result.applied.add('conc')
            sim = solver.Sim(self, args)
            self.result.sims.append(sim)
            self.cur = sim
            try:
                r = f(*a, **k)
                sim.finished = True
                sim.set_return(r)
                return r
            finally:
                self.cur = None
        run_simulation.__dst__ = True
        return run_simulation

    # -- the solver --
    def solver_created(self, s):
        pass

    def simulate(self, s, tfinal):
        if self.cur is None:
            self.cur = solver.Sim(self, {})
            self.result.sims.append(self.cur)
        return self.cur.simulate(s, tfinal)

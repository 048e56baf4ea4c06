"""C22: results do not depend on hash seeds, directory order, core count or clock"""
import atexit
import hashlib
import io
import os
import pickle
import struct
import subprocess
import sys

import numpy as np

from .. import common, mech, runner, world

LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 4000}
RULE = ('The same run in two interpreters: one with hash seed 0, sorted listings, eight cores and a fixed clock, one with another hash '
        'seed, listing order, core count, wall clock and file system clock. Columns, generated code without its comments, saved '
        'dictionaries with their order, all answers to the solver and all results are compared bit by bit. Non-trivial if the hash seed '
        'differed, which it always does.')
MEASURE = 'distinct (model, hash seed, surroundings, mechanism features)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME
HASHES = [1, 2, 3, 7, 42, 4294967295]


def plan(i, seed, tier):
    r = mech.rng(seed, 'C22', i)
    v = ['gas', 'gas', 'f2py', 'gas', 'gas', 'aerosol', 'gas', 'yield'][i % 8]
    p = common.draw(r, v, (1, 2), nmax=12, calls=(2, 4))
    p['save'] = True
    p['env'] = {}
    k = i % 4
    p['hash'] = HASHES[k] if tier == 'quick' else HASHES[i % 6]
    p['other'] = {'order': r.choice([None, 'reverse', 5]), 'cpu': r.choice([1, 2, 3, 5, 16, 64]), 'wall': r.choice([1e6, 1.3e9, 1.9e9])}
    if p['other']['order'] is None:
        del p['other']['order']
    p['fs'] = common.fs(r)
    return p


def canon(x):
    """A value with the order of its dictionaries but not of its sets"""
    if isinstance(x, dict):
        return 'dict', [(canon(k), canon(v)) for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return 'set', sorted(repr(canon(v)) for v in x)
    if isinstance(x, (list, tuple)):
        return 'list', [canon(v) for v in x]
    if isinstance(x, np.ndarray):
        return ('array', [canon(v) for v in x.ravel()]) if x.dtype == object else ('array', str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bytes, bool, type(None))):
        return x
    return repr(x)


def strip(text, mark):
    out = []
    for l in text.splitlines():
        s = l.strip()
        if not s or s.startswith(mark) and not s.lower().startswith('!$omp'):
            continue
        out.append(l.rstrip())
    return '\n'.join(out)


def files(w, v):
    out = {}
    repo = {os.path.basename(p) for p in w.repo_hash if os.path.dirname(p) == os.path.dirname(w.path(world.FRONT[v]))}
    for n, data in w.listing(common.HOME[v] or '.').items():
        if n in repo or n.endswith(('.pyc', '.so', '.nbi', '.nbc')):
            continue
        try:
            if n.endswith('.pickle'):
                out[n] = canon(pickle.loads(data))
            elif n.endswith('.npy'):
                out[n] = canon(np.load(io.BytesIO(data), allow_pickle=True))
            elif n.endswith('.npz'):
                z = np.load(io.BytesIO(data), allow_pickle=True)
                out[n] = [(k, canon(z[k])) for k in sorted(z.files)]
            elif n.endswith('.py'):
                out[n] = strip(data.decode(), '#')
            elif n.endswith('.f90'):
                out[n] = strip(data.decode(), '!')
            else:
                out[n] = data
        except Exception as e:
            out[n] = 'unreadable: %s' % type(e).__name__
    return out


def capture(plan, env):
    """Run, and return everything that must not depend on the surroundings"""
    out = runner.Out()
    with world.World([plan['variant']]) as w:
        common.prepare(w, plan)
        res = common.launch(w, {**plan, 'env': env}, fs=plan.get('fs') if env else None)
        out.observe(res)
        d = {'status': res.status, 'exc': res.exc, 'tb': res.tb, 'compile_error': getattr(res, 'compile_error', None)}
        if res.status == 'ok' and res.sims:
            s = res.sim
            d['columns'] = canon(s.index)
            d['history'] = [(b.y0.tobytes(), [(c.kind, c.t, c.y.tobytes(), c.res.tobytes()) for c in b.calls]) for b in s.batches]
            d['returned'] = canon(s.returned)
            d['files'] = files(w, plan['variant'])
    return d, out


class Helper:
    """Another interpreter with its own hash seed"""
    all = {}

    def __init__(self, seed):
        e = dict(os.environ, PYTHONHASHSEED=str(seed), DST_SERVE='1')
        self.p = subprocess.Popen([sys.executable, '-c', 'from dst.props import c22; c22.serve()'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e, cwd=runner.HERE)

    @classmethod
    def get(cls, seed):
        k = (os.getpid(), seed)
        if k not in cls.all:
            cls.all[k] = cls(seed)
        return cls.all[k]

    def ask(self, plan):
        data = pickle.dumps(plan)
        self.p.stdin.write(struct.pack('<I', len(data)) + data)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            Helper.all.pop((os.getpid(), plan['hash']), None)
            return None
        return pickle.loads(self.p.stdout.read(struct.unpack('<I', h)[0]))


def serve():
    inp, outp = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
    runner.preload()
    while True:
        h = inp.read(4)
        if len(h) < 4:
            os._exit(0)
        plan = pickle.loads(inp.read(struct.unpack('<I', h)[0]))
        try:
            d, _ = capture(plan, plan['other'])
        except common.Invalid as e:
            d = {'invalid': str(e)}
        except (Exception, world.HarnessError) as e:
            d = {'error': '%s: %s' % (type(e).__name__, e)}
        data = pickle.dumps(d)
        outp.write(struct.pack('<I', len(data)) + data)
        outp.flush()


def run(plan, out):
    a, o = capture(plan, {})
    out.runs, out.sim_time = 2, o.sim_time * 2
    out.note(a.get('history'))
    if a['status'] != 'ok':
        out.fail('run-failed', 'the run ended %s: %s at %s %s' % (a['status'], a['exc'], a['tb'], a['compile_error'] or ''))
        return
    b = Helper.get(plan['hash']).ask(plan)
    if b is None:
        out.fail('died', 'the process with hash seed %s died' % plan['hash'])
        return
    if 'error' in b:
        raise world.HarnessError(b['error'])
    what = 'hash seed %s, %s' % (plan['hash'], plan['other'])
    if b['status'] != 'ok':
        out.fail('run-failed', 'with %s the run ended %s: %s at %s %s' % (what, b['status'], b['exc'], b['tb'], b['compile_error'] or ''))
        return
    for k in ('columns', 'history', 'returned'):
        if a[k] != b[k]:
            x, y = str(a[k]), str(b[k])
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
            out.fail('differs', '%s differ with %s: ...%s... and ...%s...' % (k, what, x[max(0, i - 30):i + 50], y[max(0, i - 30):i + 50]))
            return
    for n in sorted(set(a['files']) | set(b['files'])):
        x, y = a['files'].get(n), b['files'].get(n)
        if x != y:
            x, y = str(x), str(y)
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
            out.fail('differs', 'file %s differs with %s: ...%s... and ...%s...' % (n, what, x[max(0, i - 30):i + 50], y[max(0, i - 30):i + 50]))
            return
    out.probe('files_compared', len(a['files']))
    out.probe('answers_compared', sum(len(x[1]) for x in a['history']))
    out.nontrivial = True
    out.sig.add('%s %s %s %s' % (plan['variant'], plan['hash'], plan['other'], common.feats(plan['mech']) if 'mech' in plan else len(plan['yield'])))
    out.sample = {'variant': plan['variant'], 'hash seed': plan['hash'], 'other': plan['other'], 'files': sorted(a['files'])}

"""The seeded search: draws plans from (seed, property, number), runs each in a simulated world, minimises what fails and
writes the evidence.

  python -m dst check C01 [--tier quick|thorough]      exit 0 held, 1 violation, 2 error of the check
  python -m dst replay FILE                            exit 1 if the violation comes back exactly, 0 if not
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = sys.executable


class Invalid(Exception):
    """A plan that means nothing (made by the minimiser)"""


class Out:
    """What one simulated run showed"""

    def __init__(self):
        self.violations = []
        self.probes = {}
        self.faults = {}
        self.sim_time = 0.0
        self.sig = set()
        self.h = hashlib.sha256()
        self.sample = None
        self.trace = []
        self.nontrivial = False
        self.runs = 0
        self.stamps = []

    def fail(self, kind, what):
        if len(self.violations) < 5:
            self.violations.append({'kind': kind, 'what': str(what)[:1500]})

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + int(n)

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def note(self, *a):
        """Goes into the digest that a replay must reproduce"""
        for x in a:
            self.h.update(repr(x).encode() if not isinstance(x, (bytes, bytearray)) else bytes(x))
            self.h.update(b'|')

    def array(self, a):
        import numpy as np
        a = np.ascontiguousarray(np.asarray(a, dtype=float))
        self.h.update(repr(a.shape).encode() + a.tobytes())

    def observe(self, res, keep=True):
        """Account for a simulated process"""
        self.runs += 1
        for k in res.fired:
            self.fault(k[0])
        for k, n in res.stats.items():
            self.probe(k, n)
        self.note(res.status, res.exc, res.ops, sorted(res.kinds.items()), res.fired)
        for s in res.sims:
            self.sim_time += s.elapsed
            for b in s.batches:
                for c in b.calls:
                    self.array(c.res)
                if b.y_out is not None:
                    self.array(b.y_out)

    def pack(self):
        return {'violations': self.violations, 'probes': self.probes, 'faults': self.faults, 'sim_time': self.sim_time,
                'sig': sorted(self.sig), 'digest': self.h.hexdigest()[:32], 'sample': self.sample, 'trace': self.trace[:400],
                'nontrivial': self.nontrivial, 'runs': self.runs}


def load(pid):
    return importlib.import_module('dst.props.' + pid.lower())


def execute(mod, plan):
    from . import f2pyemu, world
    out = Out()
    try:
        mod.run(plan, out)
    except Invalid as e:
        return {'invalid': str(e)}
    except (Exception, world.HarnessError) as e:
        return {'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])}
    return out.pack()


# ---------------------------------------------------------------- workers

class Worker:
    """A forked process that runs plans one at a time; its death is an observation, not an accident"""

    def __init__(self, mod):
        a, b = os.pipe()
        c, d = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                nul = os.open('/dev/null', os.O_WRONLY)
                if not os.environ.get('DST_DEBUG'):
                    os.dup2(nul, 1)
                    os.dup2(nul, 2)
                r, w = os.fdopen(a, 'rb'), os.fdopen(d, 'wb')
                while True:
                    h = r.read(4)
                    if len(h) < 4 or h == b'\0\0\0\0':
                        break
                    plan = pickle.loads(r.read(struct.unpack('<I', h)[0]))
                    res = execute(mod, plan)
                    data = pickle.dumps(res)
                    w.write(struct.pack('<I', len(data)) + data)
                    w.flush()
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')
        self.job = None
        self.since = 0

    def send(self, job, plan):
        data = pickle.dumps(plan)
        self.job, self.since = job, time.time()
        try:
            self.w.write(struct.pack('<I', len(data)) + data)
            self.w.flush()
        except BrokenPipeError:
            pass

    def recv(self):
        """Result, or None if the process died"""
        h = self.r.read(4)
        if len(h) < 4:
            return None
        n = struct.unpack('<I', h)[0]
        data = self.r.read(n)
        return pickle.loads(data) if len(data) == n else None

    def close(self, kill=False):
        try:
            self.w.write(b'\0\0\0\0')
            self.w.close()
        except OSError:
            pass
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(self.pid, 0)
        self.r.close()
        return st


def died(st):
    sig = st & 127
    name = signal.Signals(sig).name if sig else 'exit %d' % (st >> 8)
    return {'violations': [{'kind': 'died', 'what': 'the process of the model died: ' + name}], 'probes': {}, 'faults': {}, 'sim_time': 0.0,
            'sig': [], 'digest': name, 'sample': None, 'trace': [], 'nontrivial': True, 'runs': 1}


HUNG = {'violations': [{'kind': 'hung', 'what': 'the run did not end'}], 'probes': {}, 'faults': {}, 'sim_time': 0.0, 'sig': [],
        'digest': 'hung', 'sample': None, 'trace': [], 'nontrivial': True, 'runs': 1}


def pool(mod, jobs, nworkers, limit, deadline, stop):
    """jobs: iterator of (key, plan). Yields (key, plan, result) in order of completion. stop(key) says that a job is no
    longer of interest."""
    ws = []
    plans = {}
    it = iter(jobs)
    done = False

    def feed(w):
        nonlocal done
        while not done:
            if time.time() > deadline:
                done = True
                return False
            try:
                k, p = next(it)
            except StopIteration:
                done = True
                return False
            if stop(k):
                continue
            plans[k] = p
            w.send(k, p)
            return True
        return False
    try:
        for _ in range(nworkers):
            w = Worker(mod)
            ws.append(w)
            if not feed(w):
                break
        while True:
            busy = [w for w in ws if w.job is not None]
            if not busy:
                return
            r, _, _ = select.select([w.r for w in busy], [], [], 1.0)
            for w in list(busy):
                if w.r in r:
                    res = w.recv()
                    k = w.job
                    w.job = None
                    if res is None:
                        res = died(w.close())
                        ws.remove(w)
                        w = Worker(mod)
                        ws.append(w)
                    feed(w)
                    yield k, plans.pop(k), res
                elif time.time() - w.since > limit:
                    k = w.job
                    w.close(kill=True)
                    ws.remove(w)
                    w = Worker(mod)
                    ws.append(w)
                    feed(w)
                    yield k, plans.pop(k), dict(HUNG)
    finally:
        for w in ws:
            w.close(kill=w.job is not None)


# ---------------------------------------------------------------- minimisation

LISTS = {'r', 'faults', 'steps', 'procs', 'drop', 'smiles', 'sched', 'lines', 'bad'}
SIMPLER = {'calls': 1, 'threads': 2}


def candidates(plan, path=()):
    """Smaller plans, the big steps first"""
    node = plan
    for p in path:
        node = node[p]

    def put(val):
        new = json.loads(json.dumps(plan))
        if not path:
            return val
        n = new
        for p in path[:-1]:
            n = n[p]
        n[path[-1]] = val
        return new
    if isinstance(node, dict):
        for k in sorted(node):
            v = node[k]
            if isinstance(v, list) and k in LISTS and v:
                size = len(v)
                n = size
                while n >= 1:
                    for i in range(0, size, n):
                        rest = v[:i] + v[i + n:]
                        yield put({**node, k: rest})
                    n //= 2
            elif k in ('set', 'conc', 'fs') and isinstance(v, dict):
                keep = {'simulation_time': 100.0, 'batch_step': 100.0} if k == 'set' else {}
                if v and v != keep and k != 'conc':
                    yield put({**node, k: keep})
                for kk in sorted(v):
                    if kk in keep or k == 'conc' and len(v) == 1:
                        # without concentrations the script starts from its own
                        continue
                    yield put({**node, k: {a: b for a, b in v.items() if a != kk}})
            elif isinstance(v, int) and not isinstance(v, bool) and k in SIMPLER and v > SIMPLER[k]:
                yield put({**node, k: SIMPLER[k]})
                yield put({**node, k: max(SIMPLER[k], v // 2)})
            elif k in ('neg', 'order', 'cpu', 'fail', 'compile_faults', 'bad_smiles', 'positive') and v:
                yield put({a: b for a, b in node.items() if a != k})
        for k in sorted(node):
            if isinstance(node[k], (dict, list)):
                yield from candidates(plan, path + (k,))
    elif isinstance(node, list):
        if path and path[-1] == 'r' and node and isinstance(node[0], list):
            # reactions: drop terms, simplify rates
            for i, x in enumerate(node):
                for side in (0, 1):
                    for j in range(len(x[side])):
                        if side == 1 or len(x[side]) > 1:
                            y = json.loads(json.dumps(x))
                            del y[side][j]
                            yield put(node[:i] + [y] + node[i + 1:])
                if x[2] != '1.0D-12':
                    yield put(node[:i] + [[x[0], x[1], '1.0D-12']] + node[i + 1:])
            return
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                yield from candidates(plan, path + (i,))


def minimise(mod, plan, kind, seconds):
    """Greedy: take the first smaller plan that fails in the same way, again and again"""
    end = time.time() + seconds
    tried = set()
    n = 0
    best = None
    ws = Worker(mod)

    def fails(p):
        nonlocal ws
        ws.send(0, p)
        while True:
            r, _, _ = select.select([ws.r], [], [], 60)
            if not r:
                ws.close(kill=True)
                ws = Worker(mod)
                res = dict(HUNG)
            else:
                res = ws.recv()
                if res is None:
                    res = died(ws.close())
                    ws = Worker(mod)
            return res if any(v['kind'] == kind for v in res.get('violations', ())) else None
    try:
        again = True
        while again and time.time() < end:
            again = False
            for c in candidates(plan):
                if time.time() > end:
                    break
                key = json.dumps(c, sort_keys=True)
                if key in tried:
                    continue
                tried.add(key)
                n += 1
                res = fails(c)
                if res:
                    plan, best, again = c, res, True
                    break
    finally:
        ws.close(kill=True)
    return plan, best, n


# ---------------------------------------------------------------- check

def known_findings(pid):
    """The committed list: 'finding: property=<id> kind=<kind> match=<text>; <what>' and 'fixed: ...' lines"""
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as f:
            for l in f:
                if l.startswith('finding: property=%s ' % pid):
                    kind = l.split('kind=', 1)[1].split()[0]
                    match = l.split('match=', 1)[1].split(';', 1)[0].strip()
                    out.append((kind, match, l.split(';', 1)[1].strip()))
    except FileNotFoundError:
        pass
    return out


def setup_run():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    d = os.path.join(base, 'dstrun-%08d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'cache'))
    os.environ['DST_RUN'] = d
    os.environ['DST_CACHE'] = os.path.join(d, 'cache')
    return d


def preload():
    import csv, pickle, shutil, xml.dom.minidom  # noqa
    import numpy, scipy.integrate, scipy.sparse, scipy.stats, pandas  # noqa
    from . import f2pyemu, world
    f2pyemu.ompsim()
    world.sources()


def check(pid, tier, seed, runs=None, workers=None, seconds=None):
    t0 = time.time()
    d = setup_run()
    try:
        preload()
        mod = load(pid)
        return _check(pid, mod, tier, seed, runs, workers, seconds, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _check(pid, mod, tier, seed, runs, workers, seconds, t0):
    nw = workers or min(8, os.cpu_count() or 1)
    total = runs or mod.RUNS[tier]
    cap = seconds or (getattr(mod, 'CAP', {}).get(tier) or (240 if tier == 'quick' else 1500))
    deadline = t0 + cap
    known = known_findings(pid)
    rechecks = min(4, total) if tier == 'quick' else min(40, total)

    def jobs():
        for i in range(total):
            yield (i, 0), mod.plan(i, seed, tier)
            if i and i % max(1, total // rechecks) == 0:
                yield (i, 1), mod.plan(i, seed, tier)
    first = None
    results = {}
    digests = {}
    errors = []
    hits = {}
    agg = {'probes': {}, 'faults': {}, 'sim_time': 0.0, 'runs': 0, 'invalid': 0}
    sigs = set()
    nontrivial_sigs = set()
    samples = []
    nruns = 0
    for k, plan, res in pool(mod, jobs(), nw, getattr(mod, 'LIMIT', 120), deadline, lambda k: first is not None and k[0] > first[0]):
        if 'error' in res:
            errors.append((k[0], res['error']))
            continue
        if 'invalid' in res:
            agg['invalid'] += 1
            continue
        digests.setdefault(k[0], []).append(res['digest'])
        if k[1] == 0:
            nruns += 1
            agg['runs'] += res['runs']
            agg['sim_time'] += res['sim_time']
            for a in ('probes', 'faults'):
                for n, v in res[a].items():
                    agg[a][n] = agg[a].get(n, 0) + v
            sigs.update(res['sig'])
            if res['nontrivial']:
                nontrivial_sigs.update(res['sig'])
            if res['sample'] is not None and len(samples) < 3:
                samples.append({'run': k[0], **({'case': res['sample']})})
        for v in res['violations']:
            kf = next((x for x in known if x[0] == v['kind'] and x[1] in v['what']), None)
            if kf:
                hits[kf] = hits.get(kf, 0) + 1
                continue
            if first is None or k[0] < first[0]:
                first = (k[0], plan, v, res)
    search_s = time.time() - t0
    same = sum(1 for x in digests.values() if len(x) == 2 and x[0] == x[1])
    twice = sum(1 for x in digests.values() if len(x) == 2)
    replay = None
    if first:
        i, plan, v, res = first
        small, best, tried = minimise(mod, plan, v['kind'], float(os.environ.get('DST_MINIMISE', 40 if tier == 'quick' else 180)))
        best = best or res
        v = next((x for x in best['violations'] if x['kind'] == v['kind']), v)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        replay = os.path.join(HERE, 'replays', '%s-%d-%d.json' % (pid, seed, i))
        with open(replay, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'run': i, 'violation': v, 'digest': best['digest'], 'plan': small,
                       'trace': best.get('trace'), 'first_plan': plan, 'minimiser_tried': tried}, f, indent=1)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': {
              'evaluations': nruns, 'distinct_nontrivial': len(nontrivial_sigs), 'rule': mod.RULE, 'samples': samples,
              'simulated_processes': agg['runs'], 'simulated_model_time_s': round(agg['sim_time'], 1),
              'runs_per_hour': int(nruns * 3600 / max(search_s, 1e-3)), 'seeds_per_hour': int(nruns * 3600 / max(search_s, 1e-3)),
              'faults_injected': dict(sorted(agg['faults'].items())), 'probes': dict(sorted(agg['probes'].items())),
              'distinct_measure': getattr(mod, 'MEASURE', ''), 'distinct_reached': len(sigs), 'discarded_plans': agg['invalid'],
              'runs_executed_twice': twice, 'of_these_identical': same,
              'planned_runs': total, 'real_components': mod.REAL, 'stub_components': mod.STUB},
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if first else 0, 'assumptions': mod.ASSUMPTIONS}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for kf, n in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[2]))
    print('%s %s: %d of %d runs, %d simulated processes, %d distinct, %.0f s simulated, faults %s, %.1f s' % (
        pid, tier, nruns, total, agg['runs'], len(nontrivial_sigs), agg['sim_time'], json.dumps(agg['faults']), time.time() - t0))
    if twice != same:
        print('note: %d of %d repeated runs differed' % (twice - same, twice))
    if first:
        print('run %d: %s: %s' % (first[0], v['kind'], v['what']))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if errors:
        print('ERROR of the check in %d runs; run %d: %s' % (len(errors), errors[0][0], errors[0][1]))
        return 2
    if nruns == 0:
        print('ERROR: nothing was run')
        return 2
    if twice != same and not getattr(mod, 'LOOSE', False):
        print('ERROR: the simulation is not deterministic')
        return 2
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    run = setup_run()
    try:
        preload()
        mod = load(d['property'])
        got = [r for _, _, r in pool(mod, [(0, d['plan'])], 1, 120, time.time() + 300, lambda k: False)]
        r = got[0]
        if 'error' in r:
            print('ERROR', r['error'])
            return 2
        vs = r.get('violations') or []
        for v in vs:
            print('%s: %s' % (v['kind'], v['what']))
        for t in r.get('trace') or []:
            print('  ', t)
        if any(v['kind'] == d['violation']['kind'] for v in vs):
            print('digest %s, %s' % (r['digest'], 'the same as recorded' if r['digest'] == d['digest'] else 'recorded ' + d['digest']))
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        print('the violation did not come back')
        return 0
    finally:
        shutil.rmtree(run, ignore_errors=True)


def setup():
    """Nothing is built beforehand; this only makes sure that what the checks need is there"""
    for d in ('evidence', 'replays'):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    for t in ('gcc', 'gfortran'):
        print(subprocess.run([t, '--version'], capture_output=True, text=True, check=True).stdout.splitlines()[0])
    import numpy
    import scipy
    print('numpy %s scipy %s' % (numpy.__version__, scipy.__version__))
    for f in sorted(os.listdir(os.path.join(HERE, 'dst', 'props'))):
        if f[0] == 'c' and f.endswith('.py'):
            load(f[:-3].upper())
    return 0


def main(argv=None):
    # one hash seed for every process of a search; threads of numerical libraries off
    want = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'TZ': 'UTC',
            'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, '-m', 'dst'] + (argv or sys.argv[1:]))
    ap = argparse.ArgumentParser(prog='dst')
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('property')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    c.add_argument('--runs', type=int)
    c.add_argument('--workers', type=int)
    c.add_argument('--seconds', type=float)
    r = sub.add_parser('replay')
    r.add_argument('file')
    sub.add_parser('setup')
    o = sub.add_parser('one')
    o.add_argument('property')
    o.add_argument('run', type=int)
    o.add_argument('--seed', type=int, default=1)
    a = ap.parse_args(argv)
    if a.cmd == 'check':
        return check(a.property, a.tier, a.seed, a.runs, a.workers, a.seconds)
    if a.cmd == 'replay':
        return replay(a.file)
    if a.cmd == 'setup':
        return setup()
    d = setup_run()
    try:
        preload()
        mod = load(a.property)
        p = mod.plan(a.run, a.seed, 'quick')
        print(json.dumps(p))
        t = time.time()
        r = execute(mod, p)
        print(r.get('error') or json.dumps(r, indent=1, default=str), time.time() - t)
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

"""C26: models that run at the same time in different folders do not influence each other"""
import os

from . import c25
from .. import common, mech, particles, together, world
from ..runner import Invalid, Out

LEVEL = 'exploration'
RUNS = {'quick': 330, 'thorough': 4000}
RULE = ('Two to four processes run at the same time on one disk, in different folders: the models of one checkout, which share its mechanism '
        'and structure files, and those of a second copy of PyBox with another mechanism, with common temporary and home directories. A '
        'schedule switches between them before disk operations, some near operations on files written outside the own folders; one of them may be killed or struck by a disk error. Every other one is '
        'compared bit by bit, in what it exchanged with the solver and in all saved files, with the same run alone. Non-trivial if the '
        'processes overlapped.')
MEASURE = 'distinct (models, switches that took place)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME + [
    'A switch happens at disk operations only; what else processes could share (ports, shared memory) PyBox does not use']
COPIES = ['PyBox', 'PyBox2']


def plan(i, seed, tier):
    r = mech.rng(seed, 'C26', i)
    kinds = [['gas', 'f2py'], ['gas', 'gas2'], ['f2py', 'f2py2'], ['gas', 'yield'], ['gas', 'aerosol'], ['f2py', 'gas2'], ['gas', 'gas2', 'f2py'],
             ['aerosol', 'f2py'], ['gas', 'gas2'], ['yield', 'yield2'], ['aerosol', 'aerosol2'], ['gas', 'f2py', 'aerosol', 'yield'],
             ['gas', 'gas2', 'f2py', 'f2py2'], ['f2py', 'f2py2'], ['f2py', 'aerosol2'], ['gas', 'gas2']][i % 16]
    procs = []
    base = {}
    for k in sorted(kinds):
        v, c = (k[:-1], 1) if k.endswith('2') else (k, 0)
        p = common.draw(r, v, (1, 2), nmax=6, calls=(2, 3))
        if v in common.PARTICLES:
            p = particles.settle(r, p, .5)
        if v != 'yield':
            if c in base:
                p = common.with_mech(p, base[c], r)
            elif c and base.get(0) and r.random() < .7:
                p = common.with_mech(p, common.variation(r, base[0]), r)
            base.setdefault(c, p['mech'])
        p['copy'] = c
        procs.append(p)
    r.shuffle(procs)
    sched = []
    style = r.random()
    n = len(procs)
    direct = []
    if style < .5:
        # some stop near an operation on what could be shared, if there is one, the others run to their ends
        a = r.sample(range(n), r.choice([1, 1, 2]))
        direct = [[k, round(r.random(), 5), r.choice([0, 0, 1, 1, 2])] for k in a]
    elif style < .65:
        # one stops somewhere
        a = r.randrange(n)
        sched = [[a, r.randint(1, 60 if r.random() < .5 else 400)]] + [[b, 100000] for b in range(n) if b != a]
    else:
        hi = r.choice([3, 20, 100])
        for _ in range(r.randint(6, 60)):
            sched.append([r.randrange(n), r.randint(1, hi)])
    p = {'procs': procs, 'sched': sched, 'direct': direct}
    if r.random() < .3:
        procs[r.randrange(n)]['faults'] = [{'at': r.randint(1, 300), 'kind': r.choice(['crash', 'crash', 'eio', 'enospc'])}]
    return p


def fitting(procs):
    """The models of one copy of PyBox read the same mechanism and structures"""
    first = {}
    out = []
    for p in procs:
        if p['variant'] != 'yield':
            q = first.setdefault(p['copy'], p)
            p = {**p, 'mech': q['mech']}
        out.append(p)
    if len({(p['copy'], p['variant']) for p in out}) < len(out):
        raise Invalid('two in one folder')
    return out


def points(plan, procs, cleans):
    """The schedule that stops processes at drawn operations on files outside their own folders that are written by them"""
    out = []
    for k, pos, off in plan.get('direct') or ():
        if k >= len(procs):
            continue
        res = cleans[k].res
        own = os.path.normpath(os.path.join('PyBox', c25.OWN[procs[k]['variant']]))
        ns = [n for n, kind, path in res.log if os.path.dirname(path) != own and '__pycache__' not in path]
        written = {path for n, kind, path in res.log if kind not in ('open', 'read', 'list')}
        near = [n for n, kind, path in res.log if n in set(ns) and path in written]
        if near:
            out.append([k, near[int(pos * len(near))] + off])
        else:
            out.append([k, 1 + int(pos * res.ops)])
    if out:
        out += [[b, 100000] for b in range(len(procs)) if b not in [k for k, n in out]]
    return out


def run(plan, out):
    procs = fitting(plan['procs'])
    cleans = []
    for p in procs:
        c = common.Clean({k: x for k, x in p.items() if k != 'faults'}, out)
        if not c.ok:
            return
        cleans.append(c)
    with world.World(['gas']) as w:
        copies = [w, w.sibling(COPIES[1])]
        for p in procs:
            common.prepare(copies[p['copy']], p)

        def job(k):
            p, c, x = procs[k], cleans[k], copies[procs[k]['copy']]

            def go():
                o = Out()
                res = common.launch(x, p, faults=p.get('faults') or [])
                w.disk.gate = None
                o.observe(res)
                hit = bool(res.fired)
                what = 'the %s model of %s, run together with %s' % (p['variant'], COPIES[p['copy']], ', '.join(
                    'the %s model of %s' % (q['variant'], COPIES[q['copy']]) for q in procs if q is not p))
                if not hit:
                    if common.check_run(res, o, what):
                        c.match(o, x, res, what + ', against the same run alone', 'influenced')
                return {**o.pack(), 'hit': hit}
            return go
        results, trace = together.run(w.disk, [job(k) for k in range(len(procs))], points(plan, procs, cleans) + plan['sched'])
        if all(x and 'error' not in x and not x['violations'] for x in results):
            # what one saved is still there after the others have ended
            for p, c, x in zip(procs, cleans, results):
                if not x['hit']:
                    c.match_files(out, common.saved(copies[p['copy']], p['variant']), 'the %s model of %s, after all had ended' % (
                        p['variant'], COPIES[p['copy']]), 'influenced')
    names = [p['variant'] + str(p['copy']) for p in procs]
    out.trace = ['%s: %d operations' % (names[k], n) for k, n in trace]
    for k, x in enumerate(results):
        if x is None:
            out.fail('died', 'the process of the %s model died' % names[k])
            continue
        if 'error' in x:
            raise RuntimeError(x['error'])
        out.violations += x['violations']
        out.runs += x['runs']
        out.sim_time += x['sim_time']
        out.note(x['digest'])
        for n, v in x['probes'].items():
            out.probe(n, v)
        for n, v in x['faults'].items():
            out.fault(n, v)
    out.note(trace)
    out.probe('switches', len(trace))
    out.nontrivial = len(trace) > len(procs)
    out.sig.add(' '.join(names) + ' ' + ' '.join('%d:%d' % tuple(t) for t in trace[:12]))
    out.sample = {'models': names, 'switches': len(trace)}

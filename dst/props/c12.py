"""C12: a killed run is fully repaired by the next parsing run"""
from .. import common, mech, world

LEVEL = 'fault_enumeration'
RUNS = {'quick': 500, 'thorough': 7000}
RULE = ('A run is killed at a drawn disk operation (the positions of consecutive seeds cover the run evenly), or the machine loses power '
        'there and data since the start of that process is kept, lost, cut short or zeroed file by file; up to three times, after an '
        'optional complete earlier run of this or another mechanism, with drawn file system clocks. The next parsing run must end '
        'normally and match the same run in a clean folder bit by bit. Non-trivial if a run was really killed.')
MEASURE = 'distinct (model, operations and files at which runs died)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME + [
    'A killed process leaves what it had written; after a power loss every file changed by that process may be kept, as before, cut '
    'short, zeroed or empty, each on its own; renames and removals may be undone in the same way']


def plan(i, seed, tier):
    r = mech.rng(seed, 'C12', i)
    v = ['gas', 'gas', 'f2py', 'gas', 'gas', 'aerosol', 'gas', 'gas', 'f2py', 'yield'][i % 10]
    last = common.draw(r, v, (1, 2), nmax=6, calls=(2, 4))
    steps = []
    f = common.fs(r)
    if r.random() < .5:
        s = common.with_mech(last, common.variation(r, last['mech']) if v != 'yield' else None, r)
        s.update(fs=f, faults=[])
        steps.append(s)
    for k in range(r.choice([1, 1, 2, 3]) if v in ('gas', 'f2py') else 1):
        if r.random() < .5:
            s = {**last, 'solver': dict(last['solver'])}
        else:
            s = common.with_mech(last, common.variation(r, last['mech']) if v != 'yield' else None, r)
        s['fs'] = f if r.random() < .6 else common.fs(r)
        pos = ((i // 10) * 0.6180339887 + (i % 10) * .1 + k * .37) % 1.0
        s['faults'] = [{'pos': round(pos, 5), 'kind': r.choice(['crash', 'power', 'power']), 'frac': r.choice([0, .3, .5, 1.0]),
                        'pick': r.choice([None, None, 'first', 'last', 'middle'])}]
        s['power_seed'] = r.getrandbits(20)
        steps.append(s)
    last['fs'] = f if r.random() < .7 else common.fs(r)
    return {'variant': v, 'steps': steps, 'last': last}


def run(plan, out):
    v = plan['variant']
    last = plan['last']
    clean = common.Clean(last, out)
    if not clean.ok:
        return
    died = []
    with world.World([v]) as w:
        for s in plan['steps']:
            common.prepare(w, s)
            faults = [common.fault_at(f, clean.res) for f in s['faults']]
            res = common.launch(w, s, faults=faults, fs=s.get('fs'), power_seed=s.get('power_seed', 0))
            out.observe(res)
            if res.status == 'crash':
                x = res.fired[-1]
                died.append('%s %s %s' % (x[0], x[1], x[2].replace('PyBox/', '')))
                out.probe('files_damaged_by_power_loss', len(getattr(res, 'lost', ()) or ()))
            elif not s['faults'] or not res.fired:
                if res.status != 'ok':
                    out.fail('run-failed', 'a run ended %s: %s at %s' % (res.status, res.exc, res.tb))
                    return
        common.prepare(w, last)
        res = common.launch(w, last, fs=last.get('fs'))
        out.observe(res)
        out.trace = died
        if not common.check_run(res, out, 'the run after one that died at %s' % died):
            return
        if not clean.match(out, w, res, 'the run after one that died at %s against a clean folder' % died, 'not-repaired'):
            return
    out.nontrivial = bool(died)
    out.sig.add(v + ' ' + '; '.join(died))
    out.sample = {'variant': v, 'died at': died}

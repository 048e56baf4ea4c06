"""C25: a run touches nothing but its own model's folder"""
import os

from .. import common, mech, simdisk, world

LEVEL = 'fault_enumeration'
RUNS = {'quick': 700, 'thorough': 8000}
RULE = ('A folder tree with files of its user in every folder (notes, data, saved results of earlier runs kept in subfolders), results and '
        'generated files of all other models, other mechanisms and structures; then one or two runs of a model that end normally, are struck '
        'by a disk, compiler or solver failure, are killed, or lose power at a drawn disk operation (positions of consecutive seeds cover the '
        'run evenly). After each run every file is compared byte by byte with what it was before. Non-trivial if a run changed files of its '
        'own folder or was struck.')
MEASURE = 'distinct (model, how runs ended, operation and file struck)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME + [
    'Files in temporary and home directories are left out; a power loss damages only files changed since the process began']
OWN = {'gas': '', 'f2py': 'f2py', 'aerosol': 'Aerosol/f2py', 'yield': 'Aerosol/f2py/Fixed_yield'}
# endings of what a model generates, and so may delete or write over, in its own folder
GENERATED = ('.npy', '.npz', '.pickle', '.f90', '.eqn.txt', '.so', '.pyc', '.mod', '.o')
USER = ['notes.txt', 'observations.csv', 'measured_output.csv', 'plot.png', 'analysis.ipynb', 'campaign.nc', 'my_script.py', 'run.sh', 'README', 'settings.json',
        'campaign.xlsx', 'table.dat', 'run.log', 'old.zip', 'species.xml', 'MCM_APINENE.txt', 'MCM_APINENE_notes.md', 'MCM_yield_2.txt', 'paper.pdf', 'sizes.h5',
        'MCM_APINENE.kpp', 'backup.tar', 'job.sh', 'MCM_APINENE_output.xls', '.hidden', 'core', 'analysis.m', 'figure.eps', 'chem.def', 'slides.pptx']
KEPT = ['MCM_APINENE_y_output.npy', 'MCM_APINENE_output.npy', 'MCM_APINENE_equations.pickle', 'MCM_APINENE.eqn.txt', 'rate_coefficients.f90', 'loss_gain_A.npz',
        'Rate_coefficients_numba.py', 'MCM_yield_SOA_output.csv', 'notes.txt', '__pycache__/Rate_coefficients_numba.cpython-312.pyc', 'data.csv', 'MCM_APINENE_output_matrix.csv']
FOREIGN = ['MCM_APINENE_output.npy', 'MCM_APINENE_y_output.npy', 'MCM_APINENE_species_dict2array.pickle', 'MCM_APINENE.eqn.txt', 'rate_coefficients.f90',
           'Loss_Gain.f90', 'MCM_APINENE_loss_gain.npz', 'partition_f2py' + world.EXT, 'MCM_APINENEinclude_index.pickle', 'MCM_APINENE_output_names.csv',
           'Rate_coefficients_numba.py', 'MCM_yield_y_output.pickle', '__pycache__/Rate_coefficients_numba.cpython-312.pyc']
FAULTS = ['crash', 'crash', 'power', 'power', 'eio', 'enospc', 'eacces', 'emfile', 'closeerr']


def plan(i, seed, tier):
    r = mech.rng(seed, 'C25', i)
    v = ['gas', 'f2py', 'gas', 'aerosol', 'gas', 'f2py', 'gas', 'yield', 'f2py', 'gas'][i % 10]
    last = common.draw(r, v, (1, 2), nmax=6, calls=(2, 4))
    p = {'variant': v, 'last': last, 'user': [r.sample(USER, r.randint(3, 9)) for _ in range(6)], 'kept': r.sample(KEPT, r.randint(3, 8)),
         'foreign': r.sample(FOREIGN, r.randint(4, 9)), 'again': int(v != 'yield' and r.random() < .35)}
    last['fs'] = common.fs(r)
    k = r.random()
    if k < .72:
        kind = r.choice(FAULTS)
        f = {'pos': round(((i // 10) * 0.6180339887 + (i % 10) * .1) % 1.0, 5), 'kind': kind, 'frac': r.choice([0, .3, .5, 1.0]),
             'pick': r.choice([None, None, 'first', 'last', 'middle'])}
        if kind not in ('crash', 'power') and r.random() < .5:
            f['not'] = ['open', 'read', 'list']
        p['faults'] = [f]
        p['power_seed'] = r.getrandbits(20)
    elif k < .78 and v != 'gas':
        p['compile'] = [r.randrange({'f2py': 4, 'aerosol': 4, 'yield': 1}[v]), r.choice(['fail', 'fail-late', 'killed'])]
    elif k < .84:
        p['fail'] = {'batch': 0, 'call': r.choice([0, 1, 99])}
    return p


def user_files(w, p):
    """Puts files of the user and of other models into the tree"""
    own = OWN[p['variant']]
    taken = set(world.sources())
    dirs = ['', 'f2py', 'Aerosol', 'Aerosol/f2py', 'Aerosol/f2py/Fixed_yield', 'mechanism_files']

    def put(rel):
        rel = os.path.normpath(rel)
        if rel not in taken and not os.path.exists(w.path(rel)):
            w.put(rel, 'contents of %s\n' % rel)
    for d, names in zip(dirs, p['user']):
        for n in names:
            put(os.path.join(d, n))
    for d in (os.path.join(own, 'results'), os.path.join(own, 'results/2019'), '../elsewhere', 'mechanism_files/old'):
        for n in p['kept']:
            put(os.path.join(d, n))
    for d in dirs:
        if d != own:
            for n in p['foreign']:
                # the gas model's generated files may well be in the root of a checkout that runs other models
                put(os.path.join(d, n))


def snapshot(w):
    out = {}
    skip = {os.path.join(w.base, 'tmp'), os.path.join(w.base, 'home')}
    todo = [w.base]
    while todo:
        d = todo.pop()
        for n in simdisk.real['listdir'](d):
            q = os.path.join(d, n)
            if os.path.islink(q):
                out[os.path.relpath(q, w.root)] = os.readlink(q).encode()
            elif os.path.isdir(q):
                if q not in skip:
                    todo.append(q)
            else:
                with simdisk.real_open(q, 'rb') as f:
                    out[os.path.relpath(q, w.root)] = f.read()
    return out


def free(rel, own, before):
    """May this file be made, changed or removed by a run of the model of this folder?"""
    d, n = os.path.split(rel)
    if '__pycache__' in d.split('/'):
        # byte code of any folder's modules may be written; what other folders have there belongs to them
        return d == os.path.join(own, '__pycache__') or not before
    if d != own:
        return False
    if not before:
        return True         # it is the model's folder
    return n.endswith(GENERATED) or n.endswith('_numba.py') or n.startswith(('MCM_APINENE_output', 'MCM_yield_')) and n.endswith('.csv')


def compare(w, p, before, out, what, mine):
    own = OWN[p['variant']]
    after = snapshot(w)
    for f in sorted(set(before) | set(after)):
        a, b = before.get(f), after.get(f)
        if a == b:
            continue
        if a is None and os.path.dirname(f) == own:
            mine.add(f)
        if not free(f, own, a is not None and f not in mine):
            out.fail('not-contained', '%s %s %s' % (what, 'made' if a is None else 'removed' if b is None else 'changed', f))
            return False
    return True


def run(plan, out):
    v = plan['variant']
    last = plan['last']
    like = None
    ended = []
    struck = []
    mine = set()               # files that earlier runs of the model made
    with world.World([v]) as w0:
        common.prepare(w0, last)
        like = common.launch(w0, last, log=True)
        out.observe(like)
        if not common.check_run(like, out, 'the run in a clean folder'):
            return
    with world.World([v]) as w:
        common.prepare(w, last)
        user_files(w, plan)
        runs = [{}] * plan['again'] + [{'it': 1}]
        for k, x in enumerate(runs):
            more = {}
            if x:
                if plan.get('faults'):
                    more['faults'] = [common.fault_at(f, like) for f in plan['faults']]
                    more['power_seed'] = plan.get('power_seed', 0)
                if plan.get('compile'):
                    more['compile_faults'] = {str(plan['compile'][0]): plan['compile'][1]}
                if plan.get('fail'):
                    more['solver'] = {**last['solver'], 'fail': plan['fail']}
            before = snapshot(w)
            res = common.launch(w, last, fs=last.get('fs'), **more)
            out.observe(res)
            hit = ['%s %s %s' % (y[0], y[1], y[2].replace('PyBox/', '')) for y in res.fired]
            struck += hit
            ended.append(res.status)
            what = 'a run of the %s model that ended %s%s' % (v, res.status, ' (%s)' % hit[0] if hit else '')
            if res.status == 'error' and not hit and not plan.get('fail'):
                out.fail('run-failed', '%s: %s at %s' % (what, res.exc, res.tb))
                return
            if not compare(w, plan, before, out, what, mine):
                return
            changed = len([f for f, b in snapshot(w).items() if before.get(f) != b])
            out.probe('files_compared', len(before))
            out.probe('own_files_changed', changed)
            out.nontrivial = out.nontrivial or bool(changed or hit)
    out.trace = struck
    out.sig.add(v + ' ' + ' '.join(ended) + ' ' + '; '.join(struck[:2]))
    out.sample = {'variant': v, 'struck': struck, 'ended': ended}

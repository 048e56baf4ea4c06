"""C24: saved sparse matrices and index files describe the parsed mechanism"""
import io
import pickle

import numpy as np

from .. import common, mech, world

LEVEL = 'exploration'
RUNS = {'quick': 560, 'thorough': 7000}
RULE = ('One to three processes parse mechanisms in the same folder (variations of one mechanism or unrelated ones), some killed at a drawn '
        'disk operation, some resuming. After every one that ends normally the stored matrices, indices and dictionaries are read from '
        'the simulated disk and compared with the structure of its mechanism, with each other and, at every solver call, with the '
        'generated code. Non-trivial if the mechanism has a stoichiometry other than one, a species twice or an earlier run.')
MEASURE = 'distinct (model, mechanism features, sequence of runs)'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


def plan(i, seed, tier):
    r = mech.rng(seed, 'C24', i)
    v = ['gas', 'gas', 'gas', 'f2py', 'gas', 'gas', 'aerosol', 'gas'][i % 8]
    base = common.draw(r, v, (1, 2), nmax=9, calls=(2, 4))
    steps = []
    for k in range(r.choice([1, 1, 2, 3])):
        s = base
        if k and r.random() < .7:
            m = common.variation(r, base['mech']) if r.random() < .5 else mech.generate(r, None, nmax=9, aerosol=v == 'aerosol')
            s = common.with_mech(base, m, r)
        elif k and r.random() < .3:
            s = {**base, 'resume': 1}
        s = {**s, 'fs': common.fs(r)}
        if r.random() < .2 and not s.get('resume'):
            s['crash'] = [r.choice(['crash', 'power']), round(r.random(), 4)]
        steps.append(s)
    steps[-1].pop('crash', None)
    return {'variant': v, 'steps': steps}


def load(w, out, rel, f):
    data = w.read(rel)
    if data is None:
        out.fail('missing', '%s was not saved' % rel)
        return None
    try:
        return f(data)
    except Exception as e:
        out.fail('unreadable', '%s cannot be read: %s: %s' % (rel, type(e).__name__, e))
        return None


def csr(data):
    from scipy.sparse import csr_matrix
    with np.load(io.BytesIO(data), allow_pickle=False) as z:
        return csr_matrix((z['data'], z['indices'], z['indptr']), shape=tuple(int(x) for x in z['shape'])).toarray()


def npy(data):
    return np.load(io.BytesIO(data), allow_pickle=True)


def check_files(w, out, plan, res, label):
    v = plan['variant']
    h = common.HOME[v]
    F = common.DEFAULT_NAME
    m = plan['mech']
    names = mech.species(m)
    d2a = load(w, out, h + F + '_species_dict2array.pickle', pickle.loads)
    sd = load(w, out, h + F + '_species_dict.pickle', pickle.loads)
    eq = load(w, out, h + F + '_equations.pickle', pickle.loads)
    ro2 = load(w, out, h + F + '_RO2_indices.npy', npy)
    if out.violations:
        return None
    n = len(names)
    got = {k: int(x) for k, x in d2a.items() if k in names or v == 'gas'}
    if set(got) != set(names) or sorted(got.values()) != list(range(n)):
        out.fail('species', '%sthe saved table of columns is %s for the species %s' % (label, d2a, names))
        return None
    # numbered names: the number of a species is its column
    inv = {int(k): x for k, x in sd.items()}
    if any(inv.get(c) != s for s, c in got.items()) or (v == 'gas' and len(inv) != n):
        out.fail('species', '%sthe saved table of species is %s, that of columns %s' % (label, sd, d2a))
        return None
    if int(eq) != len(m['r']):
        out.fail('equations', '%sthe saved number of equations is %r for %d reactions' % (label, eq, len(m['r'])))
        return None
    if res is not None and res.sim is not None:
        ix = common.find_index(res.sim, names)
        if ix is None or any(ix[s] != got[s] for s in names):
            out.fail('species', '%sthe saved table of columns is %s, the run used %s' % (label, d2a, ix))
            return None
    from .. import refmodel
    model = refmodel.Model(m, got)
    ro2 = np.asarray(ro2)
    if ro2.dtype.kind not in 'iu' or sorted(ro2.tolist()) != model.ro2.tolist():
        out.fail('ro2', '%sthe saved RO2 indices are %s %s, the peroxy radicals are in columns %s' % (label, ro2.dtype, ro2.tolist(), model.ro2.tolist()))
        return None
    # reactants of each reaction
    ri = load(w, out, h + F + '_reactant_indices.npy', npy)
    rs = load(w, out, h + F + '_reactants_stoich_indices.npy', npy)
    if ri is None or rs is None:
        return None
    if len(ri) != model.nr or len(rs) != model.nr:
        out.fail('indices', '%sindices for %d and %d reactions of %d' % (label, len(ri), len(rs), model.nr))
        return None
    files = 6
    for i in range(model.nr):
        e = np.zeros(n)
        for a, b in zip(ri[i], rs[i]):
            e[int(a)] += float(b)
        if not np.allclose(e, model.E[i], rtol=1e-12, atol=0):
            out.fail('indices', '%sreaction %d has reactants %s with stoichiometry %s stored, it is %s' % (
                label, i + 1, list(ri[i]), list(rs[i]), {s: model.E[i, got[s]] for s in names if model.E[i, got[s]]}))
            return None
    if v == 'gas':
        S = load(w, out, h + 'loss_gain_' + F + '.npz', csr)
        E = load(w, out, h + 'reactants_indices_sparse_' + F + '.npz', csr)
        if S is None or E is None:
            return None
        files += 2
        cols = common.names_by_column(got, n)
        for what, A, B in (('loss-gain matrix', S, model.S), ('reactant matrix', E.T, model.E.T)):
            if A.shape != B.shape:
                out.fail('matrix', '%s%s has shape %s, expected %s' % (label, what, A.shape, B.shape))
                return None
            bad = ~(np.abs(A - B) <= 1e-12 * (1 + np.abs(B)))
            if bad.any():
                j, i = np.argwhere(bad)[0]
                out.fail('matrix', '%s%s has %r for %s in reaction %d, expected %r' % (label, what, A[j, i], cols[j], i + 1, B[j, i]))
                return None
    out.probe('files_compared', files)
    return model


def run(plan, out):
    v = plan['variant']
    sig = []
    last = None
    ops = 60
    with world.World([v]) as w:
        for k, s in enumerate(plan['steps']):
            if s.get('resume'):
                if last is None:
                    raise common.Invalid('nothing to resume')
                s = {**s, 'mech': last['mech'], 'smiles': last.get('smiles'), 'conc': {}}
                if v == 'aerosol':
                    # bins, cut-off and structures are in the generated code
                    s['set'] = last['set']
                    s['solver'] = {**s['solver'], **{a: last['solver'][a] for a in ('ng', 'nb') if a in last['solver']}}
            common.prepare(w, s)
            faults = [{'at': 1 + int(s['crash'][1] * ops), 'kind': s['crash'][0], 'frac': .5}] if s.get('crash') else []
            res = common.launch(w, s, set={'files_exist': True} if s.get('resume') else {}, faults=faults, fs=s.get('fs'))
            out.observe(res)
            if res.status == 'crash':
                sig.append('crash')
                last = None
                continue
            ops = res.ops
            label = 'run %d: ' % k
            if not common.check_run(res, out, 'run %d' % k):
                return
            if check_files(w, out, s, res, label) is None:
                return
            ref = common.Gas(s['mech'], res, res.sim, s['set'], out)
            if v != 'aerosol':
                if not ref.ok or not common.check_calls(out, res.sim, ref):
                    return
                if out.violations:
                    return
            last = s
            sig.append(('resume ' if s.get('resume') else 'parse ') + common.feats(s['mech']))
    out.nontrivial = len(sig) > 1 or any(x in sig[0] for x in ('prefix', 'dup', 'both'))
    out.sig.add(v + ' ' + ' | '.join(sig))
    out.sample = {'variant': v, 'runs': sig}

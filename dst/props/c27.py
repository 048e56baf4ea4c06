"""C27: the figures a run shows are those of its recorded results"""
import re

import numpy as np

from .. import common, mech, particles, partref, world

LEVEL = 'exploration'
RUNS = {'quick': 420, 'thorough': 5000}
RULE = ('Runs of all four models with a plotting library that records what is drawn: every curve and bar is compared with the states accepted at '
        'the ends of the batches. In part of the runs the library fails at a drawn call (no display); everything saved must then be what the run saves '
        'with a display. Non-trivial if a figure was compared or the display failed.')
MEASURE = 'distinct (model, batches, what was drawn, call of the library that failed, solver history)'
REAL, STUB, ASSUMPTIONS = common.REAL + ['Plotting.py of the fixed-yield model'], common.STUB, common.ASSUME + [
    'What matplotlib draws is what it is asked to draw']


def plan(i, seed, tier):
    r = mech.rng(seed, 'C27', i)
    v = ['gas', 'f2py', 'yield', 'gas', 'aerosol', 'yield', 'f2py', 'gas', 'yield', 'aerosol'][i % 10]
    if v in common.PARTICLES:
        p = particles.draw(r, v, nb=(1, 5), nmax=6, calls=(0, 3))
        p['set']['plot_mass'] = True
        if v == 'yield' and r.random() < .4:
            p['set'].update(ignore_vp=True, vp_cutoff=r.choice([-6.0, -4.0, -8.5]))
    else:
        p = common.draw(r, v, (1, 6), nmax=7, calls=(0, 3))
        if r.random() < .05:
            p['set']['simulation_time'] = p['set']['batch_step'] * r.randint(30, 300)
            p['solver']['calls'] = 0
    if v == 'yield' and r.random() < .4:
        p['solver']['neg'] = r.choice([.5, 1, 4])
    if r.random() < .35:
        p['display'] = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 12])
    return p


def same(a, b, rel=1e-9):
    with np.errstate(all='ignore'):
        return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rel * np.abs(b) + 1e-12 * np.isfinite(b))))


def pages(figures):
    """What is drawn between one showing and the next"""
    out, cur = [], []
    for n, a, k in figures:
        if n in ('show', 'savefig', 'close', 'clf', 'cla', 'figure', 'subplots'):
            if any(x[0] in ('plot', 'semilogy', 'bar') for x in cur):
                out.append(cur)
                cur = []
        else:
            cur.append((n, a, k))
    if any(x[0] in ('plot', 'semilogy', 'bar') for x in cur):
        out.append(cur)
    return out


def curves(page):
    """(label, x, y on a logarithmic scale?, y) of every curve of a figure"""
    out = []
    for n, a, k in page:
        if n in ('plot', 'semilogy'):
            xy = [x for x in a if isinstance(x, np.ndarray)]
            if len(xy) == 1:
                xy = [np.arange(len(xy[0]), dtype=float)] + xy
            out.append([k.get('label'), xy[0].ravel(), n == 'semilogy', xy[1].ravel()])
    for n, a, k in page:
        if n == 'legend':
            names = k.get('labels', a[-1] if a and isinstance(a[-1], list) else None)
            for c, name in zip(out, names or ()):
                c[0] = name
    return out


def check_series(page, out, t, Y, ix, what):
    """Curves of named species"""
    n = 0
    for name, x, log, y in curves(page):
        if name not in ix:
            out.fail('figure', '%s: a curve named %r' % (what, name))
            return 0
        with np.errstate(all='ignore'):
            want = Y[:, ix[name]] if log else np.log10(Y[:, ix[name]])
        if not same(x, t):
            out.fail('figure', '%s: the curve of %s is drawn over the times %s..., recorded were %s...' % (what, name, x[:4], t[:4]))
            return 0
        if not same(y, want):
            out.fail('figure', '%s: the curve of %s is %s..., recorded was %s...' % (what, name, y[:4], want[:4]))
            return 0
        n += 1
    return n


def check_bars(page, out, y, p, what):
    """Shares of the condensed compounds in every bin, and the total mass in the title"""
    m = np.maximum(p.bins(y)[:, :-1] / partref.NA * p.mw[:-1] * 1e12, 0.0)
    with np.errstate(all='ignore'):
        share = m / m.sum(axis=1)[:, None]
    if not np.all(np.isfinite(share)):
        return 0
    got = {}
    for n, a, k in page:
        if n == 'bar':
            x, h = (k.get('x', a[0] if a else None), k.get('height', a[1] if len(a) > 1 else None))
            low = k.get('bottom', a[3] if len(a) > 3 else None)
            h = np.atleast_1d(np.asarray(h, dtype=float)).ravel()
            x = np.broadcast_to(np.asarray(x, dtype=float).ravel(), h.shape)
            low = np.broadcast_to(np.asarray(0.0 if low is None else low, dtype=float).ravel(), h.shape)
            for i in range(len(h)):
                got.setdefault(float(x[i]), []).append((h[i], low[i]))
    xs = sorted(got)
    if len(xs) != p.nb:
        out.fail('figure', '%s: %d bars for %d size bins' % (what, len(xs), p.nb))
        return 0
    for j, x in enumerate(xs):
        h = np.array([q[0] for q in got[x]])
        low = np.array([q[1] for q in got[x]])
        if not same(h, share[j], 1e-7):
            out.fail('figure', '%s: the parts of the bar of bin %d are %s, the shares of the compounds %s' % (what, j, h[:5], share[j][:5]))
            return 0
        under = np.concatenate([[0.0], np.cumsum(share[j])[:-1]])
        if np.max(np.abs(low - under)) > 1e-6:
            out.fail('figure', '%s: the parts of the bar of bin %d begin at %s, they should at %s' % (what, j, low[:5], under[:5]))
            return 0
    for n, a, k in page:
        if n in ('title', 'set_title', 'suptitle'):
            f = re.search(r'=\s*([-+0-9.eEnainf]+)', str(a[0] if a else k.get('label', '')))
            if f:
                v = float(f.group(1))
                if abs(v - m.sum()) > .0051 + 1e-7 * m.sum():
                    out.fail('figure', '%s: the title gives a mass of %r, the recorded state has %r' % (what, v, float(m.sum())))
                    return 0
    return len(xs)


def run(plan, out):
    v = plan['variant']
    with world.World([v]) as w:
        common.prepare(w, plan)
        res = common.launch(w, plan)
        out.observe(res)
        if not common.check_run(res, out):
            return
        sim = res.sim
        files = common.saved(w, v)
    last = np.array(common.last_states(sim), dtype=float)
    t = np.arange(1, len(last) + 1) * float(plan['set'].get('batch_step', common.DEFAULTS[v][1]))
    drawn = pages(res.figures)
    n = 0
    d = ''
    if v in ('gas', 'f2py'):
        ix = common.find_index(sim, mech.species(plan['mech']))
        for page in drawn:
            n += check_series(page, out, t, last, ix, 'the figure of the %s model' % v)
    elif v == 'aerosol':
        soa = files.get('SOA')
        if not isinstance(soa, np.ndarray):
            out.fail('missing', 'no particle mass was saved')
            return
        for page in drawn:
            for name, x, log, y in curves(page):
                if not same(x, t):
                    out.fail('figure', 'the particle mass is drawn over the times %s..., recorded were %s...' % (x[:4], t[:4]))
                    return
                if not same(y, soa.ravel()):
                    out.fail('figure', 'the particle mass drawn is %s..., recorded was %s...' % (y[:4], soa.ravel()[:4]))
                    return
                n += 1
    else:
        ref = particles.Particles(plan, res, sim, out)
        if not ref.ok:
            return
        d = particles.describe_set(ref.p, plan)
        if ref.p.nc > 1:
            if len(drawn) != len(last):
                out.fail('figure', '%d figures of the particles for %d recorded states' % (len(drawn), len(last)))
                return
            for page, y in zip(drawn, last):
                n += check_bars(page, out, y, ref.p, 'the figure of the fixed-yield model')
                if out.violations:
                    return
    if out.violations:
        return
    if not n and not (v == 'yield'):
        out.fail('figure', 'the run showed no figure')
        return
    out.probe('curves_or_bars_compared', n)
    failed = ''
    if plan.get('display'):
        with world.World([v]) as w:
            common.prepare(w, plan)
            res2 = common.launch(w, plan, display=plan['display'])
            out.observe(res2)
            if res2.no_display:
                failed = res2.no_display
                out.fault('no-display')
            if res2.sim is None or not common.same_history(out, sim, res2.sim, 'without display (%s fails) against with' % failed, 'display'):
                if not out.violations:
                    out.fail('display', 'without display (%s fails) nothing was simulated' % failed)
                return
            c = common.Clean.__new__(common.Clean)
            c.files, c.plan = files, plan
            if not c.match_files(out, common.saved(w, v), 'without display (%s fails) against with' % failed, 'display'):
                return
    out.nontrivial = n > 0 or bool(failed)
    out.sig.add('%s %d %s %d %s %s' % (v, len(last), d, n, failed, common.history(sim)))
    out.sample = {'variant': v, 'batches': len(last), 'compared': n, 'display failed at': failed}

"""C04: the value of a rate coefficient in a run is that of its expression in the file, in both languages"""
import functools

from .. import common, mech
from . import c01

LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 8000}
RULE = ('A run holds 6 to 24 independent first order reactions whose rates are drawn from a grammar of MCM expressions or are a block of '
        'the distinct rates of the shipped files (the blocks move on with the run number), in the Numba or the Fortran model, with drawn '
        'temperature, humidity, hour and solver script, so that each coefficient is read off at several times, states and RO2 totals. '
        'Non-trivial if at least two calls were compared.')
MEASURE = 'distinct rate expressions compared'
REAL, STUB, ASSUMPTIONS = common.REAL, common.STUB, common.ASSUME


@functools.lru_cache(None)
def shipped_rates():
    out = {}
    for n in mech.SHIPPED:
        for l, r, k in mech.shipped(n):
            if len(k) < 88:
                out[k] = 1
    return sorted(out)


EXTRA = ['1.0D0', '2.5D-12*1.0D0', '1.D-12', '3D-12', '0.5D-11', '1.23E-11*EXP(180/TEMP)', '1.0E+3*1.0D-14', '4.2D-12*TEMP**-1',
         '2.0D-12*(TEMP/298)**-1.3', '1.8D-12*(TEMP/300.)**(-0.7)', '7.5D-16*(1.4*(TEMP-298)+100)', '5.4D+2*EXP(-2630/TEMP)',
         '1.7D-12*EXP(-940/TEMP)*0.5', 'KDEC*0.125', 'KROPRIM*O2', 'KROSEC*O2', '2.4D-14*EXP(460/TEMP)*M/M', 'J(11)*0.7+J(12)',
         '(J(41)+J(53))*0.5', 'J(15)+J(16)+J(17)', '2.03D-16*(TEMP/300)**4.57*EXP(693/TEMP)', 'EXP(-TEMP/30)', 'LOG10(TEMP)*1.0D-12',
         'dsqrt(1.0D-24)', 'dabs(-3.0D-12)', '2*(K298CH3O2*8.0D-12)**0.5*RO2', '2*(KCH3O2*7.8D-14*EXP(1000/TEMP))**0.5*RO2*0.6',
         'KFPAN*0.30', 'KMT01', 'KMT02', 'KMT13*0.5', 'KRO2NO*0.914', '1.0D-12*N2/M', '6.6D-35*M*EXP(1600/TEMP)',
         '3.8E-13*EXP(780/TEMP)*(1-1/(1+498*EXP(-1160/TEMP)))', '1.0D-11*H2O/M', '4.0D-32*EXP(-1000/TEMP)*M', '(1.0D-12)',
         '((2.0D-12)*(TEMP/300))', '1.0D-12*(1+0.6*RO2*1.0D-12)', 'dlog(TEMP)*1.0D-12',
         '1.5D-10*EXP(-(300+20)/TEMP)', '-1.0D-13+2.0D-12', '3.2D-13*EXP(1250/TEMP)*0.2*RO2',
         '1.0D-20*7.5D10', '2.0D-22*3.5D12', '1.0D-9*3.0D-4'] + ['1.0D-%d*2.5D%d' % (k + 12, k) for k in range(1, 10)]


def plan(i, seed, tier):
    r = mech.rng(seed, 'C04', i)
    v = 'f2py' if i % 3 == 2 else 'gas'
    k = i % 4
    n = r.randint(6, 24)
    if k == 0:
        s = shipped_rates()
        o = (i // 4) * 24
        rates = [s[(o + j + seed * 7) % len(s)] for j in range(24)]
    elif k == 1:
        rates = r.sample(EXTRA, min(n, len(EXTRA))) + [mech.rate(r, ('exotic',)) for _ in range(4)]
    else:
        rates = [mech.rate(r, ('ro2', 'exotic', 'photo')) for _ in range(n)]
    names = ['S%dX' % j for j in range(len(rates))]
    ro2 = r.sample(mech.ro2_names(), r.randint(0, 3))
    rx = [[[['', a]], [['', 'P' + a]], q] for a, q in zip(names, rates)]
    rx += [[[['', a]], [['', 'O3']], '1.0D-15'] for a in ro2 + ['APINENE', 'PINONIC']]
    r.shuffle(rx)
    m = {'r': rx, 'fmt': mech.fmt(r, ())}
    st = common.settings(r, v, (1, 2))
    return {'variant': v, 'mech': m, 'set': st, 'conc': {}, 'solver': common.solver_plan(r, (3, 6), range=[0, 6], neg=0), 'env': common.env(r, True)}


def run(plan, out):
    c01.run(plan, out)
    out.sig = {k for l, rr, k in plan['mech']['r']}
    out.nontrivial = out.probes.get('calls_compared', 0) >= 2

"""The reference of the particle phase: set-up of aerosol and fixed-yield runs and the partitioning equations, from the
documentation (README, Topping et al.) and the frozen constants below"""
import math

import numpy as np

from . import mech as mech_
from . import stubs

NA = 6.0221409e+23
R = 8.3144598
DEF = {'aerosol': {'temp': 288.15, 'RH': .5, 'num_bins': 16, 'ignore_vp': True, 'vp_cutoff': -6.0, 'vp_method': 'nannoolal',
                   'bp_method': 'joback_and_reid', 'critical_method': 'nannoolal', 'density_method': 'girolami', 'total_conc': 100, 'std': 2.2,
                   'lowersize': .01, 'uppersize': 1.0, 'meansize': .2, 'core_dissociation': 3.0, 'sigma': 72.0e-3},
       'yield': {'temp': 288.15, 'RH': .5, 'num_bins': 16, 'ignore_vp': False, 'vp_cutoff': -6.0, 'vp_method': 'nannoolal',
                 'bp_method': 'nannoolal', 'critical_method': 'nannoolal', 'density_method': 'girolami', 'total_conc': 100, 'std': 2.2,
                 'lowersize': .01, 'uppersize': 1.0, 'meansize': .2, 'core_dissociation': 3.0, 'sigma': 72.0e-3,
                 'total_voc_mass': 30.0, 'voc_mw': 136.24}}
NO_PARTICLE = ('OH', 'HO2', 'O3', 'hv')


def water_pressure(T):
    """Pa"""
    return math.exp(-0.58002206E4 / T + 0.13914993E1 - 0.48640239E-1 * T + 0.41764768E-4 * T ** 2 - 0.14452093E-7 * T ** 3 + 0.65459673E1 * math.log(T))


def water_gas(variant, T, RH):
    """molecules/cc"""
    if variant == 'yield':
        return RH * NA * water_pressure(T) * 1.0E-6 / (8.314472 * T)
    tc = T - 273.15
    return 0.002166 * (RH * 610.78 * math.exp(tc / (tc + 238.3) * 17.2694) / (tc + 273.16)) * 1.0e-6 / 18.0e-3 * NA


def properties(smiles, s):
    """density [kg/m3], molar mass [g/mol], log10 of the vapour pressure [atm] of a structure"""
    T = s['temp']
    crit = stubs.critical(s['critical_method'], smiles, stubs.bp_value('nannoolal', smiles))
    rho = stubs.density_value(s['density_method'], smiles, T, crit) * 1e3
    tb = stubs.bp_value(s['bp_method'], smiles)
    vp = stubs.vp_value(s['vp_method'], smiles, T, None if s['vp_method'] == 'evaporation' else tb)
    return rho, stubs.mw_value(smiles), vp


class Setup:
    """index: name (or SMILES) -> gas column, without water"""

    def __init__(self, variant, sets, index, structures, gas):
        s = dict(DEF[variant])
        s.update({k: v for k, v in sets.items() if k in s})
        self.s = s
        self.variant = variant
        T, RH = float(s['temp']), float(s['RH'])
        self.T = T
        self.ng = len(index) + 1
        inc = {}
        for name, smiles in structures.items():
            if name in index and name not in (NO_PARTICLE if variant == 'aerosol' else ()):
                p = properties(smiles, s)
                if not s['ignore_vp'] or not p[2] > s['vp_cutoff']:
                    inc[index[name]] = p
        self.include = sorted(inc)
        rows = [inc[i] for i in self.include] + [(1000.0, 18.0, math.log10(water_pressure(T) * 9.86923E-6))]
        self.include.append(self.ng - 1)
        self.include = np.array(self.include)
        self.nc = len(rows)
        self.rho, self.mw, self.vp = (np.array(x, dtype=float) for x in zip(*rows))
        self.psat = 10.0 ** self.vp
        self.D = 1.9 * self.mw ** (-2.0 / 3.0)
        self.alpha = np.full(self.nc, .1)
        self.gamma = 3.0 * self.D / (np.sqrt(8.0 * R * T / (math.pi * self.mw * 1e-3)) * 1e2) * 1e-2
        # size distribution and core
        nb = int(s['num_bins'])
        self.nb = nb
        lo, hi = math.log(s['lowersize']), math.log(s['uppersize'])
        self.x = np.exp(np.array([lo + (hi - lo) * i / (nb - 1) for i in range(nb)])) if nb > 1 else np.array([math.exp(lo)])
        sh = math.log(s['std'])
        lx = np.log(self.x / s['meansize'])
        pdf = np.exp(-lx ** 2 / (2 * sh * sh)) / self.x
        self.N = pdf / pdf.sum() * s['total_conc']
        self.core_rho, self.core_mw = 1770.0, 132.14
        self.diss = float(s['core_dissociation'])
        self.core = 4.0 / 3.0 * math.pi * (self.x * 1e-6) ** 3 * self.core_rho / (self.core_mw * 1e-3) * NA * self.N
        self.core_mass = self.core / NA * self.core_mw
        y = np.zeros(self.ng + self.nc * nb)
        for name, c in gas.items():
            y[index[name]] = c
        y[self.ng - 1] = water_gas(variant, T, RH)
        for j in range(nb):
            y[self.ng + (j + 1) * self.nc - 1] = self.core[j] * self.diss * RH / (1.0 - RH)
        self.y0 = y

    def bins(self, y):
        return np.asarray(y, dtype=float)[self.ng:].reshape(self.nb, self.nc)

    def evaluate(self, y):
        """Condensation rates (bins x species), their error scale, organic mass [ug/m3], sizes [m], water activities"""
        s = self.s
        c = self.bins(y)
        moles = c.sum(axis=1) + self.core * self.diss
        with np.errstate(all='ignore'):
            x = c / moles[:, None]
            mass = c / NA * self.mw
            total = mass.sum(axis=1) + self.core_mass
            rho = total / ((mass / self.rho).sum(axis=1) + self.core_mass / self.core_rho)
            size = (3.0 * (total * 1e3 / (self.N * 1e6)) / (4.0 * math.pi * rho)) ** (1.0 / 3.0)
            kn = self.gamma / size[:, None]
            corr = 1.0 / (1.0 + ((1.33 + 0.71 / kn) / (1.0 + 1.0 / kn) + 4.0 * (1.0 - self.alpha) / (3.0 * self.alpha)) * kn)
            kelvin = np.exp(4.0 * self.mw * 1e-3 * s['sigma'] / (R * self.T * size[:, None] * 2.0 * rho[:, None]))
            ceq = kelvin * x * self.psat * 101325.0 * NA / (R * 1e6 * self.T)
            k = 4.0 * math.pi * size[:, None] * 1e2 * self.N[:, None] * self.D * corr
            cg = np.asarray(y, dtype=float)[self.include]
            dm = k * (cg - ceq)
            scale = k * (np.abs(cg) + np.abs(ceq))
        self.last_k = k
        soa = mass[:, :-1].sum() * 1e12
        self.last_mass = np.abs(mass[:, :-1]).sum() * 1e12
        return dm, scale, soa, size, c[:, -1] / moles


def from_plan(plan, sim, eff):
    """eff(name) gives the value of a setting in the run; plan as drawn by common.draw"""
    v = plan['variant']
    sets = {}
    for k in DEF[v]:
        x = eff(k)
        if x is not None:
            sets[k] = x
    if v == 'aerosol':
        names = mech_.species(plan['mech'])
        from . import common
        index = common.find_index(sim, names)
        if index is None:
            return None
        index = {n: index[n] for n in names}
        gas = {n: c * common.CFACTOR for n, c in (plan.get('conc') or {}).items() if n in index}
        return Setup(v, sets, index, dict((a, b) for a, b in plan['smiles'] if b is not None), gas)
    first = {}
    for a, b in plan['yield']:
        first.setdefault(a, float(b))
    from . import common
    index = common.find_index(sim, list(first))
    if index is None:
        return None
    index = {n: index[n] for n in first}
    s = {**DEF[v], **sets}
    ppb = s['total_voc_mass'] * s['temp'] / (12.187 * s['voc_mw'])
    return Setup(v, sets, index, {n: n for n in first}, {n: c * ppb * 2.46E10 for n, c in first.items()})

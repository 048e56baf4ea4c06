"""The reference gas phase model: mass action, from the structure of a mechanism and nothing else"""
import numpy as np

from . import mech as mech_
from . import rates


class Model:
    def __init__(self, mech, index):
        """index: species name -> column, as the run under test reports it (checked here to be a bijection)"""
        names = mech_.species(mech)
        self.names = names
        n = len(names)
        cols = sorted(index[s] for s in names)
        assert cols == list(range(n)), 'species columns are not 0..n-1: %r' % (index,)
        self.n = n
        self.nr = len(mech['r'])
        self.index = index
        self.E = np.zeros((self.nr, n))       # exponents
        self.G = np.zeros((self.nr, n))       # gains
        self.trees = []
        for i, (left, right, k) in enumerate(mech['r']):
            for c, s in left:
                if s != 'hv':
                    self.E[i, index[s]] += float(c) if c else 1.0
            for c, s in right:
                if s != 'hv':
                    self.G[i, index[s]] += float(c) if c else 1.0
            self.trees.append(rates.parse(k))
        self.held = np.zeros(n, bool)
        for s in mech_.BATH:
            if s in names:
                self.held[index[s]] = True
        self.S = (self.G - self.E).T.copy()
        self.A = (self.G + self.E).T.copy()
        self.S[self.held] = 0
        self.A[self.held] = 0
        self.ro2 = np.array(sorted(index[s] for s in names if s in mech_.ro2_set()), dtype=int)
        # Fortran holds a coefficient such as 0.3 in single precision
        c = np.concatenate([self.E.ravel(), self.G.ravel()])
        self.single = 1.3e-7 if np.any(c.astype(np.float32) != c) else 0.0
        self.sets = [np.nonzero(self.E[i])[0] for i in range(self.nr)]

    def ro2_total(self, y):
        return float(np.sum(y[self.ro2])) if len(self.ro2) else 0.0

    def rate_values(self, y, temp, H2O, ttime, fortran):
        env = rates.Env(temp, H2O, self.ro2_total(y), ttime, fortran, float(np.sum(np.abs(y[self.ro2]))))
        v = [env.value(t) for t in self.trees]
        k, e = np.array([x.v for x in v]), np.array([x.e for x in v])
        return k, e + self.single * np.abs(k) if fortran else e

    def products(self, y):
        out = np.empty(self.nr)
        for i, s in enumerate(self.sets):
            p = 1.0
            for j in s:
                e = self.E[i, j]
                p *= y[j] if e == 1.0 else y[j] ** (int(e) if e == int(e) else e)
            out[i] = p
        return out

    def rhs(self, y, k, ke):
        """derivative and the bound of its error"""
        p = self.products(y)
        v = k * p
        e = np.abs(ke * p) + 1e-13 * np.abs(v)
        return self.S @ v, self.A @ e + 1e-13 * (self.A @ np.abs(v)) + 1e-300

    def jac(self, y, k, ke):
        J = np.zeros((self.n, self.n))
        T = np.zeros((self.n, self.n))
        for i, s in enumerate(self.sets):
            for j in s:
                d = self.E[i, j]
                for l in s:
                    e = self.E[i, l] - (1.0 if l == j else 0.0)
                    if e:
                        d *= y[l] ** (int(e) if e == int(e) else e)
                J[:, j] += self.S[:, i] * (k[i] * d)
                T[:, j] += self.A[:, i] * (abs(ke[i] * d) + 2e-13 * abs(k[i] * d))
        return J, T + 1e-300

    def invariants(self):
        """A basis of the linear combinations that every reaction conserves, rows"""
        # null space of S^T by SVD
        u, s, vt = np.linalg.svd(self.S.T, full_matrices=True)
        rank = int(np.sum(s > 1e-10 * max(1.0, s[0] if len(s) else 1.0)))
        return vt[rank:]

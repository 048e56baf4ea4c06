"""Reference values of rate coefficients, independent of the code under test.

Every number is carried as a value with a bound on the error that a correct implementation may make: the bound of a
literal is the precision in which an implementation stores it (Fortran without a kind: single precision), and the
arithmetic adds its own rounding. The definitions of the MCM constants, of the photolysis rates and of the solar zenith
angle are written out here once and for all; they are the specification, not a copy that follows the code.
"""
import math
import re

U = 4e-16          # rounding of one operation, with slack for fast math


class V:
    __slots__ = ('v', 'e')

    def __init__(self, v, e=0.0):
        self.v = float(v)
        self.e = float(e)

    def __repr__(self):
        return 'V(%r+-%.1e)' % (self.v, self.e)

    def __add__(a, b):
        b = lift(b)
        v = a.v + b.v
        return V(v, a.e + b.e + U * abs(v))
    __radd__ = __add__

    def __neg__(a):
        return V(-a.v, a.e)

    def __sub__(a, b):
        return a + (-lift(b))

    def __rsub__(a, b):
        return lift(b) + (-a)

    def __mul__(a, b):
        b = lift(b)
        v = a.v * b.v
        return V(v, abs(a.v) * b.e + abs(b.v) * a.e + a.e * b.e + U * abs(v))
    __rmul__ = __mul__

    def __truediv__(a, b):
        b = lift(b)
        v = a.v / b.v
        rb = b.e / abs(b.v)
        return V(v, a.e / abs(b.v) + abs(v) * rb * (1 + rb) + U * abs(v))

    def __rtruediv__(a, b):
        return lift(b) / a

    def __pow__(a, b):
        b = lift(b)
        if a.v == 0.0:
            return V(0.0 if b.v > 0 else (1.0 if b.v == 0 else math.inf), a.e)
        v = a.v ** b.v
        return V(v, abs(v) * (abs(b.v) * a.e / abs(a.v) + abs(math.log(abs(a.v))) * b.e + (4 + abs(b.v)) * U))

    def __rpow__(a, b):
        return lift(b) ** a


def lift(x):
    return x if isinstance(x, V) else V(x)


def exp(x):
    x = lift(x)
    v = math.exp(x.v)
    return V(v, v * (x.e + 2 * U + U * abs(x.v)))


def log(x):
    x = lift(x)
    v = math.log(x.v)
    return V(v, x.e / abs(x.v) + 2 * U * abs(v) + U)


def log10(x):
    x = lift(x)
    v = math.log10(x.v)
    return V(v, x.e / abs(x.v) / math.log(10) + 2 * U * abs(v) + U)


def sqrt(x):
    x = lift(x)
    v = math.sqrt(x.v)
    return V(v, (x.e / (2 * v) if v else 0.0) + 2 * U * v)


def fabs(x):
    x = lift(x)
    return V(abs(x.v), x.e)


def constants(temp, H2O, C):
    """The named constants of the MCM at a temperature [K] and a water concentration [molecules/cc].
    C makes a constant of a literal."""
    M = C(2.55E+19)
    N2 = C(0.79)*M
    O2 = C(0.2095)*M
    KRONO2 = C(2.70E-12)*exp(C(360.0)/temp)
    KRO2NO = C(2.7E-12)*exp(C(360.0)/temp)
    KRO2HO2 = C(2.91E-13)*exp(C(1300.0)/temp)
    KAPHO2 = C(5.2E-13)*exp(C(980.0)/temp)
    KAPNO = C(7.5E-12)*exp(C(290.0)/temp)
    KRO2NO3 = C(2.3E-12)
    KNO3AL = C(1.4E-12)*exp(-C(1860.0)/temp)
    KDEC = C(1.00E+06)
    KROSEC = C(2.50E-14)*exp(-C(300.0)/temp)
    KALKOXY=C(3.70E-14)*exp(-C(460.0)/temp)*O2
    KALKPXY=C(1.80E-14)*exp(-C(260.0)/temp)*O2
    KROPRIM = C(2.50E-14)*exp(-C(300.0)/temp)
    KCH3O2 = C(1.03E-13)*exp(C(365.0)/temp)
    K298CH3O2 = C(3.5E-13)
    K14ISOM1 = C(3.00E7)*exp(-C(5300.0)/temp)
    kc0 = C(3.28E-28)*M*(temp/C(300.0))**(-C(6.87))
    kci = C(1.125E-11)*(temp/C(300.0))**(-C(1.105))
    krc = kc0/kci
    fcc = C(0.30)
    nc = C(0.75)-(C(1.27)*log10(fcc))
    fc = C(10)**(log10(fcc)/(C(1.0)+((log10(krc))/nc)**C(2.0)))
    KFPAN = (kc0*kci)*fc/(kc0+kci)
    kd0 = C(1.10E-05)*M*exp(-C(10100.0)/temp)
    kdi = C(1.90E+17)*exp(-C(14100.0)/temp)
    krd = kd0/kdi
    fcd = C(0.30)
    ncd = C(0.75)-(C(1.27)*log10(fcd))
    fd = C(10.0)**(log10(fcd)/(C(1.0)+((log10(krd))/ncd)**C(2.0)))
    KBPAN = (kd0*kdi)*fd/(kd0+kdi)
    KPPN0 = C(1.7E-03)*M*exp(-C(11280.0)/temp)
    KPPNI = C(8.3E+16)*exp(-C(13940.0)/temp)
    KRPPN = KPPN0/KPPNI
    FCPPN = C(0.36)
    NCPPN = C(0.75)-(C(1.27)*log10(fcd))
    FPPN = C(10.0)**(log10(fcd)/(C(1.0)+((log10(krd))/ncd)**C(2.0)))
    KBPPN = (KPPN0*KPPNI)*FCPPN/(KPPN0+KPPNI)
    k10 = C(1.00E-31)*M*(temp/C(300.0))**(-C(1.6))
    k1i = C(5.0E-11)*(temp/C(300.0))**(C(0.3))
    kr1 = k10/k1i
    fc1 = C(0.85)
    nc1 = C(0.75)-(C(1.27)*log10(fc1))
    f1 = C(10.0)**(log10(fc1)/(C(1.0)+((log10(kr1)/nc1))**C(2.0)))
    KMT01 = (k10*k1i)*f1/(k10+k1i)
    k20 = C(1.30E-31)*M*(temp/C(300.0))**(-C(1.5))
    k2i = C(2.30E-11)*(temp/C(300.0))**(C(0.24))
    kr2 = k20/k2i
    fc2 = C(0.6)
    nc2 = C(0.75)-(C(1.27)*log10(fc2))
    f2 = C(10.0)**(log10(fc2)/(C(1.0)+((log10(kr2)/nc2))**C(2.0)))
    KMT02 = (k20*k2i)*f2/(k20+k2i)
    k30 = C(3.60E-30)*M*(temp/C(300.0))**(-C(4.1))
    k3i = C(1.90E-12)*(temp/C(300.0))**(C(0.2))
    kr3 = k30/k3i
    fc3 = C(0.35)
    nc3 = C(0.75)-(C(1.27)*log10(fc3))
    f3 = C(10.0)**(log10(fc3)/(C(1.0)+((log10(kr3)/nc3))**C(2.0)))
    KMT03 = (k30*k3i)*f3/(k30+k3i)
    k40 = C(1.30E-03)*M*(temp/C(300.0))**(-C(3.5))*exp(-C(11000.0)/temp)
    k4i = C(9.70E+14)*(temp/C(300.0))**(C(0.1))*exp(-C(11080.0)/temp)
    kr4 = k40/k4i
    fc4 = C(0.35)
    nc4 = C(0.75)-(C(1.27)*log10(fc4))
    f4 = C(10.0)**(log10(fc4)/(C(1)+((log10(kr4)/nc4))**C(2.0)))
    KMT04 = (k40*k4i)*f4/(k40+k4i)
    KMT05 = C(1.44E-13)*(C(1.0) + (M/C(4.2E19)))
    KMT06 = C(1.0) + (C(1.40E-21)*exp(C(2200.0)/temp)*H2O)
    k70 = C(7.40E-31)*M*(temp/C(300.0))**(-C(2.4))
    k7i = C(3.30E-11)*(temp/C(300.0))**(-C(0.3))
    kr7 = k70/k7i
    fc7 = C(0.81)
    nc7 = C(0.75)-(C(1.27)*log10(fc7))
    f7 = C(10.0)**(log10(fc7)/(C(1)+((log10(kr7)/nc7))**C(2.0)))
    KMT07 = (k70*k7i)*f7/(k70+k7i)
    k80 = C(3.2E-30)*M*(temp/C(300.0))**(-C(4.5))
    k8i = C(3.0E-11)
    kr8 = k80/k8i
    fc8 = C(0.41)
    nc8 = C(0.75)-(C(1.27)*log10(fc8))
    f8 = C(10.0)**(log10(fc8)/(C(1.0)+((log10(kr8)/nc8))**C(2.0)))
    KMT08 = (k80*k8i)*f8/(k80+k8i)
    k90 = C(1.4E-31)*M*(temp/C(300.0))**(-C(3.1))
    k9i = C(4.0E-12)
    kr9 = k90/k9i
    fc9 = C(0.4)
    nc9 = C(0.75)-(C(1.27)*log10(fc9))
    f9 = C(10.0)**(log10(fc9)/(C(1.0)+((log10(kr9)/nc9))**C(2.0)))
    KMT09 = (k90*k9i)*f9/(k90+k9i)
    k100 = C(4.10E-05)*M*exp(-C(10650.0)/temp)
    k10i = C(6.0E+15)*exp(-C(11170.0)/temp)
    kr10 = k100/k10i
    fc10 = C(0.4)
    nc10 = C(0.75)-(C(1.27)*log10(fc10))
    f10 = C(10.0)**(log10(fc10)/(C(1.0)+((log10(kr10)/nc10))**C(2.0)))
    KMT10 = (k100*k10i)*f10/(k100+k10i)
    k1 = C(2.40E-14)*exp(C(460.0)/temp)
    k3 = C(6.50E-34)*exp(C(1335.0)/temp)
    k4 = C(2.70E-17)*exp(C(2199.0)/temp)
    k2 = (k3*M)/(C(1.0)+(k3*M/k4))
    KMT11 = k1 + k2
    k120 = C(2.5E-31)*((temp/C(300.0))**(-C(2.6)))*M
    k12i = C(2.0E-12)
    kr12 = k120/k12i
    fc12 = C(0.53)
    nc12 = C(0.75)-(C(1.27)*log10(fc12))
    f12 = C(10.0)**(log10(fc12)/(C(1.0)+((log10(kr12)/nc12))**C(2.0)))
    KMT12 = (k120*k12i)*f12/(k120+k12i)
    k130 = C(2.50E-30)*((temp/C(300.0))**(-C(5.5)))*M
    k13i = C(1.80E-11)
    kr13 = k130/k13i
    fc13 = C(0.36)
    nc13 = C(0.75)-(C(1.27)*log10(fc13))
    f13 = C(10.0)**(log10(fc13)/(C(1.0)+((log10(kr13)/nc13))**C(2.0)))
    KMT13 = (k130*k13i)*f13/(k130+k13i)
    k140 = C(9.00E-05)*exp(-C(9690.0)/temp)*M
    k14i = C(1.10E+16)*exp(-C(10560.0)/temp)
    kr14 = k140/k14i
    fc14 = C(0.36)
    nc14 = C(0.75)-(C(1.27)*log10(fc14))
    f14 = C(10.0)**(log10(fc14)/(C(1.0)+((log10(kr14)/nc14))**C(2.0)))
    KMT14 = (k140*k14i)*f14/(k140+k14i)
    k150 = C(8.60E-29)*((temp/C(300.0))**(-C(3.1)))*M
    k15i = C(9.00E-12)*((temp/C(300.0))**(-C(0.85)))
    kr15 = k150/k15i
    fc15 = C(0.48)
    nc15 = C(0.75)-(C(1.27)*log10(fc15))
    f15 = C(10.0)**(log10(fc15)/(C(1.0)+((log10(kr15)/nc15))**C(2.0)))
    KMT15 = (k150*k15i)*f15/(k150+k15i)
    k160 = C(8.00E-27)*((temp/C(300.0))**(-C(3.5)))*M
    k16i = C(3.00E-11)*((temp/C(300.0))**(-C(1.0)))
    kr16 = k160/k16i
    fc16 = C(0.5)
    nc16 = C(0.75)-(C(1.27)*log10(fc16))
    f16 = C(10.0)**(log10(fc16)/(C(1.0)+((log10(kr16)/nc16))**C(2.0)))
    KMT16 = (k160*k16i)*f16/(k160+k16i)
    k170 = C(5.00E-30)*((temp/C(300.0))**(-C(1.5)))*M
    k17i = C(1.00E-12)
    kr17 = k170/k17i
    fc17 = (C(0.17)*exp(-C(51.)/temp))+exp(-C(1.0)*temp/C(204.0))
    nc17 = C(0.75)-(C(1.27)*log10(fc17))
    f17 = C(10.0)**(log10(fc17)/(C(1.0)+((log10(kr17)/nc17))**C(2.0)))
    KMT17 = (k170*k17i)*f17/(k170+k17i)
    KMT18 = C(9.5E-39)*O2*exp(C(5270.0)/temp)/(C(1)+C(7.5E-29)*O2*exp(C(5610.0)/temp))
    return {k: v for k, v in locals().items() if k not in ('temp', 'C')}


# n: (l, m, n) of J = l cos(z)**m exp(-n sec(z))
JTAB = {
    1: (6.073e-05, 1.743, 0.474),
    2: (0.0004775, 0.298, 0.08),
    3: (1.041e-05, 0.723, 0.279),
    4: (0.01165, 0.244, 0.267),
    5: (0.02485, 0.168, 0.108),
    6: (0.1747, 0.155, 0.125),
    7: (0.002644, 0.261, 0.288),
    8: (9.312e-07, 1.23, 0.307),
    11: (4.642e-05, 0.762, 0.353),
    12: (6.853e-05, 0.477, 0.323),
    13: (7.344e-06, 1.202, 0.417),
    14: (2.879e-05, 1.067, 0.358),
    15: (2.792e-05, 0.805, 0.338),
    16: (1.675e-05, 0.805, 0.338),
    17: (7.914e-05, 0.764, 0.364),
    18: (1.482e-06, 0.396, 0.298),
    19: (1.482e-05, 0.396, 0.298),
    20: (0.00076, 0.396, 0.298),
    21: (7.992e-07, 1.578, 0.271),
    22: (5.804e-06, 1.092, 0.377),
    23: (2.4246e-06, 0.395, 0.296),
    24: (2.424e-06, 0.395, 0.296),
    31: (6.845e-05, 0.13, 0.201),
    32: (1.032e-05, 0.13, 0.201),
    33: (3.802e-05, 0.644, 0.312),
    34: (0.0001537, 0.17, 0.208),
    35: (0.0003326, 0.148, 0.215),
    41: (7.649e-06, 0.682, 0.279),
    51: (1.588e-06, 1.154, 0.318),
    52: (1.907e-06, 1.244, 0.335),
    53: (2.485e-06, 1.196, 0.328),
    54: (4.095e-06, 1.111, 0.316),
    55: (1.135e-05, 0.974, 0.309),
    56: (4.365e-05, 1.089, 0.323),
    57: (3.363e-06, 1.296, 0.322),
    61: (0.0007537, 0.499, 0.266),
}


def cos_zenith(ttime):
    """Cosine of the solar zenith angle (AtChem2) at a time in seconds since midnight of day 150, 51.51 N, 0.13 E"""
    day, latitude, longitude = 150.0, 51.51, 0.13
    theta = 2.0 * math.pi * (day - 1.0) / 365.0
    dec = (0.006918 - 0.399912 * math.cos(theta) + 0.070257 * math.sin(theta) - 0.006758 * math.cos(2 * theta)
           + 0.000907 * math.sin(2 * theta) - 0.002697 * math.cos(3 * theta) + 0.001480 * math.sin(3 * theta))
    eqtime = (0.000075 + 0.001868 * math.cos(theta) - 0.032077 * math.sin(theta) - 0.014615 * math.cos(2 * theta)
              - 0.040849 * math.sin(2 * theta))
    hour = (ttime / 3600.0) % 24.0
    lha = math.pi * (hour / 12.0 - (1.0 + longitude / 180.0)) + eqtime
    lat = latitude * math.pi / 180.0
    return math.cos(lha) * math.cos(lat) * math.cos(dec) + math.sin(lat) * math.sin(dec)


def photolysis(n, ttime, fortran):
    """J(n) with its error bound. Near the horizon J depends extremely steeply on the zenith angle, so the bound is the
    spread of J over the zenith angles that rounding allows."""
    l, m, k = JTAB[n]
    cosx = cos_zenith(ttime)
    d = 3e-6 if fortran else 1e-12 * (1 + abs(ttime) / 86400.0)

    def f(c):
        if c <= 1e-30:
            return 0.0
        x = -k / c
        return 0.0 if x < -740 else l * c ** m * math.exp(x)
    v, lo, hi = f(cosx), f(cosx - d), f(cosx + d)
    return V(v, max(abs(hi - v), abs(lo - v)) + (3e-7 if fortran else 2e-15) * (1 + k / max(cosx, 1e-3)) * v)


# ---- expressions of the mechanism file -------------------------------------------------------------------------

TOKEN = re.compile(r'\s*(?:(?P<num>(?:\d+\.?\d*|\.\d+)(?:[DdEe][-+]?\d+)?)|(?P<name>[A-Za-z_]\w*)|(?P<op>\*\*|[-+*/(),]))')
FUN = {'EXP': exp, 'LOG': log, 'LOG10': log10, 'DEXP': exp, 'DLOG': log, 'DLOG10': log10, 'DSQRT': sqrt, 'SQRT': sqrt,
       'DABS': fabs, 'ABS': fabs}


def parse(text):
    """Expression -> tree: ('num', s) ('name', s) ('j', n) ('fun', f, tree) ('neg', t) (op, a, b)"""
    text = re.sub(r'\s+', '', text)
    toks = []
    pos = 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise ValueError('rate expression %r at %d' % (text, pos))
        toks.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    toks.append(('end', ''))
    i = [0]

    def peek():
        return toks[i[0]][1] if toks[i[0]][0] == 'op' else None

    def take(op=None):
        t = toks[i[0]]
        if op is not None and t != ('op', op):
            raise ValueError('rate expression %r: expected %s' % (text, op))
        i[0] += 1
        return t

    def expr():
        if peek() in ('-', '+'):
            s = take()[1]
            a = term()
            a = ('neg', a) if s == '-' else a
        else:
            a = term()
        while peek() in ('+', '-'):
            op = take()[1]
            a = (op, a, term())
        return a

    def term():
        a = factor()
        while peek() in ('*', '/'):
            op = take()[1]
            a = (op, a, factor())
        return a

    def factor():
        a = primary()
        if peek() == '**':
            take()
            if peek() in ('-', '+'):
                s = take()[1]
                b = factor()
                b = ('neg', b) if s == '-' else b
            else:
                b = factor()
            return ('**', a, b)
        return a

    def primary():
        kind, s = take()
        if kind == 'num':
            return ('num', s)
        if kind == 'op' and s == '(':
            a = expr()
            take(')')
            return a
        if kind == 'name':
            if peek() == '(':
                take()
                a = expr()
                take(')')
                if s == 'J':
                    return ('j', int(a[1]))
                return ('fun', s.upper(), a)
            return ('name', s)
        raise ValueError('rate expression %r: unexpected %r' % (text, s))
    tree = expr()
    if toks[i[0]][0] != 'end':
        raise ValueError('rate expression %r: trailing text' % text)
    return tree


class Env:
    """Everything a rate expression may refer to, at one instant"""

    def __init__(self, temp, H2O, RO2, ttime, fortran, RO2abs=None):
        self.fortran = fortran
        leaf = 6.5e-8 if fortran else 0.0

        def C(x):
            x = float(x)
            # a number that single precision holds exactly has no error
            return V(x, 0.0 if x == int(x) and abs(x) < 2 ** 24 else abs(x) * leaf)
        self.C = C
        self.ttime = ttime
        self.names = constants(V(temp), V(H2O), C)
        self.names.update(TEMP=V(temp), H2O=V(H2O), RO2=V(RO2, 1e-14 * (abs(RO2) if RO2abs is None else RO2abs)))
        self.js = {}

    def j(self, n):
        if n not in self.js:
            self.js[n] = photolysis(n, self.ttime, self.fortran)
        return self.js[n]

    def value(self, t):
        k = t[0]
        if k == 'num':
            return self.C(float(t[1].upper().replace('D', 'E')))
        if k == 'name':
            return self.names[t[1]]
        if k == 'j':
            return self.j(t[1])
        if k == 'neg':
            return -self.value(t[1])
        if k == 'fun':
            return FUN[t[1]](self.value(t[2]))
        a, b = self.value(t[1]), self.value(t[2])
        if k == '+':
            return a + b
        if k == '-':
            return a - b
        if k == '*':
            return a * b
        if k == '/':
            return a / b
        return a ** b


def water(temp, RH):
    """Water vapour [molecules/cc] at a temperature [K] and relative humidity [0-1], as the gas and aerosol front ends
    document it"""
    tc = temp - 273.15
    psat = 610.78 * math.exp((tc / (tc + 238.3)) * 17.2694)
    return 0.002166 * (RH * psat / (tc + 273.16)) * 1e-6 / 18e-3 * 6.0221409e23

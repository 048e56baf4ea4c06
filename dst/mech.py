"""Chemical mechanisms: generated ones, slices of the shipped ones, and their text in the KPP format.

A mechanism is plain data, {'r': [[[[coef, name], ...], [[coef, name], ...], rate], ...], 'fmt': {...}}, coefficients as
they are to be written ('' for none), so that it goes into a replay file as it is.
"""
import functools
import gzip
import json
import os
import random
import re

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')
BATH = ('AIR', 'O2', 'H2O')          # held constant by the models
SHIPPED = ('MCM_APINENE', 'MCM_BCARY', 'MCM_mixed_test')


@functools.lru_cache(None)
def ro2_names():
    with open(os.path.join(DATA, 'ro2.json')) as f:
        return tuple(json.load(f))


@functools.lru_cache(None)
def ro2_set():
    return frozenset(ro2_names())


@functools.lru_cache(None)
def shipped_text(name):
    with gzip.open(os.path.join(DATA, name + '.eqn.txt.gz'), 'rt') as f:
        return f.read()


@functools.lru_cache(None)
def shipped(name):
    """Reactions of a shipped file, by a parser of its own"""
    out = []
    for chunk in shipped_text(name).split('{')[1:]:
        eq, rate = chunk.split('}', 1)[1].split(':', 1)
        rate = rate[:rate.rindex(';')].strip()
        sides = []
        for side in eq.replace('\t', ' ').replace('\n', ' ').split('='):
            terms = []
            for t in side.split('+'):
                t = t.strip()
                if t:
                    m = re.fullmatch(r'(\d*\.?\d*)\s*([A-Za-z]\w*)', t)
                    terms.append([m.group(1), m.group(2)])
            sides.append(terms)
        out.append([sides[0], sides[1], ''.join(rate.split())])
    return out


# ---- generation -------------------------------------------------------------------------------------------------

PLAIN = ['NO', 'NO2', 'NO3', 'OH', 'HO2', 'CO', 'HCHO', 'HNO3', 'H2O2', 'SO2', 'SO3', 'N2O5', 'CH4', 'C2H4', 'C5H8',
         'APINBOO', 'C10H16', 'C96OOH', 'PAN', 'CH3CHO', 'HONO', 'HO2NO2', 'H2', 'CL', 'NC101CO', 'C811PAN', 'GLYOX',
         'C717OOH', 'BPINENE', 'LIMONENE', 'C108NO3', 'NOPINONE', 'CH3COCH3', 'C1', 'C11', 'C111', 'N1', 'X2', 'X22',
         'HCOOH', 'O1D', 'O', 'SA', 'NA', 'C3H8', 'IC4H10', 'MVK', 'MACR', 'TOLUENE', 'BENZENE', 'C2H6', 'OXYL',
         'DUMMYO2', 'FAKEO2', 'C999O2', 'CLO2', 'XCH3O2', 'CH3O2X', 'CH3O', 'CH3O22', 'C96O', 'RO2X', 'E1', 'D2', 'E2D3',
         'N2', 'XO2', 'O2X', 'H2OX', 'AIRX', 'Xhv', 'H', 'OHX', 'M', 'O3X', 'HO2X', 'C2H4C2', 'J1', 'K1']


def lit(r, lo=-18, hi=-10):
    """A literal as the MCM writes them"""
    m = r.choice(['%.1f', '%.2f', '%.3f']) % r.uniform(1, 9.99)
    if r.random() < .15:
        m = '%d' % r.randint(1, 9)
    e = r.randint(lo, hi)
    k = r.random()
    if k < .7:
        return '%sD%s%d' % (m, '' if e < 0 else r.choice(['', '+']), e)
    if k < .95:
        return '%sE%s%d' % (m, '' if e < 0 else r.choice(['', '+']), e)
    return '%sD%s%02d' % (m, '-' if e < 0 else '', abs(e))


def frac(r):
    return r.choice(['0.5', '0.35', '0.650', '0.1', '0.914', '0.9', '.25', '0.230', '2', '0.6', '3.', '1.0'])


def exparg(r, fine=True):
    s = r.choice(['', '-'])
    return s + r.choice(['%d', '%d', '%d.', '%.1f'] if fine else ['%d']) % r.randint(10, 2500) + '/TEMP'


JS = [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 31, 32, 33, 34, 35, 41, 51, 52, 53,
      54, 55, 56, 57, 61]
NAMED = ['KMT%02d' % i for i in range(1, 19)] + ['KFPAN', 'KBPAN', 'KBPPN', 'KRO2NO', 'KRO2HO2', 'KAPHO2', 'KAPNO', 'KRO2NO3',
         'KNO3AL', 'KDEC', 'KROSEC*O2', 'KROPRIM*O2', 'KALKOXY', 'KALKPXY', 'KCH3O2', 'K298CH3O2', 'K14ISOM1', 'KRONO2']


def rate(r, feats=()):
    """One rate expression in a form the MCM uses"""
    forms = ['plain', 'arr', 'arrfrac', 'j', 'named', 'namedfrac', 'plain', 'arr']
    if 'ro2' in feats:
        forms += ['ro2', 'ro2b', 'ro2c', 'ro2']
    if 'exotic' in feats:
        forms += ['tpow', 'tpow2', 'o2', 'm', 'sum', 'jj', 'jjj', 'jf', 'sqrt', 'log', 'cube', 'pade', 'abs', 'zero', 'water',
                  'log10', 'dlog', 'pow2', 'negpow']
    if 'photo' in feats:
        forms += ['j', 'j', 'jf', 'jj', 'jjj']
    f = r.choice(forms)
    if f == 'plain':
        return r.choice([lit(r), lit(r) + '*' + frac(r), lit(r, 3, 6), lit(r, -5, -1)])
    if f == 'arr':
        return '%s*EXP(%s)' % (lit(r), exparg(r))
    if f == 'arrfrac':
        return '%s*EXP(%s)*%s' % (lit(r), exparg(r), frac(r))
    if f == 'j':
        return 'J(%d)' % r.choice(JS)
    if f == 'jf':
        return r.choice(['J(%d)*%s', 'J(%d)*%s*0.5']) % (r.choice(JS), frac(r))
    if f == 'jj':
        return 'J(%d)%s+J(%d)' % (r.choice(JS), r.choice(['', '*' + frac(r)]), r.choice(JS))
    if f == 'jjj':
        return 'J(%d)+J(%d)+J(%d)' % (r.choice(JS), r.choice(JS), r.choice(JS))
    if f == 'named':
        return r.choice(NAMED)
    if f == 'namedfrac':
        return r.choice(['%s*%s', '%s*0.5*%s', '%s*%s']) % (r.choice(NAMED), frac(r))
    if f == 'ro2':
        return '%s*RO2*%s' % (lit(r), frac(r))
    if f == 'ro2b':
        return '%s*%s*RO2' % (lit(r), frac(r))
    if f == 'ro2c':
        return '2*(%s*%s%s)**0.5*RO2*%s' % (r.choice(['KCH3O2', 'K298CH3O2']), lit(r, -15, -12),
                                            r.choice(['', '*EXP(%s)' % exparg(r, False)]), frac(r))
    if f == 'tpow':
        return '%s*TEMP**%s*EXP(%s)' % (lit(r, -20, -16), r.choice(['2', '1.5', '2.0', '-1']), exparg(r))
    if f == 'tpow2':
        return '%s*(TEMP/%s)**%s%s' % (lit(r, -34, -28), r.choice(['300', '298', '300.']), r.choice(['-2.6', '-1', '-4.1', '1.5', '-0.5']),
                                       r.choice(['*M', '*N2', '*O2', '', '*EXP(%s)' % exparg(r)]))
    if f == 'o2':
        return '%s*EXP(%s)*O2' % (lit(r), exparg(r))
    if f == 'm':
        return '%s*M' % lit(r, -34, -30)
    if f == 'sum':
        return '%s*EXP(%s)+%s%s' % (lit(r), exparg(r), lit(r), r.choice(['', '*EXP(%s)' % exparg(r), '*H2O']))
    if f == 'sqrt':
        return 'dsqrt(%s*EXP(%s))' % (lit(r, -30, -24), exparg(r, False))
    if f == 'log':
        return '%s*LOG(TEMP)' % lit(r)
    if f == 'log10':
        return '%s*LOG10(TEMP*%s)' % (lit(r), frac(r))
    if f == 'dlog':
        return '%s*dlog(TEMP)*EXP(%s)' % (lit(r), exparg(r, False))
    if f == 'cube':
        return '%s*EXP(-%d/TEMP)*EXP(%s/TEMP**3)' % (lit(r, 3, 9), r.randint(5000, 9000), lit(r, 7, 7).replace('E+7', 'E7'))
    if f == 'pade':
        return '3.8D-13*EXP(780/TEMP)*(1-1/(1+498*EXP(-1160/TEMP)))*%s' % frac(r)
    if f == 'abs':
        return '%s*dabs(TEMP-%s)' % (lit(r), r.choice(['400', '180.5']))
    if f == 'zero':
        return r.choice(['%s*1.5D0', '%s*2D0', '4.5D+0*%s', '%s*(1.0D0+TEMP/1.0D3)', '%s*1.0D3*2.5D-4', '%s*1.0D-5/3.D-5',
                         '%%s*(TEMP/1.5D2)*2.5D%d/1.0D%d' % (r.randint(1, 9), r.randint(1, 9))]) % lit(r)
    if f == 'water':
        return '%s*EXP(%s)*H2O' % (lit(r, -22, -18), exparg(r))
    if f == 'pow2':
        return '%s*(TEMP/300)**2*(%s)**2' % (lit(r), frac(r))
    return '%s*(TEMP/300.0)**(-%s)' % (lit(r), r.choice(['2', '1.5', '3.1']))


@functools.lru_cache(None)
def long_names():
    """The longest names of the shipped files, and some that agree in their first characters"""
    out = {t[1] for f in SHIPPED for x in shipped(f) for s in x[:2] for t in s if len(t[1]) >= 10}
    return sorted((out | {'HOCH2COCO2HX', 'HOCH2COCO2HY', 'CH2CHCH2NO3B', 'C1311NO3CO2HOOH', 'C1311NO3CO2HOH2', 'CH2OHCL2O2H2'}) - ro2_set())


ALLFEATS = ('ro2', 'exotic', 'photo', 'prefix', 'frac', 'dup', 'both', 'hv', 'empty', 'bath', 'three', 'fracexp', 'onlyroot',
            'wrap')


def generate(r, feats=None, nmax=14, aerosol=False, need=()):
    """A mechanism whose features are drawn swarm style. It always names APINENE, PINONIC and O3, which the front ends
    mention."""
    if feats is None:
        feats = {f for f in ALLFEATS if r.random() < .45}
    feats = set(feats)
    names = r.sample(PLAIN, r.randint(3, 9))
    ro2 = r.sample(ro2_names(), r.randint(1, 4)) if 'ro2' in feats else []
    if 'ro2' in feats and r.random() < .4:
        ro2.append('CH3O2')
    if r.random() < .25:
        long = long_names()
        names += r.sample([x for x in long if len(x) > 10] if r.random() < .5 else long, r.randint(1, 3))
    pool = list(dict.fromkeys(names + ro2 + ['APINENE', 'PINONIC', 'O3'] + list(need)))
    r.shuffle(pool)

    def term(side):
        c = ''
        k = r.random()
        if 'prefix' in feats and k < .3:
            c = r.choice(['2', '3', '2.0', '1', '1.0', '2', '3', '2.0'] + (['4', '10', '12', '3.0', '25.0', '128'] if side == 'r' else ['4']))
        elif 'frac' in feats and side == 'r' and k < .6:
            c = r.choice(['0.3', '0.65', '.5', '1.25', '0.05', '0.10', '0.333', '0.4375', '0.0625', '1.3333', '0.001', '0.12345', '1.05',
                          '12.5', '2.5', '0.12345678', '0.00025', '1.0000001', '33.3333', '0.6666666667', '0.9999'])
        elif 'fracexp' in feats and side == 'l' and k < .45:
            c = r.choice(['1.5', '2.5', '1.25', '1.75'])
        return [c, r.choice(pool)]
    n = r.randint(2, nmax)
    rx = []
    for i in range(n):
        k = r.random()
        left = [term('l') for _ in range(1 if k < .4 else 2 if k < .9 or 'three' not in feats else 3)]
        if 'onlyroot' not in feats and i % 3 == 0:
            left = [['', r.choice(pool)]]
        right = [term('r') for _ in range(r.choice([1, 1, 2, 2, 3]))]
        if 'empty' in feats and r.random() < .2:
            right = []
        if 'dup' in feats and r.random() < .3:
            (left if r.random() < .5 or not right else right).append(['', (left + right)[0][1]])
        if 'dup' in feats and r.random() < .2:
            t = r.choice(left)
            left.append([r.choice(['', '2']) if 'prefix' in feats else '', t[1]])
        if 'both' in feats and r.random() < .35:
            right.append([r.choice(['', '2', '0.5']) if 'frac' in feats else '', r.choice(left)[1]])
        if 'bath' in feats and r.random() < .25:
            b = r.choice([x for x in BATH if not (aerosol and x == 'H2O')])
            (left if r.random() < .7 else right).append(['', b])
        if 'hv' in feats and r.random() < .3:
            left.insert(r.choice([len(left), r.randint(0, len(left))]), ['', 'hv'])
            if r.random() < .1:
                right.insert(r.randint(0, len(right)), ['', 'hv'])
        left, right = dedup_cap(left), right[:6]
        rx.append([left, right, rate(r, feats)])
    used = {t[1] for x in rx for side in x[:2] for t in side}
    missing = [x for x in ['APINENE', 'O3', 'PINONIC'] + list(need) if x not in used]
    for a in missing:
        rx.append([[['', a]], [['', r.choice(pool)]], lit(r)])
    r.shuffle(rx)
    m = {'r': rx, 'fmt': fmt(r, feats)}
    return m


def dedup_cap(left):
    """At most a total reactant order of five, so that states stay in range"""
    out, order = [], 0.0
    for c, n in left:
        o = float(c or 1) if n != 'hv' else 0
        if order + o <= 5:
            out.append([c, n])
            order += o
    return out or [['', left[0][1]]]


def fmt(r, feats=()):
    return {'num': r.choice(['{%d.}', '{%d.}', '{%d}', '{ %d.}']), 'a': r.choice([' ', '\t ', ' \t ']), 'b': r.choice([' ', '\t', ' \t']),
            'plus': r.choice([' + ', ' + ', '+', ' +  ']), 'eq': r.choice([' = ', ' = ', '=', '  = ']),
            'wrap': r.choice([0, 0, 1, 2, 3]) if 'wrap' in feats else 0, 'end': r.choice(['\n', '\n', '\n', ' \n', '\n\n']),
            'crlf': int(r.random() < .1), 'colon': r.choice([' :', ' :', ':', '    :']), 'semi': r.choice([None, None, '', '  ']),
            'rate': r.choice([0, 0, 0, 1, 2])}


OPERATOR = re.compile(r'(?<![DEde*(])([-+/]|(?<!\*)\*(?!\*))(?!\*)')


def spaced(k, how, i):
    """A rate expression with blanks around operators, or broken into lines there"""
    if not how:
        return k
    n = [i]

    def sub(m):
        n[0] += 1
        return ' %s ' % m.group(1) if how == 1 or n[0] % 3 else ' %s\n\t' % m.group(1)
    return OPERATOR.sub(sub, k)


def slice_shipped(r, n=None, need=('APINENE', 'PINONIC', 'O3')):
    """Some reactions of a shipped mechanism, renumbered"""
    name = r.choice(SHIPPED)
    rx = shipped(name)
    n = n or r.randint(4, 40)
    if r.random() < .5:
        i = r.randrange(len(rx))
        out = rx[i:i + n]
    else:
        out = r.sample(rx, min(n, len(rx)))
    out = [x for x in out if len(x[2]) < 85 and x[0] and not any(t[1] == 'H2O' for s in x[:2] for t in s)]
    used = {t[1] for x in out for side in x[:2] for t in side}
    out = [[[list(t) for t in x[0]], [list(t) for t in x[1]], x[2]] for x in out]
    for a in need:
        if a not in used:
            out.append([[['', a]], [['', 'O3']], '1.0D-15'])
    return {'r': out, 'fmt': {'num': '{%d.}', 'a': ' \t ', 'b': ' \t', 'plus': ' + ', 'eq': ' = ', 'wrap': 0, 'end': '\n', 'crlf': 0}}


def text(m):
    """The mechanism file"""
    f = m['fmt']
    out = []
    for i, (left, right, k) in enumerate(m['r']):
        nl = ['\n' if f['wrap'] and (i + j) % (4 - f['wrap']) == 0 else '' for j in range(3)]

        def side(s):
            # a line break only next to a blank: the parser joins lines without one
            glue = f['plus'] if not nl[0] else ' +\n '
            return glue.join(c + n for c, n in s)
        eq = f['eq'] if not nl[1] else ' =\n '
        semi = f.get('semi')
        s = (f['num'] % (i + 1) + f['a'] + side(left) + eq + side(right) + f.get('colon', ' :') + (' \n' if nl[2] else '') + f['b']
             + spaced(k, f.get('rate'), i) + (f['b'] if semi is None else semi) + ';' + f['end'])
        out.append(s)
    s = ''.join(out)
    return s.replace('\n', '\r\n') if f['crlf'] else s


def species(m):
    """Names of the species that have a concentration"""
    seen = {}
    for left, right, k in m['r']:
        for c, n in left + right:
            if n != 'hv':
                seen[n] = 1
    return list(seen)


def rng(*key):
    return random.Random('/'.join(str(k) for k in key))

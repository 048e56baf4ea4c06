exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
B['c04-kmt-exponent']=dict(property='C04',edits=[(P,'write_rate_file_fortran',"k130 = 2.5E-30*M*(TEMP/300.0)**(-5.5)","k130 = 2.5E-30*M*(TEMP/300.0)**(-5)")] if False else [],needs='',breaks='',demo='')
del B['c04-kmt-exponent']
B['c05-season']=dict(property='C05',edits=[(P,'write_rate_file_numba',"theta = 2.0 * pi * (currentDayOfYear - 1.0) / 365.0","theta = 2.0 * pi * (currentDayOfYear - 1.0 + np.floor(ttime / 86400.0)) / 365.0")],
 needs='a simulation that goes past midnight',
 breaks='photolysis no longer repeats with a period of one day',
 demo=H+'''
b.mechanism(['O3 = OH : J(1)', 'APINENE = PINONIC : J(4)', 'PINONIC + O3 = OH : 1.0D-16'])
n = None
r = b.run('gas', {'hour_of_day': 11.0, 'simulation_time': 2 * 86400.0, 'batch_step': 86400.0}, {'O3': 18.0, 'APINENE': 30.0}, fracs=(0.0, .1), states=[[1e10, 1e9, 1e8, 1e7]])
a = [[c[3] for c in x['calls'] if c[0] == 'rhs' and np.allclose(c[2], [1e10, 1e9, 1e8, 1e7])] for x in r.batches]
for x, y in zip(*a):
    if not close(x, y, 1e-7):
        fail('one day later photolysis is another')
''')
B['c06-partial-last']=dict(property='C06',edits=[(OA,'run_simulation',"t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds","t_output, y_output = exp_sim.simulate(min(batch_step,simulation_time-total_time)) #Simulate 'batch' seconds")],
 needs='an aerosol run whose simulation time is not a multiple of the batch length',
 breaks='the last row is reported at a time up to which the model was not simulated',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CCC2CC1C2(C)C', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
import pickle
r = b.run('aerosol', {'simulation_time': 700.0, 'batch_step': 300.0, 'num_bins': 2, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0}, vp={'CC1=CCC2CC1C2(C)C': -9., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.})
with open(os.path.join(b.dir('aerosol'), 'MCM_APINENE_t_output.pickle'), 'rb') as f:
    t = pickle.load(f)
done = np.cumsum([x['tfinal'] - x['t0'] for x in r.batches])
if len(t) != len(done) or not close(t, done, 1e-9):
    fail('reported times %r, simulated %r' % (list(t), list(done)))
''')
B['c07-name-prefix']=dict(property='C07',edits=[(P,'write_RO2_indices',"        if name in species_dict2array:\n            RO2_indices.append(species_dict2array[name])","        if name in species_dict2array:\n            RO2_indices.append(species_dict2array[name])\n        elif 'a'+name in species_dict2array: #isomers\n            RO2_indices.append(species_dict2array['a'+name])") if False else
  (P,'write_RO2_indices',"        if name in species_dict2array:\n            RO2_indices.append(species_dict2array[name])","        for species in species_dict2array:\n            if species.rstrip('H') == name: # hydroperoxides are counted with their radical\n                RO2_indices.append(species_dict2array[species])")],
 needs='a species named like an MCM peroxy radical followed by H',
 breaks='that species is counted in the RO2 total',
 demo=H+'''
b.mechanism(['CH3O2 + O3 = CH3O2H : 1.0D-17', 'APINENE = PINONIC : 1.0D-15*RO2', 'CH3O2H + OH = CH3O2 : 1.0D-12'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
i = r.index
for _, t, y, d in r.calls('rhs'):
    k = 1e-15 * y[i['CH3O2']]
    if not close(d[i['PINONIC']], k * y[i['APINENE']], 1e-6):
        fail('RO2 is %r, not %r' % (d[i['PINONIC']] / y[i['APINENE']] / 1e-15, y[i['CH3O2']]))
''')
B['c08-result-buffer']=dict(property='C08',edits=[(OA,'run_simulation',"        dy_dt=numpy.zeros((total_length_y,1),)\n","        if not hasattr(dydt_func,'dy_dt'):\n            dydt_func.dy_dt=numpy.zeros((total_length_y,1),)\n        dy_dt=dydt_func.dy_dt\n        dy_dt[:]=0.0\n")],
 needs='a solver that keeps the array an earlier call returned (CVODE with its difference quotients does)',
 breaks='the derivative kept from before changes with the next call',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CCC2CC1C2(C)C', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
pre = """
import atexit, os, sys
import numpy as np
def install():
    import assimulo.problem as ap
    old = ap.Explicit_Problem.__init__
    def init(self, rhs=None, *a, **k):
        def f(t, y):
            r = rhs(t, y)
            kept.append((r, np.array(r, float, copy=True)))
            for x, c in kept:
                if not np.array_equal(np.asarray(x, float), c):
                    print('A RETURNED ARRAY CHANGED')
                    os._exit(7)
            return r
        old(self, f, *a, **k)
    ap.Explicit_Problem.__init__ = init
kept = []
install()
"""
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 2}, {'O3': 18.0, 'APINENE': 30.0}, vp={'CC1=CCC2CC1C2(C)C': -9., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}, pre=pre, check=False)
if r.rc:
    print(r.log[-500:])
    fail('the run ended with %d' % r.rc)
''')
B['c09-depleted']=dict(property='C09',edits=[(OG,'run_simulation',"        dydt=dydt_eval(numpy.zeros((len(y_asnumpy))),reactants)\n","        dydt=dydt_eval(numpy.zeros((len(y_asnumpy))),reactants)\n        # nothing is left to lose of a depleted compound\n        dydt[numpy.logical_and(y_asnumpy<1.0,dydt<0.0)]=0.0\n")],
 needs='a reactant that is used up (less than a molecule per cc) while the other one is not',
 breaks='its partner still reacts and products are still made: mass appears',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC : 1.0D-10'])
s = [None, None, None]
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, states=[[0.5, 1e11, 1e11], [1e11, 0.9, 1e3], [1e10, 1e10, 0.0]])
i = r.index
for _, t, y, d in r.calls('rhs'):
    for a in ('O3', 'APINENE'):
        if abs(d[i[a]] + d[i['PINONIC']]) > 1e-9 * abs(d[i['PINONIC']]):
            fail('%s and PINONIC together change by %r' % (a, d[i[a]] + d[i['PINONIC']]))
''')
B['c12-lock']=dict(property='C12',edits=[(F,None,"        # Copy mechanism file into working directory\n","        # Keep other runs out of this folder while its files are made\n        os.close(os.open('parsing.lock',os.O_CREAT|os.O_EXCL))\n\n        # Copy mechanism file into working directory\n"),
   (F,None,"        # Parse equation file and store relevant dictionaries for later retrieval\n","        # Parse equation file and store relevant dictionaries for later retrieval\n        os.remove('parsing.lock')\n")] if False else [],needs='',breaks='',demo='')
del B['c12-lock']
B['c15-clear-in-parallel']=dict(property='C15',edits=[(P,'write_loss_gain_fortran',"    f.write('    !Set values to zero \\n') \n    f.write('    loss_gain_array(:)=0.0D0 \\n') \n","    if openMP is False:\n        f.write('    !Set values to zero \\n') \n        f.write('    loss_gain_array(:)=0.0D0 \\n') \n"),
   (P,'write_loss_gain_fortran',"            f.write('!$OMP& SHARED(r,loss_gain_array)  \\n') \n            f.write('!$OMP SINGLE \\n') ","            f.write('!$OMP& SHARED(r,loss_gain_array)  \\n') \n            f.write('!$OMP SINGLE \\n') \n            f.write('    loss_gain_array(:)=0.0D0 \\n') \n            f.write('!$OMP END SINGLE NOWAIT\\n') \n            f.write('!$OMP SINGLE \\n') ")],
 needs='OpenMP on, several threads, and one that sets its first elements before another has cleared the array',
 breaks='derivatives that were set are cleared again, depending on the threads',
 demo=H+'''
sp = ['Y%d' % i for i in range(400)]
R = ['APINENE + O3 = PINONIC + OH : 1.0D-16'] + ['APINENE + OH = %s : 1.0D-12' % s for s in sp]
b.mechanism(R)
n = 400 + 4
g = np.random.RandomState(1)
st = [(10.0 ** g.uniform(5, 9, n)).tolist() for _ in range(300)]
a = b.run('f2py', {'simulation_time': 100.0, 'openMP': False}, {'O3': 18.0, 'APINENE': 30.0}, states=st, order=['rhs'])
p = b.run('f2py', {'simulation_time': 100.0, 'openMP': True}, {'O3': 18.0, 'APINENE': 30.0}, states=st, order=['rhs'], threads=8)
for (_, t, y, d), (_, t2, y2, d2) in zip(a.calls('rhs'), p.calls('rhs')):
    if not close(d, d2, 1e-9, np.abs(d) + 1e-30):
        fail('%d elements of the derivative differ from the serial code' % np.sum(d != d2))
''')
B['c16-shared-rate']=dict(property='C16',edits=[(P,'write_partitioning_section_fortran_ignore',"!$OMP& PRIVATE(k_i_m_t,dm_dt), & \\n","!$OMP& PRIVATE(k_i_m_t), & \\n")],
 needs='several threads that fill the rates of their bins at the same time',
 breaks='a bin gets the condensation rates of another one',
 demo=H+'''
sp = {'Y%d' % i: 'C' * (i + 2) + 'O' for i in range(300)}
b.mechanism(['APINENE + O3 = PINONIC + OH : 1.0D-16'] + ['APINENE + OH = %s : 1.0D-12' % s for s in sp])
b.xml(dict(sp, APINENE='CC1=CCC2CC1C2(C)C', PINONIC='CC(=O)C1CC(C1(C)C)CC(=O)O'))
n = 304 + 1 + (302 + 1) * 16
g = np.random.RandomState(1)
st = [(10.0 ** g.uniform(5, 9, n)).tolist() for _ in range(60)]
res = [b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 16, 'ignore_vp': False}, {'O3': 18.0, 'APINENE': 30.0}, states=st, threads=k) for k in (1, 8)]
if not any(len(c[2]) == n for c in res[0].calls('rhs')) or len(res[0].calls('rhs')) < 100:
    fail('the demonstration does not fit: %d' % len(res[0].calls('rhs')[0][2]))
for (_, t, y, d), (_, t2, y2, d2) in zip(*[r.calls('rhs') for r in res]):
    if not close(d, d2, 1e-9, np.abs(d) + 1e-9 * np.max(np.abs(d))):
        fail('%d elements of the derivative differ from those with one thread' % np.sum(d != d2))
''')
B['c17-evaporation-limit']=dict(property='C17',edits=[(P,'write_partitioning_section_fortran_ignore',"        dy_dt(index1:index2)=dm_dt(1:num_species_condensed)  \\n","        dy_dt(index1:index2)=MAX(dm_dt(1:num_species_condensed),-1.0D0*ABS(temp_array(:)))  \\n")],
 needs='a compound that would evaporate within a second',
 breaks='the particles lose less than the gas gains',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CCC2CC1C2(C)C', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
st = [[0., 0., 0., 0., 1e17] + [1e3, 1e3, 1e8] * 2, [0., 0., 0., 0., 1e17] + [1e8, 1e7, 1e8] * 2]
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 2, 'ignore_vp': False}, {'O3': 18.0, 'APINENE': 30.0}, states=st, vp={'CC1=CCC2CC1C2(C)C': -1., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -7.})
i = r.index
c = [x for x in r.calls('rhs') if x[2][i['O3']] == 0]
if not c:
    fail('the demonstration does not fit')
for _, t, y, d in c:
    for k, g in enumerate((i['APINENE'], i['PINONIC'], 4)):
        # the condensing species are listed in the order of their gas columns
        p = sum(d[5 + 3 * n + sorted((i['APINENE'], i['PINONIC'], 4)).index(g)] for n in range(2))
        if abs(d[g] + p) > 1e-6 * max(abs(d[g]), abs(p)):
            fail('column %d: gas %r, particles %r' % (g, d[g], p))
''')
B['c18-kelvin-cap']=dict(property='C18',edits=[(P,'write_partitioning_section_fortran_ignore',"        kelvin_factor(:)=EXP((4.0E0*mw_array(:)*1.0D-3*sigma)/ & \\n","        kelvin_factor(:)=EXP(MIN(1.0D0,4.0E0*mw_array(:)*1.0D-3*sigma)/ & \\n")] if False else [(P,'write_partitioning_section_fortran_ignore',"        (R_gas*Model_temp*size_array(size_step)*2.0D0*density)) \\n') \n","        (R_gas*Model_temp*size_array(size_step)*2.0D0*density)) \\n') \n    f.write('        WHERE (kelvin_factor > 2.0D0) kelvin_factor=2.0D0 \\n') \n")],
 needs='a heavy compound in the smallest particles',
 breaks='the Kelvin effect of small particles is cut off',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-30'])
b.xml({'APINENE': 'CC1=CCC2CC1C2(C)C', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False, 'lowersize': 0.002, 'uppersize': 0.002}
c = {}
for sig in (72e-3, 144e-3):
    r = b.run('aerosol', dict(S, sigma=sig), {'O3': 18.0, 'APINENE': 30.0}, states=[[0., 0., 0., 0., 0.] + [1e5, 1e5, 1e5]], vp={'CC1=CCC2CC1C2(C)C': -9., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.})
    c[sig] = [x[3].ravel()[5:8] for x in r.calls('rhs') if x[2][r.index['O3']] == 0 and x[2][5] == 1e5][0]
# evaporation alone: proportional to exp(a*sigma); the ratio is therefore the Kelvin factor itself, heavier compounds have the larger
q = c[144e-3] / c[72e-3]
if not np.all(q > 1.0) or max(q[:2]) < 2.5:
    fail('twice the surface tension raises evaporation by factors of only %r' % q)
''')
B['c19-yield-order']=dict(property='C19',edits=[(OY,'run_simulation',"        SOA_matrix[time_step,0]=dydt_func.total_SOA_mass\n",""),(OY,'run_simulation',"        # The last call made by the solver need not be at the accepted solution","        SOA_matrix[time_step,0]=dydt_func.total_SOA_mass\n        # The last call made by the solver need not be at the accepted solution")],
 needs='a fixed-yield run whose solver tried another state last',
 breaks='the recorded mass is that of a trial state',
 demo=H+'''
import pickle
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCO 0.1\\nCCCCCCO 0.2\\n')
r = b.run('yield', {'simulation_time': 200.0, 'batch_step': 100.0, 'num_bins': 2, 'save_output': True}, vp={'CCCCO': -8., 'CCCCCCO': -9.})
def get(n):
    with open(os.path.join(b.dir('yield'), 'MCM_yield_%s_output.pickle' % n), 'rb') as f:
        return np.array(pickle.load(f), float)
y, soa = get('y'), get('SOA').ravel()
# mass is linear in the condensed amounts: two rows and two unknown molar masses
A = np.array([[row[3] + row[6], row[4] + row[7]] for row in y]) / 6.0221409e23 * 1e12
mw = []
import re
sys.path.insert(0, os.getcwd())
import hashlib
def hv(*k):
    return int.from_bytes(hashlib.sha256('|'.join(map(str, k)).encode()).digest()[:6], 'big') / float(1 << 48)
m = np.array([40.0 + 300.0 * hv('mw', s) for s in ('CCCCO', 'CCCCCCO')])
if not close(A @ m, soa, 1e-5):
    fail('recorded masses %r, those of the recorded states %r' % (list(soa), list(A @ m)))
''')
B['c20-isomers']=dict(property='C20',edits=[(PC,'Pure_component1',"            b = boiling_point(Pybel_object_dict[SMILES_dict[compound]])\n","            # isomers share their boiling point\n            weight = round(y_mw[species_dict2array[compound]],3)\n            if weight not in sat_vp_org:\n                sat_vp_org[weight] = boiling_point(Pybel_object_dict[SMILES_dict[compound]])\n            b = sat_vp_org[weight]\n")],
 needs='two isomers',
 breaks='the second one gets the boiling point, and so the vapour pressure, of the first',
 demo=H+'''
pre = """
import pybel
pybel.Molecule.molwt = property(lambda self: 150.0 + (len(self.smiles) % 2))
"""
A, B_, C = 'CC1=CCC2CC1C2(C)C', 'CC(=O)C1CC(C1(C)C)CC(=O)O', 'CC(C)C(=O)CCCC(=O)'
assert len(B_) % 2 == len(A) % 2 or len(C) % 2 == len(A) % 2 or len(C) % 2 == len(B_) % 2
got = {}
for order in ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
    names = ['APINENE', 'PINONIC', 'ISO']
    sm = dict(zip(names, (A, B_, C)))
    b.mechanism(['%s + O3 = %s + %s : 1.0D-30' % tuple(names[k] for k in order)])
    b.xml(sm)
    r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}, {'O3': 18.0, 'APINENE': 30.0}, states=[[0.] * 5 + [1e6] * 3 + [1e8]], vp={A: -8., B_: -8., C: -8.}, vp_tb=True, pre=pre)
    i = r.index
    c = [x[3].ravel() for x in r.calls('rhs') if x[2][i['O3']] == 0 and x[2][5] == 1e6][0]
    for s in names:
        got.setdefault(s, []).append(c[i[s]])
for s, v in got.items():
    if not close(v, v[0], 1e-4):
        fail('evaporation of %s depends on which species comes first: %r' % (s, v))
''')
B['c21-kept-dictionary']=dict(property='C21',edits=[(P,None,"def extract_mechanism(filename,print_options): #Change to the filename of interest","def extract_mechanism(filename,print_options,species_dict2array=collections.defaultdict()): #Change to the filename of interest"),
   (P,'extract_mechanism',"    species_dict2array=collections.defaultdict()\n","    for species in list(species_dict2array): #None is known yet\n        if species not in ['AIR','O2']:\n            del species_dict2array[species]\n")],
 needs='two mechanisms parsed in one process, the first of them with O2 or AIR',
 breaks='the second one knows a column that is not its own',
 demo=H+'''
pre = """
import os, sys
sys.path.insert(0, os.getcwd())
import Parse_eqn_file
with open('first.eqn.txt', 'w') as f:
    f.write('{1.} \\\\t APINENE + O2 = PINONIC + AIR : 1.0D-20 ;\\\\n')
Parse_eqn_file.extract_mechanism('first.eqn.txt', {'Full_eqn': 1})
"""
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
a = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre)
if a.index != r.index:
    fail('columns %r, alone %r' % (r.index, a.index))
''')
B['c23-yields-added']=dict(property='C23',edits=[(P,'extract_species',"            concentration_dict[Pybel_object]=float(input[1])\n            species_step+=1\n","            concentration_dict[Pybel_object]=float(input[1])\n            species_step+=1\n        else:\n            concentration_dict[Pybel_object_dict[smiles]]+=float(input[1])\n")],
 needs='a list of yields with the same line twice',
 breaks='the yield of that compound counts twice',
 demo=H+'''
y0 = []
for text in ('CCCCO 0.1\\nCCCCCCO 0.2\\n', 'CCCCO 0.1\\nCCCCCCO 0.2\\nCCCCO 0.1\\n'):
    b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', text)
    r = b.run('yield', {'simulation_time': 100.0, 'batch_step': 100.0, 'num_bins': 2}, vp={'CCCCO': -8., 'CCCCCCO': -9.})
    y0.append(r.batches[0]['y0'][:2])
if not close(y0[0], y0[1], 1e-9):
    fail('a line given twice changes the start from %r to %r' % tuple(map(list, y0)))
''')
B['c24-single-precision']=dict(property='C24',edits=[(P,'write_loss_gain_matrix',"    loss_gain=lil_matrix((num_species, equations), )","    loss_gain=lil_matrix((num_species, equations), dtype=np.float32)")],
 needs='a fractional yield that is not a binary fraction, read from the saved matrix',
 breaks='the saved stoichiometry is wrong in the eighth digit while the simulation is right',
 demo=H+'''
b.mechanism(['O3 + APINENE = 0.35PINONIC + 0.826OH : 1.0D-16'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
z = np.load(b.path('loss_gain_MCM_APINENE.npz'))
from scipy.sparse import csr_matrix
m = csr_matrix((z['data'], z['indices'], z['indptr']), shape=z['shape']).toarray()
for s, v in (('PINONIC', .35), ('OH', .826), ('O3', -1.), ('APINENE', -1.)):
    if abs(float(m[r.index[s], 0]) - v) > 1e-10:
        fail('the matrix has %r for %s' % (m[r.index[s], 0], s))
''')
B['c13-csv-digits']=dict(property='C13',edits=[(OF,None,'        df.to_csv(filename+"_output_matrix.csv")','        df.to_csv(filename+"_output_matrix.csv",float_format="%.6g")')],
 needs='a value with more than six digits, read from the table',
 breaks='the table holds rounded concentrations',
 demo=H+'''
import pandas
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
r = b.run('f2py', {'simulation_time': 300.0, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0})
m = pandas.read_csv(os.path.join(b.dir('f2py'), 'MCM_APINENE_output_matrix.csv'), index_col=0).values
y = np.array([x['y'][-1] for x in r.batches])
if m.shape != y.shape or not close(m, y, 1e-12):
    fail('the table differs from the results')
''')
B['c14-read-error']=dict(property='C14',edits=[(P,'extract_mechanism',"        data=myfile.read().replace('\\n', '')\n","        data=''\n        try:\n            for line in myfile:\n                data+=line.replace('\\n', '')\n        except OSError: # end of the file\n            pass\n")],
 needs='a disk error while the mechanism is read, after the first lines',
 breaks='the run goes on with the reactions read so far',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11', 'PINONIC + OH = O3 : 1.0D-12'])
pre = """
import builtins, errno
real = builtins.open
class Bad:
    def __init__(self, f):
        self.f, self.n = f, 0
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.f.close()
    def close(self):
        self.f.close()
    def _hit(self):
        raise OSError(errno.EIO, 'Input/output error')
    def read(self, *a):
        self._hit()
    def readlines(self, *a):
        self._hit()
    def readline(self, *a):
        self.n += 1
        if self.n > 2:
            self._hit()
        return self.f.readline()
    def __iter__(self):
        return self
    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l
def opened(name, mode='r', *a, **k):
    f = real(name, mode, *a, **k)
    return Bad(f) if str(name).endswith('APINENE.eqn.txt') and 'b' not in mode and 'w' not in mode else f
builtins.open = opened
"""
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre, check=False)
if r.rc == 0:
    fail('the run ended normally although the mechanism could not be read')
''')
B['c10-dated-copy']=dict(property='C10',edits=[(G,None,"            if \".eqn.txt\" in fname:\n                os.remove(fname)\n","            if \".eqn.txt\" in fname and fname != filename+'.eqn.txt':\n                os.remove(fname)\n"),
  (G,None,"        copy2('./mechanism_files/'+filename+'.eqn.txt','.')","        if not os.path.exists(filename+'.eqn.txt') or not filecmp.cmp('./mechanism_files/'+filename+'.eqn.txt',filename+'.eqn.txt'):\n            copy2('./mechanism_files/'+filename+'.eqn.txt','.')"),
  (G,None,"import pickle\n","import pickle\nimport filecmp\n")],
 needs='a copy of the mechanism left by an earlier run with the size and the date of the new one (a clock of coarse resolution, or a crash)',
 breaks='the old or damaged mechanism is used',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
m = b.path('mechanism_files/MCM_APINENE.eqn.txt')
st = os.stat(m)
b.mechanism(['O3 + APINENE = PINONIC + OH : 3.0D-16'])
os.utime(m, ns=(st.st_atime_ns, st.st_mtime_ns))
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(3e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1})])
''')

B['c12-workshop']=dict(property='C12',edits=[(F,None,"        # Copy mechanism file into working directory\n","        # Keep a second run out of this folder while its files are made\n        os.mkdir('parsing')\n        # Copy mechanism file into working directory\n"),
   (F,None,"        num_species=len(species_dict.keys())\n        #pdb.set_trace()\n","        num_species=len(species_dict.keys())\n        os.rmdir('parsing')\n        #pdb.set_trace()\n") if False else (F,None,"        equations=outputdict['max_equations']\n","        equations=outputdict['max_equations']; os.rmdir('parsing')\n")],
 needs='a run killed while it parses',
 breaks='every later run stops because the folder is still marked as in use',
 demo=H+"""
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
pre = '''
import builtins, os
real = builtins.open
def opened(name, mode='r', *a, **k):
    if str(name) == 'MCM_APINENE.eqn.txt' and 'r' in mode and 'b' not in mode:
        os._exit(9)
    return real(name, mode, *a, **k)
builtins.open = opened
'''
r = b.run('f2py', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre, check=False)
if r.rc != 9:
    print('the first run was not killed')
r = b.run('f2py', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, check=False)
if r.rc or not r.sims:
    print(r.log[-600:])
    fail('the run after the one that was killed ends with %d' % r.rc)
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1})])
""")
B['c04-broadening']=dict(property='C04',edits=[(P,'write_rate_file_fortran',"    f.write('    fc9     = 0.4 \\n') ","    f.write('    fc9     = 0.6 \\n') ")],
 needs='a mechanism with KMT09, in the Fortran model',
 breaks='the coefficient differs from the MCM and from the default model by up to a third',
 demo=H+"""
b.mechanism(['O3 + APINENE = PINONIC + OH : KMT09'])
d = []
for v in ('gas', 'f2py'):
    r = b.run(v, {'temp': 288.15, 'simulation_time': 100.0, 'batch_step': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, states=[[1e5, 1e5, 1e5, 1e5]])
    i = r.index
    d.append([c[3].ravel()[i['PINONIC']] for c in r.calls('rhs') if c[2][0] == 1e5][0])
if not close(d[0], d[1], 1e-4):
    fail('default model %r, Fortran model %r' % tuple(d))
""")
B['c11-water-pickled']=dict(property='C11',edits=[(Y,None,"        y_gas[species_dict2array[smiles]]=concentration_dict[Pybel_object]*total_voc_ppb*2.46E10","        if files_exist is False:\n            concentration_dict[Pybel_object]*=total_voc_ppb\n        y_gas[species_dict2array[smiles]]=concentration_dict[Pybel_object]*2.46E10"),
   (Y,None,"        with open(filename+'concentration_dict.pickle', 'wb') as handle:\n            pickle.dump(concentration_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)\n",""),
   (Y,None,"    # Add water    \n","    if files_exist is False:\n        with open(filename+'concentration_dict.pickle', 'wb') as handle:\n            pickle.dump(concentration_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)\n    # Add water    \n")],
 needs='a resumed fixed-yield run with another amount of the parent compound or another temperature',
 breaks='the resumed run starts with the amounts of the run before',
 demo=H+"""
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCO 0.1\\nCCCCCCO 0.2\\n')
S = {'simulation_time': 100.0, 'batch_step': 100.0, 'num_bins': 2}
r = b.run('yield', dict(S, total_voc_mass=30.0), vp={'CCCCO': -8., 'CCCCCCO': -9.})
r = b.run('yield', dict(S, total_voc_mass=60.0, files_exist=True), vp={'CCCCO': -8., 'CCCCCCO': -9.})
a = r.batches[0]['y0'][:2]
r = b.run('yield', dict(S, total_voc_mass=60.0), vp={'CCCCO': -8., 'CCCCCCO': -9.})
if not close(a, r.batches[0]['y0'][:2], 1e-9):
    fail('resumed %r, parsed %r' % (list(a), list(r.batches[0]['y0'][:2])))
""")

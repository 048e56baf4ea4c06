exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
AERO='''b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
V = {'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False, 'save_output': True}
C = {'O3': 18.0, 'APINENE': 30.0}
'''
B['c09-fast-radical']=dict(property='C09',edits=[(OG,'dydt_func',"        return dydt","        # nothing lives for less than a millisecond\n        dydt=numpy.maximum(dydt,-1.0E+3*numpy.abs(y_asnumpy))\n        return dydt")],
 needs='a radical that lives for less than a millisecond, while what it turns into gains at the full rate',
 breaks='mass is created',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16', 'O1D = OH : 2.0D+5'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
i = r.index
for _, t, y, d in r.calls('rhs'):
    d = d.ravel()
    if not close(-d[i['O1D']], d[i['OH']], 1e-9, abs(d[i['OH']]) + 1e-300):
        fail('O1D changes by %r, OH by %r' % (d[i['O1D']], d[i['OH']]))
''')
B['c17-small-rates']=dict(property='C17',edits=[(OA,'dydt_func',"        # Add the calculated gains/losses to the complete dy_dt array","        dy_dt_calc[numpy.abs(dy_dt_calc)<1.0E-2]=0.0 # below what matters\n        # Add the calculated gains/losses to the complete dy_dt array")],
 needs='a compound that condenses so slowly that the share of one bin is less than a molecule per cc in a hundred seconds, but the sum over the bins is not',
 breaks='the gas loses what no bin gains',
 demo=H+AERO+'''
S['num_bins'] = 4
n = b.run('aerosol', S, C, vp=V)
i = n.index
k = min(i['APINENE'], i['PINONIC'])
y = [1.0] * 4 + [1e17] + [0.0, 1e6, 1e9] * 4
for g in 10.0 ** np.arange(0, 7, .25):
    y[k] = g
    r = b.run('aerosol', S, C, vp=V, states=[y]) if g == 1.0 else r
    break
states = []
for g in 10.0 ** np.arange(0, 7, .25):
    z = list(y)
    z[k] = g
    states.append(z)
r = b.run('aerosol', S, C, vp=V, states=states)
for _, t, y, d in r.calls('rhs'):
    d = d.ravel()
    bins = sum(d[5 + 3 * q] for q in range(4))
    if y[5] == 0.0:
        react = 1e-16 * y[i['APINENE']] * y[i['O3']] * (-1 if k == i['APINENE'] else 1)
        if not close(d[k] - react, -bins, 1e-6, abs(bins) + abs(d[k]) + abs(react)):
            fail('the gas changes by %r, the bins by %r' % (d[k] - react, bins))
''')
B['c16-shared-density']=dict(property='C16',edits=[(P,'write_partitioning_section_fortran_ignore',"!$OMP& PRIVATE(density,water_moles), & ","!$OMP& PRIVATE(water_moles), & ")],
 needs='several threads, one of which computes the density of its bin while another uses it',
 breaks='a bin is given the density of another',
 demo=H+AERO+'''
S['num_bins'] = 8
VP = V
rs = np.random.RandomState(1)
states = []
for _ in range(60):
    y = [1e10] * 4 + [1e17]
    for q in range(8):
        y += [10.0 ** rs.uniform(3, 10), 10.0 ** rs.uniform(3, 10), 10.0 ** rs.uniform(3, 10)]
    states.append(y)
one = b.run('aerosol', S, C, vp=V, states=states)
for k in range(6):
    many = b.run('aerosol', S, C, vp=V, states=states, threads=8)
    for (_, t, y, d), (_, t1, y1, d1) in zip(one.calls('rhs'), many.calls('rhs')):
        if not close(d, d1, 1e-9, np.abs(d).max()):
            fail('eight threads do not give what one gives')
# the race need not show: the generated code must not share what the threads write
src = ''.join(open(b.path('Aerosol/f2py/Partitioning.f90')).read().replace('&', ' ').split())
if 'density=' in src and 'PRIVATE(density' not in src and ',density,' not in src and ',density)' not in src:
    fail('the density is shared by the threads')
''')
B['c19-rounded-mass']=dict(property='C19',edits=[(OY,None,"        SOA_matrix[time_step,0]=dydt_func.total_SOA_mass","        SOA_matrix[time_step,0]=round(float(dydt_func.total_SOA_mass),4)")],
 needs='particles of less than a microgram of organics per cubic metre',
 breaks='the recorded mass is rounded',
 demo=H+'''
import pickle
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCCCO  0.35051\\nCC(=O)CCC  0.25\\n')
S = {'simulation_time': 100.0, 'batch_step': 100.0, 'num_bins': 1, 'save_output': True}
r = b.run('yield', S, finals=[[1e8, 1e8, 1e17, 3e5, 2e5, 1e9]])
m = float(np.ravel(pickle.load(open(b.path('Aerosol/f2py/Fixed_yield/MCM_yield_SOA_output.pickle'), 'rb')))[0])
r2 = b.run('yield', S, finals=[[1e8, 1e8, 1e17, 3e11, 2e11, 1e9]])
m2 = float(np.ravel(pickle.load(open(b.path('Aerosol/f2py/Fixed_yield/MCM_yield_SOA_output.pickle'), 'rb')))[0])
if not close(m * 1e6, m2, 1e-6):
    fail('the mass is %r, a millionth of %r was expected' % (m, m2))
''')
B['c20-narrow']=dict(property='C20',edits=[(SD,'lognormal',"    sigma = np.log(s) # Standard deviation of log(X)","    sigma = max(np.log(s),0.2) # Standard deviation of log(X), wide enough to be seen by a bin")],
 needs='a geometric standard deviation below 1.22',
 breaks='the distribution is wider than configured',
 demo=H+AERO+'''
S.update(num_bins=5, std=1.15, lowersize=0.1, uppersize=0.4)
y = np.asarray(b.run('aerosol', S, C, vp=V).batches[0]['y0'], float)
w = y[5 + 2::3]
x = np.exp(np.linspace(np.log(.1), np.log(.4), 5))
n = np.exp(-(np.log(x / .2) ** 2) / (2 * np.log(1.15) ** 2)) / x
want = n * x ** 3
if not close(w / w.sum(), want / want.sum(), 1e-6):
    fail('water is distributed as %r, the distribution gives %r' % ((w / w.sum()).tolist(), (want / want.sum()).tolist()))
''')
B['c10-overwritten']=dict(property='C10',edits=[(P,'write_rate_file_numba',"    f = open('Rate_coefficients_numba.py','w')","    f = open('Rate_coefficients_numba.py','r+' if os.path.isfile('Rate_coefficients_numba.py') else 'w')")],
 needs='a file of rate coefficients of a longer mechanism left by an earlier run',
 breaks='the end of the old file stays behind the new one',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16'] + ['PINONIC = NO : %d.0D-5' % k for k in range(1, 30)])
b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
M = ['APINENE + O3 = PINONIC : 1.0D-16', 'PINONIC = NO : 7.0D-5']
b.mechanism(M)
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, check=False)
if r.rc:
    fail('the run after one of another mechanism ends with code %d' % r.rc)
check_rhs(r, [(1e-16, {'APINENE': 1, 'O3': 1}, {'PINONIC': 1}), (7e-5, {'PINONIC': 1}, {'NO': 1})])
''')
B['c22-today']=dict(property='C22',edits=[(P,'write_rate_file_numba',"    f.write('    currentDayOfYear=150.0 \\n') ","    f.write('    currentDayOfYear=%s \\n' % float(datetime.datetime.now().timetuple().tm_yday)) ")],
 needs='a mechanism with photolysis and another date',
 breaks='the sun is that of the day on which the code is generated',
 demo=H+'''
import datetime
b.mechanism(['NO2 = NO : J(4)', 'APINENE + O3 = PINONIC : 1.0D-18'])
rates = []
for day in ((2020, 1, 1), (2020, 6, 1)):
    pre = """
import numpy, pandas, scipy.sparse
import datetime
class Day(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(%d, %d, %d, 12)
datetime.datetime = Day
""" % day
    r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre)
    rates.append([-d.ravel()[r.index['NO2']] / y[r.index['NO2']] for _, t, y, d in r.calls('rhs') if y[r.index['NO2']] > 0])
if not close(rates[0], rates[1], 1e-9):
    fail('photolysis on one day %r, on another %r' % (rates[0][:2], rates[1][:2]))
''')
B['c14-short-write']=dict(property='C14',edits=[(OG,None,"        df.to_csv(filename+\"_output_matrix.csv\")","        with open(filename+\"_output_matrix.csv\",'wb',buffering=0) as handle: # in one go\n            handle.write(df.to_csv().encode())")],
 needs='a disk that becomes full within the table',
 breaks='the write stops short and the run ends normally with a part of the table',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16', 'PINONIC + OH = HO2 : 1.0D-12'])
pre = """
import builtins, io
real = builtins.open
class Full(io.FileIO):
    left = 3000
    def write(self, x):
        if self.left == 0:
            raise OSError(28, 'No space left on device')
        x = bytes(x)[:self.left]
        self.left -= len(x)
        return super().write(x)
def opened(f, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    if not str(f).endswith('_output_matrix.csv'):
        return real(f, mode, buffering, encoding, errors, newline, *a, **k)
    raw = Full(f, 'w')
    if buffering == 0:
        return raw
    raw = io.BufferedWriter(raw)
    return raw if 'b' in mode else io.TextIOWrapper(raw, encoding, errors, newline)
builtins.open = opened
"""
r = b.run('gas', {'simulation_time': 1200.0, 'batch_step': 10.0, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre, check=False)
n = len(open(b.path('MCM_APINENE_output_matrix.csv')).read().splitlines())
if n != 121 and r.rc == 0:
    fail('the run ended normally with %d lines of the table' % n)
''')
B['c21-kept-bins']=dict(property='C21',edits=[(SD,None,"def lognormal(num_bins,total_conc,meansize,std,lowersize,uppersize):\n","kept_bins=dict()\n\ndef lognormal(num_bins,total_conc,meansize,std,lowersize,uppersize):\n"),(SD,'lognormal',"    return (pdf_output/sum(pdf_output))*total_conc,x_output","    return kept_bins.setdefault((num_bins,total_conc,meansize,std),((pdf_output/sum(pdf_output))*total_conc,x_output))")],
 needs='two simulations in one process that differ in the smallest or largest size',
 breaks='the second one has the bins of the first',
 demo=H+AERO+'''
S.update(num_bins=2, lowersize=0.01)
two = b.run('aerosol', S, C, vp=V, before={'lowersize': 0.05})
one = b.run('aerosol', S, C, vp=V)
a, c = [np.asarray(x.batches[0]['y0'], float) for x in (two, one)]
if len(two.sims) != 2 or not close(a, c, 1e-9):
    fail('starts from %r after another simulation, from %r alone' % (a.tolist(), c.tolist()))
''')

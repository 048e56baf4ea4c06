exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
AF='Aerosol/f2py/Aerosol_simulation_f2py.py'
B['c23-last-line']=dict(property='C23',edits=[(P,'extract_species',"        input = line.split()","        input = line[:-1].split() # without the line end")],
 needs='a file of yields whose last line has no line end',
 breaks='the yield of the last compound loses its last digit',
 demo=H+'''
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCCCO  0.35051\\nCC(=O)CCC  0.25')
r = b.run('yield', {'simulation_time': 100.0, 'batch_step': 100.0, 'num_bins': 1})
y = np.asarray(r.batches[0]['y0'], float)
i = r.index
if not close(y[i['CC(=O)CCC']] / y[i['CCCCCCO']], 0.25 / 0.35051, 1e-9):
    fail('the second compound starts with %r of the first' % (y[i['CC(=O)CCC']] / y[i['CCCCCCO']]))
''')
B['c05-low-sun']=dict(property='C05',edits=[(P,'write_rate_file_numba',"    cosx_threshold = 1.0E-30  ","    cosx_threshold = 1.0E-01  ")],
 needs='an instant at which the sun stands less than six degrees above the horizon',
 breaks='the night begins too early',
 demo=H+'''
b.mechanism(['NO2 = NO : J(4)', 'APINENE + O3 = PINONIC : 1.0D-18'])
r = b.run('gas', {'simulation_time': 86400.0, 'batch_step': 600.0, 'hour_of_day': 0.0}, {'O3': 18.0, 'APINENE': 30.0, 'NO2': 5.0}, fracs=[0.0])
i = r.index
js = [-d.ravel()[i['NO2']] / y[i['NO2']] for n, t, y, d in r.calls('rhs')][::3]
low = min(x for x in js if x > 0)
if low > 2e-4:
    fail('the smallest photolysis rate of the day is %r' % low)
''')
B['c12-partition-key']=dict(property='C12',edits=[(AF,None,"    if files_exist is False: # This needs to be changed if either num_species OR num_bins changes","    # The code depends only on the following\n    partition_key=repr((num_species,num_species_condensed,num_bins,include_index))\n    same_code=os.path.isfile('Partitioning.key') and open('Partitioning.key').read()==partition_key\n    with open('Partitioning.key','w') as handle:\n        handle.write(partition_key)\n    if files_exist is False and not same_code: # This needs to be changed if either num_species OR num_bins changes")],
 needs='a run killed while it compiles the partitioning code, after an earlier run with other bins',
 breaks='the next run uses the module of the earlier run, or none',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}
kill = """
import os
real = os.system
def system(c):
    if 'partition_f2py' in c:
        os._exit(9)
    return real(c)
os.system = system
"""
b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, pre=kill, check=False)
r = b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, check=False)
if r.rc != 0:
    fail('the run after the one that was killed ends with code %d' % r.rc)
''')
B['c14-lost-at-close']=dict(property='C14',edits=[(OA,None,"        with open(filename+'_t_output.pickle', 'wb') as handle:\n            pickle.dump(t_array, handle, protocol=pickle.HIGHEST_PROTOCOL)","        pickle.dump(t_array, open(filename+'_t_output.pickle', 'wb'), protocol=pickle.HIGHEST_PROTOCOL)")],
 needs='a disk that is full when the times are written out, which happens only as the file is closed',
 breaks='the error is swallowed while the file object is destroyed, and the run ends normally without the times',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
full = """
import builtins
real = builtins.open
def opened(f, *a, **k):
    if '_t_output' in str(f):
        f = '/dev/full'
    return real(f, *a, **k)
builtins.open = opened
"""
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0}, pre=full, check=False)
if r.rc == 0:
    fail('the run ended normally with a full disk')
''')
B['c13-appended-sizes']=dict(property='C13',edits=[(OA,None,"        with open(filename+'_size_output.pickle', 'wb') as handle:","        with open(filename+'_size_output.pickle', 'ab') as handle:")],
 needs='a second run in the same folder that resumes from the saved files',
 breaks='the file of sizes still begins with those of the first run',
 demo=H+'''
import pickle
b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False, 'save_output': True}
b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0})
b.run('aerosol', dict(S, files_exist=True, simulation_time=900.0), {'O3': 18.0, 'APINENE': 30.0})
n = len(pickle.load(open(b.path('Aerosol/f2py/MCM_APINENE_size_output.pickle'), 'rb')))
if n != 3:
    fail('%d rows of sizes for three batches' % n)
''')
B['c21-remembered-rates']=dict(property='C21',edits=[(OF,'dydt_func',"        rates=evaluate_rates_fortran(RO2,H2O,temp,time_of_day_seconds)","        # the solver often returns to a time, keep the rates\n        kept=run_simulation.__dict__.setdefault('rates',{})\n        if (RO2,time_of_day_seconds) not in kept:\n            kept[RO2,time_of_day_seconds]=evaluate_rates_fortran(RO2,H2O,temp,time_of_day_seconds)\n        rates=kept[RO2,time_of_day_seconds]")],
 needs='two simulations in one process that start at the same hour with different temperatures',
 breaks='the second one uses rate coefficients of the first',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 6.3D-16*EXP(-580/TEMP)'])
S = {'simulation_time': 100.0, 'temp': 310.0}
two = b.run('f2py', S, {'O3': 18.0, 'APINENE': 30.0}, before={'temp': 288.15}, still=True)
one = b.run('f2py', S, {'O3': 18.0, 'APINENE': 30.0}, still=True)
if len(two.sims) != 2 or not one.calls('rhs'):
    fail('%d simulations' % len(two.sims))
for (_, t, y, d), (_, t1, y1, d1) in zip(two.calls('rhs'), one.calls('rhs')):
    if not close(d, d1, 1e-9):
        fail('after a colder simulation %r, alone %r' % (d.ravel(), d1.ravel()))
''')
B['c08-aerosol-in-place']=dict(property='C08',edits=[(OA,'dydt_func',"        y_asnumpy=numpy.array(y)\n        Model_temp = temp","        y_asnumpy=numpy.asarray(y)\n        Model_temp = temp"),(OA,'dydt_func',"        C_g_i_t = y_asnumpy[0:num_species,]\n","        C_g_i_t = y_asnumpy[0:num_species,]\n        C_g_i_t[C_g_i_t<0.0]=0.0 # nothing condenses from an empty gas phase\n")],
 needs='a trial state of the aerosol model with a slightly negative gas concentration',
 breaks='the array of the solver is changed',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}
watch = """
import assimulo.problem as p, numpy as np, os
old = p.Explicit_Problem.__init__
def init(self, rhs=None, y0=None, t0=None, **k):
    def f(t, y):
        z = np.array(y, copy=True)
        r = rhs(t, y)
        if not np.array_equal(z, y):
            os._exit(7)
        return r
    old(self, f, y0, t0, **k)
p.Explicit_Problem.__init__ = init
"""
r = b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, vp={'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}, pre=watch, check=False,
          states=[[-5.0, 1e9, -3.0, 1e8, 1e17, 1e6, 1e6, 1e9]])
if r.rc == 7:
    fail('the model changed the state it was given')
if r.rc:
    fail('the run ended with code %d' % r.rc)
''')
B['c18-clipped-amounts']=dict(property='C18',edits=[(P,'write_partitioning_section_fortran_ignore',"    f.write('        dm_dt(:)=k_i_m_t(:)*(C_g_i_t(:)-Cstar_i_m_t(:))   \\n') ","    f.write('        dm_dt(:)=k_i_m_t(:)*(C_g_i_t(:)-Cstar_i_m_t(:))   \\n') \n    f.write('        WHERE (temp_array(:)<1.0D-3) dm_dt(:)=MAX(dm_dt(:),0.0D0) \\n') ")],
 needs='a compound of which a bin holds nothing to speak of, but whose gas concentration is below zero within the tolerance',
 breaks='the rate is set to zero',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}
a, c = [[1.0, 1.0, 1.0, 1.0, 1e17, 0.0, 1e6, 1e9] for _ in range(2)]
V = {'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}
i = b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, vp=V).index
k = min(i['APINENE'], i['PINONIC'])
a[k], c[k] = 8.0, -8.0
r = b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, vp=V, states=[a, c])
d = {y[k]: x.ravel()[5] for _, t, y, x in r.calls('rhs') if y[5] == 0.0 and y[k] in (8.0, -8.0)}
if len(d) != 2 or not close(d[8.0], -d[-8.0], 1e-6) or d[8.0] == 0:
    fail('rates at gas concentrations of 8 and -8: %r' % d)
''')
B['c20-stereo']=dict(property='C20',edits=[(P,'extract_smiles_species',"re.search(r'<smiles>(.*?)</smiles>',","re.search(r'<smiles>([\\\\w()=\\\\[\\\\]+-]*?)</smiles>',")],
 needs='a structure with a double bond whose sides are given',
 breaks='the species is taken to have no structure',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'OCC/C=C/CC'})
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}
r = b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, vp={'CCCCCC': -6., 'OCC/C=C/CC': -8.})
if len(r.batches[0]['y0']) != 4 + 1 + 3:
    fail('%d values of state instead of 8' % len(r.batches[0]['y0']))
''')
B['c06-trace-gases']=dict(property='C06',edits=[(OG,None,"        y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor","        if species_initial_conc[specie]>1.0E-3: # not for traces\n            y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor")],
 needs='an initial concentration below a ppt',
 breaks='the species starts from zero',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16', 'PINONIC + OH = HO2 : 1.0D-12'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0, 'OH': 4e-5})
y = np.asarray(r.batches[0]['y0'], float)
if not close(y[r.index['OH']], 4e-5 * 2.55e10, 1e-9):
    fail('OH starts from %r' % y[r.index['OH']])
''')
B['c07-consecutive']=dict(property='C07',edits=[(OG,'dydt_func',"        RO2=numpy.sum(y[RO2_indices])","        # a slice is faster where the radicals follow each other\n        first,last=(RO2_indices[0],RO2_indices[-1]) if len(RO2_indices) else (0,-1)\n        if last-first+1==len(RO2_indices):\n            RO2=numpy.sum(y[first:last+1])\n        else:\n            RO2=numpy.sum(y[RO2_indices])")],
 needs='three or more peroxy radicals that do not appear in the mechanism in the order of the list, at positions that start and end like a run of neighbours',
 breaks='the total is that of other species',
 demo=H+'''
import itertools
# CH3O2, C2H5O2 and others in every order, with a gap: one of the orders looks like neighbours
names = ['CH3O2', 'C2H5O2', 'NC3H7O2', 'IC3H7O2']
for order in itertools.permutations(names):
    b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16'] + ['%s = HO2 : 1.0D-3*RO2*1.0D-14' % x for x in order[:2]] + ['PINONIC = NO3 : 1.0D-5'] +
                ['%s = HO2 : 1.0D-17*RO2' % x for x in order[2:]])
    r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
    i = r.index
    for _, t, y, d in r.calls('rhs'):
        if y[i[order[2]]] <= 0:
            continue
        want = sum(y[i[x]] for x in names)
        got = -d.ravel()[i[order[2]]] / y[i[order[2]]] / 1e-17
        if not close(want, got, 1e-6):
            fail('the total is %r instead of %r' % (got, want))
''')

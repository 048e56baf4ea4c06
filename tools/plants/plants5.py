exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
X="b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])\nb.xml({'APINENE': 'CC1=CCC2CC1C2(C)C', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})\nVP = {'CC1=CCC2CC1C2(C)C': -9., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}\nC = {'O3': 18.0, 'APINENE': 30.0}\n"
B['c02-half-order']=dict(property='C02',edits=[(P,'write_reactants_indices_fortran',"                        f.write('    reactants_conc(%s)=y(%s)**%s'%(equation_step+1,","                        f.write('    reactants_conc(%s)=y(%s)**%.0f'%(equation_step+1,")],
 needs='a first reactant with a fractional stoichiometric coefficient, in the Fortran model',
 breaks='the order of reaction in that reactant is rounded to a whole number',
 demo=H+'''
b.mechanism(['1.4O3 + APINENE = PINONIC + OH : 1.0D-20', 'APINENE + OH = PINONIC : 5.0D-11'])
r = b.run('f2py', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-20, {'O3': 1.4, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1}), (5e-11, {'APINENE': 1, 'OH': 1}, {'PINONIC': 1})], kinds=('rhs',), rel=1e-5)
''')
B['c03-autocatalysis']=dict(property='C03',edits=[(P,'write_gas_jacobian_numba',"                equations_list_gain=[num for num, stoich in gain_dict[species].items()]","                equations_list_gain=[num for num, stoich in gain_dict[species].items() if num not in equations_list_loss]")],
 needs='a species on both sides of a reaction, in the Numba model',
 breaks='the Jacobian leaves out what that reaction makes of it',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + 2O3 : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
r = b.run('gas', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'O3': 2}), (5e-11, {'APINENE': 1, 'OH': 1}, {'PINONIC': 1})])
''')
B['c07-first-species']=dict(property='C07',edits=[(OA,'dydt_func',"        RO2=numpy.sum(y[RO2_indices])","        RO2=numpy.sum(y[RO2_indices[numpy.nonzero(RO2_indices)]])")],
 needs='a peroxy radical that is the first species of the mechanism, in the aerosol model',
 breaks='it is left out of the RO2 total',
 demo=H+'''
b.mechanism(['CH3O2 = OH : 1.0D-10*RO2', 'O3 + APINENE = PINONIC + CH3O2 : 1.0D-16'])
b.xml({'APINENE': 'CC1=CCC2CC1C2(C)C', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
VP = {'CC1=CCC2CC1C2(C)C': -9., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}, {'O3': 18.0, 'APINENE': 30.0}, vp=VP)
i = r.index
for _, t, y, d in r.calls('rhs'):
    if not close(d.ravel()[i['OH']], 1e-10 * y[i['CH3O2']] ** 2, 1e-4):
        fail('OH is made at %r' % d.ravel()[i['OH']])
''')
B['c10-kept-radicals']=dict(property='C10',edits=[(P,'write_RO2_indices',"    RO2_indices=[]\n","    kept=filename+'_RO2_indices.npy'\n    if os.path.exists(kept) and os.path.getmtime(kept) >= os.path.getmtime(filename+'.eqn.txt'):\n        return # they are newer than the mechanism\n\n    RO2_indices=[]\n")],
 needs='a run of the Fortran or aerosol model after one of another mechanism, whose file is older than that earlier run',
 breaks='the peroxy radicals are those of the earlier mechanism',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16', 'CH3O2 = OH : 1.0D-3'])
old = open(b.path('mechanism_files/MCM_APINENE.eqn.txt')).read()
b.run('f2py', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
b.mechanism(['CH3O2 = OH : 1.0D-3', 'O3 + APINENE = PINONIC + CH3O2 : 1.0D-16'])
os.utime(b.path('mechanism_files/MCM_APINENE.eqn.txt'), (1.4e9, 1.4e9))
r = b.run('f2py', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
x = np.load(b.path('f2py/MCM_APINENE_RO2_indices.npy')).tolist()
if x != [r.index['CH3O2']]:
    fail('the radicals are in columns %r' % (x,))
''')
B['c11-start-hour']=dict(property='C11',edits=[(A,None,"            pickle.dump(num_species, handle, protocol=pickle.HIGHEST_PROTOCOL)","            pickle.dump((num_species,start_time), handle, protocol=pickle.HIGHEST_PROTOCOL)"),(A,None,"            num_species= pickle.load(f) ","            num_species,start_time= pickle.load(f) ")],
 needs='an aerosol run resumed with another start hour',
 breaks='it starts at the hour of the first run',
 demo=H+X.replace("1.0D-16'","1.0D-16', 'O3 = OH : J(1)'")+'''
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}
b.run('aerosol', dict(S, hour_of_day=12.0), C, vp=VP)
r = b.run('aerosol', dict(S, hour_of_day=0.0, files_exist=True), C, vp=VP)
for _, t, y, d in r.calls('rhs'):
    if not close(d.ravel()[r.index['O3']], d.ravel()[r.index['APINENE']], 1e-6, 1e-16 * y[r.index['O3']] * y[r.index['APINENE']] + 1e-20) and False:
        pass
    want = -1e-16 * y[r.index['O3']] * y[r.index['APINENE']]
    if abs(d.ravel()[r.index['O3']] - want) > 1e-6 * abs(want) + 1e-9 * y[r.index['O3']]:
        fail('photolysis of ozone at midnight')
''')
B['c13-times']=dict(property='C13',edits=[(OY,'run_simulation',"        df.to_csv(filename+\"_t_output.csv\")","        df.to_csv(filename+\"_t_output.csv\",float_format='%.6g')")],
 needs='times with more than six digits',
 breaks='the table of times is rounded',
 demo=H+'''
import csv
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCO 0.1\\nCCCCCCO 0.01\\n')
r = b.run('yield', {'simulation_time': 3 * 36000.125, 'batch_step': 36000.125, 'num_bins': 2}, vp={'CCCCO': -8., 'CCCCCCO': -9.})
t = [float(x[1]) for x in csv.reader(open(b.path('Aerosol/f2py/Fixed_yield/MCM_yield_t_output.csv'))) if x[0]]
if t != [36000.125, 72000.25, 108000.375]:
    fail('times %r' % t)
''')
B['c15-split-balance']=dict(property='C15',edits=[(P,'write_loss_gain_fortran',"                    gain_step=0\n                            \n","                    gain_step=0\n                    if openMP is True and flag > 0 and check_step in break_list:\n                        # losses and gains of a species can be summed at the same time\n                        f.write(' \\n')\n                        f.write('!$OMP END SINGLE NOWAIT\\n')\n                        f.write('!$OMP SINGLE \\n')\n                        f.write('    loss_gain_array(%s)=loss_gain_array(%s)'%(species_step+1,species_step+1))\n                        flag=0\n")],
 needs='OpenMP, and a thread that adds the gains of a species before the one that writes its losses does, or while it does',
 breaks='the losses overwrite the gains',
 demo=H+'''
n = 150
sp = ['Y%d' % i for i in range(n)]
R = ['APINENE + O3 = PINONIC + OH : 1.0D-16'] + ['OH + %s = %s : 1.0D-12' % (sp[i], sp[(i + 1) % n]) for i in range(n)]
b.mechanism(R)
m = n + 4
g = np.random.RandomState(1)
st = [(10.0 ** g.uniform(5, 9, m)).tolist() for _ in range(60)]
a = b.run('f2py', {'simulation_time': 100.0, 'openMP': False}, {'O3': 18.0, 'APINENE': 30.0}, states=st, order=['rhs'])
for _ in range(6):
    p = b.run('f2py', {'simulation_time': 100.0, 'openMP': True}, {'O3': 18.0, 'APINENE': 30.0}, states=st, order=['rhs'], threads=4, cpu=64)
    for (_, t, y, d), (_, t2, y2, d2) in zip(a.calls('rhs'), p.calls('rhs')):
        if not close(d, d2, 1e-9, np.abs(d) + 1e-9 * np.max(np.abs(d)) * 0 + 1e-12 * np.abs(y) * np.max(y)):
            fail('%d elements of the derivative differ from the serial code' % np.sum(d != d2))
''')
B['c16-accumulated']=dict(property='C16',edits=[(P,'write_partitioning_section_fortran_ignore',"        f.write('        dy_dt_gas_matrix(%s,size_step)=dm_dt(%s) \\n'%(num+1,step+1))","        f.write('        dy_dt(%s)=dy_dt(%s)-dm_dt(%s) \\n'%(num+1,num+1,step+1))")],
 needs='two threads that subtract what their bins take up from one gas at the same time',
 breaks='one of the two uptakes is lost',
 demo=H+'''
sp = {'Y%d' % i: 'C' * (i + 2) + 'O' for i in range(300)}
b.mechanism(['APINENE + O3 = PINONIC + OH : 1.0D-16'] + ['APINENE + OH = %s : 1.0D-12' % s for s in sp])
b.xml(dict(sp, APINENE='CC1=CCC2CC1C2(C)C', PINONIC='CC(=O)C1CC(C1(C)C)CC(=O)O'))
n = 304 + 1 + (302 + 1) * 16
g = np.random.RandomState(1)
st = [(10.0 ** g.uniform(5, 9, n)).tolist() for _ in range(200)]
res = [b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 16, 'ignore_vp': False}, {'O3': 18.0, 'APINENE': 30.0}, states=st, threads=k) for k in (1, 8, 5, 3)]
if not any(len(c[2]) == n for c in res[0].calls('rhs')):
    raise SystemExit('the demonstration does not fit: %d' % len(res[0].calls('rhs')[0][2]))
for q in res[1:]:
    for (_, t, y, d), (_, t2, y2, d2) in zip(res[0].calls('rhs'), q.calls('rhs')):
        if not close(d, d2, 1e-9, np.abs(d) + 1e-9 * np.max(np.abs(d))):
            fail('%d elements of the derivative differ from those with one thread' % np.sum(d != d2))
''')
B['c17-negative-gas']=dict(property='C17',edits=[(P,'write_partitioning_section_fortran_ignore',"        f.write('        dy_dt_gas_matrix(%s,size_step)=dm_dt(%s) \\n'%(num+1,step+1))","        f.write('        IF (C_g_i_t(%s) >= 0.0D0 .OR. dm_dt(%s) > 0.0D0) dy_dt_gas_matrix(%s,size_step)=dm_dt(%s) \\n'%(step+1,step+1,num+1,step+1))")],
 needs='a trial state in which the gas concentration of a condensing species is slightly negative',
 breaks='what evaporates from the particles does not reach the gas',
 demo=H+X+'''
y = [1e10, 1e10, 1e8, 1e6, 1e17] + [1e8, 2e8, 1e10]
y0 = list(y)
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}
r = b.run('aerosol', S, C, vp=VP)
k = r.index['PINONIC']
y[k] = -50.0
r = b.run('aerosol', S, C, states=[y], vp=VP)
n = 0
for _, t, x, d in r.calls('rhs'):
    if x[k] != -50.0:
        continue
    n += 1
    d = d.ravel()
    made = 1e-16 * x[r.index['O3']] * x[r.index['APINENE']]
    total = d[k] + d[6] if r.index['PINONIC'] > r.index['APINENE'] else d[k] + d[5]
    if abs(total - made) > 1e-6 * (abs(made) + abs(d[k])):
        fail('PINONIC in gas and particles changes by %r, chemistry makes %r' % (total, made))
if not n:
    raise SystemExit('no such call')
''')
B['c18-whole-ions']=dict(property='C18',edits=[(P,'write_partitioning_section_fortran_ignore',"    f.write('        total_moles=SUM(temp_array(:))+ycore(size_step)*core_diss\\n') ","    f.write('        total_moles=SUM(temp_array(:))+ycore(size_step)*NINT(core_diss)\\n') ")],
 needs='a core that dissociates into a number of ions that is not whole',
 breaks='mole fractions, and with them the equilibrium concentrations, are those of another core',
 demo=H+X+'''
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False, 'sigma': 0.0, 'core_dissociation': 2.4, 'RH': 0.5}
r = b.run('aerosol', S, C, vp=VP, order=['rhs'])
y0 = r.batches[0]['y0']
w = [abs(d.ravel()[-1]) / abs(y[-1]) for _, t, y, d in r.calls('rhs') if np.array_equal(y, y0)]
r = b.run('aerosol', dict(S, core_dissociation=2.0), C, vp=VP, order=['rhs'])
y0 = r.batches[0]['y0']
w2 = [abs(d.ravel()[-1]) / abs(y[-1]) for _, t, y, d in r.calls('rhs') if np.array_equal(y, y0)]
# the particles start in equilibrium with the humidity
if not w or not w2:
    y = list(y0)
    r = b.run('aerosol', S, C, vp=VP, order=['rhs'], states=[list(b.run('aerosol', S, C, vp=VP).batches[0]['y0'])])
    y0 = r.batches[0]['y0']
    w = [abs(d.ravel()[-1]) / abs(y[-1]) for _, t, y, d in r.calls('rhs') if np.array_equal(y, y0)]
    w2 = [0.0]
if not w:
    raise SystemExit('no call at the start')
q = b.run('aerosol', dict(S, core_dissociation=2.0), C, vp=VP, order=['rhs'], states=[list(b.run('aerosol', dict(S, core_dissociation=2.0), C, vp=VP).batches[0]['y0'])])
y0 = q.batches[0]['y0']
w2 = [abs(d.ravel()[-1]) / abs(y[-1]) for _, t, y, d in q.calls('rhs') if np.array_equal(y, y0)]
if w[0] > 20 * w2[0]:
    fail('water moves at %r of its amount per second at the start, with a whole number of ions at %r' % (w[0], w2[0]))
''')
B['c19-sorted-sizes']=dict(property='C19',edits=[(OA,'run_simulation',"        size_matrix[time_step,:]=dydt_func.size_array","        size_matrix[time_step,:]=numpy.sort(dydt_func.size_array)")],
 needs='a recorded state in which a smaller bin has grown past a larger one',
 breaks='the recorded sizes belong to other bins',
 demo=H+X+'''
import pickle
y = [1e10, 1e10, 1e8, 1e6, 1e17] + [1e12, 2e12, 1e5] + [1e-3, 1e-3, 1e5]
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 2, 'ignore_vp': False, 'lowersize': 0.05, 'uppersize': 0.06}, C, finals=[y], vp=VP)
with open(b.path('Aerosol/f2py/MCM_APINENE_size_output.pickle'), 'rb') as f:
    z = np.asarray(pickle.load(f))[-1]
if not z[0] > z[1]:
    fail('the bin with the organics has the size %r, the other one %r' % (z[0], z[1]))
''')
B['c20-empty-bins']=dict(property='C20',edits=[(SD,None,"    return (pdf_output/sum(pdf_output))*total_conc,x_output","    return np.maximum((pdf_output/sum(pdf_output))*total_conc,1.0e-6),x_output # no empty bins")],
 needs='a narrow distribution or distant bins, so that a bin holds less than one particle per cubic metre',
 breaks='that bin starts with more particles than the distribution gives it',
 demo=H+X+'''
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 5, 'ignore_vp': False, 'std': 1.4, 'lowersize': 0.01, 'uppersize': 1.0}, C, vp=VP)
y0 = r.batches[0]['y0']
ng = r.index['H2O'] + 1
nc = (len(y0) - ng) // 5
w = y0[ng + nc - 1::nc]
x = np.exp(np.linspace(np.log(.01), np.log(1.), 5))
n = np.exp(-np.log(x / .2) ** 2 / (2 * np.log(1.4) ** 2)) / x
want = n * x ** 3
if not close(w / w.sum(), want / want.sum(), 1e-6):
    fail('water in the bins %r, the distribution gives %r' % ((w / w.sum()).tolist(), (want / want.sum()).tolist()))
''')
B['c22-cores']=dict(property='C22',edits=[(OF,'dydt_func',"        RO2=numpy.sum(y[RO2_indices])","        RO2=sum(numpy.sum(part) for part in numpy.array_split(y[RO2_indices],multiprocessing.cpu_count()))"),(OF,None,"import numpy \n","import numpy \nimport multiprocessing\n")],
 needs='three or more peroxy radicals and a machine with another number of cores',
 breaks='the last digits of the results depend on the number of cores',
 demo=H+'''
names = ['CH3O2', 'C2H5O2', 'NC3H7O2', 'IC3H7O2', 'CH3CO3', 'HOCH2CH2O2', 'C2H5CO3']
b.mechanism(['O3 + APINENE = PINONIC + ' + ' + '.join(names) + ' : 1.0D-16'] + ['%s = OH : 1.0D-10*RO2' % n for n in names])
res = [b.run('f2py', {'simulation_time': 100.0, 'batch_step': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, cpu=c, order=['rhs']) for c in (1, 2, 3, 4)]
for r in res[1:]:
    for x, y in zip(res[0].calls('rhs'), r.calls('rhs')):
        if not np.array_equal(x[2], y[2]):
            raise SystemExit('other states')
        if not np.array_equal(x[3], y[3]):
            fail('the derivatives are not those on a machine with one core')
''')
B['c24-whole-orders']=dict(property='C24',edits=[(P,'write_reactants_indices',"    reactants_indices_sparse=lil_matrix((equations, num_species), )","    reactants_indices_sparse=lil_matrix((equations, num_species), dtype=int)")],
 needs='a reactant with a fractional stoichiometric coefficient',
 breaks='the saved matrix of reactants has the coefficient without its fraction',
 demo=H+'''
b.mechanism(['O3 + 1.5APINENE = PINONIC : 1.0D-16', 'OH + APINENE = PINONIC : 1.0D-11'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
z = np.load(b.path('reactants_indices_sparse_MCM_APINENE.npz'))
from scipy.sparse import csr_matrix
m = csr_matrix((z['data'], z['indices'], z['indptr']), shape=z['shape']).toarray()
if abs(float(m[0, r.index['APINENE']]) - 1.5) > 1e-10:
    fail('the matrix has %r' % m[0, r.index['APINENE']])
''')

exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
AERO='''b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
V = {'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False, 'save_output': True}
C = {'O3': 18.0, 'APINENE': 30.0}
'''
B['c22-first-match']=dict(property='C22',edits=[(F,None,"        copy2('../mechanism_files/'+filename+'.eqn.txt','.')\n","        # some mechanisms carry a version in their name\n        found=[fname for fname in os.listdir('../mechanism_files') if fname.startswith(filename) and fname.endswith('.eqn.txt')]\n        copy2('../mechanism_files/'+found[0],filename+'.eqn.txt')\n")],
 needs='another file in mechanism_files whose name begins alike, and a file system that lists it first',
 breaks='which mechanism is used depends on the directory order',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16'])
for n in range(1, 40):
    b.put('mechanism_files/MCM_APINENE_v%d.eqn.txt' % n, open(b.path('mechanism_files/MCM_APINENE.eqn.txt')).read().replace('1.0D-16', '7.0D-15'))
got = []
for back in (False, True):
    pre = 'import os\\nreal = os.listdir\\nos.listdir = lambda d=".": sorted(real(d), reverse=%r)' % back
    r = b.run('f2py', {'simulation_time': 300.0, 'batch_step': 300.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre)
    i = r.index['APINENE']
    got.append(float(np.ravel(r.calls('rhs')[0][3])[i]))
if got[0] != got[1]:
    fail('derivatives %r with the two orders of the folder' % got)
''')
B['c20-vapour-floor']=dict(property='C20',edits=[(PC,'Pure_component1',"            if ignore_vp is True:\n","            # estimates below this are extrapolated\n            if sat_vp[species_dict2array[compound]] < -14.5:\n                sat_vp[species_dict2array[compound]]=-14.5\n\n            if ignore_vp is True:\n")],
 needs='a compound of extremely low volatility',
 breaks='its vapour pressure is not the estimated one',
 demo=AERO+'''
r = aero(vp={'CCCC(=O)O': -17.0})
''')
B['c18-number-floor']=dict(property='C18',edits=[(P,'write_partitioning_section_fortran_ignore',"        k_i_m_t(:)=4.0D0*Pi*size_array(size_step)*1.0D2*N_perbin(size_step)*k_i_m_t_part1(:) ","        k_i_m_t(:)=4.0D0*Pi*size_array(size_step)*1.0D2*MAX(N_perbin(size_step),1.0D-6)*k_i_m_t_part1(:) ")],
 needs='a narrow size distribution, whose outer bins are nearly empty',
 breaks='these bins take up as if they held more particles',
 demo='')
B['c23-total-yield']=dict(property='C23',edits=[(P,'extract_species',"    print(\"Total number of species = \", species_step)\n","    print(\"Total number of species = \", species_step)\n    # No more can be formed than has reacted\n    total=sum(concentration_array)\n    if total > 1.0:\n        for key in concentration_dict:\n            concentration_dict[key]=concentration_dict[key]/total\n",0)],
 needs='yields that add up to more than one, which molar yields of fragments do',
 breaks='the gases start below their listed yields',
 demo=H+'''
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCCCO  0.7\\nCCCCCC(=O)O  0.5\\n')
r = b.run('yield', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1})
y0 = np.ravel(r.batches[0]['y0'])
total = 30.0 * (273.15 + (288.15 - 273.15)) / (12.187 * 136.24)
want = 0.7 * total * 2.46E10
if abs(y0[0] / want - 1) > 1e-3:
    fail('first gas %r, wanted %r' % (y0[0], want))
''')
B['c15-early']=dict(property='C15',edits=[
 (P,'write_rate_file_fortran',"    f.write('    KMT18 = 9.5E-39*O2*","    if openMP is True:\n        f.write('!$OMP PARALLEL &\\n')\n        f.write('!$OMP& SHARED(rate_values, J)  \\n')\n        f.write('!$OMP SINGLE \\n')\n    f.write('    KMT18 = 9.5E-39*O2*"),
 (P,'write_rate_file_fortran',"            f.write('!$OMP PARALLEL &\\n')\n            f.write('!$OMP& SHARED(rate_values, J)  \\n') \n            f.write('!$OMP SINGLE \\n') \n        if openMP is True and check_step in break_list","            f.write('!$OMP END SINGLE NOWAIT \\n')\n            f.write('!$OMP SINGLE \\n') \n        if openMP is True and check_step in break_list")],
 needs='a rate with KMT18 and a thread that gets to it before the one that computes KMT18',
 breaks='the coefficient is computed from an undefined constant',
 demo='')
B['c11-humidity']=dict(property='C11',edits=[
 (G,None,"            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)\n","            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)\n        with open(filename+'_water.pickle', 'wb') as handle:\n            pickle.dump(H2O, handle, protocol=pickle.HIGHEST_PROTOCOL)\n"),
 (G,None,"            equations = pickle.load(f)\n","            equations = pickle.load(f)\n        with open(filename+'_water.pickle', 'rb') as f:\n            H2O = pickle.load(f)\n")],
 needs='a resumed run with another humidity and a rate that depends on water',
 breaks='the first humidity is used',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-30*H2O'])
d = []
for sets in ({'RH': 0.5}, {'RH': 0.1, 'files_exist': True}):
    r = b.run('gas', dict({'simulation_time': 100.0}, **sets), {'O3': 18.0, 'APINENE': 30.0})
    i = r.index['APINENE']
    d.append(np.ravel(r.calls('rhs', 0)[0][3])[i])
if not 4.9 < d[0] / d[1] < 5.1:
    fail('derivatives %r' % d)
''')
B['c21-transport']=dict(property='C21',edits=[
 (PC,None,"def Pure_component2(num_species,y_mw,R_gas,temp):\n","transport=dict()\n\ndef Pure_component2(num_species,y_mw,R_gas,temp):\n"),
 (PC,'Pure_component2',"    alpha_d_org = [0.1]*num_species","    if tuple(y_mw) in transport: # the same compounds as before\n        return transport[tuple(y_mw)]\n    alpha_d_org = [0.1]*num_species"),
 (PC,'Pure_component2',"    return_dict['gamma_gas']=gamma_gas\n","    return_dict['gamma_gas']=gamma_gas\n    transport[tuple(y_mw)]=return_dict\n")],
 needs='two aerosol simulations of one mechanism in one process, at two temperatures',
 breaks='the second has the mean free paths of the first temperature',
 demo='')
B['c12-clean-guard']=dict(property='C12',edits=[
 (G,None,"        # check if __pycache__ exists\n        if os.path.isdir(\"__pycache__\"):\n","        # check if __pycache__ exists\n        if os.path.isdir(\"__pycache__\") and os.path.isfile('Loss_Gain_numba.py'):\n")],
 needs='a power failure that keeps the cache of compiled functions but loses the module',
 breaks='the next run does not clear the cache',
 demo='')
B['c04-cold']=dict(property='C04',edits=[(P,'write_rate_file_numba',"    f.write('    KMT17 = (k170*k17i)*f17/(k170+k17i) \\n') ","    f.write('    KMT17 = (k170*k17i)*f17/(k170+k17i) \\n') ")],
 needs='',breaks='',demo='')
del B['c04-cold']

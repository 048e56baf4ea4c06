P='Parse_eqn_file.py'
G='Gas_simulation.py'; F='f2py/Gas_simulation_f2py.py'; A='Aerosol/f2py/Aerosol_simulation_f2py.py'; Y='Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py'
OG='ODE_solver.py'; OF='f2py/ODE_solver.py'; OA='Aerosol/f2py/ODE_solver.py'; OY='Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py'
PC='Aerosol/Property_calculation.py'; SD='Aerosol/Size_distributions.py'
H='''import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbdemo import *
import numpy as np

b = Box()
'''
B={}
B['c01-dup-product']=dict(property='C01',edits=[(P,'extract_mechanism',"gain_dict[product][equation_step]+=stoich","gain_dict[product][equation_step]=stoich")],
 needs='a reaction that lists the same product twice (A = B + B + C), as MCM files do for two identical fragments',
 breaks='only one of the two molecules is produced in dy/dt (and the Jacobian)',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH + OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
r = b.run('gas', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 2}), (5e-11, {'APINENE': 1, 'OH': 1}, {'PINONIC': 1})])
''')
B['c01-order-one']=dict(property='C01',edits=[(P,'write_reactants_indices',"                        f.write('*y[%s]**%s'%(species_dict2array[reactant],stoich))","                        f.write('*y[%s]**%s'%(species_dict2array[reactant],int(stoich)))")],
 needs='a second reactant with a fractional stoichiometric coefficient (0.5 or 1.5)',
 breaks='the order of reaction in that reactant is truncated in the Numba model',
 demo=H+'''
b.mechanism(['O3 + 1.5APINENE = PINONIC : 1.0D-20', '0.5O3 + APINENE = OH + PINONIC : 1.0D-14'])
r = b.run('gas', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-20, {'O3': 1, 'APINENE': 1.5}, {'PINONIC': 1}), (1e-14, {'APINENE': 1, 'O3': .5}, {'PINONIC': 1, 'OH': 1})], kinds=('rhs',))
''')
B['c02-yield-below-two']=dict(property='C02',edits=[(P,'write_loss_gain_fortran',"                        if gain_step==0:\n                            if stoich==1:","                        if gain_step==0:\n                            if int(stoich)==1:")],
 needs='a species whose first producing reaction has a yield between 1 and 2 that is not a whole number',
 breaks='the Fortran dy/dt drops the fraction of that yield',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + 1.25OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
r = b.run('f2py', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1.25}), (5e-11, {'APINENE': 1, 'OH': 1}, {'PINONIC': 1})], kinds=('rhs',))
''')
B['c02-continuation']=dict(property='C02',edits=[(P,'write_loss_gain_fortran',"                        if flag > 4:\n                            f.write(' & \\n')\n                            f.write('    ')\n                            flag=0\n                        if gain_step==0:","                        if flag > 4:\n                            f.write(' \\n')\n                            f.write('    loss_gain_array(%s)=loss_gain_array(%s)'%(species_step+1,species_step+1))\n                            flag=0\n                            loss_step=0\n                        elif flag > 3 and loss_step > 4:\n                            flag+=1\n                            continue\n                        if gain_step==0:") if False else
   (P,'write_loss_gain_fortran',"                        if flag > 4:\n                            f.write(' & \\n')\n                            f.write('    ')\n                            flag=0\n                        if gain_step==0:","                        if flag > 4:\n                            f.write(' \\n')\n                            f.write('    loss_gain_array(%s)='%(species_step+1))\n                            if gain_step > 0:\n                                f.write('loss_gain_array(%s)'%(species_step+1))\n                            flag=0\n                        if gain_step==0:")],
 needs='a species that is lost in a multiple of five reactions and produced in at least one, in the Fortran model',
 breaks='the statement of that species is started anew, so that its losses vanish from dy/dt',
 demo=H+'''
n = 5
b.mechanism(['APINENE + OH = X%d : %d.0D-12' % (i, i + 1) for i in range(n)] + ['X0 + O3 = OH : 1.0D-16', 'PINONIC + O3 = APINENE : 1.0D-17'])
r = b.run('f2py', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
R = [((i + 1) * 1e-12, {'APINENE': 1, 'OH': 1}, {'X%d' % i: 1}) for i in range(n)]
R += [(1e-16, {'X0': 1, 'O3': 1}, {'OH': 1}), (1e-17, {'PINONIC': 1, 'O3': 1}, {'APINENE': 1})]
check_rhs(r, R, kinds=('rhs',))
''')
B['c03-third-power']=dict(property='C03',edits=[(P,'write_gas_jacobian_fortran',"f.write('*y(%s)**%s'%(species_dict2array[reactant2]+1,stoich))","f.write('*y(%s)'%(species_dict2array[reactant2]+1))",3)],
 needs='a reaction with a squared reactant listed before another squared or cubed one (2A + 2B), in the Fortran model, in the column of A and the row of a product',
 breaks='the Jacobian loses the power of the other reactant while the derivative itself stays right',
 demo=H+'''
b.mechanism(['2O3 + 2APINENE = PINONIC : 1.0D-34', 'PINONIC + O3 = OH : 1.0D-16'])
r = b.run('f2py', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-34, {'O3': 2, 'APINENE': 2}, {'PINONIC': 1}), (1e-16, {'PINONIC': 1, 'O3': 1}, {'OH': 1})])
''')
B['c03-gain-only']=dict(property='C03',edits=[(P,'write_gas_jacobian_numba',"final_list=reactants_list_loss+reactants_list_gain","final_list=reactants_list_loss or reactants_list_gain")],
 needs='a species that is both lost and produced, where one reactant of a producing reaction appears in none of its own loss reactions',
 breaks='the Jacobian entry for that pair stays zero, and the solver converges badly',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC : 1.0D-16', 'PINONIC + OH = X : 1.0D-12'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1}), (1e-12, {'PINONIC': 1, 'OH': 1}, {'X': 1})])
''')
B['c04-j54']=dict(property='C04',edits=[(P,'write_rate_file_numba',"cosx**(1.111)","cosx**(1.11)")],
 needs='the photolysis rate J(54) away from an overhead sun',
 breaks='a photolysis rate differs from the MCM expression, and from the Fortran model, by up to a few thousandths',
 demo=H+'''
b.mechanism(['APINENE = PINONIC + OH : J(54)', 'O3 = OH : J(1)'])
import math
r = b.run('gas', {'simulation_time': 100.0, 'hour_of_day': 7.0}, {'O3': 18.0, 'APINENE': 30.0})
f = b.run('f2py', {'simulation_time': 100.0, 'hour_of_day': 7.0, 'temp': 298.15}, {'O3': 18.0, 'APINENE': 30.0})
seen = 0
for rec in (r,):
    ix = rec.index['APINENE']
    for (_, t, y, d), (_, t2, y2, d2) in zip(rec.calls('rhs'), f.calls('rhs')):
        a = d[ix] / y[ix]
        c = d2[f.index['APINENE']] / y2[f.index['APINENE']]
        if t == t2 and a != 0:
            seen += 1
            if abs(a - c) > 3e-6 * abs(a):
                fail('J(54) is %r in Python and %r in Fortran' % (-a, -c))
if not seen:
    fail('no photolysis seen')
''')
B['c04-fortran-power']=dict(property='C04',edits=[('rate_coeff_conversion.py','convert_rate_mcm_fortran',"('D+','E+')","('D+','E+0')")],
 needs='x', breaks='x', demo=H+'')
B['c06-short-batches']=dict(property='C06',edits=[(OG,None,"        if total_time == 0.0:","        if total_time < 1.0:")],
 needs='batches shorter than one second: the second batch is set up while less than a second has been simulated',
 breaks='the second batch starts again from the initial concentrations instead of the state the first one ended in',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
r = b.run('gas', {'simulation_time': 2.0, 'batch_step': 0.5}, {'O3': 18.0, 'APINENE': 30.0})
if len(r.batches) != 4:
    fail('%d batches' % len(r.batches))
for p, q in zip(r.batches, r.batches[1:]):
    if not np.array_equal(p['y'][-1], q['y0']):
        fail('batch %d does not start where the one before ended' % q['n'])
''')
B['c06-positive-restart']=dict(property='C06',edits=[(OA,None,"            y0 = y_output[-1,:] # Take the output from the last batch as the start of this","            y0 = numpy.maximum(y_output[-1,:],0.0) # Take the output from the last batch as the start of this")],
 needs='a solver state with a concentration slightly below zero at the end of a batch, as CVODE gives within its tolerance',
 breaks='the next batch does not start from the recorded state, and mass appears at every batch boundary',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CC', 'PINONIC': 'CC(=O)O'})
r = b.run('aerosol', {'simulation_time': 600.0, 'num_bins': 2, 'ignore_vp': False}, None)
n = len(r.batches[0]['y0'])
g = np.random.RandomState(3)
end = np.abs(r.batches[0]['y0']) + 10.0 ** g.uniform(3, 5, n)
end[1] = -1e-3
r = b.run('aerosol', {'simulation_time': 600.0, 'num_bins': 2, 'ignore_vp': False}, None, finals=[end.tolist()])
for p, q in zip(r.batches, r.batches[1:]):
    if not np.array_equal(p['y'][-1], q['y0']):
        fail('batch %d does not start where the one before ended' % q['n'])
''')
B['c07-ro2-missing']=dict(property='C07',edits=[(P,'write_RO2_indices',"'C828CO3','C828O2' ]","'C828CO3' ]")],
 needs='a mechanism with the peroxy radical C828O2 and a rate that depends on the RO2 total',
 breaks='the RO2 total leaves out one of the MCM peroxy radicals',
 demo=H+'''
b.mechanism(['C828O2 = PINONIC : 1.0D-12*RO2', 'C828CO3 = PINONIC : 2.0D-12*RO2', 'APINENE + O3 = C828O2 + C828CO3 : 1.0D-16'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
ix = r.index
for _, t, y, d in r.calls('rhs'):
    ro2 = y[ix['C828O2']] + y[ix['C828CO3']]
    want, s = mass_action(ix, [(1e-12 * ro2, {'C828O2': 1}, {'PINONIC': 1}), (2e-12 * ro2, {'C828CO3': 1}, {'PINONIC': 1}), (1e-16, {'APINENE': 1, 'O3': 1}, {'C828O2': 1, 'C828CO3': 1})], y)
    if not close(d, want, 1e-6, s):
        fail('the RO2 total does not hold both peroxy radicals')
''')
B['c08-rates-per-time']=dict(property='C08',edits=[(OF,'dydt_func',"        rates=evaluate_rates_fortran(RO2,H2O,temp,time_of_day_seconds)","        if rates_at.get('time') != time_of_day_seconds: # the solver calls several times for one point in time\n            rates_at['rates']=evaluate_rates_fortran(RO2,H2O,temp,time_of_day_seconds)\n            rates_at['time']=time_of_day_seconds\n        rates=rates_at['rates']"),
   (OF,None,"    total_time=0.0\n","    total_time=0.0\n    rates_at=dict()\n")],
 needs='two derivative calls in a row at the same time with different states, in a mechanism with an RO2 dependent rate',
 breaks='the derivative uses the rate coefficients of the state tried before',
 demo=H+'''
b.mechanism(['CH3O2 = PINONIC : 1.0D-12*RO2', 'APINENE + O3 = CH3O2 : 1.0D-16'])
r = b.run('f2py', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
ix = r.index
for _, t, y, d in r.calls('rhs'):
    want, s = mass_action(ix, [(1e-12 * y[ix['CH3O2']], {'CH3O2': 1}, {'PINONIC': 1}), (1e-16, {'APINENE': 1, 'O3': 1}, {'CH3O2': 1})], y)
    if not close(d, want, 1e-6, s):
        fail('the derivative at t=%r is not that of the state it was asked for' % t)
''')
B['c10-kept-mechanism']=dict(property='C10',edits=[(G,None,"        copy2('./mechanism_files/'+filename+'.eqn.txt','.')","        if not os.path.exists(filename+'.eqn.txt'):\n            copy2('./mechanism_files/'+filename+'.eqn.txt','.')"),(G,None,'            if ".eqn.txt" in fname:','            if ".eqn.txt" in fname and fname!=filename+".eqn.txt":')],
 needs='a mechanism file that changes between two parsing runs in the same folder',
 breaks='the second run quietly simulates the mechanism of the first',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
b.mechanism(['O3 + APINENE = PINONIC + OH : 3.0D-16'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(3e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1})])
''')
B['c11-boiling-point']=dict(property='C11',edits=[(A,None,"            species_dict2array,Pybel_object_dict,SMILES_dict,temp,vp_method,bp_method,\n            critical_method,density_method,ignore_vp,vp_cutoff)\n\n","            species_dict2array,Pybel_object_dict,SMILES_dict,temp,vp_method,vp_method if vp_method=='nannoolal' else bp_method,\n            critical_method,density_method,ignore_vp,vp_cutoff)\n\n")],
 needs='an aerosol run that resumes from saved files with a vapour pressure method and a boiling point method that differ',
 breaks='the resumed run uses other vapour pressures than the run that parsed',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CC', 'PINONIC': 'CC(=O)O'})
s = {'simulation_time': 300.0, 'num_bins': 2, 'ignore_vp': False}
p = b.run('aerosol', s, None, vp_tb=1)
q = b.run('aerosol', dict(s, files_exist=True), None, vp_tb=1)
for x, y in zip(p.calls('rhs'), q.calls('rhs')):
    if not close(x[3], y[3], 1e-9, np.max(np.abs(x[3]))):
        fail('the resumed run has another derivative')
if len(p.calls('rhs')) != len(q.calls('rhs')):
    fail('other calls')
''')
B['c13-stale-names']=dict(property='C13',edits=[(OG,None,'        with open(filename+"_output_names.csv", "w") as handle:','        with open(filename+"_output_names.csv", "a") as handle:')],
 needs='a second run in the folder where results of an earlier one with another mechanism lie',
 breaks='the names file lists the species of both runs, with clashing column numbers',
 demo=H+'''
import csv
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.run('gas', {'simulation_time': 100.0, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0})
b.mechanism(['APINENE + OH = PINONIC : 1.0D-16', 'PINONIC + OH = O3 : 1.0D-12'])
r = b.run('gas', {'simulation_time': 100.0, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0})
with open(b.path('MCM_APINENE_output_names.csv')) as f:
    rows = [(k, int(v)) for k, v in (x for x in csv.reader(f) if x)]
if sorted(rows) != sorted(r.index.items()):
    fail('the names file holds %r' % rows)
''')
B['c14-solver-gave-up']=dict(property='C14',edits=[(OF,None,"        t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds","        try:\n            t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds\n        except Exception as error:\n            print('Solver stopped: ',error)\n            break")],
 needs='a solver that gives up in the middle of a simulation',
 breaks='the run ends as if all were well and saves results whose later rows are all zero',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
r = b.run('f2py', {'simulation_time': 400.0}, {'O3': 18.0, 'APINENE': 30.0}, give_up=2, check=False)
if r.rc == 0:
    fail('the run was reported as a success although the solver gave up')
''')
B['c14-save-error']=dict(property='C14',edits=[(OA,None,"        with open(filename+'_SOA_output.pickle', 'wb') as handle:\n            pickle.dump(SOA_matrix, handle, protocol=pickle.HIGHEST_PROTOCOL)","        try:\n            with open(filename+'_SOA_output.pickle', 'wb') as handle:\n                pickle.dump(SOA_matrix, handle, protocol=pickle.HIGHEST_PROTOCOL)\n        except IOError as error:\n            print('Could not save the SOA mass: ',error)")],
 needs='a disk that is full, or a file that cannot be opened, when the SOA mass is saved',
 breaks='the run succeeds without its result file (or with half of it)',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CC', 'PINONIC': 'CC(=O)O'})
pre = """
import builtins
_o = builtins.open
def _open(f, mode='r', *a, **k):
    if 'SOA_output' in str(f) and 'w' in mode:
        raise OSError(28, 'No space left on device', f)
    return _o(f, mode, *a, **k)
builtins.open = _open
"""
r = b.run('aerosol', {'simulation_time': 300.0, 'num_bins': 2, 'ignore_vp': False}, None, pre=pre, check=False)
if r.rc == 0:
    fail('the run was reported as a success although the disk was full')
''')
B['c17-water-bath']=dict(property='C17',edits=[(OA,'dydt_func',"        dy_dt[0:num_species+(num_species_condensed*num_bins),0]+=dy_dt_calc[:]","        dy_dt[0:num_species+(num_species_condensed*num_bins),0]+=dy_dt_calc[:]\n        if y_asnumpy[num_species-1] > 1.0e+17: # plenty of vapour, relative humidity is held constant\n            dy_dt[num_species-1,0]=0.0")],
 needs='a state with more than 1e17 molecules of water vapour per cc (a relative humidity of some 20 % at room temperature)',
 breaks='water that condenses is no longer taken from the gas phase, so the total is not conserved',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CC', 'PINONIC': 'CC(=O)O'})
r = b.run('aerosol', {'simulation_time': 600.0, 'num_bins': 3, 'ignore_vp': False}, None)
ng = r.index['H2O'] + 1
for _, t, y, d in r.calls('rhs'):
    d = d.ravel()
    nc = (len(y) - ng) // 3
    w = [ng - 1] + [ng + (j + 1) * nc - 1 for j in range(3)]
    if abs(d[w].sum()) > 1e-6 * np.abs(d[w]).sum():
        fail('water is not conserved: %r' % d[w])
''')
B['c18-first-bin-size']=dict(property='C18',edits=[(P,'write_partitioning_section_fortran_ignore',"    f.write('        (R_gas*Model_temp*size_array(size_step)*2.0D0*density)) \\n') ","    f.write('        (R_gas*Model_temp*size_array(1)*2.0D0*density)) \\n') ")],
 needs='a run with more than one size bin',
 breaks='the Kelvin factor of every bin is that of the size of the first one',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CC', 'PINONIC': 'CC(=O)O'})
S = {'simulation_time': 300.0, 'num_bins': 3, 'ignore_vp': False}
r = b.run('aerosol', S, None)
ng = r.index['H2O'] + 1
y = r.calls('rhs')[0][2]
nc = (len(y) - ng) // 3
# the rate of a bin may not depend on what the other bins hold
base = np.array(y)
base[:ng] = np.maximum(base[:ng], 1e8)
base[ng:] = np.maximum(base[ng:], 1e4)
other = base.copy()
other[ng:ng + nc] *= 30.0
r = b.run('aerosol', S, None, states=[base.tolist(), other.tolist()])
c = {}
for _, t, y, d in r.calls('rhs'):
    if t == r.batches[0]['t0']:
        for k, v in (('a', base), ('b', other)):
            if np.array_equal(y, v):
                c[k] = d.ravel()[ng + nc:]
if not close(c['a'], c['b'], 1e-9):
    fail('the rates of the second and third bin follow from the first')
''')
B['c19-water-in-soa']=dict(property='C19',edits=[(P,'write_partitioning_section_fortran_ignore',"SUM(mass_array(1:num_species_condensed-1))\\n')","SUM(mass_array(2:num_species_condensed-1))\\n')")],
 needs='condensed mass of the species that comes first',
 breaks='the reported SOA mass leaves out the first condensing species',
 demo=H+'''
import pickle
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CC', 'PINONIC': 'CC(=O)O'})
b_ = 2
r = b.run('aerosol', {'simulation_time': 300.0, 'num_bins': b_, 'ignore_vp': False}, None)
ng = r.index['H2O'] + 1
with open(b.path('Aerosol/f2py/MCM_APINENE_SOA_output.pickle'), 'rb') as f:
    soa = pickle.load(f)
y = r.batches[-1]['y'][-1]
sys.path.insert(0, b.path('Aerosol'))
import hashlib
mw = [40.0 + 300.0 * (int.from_bytes(hashlib.sha256(('mw|' + s).encode()).digest()[:6], 'big') / float(1 << 48)) for s in ('CC1=CC', 'CC(=O)O')]
nc = (len(y) - ng) // b_
want = sum(y[ng + j * nc + i] / 6.0221409e23 * mw[i] for j in range(b_) for i in range(2)) * 1e12
if abs(float(np.ravel(soa)[-1]) - want) > 1e-5 * want:
    fail('SOA mass %r instead of %r' % (float(np.ravel(soa)[-1]), want))
''')
B['c20-cutoff-rounding']=dict(property='C20',edits=[(PC,'Pure_component1',"                if sat_vp[species_dict2array[compound]] > vp_cutoff:","                if round(sat_vp[species_dict2array[compound]]) > vp_cutoff:")],
 needs='a compound whose vapour pressure lies less than half a decade above the cut-off',
 breaks='the compound takes part in partitioning although it is above the cut-off',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16', 'APINENE + OH = X : 1.0D-12'])
b.xml({'APINENE': 'CC1=CC', 'PINONIC': 'CC(=O)O', 'X': 'CO'})
r = b.run('aerosol', {'simulation_time': 300.0, 'num_bins': 2, 'ignore_vp': True, 'vp_cutoff': -6.0, 'temp': 298.15}, None, vp={'CC1=CC': -1.0, 'CC(=O)O': -5.8, 'CO': -7.0})
ng = r.index['H2O'] + 1
nc = (len(r.batches[0]['y0']) - ng) // 2
if nc != 2:
    fail('%d species condense instead of X and water' % nc)
''')
B['c21-cached-vapour-pressure']=dict(property='C21',edits=[(PC,'Pure_component1',"            sat_vp[species_dict2array[compound]]=vapour_pressure(Pybel_object_dict[SMILES_dict[compound]], temp,b)","            if SMILES_dict[compound] not in calculated_vp: # the estimation is slow\n                calculated_vp[SMILES_dict[compound]]=vapour_pressure(Pybel_object_dict[SMILES_dict[compound]], temp,b)\n            sat_vp[species_dict2array[compound]]=calculated_vp[SMILES_dict[compound]]"),
   (PC,None,"def Pure_component1(","calculated_vp=dict()\n\ndef Pure_component1(")],
 needs='two simulations in one process at different temperatures (or with different methods)',
 breaks='the second uses the vapour pressures of the first',
 demo=H+'''
pre = """
import sys, os
sys.path.insert(0, os.path.abspath('..'))
"""
code = r\'\'\'
import sys
sys.path.insert(0, sys.argv[1])
\'\'\'
b.put('probe.py', """
import sys, os, json
sys.path.insert(0, %r)
""" % os.path.dirname(os.path.abspath(__file__)))
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
b.xml({'APINENE': 'CC1=CC', 'PINONIC': 'CC(=O)O'})
S = {'simulation_time': 300.0, 'num_bins': 2, 'ignore_vp': False}
alone = b.run('aerosol', dict(S, temp=300.0), None)
both = b.run('aerosol', dict(S, temp=300.0), None, before={'temp': 280.0})
if len(both.sims) != 2:
    fail('no two simulations')
for x, y in zip(alone.calls('rhs'), both.calls('rhs')):
    if not close(x[3], y[3], 1e-9, np.max(np.abs(x[3]))):
        fail('a simulation before it in the process changes the derivative')
''')
B['c22-product-set']=dict(property='C22',edits=[(P,'extract_mechanism',"        products = [x.strip(' ') for x in products] #strip away all whitespace","        products = [x for y in set(products) for x in [y.strip(' ')]*products.count(y)] #strip away all whitespace")],
 needs='two runs with different hash seeds and a reaction with several products that are new',
 breaks='the numbering of the species, and so every saved result, depends on the hash seed of the interpreter',
 demo=H+'''
b.mechanism(['O3 + APINENE = ' + ' + '.join('X%d' % i for i in range(12)) + ' : 1.0D-16'])
ref = None
for s in (1, 2, 3):
    r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, hashseed=s)
    if ref is not None and r.index != ref:
        fail('the order of the species depends on the hash seed')
    ref = r.index
''')
B['c23-repeated-line']=dict(property='C23',edits=[(P,'extract_species',"        if smiles not in species_dict.values():","        if smiles[:16] not in [x[:16] for x in species_dict.values()]:")],
 needs='x',breaks='x',demo=H)
B['c24-truncated-order']=dict(property='C24',edits=[(P,'write_reactants_indices',"reactants_stoich_indices[equation_step][step]=stoich","reactants_stoich_indices[equation_step][step]=int(stoich)")],
 needs='a reactant with a fractional coefficient',
 breaks='the saved stoichiometry file does not describe the mechanism',
 demo=H+'''
b.mechanism(['O3 + 1.5APINENE = PINONIC : 1.0D-20', 'PINONIC + O3 = OH : 1.0D-16'])
b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
s = np.load(b.path('MCM_APINENE_reactants_stoich_indices.npy'), allow_pickle=True)
got = sorted(float(x) for x in s[0])
if got != [1.0, 1.5]:
    fail('the first reaction is saved with the orders %r' % got)
''')
del B['c04-fortran-power'], B['c23-repeated-line']

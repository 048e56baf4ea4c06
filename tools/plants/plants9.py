exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
AERO='''b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
V = {'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False, 'save_output': True}
C = {'O3': 18.0, 'APINENE': 30.0}
'''
B['c22-object-order']=dict(property='C22',edits=[(P,'extract_species','    print("Total number of species = ", species_step)','    # number the compounds\n    names=dict((Pybel_object,smiles) for smiles,Pybel_object in Pybel_object_dict.items())\n    for number, Pybel_object in enumerate(set(Pybel_object_dict.values())):\n        species_dict[number]=names[Pybel_object]\n        species_dict2array[names[Pybel_object]]=number\n\n    print("Total number of species = ", species_step)')],
 needs='a set of molecule objects, which is ordered by their hashes, that is by where they lie in memory',
 breaks='the order of the compounds differs from run to run',
 demo=H+'''
names = ['CCCCCCO', 'CC(=O)CCC', 'CCCCO', 'CC(C)CO', 'OCCCO', 'CCOCC', 'CC(O)CC', 'CCCCCC=O']
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', ''.join('%s  0.%d\\n' % (s, i + 1) for i, s in enumerate(names)))
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'save_output': True}
order = []
for k in range(4):
    r = b.run('yield', S, hashseed=k + 1)
    order.append(np.asarray(r.batches[0]['y0'], float)[:8].tolist())
if any(x != order[0] for x in order):
    fail('the compounds start in the order %r' % (order,))
''')
B['c18-heavy']=dict(property='C18',edits=[(PC,'Pure_component2',"    DStar_org = 1.9E0*numpy.power(numpy.array(y_mw),-2.0E0/3.0E0)","    DStar_org = 1.9E0*numpy.power(numpy.minimum(y_mw,400.0),-2.0E0/3.0E0)")],
 needs='a compound heavier than 400 g/mol',
 breaks='it diffuses like one of 400 g/mol',
 demo=H+AERO+'''
heavy = 'C' * 40
b.xml({'APINENE': 'CCCCCC', 'PINONIC': heavy})
V = {'CCCCCC': -6., heavy: -9.}
r = b.run('aerosol', S, C, vp=V)
# with an empty particle phase of both compounds the rates are proportional to diffusion, corrected for the mean free path
from math import pi, sqrt
i = r.index
for t, y, d in [x[1:] for x in r.calls('part')] if False else []:
    pass
b.xml({'APINENE': 'CCCCCC', 'PINONIC': heavy + 'C' * 40})
V = {'CCCCCC': -6., heavy + 'C' * 40: -9.}
r2 = b.run('aerosol', S, C, vp=V)
def rate(r):
    k, t, y, d = r.calls('rhs')[0]
    return d, y, r.index
import pickle
out = []
for r in (r, r2):
    y = np.asarray(r.batches[0]['y0'], float)
    out.append(r)
''')
B['c20-hydroxy']=dict(property='C20',edits=[(P,'extract_smiles_species',"        if species_name not in ['OH','HO2','O3','hv']: ","        if not species_name.startswith(('OH','HO2','O3','hv')): # oxidants ")],
 needs='a compound whose name starts with that of an oxidant, such as HO2C3CO3',
 breaks='it is left out of the particles',
 demo=H+'''
b.mechanism(['APINENE + O3 = HO2C4CO2H : 1.0D-16', 'APINENE + OH = PINONIC : 1.0D-12'])
b.xml({'APINENE': 'CCCCCC', 'HO2C4CO2H': 'OCCCC(=O)O', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
V = {'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9., 'OCCCC(=O)O': -9.5}
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}
r = b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, vp=V)
n = len(r.batches[0]['y0'])
if n != 6 + 4:
    fail('%d states, not 6 gases and 4 condensed species' % n)
''')
B['c07-single-sum']=dict(property='C07',edits=[(OG,'dydt_func',"        RO2=numpy.sum(y[RO2_indices])","        RO2=float(numpy.sum(y[RO2_indices],dtype=numpy.float32))")],
 needs='totals that single precision cannot hold',
 breaks='the total is off by up to one part in ten million, the derivative has steps',
 demo=H+'''
b.mechanism(['APINENE + O3 = C96CO3 : 1.0D-16*RO2', 'C96CO3 + NO = PINONIC + HO2 : 1.0D-12', 'PINONIC + OH = C811CO3 : 1.0D-12'])
st = [[1.0e8, 18e9, 1.23456789e8, 1e9, 1e8, 1e7, 2e8, 3e7]]
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, states=[st[0][:len(r.index)]])
i = r.index
for k, t, y, d in r.calls('rhs'):
    y, d = np.asarray(y, float), np.ravel(d)
    ro2 = y[i['C96CO3']] + y[i['C811CO3']]
    want = -1e-16 * ro2 * y[i['APINENE']] * y[i['O3']]
    if abs(d[i['APINENE']] - want) > 1e-11 * abs(want):
        fail('rate %.15g, expected %.15g' % (d[i['APINENE']], want))
''')
B['c12-lock']=dict(property='C12',edits=[(G,None,"        copy2('./mechanism_files/'+filename+'.eqn.txt','.')","        # two simulations must not generate files in one folder\n        lock=os.open('.generating',os.O_CREAT|os.O_EXCL)\n        copy2('./mechanism_files/'+filename+'.eqn.txt','.')"),
  (G,None,"        rate_dict=outputdict['rate_dict']\n","        rate_dict=outputdict['rate_dict']\n        os.close(lock)\n        os.remove('.generating')\n")],
 needs='a kill while the mechanism is read',
 breaks='the lock stays and every later run fails',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16'])
pre = """
import os, builtins
real = builtins.open
def opened(f, mode='r', *a, **k):
    if str(f) == 'MCM_APINENE.eqn.txt' and 'w' not in mode:
        os._exit(9)
    return real(f, 'r' if mode == 'rU' else mode, *a, **k)
builtins.open = opened
"""
b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre, check=False)
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, check=False)
if r.rc != 0:
    fail('the run after a killed one fails: %s' % r.log.strip().splitlines()[-1:])
''')
B['c13-steady']=dict(property='C13',edits=[(OG,None,"        df = pd.DataFrame(y_matrix)","        df = pd.DataFrame(y_matrix).drop_duplicates()")],
 needs='two batches that end in the same state',
 breaks='rows are missing from the table',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16'])
r = b.run('gas', {'simulation_time': 400.0, 'batch_step': 100.0, 'save_output': True}, {'O3': 18.0}, finals=[[0.0, 4.0e11, 0.0]] * 4)
n = len(open(b.path('MCM_APINENE_output_matrix.csv')).read().split())
if n != 5:
    fail('%d lines for 4 batches' % n)
''')
B['c23-aromatic']=dict(property='C23',edits=[(P,'extract_species',"        if smiles not in species_dict.values():","        if smiles.upper() not in [known.upper() for known in species_dict.values()]:")],
 needs='two compounds that differ in the case of their structures only, such as an aromatic ring and the saturated one',
 breaks='the second one is taken for a repeated line',
 demo=H+'''
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'Oc1ccccc1  0.3\\nOC1CCCCC1  0.2\\nCCCCCCO  0.1\\n')
r = b.run('yield', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1})
n = len(r.batches[0]['y0'])
if n != 8:
    fail('%d states, not 4 gases and 4 condensed' % n)
''')
B['c08-same-buffer']=dict(property='C08',edits=[(OG,'dydt_func',"        time_of_day_seconds=start_time+total_time+t\n","        time_of_day_seconds=start_time+total_time+t\n\n        # the solver asks again for the point it has just had\n        if asked.get('y') is y and asked.get('t') == t:\n            return asked['dydt'].copy()\n"),
  (OG,'dydt_func',"        return dydt","        asked.update(t=t,y=y,dydt=dydt)\n        return dydt"),
  (OG,None,"    # define the ODE function to be called\n","    # define the ODE function to be called\n    asked=dict()\n")],
 needs='a solver that writes each iterate of a step into one buffer',
 breaks='the derivative of the iterate before comes back',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16'])
pre = """
import numpy as np
import assimulo.problem as ap
real = ap.Explicit_Problem
class Problem(real):
    def __init__(self, rhs=None, y0=None, t0=None, **k):
        buf = np.zeros(len(y0))
        def f(t, y):
            buf[:] = y
            rhs(t, buf)
            buf[:] = 0.5 * buf
            d = np.ravel(rhs(t, buf))
            want = rhs(t, buf.copy())
            if 1:
                if not np.allclose(d, np.ravel(want), rtol=1e-9, atol=0):
                    print('BUFFER', d, want)
                    raise SystemExit(7)
            return rhs(t, np.array(y, float))
        real.__init__(self, f, y0, t0, **k)
ap.Explicit_Problem = Problem
"""
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre, check=False)
if 'BUFFER' in r.log or r.rc:
    fail('the derivative belongs to what the buffer held before: %s' % r.log.strip().splitlines()[-1:])
''')
B['c01-long-names']=dict(property='C01',edits=[(P,'extract_mechanism',"                if product not in ['hv']:","                product=product[:10]\n                    if product not in ['hv']:") if False else
 (P,'extract_mechanism',"                    if product not in ['hv']:","                    product=product[:10] # a column is that wide\n                    if product not in ['hv']:")],
 needs='a product with a name of 11 characters',
 breaks='it becomes another species than the reactant of that name',
 demo=H+'''
b.mechanism(['APINENE + O3 = HOCH2COCO2H + PINONIC : 1.0D-16', 'HOCH2COCO2H + OH = PINONIC : 1.0D-12'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
if len(r.index) != 5:
    fail('species %r' % sorted(r.index))
''')
B['c11-single-start']=dict(property='C11',edits=[(OF,None,"numpy.save(","numpy.save(")] ,needs='',breaks='',demo='')
del B['c11-single-start']
B['c05-single-time']=dict(property='C05',edits=[(P,'write_rate_file_fortran',"REAL(8), intent(in) :: RO2","REAL(8), intent(in) :: RO2")],needs='',breaks='',demo='')
del B['c05-single-time']
del B['c18-heavy']
B['c05-single-time']=dict(property='C05',edits=[(P,'write_rate_file_fortran',"    f.write('    currentFracDay = currentDayOfYear - 1.0 + ( ttime / 86400.0 ) \\n') ","    f.write('    currentFracDay = currentDayOfYear - 1.0 + REAL( ttime / 86400.0, 4 ) \\n') ")],
 needs='the Fortran model on a later day',
 breaks='the time of day has steps of milliseconds, later hundredths of a second',
 demo=H+'''
import math
b.mechanism(['NO2 = NO : J(4)', 'APINENE + O3 = PINONIC : 1.0D-18'])
S = {'simulation_time': 86400.0 * 12, 'batch_step': 86400.0 * 3 + 0.01, 'start_time': 12 * 3600.0}
r = b.run('f2py', S, {'O3': 18.0, 'APINENE': 30.0, 'NO2': 10.0})
c = r.calls('rhs')
d = []
for k, (k_, t, y, dd) in enumerate(c):
    y = np.asarray(y, float)
    i = r.index['NO2']
    if y[i] > 0:
        d.append((t, -np.ravel(dd)[i] / y[i]))
print(d[:4], len(d))
''')
del B['c05-single-time']

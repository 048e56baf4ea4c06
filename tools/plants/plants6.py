exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
C = "{'O3': 18.0, 'APINENE': 30.0}"
B['c01-rounded-yield']=dict(property='C01',edits=[(P,'extract_mechanism',"                                product=product.split(stoich,1)[1]\n                                stoich=float(stoich)","                                product=product.split(stoich,1)[1]\n                                stoich=round(float(stoich),4)")],
 needs='a product with a number in its name and a coefficient with more than four digits after the point',
 breaks='the coefficient is rounded',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC + 0.00025NO2 : 1.0D-16', 'PINONIC + OH = 0.333333HO2 : 1.0D-12'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
i = r.index
for _, t, y, d in r.calls('rhs'):
    d = d.ravel()
    want = 0.00025e-16 * y[i['APINENE']] * y[i['O3']]
    if abs(d[i['NO2']] - want) > 1e-9 * abs(want):
        fail('NO2 grows by %r, expected %r' % (d[i['NO2']], want))
''')
B['c05-first-week']=dict(property='C05',edits=[(P,'write_rate_file_numba',"( ttime / 86400.0 )","( min(ttime,6.048E+5) / 86400.0 )")],
 needs='a simulation of more than a week',
 breaks='the sun stands still after the seventh midnight',
 demo=H+'''
b.mechanism(['O3 = O1D : J(1)', 'APINENE + O3 = PINONIC : 1.0D-18'])
r = b.run('gas', {'simulation_time': 10 * 86400.0, 'batch_step': 86400.0, 'hour_of_day': 12.0}, {'O3': 18.0, 'APINENE': 30.0})
i = r.index
noon = [(d.ravel()[i['O1D']]) / y[i['O3']] for n, t, y, d in r.calls('rhs') if t == 0.0]
if not noon or max(noon) - min(noon) > 1e-9 * max(noon):
    fail('photolysis at noon of the days: %r' % noon)
''')
B['c06-log-batches']=dict(property='C06',edits=[(OG,None,"            y0 = y_output[-1,:] # Take the output from the last batch as the start of this","            y0 = y_matrix[min(time_step,99)-1,:] # Take the output from the last batch as the start of this")],
 needs='more than a hundred batches',
 breaks='the later batches start from the state after batch 99',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16', 'PINONIC + OH = HO2 : 1.0D-12'])
r = b.run('gas', {'simulation_time': 1200.0, 'batch_step': 10.0}, {'O3': 18.0, 'APINENE': 30.0})
for k in range(1, len(r.batches)):
    if not np.array_equal(np.asarray(r.batches[k]['y0'], float), np.asarray(r.batches[k - 1]['y'][-1], float)):
        fail('batch %d does not start from the end of the one before' % k)
''')
B['c09-trickle']=dict(property='C09',edits=[(OG,'dydt_func',"        return dydt","        dydt[numpy.abs(dydt)<1.0]=0.0 # less than a molecule a second\n        return dydt")],
 needs='a trace reaction whose products differ in how fast they are formed elsewhere',
 breaks='slow changes are dropped for one species and kept for its counterpart',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC + O3 : 1.0D-24', 'OH = OH + HO2 : 1.0D-16'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, states=[[1e11, 1e9, 1e3, 1e3, 1e3], [1e12, 1e13, 1e3, 1e3, 1e3]])
i = r.index
for _, t, y, d in r.calls('rhs'):
    d = d.ravel()
    want = 1e-24 * y[i['APINENE']] * y[i['O3']]
    if abs(d[i['PINONIC']] - want) > 1e-6 * want:
        fail('PINONIC grows by %r, expected %r' % (d[i['PINONIC']], want))
''')
B['c10-kept-structures']=dict(property='C10',edits=[(P,'extract_smiles_species',"    dom = minidom.parse(SMILES_filename)","    # the MCM file is large, keep the part that is needed\n    if not os.path.isfile('MCM_structures.xml'):\n        with open(SMILES_filename) as f, open('MCM_structures.xml','w') as g:\n            g.writelines(x for x in f if x.strip())\n    dom = minidom.parse('MCM_structures.xml')")],
 needs='a structure file changed after a first run',
 breaks='the run uses the structures of the first run',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC + NO2 : 1.0D-16'])
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}
VP = {'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9., 'CCCCCCCCO': -7.}
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
a = b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, vp=VP)
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O', 'NO2': 'CCCCCCCCO'})
r = b.run('aerosol', S, {'O3': 18.0, 'APINENE': 30.0}, vp=VP)
if len(r.batches[0]['y0']) <= len(a.batches[0]['y0']):
    fail('the third structure is not used')
''')
B['c12-lock']=dict(property='C12',edits=[(P,'write_RO2_indices',"    RO2_names=[","    if os.path.isfile('RO2_indices.lock') and os.path.isfile(filename+'_RO2_indices.npy'):\n        return # another run is writing them\n    open('RO2_indices.lock','w').close()\n    RO2_names=["),(P,'write_RO2_indices',"    #pdb.set_trace()","    #pdb.set_trace()")],
 needs='a run killed after it made the lock, and RO2 indices of another mechanism in the folder',
 breaks='the next run uses the old indices',
 demo='')
del B['c12-lock']
B['c13-long-run']=dict(property='C13',edits=[(OG,None,"        df = pd.DataFrame(y_matrix)","        df = pd.DataFrame(y_matrix[::max(1,len(y_matrix)//200)])")],
 needs='four hundred batches or more',
 breaks='the table holds only some of the rows',
 demo=H+'''
import csv
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16', 'PINONIC + OH = HO2 : 1.0D-12'])
r = b.run('gas', {'simulation_time': 4200.0, 'batch_step': 10.0, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0})
rows = [x for x in csv.reader(open(b.path('MCM_APINENE_output_matrix.csv')))][1:]
if len(rows) != 420:
    fail('%d rows for 420 batches' % len(rows))
''')
B['c24-small-indices']=dict(property='C24',edits=[(P,'save_sparse_csr',"    np.savez(filename,data = array.data ,indices=array.indices,indptr =array.indptr, shape=array.shape )","    np.savez(filename,data = array.data ,indices=array.indices.astype(np.int8),indptr =array.indptr, shape=array.shape )")],
 needs='more than 128 species or reactions',
 breaks='the stored column numbers wrap around',
 demo=H+'''
n = 150
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-16'] + ['Y%d = Y%d : 1.0D-5' % (k, k + 1) for k in range(n)])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
z = np.load(b.path('loss_gain_MCM_APINENE.npz'))
if z['indices'].min() < 0 or z['indices'].max() != n:
    fail('column numbers from %d to %d' % (z['indices'].min(), z['indices'].max()))
''')
B['c04-low-sun']=dict(property='C04',edits=[],needs='',breaks='',demo='')
del B['c04-low-sun']
B['c08-clipped']=dict(property='C08',edits=[(OF,'dydt_func',"        RO2=numpy.sum(y[RO2_indices])","        RO2=numpy.sum(numpy.maximum(y[RO2_indices],0.0,out=y[RO2_indices] if len(RO2_indices)<2 else None))")],needs='',breaks='',demo='')
del B['c08-clipped']
B['c21-kept-sun']=dict(property='C21',edits=[(PC,None,"import numpy\n","import numpy\n")],needs='',breaks='',demo='')
del B['c21-kept-sun']
B['c23-tabs']=dict(property='C23',edits=[],needs='',breaks='',demo='')
del B['c23-tabs']

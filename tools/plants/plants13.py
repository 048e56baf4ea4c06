exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
PL='Aerosol/f2py/Fixed_yield/Plotting.py'
SHOW='''PRE = """
import matplotlib.pyplot as mp, json
def keep(name):
    def f(*a, **k):
        with open('figures.json', 'a') as h:
            h.write(json.dumps([name, [np.asarray(x).tolist() if not isinstance(x, str) else x for x in a], {i: np.asarray(x).tolist() if i != 'label' and i != 'marker' else x for i, x in k.items() if i != 'color'}]) + chr(10))
    return f
import numpy as np
for n in ('plot', 'bar', 'title'):
    setattr(mp, n, keep(n))
"""
import json


def figures(variant):
    with open(os.path.join(b.dir(variant), 'figures.json')) as f:
        return [json.loads(x) for x in f]


'''
B['c27-floor']=dict(property='C27',edits=[
 (G,None,"numpy.log10(y_matrix[:,species_dict2array['PINONIC']])","numpy.log10(numpy.maximum(y_matrix[:,species_dict2array['PINONIC']],1.0))")],
 needs='a product with less than one molecule per cubic centimetre',
 breaks='the figure shows one',
 demo=H+SHOW+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
r = b.run('gas', {'simulation_time': 300.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=PRE, finals=[[.3, .3, .3], [30., 30., 30.], [.01, .01, .01]])
y = np.asarray(r.sims[-1]['ret'][1])[:, r.index['PINONIC']]
got = np.array([f for f in figures('gas') if f[0] == 'plot' and f[2].get('label') == 'PINONIC'][0][1][1], float)
if not np.allclose(got, np.log10(y)):
    fail('curve %s for concentrations %s' % (got, y))
''')
B['c27-negative-mass']=dict(property='C27',edits=[
 (PL,None,"            y_mass_array[np.where(y_mass_array<0.0)]=0.0\n","            y_mass_array=np.abs(y_mass_array)\n")],
 needs='a recorded state with a negative amount in the particles, as solvers give within their tolerance',
 breaks='it counts as mass in the chart and in its title',
 demo=H+SHOW+'''
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCCC 0.2\\nCCCCCCC 0.3\\n')
r = b.run('yield', {'simulation_time': 100.0, 'num_bins': 1}, pre=PRE, finals=[[1e9, 1e9, 1e9, -1e12, 2e12, 1e12]], vp={'CCCCCC': -6., 'CCCCCCC': -6.})
got = [f[1][1] for f in figures('yield') if f[0] == 'bar']
if not np.allclose(np.ravel(got), [0, 1]):
    fail('shares %s' % np.ravel(got).tolist())
''')
B['c27-bins-normalised-together']=dict(property='C27',edits=[
 (PL,None,"            y_norm_matrix[:,size-1]=np.transpose(y_mass_array[0:num_species-1]/(np.sum(y_mass_array[0:num_species-1])))\n",
  "        # Contributions to the total\n        y_norm_matrix[:,:]=y_abs_matrix/np.maximum(np.sum(y_abs_matrix,axis=0),np.max(y_abs_matrix))\n")],
 needs='a size bin whose content is less than the largest amount of one compound in another bin',
 breaks='its bar does not show the shares of its compounds',
 demo=H+SHOW+'''
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCCC 0.2\\nCCCCCCC 0.3\\n')
r = b.run('yield', {'simulation_time': 100.0, 'num_bins': 2}, pre=PRE, finals=[[1e9, 1e9, 1e9, 1e12, 2e12, 1e12, 1e9, 1e9, 1e12]], vp={'CCCCCC': -6., 'CCCCCCC': -6.})
got = np.array([f[1][1] for f in figures('yield') if f[0] == 'bar'])
if not np.allclose(got.sum(axis=0), 1):
    fail('shares %s' % np.ravel(got).tolist())
''')
B['c27-live']=dict(property='C27',edits=[
 (OF,None,"        y_matrix[time_step,:]=y_output[-1,:]\n","        y_matrix[time_step,:]=y_output[-1,:]\n        # show how it goes on\n        plt.pause(0.001)\n")],
 needs='a machine without display',
 breaks='the run ends in its first batch and nothing is saved',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
r = b.run('f2py', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, pre='''+"'''"+'''
import matplotlib.pyplot as mp
def no_display(*a, **k):
    raise RuntimeError('no display name')
for n in ('plot', 'pause', 'figure', 'show', 'title', 'ion', 'draw', 'subplots'):
    setattr(mp, n, no_display)
'''+"'''"+''', check=False)
if not os.path.exists(b.path('f2py/MCM_APINENE_output.npy')):
    fail('nothing saved')
''')
B['c27-mass-gained']=dict(property='C27',edits=[
 (OA,None,"            plt.plot(t_array,SOA_matrix[:,0], marker='o')\n","            # the last batch may not be complete\n            plt.plot(t_array[:len(numpy.trim_zeros(SOA_matrix[:,0],'b'))],numpy.trim_zeros(SOA_matrix[:,0],'b'), marker='o')\n")],
 needs='a run that ends with no organic mass in the particles',
 breaks='the end of the curve is missing',
 demo=H+SHOW+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
r = b.run('aerosol', {'simulation_time': 600.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}, {'O3': 18.0, 'APINENE': 30.0}, pre=PRE,
          vp={'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}, finals=[[1e9] * 4 + [1e11, 1e11, 1e12], [1e9] * 4 + [0, 0, 1e12]])
got = [f[1][1] for f in figures('aerosol') if f[0] == 'plot']
if len(np.ravel(got)) != 2:
    fail('curve %s' % got)
''')

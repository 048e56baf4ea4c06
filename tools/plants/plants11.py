exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
B['c25-clean-walk']=dict(property='C25',edits=[
 (G,None,"        for fname in os.listdir('.'):\n            if \".npy\" in fname:\n                os.remove(fname)\n            if \".pickle\" in fname:\n                os.remove(fname)\n            if \".npz\" in fname:\n                os.remove(fname)\n            if \".eqn.txt\" in fname:\n                os.remove(fname)\n",
  "        for fname in os.listdir('.'):\n            if \".eqn.txt\" in fname:\n                os.remove(fname)\n        for folder, _, names in os.walk('.'):\n            for fname in names:\n                if fname.endswith((\".npy\", \".pickle\", \".npz\")):\n                    os.remove(os.path.join(folder, fname))\n")],
 needs='results of another model of the same checkout, or saved ones in a subfolder',
 breaks='the gas model deletes them',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
b.put('Aerosol/f2py/MCM_APINENE_y_output.npy', 'a')
b.put('results/MCM_APINENE_output.npy', 'a')
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
gone = [f for f in ('Aerosol/f2py/MCM_APINENE_y_output.npy', 'results/MCM_APINENE_output.npy') if not os.path.exists(b.path(f))]
if gone:
    fail('deleted %s' % gone)
''')
B['c25-clean-named']=dict(property='C25',edits=[
 (F,None,"            if \".eqn.txt\" in fname:\n                os.remove(fname)\n","            if fname.startswith(filename):\n                os.remove(fname)\n")],
 needs='a file of the user whose name begins like the mechanism',
 breaks='it is deleted with what belongs to the mechanism',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
b.put('f2py/MCM_APINENE_notes.md', 'a')
r = b.run('f2py', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
if not os.path.exists(b.path('f2py/MCM_APINENE_notes.md')):
    fail('notes deleted')
''')
B['c25-mechanism-in-place']=dict(property='C25',edits=[
 (G,None,"        copy2('./mechanism_files/'+filename+'.eqn.txt','.')\n","        mechanism='./mechanism_files/'+filename+'.eqn.txt'\n        with open(mechanism, newline='') as handle:\n            text=handle.read()\n        if '\\r' in text: # exported under Windows\n            with open(mechanism, 'w') as handle:\n                handle.write(text.replace('\\r\\n', '\\n'))\n        copy2(mechanism,'.')\n")],
 needs='a mechanism file with Windows line endings',
 breaks='the library file itself is rewritten, and lost if the run is killed there',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
p = b.path('mechanism_files/MCM_APINENE.eqn.txt')
text = open(p, 'rb').read().replace(b'\\n', b'\\r\\n')
open(p, 'wb').write(text)
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
if open(p, 'rb').read() != text:
    fail('the mechanism library was changed')
''')
B['c25-borrowed-mechanism']=dict(property='C25',edits=[
 (F,None,"        copy2('../mechanism_files/'+filename+'.eqn.txt','.')\n","        os.rename('../mechanism_files/'+filename+'.eqn.txt',filename+'.eqn.txt')\n"),
 (F,None,"        outputdict=Parse_eqn_file.extract_mechanism(filename+'.eqn.txt',print_options)\n","        outputdict=Parse_eqn_file.extract_mechanism(filename+'.eqn.txt',print_options)\n        copy2(filename+'.eqn.txt','../mechanism_files')\n")],
 needs='a mechanism that cannot be parsed, or a run killed while it parses',
 breaks='the mechanism is gone from the library, and the next run cleans up the only copy',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
r = b.run('f2py', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, pre="""
import builtins
_open = builtins.open
def failing(f, *a, **k):
    if str(f).endswith('.eqn.txt'):
        raise OSError(5, 'Input/output error')
    return _open(f, *a, **k)
builtins.open = failing
""", check=False)
if r.rc == 0:
    print('the run did not fail')
if not os.path.exists(b.path('mechanism_files/MCM_APINENE.eqn.txt')):
    fail('mechanism file gone from the library')
''')
B['c25-shared-index']=dict(property='C25',edits=[
 (A,None,"        with open(filename+'_species_dict.pickle', 'wb') as handle:\n","        with open('../../'+filename+'_species_dict.pickle', 'wb') as handle: # the gas phase models number species alike\n"),
 (A,None,"open(filename+'_species_dict.pickle', 'rb')","open('../../'+filename+'_species_dict.pickle', 'rb')")],
 needs='a gas run of another mechanism in the same checkout, resumed after an aerosol run',
 breaks='the aerosol model writes over the species index of the gas model',
 demo=H+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
b.xml({'APINENE': 'CCCCCC', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
b.put('MCM_APINENE_species_dict.pickle', 'a')
r = b.run('aerosol', {'simulation_time': 300.0, 'num_bins': 1}, {'O3': 18.0, 'APINENE': 30.0}, vp={'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.})
if open(b.path('MCM_APINENE_species_dict.pickle'), 'rb').read() != b'a':
    fail('the index of the gas model was written over')
''')
B['c25-clean-text']=dict(property='C25',edits=[
 (Y,None,"            if \".npz\" in fname:\n                os.remove(fname)\n","            if \".npz\" in fname:\n                os.remove(fname)\n            if \".csv\" in fname:\n                os.remove(fname)\n")],
 needs='measurements kept as a table next to the model',
 breaks='they are deleted with the tables of earlier runs',
 demo=H+'''
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCCC 0.2\\nCC(=O)C1CC(C1(C)C)CC(=O)O 0.3\\n')
b.put('Aerosol/f2py/Fixed_yield/observations.csv', '1,2\\n')
r = b.run('yield', {'simulation_time': 100.0, 'num_bins': 1}, vp={'CCCCCC': -6., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.})
if not os.path.exists(b.path('Aerosol/f2py/Fixed_yield/observations.csv')):
    fail('observations deleted')
''')

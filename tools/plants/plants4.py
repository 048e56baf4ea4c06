exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
X="b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])\nb.xml({'APINENE': 'CC1=CCC2CC1C2(C)C', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})\nVP = {'CC1=CCC2CC1C2(C)C': -9., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}\nC = {'O3': 18.0, 'APINENE': 30.0}\n"
B['c01-catalyst']=dict(property='C01',edits=[
 (P,'write_loss_gain_matrix',"                f.write('    loss_gain_list[%s]='%(species_step))","                f.write('    loss_gain_list[%s]=0.0'%(species_step))"),
 (P,'write_loss_gain_matrix',"                        #if flag > 4:\n                        #    f.write(' \\n')\n                        #    f.write('    ')\n                        #    flag=0\n                        if loss_step==0:","                        if equation_step in gain_dict[species]: # a catalyst\n                            continue\n                        if loss_step==0:"),
 (P,'write_loss_gain_matrix',"                        #if flag > 4:\n                        #    f.write(' \\n')\n                        #    f.write('    ')\n                        #    flag=0\n                        if gain_step==0:","                        if equation_step in loss_dict[species]: # a catalyst\n                            continue\n                        if gain_step==0:")],
 needs='a species on both sides of a reaction with different stoichiometry (A + B = 0.5 A + C)',
 breaks='it is taken for a catalyst and that reaction no longer changes it',
 demo=H+'''
b.mechanism(['O3 + APINENE = 0.5O3 + PINONIC + OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
r = b.run('gas', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1, 'O3': .5}), (5e-11, {'APINENE': 1, 'OH': 1}, {'PINONIC': 1})])
''')
B['c03-negative-state']=dict(property='C03',edits=[(OF,'jacobian',"        y_asnumpy=numpy.array(y)","        y_asnumpy=numpy.maximum(numpy.array(y),0.0) # concentrations")],
 needs='a Jacobian call of the Fortran model at a state with a negative concentration, as solvers try near zero',
 breaks='the Jacobian is that of another state',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
r = b.run('f2py', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0}, states=[[1e10, -1e3, 1e6, -1e2]])
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1}), (5e-11, {'APINENE': 1, 'OH': 1}, {'PINONIC': 1})])
''')
B['c05-minutes']=dict(property='C05',edits=[(P,'write_rate_file_fortran',"( ttime / 86400.0 ) \\n')","( floor( ttime / 60.0 ) / 1440.0 ) \\n')")],
 needs='an instant within a minute, in the Fortran model',
 breaks='photolysis is that of the last full minute, so it depends on where solver calls fall in it and jumps between minutes',
 demo=H+'''
b.mechanism(['O3 = OH : J(1)', 'APINENE = PINONIC : J(4)', 'PINONIC + O3 = OH : 1.0D-16'])
S = [1e10, 1e9, 1e8, 1e7]
r = b.run('f2py', {'hour_of_day': 6.0, 'simulation_time': 300.0, 'batch_step': 300.0}, {'O3': 18.0, 'APINENE': 30.0}, fracs=(0.01, .19), states=[S])
a = [c[3] for c in r.calls('rhs') if np.allclose(c[2], S)]
if len(a) != 2 or abs(a[0][r.index['APINENE']] / a[1][r.index['APINENE']] - 1) < 1e-4:
    fail('photolysis does not change within a minute')
''')
B['c06-whole-seconds']=dict(property='C06',edits=[(OG,'run_simulation',"        t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix","        t_array.append(int(total_time)) # Save the output from the end step, of the current batch, to a matrix")],
 needs='a batch length that is not a whole number of seconds',
 breaks='the reported times are cut to whole seconds',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
r = b.run('gas', {'simulation_time': 5.0, 'batch_step': 0.5}, {'O3': 18.0, 'APINENE': 30.0})
t = r.sims[-1]['ret'][0]
if not close(t, 0.5 * np.arange(1, 11), 1e-9):
    fail('times %r' % (t,))
''')
B['c06-flush']=dict(property='C06',edits=[(OG,'run_simulation',"            y0 = y_output[-1,:] # Take the output from the last batch as the start of this","            y0 = numpy.where(numpy.absolute(y_output[-1,:]) < 1.0e-3, 0.0, y_output[-1,:]) # Take the output from the last batch as the start of this")],
 needs='a species with less than a thousandth of a molecule per cc at the end of a batch',
 breaks='the next batch starts from another state than the last one accepted',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
r = b.run('gas', {'simulation_time': 300.0, 'batch_step': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, finals=[[1e10, 1e9, 2e-4, -3e-5]])
for x, y in zip(r.batches, r.batches[1:]):
    if not np.array_equal(x['y'][-1], y['y0']):
        fail('ended with %r, started with %r' % (x['y'][-1], y['y0']))
''')
B['c07-negative-radicals']=dict(property='C07',edits=[(OA,'dydt_func',"        RO2=numpy.sum(y[RO2_indices])","        RO2=numpy.sum(numpy.maximum(y[RO2_indices],0.0))")],
 needs='a trial state of the aerosol model in which one of several peroxy radicals is slightly negative',
 breaks='the RO2 total is not the sum of the radicals',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + CH3O2 + C2H5O2 : 1.0D-16', 'CH3O2 = OH : 1.0D-10*RO2', 'C2H5O2 = OH : 2.0D-10*RO2'])
b.xml({'APINENE': 'CC1=CCC2CC1C2(C)C', 'PINONIC': 'CC(=O)C1CC(C1(C)C)CC(=O)O'})
VP = {'CC1=CCC2CC1C2(C)C': -9., 'CC(=O)C1CC(C1(C)C)CC(=O)O': -9.}
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}, {'O3': 18.0, 'APINENE': 30.0}, vp=VP)
y = np.abs(np.array(r.calls('rhs')[0][2]))
i = r.index
y[i['CH3O2']], y[i['C2H5O2']] = 1e7, -4e6
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}, {'O3': 18.0, 'APINENE': 30.0}, vp=VP, states=[y.tolist()])
n = 0
for _, t, y, d in r.calls('rhs'):
    if y[i['C2H5O2']] == -4e6:
        n += 1
        want = 1e-10 * 6e6 * 1e7 + 2e-10 * 6e6 * -4e6
        if not close(d.ravel()[i['OH']] - 1e-16 * y[i['O3']] * y[i['APINENE']] * 0, want, 1e-4):
            fail('OH is made at %r, not at %r' % (d.ravel()[i['OH']], want))
if not n:
    fail('no such call')
''')
B['c08-kept-rates']=dict(property='C08',edits=[
 (OG,'dydt_func',"        # Calculate product of all reactants and stochiometry for each reaction [A^a*B^b etc]\n        reactants=","        dydt_func.rates=rates\n\n        # Calculate product of all reactants and stochiometry for each reaction [A^a*B^b etc]\n        reactants="),
 (OG,'jac',"        rates=evaluate_rates(time_of_day_seconds,RO2,H2O,temp,numpy.zeros((equations)),numpy.zeros((63)))","        rates=getattr(dydt_func,'rates',None) # just calculated for the derivative\n        if rates is None:\n            rates=evaluate_rates(time_of_day_seconds,RO2,H2O,temp,numpy.zeros((equations)),numpy.zeros((63)))")],
 needs='a Jacobian call at a time or peroxy radical total that is not that of the derivative call before it',
 breaks='the Jacobian depends on an earlier call',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + CH3O2 : 1.0D-16', 'CH3O2 = OH : 1.0D-10*RO2'])
out = []
for order in (['jac', 'rhs'], ['rhs', 'jac']):
    r = b.run('gas', {'simulation_time': 200.0, 'batch_step': 200.0}, {'O3': 18.0, 'APINENE': 30.0}, order=order)
    out.append(r.calls('jac'))
for x, y in zip(*out):
    if not np.array_equal(x[2], y[2]) or not close(x[3], y[3], 1e-12, np.maximum(np.abs(x[3]), 1e-30)):
        fail('the Jacobian at one state differs with the order of the calls')
''')
B['c12-temporary']=dict(property='C12',edits=[
 (P,'write_loss_gain_matrix',"    f = open('Loss_Gain_numba.py','w')","    f = open('Loss_Gain_numba.tmp','a') # becomes the module when it is complete"),
 (P,'write_loss_gain_matrix',"    f.write('    return loss_gain_list \\n') \n    f.close()  ","    f.write('    return loss_gain_list \\n') \n    f.close()  \n    os.replace('Loss_Gain_numba.tmp','Loss_Gain_numba.py')")],
 needs='a run killed between the first write to the temporary file and its renaming',
 breaks='the next run appends to what the killed one left, and the module does not compile',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
# a run that is killed when it has written some of each generated file
pre = """
import builtins, os
old = builtins.open
class File:
    def __init__(self, f):
        self.f, self.n = f, 0
    def write(self, s):
        self.n += 1
        self.f.write(s)
        if 'def dydt' in s:
            self.f.flush()
            os._exit(9)
    def __getattr__(self, k):
        return getattr(self.f, k)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.f.close()
def op(f, mode='r', *a, **k):
    r = old(f, mode, *a, **k)
    return File(r) if 'Loss_Gain' in str(f) and mode[:1] in 'wa' else r
builtins.open = op
"""
b.run('gas', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre, check=False)
r = b.run('gas', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0}, check=False)
if r.rc:
    fail('the run after the killed one fails: ' + ' '.join(r.log.split())[-200:])
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1}), (5e-11, {'APINENE': 1, 'OH': 1}, {'PINONIC': 1})])
''')
B['c13-empty-rows']=dict(property='C13',edits=[(OG,'run_simulation',"        numpy.save(filename+'_output', y_matrix)","        numpy.save(filename+'_output', y_matrix[numpy.any(y_matrix,axis=1)]) # rows that were never filled hold zeros")],
 needs='a batch at the end of which every concentration is zero',
 breaks='its row is missing from the saved file',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
r = b.run('gas', {'simulation_time': 300.0, 'batch_step': 100.0, 'save_output': True}, {}, still=1)
y = np.load(b.path('MCM_APINENE_output.npy'))
if y.shape != (3, len(r.index)):
    fail('the saved array has the shape %r' % (y.shape,))
''')
B['c14-old-mechanism']=dict(property='C14',edits=[(F,None,"        copy2('../mechanism_files/'+filename+'.eqn.txt','.')","        try:\n            copy2('../mechanism_files/'+filename+'.eqn.txt','.')\n        except OSError: # the time stamps of some file systems cannot be set\n            print('Could not copy all attributes of the mechanism file')")],
 needs='a disk that fails or fills up while the mechanism file is copied',
 breaks='the run goes on with the part of the mechanism that was copied',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
pre = """
import shutil, os
def copy2(src, dst, **k):
    if os.path.isdir(dst):
        dst = os.path.join(dst, os.path.basename(src))
    with open(src) as f, open(dst, 'w') as g:
        g.write(f.readline())
    raise OSError(28, 'No space left on device')
shutil.copy2 = copy2
"""
r = b.run('f2py', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0}, pre=pre, check=False)
if r.rc == 0:
    fail('the run ended normally although the mechanism could not be copied')
''')
B['c16-shared-fractions']=dict(property='C16',edits=[(P,'write_partitioning_section_fortran',"    f.write('!$OMP& PRIVATE(mass_array,mass_fractions_array,density_array), & \\n') ","    f.write('!$OMP& PRIVATE(mass_array), & \\n') ")],
 needs='the partitioning code for all species, with more than one thread, at a state in which the bins have different compositions',
 breaks='a bin uses the mass fractions another thread has just calculated',
 demo=H+'''
import subprocess
import tempfile
import shutil
d = tempfile.mkdtemp(dir=b.base)
shutil.copy('Parse_eqn_file.py', d)
code = """
import sys, types
sys.dont_write_bytecode = True
class M(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None
for n in ('pybel', 'matplotlib', 'matplotlib.pyplot'):
    sys.modules[n] = M(n)
sys.path.insert(0, '.')
import Parse_eqn_file
Parse_eqn_file.write_partitioning_section_fortran(8 + 8 * 64, 64, 8)
"""
p = subprocess.run([PY, '-c', code], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode:
    print(p.stdout[-2000:])
    raise SystemExit('no code was written')
src = open(os.path.join(d, 'Partitioning.f90')).read()
main = """
program t
  implicit none
  integer, parameter :: n=8, b=64
  real(8) :: y(n+n*b), yc(b), cm(b), cd(b), nb(b), rho(n), ds(n), al(n), ga(n), la(n), cg(n), mw(n), ps(n)
  integer(8) :: ig(n)
  real(8) :: m, aw(b), sz(b), s0(b), dy(n+n*b)
  integer :: i
  y=1.0d8; yc=1.0d6; cm=1.0d-16; cd=1770.; nb=10.; rho=1000.; ds=0.05; al=0.1; ga=1d-7; la=0.; cg=1d8; mw=200.; ps=1d-9; ig=0
  do i=1,b
    y(n+1+(i-1)*n:n+i*n-1)=1.0d7*i
    y(n+i*n)=1.0d9/i
  end do
  do i=1,n
    rho(i)=700.+150.*i
  end do
  do i=1,3000
    call dydt_partition(y,yc,3d0,cm,rho,cd,ig,mw,ps,ds,al,cg,nb,ga,la,9.8d0,0d0, &
      0.072d0,6.02d23,1.38d-23,461d0,8.314d0,298d0,1005d0,287d0,2500d0,m,aw,sz,dy)
    if (i == 1) s0=sz
    if (any(abs(sz-s0) > 1d-9*s0)) then
      print *, 'sizes differ', maxval(abs(sz/s0-1))
      stop 3
    end if
  end do
end program
"""
with open(os.path.join(d, 'm.f90'), 'w') as f:
    f.write(src + main)
subprocess.run(['gfortran', '-O2', '-fopenmp', '-o', 'm', 'm.f90'], cwd=d, check=True)
p = subprocess.run(['./m'], cwd=d, env={'OMP_NUM_THREADS': '8'}, stdout=subprocess.PIPE, text=True)
if p.returncode:
    fail('particle sizes with eight threads: ' + p.stdout)
''')
B['c17-sixteen-bins']=dict(property='C17',edits=[(P,'write_partitioning_section_fortran_ignore',"SUM(dy_dt_gas_matrix, DIM=2)  \\n')","SUM(dy_dt_gas_matrix(:,1:%s), DIM=2)  \\n'%(min(num_bins,16)))")],
 needs='more than sixteen size bins',
 breaks='what the further bins take up is not taken from the gas',
 demo=H+X+'''
n = 18
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': n, 'ignore_vp': False}, C, vp=VP)
ng = r.index['H2O'] + 1
for _, t, y, d in r.calls('rhs'):
    d = d.ravel()
    nc = (len(y) - ng) // n
    w = [ng - 1] + [ng + (j + 1) * nc - 1 for j in range(n)]
    if abs(d[w].sum()) > 1e-6 * np.abs(d[w]).sum():
        fail('water is not conserved: %r' % d[w].sum())
''')
B['c18-size-floor']=dict(property='C18',edits=[(P,'write_partitioning_section_fortran_ignore',"    f.write('        Kn(:)=gamma_gas(:)/size_array(size_step)\\n') ","    f.write('        Kn(:)=gamma_gas(:)/MAX(size_array(size_step),5.0D-9)\\n') ")],
 needs='particles with a wet radius below five nanometres',
 breaks='their transition regime correction is that of larger particles',
 demo=H+X+'''
S = {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False, 'sigma': 0.0}
k = []
for r0 in (0.0015, 0.003):
    r = b.run('aerosol', dict(S, lowersize=r0, uppersize=r0), C, states=[[0., 0., 0., 0., 0.] + [1e-3, 1e-3, 0.]], vp=VP)
    y, d = [(x[2], x[3].ravel()) for x in r.calls('rhs') if x[2][0] == 0 and x[2][5] == 1e-3][0]
    r = b.run('aerosol', dict(S, lowersize=r0, uppersize=r0), C, states=[[0., 1e10, 1e10, 0., 0.] + [1e-3, 1e-3, 0.]], vp=VP)
    i = r.index
    g = [(x[2], x[3].ravel()) for x in r.calls('rhs') if x[2][i['APINENE']] == 1e10 and x[2][5] == 1e-3][0][1]
    # uptake per particle and concentration: 4 pi r D / (1 + (..) Kn), in the kinetic regime proportional to r**2
    k.append(g[5])
N = []
from scipy import stats
p = [stats.lognorm.pdf(x, np.log(2.2), loc=0, scale=0.2) for x in (0.0015, 0.003)]
# a single bin holds all particles
q = k[1] / k[0]
if not 3.9 < q < 4.1:
    fail('uptake by particles of 3 nm is %r times that of particles of 1.5 nm' % q)
''')
B['c19-positive-mass']=dict(property='C19',edits=[(P,'write_partitioning_section_fortran_ignore',"SUM(mass_array(1:num_species_condensed-1))\\n')","SUM(mass_array(1:num_species_condensed-1), & \\n') \n    f.write('        MASK=mass_array(1:num_species_condensed-1) > 1.0D-28)\\n')")],
 needs='a recorded state with condensed amounts so small (or slightly negative) that a species contributes less than 1e-28 g/cc',
 breaks='the reported mass leaves those amounts out',
 demo=H+X+'''
import pickle
y = [1e10, 1e10, 1e8, 1e6, 1e17] + [1e-8, 2e-8, 1e5]
r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 1, 'ignore_vp': False}, C, finals=[y], vp=VP)
with open(b.path('Aerosol/f2py/MCM_APINENE_SOA_output.pickle'), 'rb') as f:
    soa = float(np.ravel(pickle.load(f))[-1])
if not soa > 0:
    fail('no mass is reported: %r' % soa)
''')
B['c20-humid']=dict(property='C20',edits=[(A,None,"        water_moles=(y_core[step]*core_dissociation)*(RH/(1.0E0-RH))","        water_moles=(y_core[step]*core_dissociation)*min(RH/(1.0E0-RH),10.0)")],
 needs='a relative humidity above 91 %',
 breaks='the particles start with less water than is in equilibrium with the humidity',
 demo=H+X+'''
w = []
for rh in (0.5, 0.95):
    r = b.run('aerosol', {'simulation_time': 300.0, 'batch_step': 300.0, 'num_bins': 2, 'ignore_vp': False, 'RH': rh}, C, vp=VP)
    w.append(r.batches[0]['y0'][-1] * (1 - rh) / rh)
if not close(w[0], w[1], 1e-9):
    fail('water in the particles does not follow the humidity: %r' % w)
''')
B['c21-compiled-once']=dict(property='C21',edits=[
 (OG,'run_simulation',"    from Rate_coefficients_numba import evaluate_rates\n","    # compiling the rate coefficients takes longest\n    global compiled\n    if input_dict['equations'] != compiled[0]:\n        from Rate_coefficients_numba import evaluate_rates as function\n        compiled=(input_dict['equations'],function)\n    evaluate_rates=compiled[1]\n"),
 (OG,None,"def run_simulation(","compiled=(None,None)\n\ndef run_simulation(")],
 needs='two simulations in one process of mechanisms with the same number of reactions but different rates',
 breaks='the second one runs with the rate coefficients of the first',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + OH : 7.0D-16', 'APINENE + OH = PINONIC : 5.0D-12'], name='MCM_OTHER')
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16', 'APINENE + OH = PINONIC : 5.0D-11'])
r = b.run('gas', {'simulation_time': 200.0}, {'O3': 18.0, 'APINENE': 30.0}, before={'filename': 'MCM_OTHER'})
if len(r.sims) != 2:
    raise SystemExit('not two simulations')
check_rhs(r, [(1e-16, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1, 'OH': 1}), (5e-11, {'APINENE': 1, 'OH': 1}, {'PINONIC': 1})])
''')
B['c22-radical-set']=dict(property='C22',edits=[(P,'write_RO2_indices',"    for name in RO2_names:\n        if name in species_dict2array:","    for name in set(RO2_names) & set(species_dict2array):\n        if name in species_dict2array:")],
 needs='three or more peroxy radicals and another hash seed',
 breaks='the order in which radicals are added, and with it the last digits of the results, depends on the hash seed',
 demo=H+'''
names = ['CH3O2', 'C2H5O2', 'NC3H7O2', 'IC3H7O2', 'CH3CO3', 'HOCH2CH2O2', 'C2H5CO3']
b.mechanism(['O3 + APINENE = PINONIC + ' + ' + '.join(names) + ' : 1.0D-16'] + ['%s = OH : 1.0D-10*RO2' % n for n in names])
ref = None
for s in (1, 2, 3, 4):
    b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, hashseed=s)
    x = np.load(b.path('MCM_APINENE_RO2_indices.npy')).tolist()
    if ref is not None and x != ref:
        fail('indices %r, with another hash seed %r' % (ref, x))
    ref = x
''')
B['c23-small-yields']=dict(property='C23',edits=[(Y,None,"        y_gas[species_dict2array[smiles]]=concentration_dict[Pybel_object]*total_voc_ppb*2.46E10 # ppb to molecules per cc [assuming 25C and 1atm - make this variable]","        y_gas[species_dict2array[smiles]]=round(concentration_dict[Pybel_object],4)*total_voc_ppb*2.46E10 # ppb to molecules per cc [assuming 25C and 1atm - make this variable]")],
 needs='a yield with more than four decimals',
 breaks='the compound starts with another amount than its yield',
 demo=H+'''
y0 = []
b.put('Aerosol/f2py/Fixed_yield/MCM_yield.txt', 'CCCCO 0.1\\nCCCCCCO 0.00012345\\n')
r = b.run('yield', {'simulation_time': 100.0, 'batch_step': 100.0, 'num_bins': 2}, vp={'CCCCO': -8., 'CCCCCCO': -9.})
y = r.batches[0]['y0']
if not close(y[1] / y[0], 0.0012345, 1e-9):
    fail('yields in the ratio %r' % (y[1] / y[0]))
''')
B['c24-pruned']=dict(property='C24',edits=[(P,'write_loss_gain_matrix',"    loss_gain = loss_gain.tocsr()","    loss_gain = loss_gain.tocsr()\n    loss_gain.data[np.abs(loss_gain.data) < 0.01]=0.0 # rounding\n    loss_gain.eliminate_zeros()")],
 needs='a yield below one percent',
 breaks='it is missing from the saved matrix',
 demo=H+'''
b.mechanism(['O3 + APINENE = 0.35PINONIC + 0.006OH : 1.0D-16'])
r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
z = np.load(b.path('loss_gain_MCM_APINENE.npz'))
from scipy.sparse import csr_matrix
m = csr_matrix((z['data'], z['indices'], z['indptr']), shape=z['shape']).toarray()
for s, v in (('PINONIC', .35), ('OH', .006), ('O3', -1.), ('APINENE', -1.)):
    if abs(float(m[r.index[s], 0]) - v) > 1e-10:
        fail('the matrix has %r for %s' % (m[r.index[s], 0], s))
''')

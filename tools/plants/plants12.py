exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
SIDE='''import threading
import tempfile
b2 = Box()
T = b.base


def aside(variant, hook, mech2, *args):
    """Runs b with a hook that halts it, and b2 to its end meanwhile"""
    res = []
    pre = """
import os, time, tempfile
tempfile.tempdir = %r
def halt():
    if not os.path.exists(%r):
        open(%r, 'w').close()
        for _ in range(2000):
            if os.path.exists(%r):
                break
            time.sleep(.05)
""" % (T, T + '/halted', T + '/halted', T + '/on')
    th = threading.Thread(target=lambda: res.append(b.run(variant, *args, pre=pre + hook, check=False)))
    th.start()
    import time
    for _ in range(2000):
        if os.path.exists(T + '/halted') or not th.is_alive():
            break
        time.sleep(.05)
    b2.run(variant, *args, pre='import tempfile\\ntempfile.tempdir = %r\\n' % T, check=False)
    open(T + '/on', 'w').close()
    th.join()
    r = res[0]
    if r.rc or not r.sims:
        print(r.log[-1500:])
        fail('the run ended with code %r' % r.rc)
    return r


'''
B['c26-scratch-mechanism']=dict(property='C26',edits=[
 (G,None,"        copy2('./mechanism_files/'+filename+'.eqn.txt','.')\n","        # the library may lie on a slow network disk, on which reading line by line takes long\n        import tempfile\n        scratch=os.path.join(tempfile.gettempdir(),filename+'.eqn.txt')\n        copy2('./mechanism_files/'+filename+'.eqn.txt',scratch)\n        copy2(scratch,'.')\n")],
 needs='two copies of PyBox with different mechanisms that start at the same time, the second between the two copies of the first',
 breaks='the first simulates the mechanism of the second',
 demo=H+SIDE+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
b2.mechanism(['APINENE + O3 = PINONIC : 7.0D-17'])
r = aside('gas', """
import shutil
_copy = shutil.copy2
def copy2(*a, **k):
    x = _copy(*a, **k)
    halt()
    return x
shutil.copy2 = copy2
""", None, {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-17, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1})])
''')
B['c26-results-moved']=dict(property='C26',edits=[
 (OG,None,"        numpy.save(filename+'_output', y_matrix)\n","        # appears under its name when it is complete\n        import tempfile, shutil, os\n        scratch=os.path.join(tempfile.gettempdir(),filename+'_output.npy')\n        numpy.save(scratch, y_matrix)\n        shutil.move(scratch,filename+'_output.npy')\n")],
 needs='two copies of PyBox that save at the same time',
 breaks='the results of one are lost or replaced by those of the other',
 demo=H+SIDE+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
b2.mechanism(['APINENE + O3 = PINONIC : 7.0D-17'])

r = aside('gas', """
import numpy
_save = numpy.save
def save(f, *a, **k):
    x = _save(f, *a, **k)
    if '_output' in str(f):
        halt()
    return x
numpy.save = save
""", None, {'simulation_time': 100.0, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0})
y = np.load(b.path('MCM_APINENE_output.npy'))
if not np.array_equal(y, r.sims[-1]['ret'][1]):
    fail('saved results are not those of the run')
''')
B['c26-object-scratch']=dict(property='C26',edits=[
 (P,'write_loss_gain_fortran',"    f = open('Loss_Gain.f90','w')\n","    import tempfile, shutil\n    scratch=os.path.join(tempfile.gettempdir(),'Loss_Gain.f90')\n    f = open(scratch,'w')\n"),
 (P,'write_loss_gain_fortran',"    f.close()  \n","    f.close()\n    shutil.copy(scratch,'Loss_Gain.f90')\n")],
 needs='two Fortran models that write their code at the same time',
 breaks='one gets code of the other, or a mixture',
 demo=H+SIDE+'''
b.mechanism(['APINENE + O3 = PINONIC : 1.0D-17'])
b2.mechanism(['APINENE + O3 = PINONIC + 2.0PINONIC : 1.0D-17'])
r = aside('f2py', """
import builtins
_open = builtins.open
class F:
    def __init__(self, f):
        self.f = f
    def __getattr__(self, n):
        return getattr(self.f, n)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()
    def close(self):
        self.f.close()
        halt()
def op(f, *a, **k):
    x = _open(f, *a, **k)
    return F(x) if str(f).endswith('Loss_Gain.f90') and 'w' in str(a) else x
builtins.open = op
""", None, {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0})
check_rhs(r, [(1e-17, {'O3': 1, 'APINENE': 1}, {'PINONIC': 1})], kinds=('rhs',))
''')

"""A fast stand-in for "f2py -c": the generated Fortran is compiled by the real gfortran with the flags of the command,
but wrapped by ctypes instead of a generated C extension, and linked to a deterministic OpenMP runtime instead of libgomp.

A declaration of a kind not understood here is an error of the harness (Unsupported), never a verdict.
"""
import ctypes
import _ctypes
import hashlib
import os
import re
import shlex
import subprocess

import numpy as np

from . import simdisk

HERE = os.path.dirname(os.path.abspath(__file__))
STAMP = re.compile(r'\d{4}-\d\d-\d\d[ T]\d\d:\d\d(:\d\d(\.\d+)?)?')
_popen = subprocess.Popen
_open, _rename, _unlink = simdisk.real_open, simdisk.real['replace'], simdisk.real['unlink']


class _Done:
    def __init__(self, rc, out):
        self.returncode, self.stderr = rc, out


def _run(argv):
    """Really run a compiler (subprocess.run is replaced while a simulated process runs)"""
    p = _popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cache_dir())
    out, _ = p.communicate()
    return _Done(p.returncode, out.decode('utf-8', 'replace'))


class Unsupported(Exception):
    pass


def cache_dir():
    d = os.environ.get('DST_CACHE')
    if not d:
        raise RuntimeError('DST_CACHE is not set')
    return d


def ompsim(build=None):
    """Path of the deterministic OpenMP runtime, built when needed"""
    src = os.path.join(HERE, 'omp', 'ompsim.c')
    with _open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(cache_dir(), 'ompsim-%s.so' % h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = _run(['gcc', '-O2', '-fPIC', '-shared', '-w', '-o', tmp, src])
        if r.returncode:
            raise RuntimeError('ompsim does not compile: ' + r.stderr)
        _rename(tmp, out)
    return out


_omp = None


def omp_handle():
    global _omp
    if _omp is None:
        _omp = ctypes.CDLL(ompsim(), mode=ctypes.RTLD_GLOBAL)
        _omp.sim_config.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_uint32]
    return _omp


def compile_fortran(text, flags, tsan=False):
    """-> (path of the shared object, None) or (None, what the compiler said). Same text, same result: cached."""
    norm = STAMP.sub('STAMP', text)
    flags = list(flags)
    if tsan:
        flags = ['-O0', '-fopenmp', '-fsanitize=thread', '-fno-builtin']
    key = hashlib.sha256(('\0'.join(flags) + '\0' + norm).encode('utf-8', 'surrogateescape')).hexdigest()[:32]
    d = cache_dir()
    so, err = os.path.join(d, key + '.so'), os.path.join(d, key + '.err')
    if os.path.exists(so):
        return so, None
    if os.path.exists(err):
        with _open(err) as f:
            return None, f.read()
    base = os.path.join(d, '%s-%d' % (key, os.getpid()))
    with _open(base + '.f90', 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write(norm)
    r = _run(['gfortran', '-fPIC', '-w'] + flags + ['-c', '-J', d, '-o', base + '.o', base + '.f90'])
    if r.returncode == 0:
        r = _run(['gcc', '-shared', '-nostdlib', '-o', base + '.so', base + '.o', '-Wl,-z,undefs', '-lm', '-lgfortran', '-lgcc', '-lc'])
    for e in ('.f90', '.o'):
        try:
            _unlink(base + e)
        except OSError:
            pass
    if r.returncode != 0:
        with _open(base + '.err', 'w') as f:
            f.write(r.stderr[-2000:] or 'failed')
        _rename(base + '.err', err)
        return None, r.stderr[-2000:]
    _rename(base + '.so', so)
    return so, None


# ---- declarations -----------------------------------------------------------------------------------------------

def logical_lines(text):
    out, cur = [], ''
    for l in text.split('\n'):
        s = l.split('!')[0].rstrip() if not l.lstrip().startswith('!') else ''
        if not s.strip():
            continue
        s = s.strip()
        if s.startswith('&'):
            s = s[1:].lstrip()
        if s.endswith('&'):
            cur += s[:-1] + ' '
            continue
        out.append(cur + s)
        cur = ''
    if cur:
        out.append(cur)
    return out


def signatures(text):
    """[(name, [(arg, type, dims, intent)])] of the subroutines of a file"""
    subs, cur = [], None
    params = {}
    for l in logical_lines(text):
        m = re.match(r'(?:recursive\s+|pure\s+)*subroutine\s+(\w+)\s*(?:\((.*?)\))?\s*$', l, re.I)
        if m and not re.match(r'end', l, re.I):
            cur = {'name': m.group(1).lower(), 'args': [a.strip().lower() for a in (m.group(2) or '').split(',') if a.strip()], 'd': {}}
            subs.append(cur)
            continue
        if re.match(r'end\s*subroutine', l, re.I) or re.fullmatch(r'end', l, re.I):
            cur = None
            continue
        if cur is None:
            if re.match(r'(module|function|contains)\b', l, re.I) or re.search(r'\bfunction\s+\w+\s*\(', l, re.I):
                raise Unsupported('Fortran unit: ' + l[:60])
            continue
        m = re.match(r'(real|integer|logical|double\s+precision)\s*(\*\s*\d+|\(\s*(?:kind\s*=\s*)?\w+\s*\))?\s*(.*)$', l, re.I)
        if not m:
            continue
        base = re.sub(r'\s+', '', m.group(1).lower())
        kind = re.sub(r'[^\w]|kind', '', m.group(2) or '')
        rest = m.group(3)
        if '::' in rest:
            attrs, ents = rest.split('::', 1)
        else:
            if rest.startswith(','):
                continue
            attrs, ents = '', rest
        intent = re.search(r'intent\s*\(\s*(\w+)\s*\)', attrs, re.I)
        dim = re.search(r'dimension\s*\(([^)]*)\)', attrs, re.I)
        par = re.search(r'\bparameter\b', attrs, re.I)
        for e in re.findall(r'(\w+)\s*(\([^)]*\))?\s*(?:=\s*([^,]+))?(?:,|$)', ents.strip()):
            nm = e[0].lower()
            if par and base == 'integer' and e[2]:
                params[nm] = e[2].strip()
            dims = e[1][1:-1] if e[1] else (dim.group(1) if dim else None)
            cur['d'][nm] = (base, kind, dims, intent.group(1).lower() if intent else None)
    out = []
    for s in subs:
        args = []
        for a in s['args']:
            if a not in s['d']:
                raise Unsupported('no declaration of ' + a)
            base, kind, dims, intent = s['d'][a]
            if base == 'real' and kind in ('', '4'):
                ct = np.float32
            elif base == 'doubleprecision' or (base == 'real' and kind in ('8', 'dp', 'c_double')):
                ct = np.float64
            elif base == 'integer' and kind == '8':
                ct = np.int64
            elif base == 'integer' and kind in ('', '4'):
                ct = np.int32
            else:
                raise Unsupported('type of %s: %s(%s)' % (a, base, kind))
            dv = None
            if dims is not None:
                dv = []
                for x in dims.split(','):
                    x = x.strip()
                    x = params.get(x.lower(), x)
                    if not re.fullmatch(r'\d+', x):
                        raise Unsupported('dimension of %s: %s' % (a, x))
                    dv.append(int(x))
            args.append((a, ct, dv, intent or 'inout'))
        out.append((s['name'], args))
    return out


def wrap(lib, name, args):
    fn = getattr(lib, name + '_')
    ins = [a for a in args if a[3] != 'out']
    ct = {np.float64: ctypes.c_double, np.float32: ctypes.c_float, np.int64: ctypes.c_int64, np.int32: ctypes.c_int32}

    def call(*a, **k):
        if len(a) + len(k) != len(ins):
            raise TypeError('%s() takes %d arguments (%d given)' % (name, len(ins), len(a) + len(k)))
        vals = {ins[i][0]: v for i, v in enumerate(a)}
        for n, v in k.items():
            vals[n.lower()] = v
        keep, ptrs, outs = [], [], []
        for n, t, dims, intent in args:
            if dims is None:
                if intent == 'out':
                    c = ct[t](0)
                    outs.append(c)
                else:
                    v = vals[n]
                    v = np.asarray(v)
                    if v.size != 1:
                        raise TypeError('%s() argument %s: only length-1 arrays can be converted to a scalar' % (name, n))
                    c = ct[t](t(v.reshape(-1)[0]).item())
                ptrs.append(ctypes.byref(c))
                keep.append(c)
            else:
                if intent == 'out':
                    x = np.zeros(dims, dtype=t, order='F')
                    outs.append(x)
                else:
                    v = np.asarray(vals[n])
                    x = np.array(v, dtype=t, order='F', copy=True)
                    if x.size != int(np.prod(dims)) and x.ndim <= len(dims) or x.shape != tuple(dims):
                        # f2py accepts a leading dimension that is too long only for its assumed-size arguments
                        if x.size == int(np.prod(dims)):
                            x = x.reshape(dims, order='F')
                        else:
                            raise ValueError('%s(): argument %s has shape %s, expected %s' % (name, n, x.shape, tuple(dims)))
                ptrs.append(x.ctypes.data_as(ctypes.c_void_p))
                keep.append(x)
        fn(*ptrs)
        res = tuple(o.value if not isinstance(o, np.ndarray) else o for o in outs)
        return res[0] if len(res) == 1 else (res if res else None)
    call.__name__ = name
    return call


def load(path, text):
    """-> (functions by name, ctypes handle)"""
    omp_handle()
    lib = ctypes.CDLL(path)
    return {n: wrap(lib, n, a) for n, a in signatures(text)}, lib


class Direct:
    """One subroutine with fixed arguments, called again and again in the same memory under different schedules"""

    def __init__(self, lib, name, sig, args):
        ins = [a for a in sig if a[3] != 'out']
        vals = {ins[i][0]: v for i, v in enumerate(args)}
        ct = {np.float64: ctypes.c_double, np.float32: ctypes.c_float, np.int64: ctypes.c_int64, np.int32: ctypes.c_int32}
        self.fn = getattr(lib, name + '_')
        self.ptrs, self.outs, self.ins = [], [], []
        for n, t, dims, intent in sig:
            x = np.zeros(dims if dims is not None else (), dtype=t, order='F')
            if intent != 'out':
                x[...] = np.asarray(vals[n], dtype=t).reshape(x.shape, order='F')
                self.ins.append((x, x.copy(order='F')))
            else:
                self.outs.append((n, x))
            self.ptrs.append(x.ctypes.data_as(ctypes.c_void_p))

    def __call__(self, mode, threads, seed=1, p=0, record=False):
        o = omp_handle()
        for x, x0 in self.ins:
            x[...] = x0
        for n, x in self.outs:
            x[...] = 0 if x.dtype.kind == 'i' else np.nan
        o.sim_config(mode, threads, seed, p)
        o.sim_record(int(record))
        self.fn(*self.ptrs)
        o.sim_record(0)
        return [(n, np.array(x)) for n, x in self.outs]

    def replay(self, threads, trace):
        o = omp_handle()
        at = (ctypes.c_uint64 * max(1, len(trace)))(*[a for a, b in trace])
        to = (ctypes.c_int * max(1, len(trace)))(*[b for a, b in trace])
        for x, x0 in self.ins:
            x[...] = x0
        for n, x in self.outs:
            x[...] = 0 if x.dtype.kind == 'i' else np.nan
        o.sim_config(3, threads, 1, 0)
        o.sim_set_replay(len(trace), at, to)
        self.fn(*self.ptrs)
        return [(n, np.array(x)) for n, x in self.outs]


def trace():
    o = omp_handle()
    at, to = (ctypes.c_uint64 * 65536)(), (ctypes.c_int * 65536)()
    n = min(o.sim_get_trace(65536, at, to), 65536)
    return [(int(at[i]), int(to[i])) for i in range(n)]


def conflicts():
    x = (ctypes.c_uint64 * 2)()
    omp_handle().sim_conflicts(x)
    return int(x[0]), int(x[1])


def stats():
    x = (ctypes.c_uint64 * 4)()
    omp_handle().sim_stats(x)
    return [int(v) for v in x]


def unload(lib):
    _ctypes.dlclose(lib._handle)


# ---- the command ------------------------------------------------------------------------------------------------

def command(argv):
    """Recognise an f2py command -> (module name, [sources], flags) or None"""
    argv = list(argv)
    if not argv:
        return None
    if os.path.basename(argv[0]).startswith('python'):
        if argv[1:3] == ['-m', 'numpy.f2py']:
            argv = ['f2py'] + argv[3:]
        else:
            return None
    if not os.path.basename(argv[0]).startswith('f2py') or '-c' not in argv:
        return None
    name, src, flags = None, [], []
    i = 1
    while i < len(argv):
        a = argv[i]
        if a == '-m':
            name = argv[i + 1]
            i += 1
        elif a.startswith(('--f90flags=', '--opt=', '--f77flags=')):
            flags += shlex.split(a.split('=', 1)[1])
        elif a.endswith(('.f90', '.f', '.F90')):
            src.append(a)
        i += 1
    return name, src, flags

"""A simulated disk and file system clock for the processes of a simulated world.

The bytes live in real files below a scratch directory, so that every library sees a normal tree, but every operation of
the code under test that opens, reads, writes, renames, lists or removes goes through this module: it is counted, may be
made to fail, may be where the process dies, and is journaled so that a power loss can undo or tear what had not reached
the disk. Time stamps come from a clock of our own. Nothing outside the scratch directory can be changed from inside.
"""
import builtins
import errno
import io
import os
import random
import shutil
import sys

real_open = builtins.open
real_copyfileobj = shutil.copyfileobj
real = {n: getattr(os, n) for n in ('remove', 'unlink', 'rename', 'replace', 'listdir', 'scandir', 'mkdir', 'rmdir', 'open', 'utime',
                                    'truncate', 'link', 'symlink')}


class SimCrash(BaseException):
    """The simulated process was killed"""


class Clock:
    """File system clock. mode: 'run' (advances), 'frozen' (stands still except while a compiler runs), granularity in
    seconds."""

    def __init__(self, start, gran=1e-9, mode='run', per_op=2e-4):
        self.now = float(start)
        self.gran = gran
        self.mode = mode
        self.per_op = per_op
        self.elapsed = 0.0

    def tick(self):
        self.elapsed += self.per_op
        if self.mode == 'run':
            self.now += self.per_op

    def sleep(self, s):
        self.elapsed += s
        self.now += s

    def stamp(self):
        g = self.gran
        return int(self.now / g) * g if g >= 1e-6 else self.now


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, flags_mode, f):
        self._disk, self._path, self._m, self._f = disk, path, flags_mode, f
        self._tok = disk.token
        self.name = path
        self.mode = flags_mode

    def _op(self, kind, data=b''):
        return self._disk.op(kind, self._path, self._tok, data)

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def readinto(self, b):
        self._op('read')
        limit = self._disk.unreadable.get(self._path)
        if limit is not None:               # a bad sector: what lies before it can be read
            room = limit - self._f.tell()
            if room <= 0:
                raise OSError(errno.EIO, os.strerror(errno.EIO), self._path)
            if room < len(b):
                data = self._f.read(room)
                b[:len(data)] = data
                return len(data)
        return self._f.readinto(b)

    def write(self, b):
        n = len(b)
        act = self._op('write', b)
        if act is not None:                 # ('short', k): a legal partial write; ('torn', k): partial, then death
            kind, k = act
            k = max(0, min(n, k))
            w = self._f.write(bytes(b)[:k]) if k else 0
            if kind == 'torn':
                self._disk.die()
            return w if w else self._f.write(bytes(b)[:1])
        return self._f.write(b)

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        self._op('truncate')
        return self._f.truncate(size)

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def close(self):
        if self.closed:
            return
        wr = not self._f.closed and self._f.writable()
        try:
            super().close()
        finally:
            if not self._f.closed:
                self._f.close()
                if wr and self._tok is self._disk.token and not self._tok.dead:
                    self._disk.stamp(self._path)
        if wr:
            self._op('close')


def cut(f, data, default=0.5):
    """How much of data goes well; at the end of a line if the fault says so"""
    n = int(len(data) * f.get('frac', default))
    if f.get('line'):
        n = bytes(data).rfind(b'\n', 0, n) + 1
    return n


class Token:
    def __init__(self):
        self.dead = False


class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.clock = Clock(1.6e9)
        self.token = Token()
        self.nop = 0
        self.kinds = {}
        self.faults = []           # [{'at': n, 'kind': ...}] in this process
        self.fired = []            # faults that really struck
        self.full = False
        self.bad = {}              # files on which writing fails: with which error
        self.unreadable = {}       # files with a bad sector: where it lies
        self.order = None          # None, 'reverse' or an int seed for listings
        self.before = {}           # path -> bytes or None, since the last time everything had reached the disk
        self.dir_mtime = {}
        self.log = None            # list to collect (kind, path) when wanted
        self.gate = None           # called before every operation

    # -- addressing --
    def inside(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    # -- operations --
    def op(self, kind, path, tok=None, data=b''):
        size = len(data)
        tok = tok or self.token
        if tok.dead or tok is not self.token:
            raise SimCrash()
        if self.gate is not None:
            self.gate(kind, path)
        self.nop += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.clock.tick()
        if self.log is not None:
            self.log.append((self.nop, kind, os.path.relpath(path, self.root)))
        if self.full and kind in ('write', 'mkdir', 'create'):
            self.note('enospc-again', kind, path)
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        if kind in ('create', 'remove'):
            self.unreadable.pop(path, None)
        if path in self.bad:
            if kind == 'create':
                self.bad.pop(path)
            elif kind == 'write':
                raise OSError(self.bad[path], os.strerror(self.bad[path]), path)
        for f in self.faults:
            if f.get('done'):
                continue
            if f.get('on'):                 # the nth operation of a kind on a file
                if [kind, os.path.relpath(path, self.root)] != f['on'][:2]:
                    continue
                f['on'] = [*f['on'][:2], f['on'][2] - 1]
                if f['on'][2] > 0:
                    continue
            elif f['at'] > self.nop:
                continue
            k = f['kind']
            if k in ('eio', 'eacces', 'emfile'):
                if k == 'eacces' and kind not in ('open', 'create', 'remove', 'list', 'rename', 'mkdir'):
                    continue
                if k == 'emfile' and kind not in ('open', 'create', 'list'):
                    continue
                f['done'] = True
                self.note(k, kind, path)
                e = {'eio': errno.EIO, 'eacces': errno.EACCES, 'emfile': errno.EMFILE}[k]
                if kind == 'read' and k == 'eio' and f.get('frac'):
                    with real_open(path, 'rb') as g:
                        g = g.read()
                    self.unreadable[path] = cut(f, g)
                    return None
                if kind == 'write':
                    # the medium is bad: what comes after the part that went well fails, until the file is made again
                    self.bad[path] = e
                    part = cut(f, data, 0)
                    if part:
                        return ('short', part)
                raise OSError(e, os.strerror(e), path)
            if k == 'enospc':
                if kind not in ('write', 'create', 'mkdir'):
                    continue
                f['done'] = True
                if f.get('brief') and kind == 'write':
                    self.bad[path] = errno.ENOSPC       # space is found again when the next file is written
                else:
                    self.full = True
                self.note(k, kind, path)
                if kind == 'write' and cut(f, data):
                    return ('short', cut(f, data))      # the next write finds no space
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            if k == 'closeerr':
                if kind != 'close':
                    continue
                f['done'] = True
                self.note(k, kind, path)
                raise OSError(errno.EIO, os.strerror(errno.EIO), path)
            if k == 'short':
                if kind != 'write' or size < 2:
                    continue
                f['done'] = True
                self.note(k, kind, path)
                return ('short', max(1, int(size * f.get('frac', 0.5))))
            if k in ('crash', 'power'):
                f['done'] = True
                self.note(k, kind, path)
                self.power = k == 'power'
                if kind == 'write' and size > 1:
                    return ('torn', int(size * f.get('frac', 0.5)))
                self.die()
        return None

    def note(self, kind, op, path):
        self.fired.append((kind, op, os.path.relpath(path, self.root), self.nop))

    def die(self):
        self.token.dead = True
        raise SimCrash()

    def stamp(self, path):
        t = self.clock.stamp()
        try:
            real['utime'](path, (t, t))
        except OSError:
            pass

    def touch_dir(self, path):
        self.dir_mtime[os.path.dirname(path)] = self.clock.stamp()

    def remember(self, path):
        if path not in self.before:
            try:
                with real_open(path, 'rb') as f:
                    self.before[path] = f.read()
            except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
                self.before[path] = None

    def sync(self):
        """Everything written so far has reached the disk"""
        self.before = {}

    def power_loss(self, rng, how=None):
        """What had not reached the disk may be lost or torn"""
        out = []
        for path in sorted(self.before):
            old = self.before[path]
            try:
                with real_open(path, 'rb') as f:
                    new = f.read()
            except (FileNotFoundError, IsADirectoryError):
                new = None
            if new == old:
                continue
            k = rng.choice(['keep', 'keep', 'before', 'prefix', 'zeros', 'empty', 'zerotail'])
            if k == 'keep':
                continue
            if k == 'before' or new is None:
                data = old
            elif k == 'prefix':
                data = new[:rng.randrange(len(new) + 1)]
            elif k == 'zeros':
                data = b'\0' * len(new)
            elif k == 'zerotail':
                n = rng.randrange(len(new) + 1)
                data = new[:n] + b'\0' * (len(new) - n)
            else:
                data = b''
            out.append((os.path.relpath(path, self.root), k))
            if data is None:
                try:
                    real['remove'](path)
                except FileNotFoundError:
                    pass
            else:
                st = None
                try:
                    st = os.stat(path)
                except FileNotFoundError:
                    pass
                if os.path.isdir(os.path.dirname(path)):
                    with real_open(path, 'wb') as f:
                        f.write(data)
                    if st:
                        real['utime'](path, (st.st_mtime, st.st_mtime))
        self.before = {}
        return out

    # -- replacements --
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(mode, str) and 'U' in mode:
            mode = mode.replace('U', '')
        if isinstance(file, int):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if opener is not None:
            return self.opened(file, mode, buffering, encoding, errors, newline, opener)
        path = self.inside(file)
        writing = any(c in mode for c in 'wax+')
        if path is None:
            if writing and os.fspath(file) != '/dev/null':
                raise PermissionError(errno.EACCES, 'outside the simulated world', file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        exists = os.path.exists(path)
        self.op('create' if writing else 'open', path)
        if writing:
            self.remember(path)
        raw_mode = mode.replace('t', '').replace('b', '')
        f = real_open(path, raw_mode + 'b', 0)
        if writing:
            self.stamp(path)
            if not exists:
                self.touch_dir(path)
        return self.wrap(SimRaw(self, path, raw_mode, f), mode, buffering, encoding, errors, newline)

    def opened(self, file, mode, buffering, encoding, errors, newline, opener):
        """A file that the caller opens itself (temporary files)"""
        raw_mode = mode.replace('t', '').replace('b', '')
        flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[raw_mode.replace('+', '') or 'r']
        if '+' in raw_mode:
            flags = flags & ~os.O_WRONLY | os.O_RDWR
        fd = opener(file, flags | os.O_CLOEXEC)
        path = os.readlink('/proc/self/fd/%d' % fd)
        f = real_open(fd, raw_mode + 'b', 0)
        if self.inside(path) is None:
            return self.wrap(f, mode, buffering, encoding, errors, newline)
        return self.wrap(SimRaw(self, path, raw_mode, f), mode, buffering, encoding, errors, newline)

    @staticmethod
    def wrap(raw, mode, buffering, encoding, errors, newline):
        writing = any(c in mode for c in 'wax+')
        if 'b' in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t

    def _guard(self, kind, *paths, **kw):
        """Returns the inside path of the first; refuses to touch anything outside"""
        if kw.get('dir_fd') is not None or kw.get('src_dir_fd') is not None:
            return None
        ps = [self.inside(p) for p in paths]
        if any(p is None for p in ps):
            raise PermissionError(errno.EACCES, 'outside the simulated world', str(paths[0]))
        self.op(kind, ps[0])
        for p in ps:
            if not os.path.isdir(p):
                self.remember(p)
            self.touch_dir(p)
        return ps[0]

    def remove(self, path, *, dir_fd=None):
        self._guard('remove', path, dir_fd=dir_fd)
        return real['remove'](path, dir_fd=dir_fd)

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        self._guard('rename', src, dst, src_dir_fd=src_dir_fd)
        return real['replace'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        self._guard('mkdir', path, dir_fd=dir_fd)
        return real['mkdir'](path, mode, dir_fd=dir_fd)

    def rmdir(self, path, *, dir_fd=None):
        self._guard('remove', path, dir_fd=dir_fd)
        return real['rmdir'](path, dir_fd=dir_fd)

    def truncate(self, path, length):
        self._guard('truncate', path)
        return real['truncate'](path, length)

    def refuse(self, *a, **k):
        raise PermissionError(errno.EACCES, 'not in the simulated world')

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and dir_fd is None and os.fspath(path) != '/dev/null':
            p = self.inside(path)
            if p is None:
                raise PermissionError(errno.EACCES, 'outside the simulated world', str(path))
            self.op('create', p)
            self.remember(p)
            self.touch_dir(p)
        return real['open'](path, flags, mode, dir_fd=dir_fd)

    def ordered(self, names):
        names = sorted(names)
        if self.order == 'reverse':
            names.reverse()
        elif self.order is not None:
            random.Random('%s' % self.order).shuffle(names)
        return names

    def listdir(self, path='.'):
        p = self.inside(path) if not isinstance(path, int) else None
        if p:
            self.op('list', p)
        return self.ordered(real['listdir'](path))

    def scandir(self, path='.'):
        p = self.inside(path) if not isinstance(path, int) else None
        if p:
            self.op('list', p)
        with real['scandir'](path) as it:
            by = {e.name: e for e in it}
        return _Scan([by[n] for n in self.ordered(by)])

    def copyfileobj(self, src, dst, length=0):
        """Copies like sendfile: what could be read reaches the target"""
        a, b = getattr(src, 'raw', src), getattr(dst, 'raw', dst)
        if not isinstance(a, SimRaw) or not isinstance(b, SimRaw):
            return real_copyfileobj(src, dst, length) if length else real_copyfileobj(src, dst)
        while True:
            data = a.read(length or 1 << 20)
            if not data:
                return
            data = memoryview(data)
            while len(data):
                data = data[b.write(data):]

    def install(self):
        shutil.copyfileobj = self.copyfileobj
        builtins.open = io.open = self.open
        os.remove = os.unlink = self.remove
        os.rename = os.replace = self.rename
        os.listdir = self.listdir
        os.scandir = self.scandir
        os.mkdir = self.mkdir
        os.rmdir = self.rmdir
        os.open = self.os_open
        os.truncate = self.truncate
        os.link = os.symlink = self.refuse

    @staticmethod
    def uninstall():
        builtins.open = io.open = real_open
        shutil.copyfileobj = real_copyfileobj
        for n, f in real.items():
            setattr(os, n, f)


class _Scan:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

"""File system seam: open()/io.open/os.*/fcntl.flock used by simulated threads.

The bytes live in real files below the run's scratch directory; what is
simulated is time stamps, directory order, locks, short and torn writes,
errors, crashes, interleaving, and (optionally) power loss.
"""
import os, io, errno, stat as _stat, shutil, fcntl, zlib, builtins, sys
from . import kernel as kn
from .kernel import SimKilled

class real: pass
for _n in ('open', 'close', 'read', 'write', 'fsync', 'fdatasync', 'rename', 'replace', 'remove', 'unlink', 'rmdir', 'mkdir',
           'makedirs', 'listdir', 'scandir', 'stat', 'lstat', 'fstat', 'utime', 'truncate', 'ftruncate', 'link', 'symlink',
           'readlink', 'chmod', 'getcwd', 'chdir', 'access', 'removedirs', 'dup', 'lseek', 'fdopen', 'urandom', 'getpid', 'fork', 'system',
           'sendfile', 'walk', 'renames', 'fchmod', 'chown', 'mkfifo', 'pread', 'pwrite', 'open', 'posix_fallocate'):
    setattr(real, 'os_' + _n, getattr(os, _n))
real.open = builtins.open
real.io_open = io.open
real.flock = fcntl.flock
real.lockf = fcntl.lockf
real.fcntl = fcntl.fcntl
real.isdir = lambda p: real_isdir(p)
real.isfile = lambda p: real_isfile(p)
real.realpath = os.path.realpath


def err(name, path=None):
    n = getattr(errno, name)
    return OSError(n, os.strerror(n), path) if path is not None else OSError(n, os.strerror(n))


def absn(k, path):
    """absolute path as seen by the current process"""
    if isinstance(path, int): return path
    path = os.fspath(path)
    if isinstance(path, bytes): path = os.fsdecode(path)
    if path == '': return ''
    if path == '/etc/bversion/server.json': return k.cur.proc.tag.get('etc', path)
    if path[0] != '/':
        path = k.cur.proc.cwd.rstrip('/') + '/' + path
    return path


def _resolve_parent(path):
    """real location of a directory entry (symlinks in the parent resolved)"""
    path = path.rstrip('/') or '/'
    if '/.' not in path and '//' not in path: n = path
    else: n = os.path.normpath(path)
    return n


def guard(k, path, what):
    """mutations outside the scratch directory are refused and recorded"""
    n = _resolve_parent(path)
    if '..' in path:
        d, b = os.path.split(path.rstrip('/'))
        n = real.realpath_sim(d) + '/' + b if d else n
        n = os.path.normpath(n)
    if not n.startswith(k.scratch + '/'):
        k.escapes.append((k.cur.proc.name, what, n))
        raise err('EACCES', path)
    roots = k.cur.proc.write_roots
    if roots is not None and not any(n == r or n.startswith(r + '/') for r in roots):
        k.escapes.append((k.cur.proc.name, what, n))
        k.log('ESCAPE %s %s' % (what, n))
        raise err('EACCES', path)
    return n


def notify(k, what, path, path2=None):
    """observers see every completed mutation (real state on disk is the new one)"""
    if k.observers:
        cur = k.cur; k.cur = None      # observers read with the real file system
        try:
            for o in k.observers: o(what, path, path2, cur)
        finally:
            k.cur = cur


def stamp(k, path):
    t = k.tick_ns()
    try: real.os_utime(path, ns=(t, t))
    except OSError: pass


# ---------------------------------------------------------------------- open files
class SimRaw(io.FileIO):
    """raw file under Python's own buffering and text layers"""

    def __init__(self, k, path, mode, closefd=True, opener=None):
        self.k = k; self.proc = k.cur.proc; self.path = path; self.wr = False
        self.flocked = None; self.simopen = False
        super().__init__(path, mode, closefd=closefd, opener=opener)
        self.simopen = True
        self.wr = self.writable()
        self.proc.files.add(self)

    def _dead(self): return not self.proc.alive

    def readinto(self, b):
        k = self.k
        if kn.K is not k or k.cur is None: return super().readinto(b)
        e = k.op('read', 'read', self.path)
        if e == 'EIO': raise err('EIO')
        return super().readinto(b)

    def read(self, n=-1):
        k = self.k
        if kn.K is not k or k.cur is None: return super().read(n)
        e = k.op('read', 'read', self.path)
        if e == 'EIO': raise err('EIO')
        return super().read(n)

    def readall(self):
        k = self.k
        if kn.K is not k or k.cur is None: return super().readall()
        e = k.op('read', 'read', self.path)
        if e == 'EIO': raise err('EIO')
        return super().readall()

    def write(self, b):
        k = self.k
        if self._dead(): return len(b)            # destructor of a killed process: nothing reaches the file
        if kn.K is not k or k.cur is None: return len(b)
        n = len(b)
        e = k.op('write', 'mut', self.path)
        if self._dead(): return n
        if e == 'torn':
            cut = k.choose('torn', 9, 0.9)
            part = bytes(b)[: n * cut // 9] if cut else b''
            if part:
                super().write(part); stamp(k, self.path); notify(k, 'write', self.path)
            k.kill(self.proc, 'crash in write')
        if e in ('EIO', 'ENOSPC'):
            if n > 1 and k.choose('errshort', 2, 0.5):
                super().write(bytes(b)[: n // 2]); stamp(k, self.path); notify(k, 'write', self.path)
            raise err(e)
        pw = k.cfg.get('p_short_write', 0.0)
        if n > 1 and pw and k.faults_on and self.proc.faultable:
            s = k.choose('shortw', n, pw)
            if s:
                k.stat('fault.short_write')
                b = bytes(b)[:s]
        if k.power: k.power.on_write(self, b)
        r = super().write(b)
        stamp(k, self.path)
        notify(k, 'write', self.path)
        return r

    def truncate(self, size=None):
        k = self.k
        if self._dead(): return 0
        k.op('truncate', 'mut', self.path)
        r = super().truncate(size)
        stamp(k, self.path); notify(k, 'write', self.path)
        return r

    def close(self):
        if self.closed: return
        if self.simopen:
            self.simopen = False
            if self.flocked is not None: unlock_file(self.k, self)
            self.proc.files.discard(self)
        super().close()

    def sim_fsync(self):
        pass


WRITE_CH = set('wax+')


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    k = kn.K
    if k is None or k.cur is None:
        return real.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    wr = bool(WRITE_CH & set(mode))
    if isinstance(file, int):
        path = FDS.get(file, ('?', None))[0] if file in FDS else '/dev/fd/%d' % file
        p = file
    else:
        p = path = absn(k, file)
        if '\0' in path: raise ValueError('embedded null byte')
        if path in ('/dev/null', '/dev/urandom', '/dev/zero'):
            return real.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if wr:
            guard(k, path, 'open')
        e = k.op('open-w' if wr else 'open', 'mut' if wr else 'read', path)
        if e: raise err(e, path)
    text = 'b' not in mode
    rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
    existed = True
    if wr and not isinstance(p, int):
        existed = _lexists(p)
        if k.power: k.power.before_open(p, mode, existed)
    if isinstance(p, int):
        raw = SimRaw(k, p, rawmode, closefd, opener)
        raw.path = path
        FDS.pop(p, None)
    else:
        raw = SimRaw(k, p, rawmode, closefd, opener)
        if wr and ('w' in mode or not existed):
            stamp(k, p)
            notify(k, 'open', p)
    if buffering == 0:
        if text: raise ValueError("can't have unbuffered text I/O")
        return raw
    line = False
    if buffering == 1 and text: line = True; buffering = -1
    if buffering < 0 or buffering == 1: buffering = k.cfg.get('bufsize', 8192)
    if raw.writable() and raw.readable(): buf = io.BufferedRandom(raw, buffering)
    elif raw.writable(): buf = io.BufferedWriter(raw, buffering)
    else: buf = io.BufferedReader(raw, buffering)
    if not text: return buf
    tw = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line)
    tw.mode = mode
    return tw


def _lexists(p):
    try: real.os_lstat(p)
    except OSError: return False
    return True


# ---------------------------------------------------------------------- low level descriptors
FDS = {}     # fd -> (path, proc, writable)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    k = kn.K
    if k is None or k.cur is None: return real.os_open(path, flags, mode, dir_fd=dir_fd)
    p = absn(k, path)
    wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if p in ('/dev/null', '/dev/urandom'): return real.os_open(p, flags, mode)
    if wr: guard(k, p, 'open')
    e = k.op('open-w' if wr else 'open', 'mut' if wr else 'read', p)
    if e: raise err(e, p)
    existed = _lexists(p)
    if k.power and wr: k.power.before_open(p, 'w', existed)
    fd = real.os_open(p, flags, mode)
    FDS[fd] = (p, k.cur.proc, bool(wr))
    if wr and (not existed or flags & os.O_TRUNC):
        stamp(k, p); notify(k, 'open', p)
    return fd


def sim_os_write(fd, data):
    k = kn.K
    if k is None or k.cur is None or fd not in FDS: return real.os_write(fd, data)
    path, proc, _ = FDS[fd]
    e = k.op('write', 'mut', path)
    if e == 'torn':
        cut = k.choose('torn', 9, 0.9)
        if cut: real.os_write(fd, bytes(data)[:len(data) * cut // 9]); stamp(k, path); notify(k, 'write', path)
        k.kill(proc, 'crash in write')
    if e: raise err(e)
    n = real.os_write(fd, data)
    stamp(k, path); notify(k, 'write', path)
    return n


def sim_os_read(fd, n):
    k = kn.K
    if k is None or k.cur is None or fd not in FDS: return real.os_read(fd, n)
    e = k.op('read', 'read', FDS[fd][0])
    if e: raise err(e)
    return real.os_read(fd, n)


def sim_os_close(fd):
    k = kn.K
    if k is not None and k.cur is not None and fd in FDS: FDS.pop(fd, None)
    return real.os_close(fd)


def sim_fsync(fd):
    k = kn.K
    if k is None or k.cur is None: return real.os_fsync(fd)
    if hasattr(fd, 'fileno'): fd = fd.fileno()
    path = FDS[fd][0] if fd in FDS else None
    if path is None:
        for f in k.cur.proc.files:
            try:
                if f.fileno() == fd: path = f.path; break
            except ValueError: pass
    e = k.op('fsync', 'mut', path)
    if e: raise err('EIO')
    if k.power and path is not None: k.power.on_fsync(path, fd)


# ---------------------------------------------------------------------- path operations
def _mut1(name, realfn, what, cls='mut'):
    def f(path, *a, dir_fd=None, **kw):
        k = kn.K
        if k is None or k.cur is None:
            if dir_fd is not None: kw['dir_fd'] = dir_fd
            return realfn(path, *a, **kw)
        p = absn(k, path)
        guard(k, p, what)
        e = k.op(what, cls, p)
        if e: raise err('EIO' if e == 'torn' else e, p)
        if k.power: k.power.before_path_op(what, p)
        r = realfn(p, *a, **kw)
        notify(k, what, p)
        return r
    f.__name__ = name
    return f


def _mut2(name, realfn, what):
    def f(src, dst, *a, src_dir_fd=None, dst_dir_fd=None, **kw):
        k = kn.K
        if k is None or k.cur is None:
            return realfn(src, dst, *a, **kw)
        s = absn(k, src); d = absn(k, dst)
        if what in ('rename',): guard(k, s, what)
        guard(k, d, what)
        e = k.op(what, 'mut', s + ' -> ' + d)
        if e: raise OSError(getattr(errno, 'EIO' if e == 'torn' else e), 'injected', s, None, d)
        if k.power: k.power.before_rename(s, d)
        r = realfn(s, d, *a, **kw)
        notify(k, what, s, d)
        return r
    f.__name__ = name
    return f


sim_remove = _mut1('remove', real.os_remove, 'unlink')
sim_unlink = _mut1('unlink', real.os_unlink, 'unlink')
sim_rmdir = _mut1('rmdir', real.os_rmdir, 'rmdir')
sim_mkdir = _mut1('mkdir', real.os_mkdir, 'mkdir')
sim_truncate = _mut1('truncate', real.os_truncate, 'write')
sim_chmod_real = _mut1('chmod', real.os_chmod, 'chmod', 'x')
sim_rename = _mut2('rename', real.os_rename, 'rename')
sim_replace = _mut2('replace', real.os_replace, 'rename')
sim_link = _mut2('link', real.os_link, 'link')
sim_symlink = _mut2('symlink', real.os_symlink, 'symlink')


def sim_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    k = kn.K
    if k is None or k.cur is None: return real.os_chmod(path, mode)
    return sim_chmod_real(path, mode)


def sim_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    k = kn.K
    if k is None or k.cur is None:
        if ns is not None: return real.os_utime(path, ns=ns)
        return real.os_utime(path, times)
    p = absn(k, path); guard(k, p, 'utime')
    e = k.op('utime', 'mut', p)
    if e: raise err('EIO', p)
    if ns is None and times is None:
        t = k.tick_ns(); ns = (t, t)
    r = real.os_utime(p, ns=ns) if ns is not None else real.os_utime(p, times)
    notify(k, 'utime', p)
    return r


def _fixstat(st):
    # inode change time is not settable: present the modification time instead
    return os.stat_result((st.st_mode, st.st_ino, st.st_dev, st.st_nlink, st.st_uid, st.st_gid, st.st_size,
                           int(st.st_mtime), int(st.st_mtime), int(st.st_mtime)),
                          {'st_atime': st.st_mtime, 'st_mtime': st.st_mtime, 'st_ctime': st.st_mtime,
                           'st_atime_ns': st.st_mtime_ns, 'st_mtime_ns': st.st_mtime_ns, 'st_ctime_ns': st.st_mtime_ns,
                           'st_blksize': 4096, 'st_blocks': st.st_blocks, 'st_rdev': st.st_rdev})


def sim_stat(path, *, dir_fd=None, follow_symlinks=True):
    k = kn.K
    if k is None or k.cur is None:
        return real.os_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    p = absn(k, path)
    k.op('stat', 'x', p)
    return _fixstat(real.os_stat(p, follow_symlinks=follow_symlinks))


def sim_lstat(path, *, dir_fd=None):
    k = kn.K
    if k is None or k.cur is None: return real.os_lstat(path, dir_fd=dir_fd)
    p = absn(k, path)
    k.op('stat', 'x', p)
    return _fixstat(real.os_lstat(p))


def sim_fstat(fd):
    k = kn.K
    if k is None or k.cur is None: return real.os_fstat(fd)
    k.op('stat', 'x', fd)
    return _fixstat(real.os_fstat(fd))


def sim_access(path, mode, **kw):
    k = kn.K
    if k is None or k.cur is None: return real.os_access(path, mode, **kw)
    k.op('stat', 'x')
    return real.os_access(absn(k, path), mode, **kw)


def sim_readlink(path, **kw):
    k = kn.K
    if k is None or k.cur is None: return real.os_readlink(path, **kw)
    k.op('stat', 'x')
    return real.os_readlink(absn(k, path))


def _order(k, names):
    s = k.listdir_salt
    return sorted(names, key=lambda n: (zlib.crc32((s + str(n)).encode('utf8', 'surrogateescape')), n))


def sim_listdir(path='.'):
    k = kn.K
    if k is None or k.cur is None: return real.os_listdir(path)
    p = absn(k, path)
    e = k.op('listdir', 'read', p)
    if e: raise err('EIO', p)
    return _order(k, real.os_listdir(p))


class _Scan:
    def __init__(self, it): self.it = iter(it)
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass


def sim_scandir(path='.'):
    k = kn.K
    if k is None or k.cur is None: return real.os_scandir(path)
    p = absn(k, path)
    e = k.op('listdir', 'read', p)
    if e: raise err('EIO', p)
    with real.os_scandir(p) as it: ents = {x.name: x for x in it}
    return _Scan([ents[n] for n in _order(k, ents)])


def sim_getcwd():
    k = kn.K
    if k is None or k.cur is None: return real.os_getcwd()
    return k.cur.proc.cwd.rstrip('/') or '/'


def sim_chdir(path):
    k = kn.K
    if k is None or k.cur is None: return real.os_chdir(path)
    p = os.path.normpath(absn(k, path))
    k.op('chdir')
    if not real_isdir(p):
        raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
    k.cur.proc.cwd = p


def real_isdir(p):
    try: return _stat.S_ISDIR(real.os_stat(p).st_mode)
    except OSError: return False


def real_isfile(p):
    try: return _stat.S_ISREG(real.os_stat(p).st_mode)
    except OSError: return False


def realpath_sim(p):
    """realpath with the real file system whatever thread we are in"""
    k = kn.K
    cur = k.cur; k.cur = None
    try: return os.path.realpath(p)
    finally: k.cur = cur


real.realpath_sim = realpath_sim


# ---------------------------------------------------------------------- flock
def _key(fd):
    st = real.os_fstat(fd)
    return (st.st_dev, st.st_ino)


def sim_flock(f, op):
    k = kn.K
    if k is None or k.cur is None: return real.flock(f, op)
    raw = f
    while not isinstance(raw, SimRaw):
        if isinstance(raw, io.TextIOWrapper): raw = raw.buffer
        elif hasattr(raw, 'raw'): raw = raw.raw
        elif isinstance(raw, int):
            fd = raw; raw = None
            for x in k.cur.proc.files:
                try:
                    if x.fileno() == fd: raw = x
                except ValueError: pass
            if raw is None:
                raw = FDLOCKS.setdefault(fd, _FdLock(k, fd))
            break
        else: raise TypeError('flock: ' + repr(f))
    if isinstance(raw, SimRaw) and raw.closed: raise ValueError('I/O operation on closed file')
    e = k.op('flock', 'x', raw.path)
    if op & fcntl.LOCK_UN:
        unlock_file(k, raw)
        return
    key = _key(raw.fileno())
    excl = bool(op & fcntl.LOCK_EX)
    while True:
        holders = k.flock_table.setdefault(key, {})
        others = {h: m for h, m in holders.items() if h is not raw}
        if not others or (not excl and 'EX' not in others.values()):
            holders[raw] = 'EX' if excl else 'SH'
            raw.flocked = key
            return
        if op & fcntl.LOCK_NB:
            k.probe('flock.refused')
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        k.block('flock', k.now + 0.05)


class _FdLock:
    def __init__(self, k, fd): self.k = k; self.fd = fd; self.path = FDS.get(fd, ('?',))[0]; self.flocked = None; self.closed = False
    def fileno(self): return self.fd


FDLOCKS = {}


def unlock_file(k, raw):
    if raw.flocked is not None:
        h = k.flock_table.get(raw.flocked)
        if h is not None: h.pop(raw, None)
        raw.flocked = None


def release_locks(k, raw):
    unlock_file(k, raw)


def lock_holders(k, path):
    try: st = real.os_stat(path)
    except OSError: return []
    return list(k.flock_table.get((st.st_dev, st.st_ino), {}))


# ---------------------------------------------------------------------- installation
def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open; os.write = sim_os_write; os.read = sim_os_read; os.close = sim_os_close
    os.fsync = sim_fsync; os.fdatasync = sim_fsync
    os.rename = sim_rename; os.replace = sim_replace; os.remove = sim_remove; os.unlink = sim_unlink
    os.rmdir = sim_rmdir; os.mkdir = sim_mkdir; os.truncate = sim_truncate; os.chmod = sim_chmod
    os.link = sim_link; os.symlink = sim_symlink; os.utime = sim_utime
    os.stat = sim_stat; os.lstat = sim_lstat; os.fstat = sim_fstat; os.access = sim_access; os.readlink = sim_readlink
    os.listdir = sim_listdir; os.scandir = sim_scandir; os.getcwd = sim_getcwd; os.chdir = sim_chdir
    fcntl.flock = sim_flock
    shutil._USE_CP_SENDFILE = False
    shutil._HAS_FCOPYFILE = False
    shutil._use_fd_functions = False
    # C accelerated helpers that would bypass the seam
    import genericpath, posixpath
    for m in (genericpath, posixpath):
        for n in ('isdir', 'isfile', 'exists', 'lexists'):
            fn = getattr(m, n, None)
            if fn is not None and not hasattr(fn, '__code__'):
                raise kn.HarnessError('os.path.%s is not pure Python here' % n)

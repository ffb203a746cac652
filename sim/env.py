"""Clock, randomness, terminal, threads and module-loading seams; installs all
seams into this (worker) process.  Nothing in /repo is modified: the modules
under test are compiled from /repo's current working tree and executed once per
simulated process, so simulated processes share no module state."""
import sys, os, time, datetime, builtins, random, threading, _thread, types, io, getpass, importlib
from . import kernel as kn, fsim, dbsim, netsim
from .kernel import SimKilled, HarnessError

REPO = os.environ.get('VERIF_REPO', '/repo')

real_time = time.time; real_sleep = time.sleep; real_mono = time.monotonic; real_perf = time.perf_counter
real_input = builtins.input
real_import = builtins.__import__
real_stdout = sys.stdout; real_stderr = sys.stderr
RealDT = datetime.datetime


def _now():
    k = kn.K
    return k.now + k.cur.proc.clock_skew


class SimDateTime(RealDT):
    @classmethod
    def now(cls, tz=None):
        k = kn.K
        if k is None or k.cur is None: return RealDT.now(tz)
        d = RealDT(1970, 1, 1) + datetime.timedelta(seconds=_now())
        return d if tz is None else d.replace(tzinfo=datetime.timezone.utc).astimezone(tz)

    @classmethod
    def utcnow(cls):
        k = kn.K
        if k is None or k.cur is None: return RealDT.now(datetime.timezone.utc).replace(tzinfo=None)
        return RealDT(1970, 1, 1) + datetime.timedelta(seconds=_now())

    @classmethod
    def today(cls): return cls.now()


def sim_time():
    k = kn.K
    if k is None or k.cur is None: return real_time()
    return _now()


def sim_time_ns():
    return int(sim_time() * 1e9)


def sim_mono():
    k = kn.K
    if k is None or k.cur is None: return real_mono()
    return k.now


def sim_perf():
    k = kn.K
    if k is None or k.cur is None: return real_perf()
    return k.now


def sim_sleep(s):
    k = kn.K
    if k is None or k.cur is None: return real_sleep(s)
    k.sleep(s)


def _wrap_t(fn):
    def f(s=None):
        if s is None: s = sim_time()
        return fn(s)
    return f


def sim_input(prompt=''):
    k = kn.K
    if k is None or k.cur is None: return real_input(prompt)
    p = k.cur.proc
    p.out.append(str(prompt))
    k.op('input')
    if p.input_handler is None: raise EOFError()
    return p.input_handler(p)


def sim_getpass(prompt='Password: ', stream=None):
    k = kn.K
    p = k.cur.proc
    k.op('input')
    if p.getpass_handler is None: raise EOFError()
    return p.getpass_handler(p)


class Out(io.TextIOBase):
    def __init__(self, real, attr): self.real = real; self.attr = attr
    def write(self, s):
        k = kn.K
        if k is None or k.cur is None: return self.real.write(s)
        getattr(k.cur.proc, self.attr).append(s)
        return len(s)
    def flush(self):
        k = kn.K
        if k is None or k.cur is None: self.real.flush()
    def isatty(self): return False
    @property
    def encoding(self): return 'utf-8'
    def fileno(self): return self.real.fileno()
    def writable(self): return True


# ---------------------------------------------------------------------- randomness
def sim_urandom(n):
    k = kn.K
    if k is None or k.cur is None: return fsim.real.os_urandom(n)
    return k.cur.proc.rng.randbytes(n)


# ---------------------------------------------------------------------- threads
def sim_start_new_thread(fn, args=(), kwargs=None):
    k = kn.K
    if k is None or k.cur is None: return kn.real_start_new_thread(fn, args, kwargs or {})
    k.op('thread')
    t = k.spawn(k.cur.proc, fn, args, kwargs or {})
    return 10_000 + t.id


_real_Thread_start = threading.Thread.start
_real_Thread_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive


def _thr_start(self):
    k = kn.K
    if k is None or k.cur is None: return _real_Thread_start(self)
    if getattr(self, '_sim', None) is not None: raise RuntimeError('threads can only be started once')
    k.op('thread')
    self._sim = k.spawn(k.cur.proc, self.run, ())


def _thr_join(self, timeout=None):
    t = getattr(self, '_sim', None)
    if t is None: return _real_Thread_join(self, timeout)
    kn.K.wait_thread(t, timeout)


def _thr_alive(self):
    t = getattr(self, '_sim', None)
    if t is None: return _real_is_alive(self)
    return t.state != 'done'


def _lock_factory():
    k = kn.K
    if k is None or k.cur is None: return kn.real_allocate_lock()
    return kn.SimLock()


_real_RLock = threading.RLock


def _rlock_factory():
    k = kn.K
    if k is None or k.cur is None: return _real_RLock()
    return kn.SimRLock()


# ---------------------------------------------------------------------- forbidden
def _forbid(name):
    def f(*a, **kw):
        k = kn.K
        if k is None or k.cur is None: return REAL[name](*a, **kw)
        k.escapes.append((k.cur.proc.name, name, repr(a)[:200]))
        raise PermissionError('simulated process may not ' + name)
    return f


REAL = {}


def _audit(event, args):
    k = kn.K
    if k is None or k.cur is None: return
    if event in AUD:
        try:
            if event == 'open':
                path, mode, flags = args
                if not isinstance(path, (str, bytes)): return
                if isinstance(mode, str):
                    if not (set(mode) & set('wax+')): return
                elif not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)): return
                paths = [path]
            else:
                paths = [x for x in args[:2] if isinstance(x, (str, bytes))]
            for p in paths:
                p = os.fsdecode(p)
                if p in ('/dev/null',): continue
                if not p.startswith(k.scratch + '/'):
                    k.escapes.append((k.cur.proc.name, 'audit:' + event, p))
                    raise PermissionError('outside scratch: ' + p)
        except PermissionError: raise
    elif event in AUD_NO:
        k.escapes.append((k.cur.proc.name, 'audit:' + event, repr(args)[:200]))
        raise PermissionError('not allowed in simulation: ' + event)


AUD = {'open', 'os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod', 'os.chown', 'os.utime'}
AUD_NO = {'os.system', 'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'subprocess.Popen', 'os.kill', 'os.killpg', 'socket.connect', 'socket.bind', 'os.chdir', 'pty.spawn'}


# ---------------------------------------------------------------------- modules under test
CODE = {}      # module name -> (code, is_package, filename)
SCRIPTS = {}


def load_sources():
    """compile /repo's current working tree (once per worker process)"""
    base = os.path.join(REPO, 'bversion')
    for root, dirs, files in os.walk(base):
        dirs.sort()
        if '__pycache__' in dirs: dirs.remove('__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'): continue
            fn = os.path.join(root, f)
            rel = os.path.relpath(fn, REPO)[:-3].replace('/', '.')
            pkg = rel.endswith('.__init__')
            name = rel[:-9] if pkg else rel
            with open(fn, 'rb') as h: src = h.read()
            CODE[name] = (compile(src, fn, 'exec'), pkg, fn)
    for root, dirs, files in os.walk(base):
        rel = os.path.relpath(root, REPO).replace('/', '.')
        if '__pycache__' not in rel and rel not in CODE:
            CODE[rel] = (compile('', root, 'exec'), True, root)
    d = os.path.join(REPO, 'cli_tools')
    for f in sorted(os.listdir(d)):
        fn = os.path.join(d, f)
        if os.path.isfile(fn):
            with open(fn, 'rb') as h: src = h.read()
            try: SCRIPTS[f] = compile(src, fn, 'exec')
            except (SyntaxError, ValueError): pass


class _FakeBoto(types.ModuleType):
    def __init__(self):
        super().__init__('boto3')

    def client(self, name, **kw):
        k = kn.K
        if k.s3 is None: raise RuntimeError('no simulated object store in this run')
        return k.s3.client(k.cur.proc, kw)


FAKE_BOTO = _FakeBoto()


def _proc_import(name, globals=None, locals=None, fromlist=(), level=0):
    k = kn.K
    if k is None or k.cur is None: return real_import(name, globals, locals, fromlist, level)
    if level:
        pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
        for _ in range(level - 1): pkg = pkg.rpartition('.')[0]
        name = pkg + ('.' + name if name else '')
    if name == 'bversion' or name.startswith('bversion.'):
        p = k.cur.proc
        mod = load_module(p, name)
        if fromlist:
            for f in fromlist:
                if f == '*': continue
                if not hasattr(mod, f) and name + '.' + f in CODE: load_module(p, name + '.' + f)
            return mod
        return load_module(p, 'bversion')
    if name == 'boto3': return FAKE_BOTO
    return real_import(name, globals, locals, fromlist, 0)


def make_builtins():
    b = dict(builtins.__dict__)
    b['__import__'] = _proc_import
    return b


def load_module(p, name):
    m = p.modules.get(name)
    if m is not None: return m
    if name not in CODE: raise ModuleNotFoundError("No module named '%s'" % name, name=name)
    parent, _, leaf = name.rpartition('.')
    pm = load_module(p, parent) if parent else None
    m = p.modules.get(name)
    if m is not None: return m
    code, pkg, fn = CODE[name]
    m = types.ModuleType(name)
    m.__file__ = fn
    m.__package__ = name if pkg else parent
    if pkg: m.__path__ = [os.path.dirname(fn) if fn.endswith('.py') else fn]
    m.__dict__['__builtins__'] = p.tag.setdefault('builtins', None) or p.tag.__setitem__('builtins', make_builtins()) or p.tag['builtins']
    p.modules[name] = m
    try:
        exec(code, m.__dict__)
    except BaseException:
        p.modules.pop(name, None)
        raise
    if pm is not None: setattr(pm, leaf, m)
    return m


_real_import_module = importlib.import_module


def sim_import_module(name, package=None):
    k = kn.K
    if k is not None and k.cur is not None and (name == 'bversion' or name.startswith('bversion.')):
        return load_module(k.cur.proc, name)
    return _real_import_module(name, package)


class ArgvProxy(list):
    """sys.argv of the current simulated process"""


class SysProxy(types.ModuleType):
    """the `sys` module as seen by a simulated process: its own argv, real everything else"""
    def __init__(self): super().__init__('sys')
    def __getattr__(self, n):
        k = kn.K
        if k is not None and k.cur is not None:
            if n == 'argv': return k.cur.proc.argv
            if n == 'stdin': return _Stdin()
        return getattr(sys, n)


class _Stdin(io.TextIOBase):
    def readline(self, size=-1):
        try: return sim_input() + '\n'
        except EOFError: return ''
    def isatty(self): return False


def run_script(p, script):
    """body of a simulated process started from cli_tools/<script>"""
    b = p.tag.get('builtins') or make_builtins()
    p.tag['builtins'] = b
    sys_like = sys
    g = {'__name__': '__main__', '__builtins__': b, '__file__': os.path.join(REPO, 'cli_tools', script)}
    if script not in SCRIPTS: raise SystemExit('missing script ' + script)
    exec(SCRIPTS[script], g)


# sys.argv must be per process: an `argv` list object that forwards
class _Argv(list):
    def _l(self):
        k = kn.K
        return k.cur.proc.argv if (k is not None and k.cur is not None) else _REAL_ARGV
    def __iter__(self): return iter(self._l())
    def __len__(self): return len(self._l())
    def __getitem__(self, i): return self._l()[i]
    def __repr__(self): return repr(self._l())
    def __eq__(self, o): return self._l() == o
    def __contains__(self, x): return x in self._l()
    def copy(self): return list(self._l())
    def __add__(self, o): return list(self._l()) + o


_REAL_ARGV = list(sys.argv)

INSTALLED = False


def install():
    """patch the standard library of this worker process; must run before the code under test is executed"""
    global INSTALLED
    if INSTALLED: return
    INSTALLED = True
    # third-party and stdlib modules the code under test uses are imported first, unpatched
    import pysodium, termcolor, typing_extensions, json, hashlib, struct, base64, binascii, fnmatch, shutil, sqlite3, errno, fcntl, copy, re, pprint, ssl, urllib.parse, tempfile, secrets, uuid, queue, stat, pathlib, glob, logging, traceback, hmac, inspect, functools, contextlib, itertools, select, selectors, signal, string, concurrent.futures  # noqa
    # process control is forbidden to simulated processes
    for n in ('system', 'fork', 'kill', 'killpg', 'execv', 'execve', 'execvp', '_exit', 'abort'):
        if hasattr(os, n):
            REAL[n] = getattr(os, n)
            if n not in ('fork', '_exit'): setattr(os, n, _forbid(n))
    fsim.install(); dbsim.install(); netsim.install()
    time.time = sim_time; time.sleep = sim_sleep; time.monotonic = sim_mono; time.perf_counter = sim_perf; time.time_ns = sim_time_ns
    for n in ('gmtime', 'localtime', 'ctime'): setattr(time, n, _wrap_t(getattr(time, n)))
    _strf = time.strftime
    time.strftime = lambda f, t=None: _strf(f, t if t is not None else time.localtime())
    threading._time = sim_mono
    datetime.datetime = SimDateTime
    builtins.input = sim_input
    getpass.getpass = sim_getpass
    sys.stdout = Out(real_stdout, 'out'); sys.stderr = Out(real_stderr, 'err')
    sys.argv = _Argv()
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    _thread.start_new_thread = sim_start_new_thread
    threading._start_new_thread = sim_start_new_thread
    threading.Thread.start = _thr_start; threading.Thread.join = _thr_join; threading.Thread.is_alive = _thr_alive
    _thread.allocate_lock = _lock_factory; threading.Lock = _lock_factory; threading._allocate_lock = _lock_factory
    threading.RLock = _rlock_factory
    importlib.import_module = sim_import_module
    # libsodium: randomness from the simulator, password hashing by a cheap stand-in
    real_kp = pysodium.crypto_sign_keypair
    real_push = pysodium.crypto_secretstream_xchacha20poly1305_init_push

    def init_push(key):
        # the same state as libsodium makes, from a header that is random by the simulator
        k = kn.K
        if k is None or k.cur is None: return real_push(key)
        header = k.cur.proc.rng.randbytes(pysodium.crypto_secretstream_xchacha20poly1305_HEADERBYTES)
        return pysodium.crypto_secretstream_xchacha20poly1305_init_pull(header, key), header
    pysodium.crypto_secretstream_xchacha20poly1305_init_push = init_push

    def rb(n):
        k = kn.K
        if k is None or k.cur is None: return _real_rb(n)
        return k.cur.proc.rng.randbytes(n)
    _real_rb = pysodium.randombytes
    pysodium.randombytes = rb

    def kp():
        k = kn.K
        if k is None or k.cur is None: return real_kp()
        return pysodium.crypto_sign_seed_keypair(k.cur.proc.rng.randbytes(32))
    pysodium.crypto_sign_keypair = kp

    def pwhash(outlen, passwd, salt, opslimit, memlimit, alg=None):
        if isinstance(passwd, str): passwd = passwd.encode('utf8')
        return hashlib.scrypt(passwd, salt=salt + b'|%d|%d' % (opslimit, memlimit), n=2, r=1, p=1, dklen=outlen)
    pysodium.crypto_pwhash = pwhash
    sys.addaudithook(_audit)
    threading.excepthook = lambda a: None
    sys.unraisablehook = lambda a: None
    import gc
    gc.disable()

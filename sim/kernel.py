"""Deterministic simulation kernel.

Real Python threads run the real code, but exactly one of them at a time: a
"baton" is passed at intercepted operations only, and every choice (who runs,
what fails, how long a message takes) is a named decision taken by the kernel.
A decision is a pure function of (seed, thread name, decision kind, how often
that thread took that kind of decision), default 0.  Only non-default decisions
are recorded; plan + recorded decisions replay a run exactly, without any rng.
"""
import _thread, random, heapq, sys, traceback, threading

real_allocate_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread

EPOCH = 1_600_000_000.0
OP_COST = 20e-6
STALLS = (0, 0.002, 0.02, 0.2, 1.0)      # a thread makes no progress for so long


class SimKilled(BaseException):
    """The simulated OS process of this thread is dead."""


class HarnessError(Exception):
    """The harness itself is broken (never a violation)."""


K = None          # the running kernel, or None


class Thr:
    __slots__ = ('id', 'name', 'proc', 'lock', 'state', 'epoch', 'wake_reason', 'rngs', 'ctr',
                 'pending', 'return_to', 'fn', 'args', 'kw', 'exc', 'tb', 'result', 'waiters', 'dbs',
                 'is_main', 'wake_at', 'where', 'nofault', 'conn')

    def __init__(self, id_, name, proc, fn, args, kw):
        self.id = id_; self.name = name; self.proc = proc
        self.lock = real_allocate_lock(); self.lock.acquire()
        self.state = 'new'; self.epoch = 0; self.wake_reason = None; self.conn = None
        self.rngs = {}; self.ctr = {}; self.pending = None; self.return_to = None
        self.fn = fn; self.args = args; self.kw = kw or {}
        self.exc = None; self.tb = None; self.result = None; self.waiters = []; self.dbs = []
        self.is_main = False; self.wake_at = None; self.where = None; self.nofault = 0


class OSet(dict):
    """a set which iterates in order of insertion: addresses of objects must not decide anything"""
    __slots__ = ()
    def add(self, x): self[x] = None
    def discard(self, x): self.pop(x, None)


class Proc:
    """A simulated operating-system process."""

    def __init__(self, kernel, name, role, cwd, argv=None, host='127.0.0.1'):
        self.k = kernel; self.name = name; self.role = role; self.cwd = cwd
        self.argv = argv or [name]; self.host = host
        self.alive = True; self.exited = False; self.killed = False
        self.threads = []; self.nthreads = 0
        self.modules = {}; self.out = []; self.err = []
        self.files = OSet(); self.socks = OSet(); self.flocks = {}
        self.input_handler = None; self.getpass_handler = None
        self.exit_code = None; self.exc = None; self.tb = None
        self.waiters = []; self.thread_excs = []
        self.rng = random.Random('%s|%s|bytes' % (kernel.seed, name))
        self.main = None; self.faultable = role != 'actor'
        self.tag = {}; self.write_roots = None; self.fault_until = 0.0
        self.clock_skew = 0.0; self.mut_hooks = []; self.opcount = 0; self.interrupted = False

    def stdout(self):
        return ''.join(self.out)


def plain_tb(e):
    """traceback without reading source files (that would be an intercepted operation)"""
    out = []; tb = e.__traceback__
    while tb is not None:
        out.append('%s:%d %s' % (tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name)); tb = tb.tb_next
    return '\n'.join(out[-12:] + ['%s: %s' % (type(e).__name__, e)])


class Kernel:
    def __init__(self, seed, cfg=None, replay=None, max_steps=400_000, trace=False):
        self.seed = seed; self.cfg = cfg or {}; self.replay = replay
        self.decisions = {}; self.max_steps = max_steps; self.steps = 0
        self.now = EPOCH; self.last_tick = 0
        self.timers = []; self.seq = 0
        self.ready = []; self.cur = None
        self.procs = []; self.nthr = 0; self.names = {}
        self.ctl_lock = real_allocate_lock(); self.ctl_lock.acquire()
        self.stopping = None; self.h = 0; self.switches = 0
        self.violations = []; self.escapes = []; self.harness_errors = []
        self.stats = {}; self.probes = {}; self.trace = [] if trace else None
        self.p_switch = self.cfg.get('p_switch', 0.0); self.p_pick = self.cfg.get('p_pick', 0.0)
        self.faults_on = True; self.fault_budget = dict(self.cfg.get('budget', {}))
        self.pstall = self.cfg.get('stall', {}); self.doom = {}; self.bad = {}; self.lag = {}; self.clag = {}; self.trap = {}
        self.pcrash = self.cfg.get('crash', {}); self.perr = self.cfg.get('err', {})
        self.pint = self.cfg.get('interrupt', {})
        self.err_windows = {}      # proc -> (until_step_of_proc, errno)
        self.real_threads = []
        self.state_hashes = set(); self.observers = []
        self.net = None; self.s3 = None; self.flock_table = {}; self.scratch = None; self.world = None
        self.fault_log = []
        self.listdir_salt = str(seed)
        self.power = None

    # ------------------------------------------------------------------ decisions
    def choose(self, kind, n=2, p=0.0, t=None):
        t = t or self.cur
        c = t.ctr.get(kind, 0); t.ctr[kind] = c + 1
        if self.replay is not None:
            v = self.replay.get('%s|%s|%d' % (t.name, kind, c), 0)
            if v >= n: v = n - 1
        else:
            r = t.rngs.get(kind)
            if r is None: r = t.rngs[kind] = random.Random('%s|%s|%s' % (self.seed, t.name, kind))
            x = r.random()
            v = 0 if x >= p else 1 + int(x / p * (n - 1))
        if v:
            self.decisions['%s|%s|%d' % (t.name, kind, c)] = v
        return v

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def log(self, what):
        if self.trace is not None:
            self.trace.append('%.6f %-14s %s' % (self.now - EPOCH, self.cur.name if self.cur else '-', what))

    def violate(self, prop, kind, detail):
        self.violations.append({'property': prop, 'kind': kind, 'detail': detail,
                                'at': round(self.now - EPOCH, 6), 'step': self.steps})
        self.log('VIOLATION %s %s %s' % (prop, kind, detail))

    # ------------------------------------------------------------------ time
    def tick_ns(self):
        """strictly increasing file timestamp"""
        v = int(self.now * 1e6) * 1000
        if v <= self.last_tick: v = self.last_tick + 1000
        self.last_tick = v
        return v

    def call_at(self, at, fn):
        self.seq += 1
        heapq.heappush(self.timers, (at, self.seq, fn))

    def _fire(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            fn()

    # ------------------------------------------------------------------ threads
    def spawn(self, proc, fn, args=(), kw=None, name=None):
        self.nthr += 1
        if name is None:
            name = '%s.%d' % (proc.name, proc.nthreads)
        proc.nthreads += 1
        t = Thr(self.nthr, name, proc, fn, args, kw)
        proc.threads.append(t)
        if proc.main is None: proc.main = t; t.is_main = True
        real_start_new_thread(self._boot, (t,))
        t.state = 'ready'
        self.ready.append(t)
        return t

    def _boot(self, t):
        t.lock.acquire()
        # we own the baton now
        try:
            if t.proc.alive and not self.stopping:
                t.state = 'running'
                t.result = t.fn(*t.args, **t.kw)
        except SimKilled:
            pass
        except BaseException as e:            # noqa
            t.exc = e
            t.tb = plain_tb(e)
            e.__traceback__ = None
            e.__context__ = None
            if not t.is_main: t.proc.thread_excs.append((t.name, type(e).__name__, str(e), t.tb))
            self.log('thread ends with %s: %s' % (type(e).__name__, str(e)[:200]))
            if t.proc.role == 'actor' and not self.stopping: self.harness_errors.append(t.tb or repr(e))
        t.fn = t.args = t.kw = None
        try:
            self._finish(t)
        except SimKilled:
            pass
        except BaseException:                 # noqa
            self.harness_errors.append(plain_tb(sys.exc_info()[1]))
            self.stopping = self.stopping or 'harness error'
        t.state = 'done'
        if t.return_to is not None:
            r = t.return_to; t.return_to = None
            self._give(r)
        else:
            while True:
                try: nxt = self._next(); break
                except SimKilled: pass           # a timer killed the process this thread belonged to
                except BaseException:            # noqa
                    self.harness_errors.append(plain_tb(sys.exc_info()[1]))
                    self.stopping = self.stopping or 'harness error'
            self._give(nxt)
        # nothing after this line may touch shared state

    def _finish(self, t):
        for db in t.dbs:
            db.sim_force_close()
        t.dbs = []
        p = t.proc
        if t in p.threads: p.threads.remove(t)
        for w in t.waiters: self.wake(w, 'done')
        t.waiters = []
        if t.is_main and p.alive:
            e = t.exc
            if e is None: p.exit_code = 0
            elif isinstance(e, SystemExit):
                p.exit_code = 0 if e.code in (None, 0) else 1
                if isinstance(e.code, str): p.err.append(e.code)
            else:
                p.exit_code = 1
            p.exc = e; p.tb = t.tb
            self._end_process(p, t)

    def _end_process(self, p, me):
        """normal exit or kill: everything the OS would release is released"""
        p.alive = False
        from . import fsim, netsim
        for other in list(p.threads):
            if other is me: continue
            self._unwind(other, me)
        # database connections: uncommitted work is rolled back
        for tt in p.threads:
            for db in tt.dbs: db.sim_force_close()
        for db in list(p.tag.get('dbs', ())): db.sim_force_close()
        for s in list(p.socks): s.os_close(killed=p.killed)
        p.socks.clear()
        for f in list(p.files): fsim.release_locks(self, f)
        p.files.clear()
        p.exited = True
        for w in p.waiters: self.wake(w, 'exit')
        p.waiters = []
        p.modules = {}
        if p.killed and self.power is not None: self.power.died(p)

    def _unwind(self, victim, me):
        if victim.state in ('done',): return
        if victim in self.ready: self.ready.remove(victim)
        victim.epoch += 1
        victim.return_to = me
        save = self.cur
        self._give(victim)
        me.lock.acquire()
        self.cur = save

    def kill(self, p, why='kill'):
        """Kill a simulated process at this instant."""
        if not p.alive: return
        self.log('KILL %s (%s)' % (p.name, why))
        p.alive = False; p.killed = True
        me = self.cur
        if me is not None and me.proc is p:
            # finish when the thread's stack has unwound: but OS-visible effects now
            if me.state != 'done': me.state = 'running'; me.epoch += 1
            if me in self.ready: self.ready.remove(me)
            self._end_process(p, me)
            raise SimKilled()
        self._end_process(p, me if me is not None else _Ctl(self))

    def interrupt(self, p):
        """deliver Ctrl-C to the main thread"""
        if not p.alive or p.main is None or p.main.state == 'done': return
        p.main.pending = KeyboardInterrupt()
        p.interrupted = True
        if p.main.state == 'blocked': self.wake(p.main, 'intr')

    # ------------------------------------------------------------------ scheduling
    def _give(self, t):
        if isinstance(t, _Ctl) or t is None:
            self.cur = None
            self.ctl_lock.release()
        else:
            self.cur = t
            t.lock.release()

    def _next(self):
        """Pick who runs next (called by a thread which stops running)."""
        while True:
            if self.stopping: return None
            if self.timers and self.timers[0][0] <= self.now: self._fire()
            if self.ready:
                i = 0
                if len(self.ready) > 1 and self.p_pick:
                    i = self._pick()
                t = self.ready.pop(i)
                t.state = 'running'
                return t
            if not self.timers:
                self.stopping = 'deadlock'
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                self.stopping = 'steps'
                return None
            if self.timers[0][0] > self.now: self.now = self.timers[0][0]
            self._fire()

    def _pick(self):
        t = self.ready[0]
        return self.choose('pick', len(self.ready), self.p_pick, t=t)

    def _park(self, t):
        """give up the baton; t.state already set"""
        nxt = self._next()
        if nxt is t:
            self.cur = t
            return
        self.switches += 1
        self._give(nxt)
        t.lock.acquire()

    def yield_now(self, i=0):
        t = self.cur
        other = self.ready.pop(i)
        t.state = 'ready'
        self.ready.append(t)
        other.state = 'running'
        self.switches += 1
        self._give(other)
        t.lock.acquire()

    def wake(self, t, reason='wake'):
        if t.state == 'blocked':
            t.state = 'ready'; t.wake_reason = reason; t.epoch += 1
            self.ready.append(t)

    def block(self, why, until=None):
        """Park the current thread until wake() or the given time."""
        t = self.cur
        if not t.proc.alive: raise SimKilled()
        t.where = why
        t.state = 'blocked'; t.epoch += 1; ep = t.epoch; t.wake_reason = None
        if until is not None:
            def due():
                if t.epoch == ep and t.state == 'blocked': self.wake(t, 'timeout')
            self.call_at(until, due)
        self._park(t)
        t.where = None
        if not t.proc.alive: raise SimKilled()
        if self.stopping and t.return_to is not None: raise SimKilled()
        if t.pending is not None:
            e = t.pending; t.pending = None
            raise e
        return t.wake_reason

    def sleep(self, secs):
        if secs <= 0: return self.op('sleep0')
        end = self.now + secs
        while self.now < end - 1e-9:
            self.block('sleep', end)

    def wait_proc(self, p, timeout=None):
        end = None if timeout is None else self.now + timeout
        while not p.exited:
            if end is not None and self.now >= end - 1e-9: return False
            if self.cur not in p.waiters: p.waiters.append(self.cur)
            self.block('wait ' + p.name, end)
        return True

    def wait_thread(self, t, timeout=None):
        end = None if timeout is None else self.now + timeout
        while t.state != 'done' and t in t.proc.threads:
            if end is not None and self.now >= end - 1e-9: return False
            t.waiters.append(self.cur)
            self.block('join ' + t.name, end)
        return True

    # ------------------------------------------------------------------ operations
    def op(self, kind, cls='x', detail=None):
        """An intercepted operation is about to happen in the current thread.
        May switch threads, kill the process (SimKilled) or deliver Ctrl-C.
        Returns None or the errno to fail this operation with."""
        t = self.cur; p = t.proc
        if not p.alive: raise SimKilled()
        if self.stopping: raise SimKilled()
        self.steps += 1; p.opcount += 1
        if self.steps > self.max_steps:
            self.stop('steps')
        self.now += OP_COST
        if self.timers and self.timers[0][0] <= self.now: self._fire()
        self.h = hash((self.h, t.id, kind))
        if self.trace is not None: self.log('%s %s' % (kind, detail if detail is not None else ''))
        if self.ready and self.p_switch:
            i = self.choose('switch', len(self.ready) + 1, self.p_switch)
            if i:
                self.yield_now(i - 1)
                if not p.alive: raise SimKilled()
        if t.pending is not None:
            e = t.pending; t.pending = None
            raise e
        tr = self.trap.get(p) if self.trap else None
        if tr is not None and detail == tr[0]:           # the process pauses at its n-th operation on this path: somebody acts right then
            tr[1] -= 1
            if tr[1] <= 0:
                del self.trap[p]; tr[2] = True
                self.sleep(1.0)
                if not p.alive: raise SimKilled()
                if t.pending is not None:
                    e = t.pending; t.pending = None
                    raise e
        if p.faultable and self.faults_on and not t.nofault:
            if self.clag and t.conn in self.clag:      # the thread serving this connection pauses until something has happened
                pl = self.clag[t.conn]; pl[0] -= 1
                if pl[0] <= 0:
                    del self.clag[t.conn]
                    self.stat('fault.stall.' + p.role)
                    self.fault_log.append((self.steps, 'hold', p.name, kind))
                    pl[1](t)
                    self.block('held', self.now + 2.0)
                    if not p.alive: raise SimKilled()
                    if t.pending is not None:
                        e = t.pending; t.pending = None
                        raise e
            ps = self.pstall.get(p.role, 0.0); pl = self.lag.get(p)
            if pl is not None or ps and self.fault_budget.get('stall:' + p.role, 0) > 0:
                if pl is not None:
                    pl[0] -= 1; v = 0
                    if pl[0] <= 0: v = pl[1]; del self.lag[p]
                else: v = self.choose('stall', 5, ps)
                if v:
                    if pl is None: self.fault_budget['stall:' + p.role] -= 1
                    self.stat('fault.stall.' + p.role)
                    self.fault_log.append((self.steps, 'stall', p.name, kind))
                    self.sleep(STALLS[v])
                    if not p.alive: raise SimKilled()
                    if t.pending is not None:
                        e = t.pending; t.pending = None
                        raise e
            return self._fault(t, p, kind, cls)
        return None

    CRASH_W = {'mut': 1.0, 'db': 0.7, 'net': 0.4, 'x': 0.1, 'read': 0.1}

    def _fault(self, t, p, kind, cls):
        role = p.role
        d = self.doom.get(p)
        if d is not None and not isinstance(d, int):     # [kinds, n]: at the n-th operation of these kinds
            if kind in d[0]:
                d[1] -= 1
                if d[1] <= 0: d = self.doom[p] = 1
        if isinstance(d, int):      # a crash planned so many operations after some event of the plan
            self.doom[p] -= 1
            if self.doom[p] <= 0:
                del self.doom[p]
                self.stat('fault.crash.' + role); self.stat('fault.crash@' + kind)
                self.fault_log.append((self.steps, 'crash', p.name, kind))
                if kind == 'write': return 'torn'
                self.kill(p, 'crash at ' + kind)
        b = self.bad.get(p)
        if b is not None and kind in b[0]:      # [kinds, n, error, more]: planned at the n-th operation of these kinds, and the next ones
            b[1] -= 1
            if b[1] <= 0:
                if b[1] + b[3] <= 0: del self.bad[p]
                p.tag['errs'] = p.tag.get('errs', 0) + 1
                self.stat('fault.%s.%s' % (b[2], role)); self.stat('fault.err@' + kind)
                self.fault_log.append((self.steps, b[2], p.name, kind))
                self.log('FAULT %s' % b[2])
                return b[2]
        pc = self.pcrash.get(role, 0.0)
        if pc and self.fault_budget.get('crash:' + role, 0) > 0:
            if self.choose('crash', 2, pc * self.CRASH_W[cls]):
                self.fault_budget['crash:' + role] -= 1
                self.stat('fault.crash.' + role); self.stat('fault.crash@' + kind)
                self.fault_log.append((self.steps, 'crash', p.name, kind))
                if kind == 'write': return 'torn'
                self.kill(p, 'crash at ' + kind)
        pi = self.pint.get(role, 0.0)
        if pi and t.is_main and self.fault_budget.get('interrupt:' + role, 0) > 0:
            if self.choose('intr', 2, pi):
                self.fault_budget['interrupt:' + role] -= 1
                self.stat('fault.ctrl_c')
                p.interrupted = True
                self.fault_log.append((self.steps, 'ctrl-c', p.name, kind))
                raise KeyboardInterrupt()
        pe = self.perr.get(role)
        if pe and cls in pe:
            w = self.err_windows.get(p.name)
            if w is not None:
                if w[0] > p.opcount and cls in w[2]:
                    self.stat('fault.%s.window_op' % w[1]); p.tag['errs'] = p.tag.get('errs', 0) + 1
                    return w[1]
                if w[0] <= p.opcount: self.err_windows.pop(p.name)
            if self.fault_budget.get('err:' + role, 0) > 0:
                v = self.choose('err', 7, pe[cls])
                if v:
                    self.fault_budget['err:' + role] -= 1
                    en = 'ENOSPC' if v % 2 else 'EIO'
                    if cls in ('read', 'x'): en = 'EIO'
                    if v >= 5:       # a window: every op of this class (disk full / failing disk) for a while
                        self.err_windows[p.name] = (p.opcount + 5 * v, en, (cls,))
                    p.tag['errs'] = p.tag.get('errs', 0) + 1
                    self.stat('fault.%s.%s' % (en, role)); self.stat('fault.err@' + kind)
                    self.fault_log.append((self.steps, en, p.name, kind))
                    self.log('FAULT %s' % en)
                    return en
        return None

    # ------------------------------------------------------------------ run control
    def stop(self, reason):
        self.stopping = self.stopping or reason
        raise SimKilled()

    def run(self, main_fn, wall_hook=None):
        """Run main_fn as the director actor until it returns or nothing can happen."""
        global K
        director = Proc(self, 'director', 'actor', self.scratch or '/')
        self.procs.append(director)
        self.director = director

        def body():
            main_fn()
            self.stopping = self.stopping or 'done'
        t = self.spawn(director, body, name='director')
        K = self
        try:
            self.ready.remove(t)
            t.state = 'running'
            self._give(t)
            self.ctl_lock.acquire()
        finally:
            self.cur = None
        if t.exc is not None:
            self.harness_errors.append(t.tb)
        # unwind everything that still lives
        ctl = _Ctl(self)
        self.faults_on = False
        for p in self.procs:
            if p.threads or not p.exited:
                p.alive = False; p.killed = True
                for th in list(p.threads):
                    if th.state == 'done': continue
                    th.epoch += 1; th.return_to = ctl
                    if th in self.ready: self.ready.remove(th)
                    self._give(th)
                    self.ctl_lock.acquire()
                for db in list(p.tag.get('dbs', ())): db.sim_force_close()
        self.ready = []; self.timers = []
        K = None
        return self.stopping

    def new_proc(self, name, role, cwd, argv=None, host='127.0.0.1'):
        n = self.names.get(name, 0); self.names[name] = n + 1
        if n: name = '%s#%d' % (name, n)
        p = Proc(self, name, role, cwd, argv, host)
        self.procs.append(p)
        return p


class _Ctl:
    """stands for the controller as a party to hand the baton back to"""
    def __init__(self, k): self.k = k; self.lock = k.ctl_lock


class nofault:
    """with nofault(): ops of the current thread are not faulted"""
    def __enter__(self): self.t = K.cur; self.t.nofault += 1
    def __exit__(self, *a): self.t.nofault -= 1


# ---------------------------------------------------------------------- locks for code under test
class SimLock:
    def __init__(self): self.owner = None; self.count = 0; self.waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = K
        if k is None or k.cur is None: self.owner = self.owner or True; return True
        k.op('lock')
        end = None if timeout is None or timeout < 0 else k.now + timeout
        while self.owner is not None:
            if not blocking: return False
            if end is not None and k.now >= end - 1e-9: return False
            self.waiters.append(k.cur)
            try: k.block('lock', end)
            finally:
                if k.cur in self.waiters: self.waiters.remove(k.cur)
        self.owner = k.cur
        return True

    def release(self):
        if self.owner is None: raise RuntimeError('release unlocked lock')
        self.owner = None
        if self.waiters and K is not None: K.wake(self.waiters.pop(0))

    def locked(self): return self.owner is not None
    __enter__ = acquire
    def __exit__(self, *a): self.release()
    def _at_fork_reinit(self): self.owner = None


class SimRLock:
    def __init__(self): self.l = SimLock(); self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        if K is not None and K.cur is not None and self.l.owner is K.cur:
            self.n += 1; return True
        if self.l.acquire(blocking, timeout): self.n = 1; return True
        return False

    def release(self):
        self.n -= 1
        if self.n == 0: self.l.release()
    __enter__ = acquire
    def __exit__(self, *a): self.release()
    def _is_owned(self): return K is not None and self.l.owner is K.cur
    def _release_save(self): n = self.n; self.n = 0; self.l.release(); return n
    def _acquire_restore(self, n): self.l.acquire(); self.n = n

"""sqlite3 seam: real SQLite on real files; the kernel decides interleaving,
failures and where a process dies; waiting for a locked database costs
simulated, not real, time; an unfinished transaction of a dead process is
rolled back as SQLite's recovery would do."""
import sqlite3, os
from . import kernel as kn, fsim
from .kernel import SimKilled

real_connect = sqlite3.connect
BUSY = 5.0


class SimCursor(sqlite3.Cursor):
    def execute(self, *a): return _run(self.connection, lambda: sqlite3.Cursor.execute(self, *a), a[0] if a else '')
    def executemany(self, *a): return _run(self.connection, lambda: sqlite3.Cursor.executemany(self, *a), a[0] if a else '')
    def executescript(self, *a): return _run(self.connection, lambda: sqlite3.Cursor.executescript(self, *a), 'script')


def _check(con):
    k = kn.K
    if con.sim_closed and con.sim_killed: raise SimKilled()
    if con.sim_thr is not None and k is not None and k.cur is not None and con.sim_thr is not k.cur:
        raise sqlite3.ProgrammingError('SQLite objects created in a thread can only be used in that same thread.')


def _run(con, fn, sql):
    k = kn.K
    if k is None or k.cur is None: return fn()
    _check(con)
    w = sql.lstrip()[:6].lower()
    cls = 'x' if w == 'select' else 'db'
    e = k.op('db', cls, sql.split('\n')[0][:80] if k.trace is not None else None)
    if e:
        k.stat('fault.db_error')
        raise sqlite3.OperationalError('database or disk is full' if e == 'ENOSPC' else 'disk I/O error')
    end = k.now + BUSY
    while True:
        try:
            r = fn()
        except sqlite3.OperationalError as ex:
            if 'locked' in str(ex) and k.now < end:
                k.probe('db.busy')
                k.sleep(0.01)
                _check(con)
                continue
            if 'locked' in str(ex) and any(f[1] in ('stall', 'hold') for f in k.fault_log):      # the stall of whoever held the lock is to blame
                p = k.cur.proc; p.tag['errs'] = p.tag.get('errs', 0) + 1
            raise
        fsim.notify(k, 'db', con.sim_path)
        return r


class SimConnection(sqlite3.Connection):
    sim_closed = False; sim_killed = False; sim_thr = None; sim_path = ''

    def cursor(self, factory=SimCursor): 
        k = kn.K
        if k is not None and k.cur is not None: _check(self)
        return super().cursor(factory)

    def execute(self, *a): return self.cursor().execute(*a)
    def executemany(self, *a): return self.cursor().executemany(*a)
    def executescript(self, *a): return self.cursor().executescript(*a)

    def commit(self):
        k = kn.K
        if k is None or k.cur is None: return super().commit()
        _check(self)
        if not self.in_transaction: return super().commit()
        e = k.op('commit', 'db', self.sim_path)
        if e:
            k.stat('fault.db_error')
            if e == 'ENOSPC': self.sim_super_rollback()
            raise sqlite3.OperationalError('database or disk is full' if e == 'ENOSPC' else 'disk I/O error')
        end = k.now + BUSY
        while True:
            try: r = super().commit()
            except sqlite3.OperationalError as ex:
                if 'locked' in str(ex) and k.now < end:
                    k.sleep(0.01); _check(self); continue
                raise
            fsim.notify(k, 'dbcommit', self.sim_path)
            return r

    def sim_super_rollback(self): super().rollback()

    def rollback(self):
        k = kn.K
        if k is None or k.cur is None: return super().rollback()
        _check(self)
        k.op('rollback', 'db', self.sim_path)
        return super().rollback()

    def close(self):
        k = kn.K
        if k is not None and k.cur is not None:
            _check(self); k.op('dbclose', 'x', self.sim_path)
        self.sim_closed = True
        return super().close()

    def __exit__(self, t, v, tb):
        if t is None: self.commit()
        else: self.rollback()
        return False

    def sim_force_close(self):
        if not self.sim_closed:
            self.sim_closed = True; self.sim_killed = True
            try: super().close()
            except sqlite3.Error: pass


def sim_connect(database, *a, **kw):
    k = kn.K
    if k is None or k.cur is None: return real_connect(database, *a, **kw)
    check = kw.pop('check_same_thread', True)
    kw.pop('factory', None); kw.pop('timeout', None)
    if str(database) == ':memory:':
        path = ':memory:'
    else:
        path = fsim.absn(k, database)
        fsim.guard(k, path, 'open')
    e = k.op('dbopen', 'db', path)
    if e:
        k.stat('fault.db_error')
        raise sqlite3.OperationalError('unable to open database file')
    con = real_connect(path, 0, check_same_thread=False, factory=SimConnection,
                       **{x: kw[x] for x in ('isolation_level', 'detect_types', 'uri') if x in kw})
    con.sim_thr = k.cur if check else None
    con.sim_path = path
    if k.power: k.power.on_db(path)
    sqlite3.Connection.execute(con, 'pragma synchronous=off'); sqlite3.Connection.execute(con, 'pragma journal_mode=memory')
    k.cur.dbs.append(con)
    fsim.notify(k, 'open', path)
    return con


def install():
    sqlite3.connect = sim_connect
    sqlite3.dbapi2.connect = sim_connect

"""Power failure: which of the changes made to files below some directories were forced to stable storage,
and a state the machine may be found in after the power has failed.

Two kinds of journalling file system: 'ordered' keeps changes of names in their order, any fsync forces all
earlier ones; 'strict' promises no more than POSIX: fsync of a file forces its contents, fsync of a directory
forces the names in it, changes in different directories may be lost independently.  In both, contents that
were not forced may be found whole, as they were when last forced, cut short, or as zeros."""
import os
from . import fsim, kernel as kn
from .fsim import real


class Power:
    def __init__(self, k, bases, model):
        self.k = k; self.bases = [b.rstrip('/') for b in bases]; self.model = model
        self.n = 0; self.cuts = 0; self.lost = 0; self.on_cut = []
        self.dbs = set(); self.cutting = False
        self.reset()
        k.power = self

    # -- tracking.  Directories and files are nodes with numbers: a directory made again is another one
    def mine(self, p): return any(p == b or p.startswith(b + '/') for b in self.bases) and not any(p == d or p.startswith(d + '-') for d in self.dbs)

    def reset(self):
        """everything there is now is on stable storage"""
        self.live = {}; self.ldirs = {}; self.data = {}; self.pending = []; self.last = {}; self.disk = {}
        for b in self.bases: self.scan(b)

    def scan(self, d):
        try: names = sorted(real.os_listdir(d))
        except OSError: return 0
        self.n += 1; n = self.ldirs[d] = self.n; self.disk[n] = {}
        for x in names:
            p = d + '/' + x
            if fsim.real_isdir(p): self.disk[n][x] = self.scan(p); continue
            if not self.mine(p) or 'server_transient' in x: continue
            self.n += 1; self.live[p] = self.disk[n][x] = self.n; self.data[self.n] = self.read(p)
        return n

    def read(self, p):
        try:
            with real.open(p, 'rb') as f: return f.read()
        except OSError: return b''

    def at(self, p):
        d, _, x = p.rpartition('/')
        return self.ldirs.get(d), x

    def on_db(self, p): self.dbs.add(p)

    def before_open(self, p, mode, existed):
        if self.cutting or not self.mine(p) or p in self.live: return
        d, x = self.at(p)
        if d is None: return
        self.n += 1; self.live[p] = self.n; self.data[self.n] = b''
        self.pending.append((d, 'add', x, self.n, p))

    def on_write(self, f, b): pass

    def before_path_op(self, what, p):
        if self.cutting or not self.mine(p): return
        d, x = self.at(p)
        if what == 'unlink' and p in self.live:
            i = self.live.pop(p); self.last[i] = self.read(p)
            self.pending.append((d, 'drop', x, i, p))
        elif what == 'mkdir' and p not in self.ldirs and d is not None:
            self.n += 1; self.ldirs[p] = self.n; self.disk[self.n] = {}
            self.pending.append((d, 'add', x, self.n, p))
        elif what == 'rmdir' and p in self.ldirs and d is not None:
            try:
                if real.os_listdir(p): return
            except OSError: return
            self.pending.append((d, 'drop', x, self.ldirs.pop(p), p))

    def before_rename(self, s, d):
        if self.cutting or not (self.mine(s) or self.mine(d)): return
        sd, sx = self.at(s); dd, dx = self.at(d)
        if s in self.live and dd is not None:
            if d in self.live: self.last[self.live[d]] = self.read(d)
            i = self.live.pop(s); self.live[d] = i
            self.pending.append((dd, 'move', dx, i, d, sd, sx))
        elif s in self.ldirs and dd is not None:
            i = self.ldirs[s]
            for m in (self.live, self.ldirs):
                for p in [x for x in m if x == s or x.startswith(s + '/')]: m[d + p[len(s):]] = m.pop(p)
            self.pending.append((dd, 'move', dx, i, d, sd, sx))

    def on_fsync(self, path, fd=None):
        if self.cutting: return
        if path in self.ldirs:
            n = self.ldirs[path]
            self.flush([op for op in self.pending if self.model == 'ordered' or op[0] == n])
            return
        i = self.live.get(path)
        if fd is not None:      # the file may have another name by now
            try: st = os.fstat(fd)
            except OSError: st = None
            if st is not None:
                def ino(p):
                    try: return real.os_lstat(p).st_ino
                    except OSError: return None
                if i is None or ino(path) != st.st_ino:
                    c = [p for p in self.live if ino(p) == st.st_ino]
                    if c: path = c[0]; i = self.live[path]
        if i is None: return
        self.data[i] = self.read(path)
        if self.model == 'ordered': self.flush(list(self.pending))

    def flush(self, ops):
        done = set(map(id, ops))
        for op in self.pending:
            if id(op) in done: self.apply(op)
        self.pending = [op for op in self.pending if id(op) not in done]

    def apply(self, op):
        d, what, x, i = op[:4]
        if what == 'drop':
            if self.disk[d].get(x) == i: del self.disk[d][x]
            return
        if what == 'move' and self.disk[op[5]].get(op[6]) == i: del self.disk[op[5]][op[6]]
        self.disk[d][x] = i

    # -- the failure
    def cut(self):
        """the machine has stopped; nothing that ran on it is alive any more.  Rewrites the directories."""
        k = self.k; self.cuts += 1; t = self.t
        k.stat('fault.power'); k.fault_log.append((k.steps, 'power', self.model, ''))
        content = {i: self.read(p) for p, i in self.live.items()}
        for i, b in self.last.items(): content.setdefault(i, b)
        if self.model == 'ordered':
            n = len(self.pending)
            keep = self.pending[:n - k.choose('pwr', n + 1, 0.85, t)]
        else:
            by = {}
            for op in self.pending: by.setdefault(op[0], []).append(op)
            ok = set()
            for d in sorted(by):
                n = len(by[d])
                ok |= set(map(id, by[d][:n - k.choose('pwr', n + 1, 0.6, t)]))
            keep = [op for op in self.pending if id(op) in ok]
        lost = len(self.pending) - len(keep)
        if lost: k.stat('fault.power.names_lost', lost)
        k.log('POWER FAILURE: %d of %d changes of names lost' % (lost, len(self.pending)))
        if k.trace is not None:
            ids = set(map(id, keep))
            for op in self.pending: k.log('  %s %s %s' % ('kept' if id(op) in ids else 'LOST', op[1], op[4]))
        for op in keep: self.apply(op)
        before = sorted(self.live); olddirs = sorted(self.ldirs, key=len, reverse=True)
        final = {}; dirs = []
        def walk(d, n):
            dirs.append(d)
            for x, i in sorted(self.disk[n].items()):
                p = d + '/' + x
                if i in self.disk: walk(p, i); continue
                cur = content.get(i, self.data[i]); old = self.data[i]
                if cur != old:
                    v = k.choose('pwrdata', 4, 0.6, t)
                    if v: k.stat('fault.power.data_lost'); k.log('  contents of %s: %s' % (p, ('', 'as forced', 'cut', 'zeros')[v]))
                    cur = [cur, old, cur[:len(cur) // 2], bytes(len(cur))][v]
                final[p] = cur
        for b in self.bases:
            if b in self.ldirs: walk(b, self.ldirs[b])
        # rewrite
        for p in before:
            if p not in final and fsim.real_isfile(p): real.os_remove(p)
        for d in olddirs:
            if d not in dirs:
                try: real.os_rmdir(d)
                except OSError: pass
        for d in dirs:
            if not fsim.real_isdir(d): real.os_mkdir(d)
        for p, b in final.items():
            with real.open(p, 'wb') as f: f.write(b)
        self.reset()
        for f in self.on_cut: f()

    def died(self, p):
        """a server process was killed: perhaps because the power failed"""
        k = self.k
        if p.role != 'server' or self.cutting or not k.faults_on: return
        if not k.choose('powercut', 2, 0.85): return
        self.cutting = True
        for q in k.procs:
            if q.alive and not q.exited and q.role == 'server': k.kill(q, 'power failure')
        cur = k.cur; k.cur = None         # what follows happens outside the simulated machine
        self.t = cur
        try: self.cut()
        except BaseException as e:        # noqa
            k.harness_errors.append('power cut: %r %s' % (e, kn.plain_tb(e))); k.stopping = k.stopping or 'harness error'
        finally: k.cur = cur; self.cutting = False

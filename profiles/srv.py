"""Server-side profile: real bvn_server processes, protocol-level clients (several users, connections,
repositories, server processes), crashes, I/O errors, lossy connections.

Reference model: for each commit attempt the operations acknowledged to its client; a new revision must be
exactly its parent plus these (plus the interrupted uploads the server told the client about)."""
import json
from sim import kernel as kn, fsim, store, world, netsim
from sim.world import Raw, Lost
from sim.store import sha, StoreError
from .common import content, net_cfg, sched_cfg, apply_changes, diff, short

MAX_STEPS = 600_000
ESCAPE_PROPS = ('P19',)
USERS = ['ann', 'bob', 'cat']
PATHS = ['/a', '/b.txt', '/d/a', '/d/b', '/d/e/f', '/sp ace/x y', '/\u00fcml/\u00e9', '/z:1', '/d.x']


def gen(rng, o):
    big = o.get('big', 1.0)
    cfg = sched_cfg(rng)
    cfg['budget'] = {}
    faulty = rng.random() < o.get('p_faulty', 0.8)
    kinds = []
    if faulty:
        kinds = [x for x in ('crash', 'err', 'net') if rng.random() < 0.55] or ['crash']
        kinds = [x for x in kinds if x not in o.get('no', ())]
    cfg['net'] = net_cfg(rng, 'net' in kinds)
    if 'net' in kinds: cfg['budget'].update(reset=rng.randint(1, 3), hole=rng.randint(0, 2))
    if 'crash' in kinds:
        cfg['crash'] = {'server': rng.choice([0.002, 0.006, 0.02, 0.06])}
        cfg['budget']['crash:server'] = rng.randint(1, 4)
    if 'err' in kinds:
        cfg['err'] = {'server': {c: rng.choice([0.002, 0.01]) for c in ('mut', 'db', 'read') if rng.random() < 0.6}}
        cfg['budget']['err:server'] = rng.randint(1, 3)
    if rng.random() < o.get('p_stall', 0.4):
        cfg['stall'] = {'server': rng.choice([0.003, 0.01, 0.04])}
        cfg['budget']['stall:server'] = rng.randint(1, 5)
    nrepo = o.get('repos') or rng.choice([1, 1, 2])
    ports = [8090] if rng.random() < o.get('p_one_server', 0.6) else [8090, 8091]
    repos = ['r%d' % i for i in range(nrepo)]
    actors = []
    for i in range(rng.randint(2, 4)):
        user = rng.choice(USERS)
        host = rng.choice(['10.0.0.1', '10.0.0.2'])
        steps = []
        for _ in range(rng.randint(2, int(6 * big))):
            r = rng.random(); repo = rng.choice(repos)
            if r < 0.62: steps.append(gen_attempt(rng, repo, repos, o, 'crash' in kinds))
            elif r < 0.80: steps.append({'t': 'read', 'repo': repo, 'what': rng.choice(['versions', 'files', 'file', 'changed', 'changes', 'all']), 'hold': gen_hold(rng)})
            elif r < o.get('probe', 0.82): steps.append(gen_probe(rng, repo, repos))
            elif r < 0.90: steps.append({'t': 'intrude', 'repo': repo, 'do': rng.choice(['push', 'delete', 'commit', 'abort']), 'path': rng.choice(PATHS)})
            elif r < 0.96: steps.append({'t': 'sleep', 's': rng.choice([0.01, 0.3, 2.0])})
            else: steps.append({'t': 'reconnect', 'how': rng.choice(['close', 'reset'])})
        actors.append({'user': user, 'host': host, 'port': rng.choice(ports), 'steps': steps})
    if rng.random() < o.get('p_readers', 0.2):
        # others who only read, paused where a commit can come in between
        for _ in range(rng.randint(1, 2)):
            repo = rng.choice(repos)
            actors.append({'user': rng.choice(USERS), 'host': '10.0.0.3', 'port': rng.choice(ports),
                           'steps': [{'t': 'read', 'repo': repo, 'what': rng.choice(['versions', 'files', 'file', 'changed', 'changed', 'changes']), 'hold': gen_hold(rng, 0.8)} for _ in range(rng.randint(4, 10))]})
    if o.get('tools'):
        # an operator running bvn_repo meanwhile
        for _ in range(rng.choice([1, 1, 2])):
            steps = []
            for _ in range(rng.randint(1, 4)):
                steps.append({'t': 'sleep', 's': rng.choice([0.0, 0.003, 0.02, 0.1, 0.5, 3.0])})
                steps.append({'t': 'tool', 'what': rng.choice(o['tools']), 'doom': rng.randint(1, rng.choice([30, 100, 300])) if faulty and rng.random() < 0.2 else None,
                              'lag': [rng.randint(1, rng.choice([20, 80, 200])), rng.choice([2, 3, 4])] if rng.random() < 0.35 else None})
            actors.append({'user': 'ann', 'host': '10.0.0.1', 'port': ports[0], 'steps': steps})
        if 'err' in kinds:
            cfg['err']['tool'] = {c: rng.choice([0.002, 0.01]) for c in ('mut', 'db', 'read') if rng.random() < 0.4}
            cfg['budget']['err:tool'] = rng.randint(0, 2)
    ev = []
    if 'crash' in kinds or rng.random() < 0.2:
        for _ in range(rng.randint(0, 2)): ev.append({'at': round(rng.random() * 3, 4), 'port': rng.choice(ports)})
    return {'cfg': cfg, 'fixed': {'repos': repos, 'ports': ports, 'pre': gen_pre(rng, o), 'override': rng.random() < 0.15, 'kinds': kinds, 'tools': list(o.get('tools', ()))}, 'actors': actors, 'events': ev,
            'ops': gen_damage(rng, repos, o) if o.get('damage') else []}


def gen_pre(rng, o):
    """revisions there are before"""
    n = rng.random()
    return rng.randint(0, 3) if n > o.get('p_deep', 0.12) else rng.randint(4, 9) if n > 0.012 else rng.randint(49, 56)


def gen_hold(rng, p=0.4): return [rng.randint(1, rng.choice([20, 60, 150])), rng.choice([1, 1, 1, 2])] if rng.random() < p else None


def gen_damage(rng, repos, o):
    return [{'repo': rng.choice(repos), 'how': rng.choice(['flip', 'flip', 'trunc', 'extend', 'remove', 'remove', 'swap', 'empty', 'zeros', 'move', 'head', 'nohead']), 'pick': rng.randrange(10 ** 6), 'kind': rng.choice(['index', 'files', 'any']),
             'pos': rng.randrange(10 ** 6), 'tool': rng.choice(o['damage']), 'garbage': rng.random() < 0.25} for _ in range(rng.randint(2, 8))]


def gen_probe(rng, repo, repos):
    return {'t': 'probe', 'repo': repo, 'what': rng.choice(['list_files', 'list_changes', 'pull_file', 'find_changed', 'push']), 'how': rng.randrange(12), 'of': rng.choice(repos + ['rq', 'rq'])}


def gen_attempt(rng, repo, repos, o, crash=False):
    ops = []
    used = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        r = rng.random()
        p = rng.choice(PATHS)
        if r < 0.62:
            if o.get('once') and p in used: continue
            used.append(p); ops.append(['put', p, rng.randrange(12)])
        elif r < 0.80:
            ps = sorted({rng.choice(PATHS) for _ in range(rng.randint(1, 3))})
            if o.get('once'): ps = [x for x in ps if x not in used]
            if ps: used += ps; ops.append(['del', ps])
        elif r < 0.88: ops.append(['sleep', rng.choice([0.02, 1.0, 20.0, 310.0])])
        elif r < 0.95: ops.append(['read', rng.choice(['versions', 'files', 'changed'])])
        elif len(repos) > 1: ops.append(['other', rng.choice([x for x in repos if x != repo]), rng.choice(['push', 'delete', 'commit', 'abort', 'begin'])])
        else: ops.append(['again'])
    end = rng.choice(['commit'] * 6 + ['abort', 'drop', 'reset', 'cut', 'leave'])
    return {'t': 'attempt', 'repo': repo, 'base': 'head' if rng.random() < 0.9 else 'stale', 'ops': ops, 'end': end, 'cut': rng.randrange(10 ** 6),
            'again': rng.choice([0, 0, 1, 2]), 'doom': [rng.choice(['end', 'end', 'begin', 'ops']), rng.randint(1, rng.choice([8, 30, 90]))] if crash and rng.random() < 0.25 else None,
            'lag': [rng.choice(['begin', 'begin', 'end']), rng.randint(1, rng.choice([8, 30, 60])), rng.choice([2, 3, 4])] if rng.random() < o.get('p_lag', 0.12) else None,
            'hold': [rng.choice(['begin', 'begin', 'ops', 'end'])] + gen_hold(rng, 1) if rng.random() < o.get('p_hold', 0.1) else None,
            'tries': rng.choice([1, 3, 6]), 'slack': rng.choice([0.0, 0.0, 0.05])}


class Att:
    n = 0
    def __init__(self, rs, raw, msg, base, parent):
        self.rs = rs; self.raw = raw; self.sock = raw.s; self.msg = msg; self.base = base; self.user = raw.user; self.host = raw.host
        self.tree = dict(parent); self.parent = parent; self.ch = {}      # path -> (status, hash)
        self.state = 'open'; self.rev = None; self.repeat = False; self.resumed = False; self.nops = 0; self.unclear = False

    def put(self, p, h):
        if p in self.ch: self.repeat = True
        self.ch[p] = ('changed' if p in self.parent else 'new', h)
        self.tree[p] = h

    def rm(self, p):
        if p in self.ch: self.repeat = True
        if p in self.parent: self.ch[p] = ('deleted', self.parent[p])
        else: self.ch.pop(p, None)
        self.tree.pop(p, None)


class RS:
    def __init__(self, name, mon):
        self.name = name; self.mon = mon; self.atts = {}; self.holder = None
        self.key = None; self.series = set(); self.clean = True   # clean: nothing of an unfinished attempt can be left
        self.allowed = set(); self.taint = False; self.errs_seen = 0
        self.heads = [(0, mon.head)]; self.held = []     # threads pausing until the head has moved: [how often, thread]

    def tree_of(self, h): return self.mon.by_id[h].tree if h != 'root' else {}


class State:
    nontrivial = False


def setup(k, w, plan):
    s = State(); s.k = k; s.w = w; s.plan = plan; s.rs = {}
    f = plan['fixed']
    for r in f['repos'] + ['rq']:
        w.add_repo(r, override=f['override'])
        s.rs[r] = RS(r, w.monitors[r])
        w.monitors[r].on_rev.append(lambda rev, thr, rs=s.rs[r]: on_rev(k, s, rs, rev, thr))
    s.nmsg = 0; s.acks = 0; s.revs = 0; s.refused = 0; s.aborts = 0; s.resumes = 0; s.lost = 0
    s.final = False; s.summary = lambda: {'users': [a['user'] for a in plan['actors']], 'servers': f['ports'], 'fault_kinds': f['kinds'],
                                          'steps': sum(len(a['steps']) for a in plan['actors']), 'revisions': s.revs, 'acks': s.acks, 'resumed': s.resumes, 'refused': s.refused,
                                          'aborted': s.aborts, 'connections_lost': s.lost, 'faults': [list(x) for x in k.fault_log[:6]]}
    return s


def on_rev(k, s, rs, rev, thr):
    s.revs += 1
    rs.heads.append((k.steps, rev.id))
    for h in list(rs.held):
        h[0] -= 1
        if h[0] <= 0: rs.held.remove(h); k.wake(h[1])
    a = rs.atts.get(rev.msg)
    if a is None:
        for p in ('P01', 'P04'): k.violate(p, 'unknown-revision', '%s: revision %s with message %r belongs to no commit request' % (rs.name, rev.id[:10], rev.msg))
        return
    if a.rev is not None:
        for p in ('P01', 'P04'): k.violate(p, 'published-twice', '%s: %r' % (rs.name, rev.msg))
    a.rev = rev
    if a.state != 'finishing':
        for p in ('P01', 'P13'): k.violate(p, 'published-unasked', '%s: attempt %r is %s' % (rs.name, rev.msg, a.state))
    if rev.parent != a.base:
        for p in ('P03', 'P04'): k.violate(p, 'parent-is-not-base', '%s: %r begun from %s, parent is %s' % (rs.name, rev.msg, a.base[:10], rev.parent[:10]))
    if rev.by != a.user:
        k.violate('P04', 'wrong-author', '%s: %r by %r, session belongs to %r' % (rs.name, rev.msg, rev.by, a.user))
        k.violate('P11', 'wrong-author', '%s: %r by %r, session belongs to %r' % (rs.name, rev.msg, rev.by, a.user))
    if rev.tree != a.tree:
        n, d = diff(a.tree, rev.tree)
        det = '%s: %r expected %s, published %s (parent %s, acknowledged %s)' % (rs.name, rev.msg, short(a.tree), short(rev.tree), short(a.parent), a.ch)
        for p in ('P01', 'P04'): k.violate(p, 'tree-differs', det)
    got = {}
    for c in rev.changes:
        if c['path'] in got: k.violate('P04', 'change-listed-twice', '%s: %r %s' % (rs.name, rev.msg, c['path']))
        got[c['path']] = (c['status'], c['hash'])
    if got != a.ch:
        k.violate('P04', 'change-list-differs', '%s: %r expected %s recorded %s' % (rs.name, rev.msg, sorted(a.ch.items()), sorted(got.items())))
    par = rs.tree_of(rev.parent) if rev.parent == 'root' or rev.parent in rs.mon.by_id else None
    if par is not None and apply_changes(par, rev.changes) != rev.tree:
        k.violate('P04', 'changes-do-not-give-tree', '%s: %r' % (rs.name, rev.msg))
        k.violate('P05', 'changes-do-not-give-tree', '%s: %r' % (rs.name, rev.msg))
    if a.resumed or a.repeat or a.unclear: rs.taint = True


def heads_between(rs, s0, s1):
    """revisions that were the head at some step in [s0, s1]"""
    out = []
    for i, (st, h) in enumerate(rs.heads):
        end = rs.heads[i + 1][0] if i + 1 < len(rs.heads) else 1 << 60
        if st <= s1 and end >= s0: out.append(h)
    return out


class Actor:
    def __init__(self, s, i, spec):
        self.s = s; self.k = s.k; self.w = s.w; self.spec = spec; self.i = i
        self.raw = Raw(s.w, s.plan['fixed']['repos'][0], spec['user'], spec['port']); self.raw.host = spec['host']
        self.done = False

    def go(self):
        try:
            for st in self.spec['steps']:
                try: getattr(self, 'do_' + st['t'])(st)
                except Lost as e:
                    self.s.lost += 1
                    self.k.log('actor %d lost: %s' % (self.i, e))
                    # as a user would: the same again, which resumes the interrupted commit
                    for n in range(st.get('again') or 0):
                        self.k.probe('retry')
                        try: self.do_attempt(dict(st, base='head', doom=None)); break
                        except Lost: self.s.lost += 1
            if self.raw.s is not None: self.raw.close()
        finally:
            self.done = True

    def conn(self, repo):
        if self.raw.s is None:
            self.raw.tokens = {}
            for n in range(4):
                try: self.raw.connect(); break
                except Lost:
                    self.w.ensure_server(self.spec['port'])
            else: raise Lost('cannot connect')
        if repo not in self.raw.tokens:
            t0 = self.k.now
            h = self.raw.login(repo=repo)
            if h.get('status') != 'ok':
                self.k.probe('login_refused')
                if not self.raw.disturbed() and self.k.now - t0 < 29: self.k.violate('P11', 'valid-login-refused', 'user %s repository %s: %s' % (self.raw.user, repo, h))
                raise Lost('login refused')

    def do_tool(self, st):
        tool(self.s, st['what'], st.get('doom'), st.get('lag'))

    # -- steps
    def do_sleep(self, st): self.k.sleep(st['s'])

    def do_reconnect(self, st): self.raw.close(st['how'] == 'reset')

    def do_read(self, st, same=False):
        self.conn(st['repo'])
        if st.get('hold'): hold(self.k, self.raw, self.s.rs[st['repo']], *st['hold'])
        try: read(self.s, self.raw, self.s.rs[st['repo']], st['what'])
        finally:
            if self.raw.s is not None: self.k.clag.pop(self.raw.s.ep.conn, None)

    def do_intrude(self, st):
        """operations without having begun a commit on this connection"""
        rs = self.s.rs[st['repo']]
        for r in self.s.rs.values():       # a commit left open on this connection ends with the connection
            if r.holder is not None and r.holder.raw is self.raw and r.holder.state in ('open', 'refused'):
                r.holder.state = 'lost'; self.raw.close()
        self.conn(st['repo'])
        self.unlocked(rs, st['do'], st['path'])

    def unlocked(self, rs, do, path):
        raw = self.raw
        if do == 'push': h, b = raw.push(path, b'intruder', repo=rs.name)
        elif do == 'delete': h, b = raw.delete([path], repo=rs.name)
        elif do == 'commit': h, b = raw.finish('commit', 'intruder', repo=rs.name)
        else: h, b = raw.finish('abort', repo=rs.name)
        self.s.refused += 1
        if h.get('status') == 'ok':
            self.k.violate('P03', 'unlocked-%s-accepted' % do, '%s: %s by %s without holding the lock: %s' % (rs.name, do, raw.user, h))

    def do_attempt(self, st):
        k = self.k; s = self.s; rs = s.rs[st['repo']]; raw = self.raw
        for n in range(st['tries']):
            self.conn(rs.name)
            base = rs.mon.head
            if st['base'] == 'stale':
                ch = rs.mon.chain
                base = ch[-2].id if len(ch) > 1 else ('root' if ch else 'f' * 64)
            if st['slack']: k.sleep(st['slack'])
            s0 = k.steps
            self.doom(st, 'begin')
            hd, body = raw.begin(base, repo=rs.name)
            hs = heads_between(rs, s0, k.steps)
            if hd.get('status') == 'ok': break
            s.refused += 1
            msg = hd.get('msg', '')
            if 'update' in msg.lower() and base in hs and len(hs) == 1:
                k.violate('P03', 'current-base-refused', '%s: begin from the head %s refused: %s' % (rs.name, base[:10], msg))
            k.sleep(0.1 * (n + 1))
        else: return
        if not raw.healthy():       # the reply is late: its connection has ended on the server meanwhile, others may have the lock
            raw.close(); raise Lost('stale reply')
        if base not in hs or rs.mon.head != base: k.violate('P03', 'stale-base-accepted', '%s: begin from %s accepted, head was %s' % (rs.name, base[:10], hs))
        s.nmsg += 1
        a = Att(rs, raw, 'm%d %s: \u00fc' % (s.nmsg, raw.user), base, rs.tree_of(base) if base == 'root' or base in rs.mon.by_id else {})
        told = json.loads(body)['partial_commit']
        # exclusivity
        o = rs.holder
        if o is not None and o.state == 'open' and o.raw is not raw and o.raw.s is o.sock and o.raw.healthy():
            k.violate('P03', 'two-holders', '%s: %r begins while %r holds the lock on a healthy connection' % (rs.name, a.msg, o.msg))
            k.violate('P19', 'lock-lost', '%s: %r begins while %r holds the lock' % (rs.name, a.msg, o.msg)) if len(s.plan['fixed']['repos']) > 1 else None
        elif o is not None and o.raw is raw and o.state == 'open': o.state = 'lost'
        rs.holder = a; rs.atts[a.msg] = a
        k.probe('begin'); k.log('BEGUN %s %r told %s' % (rs.name, a.msg, [t['path'] for t in told]))
        # resumed uploads
        key = (raw.user, raw.host)
        fresh = rs.clean or rs.key != key
        a.resumed = not fresh
        if told:
            s.resumes += 1; k.probe('resume')
            for t in told:
                if (t['path'], t['hash']) not in rs.series or rs.key != key:
                    for p in ('P04', 'P01'):
                        k.violate(p, 'foreign-upload-offered', '%s: %r told of %s %s which %s never sent in the interrupted commit' % (rs.name, a.msg, t['path'], t['hash'][:8], key))
                a.ch[t['path']] = (t['status'], t['hash'])
                a.tree[t['path']] = t['hash']
        rs.series = {(t['path'], t['hash']) for t in told} if told else (rs.series if not fresh else set())
        rs.key = key; rs.clean = False
        if fresh: residue(k, s, rs, 'begin of %r' % a.msg)
        rs.allowed &= store.list_objects(rs.mon.base)
        try:
            self.ops(st, rs, a)
        except Lost as e:
            if a.state in ('open',): a.state = 'lost'
            raise

    def ops(self, st, rs, a):
        k = self.k; s = self.s; raw = self.raw
        bad = False
        self.doom(st, 'ops')
        for op in st['ops']:
            if op[0] == 'put':
                data = content(op[2]); h = sha(data)
                rs.series.add((op[1], h))
                hd, b = raw.push(op[1], data, repo=rs.name)
                if hd.get('status') != 'ok': bad = True; a.unclear = True; self.check_fail(a, 'push', hd); break
                fi = json.loads(hd['file_info_json'])
                if fi['hash'] != h or fi['path'] != op[1]:
                    for p in ('P04', 'P13'): k.violate(p, 'push-reply-differs', '%s: pushed %s %s, stored as %s' % (rs.name, op[1], h[:8], fi))
                a.put(op[1], h)
            elif op[0] == 'del':
                hd, b = raw.delete(op[1], repo=rs.name)
                if hd.get('status') != 'ok': bad = True; a.unclear = True; self.check_fail(a, 'delete', hd); break
                for p in op[1]: a.rm(p)
            elif op[0] == 'sleep': k.sleep(op[1])
            elif op[0] == 'read': read(s, raw, rs, op[1])
            elif op[0] == 'again':
                hd, b = raw.begin(rs.mon.head, repo=rs.name)
                if hd.get('status') == 'ok': k.violate('P03', 'second-begin-accepted', '%s: a second begin on the connection holding the lock succeeded' % rs.name)
            elif op[0] == 'other':
                rs2 = s.rs[op[1]]
                self.conn(op[1])
                if op[2] == 'begin':
                    # afterwards this connection may have lost its place in the first repository; it goes no further
                    hd, b = raw.begin(rs2.mon.head, repo=op[1])
                    if hd.get('status') == 'ok':
                        told = json.loads(b)['partial_commit']
                        key = (raw.user, raw.host)
                        if rs2.holder is not None and rs2.holder.state == 'open' and rs2.holder.raw is not raw and rs2.holder.raw.healthy():
                            k.violate('P03', 'two-holders', rs2.name)
                        if rs2.holder is not None and rs2.holder.raw is raw: rs2.holder.state = 'lost'
                        if not (key == rs2.key and not rs2.clean): rs2.series = set()
                        rs2.key = key; rs2.clean = False
                        # the lock of the second repository is now what counts
                        s.nmsg += 1
                        a2 = Att(rs2, raw, 'm%d x' % s.nmsg, rs2.mon.head, rs2.tree_of(rs2.mon.head)); rs2.holder = a2; a2.resumed = True
                        a.state = 'other'; rs.holder = None if rs.holder is a else rs.holder
                        # an operation in the first repository is only acceptable if its lock is still held
                        raw.close(); a2.state = 'lost'; a.state = 'lost'
                        return
                else:
                    self.unlocked(rs2, op[2], '/a')
            a.nops += 1
        end = st['end']
        if bad: end = 'abort'
        if end == 'commit':
            a.state = 'finishing'
            self.doom(st, 'end')
            hd, b = raw.finish('commit', a.msg, repo=rs.name)
            k.log('FINISH %s %r %s' % (rs.name, a.msg, hd))
            if hd.get('status') == 'ok':
                s.acks += 1
                if a.state == 'finishing': a.state = 'done'
                if rs.key == (a.user, a.host) and rs.holder is a: rs.clean = True; rs.series = set()
                if a.rev is None:
                    if a.ch or hd.get('head') != a.base:
                        for p in ('P02', 'P04'): k.violate(p, 'acked-without-revision', '%s: %r acknowledged as %s, no such revision; changes %s' % (rs.name, a.msg, hd.get('head'), a.ch))
                    else: rs.clean = rs.holder is not a; rs.taint = True   # nothing to commit: not required to end the attempt
                elif hd.get('head') != a.rev.id:
                    for p in ('P02', 'P04'): k.violate(p, 'acked-other-head', '%s: %r acknowledged as %s, is %s' % (rs.name, a.msg, hd.get('head'), a.rev.id))
                s.nontrivial = True
            else: a.state = 'refused'; self.check_fail(a, 'commit', hd)
        elif end == 'abort':
            a.state = 'aborting'
            self.doom(st, 'end')
            hd, b = raw.finish('abort', repo=rs.name)
            k.log('ABORT %s %r %s' % (rs.name, a.msg, hd))
            s.aborts += 1
            if hd.get('status') == 'ok':
                a.state = 'aborted'
                if rs.holder is a: rs.clean = True; rs.series = set()
            else: self.check_fail(a, 'abort', hd)
        elif end in ('drop', 'reset'):
            a.state = 'lost'; raw.close(end == 'reset')
        elif end == 'cut':
            a.state = 'cut'
            try:
                if st['cut'] % 3 == 0: raw.push('/cut', content(8), repo=rs.name, cut=st['cut'] // 3)
                else: raw.finish('commit', a.msg, repo=rs.name, cut=st['cut'] // 3)
            except Lost: pass
        elif end == 'leave':
            pass        # the connection stays, the commit too, until the next step of this actor

    def doom(self, st, when):
        """the server dies a planned number of operations from here"""
        d = st.get('lag')
        if d and d[0] == when and self.k.faults_on:
            p = self.w.live_server(self.spec['port'])
            if p is not None: self.k.lag[p] = list(d[1:])
        d = st.get('hold')
        if d and d[0] == when and self.k.faults_on: hold(self.k, self.raw, self.s.rs[st['repo']], d[1], d[2])
        d = st.get('doom')
        if d and d[0] == when and self.k.faults_on:
            p = self.w.live_server(self.spec['port'])
            if p is not None: self.k.doom[p] = d[1]

    def do_probe(self, st):
        """identifiers and paths no client sends: nothing of another repository may come back, nothing outside may be touched"""
        k = self.k; rs = self.s.rs[st['repo']]; o = self.s.rs[st['of']]; raw = self.raw
        self.conn(rs.name)
        vid = o.mon.head; n = st['how']
        if vid == 'root': return
        own = rs.mon.head if rs.mon.head != 'root' else '00'
        up = '../../../%s/index/%s/%s' % (o.name, vid[:2], vid[2:])
        tree = o.mon.by_id[vid].tree
        names = [vid, up, own[:2] + '/' + up, '../' + up, own[:1] + '/' + up, own[:2] + '/../../' + '../%s/index/%s/%s' % (o.name, vid[:2], vid[2:]), vid.upper(), vid[:2] + '/' + vid[2:], '', 'root', own[:2], '0' * 64]
        bad = names[n]
        what = st['what']
        local = bad in rs.mon.by_id
        try:
            if what == 'push':
                p = ['/../x', '/a/../../x', '/..', '..', '/./x', '/a/.', '/a\\..\\x', '/../%s/head' % o.name, '/../%s/files/x' % o.name, '../head', '/a/../b', './x'][n]
                hd, b = raw.begin(rs.mon.head, repo=rs.name)
                if hd.get('status') != 'ok': return
                if not raw.healthy(): raw.close(); raise Lost('stale reply')
                key = (raw.user, raw.host)
                if rs.key != key or rs.clean: rs.series = set()
                rs.key = key; rs.clean = False; rs.taint = True; rs.holder = None
                hd, b = raw.push(p, b'outside', repo=rs.name)
                if hd.get('status') == 'ok': k.violate('P19', 'odd-path-accepted', '%s: %r' % (rs.name, p))
                hd, b = raw.finish('abort', repo=rs.name)
                if hd.get('status') == 'ok' and rs.holder is None: rs.clean = True; rs.series = set()      # (the reply may be late)
                return
            if what == 'find_changed':
                hd, b = raw.req('find_changed', {'previous_revision': bad, 'include_unchanged': '0'}, json.dumps({'client_changes': '{}'}).encode(), repo=rs.name)
                return
            if what == 'pull_file': hd, b = raw.req('pull_file', {'path': sorted(tree)[0] if tree else '/a', 'use_head': '0', 'version_id': bad}, repo=rs.name)
            else: hd, b = raw.req(what, {'show_head': '0', 'version_id': bad}, repo=rs.name)
        except Lost:
            raise
        k.probe('probe')
        if hd.get('status') == 'ok' and not local:
            k.violate('P19', 'foreign-revision-read', '%s: %s of revision %r, which it does not have, gave %r' % (rs.name, what, bad, b[:80]))

    def check_fail(self, a, what, hd):
        """a refusal while holding the lock on an undisturbed connection"""
        if self.raw.s is not None and not self.raw.disturbed() and a.rs.holder is a:
            self.k.violate('P10', 'holder-refused', '%s: %s in %r refused: %s' % (a.rs.name, what, a.msg, hd))


def hold(k, raw, rs, n, revs):
    """the server's thread of this connection pauses at its n-th operation until so many revisions were made"""
    if raw.s is not None: k.clag[raw.s.ep.conn] = [n, lambda t: rs.held.append([revs, t])]


def read(s, raw, rs, what):
    k = s.k; s0 = k.steps
    try:
        read_(s, raw, rs, what, s0)
    except Lost as e:
        if not getattr(e, 'disturbed', True):
            k.violate('P01', 'read-failed', '%s: %s on an undisturbed connection: %s' % (rs.name, what, e))
        raise


def read_(s, raw, rs, what, s0):
    k = s.k
    def bad(kind, det):
        k.violate('P01', kind, '%s: %s' % (rs.name, det))
        k.violate('P02', kind, '%s: %s' % (rs.name, det)) if kind.startswith('old') else None
    if what == 'versions' or what == 'all':
        hd, b = raw.req('list_versions', repo=rs.name)
        hs = heads_between(rs, s0, k.steps)
        if hd.get('status') != 'ok': return refused(s, raw, rs, 'list_versions', hd)
        v = json.loads(b)['versions']
        ok = []
        for h in hs:
            ids = [r.id for r in rs.mon.chain]
            exp = list(reversed(ids[:ids.index(h) + 1]))[:52] if h != 'root' else []
            ok.append(exp)
            if [x['id'] for x in v] == exp:
                for x in v:
                    r = rs.mon.by_id[x['id']]
                    if (x['commit_by'], x['commit_message'], x['utc_date_time']) != (r.by, r.msg, r.time): bad('old-metadata', 'list_versions gives %s for %s' % (x, r.id[:8]))
                break
        else: bad('versions-differ', 'list_versions gave %s, possible %s' % ([x['id'][:8] for x in v], [[i[:8] for i in e] for e in ok]))
    if what in ('files', 'changes') or what == 'all':
        hd, b = raw.req('list_files' if what != 'changes' else 'list_changes', {'show_head': '1', 'version_id': ''}, repo=rs.name)
        hs = heads_between(rs, s0, k.steps)
        if hd.get('status') != 'ok':
            if hs == ['root'] or 'root' in hs: return
            return refused(s, raw, rs, 'list_files', hd)
        vid = hd['version_id']
        if vid not in hs: bad('head-differs', 'list says head %s, possible %s' % (vid[:8], [h[:8] for h in hs]))
        elif what != 'changes':
            got = {p: f['hash'] for p, f in json.loads(b)['files'].items()}
            if got != rs.tree_of(vid): bad('files-differ', 'list_files of %s gave %s, is %s' % (vid[:8], short(got), short(rs.tree_of(vid))))
        else:
            if json.loads(b)['changes'] != rs.mon.by_id[vid].changes: bad('changes-differ', 'list_changes of %s' % vid[:8])
    if what == 'file' or what == 'all':
        heads = [r for r in rs.mon.chain if r.tree]
        if not heads: return
        r = heads[-1] if what == 'file' else heads[0]
        p = sorted(r.tree)[k.steps % len(r.tree)]
        use = what == 'file'
        s0 = k.steps
        try: hd, b = raw.req('pull_file', {'path': p, 'use_head': '1' if use else '0', 'version_id': '' if use else r.id}, repo=rs.name)
        except Lost as e:
            # asking for a file that is not in the head (any more) ends the connection
            if use and any(p not in rs.tree_of(h) for h in heads_between(rs, s0, k.steps)): e.disturbed = True
            raise
        hs = heads_between(rs, s0, k.steps) if use else [r.id]
        if hd.get('status') != 'ok':
            if use and any(p not in rs.tree_of(h) for h in hs): return
            return refused(s, raw, rs, 'pull_file', hd)
        h = json.loads(hd['file_info_json'])['hash']
        if sha(b) != h: bad('old-file-content' if not use else 'file-content', 'pull_file %s: body is not %s' % (p, h[:8]))
        elif not any(rs.tree_of(x).get(p) == h for x in hs): bad('old-file' if not use else 'file-differs', 'pull_file %s gave %s, none of %s has it' % (p, h[:8], [x[:8] for x in hs]))
    if what == 'changed' or what == 'all':
        ids = ['root'] + [r.id for r in rs.mon.chain]
        frm = ids[k.steps % len(ids)]
        unch = k.steps % 3 == 0
        s0 = k.steps
        hd, b = raw.req('find_changed', {'previous_revision': frm, 'include_unchanged': str(int(unch))}, json.dumps({'client_changes': '{}'}).encode(), repo=rs.name)
        hs = heads_between(rs, s0, k.steps)
        if hd.get('status') != 'ok': return refused(s, raw, rs, 'find_changed', hd)
        d = json.loads(b)
        h = d['head']
        if h not in hs: return bad('head-differs', 'find_changed says head %s, possible %s' % (h[:8], [x[:8] for x in hs]))
        if h == 'root': return
        old = rs.tree_of(frm); new = rs.tree_of(h)
        ids = ['root'] + [r.id for r in rs.mon.chain]
        if frm != 'root' and ids.index(frm) > ids.index(h): return
        c = d['sorted_changes']
        pulls = {f['path']: f['hash'] for f in c['client_pull_files']}; dels = {f['path'] for f in c['to_delete_on_client']}
        for p in sorted(set(old) | set(new)):
            if new.get(p) != old.get(p):
                if p in new and pulls.get(p) != new[p]: bad('update-incomplete', 'find_changed from %s to %s misses %s' % (frm[:8], h[:8], p)); k.violate('P05', 'update-incomplete', p)
                if p not in new and p not in dels: bad('update-incomplete', 'find_changed from %s to %s does not delete %s' % (frm[:8], h[:8], p)); k.violate('P05', 'update-incomplete', p)
            elif unch and p in new and pulls.get(p) != new[p]: k.violate('P05', 'full-update-incomplete', '%s: -f misses %s' % (rs.name, p))
        for p, x in pulls.items():
            if new.get(p) != x: bad('update-wrong', 'find_changed from %s to %s pulls %s %s' % (frm[:8], h[:8], p, x[:8])); k.violate('P05', 'update-wrong', p)
        for p in dels:
            if p in new: bad('update-wrong', 'find_changed from %s to %s deletes %s' % (frm[:8], h[:8], p)); k.violate('P05', 'update-wrong', p)


def refused(s, raw, rs, what, hd):
    if raw.s is not None and not raw.disturbed():
        if 'authenticate' in hd.get('msg', ''): s.k.violate('P11', 'valid-session-refused', '%s: %s: %s' % (rs.name, what, hd))
        else: s.k.violate('P01', 'read-refused', '%s: %s: %s' % (rs.name, what, hd))


def residue(k, s, rs, when):
    """called while the lock is held and nothing of this commit has been stored yet"""
    objs = store.list_objects(rs.mon.base)
    extra = objs - rs.mon.objs - rs.allowed
    errs = sum(p.tag.get('errs', 0) for p in s.w.servers)
    if rs.taint or errs != rs.errs_seen:
        rs.allowed |= extra
    elif extra:
        k.violate('P12', 'residue', '%s at %s: objects of no revision: %s' % (rs.name, when, sorted(extra)[:5]))
    rs.taint = False; rs.errs_seen = errs


def digests(k, rs):
    for o in sorted(store.list_objects(rs.mon.base)):
        kind, a, b = o.split('/') if o.count('/') == 2 else (o, '', '')
        try: store.raw_obj(rs.mon.base, kind, a + b)
        except StoreError as e: k.violate('P12', 'object-not-under-digest', '%s: %s %s' % (rs.name, o, e))


def main(k, w, plan, s):
    f = plan['fixed']
    k.faults_on = False
    for p in f['ports']: w.start_server(p)
    # some history first
    pre = Raw(w, 'rq', 'ann', f['ports'][0]); pre.host = '10.9.9.9'
    pre.connect()
    for r in f['repos'] + ['rq']:
        rs = s.rs[r]
        try: prehistory(k, s, f, pre, rs, r)
        except (Lost, KeyError, ValueError) as e:      # one client, no faults
            for p in ('P10', 'P13'): k.violate(p, 'undisturbed-commit-failed', '%s: %s %s' % (r, type(e).__name__, e))
            return
    after_pre(k, w, plan, s, f, pre)


def prehistory(k, s, f, pre, rs, r):
        def ok(h):
            if h.get('status') != 'ok': raise Lost('refused: %s' % h)
        ok(pre.login(repo=r))
        for i in range(f['pre'] if r != 'rq' else 1):
            h, b = pre.begin(rs.mon.head, repo=r); ok(h)
            s.nmsg += 1
            a = Att(rs, pre, 'm%d pre' % s.nmsg, rs.mon.head, rs.tree_of(rs.mon.head)); rs.atts[a.msg] = a
            for j in range(2):
                p = PATHS[(i * 2 + j) % len(PATHS)]; d = content(i * 3 + j + 1)
                ok(pre.push(p, d, repo=r)[0]); a.put(p, sha(d))
            if i == 2: ok(pre.delete([PATHS[0]], repo=r)[0]); a.rm(PATHS[0])
            a.state = 'finishing'
            h, b = pre.finish('commit', a.msg, repo=r); ok(h)
            a.state = 'done'


def after_pre(k, w, plan, s, f, pre):
    pre.close()
    k.sleep(0.01)
    quiet_before = {p: b for p, b in world.read_tree(w.path('rq'), skip=()).items() if 'server_transient' not in p}
    k.faults_on = True
    actors = [Actor(s, i, a) for i, a in enumerate(plan['actors'])]
    threads = []
    for i, a in enumerate(actors):
        pr = k.new_proc('actor%d' % i, 'actor', w.dir, host=a.spec['host'])
        threads.append(k.spawn(pr, a.go))
        pr.tag['actor'] = a
    for e in sorted(plan['events'], key=lambda e: e['at']):
        def fire(e=e):
            p = w.live_server(e['port'])
            if p is not None and k.faults_on:
                k.stat('fault.kill_server'); k.fault_log.append((k.steps, 'kill', p.name, 'timed'))
                k.kill(p, 'timed kill')
        k.call_at(k.now + e['at'], fire)
    for t in threads: k.wait_thread(t, 5000)
    finish(k, w, plan, s, quiet_before)


def finish(k, w, plan, s, quiet_before):
    f = plan['fixed']
    # faults stop
    w.quiet()
    s.final = True
    k.sleep(330)
    for p in f['ports']:
        if w.ensure_server(p) is None: k.violate('P10', 'server-does-not-start', 'port %d' % p)
    if 'gc' in f.get('tools', ()):
        for r in f['repos'] + ['rq']: unlocked_by_now(s, s.rs[r])
        p = tool(s, 'gc')
        for r in f['repos'] + ['rq']: swept(s, s.rs[r], p)
    for r in f['repos']:
        rs = s.rs[r]
        done = False; why = []
        u = Raw(w, r, 'cat', f['ports'][-1]); u.host = '127.0.0.1'
        for n in range(3):
            try:
                u.connect(); h = u.login()
                if h.get('status') != 'ok': why.append(h); continue
                hd, b = u.req('list_files', {'show_head': '1', 'version_id': ''})
                base = hd.get('version_id', 'root') if hd.get('status') == 'ok' else 'root'
                hd, b = u.begin(base)
                if hd.get('status') != 'ok': why.append(hd); u.close(); k.sleep(1); continue
                s.nmsg += 1
                a = Att(rs, u, 'm%d final' % s.nmsg, base, rs.tree_of(base) if base == 'root' or base in rs.mon.by_id else {}); rs.atts[a.msg] = a
                told = json.loads(b)['partial_commit']
                if told: k.violate('P04', 'foreign-upload-offered', '%s: the final committer, who never uploaded, was told of %s' % (r, told))
                residue(k, s, rs, 'the final commit')
                data = b'final ' + r.encode()
                hd, b = u.push('/final', data)
                if hd.get('status') != 'ok': why.append(hd); continue
                a.put('/final', sha(data)); a.state = 'finishing'
                hd, b = u.finish('commit', a.msg)
                if hd.get('status') != 'ok': why.append(hd); continue
                a.state = 'done'; done = True
                break
            except Lost as e:
                why.append('lost: %s' % e)
        if not done:
            k.violate('P10', 'cannot-commit-after-faults', '%s: %s' % (r, why))
            if getattr(k, 'gc_ran', False): k.violate('P15', 'cannot-commit-after-gc', '%s: %s' % (r, why))
            continue
        extra = store.list_objects(rs.mon.base) - rs.mon.objs - rs.allowed
        if extra: k.violate('P12', 'residue', '%s after the final uninterrupted commit: objects of no revision: %s' % (r, sorted(extra)[:5]))
        # everything ever published reads back through the server
        try:
            for rev in rs.mon.chain:
                hd, b = u.req('list_files', {'show_head': '0', 'version_id': rev.id})
                if hd.get('status') != 'ok' or {p: x['hash'] for p, x in json.loads(b)['files'].items()} != rev.tree:
                    k.violate('P02', 'old-revision-differs', '%s: list_files of %s: %s' % (r, rev.id[:8], hd))
                hd, b = u.req('list_changes', {'show_head': '0', 'version_id': rev.id})
                if hd.get('status') != 'ok' or json.loads(b)['changes'] != rev.changes: k.violate('P02', 'old-changes-differ', '%s %s' % (r, rev.id[:8]))
            seen = set()
            for rev in rs.mon.chain:
                for p, h in sorted(rev.tree.items()):
                    if (p, h) in seen: continue
                    seen.add((p, h))
                    hd, b = u.req('pull_file', {'path': p, 'use_head': '0', 'version_id': rev.id})
                    if hd.get('status') != 'ok' or sha(b) != h: k.violate('P02', 'old-file-differs', '%s: %s in %s: %s' % (r, p, rev.id[:8], hd))
            read_(s, u, rs, 'versions', k.steps)
            read_(s, u, rs, 'changed', k.steps)
        except Lost as e:
            k.violate('P02', 'old-revision-unreadable', '%s: %s' % (r, e)); k.violate('P01', 'old-revision-unreadable', '%s: %s' % (r, e))
        u.close()
        rs.mon.final_check()
        digests(k, rs)
    if f.get('tools'): operate(k, w, plan, s)
    k.sleep(5)
    for p in w.servers:
        if p.alive and not p.exited:
            left = [t.name for t in p.threads if not t.is_main]
            if left: k.violate('P10', 'handler-left', 'server threads %s still there although every connection ended: %s' % (left, [t.where for t in p.threads if not t.is_main]))
        elif not p.killed and (p.tag.get('listened') or not p.tag.get('errs')):
            k.violate('P13', 'server-died', '%s ended with %r' % (p.name, p.exc)); k.violate('P10', 'server-died', '%s ended with %r' % (p.name, p.exc))
    now = {p: b for p, b in world.read_tree(w.path('rq'), skip=()).items() if 'server_transient' not in p}
    if now != quiet_before:
        k.violate('P19', 'quiet-repository-changed', 'files differing: %s' % sorted(p for p in set(now) | set(quiet_before) if now.get(p) != quiet_before.get(p)))


# ---------------------------------------------------------------------- bvn_repo
def tool(s, what, doom=None, lag=None, timeout=4000.0):
    """run bvn_repo as an operator would; judged if nothing disturbed it"""
    k = s.k; w = s.w
    k.probe('tool_' + what)
    if what == 'gc': k.gc_ran = True
    before = {r: (rs.mon.head, len(rs.mon.chain)) for r, rs in s.rs.items()}
    p = w.start_tool([what])
    if doom and k.faults_on: k.doom[p] = doom
    if lag and k.faults_on: k.lag[p] = list(lag)
    done = k.wait_proc(p, timeout)
    text = ''.join(p.out); und = done and not p.killed and not p.interrupted and not p.tag.get('errs')
    k.log('bvn_repo %s -> %s %s %s' % (what, p.exit_code, type(p.exc).__name__, text[-300:]))
    s.tools = getattr(s, 'tools', 0) + 1
    p.tag['und'] = und
    prop = {'gc': 'P15', 'verify': 'P16'}[what]
    if not done:
        if not p.tag.get('errs'): k.violate(prop, what + '-does-not-end', 'after %d simulated seconds' % timeout)
        k.kill(p, 'operator'); return p
    if und and p.exc is not None and not isinstance(p.exc, SystemExit):
        k.violate(prop, what + '-failed', '%s: %s\n%s' % (type(p.exc).__name__, p.exc, (p.tb or '')[-400:]))
    p.tag['res'] = verdicts(text) if what == 'verify' else {}
    if what == 'verify' and und:
        for r, rs in s.rs.items():
            v = p.tag['res'].get(r)
            if before[r][1] and v != 'sound': k.violate('P16', 'false-alarm', '%s has %d revisions, nothing was damaged: %s' % (r, before[r][1], v))
    return p


def verdicts(text):
    out = {}
    for part in text.split('Results for: ')[1:]:
        lines = [x.strip() for x in part.split('\n')]
        body = [x for x in lines[1:] if x]
        out[lines[0]] = 'sound' if body and body[0] == 'No issues' else ' '.join(body)[:200]
    return out


def unlocked_by_now(s, rs):
    """every connection that held the lock has ended"""
    if rs.holder is not None and rs.holder.raw.s is not None: rs.holder.raw.close()
    s.k.sleep(1)


def swept(s, rs, p):
    k = s.k
    if not p.tag.get('und') or rs.mon.head == 'root': return
    have = store.list_objects(rs.mon.base)
    keep = {'files/%s/%s' % (h[:2], h[2:]) for _, h in rs.series}
    extra = have - rs.mon.objs - keep
    if extra: k.violate('P15', 'garbage-left', '%s: objects nothing needs are left: %s' % (rs.name, sorted(extra)[:4]))
    rs.allowed &= have


def operate(k, w, plan, s):
    """the servers are idle, nothing is unfinished"""
    f = plan['fixed']
    if 'gc' in f['tools']:
        p = tool(s, 'gc')
        for r in f['repos'] + ['rq']:
            rs = s.rs[r]; rs.series = set(); swept(s, rs, p); rs.mon.final_check()
    if 'verify' in f['tools']:
        snap = {r: pieces(s.rs[r]) for r in f['repos']}
        tool(s, 'verify')
        for r in f['repos']:
            if pieces(s.rs[r]) != snap[r]: k.violate('P16', 'verify-changed', r)
    for d in plan['ops']:
        rs = s.rs[d['repo']]
        if rs.mon.head == 'root': continue
        was = pieces(rs); hurt = damage_garbage(rs, d) if d.get('garbage') and d['tool'] == 'verify' and d['how'] in ('flip', 'trunc', 'extend', 'empty', 'zeros') else damage(rs, d, was)
        if not hurt: continue
        k.probe('damage_' + d['how'])
        now = pieces(rs)
        mon_objs = set(rs.mon.objs); mon_head = rs.mon.head
        p = w.start_tool([d['tool']])
        ended = k.wait_proc(p, 4000.0)
        text = ''.join(p.out)
        k.log('damaged %s %s; bvn_repo %s -> %s %s %s' % (d['how'], hurt, d['tool'], p.exit_code, type(p.exc).__name__, text[-200:]))
        after = pieces(rs)
        if d['tool'] == 'verify':
            v = verdicts(text)
            if v.get(rs.name) == 'sound': k.violate('P16', 'damage-missed', '%s: %s of %s not noticed' % (rs.name, d['how'], hurt))
            for r in f['repos'] + ['rq']:
                if r != rs.name and s.rs[r].mon.chain and v.get(r, 'sound') != 'sound': k.violate('P16', 'false-alarm', '%s, while %s is damaged: %s' % (r, rs.name, v[r]))
            if after != now: k.violate('P16', 'verify-changed', rs.name)
            if not ended: k.violate('P16', 'verify-does-not-end', hurt)
        else:
            gone = sorted(o for o in mon_objs if o in now and after.get(o) != now[o])
            if gone: k.violate('P15', 'gc-removed-needed', '%s: after %s of %s collection removed %s' % (rs.name, d['how'], hurt, gone[:4]))
        if not ended: k.kill(p, 'operator')
        repair(rs, was)
        rs.mon.objs = mon_objs; rs.mon.head = mon_head


def pieces(rs):
    base = rs.mon.base; out = {o: store.rd(base + '/' + o) for o in store.list_objects(base) if fsim.real_isfile(base + '/' + o)}
    if fsim.real_isfile(base + '/head'): out['head'] = store.rd(base + '/head')
    return out


def damage(rs, d, was):
    base = rs.mon.base; real = fsim.real
    objs = sorted(o for o in rs.mon.objs if o in was and (d['kind'] == 'any' or o.startswith(d['kind'])))
    if not objs: return None
    o = objs[d['pick'] % len(objs)]; f = base + '/' + o; b = was[o]; how = d['how']; n = d['pos'] % max(1, len(b))
    def put(x):
        with real.open(f, 'wb') as h: h.write(x)
    if how == 'nohead': real.os_remove(base + '/head'); return 'head'
    if how == 'head':
        o = 'head'; f = base + '/head'; b = was['head']
        n = d['pos'] % len(b); put(b[:n] + (b'0' if b[n:n + 1] != b'0' else b'1') + b[n + 1:]); return 'head at %d' % n
    if how == 'remove': real.os_remove(f)
    elif how == 'extend': put(b + b[-1:] or b'x')
    elif not b: return None
    elif how == 'flip': put(b[:n] + bytes([b[n] ^ (1 << d['pos'] % 8)]) + b[n + 1:])
    elif how == 'trunc': put(b[:n])
    elif how == 'empty': put(b'')
    elif how == 'zeros':
        if not b.strip(b'\0'): return None
        put(bytes(len(b)))
    elif how in ('swap', 'move'):
        others = [x for x in objs if x != o and x.split('/')[0] == o.split('/')[0] and was[x] != b]
        if not others: return None
        x = others[d['pos'] % len(others)]; put(was[x])
        if how == 'swap':
            with real.open(base + '/' + x, 'wb') as h: h.write(b)
        return '%s and %s' % (o, x)
    return '%s at %d of %d' % (o, n, len(b))


def damage_garbage(rs, d):
    """an object no revision needs, as unfinished commits leave it, is damaged"""
    real = fsim.real; kind = 'files' if d['kind'] == 'files' else 'index'; b = content(d['pick'] % 1000 + 5000)
    if kind == 'index': b = json.dumps({'type': 'tree', 'dirs': {}, 'files': {'x': {'hash': sha(b)}}}).encode()
    h = sha(b); o = '%s/%s/%s' % (kind, h[:2], h[2:]); n = d['pos'] % len(b)
    if o in rs.mon.objs or fsim.real_isfile(rs.mon.base + '/' + o): return None
    real.os_makedirs(rs.mon.base + '/%s/%s' % (kind, h[:2]), exist_ok=True)
    with real.open(rs.mon.base + '/' + o, 'wb') as f:
        f.write({'flip': b[:n] + bytes([b[n] ^ (1 << d['pos'] % 8)]) + b[n + 1:], 'trunc': b[:n], 'extend': b + b[-1:], 'empty': b'', 'zeros': bytes(len(b))}[d['how']])
    return 'unneeded %s at %d of %d' % (o, n, len(b))


def repair(rs, was):
    base = rs.mon.base; real = fsim.real
    for o in sorted(set(pieces(rs)) - set(was)): real.os_remove(base + '/' + o)
    for o, b in was.items():
        real.os_makedirs(base + '/' + o.rsplit('/', 1)[0] if '/' in o else base, exist_ok=True)
        with real.open(base + '/' + o, 'wb') as h: h.write(b)


def on_stop(k, w, plan, s, reason):
    if reason == 'steps':
        k.violate('P10', 'livelock', 'no end after %d operations' % k.steps)
    elif reason == 'deadlock':
        k.violate('P10', 'deadlock', 'nothing can happen any more')

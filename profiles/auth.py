"""Authentication profile: challenges and sessions used, reused, mixed up, raced and expired over real server processes.

Reference model: who was issued which challenge and session, where, when, and when it was last used. Every reply is
compared with what the model allows; where the moment of processing is not known exactly both answers are accepted."""
import json, copy
from sim import store, world
from sim.world import Raw, Lost
from sim.store import sha
from .common import content, net_cfg, sched_cfg

MAX_STEPS = 120_000
ESCAPE_PROPS = ('P11', 'P19')
USERS = ['ann', 'bob', 'cat']
HOSTS = ['10.0.0.1', '10.0.0.2']
OPS = ['find_changed', 'pull_file', 'list_versions', 'list_changes', 'list_files', 'begin_commit', 'push_file', 'delete_files', 'commit', 'abort']
READS = ('find_changed', 'pull_file', 'list_versions', 'list_changes', 'list_files')
SLEEPS = [0.001, 0.01, 0.2, 5, 14, 20, 29.5, 29.99, 30.01, 31, 40, 1000, 3599, 7100, 7199, 7201, 7300, 20000]


def gen(rng, o):
    cfg = sched_cfg(rng); cfg['budget'] = {}
    kinds = [x for x in ('crash', 'err', 'net') if rng.random() < 0.25]
    cfg['net'] = net_cfg(rng, 'net' in kinds)
    if 'net' in kinds: cfg['budget'].update(reset=rng.randint(1, 3), hole=0)
    if 'crash' in kinds:
        cfg['crash'] = {'server': rng.choice([0.002, 0.01])}; cfg['budget']['crash:server'] = rng.randint(1, 3)
    if 'err' in kinds:
        cfg['err'] = {'server': {'db': rng.choice([0.005, 0.02]), 'mut': 0.003}}; cfg['budget']['err:server'] = rng.randint(1, 3)
    ports = [8090] if rng.random() < 0.6 else [8090, 8091]
    repos = ['r0', 'r1']
    # a run keeps to few users, hosts and repositories so that mixed-up credentials collide often
    users = rng.sample(USERS, rng.choice([1, 2, 2, 3]))
    perms = {u: sorted({r for r in repos if rng.random() < 0.75}) for u in USERS}
    perms[users[0]] = sorted(set(perms[users[0]]) | {'r0'})
    actors = []
    for i in range(rng.randint(1, 3)):
        steps = []
        repo = rng.choice(['r0', 'r0', 'r1']); user = rng.choice(users)
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            rp = repo if rng.random() < 0.85 else rng.choice(repos)
            us = user if rng.random() < 0.85 else rng.choice(USERS + ['eve', 'nobody'])
            mangle = None if rng.random() < 0.9 else rng.choice(['flip', 'cut', 'empty', 'pad', 'case'])
            if rng.random() < 0.18: steps += scene(rng, rp, user, users, repos)
            elif r < 0.12: steps.append({'t': 'chal', 'repo': rp})
            elif r < 0.30: steps.append({'t': 'auth', 'pick': pick(rng), 'repo': rp, 'user': us, 'sign': us if rng.random() < 0.85 else rng.choice(USERS + ['eve']), 'mangle': mangle, 'version': '3' if rng.random() < 0.95 else '2'})
            elif r < 0.42: steps.append({'t': 'login', 'repo': rp, 'user': us, 'gap': rng.choice([0, 0, 0, 1, 28, 29.9, 30.1, 35])})
            elif r < 0.52: steps.append({'t': 'race', 'repo': rp, 'user': us, 'n': rng.choice([2, 2, 3])})
            elif r < 0.62: steps.append({'t': 'resume', 'pick': pick(rng), 'repo': rp, 'mangle': mangle})
            elif r < 0.84: steps.append({'t': 'use', 'pick': pick(rng), 'repo': rp, 'op': rng.choice(OPS), 'mangle': mangle})
            elif r < 0.93: steps.append({'t': 'sleep', 's': rng.choice(SLEEPS)})
            elif r < 0.96: steps.append({'t': 'move', 'host': rng.choice(HOSTS)})
            elif r < 0.98: steps.append({'t': 'perm', 'user': rng.choice(users), 'repo': rng.choice(repos), 'give': rng.random() < 0.4})
            else: steps.append({'t': 'commit', 'pick': pick(rng), 'repo': rp})
        actors.append({'host': rng.choice(HOSTS), 'port': rng.choice(ports), 'steps': steps})
    return {'cfg': cfg, 'fixed': {'ports': ports, 'perms': perms, 'kinds': kinds}, 'actors': actors}


def scene(rng, rp, user, users, repos):
    """short sequences around the limits"""
    login = {'t': 'login', 'repo': rp, 'user': user, 'gap': 0}
    use = lambda n=0, r=rp, op=None: {'t': 'use', 'pick': n, 'repo': r, 'op': op or rng.choice(READS), 'mangle': None}
    k = rng.randrange(8)
    if k == 7: return [login, {'t': 'slow', 'repo': rp, 'user': rng.choice(users), 'gap': rng.choice([100, 250]), 'n': rng.choice([3, 31, 75])}]
    if k == 0: return [login, {'t': 'sleep', 's': rng.choice([7199, 7201, 7300, 20000])}, rng.choice([use(), {'t': 'resume', 'pick': 0, 'repo': rp, 'mangle': None}])]
    if k == 1:      # an unfinished commit keeps only its own session
        out = [login, {'t': 'login', 'repo': rp, 'user': rng.choice(users), 'gap': 0}, use(rng.choice([0, 1]), op='begin_commit'), {'t': 'sleep', 's': rng.choice([1, 400, 7300, 20000])}]
        return out + [use(rng.choice([0, 1])), use(rng.choice([0, 1]))]
    if k == 2: return [login, {'t': 'perm', 'user': user, 'repo': rp, 'give': False}, use(), {'t': 'perm', 'user': user, 'repo': rp, 'give': True}, use()]
    if k == 3: return [login, {'t': 'move', 'host': rng.choice(HOSTS)}, use(), {'t': 'resume', 'pick': 0, 'repo': rp, 'mangle': None}, {'t': 'move', 'host': rng.choice(HOSTS)}, use()]
    if k == 4: return [login, use(0, rng.choice(repos)), {'t': 'resume', 'pick': 0, 'repo': rng.choice(repos), 'mangle': None}]
    if k == 5: return [login] + [x for _ in range(rng.randint(2, 3)) for x in ({'t': 'sleep', 's': rng.choice([3599, 7100])}, rng.choice([use(), {'t': 'resume', 'pick': 0, 'repo': rp, 'mangle': None}]))]
    return [{'t': 'chal', 'repo': rp}, {'t': 'move', 'host': rng.choice(HOSTS)}, {'t': 'auth', 'pick': 0, 'repo': rng.choice([rp, rp, rng.choice(repos)]), 'user': user, 'sign': user, 'mangle': None, 'version': '3'}]


def pick(rng): return rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 5])    # how far back among the shared credentials


class State: nontrivial = False
class Chal: pass
class Sess: busy = 0


def setup(k, w, plan):
    s = State(); s.k = k; s.w = w; s.plan = plan; f = plan['fixed']
    for r in ('r0', 'r1'): w.add_repo(r, users=())
    for u in USERS: w.users[u]['uses_repositories'] = list(f['perms'][u])
    w.users['pre'] = {'public_key': w.users['ann']['public_key'], 'uses_repositories': ['r0', 'r1']}
    s.chals = []; s.sess = []; s.tokens = set(); s.msgs = {}; s.badobj = []; s.n = 0
    s.granted = s.refused = s.used = s.lost = 0
    for r in ('r0', 'r1'): w.monitors[r].on_rev.append(lambda rev, thr, r=r: on_rev(k, s, r, rev))
    s.summary = lambda: {'steps': [st['t'] for a in plan['actors'] for st in a['steps']], 'sessions': s.granted, 'refused': s.refused, 'accepted_uses': s.used, 'lost': s.lost, 'faults': [list(x) for x in k.fault_log[:5]]}
    return s


def on_rev(k, s, repo, rev):
    e = s.msgs.get(rev.msg)
    if e is None: return k.violate('P11', 'revision-by-unauthorised-request', '%s: revision with message %r by %s' % (repo, rev.msg, rev.by))
    if e != (repo, rev.by): k.violate('P11', 'wrong-author', '%s: %r by %s, committed with the session of %s' % (repo, rev.msg, rev.by, e))


def mangle(tok, how):
    if how == 'flip': return tok[:5] + ('A' if tok[5:6] != 'A' else 'B') + tok[6:]
    if how == 'cut': return tok[:-1]
    if how == 'empty': return ''
    if how == 'pad': return tok + '='
    if how == 'case': return tok.swapcase()
    return tok


class Actor:
    def __init__(self, s, i, spec):
        self.s = s; self.k = s.k; self.w = s.w; self.i = i; self.spec = spec; self.host = spec['host']
        self.raws = []

    def conn(self, n=0):
        """n-th connection of this actor, alive"""
        while len(self.raws) <= n: self.raws.append(Raw(self.w, 'r0', 'ann', self.spec['port']))
        r = self.raws[n]
        if r.s is not None and (self.k.now - r.last > 240 or not r.healthy()): r.close()
        if r.s is None:
            for _ in range(5):
                try: r.connect(); break
                except Lost: self.w.ensure_server(self.spec['port'])
            else: raise Lost('no server')
        return r

    def drop(self):
        for r in self.raws:
            if r.s is not None: r.close()

    def go(self):
        for st in self.spec['steps']:
            try: getattr(self, 'do_' + st['t'])(st)
            except Lost as e: self.s.lost += 1; self.k.log('lost %s' % e)
        self.drop()

    # -- helpers
    def get(self, lst, n): return lst[-1 - n] if n < len(lst) else None

    def allowed(self, raw, user, repo):
        return raw.srv is not None and repo in raw.srv.tag['perms'].get(user, ())

    def challenge(self, repo, raw=None):
        raw = raw or self.conn(); t0 = self.k.now
        h, b = raw.req('begin_auth', auth=False, repo=repo)
        if h.get('status') != 'ok':
            if repo in self.w.repos and not raw.disturbed(): self.k.violate('P11', 'no-challenge', '%s: %s' % (repo, h))
            return None
        c = Chal(); c.tok = h['auth_token']; c.repo = repo; c.host = self.host; c.t0 = t0; c.t1 = self.k.now; c.granted = 0; c.tries = 0; c.lostchance = False
        if c.tok in self.s.tokens or len(c.tok) < 16: self.k.violate('P11', 'challenge-repeated', '%s: challenge %s' % (repo, c.tok))
        self.s.tokens.add(c.tok); self.s.chals.append(c)
        return c

    def auth_send(self, raw, c, repo, user, sign, mng=None, version='3'):
        tok = mangle(c.tok, mng)
        a = Sess(); a.c = c; a.repo = repo; a.user = user; a.t0 = self.k.now; a.host = self.host; a.raw = raw; a.srv = raw.srv
        signer = sign if sign in world.KEYS else 'eve'
        a.static = (tok == c.tok and c.repo == repo and c.host == self.host and signer == user and self.allowed(raw, user, repo) and version == '3')
        a.exact = tok == c.tok
        if a.static: c.tries += 1
        raw.send_request('authenticate', {'repository': repo, 'client_version': version, 'auth_token': tok, 'signature': raw.sign(tok, signer), 'user': user})
        return a

    def auth_done(self, a):
        k = self.k; s = self.s; c = a.c; raw = a.raw
        h, b = raw.read_reply()
        t1 = k.now
        desc = 'challenge of %s for %s (age %.2f, granted %d) used by %s as %s for %s' % (c.host, c.repo, a.t0 - c.t0, c.granted, a.host, a.user, a.repo)
        if h.get('status') == 'ok':
            if not a.static: k.violate('P11', 'session-granted-wrongly', desc)
            elif a.t0 > c.t1 + 30: k.violate('P11', 'expired-challenge-accepted', desc)
            elif c.granted: k.violate('P11', 'challenge-used-twice', desc)
            c.granted += 1
            x = Sess(); x.tok = h['session_token']; x.repo = a.repo; x.host = a.host; x.user = a.user; x.lo = a.t0; x.hi = t1; x.exempt = False
            if x.tok in s.tokens or len(x.tok) < 16: k.violate('P11', 'session-token-repeated', desc)
            s.tokens.add(x.tok); s.sess.append(x); s.granted += 1; s.nontrivial = True
            return x
        s.refused += 1
        if b or 'session_token' in h: k.violate('P11', 'refusal-discloses', '%s: %s %r' % (desc, h, b[:80]))
        if a.static and t1 <= c.t0 + 30 and c.tries == 1 and not c.granted and not raw.disturbed():
            k.violate('P11', 'valid-login-refused', '%s: %s' % (desc, h))
        return None

    # -- steps
    def do_sleep(self, st): self.k.sleep(st['s'])
    def do_chal(self, st): self.challenge(st['repo'])

    def do_move(self, st):
        if st['host'] != self.host:
            self.drop(); self.host = st['host']; self.k.cur.proc.host = st['host']

    def do_login(self, st):
        c = self.challenge(st['repo'])
        if c is None: return
        if st['gap']: self.k.sleep(st['gap'])
        self.auth_done(self.auth_send(self.conn(), c, st['repo'], st['user'], st['user']))

    def do_auth(self, st):
        c = self.get(self.s.chals, st['pick'])
        if c is None: c = self.challenge(st['repo'])
        if c is None: return
        self.auth_done(self.auth_send(self.conn(), c, st['repo'], st['user'], st['sign'], st['mangle'], st['version']))

    def do_race(self, st):
        c = self.challenge(st['repo'])
        if c is None: return
        raws = [self.conn(i) for i in range(st['n'])]
        sent = []
        for r in raws: sent.append(self.auth_send(r, c, st['repo'], st['user'], st['user']))
        for a in sent:
            try: self.auth_done(a)
            except Lost: pass

    def do_perm(self, st):
        """the administrator changes a permission and restarts the servers"""
        k = self.k; w = self.w
        l = w.users[st['user']]['uses_repositories']
        if st['give'] and st['repo'] not in l: l.append(st['repo'])
        elif not st['give'] and st['repo'] in l: l.remove(st['repo'])
        else: return
        self.drop()
        k.probe('permission_change')
        for p in list(w.servers):
            if p.alive and not p.exited: k.kill(p, 'restart')
        for port in self.s.plan['fixed']['ports']: w.ensure_server(port)

    def verdict(self, raw, x, repo, mng):
        tok = mangle(x.tok, mng)
        ok = tok == x.tok and repo == x.repo and self.host == x.host and self.allowed(raw, x.user, repo)
        return tok, ok

    def do_resume(self, st):
        x = self.get(self.s.sess, st['pick'])
        if x is None: return
        raw = self.conn()
        tok, ok = self.verdict(raw, x, st['repo'], st['mangle'])
        self.exchange(raw, x, tok, ok, st['repo'], 'authenticate', {'client_version': '3'}, b'', True)

    def exchange(self, raw, x, tok, ok, repo, action, headers, body, read):
        k = self.k; s = self.s; t0 = k.now; lo = x.lo; hi = x.hi
        if ok and action == 'begin_commit': x.exempt = True
        unsure = x.busy > 0      # another request with this session is under way
        x.busy += 1
        try:
            raw.tokens[repo] = tok
            h, b = raw.req(action, headers, body, repo=repo)
        finally:
            x.busy -= 1
            if ok: x.hi = max(x.hi, k.now)
        t1 = k.now
        st = h.get('status')
        desc = '%s of %s with the session of %s/%s/%s from %s, last used %.1f s ago' % (action, repo, x.user, x.repo, x.host, self.host, t0 - hi)
        if st == 'ok':
            if not ok: k.violate('P11', 'session-accepted-wrongly', desc)
            elif not x.exempt and t0 > hi + 7200 and not unsure: k.violate('P11', 'expired-session-accepted', desc)
            x.lo = max(x.lo, t0); s.used += 1
        else:
            s.refused += 1
            if b: k.violate('P11', 'refusal-discloses', '%s: %r' % (desc, b[:80]))
            if ok and read and t1 <= lo + 7200 and not raw.disturbed():
                k.violate('P11', 'valid-session-refused', '%s: %s' % (desc, h))
        return h, b

    def do_use(self, st, x=None):
        k = self.k; s = self.s; w = self.w; op = st['op']; repo = st['repo']
        x = x or self.get(s.sess, st['pick'])
        if x is None:
            x = Sess(); x.tok = 'none'; x.repo = 'none'; x.host = self.host; x.user = 'nobody'; x.lo = x.hi = k.now; x.exempt = False
        raw = self.conn()
        tok, ok = self.verdict(raw, x, repo, st['mangle'])
        mon = w.monitors[repo]
        s.n += 1; msg = 'u%d' % s.n
        hd = {}; body = b''; act = op
        if op == 'find_changed': hd = {'previous_revision': 'root', 'include_unchanged': '0'}; body = json.dumps({'client_changes': '{}'}).encode()
        elif op == 'pull_file': hd = {'path': '/pre', 'use_head': '1', 'version_id': ''}
        elif op in ('list_changes', 'list_files'): hd = {'show_head': '1', 'version_id': ''}
        elif op == 'begin_commit': hd = {'user': x.user, 'previous_revision': mon.head}
        elif op == 'push_file':
            body = b'content %d' % s.n; hd = {'path': '/u%d' % s.n}
            if not ok: s.badobj.append((repo, sha(body), s.n))
        elif op == 'delete_files': body = json.dumps({'files': json.dumps([{'path': '/pre2'}])}).encode()
        elif op == 'commit':
            hd = {'mode': 'commit', 'commit_message': msg}
            if ok: s.msgs[msg] = (repo, x.user)
        elif op == 'abort': act = 'commit'; hd = {'mode': 'abort', 'commit_message': ''}
        return self.exchange(raw, x, tok, ok, repo, act, hd, body, op in READS)

    def do_slow(self, st):
        """a commit with an upload that takes hours; meanwhile somebody else logs in"""
        k = self.k; s = self.s; w = self.w; repo = st['repo']
        x = self.get(s.sess, 0)
        if x is None or x.repo != repo or x.host != self.host: return
        h, b = self.do_use({'op': 'begin_commit', 'repo': repo, 'mangle': None, 'pick': 0}, x)
        if h.get('status') != 'ok': return
        raw = self.raws[0]; sock = raw.s
        if not raw.healthy(): return
        s.n += 1; n = s.n
        body = b'slow %d ' % n * st['n']; cut = len(body) // st['n']
        hd = {'Host': 'server', 'Content-Type': 'x', 'Content-Length': str(len(body)), 'repository': repo, 'session_token': x.tok, 'path': '/s%d' % n}
        x.busy += 1; raw.busy = True
        try:
            try:
                raw.s.sendall(('POST /push_file HTTP/1.1\r\n' + ''.join('%s: %s\r\n' % kv for kv in hd.items()) + '\r\n').encode())
                for i in range(st['n']):
                    raw.s.sendall(body[i * cut:] if i == st['n'] - 1 else body[i * cut:(i + 1) * cut])
                    k.sleep(st['gap'])
                    if i == st['n'] - 2:
                        try:
                            c = self.challenge(repo, self.conn(1))
                            if c is not None:
                                y = self.auth_done(self.auth_send(self.raws[1], c, repo, st['user'], st['user']))
                                if y is not None: self.raws[1].tokens[repo] = y.tok; self.raws[1].req('list_versions', repo=repo)
                        except Lost: pass
            except OSError as e: raw.close(); raise Lost('slow %s' % e)
            h, b = raw.read_reply()
            if h.get('status') != 'ok' and not raw.disturbed(): k.violate('P11', 'committing-session-lost', 'upload in progress: %s' % h); return
            msg = 'slow%d' % n; s.msgs[msg] = (repo, x.user)
            h, b = raw.req('commit', {'mode': 'commit', 'commit_message': msg, 'session_token': x.tok}, repo=repo)
            k.probe('slow_upload_over_2h' if st['gap'] * st['n'] > 7200 else 'slow_upload')
            if h.get('status') != 'ok' and raw.s is sock and not raw.disturbed(): k.violate('P11', 'committing-session-lost', 'commit after an upload of %d s: %s' % (st['gap'] * st['n'], h))
        finally:
            x.busy -= 1; x.hi = max(x.hi, k.now)

    def do_commit(self, st):
        """a whole commit with one session, with foreign requests slipped in on the same connection"""
        s = self.s
        x = self.get(s.sess, st['pick'])
        if x is None: return
        others = [y for y in s.sess if y is not x]
        h, b = self.do_use({'op': 'begin_commit', 'repo': st['repo'], 'mangle': None, 'pick': 0}, x)
        if h.get('status') != 'ok': return
        if others and s.n % 2: self.do_use({'op': 'push_file', 'repo': st['repo'], 'mangle': 'flip', 'pick': 0}, x)
        self.do_use({'op': 'push_file', 'repo': st['repo'], 'mangle': None, 'pick': 0}, x)
        if s.n % 3 == 0: self.do_use({'op': 'commit', 'repo': st['repo'], 'mangle': 'cut', 'pick': 0}, x)
        self.do_use({'op': 'commit', 'repo': st['repo'], 'mangle': None, 'pick': 0}, x)


def main(k, w, plan, s):
    f = plan['fixed']
    k.faults_on = False
    for p in f['ports']: w.start_server(p)
    pre = Raw(w, 'r0', 'pre', f['ports'][0])
    pre.connect()
    try:
        for r in ('r0', 'r1'):
            h = pre.login_with(pre.req('begin_auth', auth=False, repo=r)[0]['auth_token'], 'pre', 'ann', repo=r)
            pre.begin('root', repo=r); pre.push('/pre', b'pre', repo=r); pre.push('/pre2', b'pre2', repo=r)
            s.msgs['pre'] = (r, 'pre'); pre.finish('commit', 'pre', repo=r)
    except (Lost, KeyError) as e:
        k.violate('P11', 'valid-login-refused', 'initial commits: %s %s' % (type(e).__name__, e)); return
    pre.close()
    if [w.monitors[r].head for r in ('r0', 'r1')].count('root'):
        k.violate('P11', 'valid-session-refused', 'initial commits did not take place'); return
    k.faults_on = True
    ts = []
    for i, a in enumerate(plan['actors']):
        act = Actor(s, i, a)
        p = k.new_proc('actor%d' % i, 'actor', w.dir, host=a['host'])
        ts.append(k.spawn(p, act.go))
    for t in ts: k.wait_thread(t, 400000)
    w.quiet()
    for repo, h, n in s.badobj:
        if 'files/%s/%s' % (h[:2], h[2:]) in store.list_objects(w.path(repo)):
            k.violate('P11', 'unauthorised-upload-stored', '%s: upload %d' % (repo, n))


def on_stop(k, w, plan, s, reason):
    if reason == 'deadlock': k.violate('P10', 'deadlock', 'nothing can happen any more')

"""Backup and restore: a real bvn_server and committing users while an operator runs `bvn_repo backup` and
`bvn_repo restore` against a simulated bucket; the tool's process crashes, is interrupted or stalls, remote
calls fail before or after they took effect, the disk fails, and finally remote objects are damaged.

Oracle: the revisions the repository monitor has recorded.  Whatever a restore that reports success leaves
must be the complete history of a revision that was the head since the last completed backup began."""
import json, hashlib, re
from sim import kernel as kn, fsim, store, world, s3sim
from sim.world import Raw, Lost
from sim.store import sha, StoreError
from .common import net_cfg, sched_cfg, short

MAX_STEPS = 300_000
ESCAPE_PROPS = ('P14',)
PATHS = ['/plain-name-a.txt', '/plain-name-b', '/some-directory/plain-name-c', '/some-directory/deeper-directory/plain-name-d', '/\u00fcmlaut-name-long/x']
EMPTY = sha(b'')


def gen(rng, o):
    cfg = sched_cfg(rng)
    cfg['net'] = net_cfg(rng, False)
    cfg['budget'] = {}
    kinds = []
    if rng.random() < 0.85: kinds = [x for x in ('crash', 'remote', 'disk', 'intr', 'stall') if rng.random() < 0.4] or ['crash']
    if 'crash' in kinds:
        cfg['crash'] = {'tool': rng.choice([0.003, 0.01, 0.03])}; cfg['budget']['crash:tool'] = rng.randint(1, 4)
    if 'intr' in kinds:
        cfg['interrupt'] = {'tool': rng.choice([0.002, 0.01])}; cfg['budget']['interrupt:tool'] = rng.randint(1, 2)
    if 'stall' in kinds:
        cfg['stall'] = {'tool': rng.choice([0.003, 0.02])}; cfg['budget']['stall:tool'] = rng.randint(1, 5)
    e = {}
    if 'remote' in kinds: e.update(net=rng.choice([0.005, 0.02]), x=rng.choice([0.0, 0.01]))
    if 'disk' in kinds: e.update({c: rng.choice([0.003, 0.01]) for c in ('mut', 'read') if rng.random() < 0.7})
    if e: cfg['err'] = {'tool': e}; cfg['budget']['err:tool'] = rng.randint(1, 4)
    names = ['r0', 'r1', 'r2'][:rng.choice([1, 2, 2, 3])]
    repos = [{'name': n, 'backup': i == 0 or rng.random() < 0.6, 'empty': i > 0 and rng.random() < 0.3} for i, n in enumerate(names)]
    rng.shuffle(repos)
    com = []
    for _ in range(rng.choice([1, 1, 2])):
        steps = []
        for _ in range(rng.randint(1, 6)):
            steps.append({'t': 'sleep', 's': rng.choice([0.05, 0.5, 2.0, 5.0])})
            steps.append(gen_commit(rng, names))
        com.append({'who': 'committer', 'steps': steps})
    ops = []
    for i in range(rng.choice([1, 1, 1, 2])):
        steps = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.5: steps.append({'t': 'sleep', 's': rng.choice([0.1, 1.0, 5.0])})
            what = rng.choice(['backup', 'backup', 'restore', 'gc']) if i == 0 else rng.choice(['restore', 'gc', 'restore'])
            steps.append({'t': 'tool', 'what': what, 'fresh': rng.random() < 0.5,
                          'doom': rng.randint(1, rng.choice([40, 150, 500])) if 'crash' in kinds and rng.random() < 0.5 else None})
        com.append({'who': 'operator', 'steps': steps})
    pre = [gen_commit(rng, names) for _ in range(rng.randint(0, 5))]
    dmg = [{'how': rng.choice(['remove', 'remove', 'trunc', 'chunk', 'flip', 'flip', 'swap', 'swap', 'empty', 'extend', 'password']), 'kind': rng.choice(['index', 'files', 'head', 'any']),
            'pick': rng.randrange(10 ** 6), 'pos': rng.randrange(10 ** 6)} for _ in range(rng.randint(0, 4))]
    return {'cfg': cfg, 'fixed': {'repos': repos, 'chunk': rng.choice([1000, 1025, 4096]), 'page': rng.choice([1000, 1000, 2, 3, 5]), 'latency': rng.choice([0.002, 0.02, 0.1]), 'verify': rng.random() < 0.3},
            'steps': pre, 'actors': com, 'ops': dmg}


def gen_commit(rng, names):
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.8: ops.append(['put', rng.choice(PATHS), rng.randrange(16)])
        else: ops.append(['del', rng.choice(PATHS)])
    return {'t': 'commit', 'repo': rng.choice(names), 'ops': ops, 'end': rng.choice(['commit'] * 5 + ['abort', 'drop'])}


def data(n, chunk):
    """contents around the size of a chunk"""
    size = [0, 20, 1, chunk - 1, chunk, chunk + 1, 2 * chunk, 2 * chunk + 17, 2 * chunk - 17, 3 * chunk + 500, 17, 100, chunk - 17, chunk + 17, 5 * chunk - 3, 7 * chunk + 1][n % 16]
    seed = hashlib.sha256(b'backup-%d' % n).hexdigest().encode()
    return (seed * (size // len(seed) + 1))[:size]


class S: pass


def setup(k, w, plan):
    s = S(); s.k = k; s.w = w; f = plan['fixed']; s.f = f
    for r in f['repos']:
        kw = {'backup': True} if r['backup'] else {}
        w.add_repo(r['name'], **kw)
    s.s3 = s3sim.S3(k, page=f['page'], latency=f['latency'])
    w.extra_conf = {'s3': {'access_key': 'AK', 'secret_key': 'the secret access key', 'bucket': 'bkt', 'endpoint': 'http://s3'},
                    'crypto': {'crypt_password': 'backup password of the operator'}, 'chunk_size': f['chunk']}
    s.backed = [r['name'] for r in f['repos'] if r['backup']]
    s.empty = {r['name'] for r in f['repos'] if r['empty']}
    s.nt = 0; s.nc = 0; s.running = set(); s.done = {}; s.since = {}      # done: repo -> index of the oldest revision a restore may yield
    s.last_fault = 0; s.dirty = True; s.backups = 0; s.restores = 0; s.started = 0; s.locks = {}
    s.secret = [b'backup password of the operator', b'the secret access key', b'plain-name', b'some-directory', b'deeper-directory', '\u00fcmlaut-name'.encode(), b'\\u00fcmlaut-name', b'utc_date_time', b'commit_message', b'tree_root', b'message of commit'] + \
        [data(n, f['chunk'])[:16] for n in range(16) if len(data(n, f['chunk'])) >= 16]
    s.s3.sent.append(lambda key, b: sent(s, key, b))
    s.s3.seen.append(lambda key, b: stored(s, key, b))
    s.summary = lambda: {'backups': s.backups, 'restores': s.restores, 'objects': len(s.s3.keys()), 'revisions': {r: len(m.chain) for r, m in w.monitors.items()}}
    s.nontrivial = False
    return s


def sent(s, key, b):
    for x in s.secret:
        if x in b or x in key.encode('utf8', 'replace'): s.k.violate('P14', 'plaintext-sent', '%s: %r in what was sent' % (key, x)); return
    if re.search(rb'[0-9a-f]{64}|exists', b): s.k.violate('P14', 'plaintext-sent', '%s: sent without encryption' % key)


def stored(s, key, b):
    name, _, rest = key.partition('/')
    if not rest.startswith('commits/') or name not in s.w.monitors: return
    mon = s.w.monitors[name]; h = rest[8:]
    r = mon.by_id.get(h)
    if r is None: return s.k.violate('P14', 'marker-of-unknown-revision', key)
    for o in sorted(r.objs):
        if o == 'files/%s/%s' % (EMPTY[:2], EMPTY[2:]): continue
        if s.s3.get(name + '/' + o) is None:
            s.k.violate('P14', 'marked-before-complete', '%s is marked as backed up, %s is not on the remote' % (h[:12], o)); return


# ---------------------------------------------------------------------- users
class User:
    def __init__(self, s, i, spec): self.s = s; self.spec = spec; self.i = i; self.raw = {}

    def go(self):
        for st in self.spec['steps']:
            if st['t'] == 'sleep': self.s.k.sleep(st['s'])
            elif st['t'] == 'commit': commit(self.s, st)
            else: tool(self.s, st)


def commit(s, st):
    k = s.k; name = st['repo']; f = s.f
    if name in s.empty: return
    u = Raw(s.w, name, ['ann', 'bob', 'cat'][s.nc % 3]); s.nc += 1
    try:
        u.connect()
        if u.login().get('status') != 'ok': raise Lost('login')
        for _ in range(50):
            hd, b = u.req('list_files', {'show_head': '1', 'version_id': ''})
            base = hd['version_id'] if hd.get('status') == 'ok' else 'root'
            hd, b = u.begin(base)
            if hd.get('status') == 'ok': break
            k.sleep(0.2)
        else: return
        tree = s.w.monitors[name].by_id[base].tree if base != 'root' else {}
        there = set(tree); left = 0; gone = []
        for op in st['ops']:
            if op[0] == 'put':
                if op[1] in gone: continue
                u.push(op[1], data(op[2], f['chunk'])); there.add(op[1])
            elif op[1] in tree and op[1] in there: gone.append(op[1]); there.discard(op[1]); u.delete([op[1]])
        if st['end'] == 'drop': u.close(); return
        u.finish('commit' if there or gone else 'abort', 'message of commit %d' % s.nc) if st['end'] == 'commit' else u.finish('abort')
        u.close()
    except (Lost, KeyError) as e:
        if not k.faults_on: k.violate('P10', 'undisturbed-commit-failed', '%s: %s %s' % (name, type(e).__name__, e))


# ---------------------------------------------------------------------- the operator
def place(s, r): return s.w.path(r) + '_restore'


def empty_place(s):
    real = fsim.real
    for r in s.w.repos:
        for o in sorted(world.read_tree(place(s, r), skip=()), key=len, reverse=True): real.os_remove(place(s, r) + o)


def index(mon, h): return -1 if h == 'root' else [r.id for r in mon.chain].index(h)


def tool(s, st, final=False):
    k = s.k; w = s.w; what = st['what']
    if what in s.running or what == 'gc' and s.running or 'gc' in s.running: return      # one of a kind at a time
    s.running.add(what)
    s.nt += 1
    heads = {r: m.head for r, m in w.monitors.items()}
    if what == 'restore' and (st.get('fresh') or final): empty_place(s)
    if what == 'backup': s.dirty = True
    n0 = s.started = s.started + (what == 'backup'); clean = not s.dirty and s.backups; done0 = dict(s.done)
    p = w.start_tool([what], name='tool%d-%s' % (s.nt, what))
    if st.get('doom') and k.faults_on: k.doom[p] = st['doom']
    ok = k.wait_proc(p, 200000.0)
    s.running.discard(what)
    und = ok and not p.killed and not p.interrupted and not p.tag.get('errs')
    good = ok and not p.killed and (p.exc is None or isinstance(p.exc, SystemExit) and p.exc.code in (None, 0))
    text = ''.join(p.out)
    k.log('bvn_repo %s -> %s %s %s' % (what, p.exit_code, type(p.exc).__name__ + ' ' + str(p.exc)[:100], text[-200:]))
    k.probe('%s_%s' % (what, 'ok' if good else 'failed'))
    if not ok:
        k.violate('P14', what + '-does-not-end', what); k.kill(p, 'operator'); return False
    if what == 'backup' and good:
        s.backups += 1; s.dirty = False
        for r in s.backed:
            h = heads[r]
            if h == 'root': continue
            if s.s3.get(r + '/commits/' + h) is None:
                k.violate('P14', 'backup-incomplete', '%s: backup succeeded, revision %s, head when it began, is not marked as backed up' % (r, h[:12]))
            s.done[r] = max(s.done.get(r, -1), index(w.monitors[r], h))
    if what == 'restore':
        if good:
            s.restores += 1
            for r in s.backed: restored(s, r, done0)
            s.nontrivial = True
        else: half(s)
    if what == 'restore' and st.get('fresh') and clean and n0 == s.started and not good and und:
        k.violate('P14', 'restore-failed', 'after a complete backup, into an empty place: %s: %s\n%s' % (type(p.exc).__name__, p.exc, (p.tb or '')[-600:]))
    if what != 'gc' and final and not good and und:
        k.violate('P14', what + '-failed', '%s without any fault: %s: %s\n%s' % (what, type(p.exc).__name__, p.exc, (p.tb or '')[-600:]))
    return good


def restored(s, r, done, exact=None):
    """a restore reported success"""
    k = s.k; mon = s.w.monitors[r]; d = place(s, r)
    try: h = store.head_of(d)
    except OSError as e: h = 'root'
    if h == 'root':
        if done.get(r, -1) >= 0: k.violate('P14', 'nothing-restored', '%s: revision %s was backed up' % (r, mon.chain[done[r]].id[:12]))
        return
    if h not in mon.by_id: return k.violate('P14', 'foreign-head', '%s: restored head is %r' % (r, h[:80]))
    if index(mon, h) < done.get(r, -1): k.violate('P14', 'stale-head', '%s: restored revision number %d, number %d was backed up before' % (r, index(mon, h), done[r]))
    if exact is not None and h != exact: k.violate('P14', 'other-head', '%s: restored %s, backed up %s' % (r, h[:12], exact[:12]))
    try: ch = store.read_chain(d)
    except (StoreError, KeyError, TypeError, ValueError) as e:
        return k.violate('P14', 'restored-incomplete', '%s: restore succeeded: %s' % (r, e))
    want = [x.id for x in reversed(mon.chain[:index(mon, h) + 1])]
    if [x.id for x in ch] != want: k.violate('P14', 'history-differs', '%s: restored %s, is %s' % (r, [x.id[:8] for x in ch], [x[:8] for x in want]))
    for x in ch:
        if x.tree != mon.by_id[x.id].tree: k.violate('P14', 'tree-differs', '%s: %s' % (r, x.id[:8]))


def half(s):
    """a restore failed: what it left must not pass for a complete repository"""
    k = s.k; w = s.w
    if not s.f['verify']: return
    left = [r for r in s.w.repos if store.list_objects(place(s, r)) or fsim.real_isfile(place(s, r) + '/head')]
    if not left: return
    res = verify(s, left)
    for r in left:
        if res.get(r) != 'sound': continue
        k.probe('half_restore_sound')
        try: ch = store.read_chain(place(s, r))
        except (StoreError, KeyError, TypeError, ValueError) as e: k.violate('P14', 'half-restored-passes', '%s: %s' % (r, e)); continue
        if not ch and store.list_objects(place(s, r)): k.violate('P14', 'half-restored-passes', '%s: no head' % r)


def verify(s, repos):
    k = s.k; w = s.w
    c = {'repositories': {r: {'path': place(s, r)} for r in repos}, 'users': {}}
    fn = w.dir + '/verify.json'
    with fsim.real.open(fn, 'w') as f: json.dump(c, f)
    on = k.faults_on; k.faults_on = False
    s.nt += 1
    p = w.start_tool(['verify'], conf=fn, name='tool%d-verify' % s.nt)
    k.wait_proc(p, 20000.0)
    k.faults_on = on
    from .srv import verdicts
    return verdicts(''.join(p.out))


# ---------------------------------------------------------------------- the run
def main(k, w, plan, s):
    k.faults_on = False
    w.start_server()
    for st in plan['steps']: commit(s, st)
    k.faults_on = True
    threads = []
    for i, a in enumerate(plan['actors']):
        pr = k.new_proc('user%d' % i, 'actor', w.dir)
        threads.append(k.spawn(pr, User(s, i, a).go))
    for t in threads: k.wait_thread(t, 500000)
    if any(t.state != 'done' for t in threads): pass
    w.quiet()
    k.sleep(330)
    # everything is well again: one more revision, a backup, a restore into an empty place
    commit(s, {'repo': next((r for r in s.backed if r not in s.empty), s.backed[0]), 'ops': [['put', '/plain-name-final', 3]], 'end': 'commit'})
    heads = {r: w.monitors[r].head for r in w.repos}
    if s.running: k.violate('P14', 'tool-still-running', str(s.running)); return
    if not tool(s, {'what': 'backup'}, True): return
    if not tool(s, {'what': 'restore'}, True): return
    for r in s.backed: restored(s, r, s.done, heads[r])
    res = verify(s, [r for r in s.backed if heads[r] != 'root'])
    for r, v in res.items():
        if v != 'sound': k.violate('P14', 'restored-unsound', '%s: verify says %s' % (r, v))
    for r in w.repos:
        if r not in s.backed and s.s3.keys(r + '/'): k.violate('P14', 'uploaded-unasked', '%s is not to be backed up, there is %s' % (r, s.s3.keys(r + '/')[:3]))
        w.monitors[r].final_check()
    # a second backup has nothing to send
    # damage on the remote
    for d in plan['ops']:
        undo = damage(s, d)
        if undo is None: continue
        k.probe('damage_' + d['how'])
        empty_place(s)
        s.nt += 1
        p = w.start_tool(['restore'], name='tool%d-restore' % s.nt)
        if not k.wait_proc(p, 200000.0): k.violate('P14', 'restore-does-not-end', undo[0]); k.kill(p, 'operator')
        good = p.exc is None or isinstance(p.exc, SystemExit) and p.exc.code in (None, 0)
        k.log('damaged %s; restore -> %s %s' % (undo[0], type(p.exc).__name__, str(p.exc)[:100]))
        if good:
            n = len(k.violations)
            for r in s.backed: restored(s, r, s.done, heads[r])
            if len(k.violations) > n: k.violate('P14', 'damage-not-noticed', 'restore succeeded although remote object was damaged: %s' % undo[0])
        undo[1]()


def damage(s, d):
    s3 = s.s3; how = d['how']
    if how == 'password':
        c = s.w.extra_conf['crypto']; old = c['crypt_password']; c['crypt_password'] = 'another password'
        def undo(): c['crypt_password'] = old
        return 'password changed', undo
    keys = [x for x in s3.keys() if '/' in x and not x.split('/')[1] == 'commits' and (d['kind'] == 'any' or x.split('/')[1] == d['kind'])]
    if not keys: return None
    key = keys[d['pick'] % len(keys)]; b = s3.get(key); saved = {key: list(s3.objs[key])}
    n = d['pos'] % max(1, len(b)); text = '%s of %s' % (how, key)
    if how == 'remove': new = None
    elif how == 'trunc': new = b[:n]
    elif how == 'empty': new = b''
    elif how == 'extend': new = b + b[-1:]
    elif how == 'chunk':       # whole parts are missing at the end
        hl = 4 + int.from_bytes(b[:4], 'big') + 24; c = s.f['chunk'] + 17
        parts = (len(b) - hl + c - 1) // c
        new = b[:hl + c * (d['pos'] % max(1, parts))]
        if new == b: return None
        text += ', %d of %d parts left' % (d['pos'] % max(1, parts), parts)
    elif how == 'flip': new = b[:n] + bytes([b[n] ^ (1 << d['pos'] % 8)]) + b[n + 1:]
    else:
        others = [x for x in keys if x != key and x.split('/')[0] == key.split('/')[0]]
        if not others: return None
        x = others[d['pos'] % len(others)]; saved[x] = list(s3.objs[x])
        new = s3.get(x); s3.set(x, b); text += ' and ' + x
    s3.set(key, new)
    def undo():
        for x, v in saved.items(): s3.objs[x] = v
    return text, undo


def on_stop(k, w, plan, s, reason):
    if reason == 'steps': k.violate('P14', 'livelock', 'no end after %d operations' % k.steps)
    elif reason == 'deadlock': k.violate('P14', 'deadlock', 'nothing can happen any more')

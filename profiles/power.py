"""Power failures of the server's machine while users commit: every process of the server dies at once and what
was not forced to stable storage may be lost, cut or zeroed.

Oracle: after each failure head names a revision that was the head before, every object from it to the first
revision is there under its digest, and every acknowledged commit is among them.  The same must be true of
everything committed afterwards, also by users who resume what the failure interrupted."""
import json
from sim import kernel as kn, fsim, store, world, power
from sim.world import Raw, Lost
from sim.store import sha, StoreError
from .common import content, net_cfg, sched_cfg

MAX_STEPS = 120_000
ESCAPE_PROPS = ()
PATHS = ['/a', '/b', '/d/a', '/d/b', '/d/e/f', '/\u00fc/x', '/g/h/i/j']
MIRROR = ('head-incomplete', 'head-object-damaged', 'object-damaged', 'final-unreadable', 'final-chain', 'head-lost')


def gen(rng, o):
    cfg = sched_cfg(rng)
    cfg['net'] = net_cfg(rng, False); cfg['budget'] = {}
    cfg['crash'] = {'server': rng.choice([0.002, 0.01, 0.03])}; cfg['budget']['crash:server'] = rng.randint(1, 4)
    if rng.random() < 0.15:
        cfg['err'] = {'server': {c: 0.004 for c in ('mut', 'db') if rng.random() < 0.6}}; cfg['budget']['err:server'] = rng.randint(1, 2)
    ports = [8090] if rng.random() < 0.8 else [8090, 8091]
    actors = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        steps = []
        for _ in range(rng.randint(1, 6)):
            ops = []
            for _ in range(rng.randint(1, 4)):
                if rng.random() < 0.8: ops.append(['put', rng.choice(PATHS), rng.randrange(9)])
                else: ops.append(['del', rng.choice(PATHS)])
            steps.append({'t': 'commit', 'ops': ops, 'end': rng.choice(['commit'] * 6 + ['abort', 'drop']), 'sleep': rng.choice([0, 0, 0.05, 1.0]), 'tries': rng.choice([1, 2, 3]),
                          'doom': [rng.choice(['end', 'end', 'end', 'ops', 'begin', 'ack']), rng.randint(1, rng.choice([6, 25, 70]))] if rng.random() < 0.45 else None})
        actors.append({'user': rng.choice(['ann', 'bob', 'cat']), 'port': rng.choice(ports), 'steps': steps})
    return {'cfg': cfg, 'fixed': {'ports': ports, 'override': rng.random() < 0.15, 'model': rng.choice(['ordered', 'strict']), 'pre': rng.randint(0, 2)}, 'actors': actors}


class S: pass


def setup(k, w, plan):
    s = S(); s.k = k; s.w = w; s.plan = plan; f = plan['fixed']
    s.base = w.add_repo('r0', override=f['override']); s.mon = w.monitors['r0']
    s.acked = []; s.n = 0; s.lost = 0
    s.summary = lambda: {'power_failures': s.pw.cuts if s.pw else 0, 'model': f['model'], 'revisions': len(s.mon.chain), 'acknowledged': len(s.acked), 'revisions_lost_unacknowledged': s.lost}
    s.nontrivial = False; s.pw = None
    v = k.violate
    def violate(prop, kind, detail):
        v(prop, kind, detail)
        if prop in ('P01', 'P02') and kind in MIRROR and s.pw is not None and s.pw.cuts: v('P20', kind, detail)
    k.violate = violate
    return s


def judge(s):
    k = s.k; mon = s.mon; s.nontrivial = True
    h = store.head_of(s.base)
    ids = [r.id for r in mon.chain]
    if h != 'root' and h not in ids:
        k.violate('P20', 'head-damaged', 'after the power failure head is %r' % h[:80]); s.dead = True
        return mon_reset(s, [])
    n = ids.index(h) + 1 if h != 'root' else 0
    for a in s.acked:
        if a in ids and ids.index(a) >= n: k.violate('P20', 'acknowledged-commit-lost', 'revision %s (number %d) was acknowledged, after the power failure head is number %d' % (a[:10], ids.index(a) + 1, n)); break
    try: store.read_chain(s.base)
    except (StoreError, KeyError, TypeError, ValueError) as e: k.violate('P20', 'revision-damaged', 'after the power failure, head number %d of %d: %s' % (n, len(ids), e))
    s.lost += len(ids) - n
    if len(ids) > n: k.probe('unacknowledged_revision_lost')
    mon_reset(s, mon.chain[:n])


def mon_reset(s, chain):
    m = s.mon
    m.chain = list(chain); m.by_id = {r.id: r for r in chain}; m.head = chain[-1].id if chain else 'root'
    m.objs = set()
    for r in chain: m.objs |= r.objs


class User:
    def __init__(self, s, i, spec):
        self.s = s; self.k = s.k; self.spec = spec
        self.raw = Raw(s.w, 'r0', spec['user'], spec['port']); self.raw.host = '10.0.0.%d' % i

    def go(self):
        for st in self.spec['steps']:
            if st['sleep']: self.k.sleep(st['sleep'])
            for n in range(st['tries']):
                try:
                    if self.commit(st, n): break
                except Lost: self.raw.close()
        self.raw.close()

    def doom(self, st, when, n):
        d = st.get('doom')
        if d and d[0] == when and n == 0 and self.k.faults_on:
            p = self.s.w.live_server(self.spec['port'])
            if p is not None: self.k.doom[p] = d[1]

    def commit(self, st, n):
        k = self.k; s = self.s; u = self.raw
        if u.s is None:
            u.tokens = {}
            for _ in range(4):
                try: u.connect(); break
                except Lost: s.w.ensure_server(self.spec['port'])
            else: return True
        if 'r0' not in u.tokens and u.login().get('status') != 'ok': u.close(); return False
        for _ in range(4):
            self.doom(st, 'begin', n)
            hd, b = u.req('list_files', {'show_head': '1', 'version_id': ''})
            base = hd.get('version_id', 'root') if hd.get('status') == 'ok' else 'root'
            hd, b = u.begin(base)
            if hd.get('status') == 'ok': break
            k.sleep(0.3)
        else: return False
        told = {t['path']: t['hash'] for t in json.loads(b)['partial_commit']}
        if told: k.probe('resume')
        tree = set(s.mon.by_id[base].tree) if base in s.mon.by_id else set()
        self.doom(st, 'ops', n)
        ok = True
        for op in st['ops']:
            if op[0] == 'put':
                d = content(op[2])
                if told.get(op[1]) == sha(d): k.probe('upload_skipped'); continue
                hd, b = u.push(op[1], d)
            elif op[1] in tree and not any(x[0] == 'put' and x[1] == op[1] for x in st['ops']): hd, b = u.delete([op[1]])
            else: continue
            ok = ok and hd.get('status') == 'ok'
        if st['end'] == 'drop': u.close(); return True
        s.n += 1
        self.doom(st, 'end', n)
        hd, b = u.finish('commit' if ok and st['end'] == 'commit' else 'abort', 'm%d' % s.n)
        if hd.get('status') == 'ok' and hd.get('head', 'root') != 'root' and ok and st['end'] == 'commit': s.acked.append(hd['head']); k.probe('acknowledged')
        self.doom(st, 'ack', n)
        return True


def main(k, w, plan, s):
    f = plan['fixed']
    k.faults_on = False
    s.pw = power.Power(k, [s.base], f['model']); s.pw.on_cut.append(lambda: judge(s))
    for p in f['ports']: w.start_server(p)
    pre = User(s, 99, {'user': 'ann', 'port': 8090, 'steps': [{'t': 'commit', 'ops': [['put', PATHS[i], i], ['put', PATHS[i + 2], i + 1]], 'end': 'commit', 'sleep': 0, 'tries': 1} for i in range(f['pre'])]})
    pre.go()
    k.faults_on = True
    ts = []
    for i, a in enumerate(plan['actors']): ts.append(k.spawn(k.new_proc('user%d' % i, 'actor', w.dir), User(s, i, a).go))
    for t in ts: k.wait_thread(t, 50000)
    w.quiet()
    k.sleep(330)
    for p in f['ports']: w.ensure_server(p)
    u = User(s, 50, {'user': 'cat', 'port': f['ports'][-1], 'steps': []})
    n = len(s.acked)
    for i in range(4):
        try: u.commit({'ops': [['put', '/final', 5]] + [['put', x, j] for j, x in enumerate(PATHS)], 'end': 'commit'}, 1)
        except Lost: u.raw.close()
        if len(s.acked) > n: break
        k.sleep(2)
    else: k.violate('P20', 'cannot-commit', 'committing is not possible after the last power failure')
    u.raw.close()
    s.mon.final_check()
    ids = [r.id for r in s.mon.chain]
    for a in s.acked:
        if a not in ids: k.violate('P20', 'acknowledged-commit-lost', a)
    k.sleep(5)


def on_stop(k, w, plan, s, reason):
    if reason in ('steps', 'deadlock'): k.violate('P20', 'no-end', reason)

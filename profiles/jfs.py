"""Journalled file transactions: processes run programs of put/move/delete through journaling_filesystem and
client_filesystem_interface; they die, are interrupted or get I/O errors at any operation, also while the next
process recovers.

Oracle: the directory as it was before the transaction (contents and times), and as the program would leave it.
After every recovery it must be exactly one of the two: the former unless commit had begun."""
import errno, sqlite3, json
from sim import kernel as kn, fsim, store, world, env, dbsim
from sim.kernel import SimKilled
from .common import sched_cfg, content

MAX_STEPS = 60_000
ESCAPE_PROPS = ('P09',)
FILES = ['/a', '/b', '/c c', '/d/a', '/d/b', '/d/x/a', '/e/\u00fc', '/e/tmp_1', '/.bk_idx', '/e/back', '/1_a']


def gen(rng, o):
    cfg = {'p_switch': 0.0, 'p_pick': 0.0, 'bufsize': rng.choice([8192, 512]), 'budget': {}, 'p_short_write': rng.choice([0.0, 0.2])}
    kinds = [x for x in ('crash', 'err', 'intr') if rng.random() < 0.5]
    if not kinds and rng.random() < 0.9: kinds = ['crash']
    if 'crash' in kinds: cfg['crash'] = {'cli': rng.choice([0.003, 0.01, 0.04])}; cfg['budget']['crash:cli'] = rng.randint(1, 8)
    if 'intr' in kinds: cfg['interrupt'] = {'cli': rng.choice([0.003, 0.02])}; cfg['budget']['interrupt:cli'] = rng.randint(1, 4)
    if 'err' in kinds: cfg['err'] = {'cli': {c: rng.choice([0.003, 0.015]) for c in ('mut', 'db', 'read') if rng.random() < 0.6}}; cfg['budget']['err:cli'] = rng.randint(1, 6)
    txs = []
    for _ in range(rng.randint(1, 9)):
        r = rng.random()
        files = rng.sample(FILES, rng.randint(2, 5)) if rng.random() < 0.6 else FILES
        def op():
            x = rng.random()
            if x < 0.45: return ['put', rng.choice(files), rng.randrange(14), rng.random() < 0.4]
            if x < 0.75: return ['move', rng.choice(files), rng.choice(files)]
            return ['del', rng.choice(files)]
        if r < 0.6: t = {'kind': 'jfs', 'ops': [op() for _ in range(rng.randint(1, 6))], 'end': rng.choice(['commit', 'commit', 'commit', 'rollback', 'raise', 'die', 'again'])}
        elif r < 0.9: t = {'kind': 'cfi', 'ops': [op()], 'end': 'commit'}
        else: t = {'kind': 'user', 'ops': [op() for _ in range(rng.randint(1, 3))], 'end': None}
        if 'crash' in kinds and rng.random() < 0.5: t['doom'] = rng.randint(1, rng.choice([15, 40, 90]))
        if 'crash' in kinds and rng.random() < 0.3: t['doom2'] = rng.randint(1, 40)
        if 'crash' in kinds and rng.random() < 0.35: t['doomc'] = rng.randint(1, rng.choice([3, 8]))
        if 'crash' in kinds and rng.random() < 0.35: t['doomo'] = [rng.choice([0, 0, 1, 2]), rng.randint(1, rng.choice([4, 9]))]
        txs.append(t)
    return {'cfg': cfg, 'fixed': {'pre': [[f, rng.randrange(14)] for f in FILES if rng.random() < 0.5], 'mkdirs': rng.random() < 0.8}, 'txs': txs}


class S: pass
class Planned(Exception): pass


def setup(k, w, plan):
    s = S(); s.k = k; s.w = w; s.plan = plan
    s.d = w.dir + '/wc/d'
    s.pre = {}; s.posts = []; s.manp = {}; s.manposts = []
    s.at = 0; s.phase = 'idle'; s.cur = None; s.commits = 0; s.rolled = 0
    s.summary = lambda: {'transactions': len(plan['txs']), 'committed': s.commits, 'undone': s.rolled}
    s.nontrivial = False
    return s


def put(s, path, data):
    real = fsim.real; f = s.d + path
    real.os_makedirs(f.rpartition('/')[0], exist_ok=True)
    with real.open(f, 'wb') as h: h.write(data)
    fsim.stamp(s.k, f)


def tree(s):
    """{path: (digest, mtime ns)} of everything outside .bvn"""
    out = {}
    for p, b in world.read_tree(s.d).items():
        out[p] = (store.sha(b), fsim.real.os_stat(s.d + p).st_mtime_ns)
    return out


def manifest(s):
    try: fsim.real.os_stat(s.d + '/.bvn/manifest.db')
    except OSError: return {}
    con = dbsim.real_connect(s.d + '/.bvn/manifest.db')
    try: return {r[0]: (r[1], r[2]) for r in sqlite3.Connection.execute(con, 'select path, last_mod, server_file_hash from files').fetchall()}
    except sqlite3.OperationalError: return {}      # the tables have not been made yet
    finally: con.close()


def apply(t, op):
    """what the operation leaves, None if it must be refused.  mtime None: whatever it is then"""
    t = dict(t)
    if op[0] == 'put': t[op[1]] = (store.sha(content(op[2])), None)
    elif op[0] == 'move':
        if op[1] not in t or op[1] == op[2]: return None
        t[op[2]] = t.pop(op[1])
    else:
        if op[1] not in t: return None
        del t[op[1]]
    return t


def same(got, want):
    return set(got) == set(want) and all(got[p][0] == want[p][0] and want[p][1] in (None, got[p][1]) for p in want)


def differ(got, want):
    out = []
    for p in sorted(set(got) | set(want)):
        g = got.get(p); x = want.get(p)
        if g is None: out.append('%s is missing' % p)
        elif x is None: out.append('%s is there' % p)
        elif g[0] != x[0]: out.append('%s has other content' % p)
        elif x[1] not in (None, g[1]): out.append('%s has another time' % p)
    return ', '.join(out[:4])


def judge(s, where):
    """the journal has been dealt with (called while the process stands still)"""
    k = s.k
    got = tree(s); man = manifest(s)
    if s.phase == 'committed': allowed = [('after', s.post, s.manpost)]
    elif s.phase == 'committing': allowed = [('before', s.pre, s.manpre), ('after', s.post, s.manpost)]
    else: allowed = [('before', s.pre, s.manpre)]
    for name, t, m in allowed:
        if same(got, t) and (m is None or man_ok(man, m)): break
    else:
        name, t, m = allowed[0]
        if len(allowed) == 2 and (same(got, allowed[1][1])): name, t, m = allowed[1]
        det = differ(got, t) or 'manifest: %s, should be %s' % (man, m)
        kind = 'committed-lost' if s.phase == 'committed' else 'neither' if s.phase == 'committing' else 'not-undone'
        k.violate('P09', kind, 'transaction %d %s, %s: compared with %s it: %s' % (s.at, json.dumps(s.cur), where, name, det))
    if s.cur is not None:
        if name == 'after': s.commits += 1
        else: s.rolled += 1
    s.pre = got; s.manpre = man; s.phase = 'idle'; s.cur = None


def man_ok(got, want):
    return set(got) == set(want) and all(want[p] is None or want[p] == got[p] for p in want)


def worker(s, p, limit):
    """body of a simulated process: recovers like the client does, then goes on with the programs"""
    k = s.k
    cdbm = env.load_module(p, 'bversion.storage.client_db'); jm = env.load_module(p, 'bversion.storage.journaling_filesystem')
    cm = env.load_module(p, 'bversion.storage.client_filesystem_interface')
    cdb = cdbm.client_db(s.d + '/.bvn/manifest.db')
    j = jm.journaling_filesystem(cdb, s.d, '.bvn')
    c = cm.client_filesystem_interface(cdb, j)
    if cdb.get_fs_journal() != []:
        k.probe('recovery')
        j.rollback()
    judge(s, 'after recovery by %s' % p.name)
    while s.at < limit:
        t = s.plan['txs'][s.at]; s.at += 1
        if t['kind'] == 'user':
            for op in t['ops']:
                n = apply(s.pre, op)
                if n is None: continue
                if op[0] == 'put': put(s, op[1], content(op[2]))
                elif op[0] == 'move': fsim.real.os_makedirs((s.d + op[2]).rpartition('/')[0], exist_ok=True); fsim.real.os_rename(s.d + op[1], s.d + op[2])
                else: fsim.real.os_remove(s.d + op[1])
                s.pre = tree(s)
            continue
        if t.get('doom') and k.faults_on: k.doom[p] = t['doom']
        s.nontrivial = True
        tx(s, p, c, j, cdb, t)


def tx(s, p, c, j, cdb, t):
    k = s.k
    cur = s.pre; s.cur = t; s.manpost = None; s.post = s.pre
    for op in t['ops']:
        if op[0] != 'del': fsim.real.os_makedirs((s.d + op[2 if op[0] == 'move' else 1]).rpartition('/')[0], exist_ok=True)
    refuse = False
    for op in t['ops']:
        n = apply(cur, op)
        if n is None:
            refuse = True
            break
        cur = n
    def data(op):
        b = content(op[2])
        if not op[3]: return b
        def write(path):        # as a download: in pieces
            with open_(p, path, 'wb') as h:
                for i in range(0, len(b), 3000): h.write(b[i:i + 3000])
        return write
    if t['kind'] == 'cfi':
        s.post = cur; s.phase = 'open' if refuse else 'committing'
        m = dict(s.manpre); op = t['ops'][0]
        if not refuse:
            if op[0] == 'put': m[op[1]] = None
            elif op[0] == 'move': m.pop(op[1], None); m[op[2]] = None
            else: m.pop(op[1], None)
        if op[0] == 'move' and op[1] not in s.manpre: s.phase = 'open'; refuse = True
        s.manpost = m
        try:
            if op[0] == 'put': c.fs_put(op[1], data(op), {'server_file_hash': 'h%d' % op[2]})
            elif op[0] == 'move': c.fs_move(op[1], op[2])
            else: c.fs_delete(op[1])
        except SimKilled: raise
        except BaseException as e:
            # the call undid it, unless that failed as well
            if not refuse and not p.tag.get('errs') and not p.interrupted: k.violate('P09', 'refused', '%s: %s %s' % (t, type(e).__name__, e))
            if cdb_journal(s) == []:
                if j.active_transaction: k.probe('still_active')
                judge(s, 'after the error %s' % type(e).__name__); return
            raise
        if refuse: k.violate('P09', 'not-refused', json.dumps(t))
        s.phase = 'committed'
        judge(s, 'after it returned')
        return
    # ---- several operations
    s.phase = 'open'
    try:
        j.begin()
        for i, op in enumerate(t['ops']):
            if k.faults_on and t.get('doomo') and t['doomo'][0] == i: k.doom[p] = t['doomo'][1]
            if op[0] == 'put': j.file_put_contents(op[1], data(op))
            elif op[0] == 'move': j.move_file(op[1], op[2])
            else: j.delete_file(op[1])
        if refuse: k.violate('P09', 'not-refused', json.dumps(t))
        if t['end'] == 'again':
            try: j.begin()
            except SimKilled: raise
            except Exception: pass
        if t['end'] == 'die':
            k.stat('fault.kill.planned'); k.kill(p, 'planned')
        if t['end'] in ('raise', 'again'): raise Planned()
        if t['end'] == 'rollback':
            if t.get('doom2') and k.faults_on: k.doom[p] = t['doom2']
            j.rollback()
        else:
            s.post = cur; s.phase = 'committing'
            if k.faults_on and t.get('doomc'): k.doom[p] = t['doomc']
            j.commit()
            s.phase = 'committed'
    except SimKilled: raise
    except BaseException as e:
        if not isinstance(e, Planned) and not refuse and not p.tag.get('errs') and not p.interrupted:
            k.violate('P09', 'refused', '%s: %s %s' % (t, type(e).__name__, e))
        if t.get('doom2') and k.faults_on: k.doom[p] = t['doom2']
        j.rollback()
        judge(s, 'after undoing (%s)' % type(e).__name__)
        if p.interrupted and isinstance(e, KeyboardInterrupt): raise
        return
    judge(s, 'after it returned')


def open_(p, path, mode):
    return p.tag['builtins']['open'](path, mode)


def cdb_journal(s):
    con = dbsim.real_connect(s.d + '/.bvn/manifest.db')
    try: return sqlite3.Connection.execute(con, 'select data from journal').fetchall()
    except sqlite3.OperationalError: return None      # locked: the transaction is not over
    finally: con.close()


def main(k, w, plan, s):
    real = fsim.real
    real.os_makedirs(s.d + '/.bvn', exist_ok=True)
    for f, n in plan['fixed']['pre']: put(s, f, content(n))
    s.pre = tree(s); s.manpre = {}
    runs = 0
    while True:
        runs += 1
        last = runs > 40 or s.at >= len(plan['txs'])
        if last: w.quiet()
        p = k.new_proc('proc%d' % runs, 'cli', s.d)
        p.write_roots = [s.d]
        p.tag['builtins'] = p.tag.get('builtins') or env.make_builtins()
        k.spawn(p, worker, (s, p, len(plan['txs'])))
        if not k.wait_proc(p, 100000.0): k.violate('P09', 'does-not-end', 'process %d' % runs); return
        if last:
            if p.exc is not None: k.violate('P09', 'recovery-failed', '%s: %s\n%s' % (type(p.exc).__name__, p.exc, (p.tb or '')[-600:]))
            elif s.cur is not None: k.violate('P09', 'unjudged', str(s.cur))
            break
        if p.exc is not None and not p.tag.get('errs') and not p.interrupted and not isinstance(p.exc, KeyboardInterrupt):
            k.violate('P09', 'recovery-failed', 'without any fault: %s: %s\n%s' % (type(p.exc).__name__, p.exc, (p.tb or '')[-600:]))
    if cdb_journal(s): k.violate('P09', 'journal-left', str(cdb_journal(s)))


def on_stop(k, w, plan, s, reason):
    if reason in ('steps', 'deadlock'): k.violate('P09', 'no-end', reason)

"""Whole-system profile: real `bvn` commands in several working copies against a real `bvn_server`, with users editing
files, commands killed, interrupted and failing, server crashes, lost connections.

Reference model per working copy: a small set of possible client states (base revision, and per file the version it was
last in step with).  User edits move it exactly; a disturbed command leaves several possibilities; every later
observation (disk contents, status output, conflict prompts, published revisions) must agree with at least one."""
import json, re, os, fnmatch
from sim import kernel as kn, fsim, store, world
from sim.fsim import real
from sim.store import sha
from .common import content, net_cfg, sched_cfg, diff, short

MAX_STEPS = 900_000
ESCAPE_PROPS = ('P08', 'P19')
USERS = ['ann', 'bob', 'cat']
PLAIN = ['/a', '/b.txt', '/d/a', '/d/b', '/d/e/f', '/d.x', '/e/a']
ODD = ['/sp ace/x y', '/\u00fcml/\u00e9', '/z:1', '/ lead', '/trail ', '/q"\'$&', '/100%', '/back\\slash', '/-dash', '/[x]', '/st*r', '/.hidden', '/.bvnx/y', '/' + 'n' * 120,
       '/\U0001f600', '/new : x', '/Path:  p', '/tab\tx', '/cafe\u0301', '/~t', '/#h', '/files/ab', '/head', '/ls\u2028y', '/nel\u0085x', '/d/ /x', '/------------', '/client', '/.bvn_ignored', '/ ']
CLASH = ['/k', '/k/a', '/k/b/c', '/k/b']
STEPS = {'edit': 30, 'commit': 22, 'update': 20, 'status': 6, 'revert': 5, 'pi': 2, 'hand': 3, 'list': 3, 'overlap': 2, 'sleep': 1}
FOCUS = {None: {}, 'commit': {'commit': 34, 'edit': 34, 'update': 16, 'pi': 0, 'hand': 1, 'revert': 1}, 'update': {'update': 34, 'commit': 26, 'revert': 1, 'pi': 1, 'hand': 1},
         'conflict': {'edit': 36, 'commit': 24, 'update': 34, 'revert': 0, 'pi': 0, 'hand': 0}, 'filter': {'pi': 9, 'hand': 12, 'update': 24, 'status': 6},
         'revert': {'revert': 26}, 'crash': {'update': 24, 'revert': 6, 'overlap': 6}}


DOOMS = {'commit': ('commit',), 'unlink': ('unlink',), 'rename': ('rename',), 'rmdir': ('rmdir', 'unlink'), 'db': ('db',), 'write': ('write',), 'new': ('mkdir', 'open-w'), 'send': ('send',), 'recv': ('recv',)}

ERRS = {'unlink': ('unlink',), 'rename': ('rename',), 'dir': ('rmdir', 'mkdir'), 'db': ('db', 'commit'), 'commit': ('commit',), 'write': ('write',), 'new': ('open-w',), 'open': ('open',), 'read': ('read', 'listdir'), 'mut': ('unlink', 'rename', 'rmdir', 'utime', 'write', 'open-w', 'mkdir')}


def gen_err(rng):
    n = rng.choice(list(ERRS) + ['rename', 'rename', 'dir', 'db'])
    return [n, rng.randint(1, rng.choice([2, 5, 10])) + 2 * (n == 'rename'), 'EIO' if n in ('open', 'read') else rng.choice(['EIO', 'ENOSPC']), rng.choice([0, 0, 0, 2, 30])]


def gen_mid(rng, nwc, paths, focus):
    """a file changes at one of the operations a commit does on it"""
    out = []; a = rng.randrange(nwc); b = (a + 1) % nwc
    ps = rng.sample(paths, min(len(paths), rng.choice([1, 2, 3])))
    def step(i, t, **kw):
        st = gen_step(rng, t, i, ps, focus); st.update(kw); out.append(st)
    step(a, 'update', ans='client', tries=2)
    for _ in range(rng.choice([1, 2])):
        step(a, 'edit', ops=[['put', p, rng.randrange(16)] for p in ps])
        p = rng.choice(ps)
        step(a, 'commit', mid=[[['at', rng.randint(1, 8)]] + rng.choice([['put', p, rng.randrange(16)], ['put', p, rng.randrange(16)], ['put', p, rng.randrange(16), 'earlier'], ['rm', p, True], ['touch', p]])], tries=1)
        if rng.random() < 0.5: step(a, rng.choice(['status', 'update']))
        if rng.random() < 0.7: step(a, 'commit', mid=[], tries=2)
        if rng.random() < 0.5: step(b, 'update', ans='server', tries=2)
    return out


def gen_resumed(rng, i, paths, focus):
    """a commit of several files is cut short and parts of it are undone before the next one"""
    ps = rng.sample(paths, min(len(paths), rng.randint(3, 5))); out = []
    def step(t, **kw):
        st = gen_step(rng, t, i, ps, focus); st.update(kw); out.append(st)
    fresh = rng.random() < 0.5
    if fresh: step('update', ans='client', tries=2); step('edit', ops=[['rm', p, True] for p in ps]); step('commit', mid=[], tries=2)
    elif rng.random() < 0.5: step('edit', ops=[['put', p, rng.randrange(16)] for p in ps if rng.random() < 0.6]); step('commit', mid=[], tries=2)
    step('edit', ops=[['put', p, rng.randrange(16)] if fresh or rng.random() < 0.75 else ['rm', p, True] for p in ps])
    how = rng.choice(['crash', 'crash', 'serr', 'cerr'])
    x = {'crash': {'doom': [rng.choice(['send', 'send', 'recv', 'commit']), rng.randint(8, 15) if fresh or rng.random() < 0.5 else rng.randint(4, 14), 0]}, 'serr': {'serr': gen_err(rng)}, 'cerr': {'cerr': gen_err(rng)}}[how]
    step('commit', mid=[], tries=1, **x)
    for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < 0.4: step('revert', v='base', all=rng.random() < 0.2, ans='yes', tries=1)
        else: step('edit', ops=[['rm', p, True] if fresh or rng.random() < 0.5 else ['put', p, rng.randrange(16)] for p in rng.sample(ps, rng.choice([1, 1, 2]))])
    step('commit', mid=[], tries=2)
    return out


def gen(rng, o):
    focus = o.get('focus')
    cfg = sched_cfg(rng); cfg['budget'] = {}
    kinds = []
    if rng.random() < o.get('p_faulty', 0.75):
        kinds = [x for x in ('crash', 'intr', 'err', 'net', 'srv', 'plan') if rng.random() < 0.4] or ['crash']
        kinds = [x for x in kinds if x not in o.get('no', ())]
    cfg['net'] = net_cfg(rng, 'net' in kinds)
    b = cfg['budget']
    if 'net' in kinds: b.update(reset=rng.randint(1, 3), hole=rng.randint(0, 1))
    if 'crash' in kinds: cfg['crash'] = {'cli': rng.choice([0.002, 0.008, 0.03])}; b['crash:cli'] = rng.randint(1, 5)
    if 'intr' in kinds: cfg['interrupt'] = {'cli': rng.choice([0.002, 0.01])}; b['interrupt:cli'] = rng.randint(1, 3)
    if 'err' in kinds:
        cfg['err'] = {'cli': {c: rng.choice([0.002, 0.01]) for c in ('mut', 'db', 'read') if rng.random() < 0.6}}; b['err:cli'] = rng.randint(1, 3)
    if 'srv' in kinds:
        cfg.setdefault('crash', {})['server'] = rng.choice([0.002, 0.01]); b['crash:server'] = rng.randint(1, 2)
        if rng.random() < 0.4: cfg.setdefault('err', {})['server'] = {'mut': 0.003, 'db': 0.003}; b['err:server'] = rng.randint(1, 2)
    nwc = rng.choice([1, 2, 2, 2, 3]) if focus != 'conflict' else rng.choice([2, 2, 3])
    users = [rng.choice(USERS) for _ in range(nwc)]
    paths = rng.sample(PLAIN, rng.randint(3, 5)) + rng.sample(ODD, rng.choice([0, 0, 1, 2, 3]))
    if rng.random() < 0.3: paths += rng.sample(CLASH, rng.randint(2, 3))
    w = dict(STEPS); w.update(FOCUS[focus]); names = list(w); wts = [w[n] for n in names]
    steps = []
    for _ in range(rng.randint(8, o.get('len', 26))):
        steps.append(gen_step(rng, rng.choices(names, wts)[0], rng.randrange(nwc), paths, focus))
    alone = len(steps)
    if rng.random() < {'commit': 0.25, None: 0.08}.get(focus, 0.04):
        at = rng.randrange(len(steps) + 1); steps[at:at] = gen_resumed(rng, rng.randrange(nwc), paths, focus)
    if rng.random() < {'commit': 0.4, None: 0.08}.get(focus, 0.04):
        at = rng.randrange(len(steps) + 1); steps[at:at] = gen_mid(rng, nwc, paths, focus)
    if nwc > 1 and rng.random() < {'update': 0.5, 'crash': 0.4, 'commit': 0.05, 'conflict': 0.05, 'filter': 0.05, 'revert': 0.1}.get(focus, 0.15):
        at = rng.randrange(len(steps) + 1); steps[at:at] = gen_flow(rng, nwc, paths, focus)
    if nwc > 1 and rng.random() < {'filter': 0.35, 'update': 0.06}.get(focus, 0.03) and any(len(p.splitlines()) == 1 for p in paths):
        at = rng.randrange(len(steps) + 1); steps[at:at] = gen_filtered(rng, nwc, paths, focus)
    if nwc > 1 and rng.random() < {'conflict': 0.4, 'update': 0.15}.get(focus, 0.06):
        at = rng.randrange(len(steps) + 1); steps[at:at] = gen_duel(rng, nwc, paths, focus)
    if 'crash' in kinds:
        for st in steps:
            if st['t'] in ('commit', 'update', 'revert', 'pi') and rng.random() < o.get('p_doom', 0.12) * (3 if st['t'] == 'pi' else 1):
                st['doom'] = [rng.choice(list(DOOMS)), rng.randint(1, rng.choice([3, 8])), rng.choice([0, 0, 0, 1])]
                if st['doom'][0] == 'rename': st['doom'][1] += 2        # (every command begins with two)
    if 'plan' in kinds:
        for st in steps:
            if st['t'] in ('commit', 'update', 'revert', 'pi') and rng.random() < 0.25: st[rng.choice(['cerr', 'serr'] if st['t'] == 'commit' else ['cerr', 'cerr', 'cerr', 'serr'])] = gen_err(rng)
    wcs = [{'user': u, 'host': '10.0.0.%d' % rng.randint(1, 3), 'checkout': rng.random() < 0.25} for u in users]
    first = [p for i, p in enumerate(paths) if not any(anc(p, q) or anc(q, p) for q in paths[:i])]
    pre = [[['put', p, rng.randrange(12)] for p in first if rng.random() < 0.6] for _ in range(rng.choice([0, 1, 1, 2]))]
    return {'cfg': cfg, 'fixed': {'wcs': wcs, 'paths': paths, 'pre': pre, 'serial': rng.random() < (0.6 if len(steps) == alone else 0.8), 'kinds': kinds, 'final': rng.choice(['server', 'client']), 'override': rng.random() < 0.1},
            'steps': steps}


def gen_flow(rng, nwc, paths, focus):
    """files come and go in one working copy, another follows"""
    a, b = rng.sample(range(nwc), 2); out = []; ps = rng.sample(paths, min(len(paths), rng.randint(2, 4)))
    def step(i, t, **kw):
        st = gen_step(rng, t, i, ps, focus); st.update(kw); out.append(st)
    step(a, 'update', ans='server', f=rng.random() < 0.5); step(a, 'edit', ops=[['put', p, rng.randrange(16)] for p in ps]); step(a, 'commit', mid=[], tries=2); step(b, 'update', ans='server', f=rng.random() < 0.5, tries=2)
    for _ in range(rng.choice([1, 2, 3])):
        step(a, 'edit', ops=[['rm', p, rng.random() < 0.6] if rng.random() < 0.6 else ['put', p, rng.randrange(16)] for p in rng.sample(ps, rng.randint(1, len(ps)))])
        step(a, 'commit', mid=[], tries=2)
        if rng.random() < 0.25: step(b, 'edit', ops=[gen_edit(rng, paths)])
        step(b, 'update', ans=rng.choice(['server', 'client']), f=rng.random() < 0.1, tries=rng.choice([1, 2]))
        if rng.random() < 0.3: a, b = b, a
    return out


def gen_duel(rng, nwc, paths, focus):
    """two working copies change the same few files again and again"""
    a, b = rng.sample(range(nwc), 2); ps = rng.sample(paths, rng.choice([1, 1, 2])); out = []
    def step(i, t, **kw):
        st = gen_step(rng, t, i, ps, focus); st.update(kw); out.append(st)
    step(a, 'update', ans='client'); step(b, 'update', ans='client')
    for _ in range(rng.choice([2, 2, 3])):
        step(a, 'edit'); step(a, 'commit', mid=[], tries=2)
        step(b, 'edit', ops=[['put', rng.choice(ps), rng.randrange(16)] if rng.random() < 0.75 else ['rm', rng.choice(ps), True]])
        step(b, 'update', ans=rng.choice(['manual', 'manual', 'manual', 'client', 'server']), fill=rng.choice(['client', 'client', 'good', 'server']), again=True, tries=2)
        if rng.random() < 0.7: step(b, 'commit', mid=[], tries=2); step(a, 'update')
    return out


def gen_filtered(rng, nwc, paths, focus):
    """files are changed by others while a filter keeps them out, then the filter goes away"""
    a, b = rng.sample(range(nwc), 2); out = []
    ps = rng.sample([p for p in paths if len(p.splitlines()) == 1], rng.choice([1, 2]))
    def step(i, t, **kw):
        st = gen_step(rng, t, i, ps, focus); st.update(kw); out.append(st)
    step(a, 'update', ans='server'); step(a, 'edit', ops=[['put', p, rng.randrange(16)] for p in ps]); step(a, 'commit', mid=[], tries=2)
    step(b, 'update', ans='server', f=False, tries=2)
    if rng.random() < 0.5: step(b, 'hand', what='pull', filters=ps[:1], rm=rng.random() < 0.2)
    else: step(b, 'pi', filters=ps[:1], force=True, ans=rng.choice(['nothing', 'nothing', 'delete']))
    for _ in range(rng.choice([1, 1, 2])):
        step(a, 'edit', ops=[['put', p, rng.randrange(16)] if rng.random() < 0.8 else ['rm', p, True] for p in ps]); step(a, 'commit', mid=[], tries=2)
        if rng.random() < 0.3: step(b, 'edit')
        step(b, 'update', ans=rng.choice(['server', 'client']), f=rng.random() < 0.2, tries=2)
        if rng.random() < 0.3: step(b, 'edit'); step(b, 'commit', mid=[], tries=1)
    step(b, 'hand', what='pull-off')
    if rng.random() < 0.3: step(b, rng.choice(['status', 'edit', 'commit']))
    step(b, 'update', f=rng.random() < 0.8, ans=rng.choice(['server', 'client']), tries=2)
    return out


def gen_edit(rng, paths):
    r = rng.random(); p = rng.choice(paths)
    if r < 0.66: return ['put', p, rng.randrange(16)] + ([rng.choice(['past', 'earlier', 'later', 'future'])] if rng.random() < 0.2 else [])
    if r < 0.92: return ['rm', p, rng.random() < 0.6]
    return ['touch', p]


def gen_filter(rng, paths):
    p = rng.choice([p for p in paths if len(p.splitlines()) == 1])
    return rng.choice([p, p, '/d/*', '*.txt', '/*a', '*' + p[-2:], '/' + p[1:3] + '*', '/ign*'])


def gen_step(rng, t, i, paths, focus):
    st = {'wc': i, 't': t}
    if t == 'edit': st['ops'] = [gen_edit(rng, paths) for _ in range(rng.choice([1, 1, 2, 3]))]
    elif t == 'commit':
        st['mid'] = [[rng.choice([0.0003, 0.002, 0.008, 0.03, 0.15, ['at', rng.randint(1, 9)], ['at', rng.randint(1, 9)]])] + gen_edit(rng, paths) for _ in range(rng.choice([1, 2]))] if rng.random() < 0.25 else []
        st['tries'] = rng.choice([1, 1, 2, 4]); st['m'] = rng.choice(['', '', ' trailing ', 'l1\nl2', '\u00fc: \u2028', 'x' * 3000])
    elif t == 'update':
        st['f'] = rng.random() < (0.35 if focus == 'filter' else 0.15); st['ans'] = rng.choice(['server', 'client', 'manual', 'manual'])
        st['caps'] = rng.random() < 0.1; st['dl'] = rng.choice(['y', 'n']); st['tries'] = rng.choice([1, 1, 2, 4]); st['direct'] = rng.random() < 0.5
        st['fill'] = rng.choice(['good', 'good', 'good', 'server', 'client', 'caps', 'missing', 'blank', 'bad', 'none', 'corrupt']); st['salt'] = rng.randrange(1000); st['again'] = rng.random() < 0.9
    elif t == 'revert':
        st['v'] = rng.choice(['base', 'base', 'base', 'head', rng.randrange(6)]); st['all'] = rng.random() < 0.25
        p = rng.choice(paths)
        st['pats'] = [] if st['all'] else rng.choice([[p], [p], [p, rng.choice(paths)], ['*'], ['/d/*'], ['*a'], ['rel', 'a'], ['/nothing']])
        st['ans'] = rng.choice(['yes', 'yes', 'yes', 'yes', 'YES', 'no', 'No', 'NO']); st['tries'] = rng.choice([1, 2, 3])
    elif t == 'pi':
        st['force'] = rng.random() < 0.5; st['filters'] = [gen_filter(rng, paths) for _ in range(rng.choice([1, 1, 2]))]
        st['ans'] = rng.choice(['delete', 'delete', 'nothing', 'DELETE']); st['tries'] = rng.choice([1, 2, 3])
        if rng.random() < 0.2: st['rel'] = rng.choice([['a'], ['e/*'], ['*a'], ['a', 'e/f']])
    elif t == 'hand':
        st['what'] = rng.choice(['pull', 'pull', 'ign', 'pull-off', 'pull-off', 'ign-off'])
        st['filters'] = [gen_filter(rng, paths) for _ in range(rng.choice([1, 1, 2]))]; st['rm'] = rng.random() < 0.4
    elif t == 'list': st['what'] = rng.choice(['files', 'files-h', 'files-ih', 'files-v', 'changes', 'changes-v', 'versions', 'ignored', 'files-i']); st['n'] = rng.randrange(6)
    elif t == 'overlap': st['a'] = rng.choice(['update', 'commit', 'commit']); st['b'] = rng.choice(['status', 'commit', 'update', 'revert', 'pull-ignore']); st['delay'] = rng.choice([0.0005, 0.003, 0.02, 0.1]); st['ans'] = rng.choice(['server', 'client'])
    elif t == 'sleep': st['s'] = rng.choice([0.5, 60, 4000, 90000])
    if t in ('revert', 'update', 'pi', 'commit') and rng.random() < (0.5 if t == 'revert' else 0.12): st['chk'] = True
    return st


# ---------------------------------------------------------------------- model
def match(pats, p): return any(fnmatch.fnmatch(p, f) for f in pats)


class Snap:
    """what the user sees in a working copy"""
    def __init__(self, d):
        self.h = {}; self.ign = []; self.pull = []
        for p, b in world.read_tree(d).items():
            if b is None: continue
            if p == '/.bvn_pull_ignore': self.pull = b.decode('utf8', 'replace').splitlines(); continue
            if p == '/.bvn_ignore': self.ign = b.decode('utf8', 'replace').splitlines()
            self.h[p] = sha(b)

    def copy(self):
        s = Snap.__new__(Snap); s.h = dict(self.h); s.ign = self.ign; s.pull = self.pull
        return s


class CS:
    """one possible client state.  rows[p] = (hash last in step with, flag): F untouched since, T edited since, ? unknown whether reported"""
    def __init__(self, base='root'): self.base = base; self.rows = {}; self.skip = set(); self.alts = {}; self.S = None; self.fileb = None     # fileb: revision at which the resolution file was asked for

    def at(self, S0):
        """contents of the working copy as of the last certain moment of this history"""
        return self.S if self.alts and self.S is not None else S0

    def copy(self):
        c = CS(self.base); c.rows = dict(self.rows); c.skip = set(self.skip); c.alts = {p: set(a) for p, a in self.alts.items()}; c.S = self.S; c.fileb = self.fileb
        return c

    def key(self): return (tuple(sorted(self.S.h.items())) if self.alts else 0, self.base, self.fileb, tuple(sorted(self.rows.items(), key=str)), tuple(sorted(self.skip)), tuple(sorted((p, tuple(sorted(a, key=str))) for p, a in self.alts.items())))

    def touch(self, p):
        r = self.rows.get(p)
        if r is not None and r[1] == 'F': self.rows[p] = (r[0], 'T')

    def prune(self, S):
        """a scan forgets pull ignored files which are not there"""
        for p in list(self.rows):
            if match(S.pull, p) and p not in S.h: del self.rows[p]; self.skip.add(p)


def reported(cs, S):
    m = {}; o = set()
    for p in set(cs.rows) | set(S.h):
        if match(S.pull, p): continue
        row = cs.rows.get(p)
        if row is not None and row[1] == '?': o.add(p); continue
        if match(S.ign, p):
            if row: m[p] = 'deleted'
        elif p in S.h:
            if row is None: m[p] = 'new'
            elif row[1] == 'F': pass
            elif S.h[p] != row[0]: m[p] = 'changed'
            else: o.add(p)
        elif row: m[p] = 'deleted'
    return m, o


def anc(a, b): return b.startswith(a + '/')


class State:
    nontrivial = False


def setup(k, w, plan):
    s = State(); s.k = k; s.w = w; s.plan = plan
    w.add_repo('r', override=plan['fixed']['override'])
    s.mon = w.monitors['r']; s.recs = {}; s.heads = [(0, s.mon.head)]; s.nmsg = 0
    s.n = dict(commits=0, updates=0, conflicts=0, reverts=0, killed=0, refused=0, cmds=0)
    s.mon.on_rev.append(lambda rev, thr: on_rev(s, rev))
    s.turn = None; s.final = False
    s.summary = lambda: dict(s.n, wcs=[x['user'] for x in plan['fixed']['wcs']], serial=plan['fixed']['serial'], fault_kinds=plan['fixed']['kinds'], steps=len(plan['steps']),
                             revisions=len(s.mon.chain), faults=[list(x) for x in k.fault_log[:6]])
    return s


def tree(s, h): return s.mon.by_id[h].tree if h in s.mon.by_id else {}


def heads_in(s, a, b):
    """every revision that was head at some moment of steps a..b"""
    out = [h for st, h in s.heads if st <= a][-1:]
    return out + [h for st, h in s.heads if a < st <= b]


def touched_between(s, base, H):
    """paths in the change lists of the revisions after base up to H; None if H does not follow base"""
    out = set(); h = H
    while h != base:
        if h == 'root': return None
        r = s.mon.by_id[h]; out |= {c['path'] for c in r.changes}; h = r.parent
    return out


def judge(s, what, results):
    """results: [(errs, x)] for each possible state; keeps those without errors, reports if there is none"""
    good = [x for e, x in results if not e]
    if good: return good
    e, x = min(results, key=lambda r: len(r[0]))
    for props, kind, detail in e[:3]:
        for p in props.split(','): s.k.violate(p, kind, '%s: %s' % (what, detail))
    return [x]


# ---------------------------------------------------------------------- commits
def on_rev(s, rev):
    s.heads.append((s.k.steps, rev.id))
    rec = s.recs.get(rev.msg)
    if rec is None:
        s.k.violate('P04', 'unknown-revision', 'revision with message %r belongs to no commit command' % rev.msg[:40]); return
    if rec['rev'] is not None: s.k.violate('P04', 'published-twice', rev.msg[:40])
    rec['rev'] = rev
    if rev.by != rec['user']: s.k.violate('P02', 'wrong-author', '%r committed by %s recorded as %s' % (rev.msg[:20], rec['user'], rev.by))
    par = tree(s, rev.parent)
    D = None
    if any(c.alts for c in rec['worlds']): D = Snap(rec['wc'].d)
    res = []
    for c0 in rec['worlds']:
        c = c0.copy(); S = c.at(rec['S0']).copy(); errs = []
        if c.alts: errs += collapse(c, S, D)
        errs += commit_errs(c, S, rec, rev, par)
        res.append((errs, (c, S)))
    rec['fit'] = judge(s, 'revision %s by %s' % (rev.id[:8], rec['wc'].name), res)
    s.n['commits'] += 1; s.nontrivial = True


def torn(s, h, versions):
    """the file was written to while it was read: every byte is of one of its versions (it stays reported as changed)"""
    if h is None or len(versions) < 2: return False
    try: b = store.raw_obj(s.w.path('r'), 'files', h)
    except store.StoreError: return False
    if len(b) not in {len(v) for v in versions}: return False
    return all(any(v[i:i + 1] == b[i:i + 1] for v in versions) for i in range(len(b)))


def commit_errs(c, S, rec, rev, par):
    errs = []; mid = rec['mid']
    if rev.parent != c.base: errs.append(('P06,P03', 'committed-from-stale-base', 'parent %s, the working copy was at %s' % (rev.parent[:8], c.base[:8])))
    m, o = reported(c, S)
    for p in sorted(set(S.h) | set(par) | set(rev.tree) | set(mid)):
        old = par.get(p); prop = 'P04'
        row = c.rows.get(p)
        if match(S.pull, p): want = {old}; prop = 'P17'
        elif match(S.ign, p):
            prop = 'P17'; want = {old} if row is None else {None} if row[1] != '?' else {None, old}
        elif p in mid:
            want = set(mid[p]) | {S.h.get(p)} | ({old} if row is None or p in c.skip else set())
            if torn(rec['wc'].s, rev.tree.get(p), rec['midb'].get(p, [])): want.add(rev.tree.get(p))
        elif p in c.skip and p not in m: want = {old} | ({S.h.get(p)} if p in o else set())        # a version from before it was filtered, not changed since
        elif p in S.h: want = {S.h[p]}
        elif row is not None: want = {None} if row[1] != '?' else {None, old}
        else: want = {old}
        if rev.tree.get(p) not in want:
            errs.append((prop, 'tree-differs', '%s is %s in the revision, expected %s (parent %s, working copy %s, in step with %s)' % (p, str(rev.tree.get(p))[:8], [str(x)[:8] for x in want], str(old)[:8], str(S.h.get(p))[:8], row)))
    new, gone = diff(par, rev.tree)
    seen = set()
    for ch in rev.changes:
        p = ch['path']
        if p in seen: errs.append(('P04', 'change-list', '%s twice in the change list' % p)); continue
        seen.add(p)
        if ch['status'] == 'deleted': ok = p in gone
        else: ok = ch['hash'] == rev.tree.get(p) and (new[p] == ch['status'] if p in new else (ch['status'] == 'changed' and (p in m or p in o or p in mid)))
        if not ok: errs.append(('P04', 'change-list', '%s recorded as %s, parent %s, revision %s' % (p, ch['status'], str(par.get(p))[:8], str(rev.tree.get(p))[:8])))
    for p in sorted((set(new) | set(gone)) - seen): errs.append(('P04', 'change-list', '%s changed but is not in the change list' % p))
    return errs


def after_commit(c, S, S1, rec, rev):
    """client state once the commit has been recorded"""
    n = c.copy(); n.alts = {}; n.base = rev.id
    m, o = reported(c, S); sent = {x['path'] for x in rev.changes}
    for p in set(S.h) | set(n.rows) | set(rev.tree) | set(S1.h):
        if match(S.pull, p):
            if p not in S1.h and n.rows.pop(p, None) is not None: n.skip.add(p)
            if p in rec['mid']: n.touch(p)
        elif match(S.ign, p): n.rows.pop(p, None)
        elif p in c.skip and p not in m and p not in sent:
            if p in rec['mid']: n.touch(p)
        elif p in rev.tree and (p in n.rows or p in sent):
            n.rows[p] = (rev.tree[p], 'T' if p in rec['mid'] else 'F'); n.skip.discard(p)
        elif p not in rev.tree: n.rows.pop(p, None)
    return n


# ---------------------------------------------------------------------- recovery
def collapse(c, S, D):
    """the disturbed command has been recovered from: each file it could have changed is as before or as it wanted it"""
    errs = []
    for p, al in c.alts.items():
        d = D.h.get(p); h0 = S.h.get(p); row = c.rows.get(p)
        hit = [a for a in al if a[0] == d]
        if d == h0:
            if hit and all(a[1] == 'keep' for a in hit):
                if row is not None: c.rows[p] = (row[0], '?')
            elif hit and not (row is not None and row[1] == 'F' and row[0] == d and not any(a[1] == 'keep' for a in hit)) and not (row is None and d is None): c.rows[p] = (d, '?')
        elif hit:
            S.h.pop(p, None)
            if d is not None: S.h[p] = d
            if len({a[1] for a in hit}) > 1: c.rows[p] = (d, '?')
            elif hit[0][1] == 'row':
                if d is None: c.rows.pop(p, None)
                else: c.rows[p] = (d, 'F')
            else: c.touch(p)
        else:
            errs.append(('P08', 'neither-old-nor-new', '%s is %s after recovery, was %s, the command was to make it %s' % (p, str(d)[:8], str(h0)[:8], [str(a[0])[:8] for a in al])))
            S.h.pop(p, None)
            if d is not None: S.h[p] = d
    c.alts = {}
    if '/.bvn_ignore' in D.h or S.h.get('/.bvn_ignore') == D.h.get('/.bvn_ignore'): S.ign = D.ign
    return errs


# ---------------------------------------------------------------------- updates
def rep1(row, h):
    """how a path which no filter matches is reported: new, changed, deleted, None, or '?' if that is not certain"""
    if row is not None and row[1] == '?': return '?'
    if h is None: return None if row is None else 'deleted'
    if row is None: return 'new'
    if row[1] == 'F': return None
    return 'changed' if h != row[0] else '?'


def update_errs(s, c, S, S1, H, conf, choice, full, usefile):
    """the update reported success at H.  Where a disturbed command was recovered from by this very one, each file
    may have started out as that command found it or as it wanted it."""
    errs = []; n = c.copy(); n.alts = {}
    tb = tree(s, c.base); tH = tree(s, H)
    t = touched_between(s, c.base, H)
    if t is None: return [('P05', 'revision-went-back', 'at %s after %s' % (H[:8], c.base[:8]))], n
    for p in sorted(set(S.h) | set(S1.h) | set(tb) | set(tH) | set(n.rows) | set(conf) | set(c.alts)):
        row = c.rows.get(p); h0 = S.h.get(p)
        cands = [(h0, row)]
        for x, kind in sorted(c.alts.get(p, ()), key=str):
            if kind == 'row': cands.append((x, None if x is None else (x, 'F')))
            else: cands.append((x, None if row is None else (row[0], 'T' if row[1] == 'F' else row[1])))
            if x == h0 and row is not None: cands.append((h0, (row[0], '?')))
        res = [update_path(s, c, S, S1, H, p, h, r, p in t, tb.get(p), tH.get(p), p in conf, choice.get(p), full, usefile) for h, r in cands]
        least = min(len(e) for e, r, k in res)
        best = [x for x in res if len(x[0]) == least]
        errs += best[0][0]
        rows = {x[1] for x in best}; row1 = best[0][1] if len(rows) == 1 else next((r[0], '?') for r in sorted(rows, key=str) if r is not None)
        if row1 is None: n.rows.pop(p, None)
        else: n.rows[p] = row1
        if best[0][2]: n.skip.add(p)
        else: n.skip.discard(p)
    n.base = H
    return errs, n


def update_path(s, c, S, S1, H, p, h0, row, int_, hb, hH, conf, ch, full, usefile):
    """-> errors, manifest row afterwards, not in step and not to be brought back by itself"""
    errs = []; h1 = S1.h.get(p); skip = p in c.skip
    if match(S.pull, p):
        if h1 != h0 and h1 is not None: errs.append(('P17', 'pull-ignored-file-pulled', '%s' % p))
        if conf: errs.append(('P06', 'false-conflict', '%s is pull ignored but reported as conflict' % p))
        if h1 is None: return errs, None, skip or row is not None or hH is not None
        return errs, row, skip or int_
    if match(S.ign, p):
        if h1 not in (h0, hH): errs.append(('P08', 'garbled', '%s' % p))
        if int_ or (full and (h0 != hH or (row is None and hH is not None))): row = (h1, '?')
        return errs, row, skip or int_
    m = rep1(row, h0)
    must = m not in (None, '?') and hb != hH and not (m == 'deleted' and hH is None)
    may = m is not None and int_ and not (m == 'deleted' and hH is None)
    if usefile: conf = must or (may and ch is not None)
    if must and not conf: errs.append(('P06', 'conflict-not-reported', '%s: %s here, changed between %s and %s on the server' % (p, m, c.base[:8], H[:8])))
    if conf and not must and not may: errs.append(('P06', 'false-conflict', '%s reported as conflict (local %s, server changed: %s)' % (p, m, int_)))
    keep = True
    if conf:
        if ch == 'server': want = {hH}; keep = False
        else:
            want = {h0}
            if row is None and hH is not None: row = (hH, 'T')
        prop = 'P07' if ch == 'server' else 'P07,P06'
    elif m not in (None, '?'):
        if m == 'deleted' and hH is None and int_: want = {None}; keep = False
        else: want = {h0}
        prop = 'P06'
    elif m == '?':
        if int_: want = {hH}; keep = False
        elif skip and full: want = {h0, hH}; keep = h1 == h0
        else: want = {h0}
        prop = 'P05'
    elif skip and not int_ and not full: want = {h0, hH}; prop = 'P05'; keep = h1 == h0
    else: want = {hH}; prop = 'P05,P17' if skip else 'P05'; keep = False
    if h1 not in want:
        errs.append((prop, 'after-update', '%s is %s after update to %s, expected %s (before %s, in step with %s, local %s%s)' % (p, str(h1)[:8], H[:8], [str(x)[:8] for x in want], str(h0)[:8], row, m or 'no change', ', conflict' if conf else '')))
    if not keep:
        skip = False; row = None if h1 is None else (h1, 'F')
    return errs, row, skip


def update_failed(s, c, S, S1, Hs, prompt, choice, full, refused, recovered):
    """the update was disturbed or refused to go on"""
    errs = []; n = c.copy()
    m, o = reported(c, S)
    for H in Hs:
        t = touched_between(s, c.base, H)
        if t is None: t = set()
        tH = tree(s, H); tb = tree(s, c.base)
        for p in sorted(set(S.h) | set(tb) | set(tH) | set(n.rows) | t):
            if match(S.pull, p):      # (a pull ignored file may go with the one of the server)
                if p in t and p not in tH and p in S.h and not refused: n.alts.setdefault(p, set()).add((None, 'row'))
                continue
            local = p in m and not match(S.ign, p)
            if p in t or (full and p not in S.h) or (full and p in n.skip):
                if local and not (p in choice and choice[p] == 'server') and not (m[p] == 'deleted' and p not in tH): continue
                if refused: continue
                n.alts.setdefault(p, set()).add((tH.get(p), 'row'))
    for p in sorted(set(S.h) | set(S1.h)):
        if p in n.alts: continue
        if S1.h.get(p) != S.h.get(p):
            local = p in m
            props = 'P06' if local else 'P08'
            if refused: props = 'P07,' + props
            errs.append((props, 'changed-by-failed-update', '%s was %s, is %s' % (p, str(S.h.get(p))[:8], str(S1.h.get(p))[:8])))
    return errs, n


# ---------------------------------------------------------------------- a working copy and its user
ANSI = re.compile('\x1b\\[[0-9;]*m')


CAUSE = {'update': 'P05', 'revert': 'P18', 'pi': 'P17', 'commit': 'P04', 'overlap': ''}


class WC:
    def __init__(self, s, i, spec):
        self.pdoom = None; self.perr = {}
        self.s = s; self.k = s.k; self.w = s.w; self.i = i; self.spec = spec; self.name = 'w%d' % i
        self.user = spec['user']; self.host = spec['host']
        self.parent = s.w.dir + '/wc/p%d' % i; self.d = self.parent + '/r'
        self.cs = [CS()]
        self.ncmd = 0; self.cause = ''; self.edited = set(); self.ready = False; self.log = []

    # -- model plumbing
    @property
    def unrec(self): return any(c.alts for c in self.cs)

    def setcs(self, l, S0=None):
        seen = {}
        for c in l:
            if not c.alts: c.S = None
            elif c.S is None: c.S = S0
        for c in l: seen.setdefault(c.key(), c)
        self.cs = list(seen.values())[:8]
        if self.k.trace is not None: self.k.log('MODEL %s %s' % (self.name, [(c.base[:8], {p: (str(r[0])[:6], r[1]) for p, r in sorted(c.rows.items())}, sorted(c.skip), {p: [(str(x)[:6], y) for x, y in a] for p, a in c.alts.items()}) for c in self.cs]))

    def before(self): return Snap(self.d)

    # -- commands
    def doom(self, p):
        """the crash planned for this command of the step"""
        d = self.pdoom
        if not self.k.faults_on: return
        for n in ('cerr', 'serr'):
            e = self.perr.pop(n, None); q = p if n == 'cerr' else self.w.live_server()
            if e and q is not None: self.k.bad[q] = [ERRS[e[0]]] + e[1:]
        if d is None: return
        if d[2] > 0: d[2] -= 1; return
        self.k.doom[p] = [DOOMS[d[0]], d[1]]; self.pdoom = None

    def run(self, args, inputs=None, cwd=None):
        k = self.k; s = self.s
        if not self.prep(): return None
        s.n['cmds'] += 1; self.ncmd += 1
        a = self.mark()
        p = self.w.start_cli(self.d, args, inputs, self.host, name='%s-%s%d' % (self.name, args[0], self.ncmd), cwd=cwd or self.d)
        self.doom(p)
        r = self.w.finish_cli(p)
        self.done(r, a)
        return r

    def prep(self):
        if self.w.ensure_server() is None:
            if self.s.final: self.k.violate('P10', 'server-does-not-start', '')
            return False
        return True

    def mark(self):
        k = self.k
        return (k.steps, len(k.fault_log), sum(p.tag.get('errs', 0) for p in self.w.servers), k.stats.get('fault.long_delay', 0))

    def done(self, r, a):
        k = self.k
        r.text = ANSI.sub('', r.out)
        r.undist = self.undist(r, a)
        r.s0 = a[0]; r.s1 = k.steps
        r.hs = heads_in(self.s, a[0], k.steps)
        r.ok = r.code == 0 and not r.killed and not r.interrupted and not r.timed_out
        r.S1 = Snap(self.d)
        if r.killed or r.interrupted: self.s.n['killed'] += 1
        return r

    def undist(self, r, a):
        return r.undisturbed and self.mark()[1:] == a[1:] and self.w.live_server() is not None

    def unchanged(self, r, S0, what, props='P06'):
        """a command that must not change files"""
        res = []
        for c in self.cs:
            c = c.copy(); S = c.at(S0).copy(); errs = []
            if c.alts and (r.ok or r.undist): errs += collapse(c, S, r.S1)
            for p in sorted(set(S.h) | set(r.S1.h)):
                if p in c.alts or S.h.get(p) == r.S1.h.get(p): continue
                errs.append((props + (',P08' if not r.undist else ''), 'changed-by-' + what, '%s was %s, is %s' % (p, str(S.h.get(p))[:8], str(r.S1.h.get(p))[:8])))
            res.append((errs, (c, S)))
        out = judge(self.s, '%s: %s' % (self.name, what), res)
        return out

    def edit(self, op, mid=None):
        """a user edit; op as in the plan"""
        p = op[1]; f = self.d + p; w = self.w
        self.edited.add(p)
        if op[0] == 'put' or op[0] == 'text':
            b = content(op[2]) if op[0] == 'put' else op[2].encode()
            q = os.path.dirname(f)
            while len(q) > len(self.d):
                if fsim.real_isdir(q): break
                if real.isfile(q): return
                q = os.path.dirname(q)
            if fsim.real_isdir(f): return
            w.put(f, b, op[3] if len(op) > 3 else None)
            if p == '/.bvn_pull_ignore': return
            for c in self.cs: c.touch(p)
            if mid is not None: mid.setdefault(p, set()).add(sha(b))
        elif op[0] == 'rm':
            if not real.isfile(f): return
            w.rm(f)
            if p == '/.bvn_pull_ignore': return
            for c in self.cs: c.touch(p)
            if mid is not None: mid.setdefault(p, set()).add(None)
            if len(op) > 2 and op[2]:
                q = os.path.dirname(f)
                while len(q) > len(self.d) and not real.os_listdir(q): real.os_rmdir(q); q = os.path.dirname(q)
        elif op[0] == 'touch':
            if not real.isfile(f): return
            w.put(f, store.rd(f))
            for c in self.cs: c.touch(p)
            if mid is not None: mid.setdefault(p, set()).add(sha(store.rd(f)))

    # -- first contact
    def create(self):
        w = self.w
        real.os_makedirs(self.parent, exist_ok=True)
        if self.spec['checkout']:
            for _ in range(3):
                if not self.prep(): continue
                a = self.mark()
                key = w.client_conf('r', self.user)['private_key']
                r = w.cli(self.parent, ['checkout', 'http://server:8090/r'], [self.user, key], self.host, name=self.name + '-checkout', cwd=self.parent)
                if not fsim.real_isdir(self.d): 
                    self.done_missing(r, a); continue
                self.done(r, a)
                conf = self.d + '/.bvn/client_configuration.json'
                try: json.loads(store.rd(conf)); have = True
                except (OSError, ValueError): have = False
                S0 = Snap.__new__(Snap); S0.h = {}; S0.ign = []; S0.pull = []
                if r.ok:
                    if not have: self.k.violate('P08', 'checkout-without-configuration', '')
                    self.judge_update(r, S0, set(), {}, False, lambda c: False)
                    self.ready = True; return
                if r.undist: self.k.violate('P05', 'checkout-failed', '%r %s' % (r, r.text[-200:]))
                if have:
                    self.failed_update(r, S0, False, {}, False, False)
                    self.ready = True; return
                self.wipe(self.d)
        w.make_wc('p%d/r' % self.i, 'r', self.user)
        self.ready = True

    def done_missing(self, r, a):
        if self.undist(r, a): self.k.violate('P05', 'checkout-failed', '%r %s' % (r, r.out[-200:]))

    def wipe(self, d):
        for n in real.os_listdir(d):
            if fsim.real_isdir(d + '/' + n): self.wipe(d + '/' + n)
            else: real.os_remove(d + '/' + n)
        real.os_rmdir(d)

    # -- status
    def status(self):
        S0 = self.before()
        cz = lambda p: ',' + self.cause if self.cause and p not in self.edited else ''
        r = self.run(['status'])
        if r is None: return None
        fits = self.unchanged(r, S0, 'status')
        if not r.ok:
            if r.undist: self.k.violate('P08', 'status-failed', '%s: %r %s' % (self.name, r, r.text[-200:]))
            self.setcs([c for c, S in fits], S0)
            return r
        rep = {}
        for l in r.text.split('\n'):
            a, sep, p = l.partition(' : ')
            if sep and a in ('new', 'changed', 'deleted'): rep[p] = a
        res = []
        for c, S in fits:
            m, o = reported(c, S); errs = []
            for p in m:
                if p not in rep: errs.append(('P04,P06' + cz(p), 'change-not-reported', '%s is %s (in step with %s, now %s) but status does not say so' % (p, m[p], c.rows.get(p), str(S.h.get(p))[:8])))
                elif rep[p] != m[p]: errs.append(('P08' + cz(p), 'wrong-status', '%s is %s, reported %s' % (p, m[p], rep[p])))
            for p in rep:
                if p not in m and p not in o: errs.append(('P08' + cz(p), 'false-change', '%s reported as %s, was not touched (in step with %s, now %s)' % (p, rep[p], c.rows.get(p), str(S.h.get(p))[:8])))
            c.prune(S)
            res.append((errs, c))
        self.setcs(judge(self.s, self.name + ': status', res))
        r.rep = rep
        return r

    def recover(self, tries=6):
        for _ in range(tries):
            if not self.unrec: return True
            self.status()
        return not self.unrec

    # -- update
    def judge_update(self, r, S0, conf, choice, full, usefile):
        m = re.findall(r'At revision: (\w+)', r.text)
        res = []
        for c in self.cs:
            if m:
                H = m[-1]
                if H not in r.hs and H not in self.s.mon.by_id: e, n = [('P05', 'unknown-revision', H)], c
                elif H not in r.hs: e, n = [('P05', 'revision-was-not-head', H)], c
                else: e, n = update_errs(self.s, c.copy(), c.at(S0), r.S1, H, conf, choice if conf or usefile(c) else {}, full, usefile(c))
            else:
                best = None
                for H in r.hs:
                    e, n = update_errs(self.s, c.copy(), c.at(S0), r.S1, H, conf, choice if conf or usefile(c) else {}, full, usefile(c))
                    t = touched_between(self.s, c.base, H)
                    if t or t is None: e = e + [('P05', 'nothing-to-update', 'but the server is at %s, the working copy at %s' % (H[:8], c.base[:8]))]
                    if best is None or len(e) < len(best[0]): best = (e, n)
                e, n = best
            for q in e: pass
            n.prune(r.S1)
            res.append((e, n))
        self.setcs(judge(self.s, '%s: update' % self.name, res))
        self.s.n['updates'] += 1

    def failed_update(self, r, S0, prompt, choice, full, refused):
        res = []
        for c in self.cs:
            e, n = update_failed(self.s, c, c.at(S0), r.S1, r.hs, prompt, choice, full, refused, False)
            res.append((e, n))
            if not refused:
                for H in r.hs:
                    conf = set(prompt) if prompt else set()
                    e2, n2 = update_errs(self.s, c.copy(), c.at(S0), r.S1, H, conf, choice, full, False)
                    if not e2: res.append((e2, n2))
                    if not conf and choice:
                        e2, n2 = update_errs(self.s, c.copy(), c.at(S0), r.S1, H, set(), choice, full, True)
                        if not e2: res.append((e2, n2))
        good = judge(self.s, '%s: failed update' % self.name, res)
        self.setcs(good, S0)

    def clash(self, S0, hs):
        """a file stands where the server has a directory or the reverse, and something local is involved"""
        D0 = S0
        for c in self.cs:
            S0 = c.at(D0)
            m, o = reported(c, S0)
            loc = set(m) | o | {p for p in S0.h if match(S0.ign + S0.pull, p)} | {p for p in S0.h if p not in c.rows} | set(c.alts)
            for H in hs:
                t = set(tree(self.s, H))
                if any(anc(x, y) for x in t for y in t): return True
                for y in t | set(tree(self.s, c.base)):
                    if fsim.real_isdir(self.d + y): return True
                    for x in loc:
                        if anc(x, y) or anc(y, x): return True
        return False

    def update(self, st):
        s = self.s; k = self.k
        if self.unrec and not (st.get('direct') and not real.isfile(self.d + '/.bvn/conflict_resolution') and not any('/.bvn_ignore' in c.alts for c in self.cs)):
            if not self.recover(): return None
        S0 = self.before()
        full = bool(st.get('f'))
        resf = self.d + '/.bvn/conflict_resolution'
        filetext = store.rd(resf).decode('utf8', 'replace') if real.isfile(resf) else None
        info = {'conf': None, 'choice': {}, 'ans': None}

        def answer(p):
            txt = ANSI.sub('', ''.join(p.out))
            if 'for comparison? (Y/N)' in txt: return st.get('dl', 'y')
            info['conf'] = set(re.findall(r'^Path:  (.*)$', txt, re.M)) if not any('\u2028' in q or '\x85' in q for q in s.plan['fixed']['paths']) else set(x[7:] for x in txt.split('\n') if x.startswith('Path:  '))
            info['ans'] = st['ans']; s.n['conflicts'] += 1
            D = Snap(self.d)
            if not self.unrec and D.h != S0.h:
                k.violate('P06', 'changed-before-asking', '%s: %s' % (self.name, sorted(q for q in set(D.h) | set(S0.h) if D.h.get(q) != S0.h.get(q))))
            if st['ans'] in ('server', 'client'): info['choice'] = {q: st['ans'] for q in info['conf']}
            return st['ans'].upper() if st.get('caps') else st['ans']
        # answers to conflicts an update has settled since are void
        valid = lambda c: filetext is not None and c.fileb == c.base
        usefile = any(valid(c) for c in self.cs)
        if filetext is not None and not all(valid(c) for c in self.cs): k.probe('settled_answers_left')
        parsed = parse_res(filetext) if usefile else None
        if usefile and parsed is not None: info['choice'] = parsed
        r = self.run(['update'] + (['-f'] if full else []), answer)
        if r is None: return None
        conf = info['conf'] or set()
        if r.ok:
            if usefile and info['conf'] is None and parsed is None:
                # nothing needed resolving?
                res = [update_errs(s, c.copy(), c.at(S0), r.S1, H, set(), {}, full, False)[0] for c in self.cs for H in r.hs]
                if all(res): k.violate('P07', 'bad-resolution-file-accepted', '%s: %r' % (self.name, filetext[:300]))
            if info['ans'] == 'manual': k.violate('P07', 'unresolved-conflict-ignored', self.name)
            self.judge_update(r, S0, conf, info['choice'], full, (lambda c: valid(c)) if info['conf'] is None and parsed is not None else (lambda c: False))
            for c in self.cs: c.fileb = None
            if conf: s.nontrivial = True
            return r
        refused = r.undist and not isinstance(r.exc, OSError) and (info['ans'] == 'manual' or (usefile and info['conf'] is None and self.inadequate(S0, parsed, r.hs)))
        if r.undist and not refused and not self.clash(S0, r.hs):
            for p in ('P05', 'P07' if (conf or usefile) else 'P05'): k.violate(p, 'update-failed', '%s: %r %s %s' % (self.name, r, r.text[-200:], (r.err or '')[-200:]))
        ch = info['choice']
        if info['ans'] == 'manual' or (usefile and parsed is None): ch = {}
        self.failed_update(r, S0, info['conf'], ch, full, bool(refused))
        if info['ans'] == 'manual':
            for c in self.cs: c.fileb = c.base
        r.refused = refused; r.manual = info['ans'] == 'manual'
        return r

    def inadequate(self, S0, parsed, hs):
        """the resolution file does not settle every conflict, in some possible state"""
        if parsed is None: return True
        for c in self.cs:
            m, o = reported(c, c.at(S0))
            for H in hs:
                t = touched_between(self.s, c.base, H) or set()
                for p in (set(m) | o) & t:
                    if p not in parsed: return True
        return False

    def do_update(self, st):
        for n in range(st.get('tries', 1)):
            r = self.update(st)
            if r is None: continue
            if r.ok: return r
            if getattr(r, 'manual', False) or getattr(r, 'refused', False):
                if not st.get('again') or not self.fill(st): return r
                st = dict(st, fill='good', salt=st['salt'] + 1)
                r = self.update(st)
                if r is not None and r.ok: return r
        return None

    def fill(self, st):
        """the user edits the resolution file"""
        resf = self.d + '/.bvn/conflict_resolution'
        if not real.isfile(resf): return False
        t = store.rd(resf).decode('utf8', 'replace')
        blocks = t.split('------------\n')
        mode = st['fill']; out = [blocks[0]]; nb = 0
        if mode == 'none': return True
        for b in blocks[1:]:
            ls = b.split('\n')
            if len(ls) < 4: out.append(b); continue
            p = ls[0][7:]
            nb += 1
            v = {'server': 'server', 'client': 'client', 'blank': '', 'bad': 'both'}.get(mode)
            if v is None: v = 'server' if int(sha(('%d|%s' % (st['salt'], p)).encode()), 16) % 2 else 'client'
            if mode == 'caps': v = v.upper() + ' '
            if mode == 'missing' and nb == 1: continue
            if mode == 'corrupt' and nb == 1: out.append('Bath  /lost' + '\nx\nResol\n\n'); continue
            out.append('\n'.join([ls[0], ls[1], 'Resolution: ' + v] + ls[3:]))
        with real.open(resf, 'w') as f: f.write('------------\n'.join(out))
        return True

    # -- commit
    def commit(self, st):
        s = self.s; k = self.k
        if self.unrec and any('/.bvn_ignore' in c.alts for c in self.cs) and not self.recover(): return None
        if self.unrec and st.get('mid') and not self.recover(): return None
        S0 = self.before()
        s.nmsg += 1
        msg = 'c%d' % s.nmsg + st.get('m', '')
        mid = {}; midb = {}
        rec = dict(wc=self, worlds=[c.copy() for c in self.cs], S0=S0, mid=mid, midb=midb, rev=None, user=self.user, fit=None)
        s.recs[msg] = rec
        if not self.prep(): return None
        s.n['cmds'] += 1; self.ncmd += 1
        a = self.mark()
        p = self.w.start_cli(self.d, ['commit', '-m', msg], None, self.host, name='%s-commit%d' % (self.name, self.ncmd))
        self.doom(p)
        t = None
        if st.get('mid'):
            def editor():
                for e in st['mid']:
                    if isinstance(e[0], list):      # at the n-th operation of the command on this file
                        tr = k.trap[p] = [self.d + e[2], e[0][1], False]
                        n = 0
                        while not (tr[2] or p.exited or not p.alive): n += 1; k.sleep(0.01 if n < 100 else 0.6)
                        k.trap.pop(p, None)
                        if tr[2]: k.probe('mid.at')
                    else: k.sleep(e[0])
                    if p.exited or not p.alive: return
                    rec['midcs'] = True
                    for n in (0, 1):
                        if n: self.edit(e[1:], mid)
                        if real.isfile(self.d + e[2]):
                            b = store.rd(self.d + e[2])
                            if b not in midb.setdefault(e[2], []): midb[e[2]].append(b)
            t = k.spawn(k.cur.proc, editor)
        r = self.w.finish_cli(p)
        if t is not None: k.wait_thread(t, 100)
        self.done(r, a)
        said = r.ok and 'Commit ok' in r.text
        rev = rec['rev']
        if said and rev is None and not any(all((v == 'deleted' or p in mid) and p not in tree(s, c.base) for p, v in reported(c, c.at(S0))[0].items()) for c in self.cs):
            # (deleting what the server does not have makes no new revision; a new file may be deleted while it runs)
            for q in ('P04', 'P02'): k.violate(q, 'success-without-revision', '%s: %s' % (self.name, r.text[-150:]))
        # what the command may have done to files: nothing
        SE = S0.copy()
        for q in mid:           # (there are no alternatives then)
            SE.h.pop(q, None)
            if q in r.S1.h: SE.h[q] = r.S1.h[q]
        fits = self.unchanged(r, SE, 'commit')
        post = []
        if rev is not None:
            for c, S in rec['fit']: post.append(after_commit(c, S, r.S1, rec, rev))
        pre = [c for c, S in fits]
        if r.ok and not said:
            for c, S in fits: c.prune(S)
        if rev is None and not (r.undist and not said):     # nothing but deletes of files which the server does not have
            for c, S in (fits if said else [(c.copy(), S) for c, S in fits]):
                ch = reported(c, S)[0]
                if not said and not (ch and all(v == 'deleted' and p not in tree(s, c.base) for p, v in ch.items())): continue
                for p, v in ch.items():
                    if v == 'deleted' and (p not in r.S1.h or match(S.ign, p)): c.rows.pop(p, None)
                if not said: pre.append(c)
        if said: self.setcs(post or pre, S0)
        else: self.setcs(pre + post, S0)
        if r.undist and not said:
            nothing = [not reported(c, S)[0] for c, S in fits]
            opt = [bool(reported(c, S)[1]) for c, S in fits]
            head = r.hs[-1]
            if r.ok and 'Nothing to commit' in r.text and not any(nothing) and not mid: k.violate('P04', 'nothing-to-commit', '%s has changes %s' % (self.name, [reported(c, S)[0] for c, S in fits]))
            s.n['refused'] += not r.ok
            if s.final and not any(nothing) and all(c.base == head for c in self.cs) and len(r.hs) == 1:
                for q in ('P10', 'P04'): k.violate(q, 'commit-failed', '%s: %r %s' % (self.name, r, r.text[-200:]))
        return r

    # -- revert
    def revert(self, st):
        s = self.s; k = self.k
        if not self.recover(): return None
        S0 = self.before()
        v = st['v']; ids = [x.id for x in s.mon.chain]
        args = ['revert']; V = None
        if v == 'head': args.append('-h')
        elif v != 'base':
            if not ids: return None
            V = ids[v % len(ids)]; args += ['--v', V]
        cwd = self.d; pats = list(st['pats'])
        if pats[:1] == ['rel']:
            pats = pats[1:]
            if fsim.real_isdir(self.d + '/d'): cwd = self.d + '/d'; full = ['/d/' + x for x in pats]
            else: full = ['/' + x for x in pats]
        else: full = pats
        if any(ch in x for x in full for ch in '[?') or any(x[0] not in '/*' for x in full if cwd == self.d and pats is full): return None
        if st['all']: args.append('--all')
        args += pats
        asked = []
        def answer(p):
            asked.append(1); return st['ans']
        r = self.run(args, answer, cwd=cwd)
        if r is None: return None
        declined = bool(asked) and st['ans'].lower() == 'no'
        res = []; found = []; clashing = False
        for c0 in self.cs:
            for X in ([V] if V else r.hs if v == 'head' else [c0.base]):
                c = c0.copy(); errs = []; tV = tree(s, X)
                sel = {p for p in tV if not match(S0.pull, p) and (st['all'] or match(full, p))}
                dels = {p for p in c.rows if p not in tV and not match(S0.pull, p)} if st['all'] else set()
                clashing = clashing or any(anc(x, y) for x in tV for y in tV)
                found.append(bool((sel or dels) and X != 'root'))        # nothing is to be had before there is a revision
                act = not declined and bool(asked)
                for p in sorted(set(S0.h) | set(r.S1.h) | sel | dels):
                    h0 = S0.h.get(p); h1 = r.S1.h.get(p)
                    if act and p in sel:
                        if r.ok:
                            if h1 != tV[p]: errs.append(('P18', 'not-reverted', '%s is %s, in %s it is %s' % (p, str(h1)[:8], X[:8], tV[p][:8])))
                            if X == c.base: c.rows[p] = (tV[p], 'F')
                            elif h1 != h0: c.touch(p)
                            else:
                                row = c.rows.get(p)
                                if row and row[1] == 'F': c.rows[p] = (row[0], 'T')
                            c.skip.discard(p) if p in c.rows else None
                        else: c.alts.setdefault(p, set()).add((tV[p], 'row' if X == c.base else 'keep'))
                    elif act and p in dels:
                        q = c.rows[p][1] == '?'
                        if r.ok:
                            if h1 is not None and not q: errs.append(('P18', 'not-deleted', p))
                            if X == c.base: c.rows.pop(p, None)
                        else: c.alts.setdefault(p, set()).add((None, 'row' if X == c.base else 'keep'))
                    elif h1 != h0:
                        errs.append(('P18,P06' if not declined else 'P18', 'declined-revert-changed' if declined else 'revert-changed-other', '%s was %s, is %s' % (p, str(h0)[:8], str(h1)[:8])))
                if act and not r.ok:
                    for p in c.alts:      # same content in both: the entry may or may not be refreshed
                        pass
                for p in sel | dels:
                    if any(anc(p, q) or anc(q, p) for q in S0.h) or fsim.real_isdir(self.d + p): clashing = True
                res.append((errs, c))
        self.setcs(judge(s, '%s: %s' % (self.name, ' '.join(args)), res), S0)
        found = all(found)
        if r.undist and not r.ok and not declined and found and not clashing and asked:
            k.violate('P18', 'revert-failed', '%s: %r %s' % (self.name, r, r.text[-200:]))
        if r.undist and not asked and found: k.violate('P18', 'revert-refused', '%s: %s: %r %s' % (self.name, args, r, r.text[-200:]))
        if r.ok and asked and not declined: s.n['reverts'] += 1; s.nontrivial = True
        return r

    # -- filters
    def pull_ignore(self, st):
        s = self.s; k = self.k
        if not self.recover(): return None
        S0 = self.before()
        fl = [f for f in st['filters'] if f[0] in '/*']
        if not fl: return None
        cwd = self.d; given = list(fl)
        if st.get('rel') and fsim.real_isdir(self.d + '/d'):        # relative to where the command is given
            cwd = self.d + '/d'; given = st['rel']; fl = [x if x[0] == '*' else '/d/' + x for x in given]
        asked = []
        def answer(p): asked.append(1); return st['ans']
        r = self.run(['pull-ignore'] + (['-f'] if st['force'] else []) + given, answer, cwd=cwd)
        if r is None: return None
        dele = st['ans'].lower() == 'delete'
        res = []
        for c0 in self.cs:
            c = c0.copy(); errs = []; m, o = reported(c, S0)
            c.prune(S0) if r.ok else None
            aff = {p for p in c.rows if match(fl, p)}
            if r.ok and m and not st['force']: errs.append(('P17,P06', 'pull-ignore-with-local-changes', 'local changes %s' % m))
            for p in sorted(set(S0.h) | set(r.S1.h) | aff):
                h0 = S0.h.get(p); h1 = r.S1.h.get(p)
                if p in aff and r.ok:
                    q = c.rows.pop(p)[1]; c.skip.add(p)
                    if dele and h1 is not None and q != '?': errs.append(('P17', 'not-removed', p))
                    if not dele and h1 != h0: errs.append(('P17,P06', 'left-alone-but-changed', p))
                elif p in aff and asked and not r.ok:
                    row = c.rows[p]
                    c.skip.add(p); c.rows[p] = (row[0], '?')
                    if dele: c.alts.setdefault(p, set()).add((None, 'row'))
                    elif h1 != h0: errs.append(('P17,P06', 'left-alone-but-changed', p))
                elif h1 != h0: errs.append(('P17,P06', 'pull-ignore-changed-other', '%s was %s, is %s' % (p, str(h0)[:8], str(h1)[:8])))
            if r.ok and not set(fl) <= set(r.S1.pull): errs.append(('P17', 'filter-not-stored', '%s' % fl))
            if not set(S0.pull) <= set(r.S1.pull): errs.append(('P17', 'filter-lost', '%s -> %s' % (S0.pull, r.S1.pull)))
            res.append((errs, c))
        self.setcs(judge(s, '%s: pull-ignore %s' % (self.name, fl), res), S0)
        for c in self.cs:
            if c.S is not None: c.S = c.S.copy(); c.S.pull = r.S1.pull
        if r.undist and not r.ok and (st['force'] or not any(sum(map(bool, reported(c, S0))) for c in self.cs)):
            k.violate('P17', 'pull-ignore-failed', '%s: %r %s' % (self.name, r, r.text[-200:]))
        if r.ok: s.nontrivial = True
        return r

    def hand(self, st):
        if not self.recover(): return
        fl = st['filters']
        S = Snap(self.d)
        if st['what'] == 'pull':
            self.edit(['text', '/.bvn_pull_ignore', '\n'.join(S.pull + fl) + '\n'])
            if st['rm'] and not any(reported(c, S)[0] or reported(c, S)[1] for c in self.cs):
                S2 = Snap(self.d)
                for p in list(S2.h):
                    if match(fl, p): self.edit(['rm', p, True])
                # the filter has to be seen by one command before it may be taken away again
                for c in self.cs:
                    for p in list(c.rows):
                        if match(fl, p) and p not in Snap(self.d).h: c.rows[p] = (c.rows[p][0], '?')
                for _ in range(6):
                    r = self.status()
                    if r is not None and r.ok: break
        elif st['what'] == 'pull-off':
            if S.pull: self.edit(['rm', '/.bvn_pull_ignore'])
            for c in self.cs:           # a scan which failed later may have forgotten files which were gone
                for p in list(c.rows):
                    if match(S.pull, p) and p not in S.h: c.rows[p] = (c.rows[p][0], '?'); c.skip.add(p)
        elif st['what'] == 'ign': self.edit(['text', '/.bvn_ignore', '\n'.join([f for f in S.ign + fl if f.strip('/*')]) + '\n'])
        elif st['what'] == 'ign-off': self.edit(['rm', '/.bvn_ignore'])

    # -- listings
    def listing(self, st):
        s = self.s; k = self.k
        if not self.recover(): return
        S0 = self.before(); ids = [x.id for x in s.mon.chain]; what = st['what']
        V = ids[st['n'] % len(ids)] if ids else None
        args = {'files': ['list-files'], 'files-h': ['list-files', '-h'], 'files-i': ['list-files', '-i'], 'files-ih': ['list-files', '-i', '-h'], 'files-v': ['list-files', '--v', V], 'changes': ['list-changes'], 'changes-v': ['list-changes', '--v', V],
                'versions': ['list-versions'], 'ignored': ['list-ignored-files']}[what]
        if None in args: return
        r = self.run(args)
        if r is None: return
        fits = self.unchanged(r, S0, args[0])
        self.setcs([c for c, S in fits], S0)
        lines = r.text.split('\n')
        if not r.ok:
            if r.undist and not (not ids or any(c.base == 'root' for c in self.cs)): k.violate('P02', 'listing-failed', '%s %s: %r %s' % (self.name, args, r, r.text[-100:]))
            return
        if what != 'ignored' and not r.undist and not r.text.strip(): return        # the server answered that it failed: nothing is listed
        cands = [V] if '-v' in what else r.hs if what in ('files-h', 'files-ih') else [c.base for c in self.cs]
        if what.startswith('files'):
            got = {l for l in lines if l.startswith('/')}
            want = [{p for p in tree(s, x) if what not in ('files-i', 'files-ih') or match(S0.pull, p)} for x in cands]
            if got not in want: k.violate('P02', 'list-files', '%s: got %s, expected %s' % (args, sorted(got), [sorted(x) for x in want]))
        elif what.startswith('changes'):
            got = {tuple(l.split(' : ', 1)) for l in lines if l.split(' : ', 1)[0] in ('new', 'changed', 'deleted')}
            want = [{(c['status'], c['path']) for c in s.mon.by_id[x].changes} if x in s.mon.by_id else set() for x in cands]
            if got not in want: k.violate('P02', 'list-changes', '%s: got %s, expected %s' % (args, sorted(got), [sorted(x) for x in want]))
        elif what == 'versions':
            got = [l[9:] for l in lines if l.startswith('Commit:  ')]
            seen = [h for _, h in s.heads if h != 'root']
            want = []
            for H in r.hs:
                ch = []; h = H
                while h != 'root': ch.append(h); h = s.mon.by_id[h].parent
                want.append(ch[:52][::-1])
            if got not in want: k.violate('P02', 'list-versions', 'got %s expected %s' % ([x[:6] for x in got], [[y[:6] for y in x] for x in want]))
            if r.ok and got in want:
                for x in got:
                    if s.mon.by_id[x].msg not in r.text: k.violate('P02', 'list-versions', 'message %r not shown' % s.mon.by_id[x].msg)
        elif what == 'ignored':
            got = {l for l in lines if l.startswith('/') and not l.startswith('/.bvn/') and l != '/.bvn_pull_ignore'}
            want = {p for p in S0.h if match(S0.ign + S0.pull, p)}
            if got != want: k.violate('P17', 'list-ignored', 'got %s expected %s' % (sorted(got), sorted(want)))

    # -- two commands at a time
    def overlap(self, st):
        s = self.s; k = self.k
        if not self.recover() or not self.prep(): return
        def second():
            p2 = self.w.start_cli(self.d, {'status': ['status'], 'commit': ['commit', '-m', 'second'], 'update': ['update'], 'revert': ['revert', '--all'], 'pull-ignore': ['pull-ignore', '-f', '*']}[st['b']],
                                  lambda p: {'revert': 'yes', 'pull-ignore': 'delete', 'update': 'server'}.get(st['b'], 'n'), self.host, name='%s-second%d' % (self.name, self.ncmd))
            return self.w.finish_cli(p2, 500)

        def check(r2, S0):
            if r2.killed or r2.interrupted or r2.timed_out: return
            S1 = Snap(self.d)
            if r2.code == 0: k.violate('P08', 'two-commands-at-once', '%s: %s ran while %s was running' % (self.name, st['b'], st['a']))
            if S1.h != S0.h or S1.pull != S0.pull: k.violate('P08', 'refused-command-changed-files', '%s: %s' % (self.name, sorted(p for p in set(S1.h) | set(S0.h) if S1.h.get(p) != S0.h.get(p))))
        if st['a'] == 'update':
            done = []
            old = self.update
            # the second command starts while the first waits for an answer
            st2 = {'ans': st['ans'], 'tries': 1}
            saved = self.w.start_cli
            def hook_answer(orig):
                def f(p):
                    if not done and p.input_handler is not None:
                        done.append(1); S0 = Snap(self.d)
                        p.tag['hooked'] = True
                        r2 = nested(k, self, second)
                        if r2 is not None: check(r2, S0)
                    return orig(p)
                return f
            def start_cli(d, args, inputs=None, *a, **kw):
                if d == self.d and args[0] == 'update' and callable(inputs) and not done: inputs = hook_answer(inputs)
                return saved(d, args, inputs, *a, **kw)
            self.w.start_cli = start_cli
            try: self.update(st2)
            finally: self.w.start_cli = saved
        else:
            # started while a commit of the first is talking to the server
            S0 = Snap(self.d); box = []
            def other():
                k.sleep(st['delay'])
                ps = [p for p in k.procs if p.name.startswith('%s-commit' % self.name) and p.alive and not p.exited]
                if not ps or not any(c.a.proc is ps[0] for c in k.net.conns): return
                r2 = second()
                box.append(1)
                if ps[0].alive and not ps[0].exited: check(r2, S0)
                elif r2.code == 0: box.append('late')
                if r2.code == 0 and not (ps[0].alive and not ps[0].exited): s.late = (self, st['b'])
            if st['b'] not in ('status',): return
            t = k.spawn(k.cur.proc, other)
            self.commit({'m': '', 'mid': []})
            k.wait_thread(t, 1000)

    # -- one step of the plan
    def step(self, st):
        t = st['t']
        self.pdoom = list(st['doom']) if st.get('doom') else None
        self.perr = {n: st[n] for n in ('cerr', 'serr') if st.get(n)}
        if t == 'edit':
            if not self.recover(): return
            for op in st['ops']: self.edit(op)
        elif t == 'commit':
            for _ in range(st['tries']):
                r = self.commit(st)
                if r is not None and r.ok: break
        elif t == 'update': self.do_update(st)
        elif t == 'status': self.status()
        elif t == 'revert':
            for _ in range(st['tries']):
                r = self.revert(st)
                if r is None or r.ok or r.undist: break
        elif t == 'pi':
            for _ in range(st['tries']):
                r = self.pull_ignore(st)
                if r is None or r.ok or r.undist: break
        elif t == 'hand': self.hand(st)
        elif t == 'list': self.listing(st)
        elif t == 'overlap': self.overlap(st)
        elif t == 'sleep': self.k.sleep(st['s'])
        # a wrong status of a file the user did not touch is the doing of the command before
        if t in CAUSE: self.cause = CAUSE[t]; self.edited = set()
        if st.get('chk') and not self.unrec: self.status()


def nested(k, wc, fn):
    """run fn (which starts and awaits processes) from inside a simulated process waiting for terminal input:
    done by a user thread; the process just waits"""
    box = []
    me = k.cur
    t = k.spawn(wc.actor, lambda: box.append(fn()))
    me.nofault += 1
    try:
        while t.state != 'done': k.block('terminal', k.now + 0.05)
    finally: me.nofault -= 1
    return box[0] if box else None


def parse_res(text):
    """the user's resolution file: path -> choice, or None if it is not valid"""
    out = {}
    ls = text.split('\n'); blocks = []; cur = None
    for l in ls:
        if l == '------------': cur = []; blocks.append(cur)
        elif cur is not None: cur.append(l)
    for b in blocks:
        if len(b) < 3 or not b[0].startswith('Path:') or not b[2].startswith('Resolution:'): return None
        c = b[2][11:].strip().lower()
        if c not in ('client', 'server'): return None
        out[b[0][5:].lstrip()] = c
    return out


# ---------------------------------------------------------------------- the run
def main(k, w, plan, s):
    f = plan['fixed']
    k.faults_on = False
    s.wcs = [WC(s, i, x) for i, x in enumerate(f['wcs'])]
    for i, wc in enumerate(s.wcs):
        wc.actor = k.new_proc('user%d' % i, 'actor', w.dir, host=wc.host)
    w.start_server()
    if not prehistory(k, w, s, f): return
    k.faults_on = True
    threads = []
    if f['serial']:
        def all_():
            for wc in s.wcs: wc.create()
            for st in plan['steps']: s.wcs[st['wc']].step(st)
        threads.append(k.spawn(s.wcs[0].actor, all_))
    else:
        for wc in s.wcs:
            def go(wc=wc):
                wc.create()
                for st in plan['steps']:
                    if st['wc'] == wc.i: wc.step(st)
            threads.append(k.spawn(wc.actor, go))
    for t in threads: k.wait_thread(t, 2_000_000)
    finish(k, w, plan, s)


def prehistory(k, w, s, f):
    raw = world.Raw(w, 'r', 'cat')
    try:
        for n, puts in enumerate(f['pre']):
            if not puts: continue
            raw.connect(); raw.login()
            h, b = raw.begin(s.mon.head)
            s.nmsg += 1
            msg = 'pre%d' % n
            wc = s.wcs[0]
            for op, p, cid in puts:
                hd, _ = raw.push(p, content(cid))
                if hd.get('status') != 'ok': raise world.Lost('%s' % hd)
            s.recs[msg] = dict(wc=wc, worlds=[], S0=None, mid={}, rev=None, user='cat', fit=None)
            s.mon.on_rev, keep = [lambda rev, thr: s.heads.append((k.steps, rev.id))], s.mon.on_rev
            hd, _ = raw.finish('commit', msg)
            s.mon.on_rev = keep
            if hd.get('status') != 'ok': raise world.Lost('%s' % hd)
            raw.close(); k.sleep(0.2)
    except (world.Lost, KeyError) as e:
        k.violate('P10', 'undisturbed-commit-failed', '%s' % e)
        return False
    return True


def finish(k, w, plan, s):
    f = plan['fixed']
    w.quiet()
    s.final = True
    k.sleep(700)
    def body():
        for wc in s.wcs:
            if not wc.ready: wc.create()
        for rnd in range(2):
            for wc in s.wcs: settle(k, s, wc, f['final'], rnd)
        # filters off
        for wc in s.wcs:
            if Snap(wc.d).pull:
                wc.edit(['rm', '/.bvn_pull_ignore'])
                full_update(k, s, wc, f['final'])
                wc.commit({'m': ' unfiltered'})
        for wc in s.wcs: full_update(k, s, wc, f['final'])
        for wc in s.wcs: wc.commit({'m': ' last'})
        for wc in s.wcs: full_update(k, s, wc, f['final'])
        compare(k, s)
    t = k.spawn(s.wcs[0].actor, body)
    k.wait_thread(t, 5_000_000)
    if t.state != 'done': k.violate('P10', 'no-end', 'the final phase does not end'); return
    s.mon.final_check()


def unclash(wc):
    """the user makes room where a local file or directory stands in the way of the server's"""
    S = Snap(wc.d); ps = set(tree(wc.s, wc.s.mon.head))
    for p in sorted(S.h):
        if any(anc(p, y) or anc(y, p) for y in ps): wc.edit(['rm', p, True])
    for y in sorted(ps):
        if fsim.real_isdir(wc.d + y): rmdirs(wc.d + y)


def rmdirs(d):
    for n in real.os_listdir(d):
        if fsim.real_isdir(d + '/' + n): rmdirs(d + '/' + n)
    try: real.os_rmdir(d)
    except OSError: pass


def settle(k, s, wc, choice, rnd):
    """without faults: recover, update, commit"""
    if not wc.recover():
        k.violate('P08', 'cannot-recover', wc.name); return
    st = {'ans': choice, 'tries': 1}
    resf = wc.d + '/.bvn/conflict_resolution'
    for n in range(4):
        r = wc.update(st)
        if r is None: continue
        if r.ok: break
        if real.isfile(resf) and getattr(r, 'refused', False): real.os_remove(resf)
        wc.recover()
        unclash(wc)
    else:
        k.violate('P05', 'cannot-update-after-faults', '%s: %r %s' % (wc.name, r, r.text[-200:] if r else '')); return
    for n in range(3):
        r = wc.commit({'m': ' settle'})
        if r is not None and r.ok: break
        wc.update(st)
    else:
        for p in ('P10', 'P04'): k.violate(p, 'cannot-commit-after-faults', '%s: %r %s' % (wc.name, r, r.text[-200:] if r else ''))
        return
    wc.status()
    m = [reported(c, Snap(wc.d)) for c in wc.cs]
    if len(wc.cs) > 1 and not any(x[0] or x[1] for x in m): wc.cs = wc.cs[:1]


def full_update(k, s, wc, choice):
    for n in range(3):
        r = wc.update({'ans': choice, 'tries': 1, 'f': True})
        if r is not None and r.ok: return
        wc.recover(); unclash(wc)
    k.violate('P05', 'cannot-update-after-faults', '%s: %r %s' % (wc.name, r, r.text[-200:] if r else ''))


def compare(k, s):
    head = tree(s, s.mon.head)
    for wc in s.wcs:
        S = Snap(wc.d)
        m = [reported(c, S)[0] for c in wc.cs]
        if all(m): k.violate('P04', 'still-changed', '%s: after the last commit and update there are still local changes %s' % (wc.name, m[0])); continue
        for p in sorted(set(S.h) | set(head)):
            if match(S.ign, p): continue
            if S.h.get(p) != head.get(p):
                k.violate('P05', 'not-identical', '%s: %s is %s, head has %s' % (wc.name, p, str(S.h.get(p))[:8], str(head.get(p))[:8]))


def on_stop(k, w, plan, s, reason):
    if reason == 'steps': k.violate('P10', 'livelock', 'no end after %d operations' % k.steps)
    elif reason == 'deadlock': k.violate('P10', 'deadlock', 'nothing can happen any more')

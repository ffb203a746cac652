import hashlib, json
from sim.store import sha


def content(cid):
    """deterministic contents by id: some empty, tiny, around buffer sizes, and large"""
    if cid == 0: return b''
    size = [3, 17, 1000, 1023, 1025, 4096, 8192, 9001, 70000][cid % 9]
    seed = hashlib.sha256(b'content-%d' % cid).digest()
    if cid % 5 == 0: seed = seed[:4] + b'\r\n\r\n' + seed[4:]
    return (seed * (size // len(seed) + 1))[:size]


def net_cfg(rng, faults=True, hole=True):
    c = {'latency': rng.choice([0.0002, 0.001, 0.02]), 'window': rng.choice([65536, 65536, 4000, 700])}
    if rng.random() < 0.4: c['p_partial'] = 0.15
    if rng.random() < 0.4: c['p_short'] = 0.25
    if rng.random() < 0.3: c['p_delay'] = 0.05
    if faults:
        if rng.random() < 0.5: c['p_reset'] = rng.choice([0.003, 0.02])
        if hole and rng.random() < 0.25: c['p_hole'] = rng.choice([0.002, 0.01])
    return c


def sched_cfg(rng):
    return {'p_switch': rng.choice([0.0, 0.01, 0.05, 0.3]), 'p_pick': rng.choice([0.0, 0.3, 0.8]),
            'bufsize': rng.choice([8192, 8192, 8192, 512])}


def apply_changes(tree, changes):
    t = dict(tree)
    for c in changes:
        if c['status'] == 'deleted': t.pop(c['path'], None)
        else: t[c['path']] = c['hash']
    return t


def diff(old, new):
    return {p: ('new' if p not in old else 'changed') for p in new if old.get(p) != new[p]}, sorted(p for p in old if p not in new)


def short(tree): return {p: h[:6] for p, h in sorted(tree.items())}

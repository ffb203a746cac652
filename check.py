#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--runs N] [--wall S] [--workers N]

Seeded search over simulated executions for one property.  Exit 0: it held on everything explored;
exit 1 with `VIOLATION property=<id> replay=<path>`: a run violated it (minimised, replayable)."""
import sys, os, json, time, hashlib, subprocess, select, tempfile, shutil, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
if not os.path.exists(PY): PY = sys.executable
import plans

T0 = time.time()


class Pool:
    """worker processes with a wall clock watchdog per job"""

    def __init__(self, n, scratch, limit):
        self.n = n; self.scratch = scratch; self.limit = limit; self.ws = []; self.next = 0
        self.recycle = 400

    def spawn(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_SCRATCH=self.scratch)
        p = subprocess.Popen([PY, '-B', os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL if not os.environ.get('VERIF_DEBUG') else None, env=env, cwd=HERE)
        return {'p': p, 'buf': b'', 'job': None, 'at': 0, 'done': 0}

    def kill(self, w):
        try: w['p'].kill()
        except OSError: pass
        w['p'].wait()
        for f in (w['p'].stdin, w['p'].stdout):
            try: f.close()
            except OSError: pass

    def close(self):
        for w in self.ws: self.kill(w)
        self.ws = []

    def run(self, jobs, on_result, stop):
        """feed jobs (iterator of dicts) until exhausted or stop(); on_result(job, result)"""
        jobs = iter(jobs); more = True
        while True:
            if more and stop(): more = False
            while len(self.ws) < self.n: self.ws.append(self.spawn())
            busy = False
            for w in self.ws:
                if w['job'] is None and more:
                    if w['done'] >= self.recycle:
                        self.kill(w); w.update(self.spawn())
                    j = next(jobs, None)
                    if j is None: more = False; break
                    self.next += 1; j['id'] = self.next
                    w['job'] = j; w['at'] = time.time()
                    try:
                        w['p'].stdin.write(json.dumps(j).encode() + b'\n'); w['p'].stdin.flush()
                    except OSError: pass
            live = [w for w in self.ws if w['job'] is not None]
            if not live:
                if not more: return
                continue
            r, _, _ = select.select([w['p'].stdout for w in live], [], [], 1.0)
            for w in live:
                if w['p'].stdout in r:
                    d = os.read(w['p'].stdout.fileno(), 1 << 20)
                    if not d:
                        j = w['job']; self.kill(w); w.update(self.spawn()); w['job'] = None
                        on_result(j, {'crash': 'worker died'})
                        continue
                    w['buf'] += d
                    if b'\n' in w['buf']:
                        line, w['buf'] = w['buf'].split(b'\n', 1)
                        j = w['job']; w['job'] = None; w['done'] += 1
                        res = json.loads(line); res['wall'] = time.time() - w['at']
                        on_result(j, res)
                elif time.time() - w['at'] > self.limit:
                    j = w['job']; self.kill(w); w.update(self.spawn()); w['job'] = None
                    on_result(j, {'hang': True})


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(('%s|%s|%d' % (base, prop, i)).encode()).digest()[:6], 'big')


def job_stream(spec, base, prop, runs):
    tot = sum(w for _, w, _ in spec['profiles'])
    acc = [0.0] * len(spec['profiles'])
    for i in range(runs):
        # deterministic weighted round robin
        for n, (_, w, _) in enumerate(spec['profiles']): acc[n] += w / tot
        n = max(range(len(acc)), key=lambda x: acc[x]); acc[n] -= 1.0
        prof, _, opts = spec['profiles'][n]
        yield {'profile': prof, 'opts': opts, 'seed': seed_of(base, prop, i), 'index': i}


def merge(d, s):
    for k, v in s.items(): d[k] = d.get(k, 0) + v


# ---------------------------------------------------------------------- known findings
def load_known():
    """lines:  known: property=P property kind=<kind> match=<text> -- what fails      (reported, not an alarm)
               fixed: property=P <commit> <what failed>                               (suppresses nothing)"""
    out = []
    try: f = open(os.path.join(HERE, 'known_findings.txt'))
    except OSError: return out
    with f:
        for l in f:
            if not l.startswith('known:'): continue
            head, _, what = l[6:].strip().partition(' -- ')
            d = {'what': what}
            for kv in head.split(' ', 2):
                a, _, b = kv.partition('='); d[a] = b
            out.append(d)
    return out


def is_known(v, known):
    for d in known:
        if d['property'] == v['property'] and d.get('kind') == v['kind'] and d.get('match', '') in v['detail']: return d
    return None


# ---------------------------------------------------------------------- minimisation
def same(v, r, known):
    return any(x['property'] == v['property'] and x['kind'] == v['kind'] and not is_known(x, known) for x in r.get('violations', ()))


def shrink_lists(plan):
    """paths to lists inside the plan which may be shortened"""
    out = []
    def rec(o, path):
        if isinstance(o, dict):
            for k in sorted(o):
                if k in ('cfg', 'fixed'): continue
                rec(o[k], path + [k])
        elif isinstance(o, list):
            if path and path[-1] in ('steps', 'ops', 'actors', 'actions', 'txs', 'msgs', 'files', 'events'):
                out.append(path)
            for i, x in enumerate(o):
                if isinstance(x, (dict, list)): rec(x, path + [i])
    rec(plan, [])
    return out


def get(o, path):
    for p in path: o = o[p]
    return o


def minimise(pool, v, job, res, known, deadline):
    plan, dec = res['plan'], dict(res['decisions'])
    best = res
    tried = [0]

    def evaluate(cands):
        """cands: list of (plan, decisions) -> index of first that still fails, or None; its result"""
        rs = {}
        def jobs():
            for i, (p, d) in enumerate(cands):
                yield {'profile': job['profile'], 'seed': job['seed'], 'plan': p, 'replay': d, 'want': True, 'ci': i}
        hit = []
        def on(j, r):
            tried[0] += 1
            rs[j['ci']] = r
            if same(v, r, known): hit.append(j['ci'])
        pool.run(jobs(), on, lambda: bool(hit) or time.time() > deadline)
        if hit:
            i = min(hit)
            return i, rs[i]
        return None, None

    i, r = evaluate([(plan, dec)])
    if i is None: return None          # not reproducible by replay: harness trouble
    best = r; dec = r['decisions']
    changed = True
    while changed and time.time() < deadline:
        changed = False
        # plan lists, coarse to fine
        for path in shrink_lists(plan):
            try: lst = get(plan, path)
            except (KeyError, IndexError): continue
            if not isinstance(lst, list): continue
            size = max(1, len(lst) // 2)
            while size >= 1 and time.time() < deadline and lst:
                cands = []
                for s in range(0, len(lst), size):
                    p = json.loads(json.dumps(plan)); del get(p, path)[s:s + size]
                    cands.append((p, dec))
                i, r = evaluate(cands)
                if i is not None:
                    plan = cands[i][0]; best = r; dec = r['decisions']; lst = get(plan, path); changed = True
                    size = min(size, max(1, len(lst)))
                else: size //= 2
        keys = sorted(dec)
        size = max(1, len(keys) // 2)
        while size >= 1 and keys and time.time() < deadline:
            cands = []
            for s in range(0, len(keys), size):
                gone = set(keys[s:s + size])
                cands.append((plan, {k: x for k, x in dec.items() if k not in gone}))
            i, r = evaluate(cands)
            if i is not None:
                dec = r['decisions']; best = r; keys = sorted(dec); changed = True
                size = min(size, max(1, len(keys)))
            else: size //= 2
    return plan, dec, best, tried[0]


# ---------------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int); ap.add_argument('--wall', type=float); ap.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation; print every kind (development)')
    a = ap.parse_args()
    prop = a.prop
    spec = plans.PROPS[prop]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    runs = a.runs or spec[tier][0]; wall = a.wall or spec[tier][1]
    known = [d for d in load_known() if d.get('property') == prop]
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    scratch = tempfile.mkdtemp(prefix='bvcheck-', dir=base)
    pool = Pool(a.workers, scratch, spec.get('hang', 60))
    S = dict(n=0, steps=0, switches=0, sim=0.0, crash=[], harness=[], hang=[], reasons={}, stats={}, probes={}, hs=set(), nt=set(), samples=[], faultruns=0, procs=0,
             other={}, prof={}, faults=0)
    found = []; kinds = {}; knownhit = {}; det = {}; detdiff = []

    def on(j, r):
        if r.get('hang'): S['hang'].append(j); return
        if r.get('crash'): S['crash'].append((j, r['crash'])); return
        if 'det' in j:
            if det.get(j['index']) != (r['h'], r['steps'], len(r['violations'])): detdiff.append(j['index'])
            return
        S['n'] += 1; S['steps'] += r['steps']; S['switches'] += r['switches']; S['sim'] += r['simtime']; S['procs'] += r['procs']
        S['faults'] += r['faults']
        merge(S['stats'], r['stats']); merge(S['probes'], r['probes'])
        S['reasons'][r['reason']] = S['reasons'].get(r['reason'], 0) + 1
        S['prof'][j['profile']] = S['prof'].get(j['profile'], 0) + 1
        S['hs'].add(r['h'])
        if r['faults']: S['faultruns'] += 1
        if r['nontrivial']: S['nt'].add(r['h'])
        if r['harness']: S['harness'].append((j, r['harness'][0]))
        if len(S['samples']) < 5 and r['nontrivial'] and r.get('sample'): S['samples'].append({'seed': j['seed'], 'profile': j['profile'], 'run': r['sample']})
        if j['index'] < 24: det[j['index']] = (r['h'], r['steps'], len(r['violations']))
        for v in r['violations']:
            if v['property'] != prop:
                S['other'][v['property'] + ':' + v['kind']] = S['other'].get(v['property'] + ':' + v['kind'], 0) + 1
                continue
            kd = is_known(v, known)
            if kd: knownhit[kd['what']] = knownhit.get(kd['what'], 0) + 1; continue
            kinds.setdefault(v['kind'], []).append((j, v))
            found.append((j, v, r)); break

    try:
        end = T0 + wall
        pool.run(job_stream(spec, a.seed, prop, runs), on, lambda: time.time() > end or (found and not a.all))
        search_s = time.time() - T0
        # a job that hung on the wall clock (a loop that never reaches a simulated operation) is confirmed in a fresh worker
        hangs = []
        if S['hang'] and not found:
            j = min(S['hang'], key=lambda x: x['index'])
            pool.close()
            conf = []
            pool.run([dict(j)], lambda jj, r: conf.append(r), lambda: False)
            if conf and conf[0].get('hang'): hangs.append(j)
        replay = None; vv = None
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        if found and not a.all:
            found.sort(key=lambda x: x[0]['index'])
            j, v, r = found[0]
            pool.close()
            m = minimise(pool, v, j, r, known, time.time() + spec.get('min_s', 60))
            if m is None:
                plan, dec, best, tried = r['plan'], r['decisions'], r, 0
            else: plan, dec, best, tried = m
            vs = [x for x in best['violations'] if x['property'] == prop and x['kind'] == v['kind']] or [v]
            vv = vs[0]
            replay = os.path.join(HERE, 'evidence', 'replay-%s-%d.json' % (prop, j['seed']))
            with open(replay, 'w') as f:
                json.dump({'property': prop, 'profile': j['profile'], 'seed': j['seed'], 'kind': v['kind'], 'detail': vv['detail'], 'plan': plan, 'decisions': dec,
                           'h': best['h'], 'steps': best['steps'], 'minimised': m is not None, 'tried': tried, 'original_decisions': len(r['decisions'])}, f, indent=1)
        elif hangs and spec.get('hang_is_violation', True):
            j = hangs[0]
            replay = os.path.join(HERE, 'evidence', 'replay-%s-%d.json' % (prop, j['seed']))
            vv = {'kind': 'hang', 'detail': 'the code under test computes for more than %d s without reaching any I/O' % pool.limit}
            with open(replay, 'w') as f:
                json.dump({'property': prop, 'profile': j['profile'], 'seed': j['seed'], 'opts': j.get('opts'), 'kind': 'hang', 'detail': vv['detail'], 'plan': None, 'decisions': None}, f)
        # determinism: the first runs again, in other worker processes
        if not found and not hangs:
            pool.close(); pool.n = min(4, a.workers)
            redo = [dict(x, det=1) for x in job_stream(spec, a.seed, prop, min(24, S['n']))]
            pool.run(redo, on, lambda: time.time() > end + 60)
    finally:
        pool.close()
        shutil.rmtree(scratch, ignore_errors=True)

    wall_s = time.time() - T0
    rate = S['n'] / max(search_s, 1e-9) * 3600
    fired = {k[6:]: n for k, n in sorted(S['stats'].items()) if k.startswith('fault.')}
    cov = dict(evaluations=S['n'], distinct_nontrivial=len(S['nt']),
               rule=spec['rule'] + ' Distinct = different hash of the full sequence of (thread, operation) events of the run.',
               samples=S['samples'] or [{'note': 'no non-trivial run completed'}],
               runs=S['n'], seeds_per_hour=int(rate), simulated_seconds=round(S['sim'], 1), simulated_per_real_second=round(S['sim'] / max(search_s, 1e-9), 1),
               operations=S['steps'], context_switches=S['switches'], processes_simulated=S['procs'], distinct_interleavings=len(S['hs']),
               runs_with_faults=S['faultruns'], faults_total=S['faults'], faults_fired=fired,
               probes={k: n for k, n in sorted(S['probes'].items())}, end_reasons=S['reasons'], profiles=S['prof'],
               harness_errors=len(S['harness']) + len(S['crash']), wall_hangs=len(S['hang']),
               determinism_recheck={'runs': len(det), 'different': len(detdiff)},
               violations_of_other_properties_seen=S['other'],
               real_components=plans.REAL, stub_components=plans.STUB, known_findings_seen=knownhit)
    ev = dict(property=prop, tier=tier, seed=a.seed, level=spec['level'], coverage=cov, assumptions=plans.ASSUME + spec.get('assume', []),
              wall_s=round(wall_s, 2), violations=1 if vv else 0)
    if vv: ev['coverage']['violation'] = {'kind': vv['kind'], 'detail': vv['detail'], 'replay': replay}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

    print('%s %s: %d runs (%d distinct, %d non-trivial), %d faults in %d runs, %.0f simulated s, %.1f s wall, %.0f runs/h' %
          (prop, tier, S['n'], len(S['hs']), len(S['nt']), S['faults'], S['faultruns'], S['sim'], wall_s, rate))
    if fired: print('  faults: ' + ', '.join('%s=%d' % kv for kv in fired.items() if '@' not in kv[0]))
    if S['other']: print('  (other properties: %s)' % S['other'])
    for w, n in sorted(knownhit.items()): pass
    for d in known: print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    if S['harness'] or S['crash']:
        print('  harness errors: %d' % (len(S['harness']) + len(S['crash'])))
        for j, e in (S['harness'] + S['crash'])[:2]: print('   seed', j.get('seed'), j.get('profile'), e[-1200:])
    if detdiff: print('  determinism recheck differs for runs %s' % detdiff[:5])
    if a.all:
        for kd, l in sorted(kinds.items()):
            print('  %s x%d e.g. seed=%d profile=%s: %s' % (kd, len(l), l[0][0]['seed'], l[0][0]['profile'], l[0][1]['detail'][:600]))
        sys.exit(1 if kinds else 0)
    if vv:
        print('  %s: %s' % (vv['kind'], vv['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        sys.exit(1)
    if S['n'] == 0 or len(S['harness']) + len(S['crash']) > 0.5 * (S['n'] + len(S['crash'])):
        print('no answer: the harness could not run the code')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__': main()

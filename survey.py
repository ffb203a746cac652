#!/usr/bin/env python3
"""survey.py <profile> [runs] [opts-json] [base-seed]: every kind of violation of every property, with an example seed (development)"""
import sys, os, json, time, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check
prof = sys.argv[1]; runs = int(sys.argv[2]) if len(sys.argv) > 2 else 1000
opts = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
base = int(sys.argv[4]) if len(sys.argv) > 4 else 1
scratch = tempfile.mkdtemp(prefix='bvsurvey-', dir='/dev/shm')
pool = check.Pool(8, scratch, 25)
kinds = {}; n = [0]; reasons = {}; hang = []; crash = []; slow = []; probes = {}; stats = {}; nt = [0]; steps = [0]; top = [0]
def on(j, r):
    if r.get('hang'): hang.append(j['seed']); return
    if r.get('crash'): crash.append((j['seed'], r['crash'])); return
    n[0] += 1; reasons[r['reason']] = reasons.get(r['reason'], 0) + 1; steps[0] += r['steps']; top[0] = max(top[0], r['steps'])
    check.merge(probes, r['probes']); check.merge(stats, r['stats']); nt[0] += r['nontrivial']
    slow.append((round(r['wall'], 2), j['seed']))
    for h in r['harness']: crash.append((j['seed'], h))
    seen = set()
    for v in r['violations']:
        kd = v['property'] + ':' + v['kind']
        if kd in seen: continue
        seen.add(kd)
        kinds.setdefault(kd, []).append((j['seed'], v['detail']))
def jobs():
    for i in range(runs): yield {'profile': prof, 'opts': opts, 'seed': base * 1000000 + i}
t = time.time()
try: pool.run(jobs(), on, lambda: False)
finally: pool.close(); shutil.rmtree(scratch, ignore_errors=True)
print(n[0], 'runs', nt[0], 'nontrivial', '%.1f s' % (time.time() - t), reasons, 'steps/run', steps[0] // max(1, n[0]), 'max', top[0], 'slowest', sorted(slow)[-3:])
if '-v' in sys.argv or os.environ.get('V'): print('probes', dict(sorted(probes.items()))); print('stats', dict(sorted(stats.items())))
if hang: print('HANG', hang)
for s, e in crash[:3]: print('CRASH', len(crash), s, e[-1500:])
for kd, l in sorted(kinds.items()):
    l.sort(key=lambda x: x[0])
    print('%s x%d seeds %s\n     %s' % (kd, len(l), [x[0] for x in l[:5]], l[0][1][:500]))

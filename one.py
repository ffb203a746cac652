#!/usr/bin/env python3
"""one.py <profile> <seed> [opts-json] [--trace] [--plan]: a single run (development)"""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(PY, [PY, '-B'] + [os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, HERE)
from sim import env, runner
env.install(); env.load_sources()
if os.environ.get("VERIF_STACKS"):
    import threading, sim.kernel as kk
    def dump():
        sys.stdout = sys.__stdout__
        print("\n".join(kk.K.trace[-40:]) if kk.K.trace else ""); print([(t.name,t.state,t.where) for p in kk.K.procs for t in p.threads]); print("cur", kk.K.cur and kk.K.cur.name, kk.K.stopping)
    import signal; signal.signal(signal.SIGALRM, lambda *a: dump()); signal.alarm(int(os.environ['VERIF_STACKS']) - 1)
    import faulthandler; faulthandler.dump_traceback_later(float(os.environ["VERIF_STACKS"]))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opts = json.loads(args[2]) if len(args) > 2 else {}
plan = runner.make_plan(args[0], int(args[1]), opts)
if '--plan' in sys.argv: print(json.dumps(plan, indent=1))
r = runner.run_one(args[0], plan, int(args[1]), None, '--trace' in sys.argv)
if '--trace' in sys.argv: print('\n'.join(r['trace']))
for k in ('reason', 'steps', 'switches', 'simtime', 'stats', 'probes', 'sample', 'h'): print(k, r[k])
for h in r['harness']: print('harness:', h)
for v in r['violations']: print(v)

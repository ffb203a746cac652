#!/usr/bin/env python3
"""replay.py <replay file> [--trace]: re-executes one recorded run exactly. Exit 1 if the violation shows again."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(PY, [PY, '-B'] + [os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, HERE)
from sim import env, runner
env.install(); env.load_sources()
j = json.load(open(sys.argv[1]))
tr = '--trace' in sys.argv
plan = j['plan'] or runner.make_plan(j['profile'], j['seed'], j.get('opts'))
r = runner.run_one(j['profile'], plan, j['seed'], j['decisions'], tr)
if tr: print('\n'.join(r['trace']))
print('reason=%s steps=%d h=%d (recorded: steps=%s h=%s)' % (r['reason'], r['steps'], r['h'], j.get('steps'), j.get('h')))
for h in r['harness']: print('harness:', h)
bad = 0
for v in r['violations']:
    print('%s %s at %.6f s, step %d: %s' % (v['property'], v['kind'], v['at'], v['step'], v['detail']))
    bad |= v['property'] == j['property'] and v['kind'] == j['kind']
if bad: print('VIOLATION property=%s replay=%s' % (j['property'], sys.argv[1]))
sys.exit(1 if bad else 0)

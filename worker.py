"""Worker process: reads jobs (JSON lines) on stdin, writes results (JSON lines) on stdout."""
import sys, os, json, gc, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
inp = sys.stdin.buffer
out = os.fdopen(os.dup(1), 'wb')
from sim import env, runner
env.install(); env.load_sources()


def main():
    n = 0
    while True:
        line = inp.readline()
        if not line: return
        job = json.loads(line)
        try:
            plan = job.get('plan')
            if plan is None: plan = runner.make_plan(job['profile'], job['seed'], job.get('opts'))
            r = runner.run_one(job['profile'], plan, job['seed'], job.get('replay'), job.get('trace', False))
            # the plan and the decisions travel back only when somebody needs them
            if r['violations'] or job.get('want'): r['plan'] = plan
            else: r.pop('decisions')
        except Exception:
            r = {'crash': traceback.format_exc()}
        r['job'] = job['id']
        out.write(json.dumps(r).encode() + b'\n'); out.flush()
        n += 1
        if n % 4 == 0: gc.collect()


main()

"""mkseed.py <def.py>...: build /verif/seeded/<id> from a definition, and check it counts.
A definition sets: prop, needs, breaks, edits=[(file, old, new), ...], demo (source; demo_lib is imported)."""
import os, sys, json, shutil, subprocess, threading
lock = threading.Lock()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def build(fn):
    ns = {}; exec(open(fn).read(), ns)
    bid = os.path.basename(fn)[:-3]; d = V + '/seeded/' + bid
    scratch = '/tmp/seed-' + bid
    shutil.rmtree(scratch, ignore_errors=True); shutil.copytree('/repo', scratch, symlinks=True)
    os.makedirs(d, exist_ok=True)
    blame_ok = False
    for f, old, new in ns['edits']:
        p = scratch + '/' + f; s = open(p).read()
        if s.count(old) != 1: return bid, 'edit matches %d times: %s' % (s.count(old), old[:60])
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', scratch).stdout
    open(d + '/patch.diff', 'w').write(diff)
    # removed / adjacent original lines
    n_orig = 0
    cur = None; ln = 0
    for line in diff.splitlines():
        if line.startswith('--- a/'): cur = line[6:]; bl = sh('git blame -s ' + cur, '/repo').stdout.splitlines()
        elif line.startswith('@@'): ln = int(line.split()[1][1:].split(',')[0]) - 1
        elif line.startswith('-'):
            if bl[ln].startswith('^'): n_orig += 1
            ln += 1
        elif line.startswith('+'): pass
        elif cur and line.startswith(' '): ln += 1
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.copy(V + '/tools/demo_lib.py', d + '/demo_lib.py')
    open(d + '/demo.py', 'w').write('from demo_lib import *\n\n' + ns['demo'].strip('\n') + "\n\nprint('holds')\n")
    open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    a = sh('timeout 280 bash %s/demo.sh' % d, '/repo'); b = sh('timeout 280 bash %s/demo.sh' % d, scratch)
    t = ''
    if '--notest' not in sys.argv:
        with lock: t = sh("PYTHONPATH=/opt/vp/plugins PYTHONDONTWRITEBYTECODE=1 timeout 200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p sorted_listdir tests 2>&1 | tail -2", scratch).stdout.strip()
    shutil.rmtree(scratch, ignore_errors=True)
    ok = a.returncode == 0 and b.returncode != 0 and n_orig > 0
    return bid, '%s original lines changed %d, demo unchanged rc=%d, patched rc=%d [%s] tests: %s%s' % (
        'OK  ' if ok else 'BAD ', n_orig, a.returncode, b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:], t.replace('\n', ' '),
        '' if ok else '\n--- unchanged\n' + (a.stdout + a.stderr)[-350:] + '\n--- patched\n' + (b.stdout + b.stderr)[-350:])


from concurrent.futures import ThreadPoolExecutor
if __name__ == '__main__':
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(build, [a for a in sys.argv[1:] if a.endswith('.py')]): print(*r)

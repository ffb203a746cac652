"""Helpers for the demonstrations: a real server and real clients in a scratch directory (run with cwd = the repository)."""
import os, sys, json, base64, hashlib, socket, subprocess, tempfile, time, shutil, atexit, threading
REPO = os.getcwd()
PY = sys.executable
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix='bvdemo-')
procs = []


def _clean():
    for p in procs:
        try: p.kill(); p.wait()
        except Exception: pass
    shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_clean)
import pysodium


def die_late():
    time.sleep(240); print('demonstration timed out'); sys.stdout.flush()
    _clean(); os._exit(3)


threading.Thread(target=die_late, daemon=True).start()


def keys(name): return pysodium.crypto_sign_seed_keypair(hashlib.sha256(b'demo-' + name.encode()).digest())


def b64(x): return base64.b64encode(x).decode()


ENV = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', HOME=SCRATCH)
USERS = ('ann', 'bob')


def repo_path(name='r'): return SCRATCH + '/srv/' + name


def free_port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p


class Server:
    def __init__(self, repos=('r',), patch='', perms=None):
        for r in repos: os.makedirs(repo_path(r), exist_ok=True)
        self.conf = {'repositories': {r: {'path': repo_path(r)} for r in repos}, 'listen': '127.0.0.1',
                     'users': {u: {'public_key': b64(keys(u)[0]), 'uses_repositories': list((perms or {}).get(u, repos))} for u in USERS}}
        self.start(patch)

    def start(self, patch=''):
        for attempt in range(5):
            self.port = self.conf['listen_port'] = free_port()
            f = SCRATCH + '/server%d.json' % self.port
            with open(f, 'w') as h: json.dump(self.conf, h)
            self.p = run_script('bvn_server', ['-c', f], patch, SCRATCH, wait=False)
            for _ in range(400):
                try: socket.create_connection(('127.0.0.1', self.port), 1).close(); return
                except OSError: time.sleep(0.05)
                if self.p.poll() is not None: break
        raise SystemExit('server does not start')

    def kill(self): self.p.kill(); self.p.wait()


def run_script(script, args, patch='', cwd=None, wait=True, stdin=''):
    code = 'import sys, os\nsys.argv = %r\nsys.path.insert(0, %r)\n%s\nimport runpy\nrunpy.run_path(%r, run_name="__main__")\n' % ([script] + list(args), REPO, patch, REPO + '/cli_tools/' + script)
    p = subprocess.Popen([PY, '-c', code], cwd=cwd, env=ENV, stdin=subprocess.PIPE, stdout=subprocess.PIPE if wait else subprocess.DEVNULL, stderr=subprocess.STDOUT if wait else subprocess.DEVNULL)
    if not wait: procs.append(p); return p
    try: out, _ = p.communicate(stdin.encode(), 60)
    except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate(); out += b'\nTIMEOUT'
    p.text = out.decode('utf8', 'replace')
    return p


class WC:
    def __init__(self, srv, name, user='ann', repo='r'):
        self.d = SCRATCH + '/wc/' + name; self.srv = srv; self.user = user; self.repo = repo
        os.makedirs(self.d + '/.bvn')

    def bvn(self, *args, stdin='', patch='', ok=True):
        with open(self.d + '/.bvn/client_configuration.json', 'w') as h:
            json.dump({'server_domain': 'http://127.0.0.1:%d' % self.srv.port, 'repository': self.repo, 'user': self.user, 'private_key': b64(b'n' + keys(self.user)[1])}, h)
        p = run_script('bvn', args, patch, self.d, stdin=stdin)
        if ok and p.returncode != 0: raise SystemExit('unexpected failure of bvn %s:\n%s' % (' '.join(args), p.text))
        return p

    def put(self, path, data, mtime=None):
        f = self.d + path; os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as h: h.write(data)
        n = time.time_ns() if mtime is None else mtime
        os.utime(f, ns=(n, n))

    def get(self, path):
        try: return open(self.d + path, 'rb').read()
        except OSError: return None

    def rm(self, path): os.remove(self.d + path)

    def tree(self):
        out = {}
        for base, dirs, files in os.walk(self.d):
            if '.bvn' in dirs: dirs.remove('.bvn')
            for f in files: out[(base + '/' + f)[len(self.d):]] = open(base + '/' + f, 'rb').read()
        return out


def check(cond, msg):
    if not cond: print('BROKEN: ' + msg); sys.stdout.flush(); _clean(); os._exit(1)


def head(repo='r'):
    try: return open(repo_path(repo) + '/head').read()
    except OSError: return 'root'


def objects(repo='r'):
    out = set()
    for kind in ('index', 'files'):
        for a in os.listdir(repo_path(repo) + '/' + kind):
            for b in os.listdir(repo_path(repo) + '/%s/%s' % (kind, a)): out.add((kind, a + b))
    return out

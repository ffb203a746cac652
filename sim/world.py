"""The simulated installation: servers, working copies, users, and protocol-level clients."""
import os, json, base64, hashlib, shutil, tempfile
import pysodium
from . import kernel as kn, fsim, netsim, env, store
from .kernel import SimKilled, HarnessError, Kernel
from .fsim import real

USERS = ('ann', 'bob', 'cat')


def user_keys(name):
    pk, sk = pysodium.crypto_sign_seed_keypair(hashlib.sha256(b'verif-user-' + name.encode()).digest())
    return pk, sk


KEYS = {u: user_keys(u) for u in USERS + ('eve',)}


def scratch_base():
    return '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'


class Result:
    def __init__(self, p, timed_out):
        self.p = p; self.name = p.name; self.code = p.exit_code; self.out = ''.join(p.out); self.err = ''.join(p.err)
        self.exc = p.exc; self.killed = p.killed; self.interrupted = p.interrupted
        self.errs = p.tag.get('errs', 0); self.timed_out = timed_out
        self.tb = p.tb
        p.out = []; p.err = []

    @property
    def undisturbed(self): return not (self.killed or self.interrupted or self.errs or self.timed_out)

    def __repr__(self):
        return 'Result(code=%s exc=%s%s%s%s)' % (self.code, type(self.exc).__name__ + ':' + str(self.exc)[:80] if self.exc is not None else None,
                                               ' killed' if self.killed else '', ' intr' if self.interrupted else '', ' errs=%d' % self.errs if self.errs else '')


class World:
    def __init__(self, k, scratch):
        self.k = k; self.dir = scratch; k.scratch = scratch; k.world = self
        k.net = netsim.Net(k)
        self.repos = {}; self.monitors = {}; self.servers = []; self.conf = None; self.nserver = 0
        self.users = {u: {'public_key': base64.b64encode(KEYS[u][0]).decode(), 'uses_repositories': []} for u in USERS}

    # -- configuration (before or between server starts)
    def add_repo(self, name, users=USERS, override=False, monitor=True, **extra):
        path = self.dir + '/srv/' + name
        real.os_makedirs(path, exist_ok=True)
        d = {'path': path}
        if override:
            real.os_makedirs(self.dir + '/dbs', exist_ok=True)
            d['transient_db_path_override'] = self.dir + '/dbs/%s.db' % name
        d.update(extra)
        self.repos[name] = d
        for u in users: self.users[u]['uses_repositories'].append(name)
        if monitor: self.monitors[name] = store.StoreMonitor(self.k, path, name)
        return path

    def path(self, repo): return self.repos[repo]['path']

    def write_conf(self, port=8090, fname='server.json'):
        c = {'repositories': {n: dict(d) for n, d in self.repos.items()}, 'users': self.users, 'listen': '', 'listen_port': port}
        c.update(getattr(self, 'extra_conf', {}))
        with real.open(self.dir + '/' + fname, 'w') as f: json.dump(c, f)
        return self.dir + '/' + fname

    # -- server processes
    def start_server(self, port=8090, wait=True):
        """called from an actor"""
        self.nserver += 1
        conf = self.write_conf(port, 'server%d.json' % port)
        p = self.k.new_proc('srv%d' % self.nserver, 'server', self.dir, ['bvn_server', '-c', conf])
        p.write_roots = [d['path'] for d in self.repos.values()] + [self.dir + '/dbs']
        p.tag['port'] = port
        p.tag['perms'] = {u: list(d['uses_repositories']) for u, d in self.users.items()}
        self.servers.append(p)
        self.k.spawn(p, env.run_script, (p, 'bvn_server'))
        if wait:
            while port not in self.k.net.listeners and not p.exited:
                self.k.block('server start', self.k.now + 0.01)
        return p

    def live_server(self, port=8090):
        for p in self.servers:
            if p.alive and not p.exited and p.tag['port'] == port: return p
        return None

    def ensure_server(self, port=8090, tries=8):
        for _ in range(tries):
            p = self.live_server(port)
            if p is not None and port in self.k.net.listeners: return p
            if p is not None:
                self.k.sleep(0.05); continue
            p = self.start_server(port)
        return self.live_server(port)

    def quiet(self):
        """faults stop"""
        self.k.faults_on = False
        self.k.net.calm()
        self.k.err_windows.clear()

    # -- working copies and the command line client
    def make_wc(self, name, repo, user, port=8090):
        d = self.dir + '/wc/' + name
        real.os_makedirs(d + '/.bvn')
        with real.open(d + '/.bvn/client_configuration.json', 'w') as f:
            json.dump(self.client_conf(repo, user, port), f)
        return d

    def client_conf(self, repo, user, port=8090):
        return {'server_domain': 'http://server:%d' % port, 'user': user, 'repository': repo,
                'private_key': base64.b64encode(b'n' + KEYS[user][1]).decode()}

    def start_cli(self, d, args, inputs=None, host='10.0.0.1', tool='bvn', name=None, cwd=None):
        k = self.k
        p = k.new_proc(name or os.path.basename(d), 'cli' if tool == 'bvn' else 'tool', cwd or d, [tool] + list(args), host)
        p.write_roots = [d] if tool == 'bvn' else None
        p.tag['tool'] = args[0] if tool == 'bvn_repo' and args else tool
        if callable(inputs): p.input_handler = inputs
        elif inputs is not None:
            left = list(inputs)
            def h(proc):
                if not left: raise EOFError()
                return left.pop(0)
            p.input_handler = h
        k.spawn(p, env.run_script, (p, tool))
        return p

    def cli(self, d, args, inputs=None, host='10.0.0.1', tool='bvn', timeout=3000.0, name=None, cwd=None):
        """run one command to its end (called from an actor)"""
        p = self.start_cli(d, args, inputs, host, tool, name, cwd)
        return self.finish_cli(p, timeout)

    def finish_cli(self, p, timeout=3000.0):
        k = self.k; to = False
        if not k.wait_proc(p, timeout):
            to = True
            k.stat('user.ctrl_c_after_hang')
            k.interrupt(p)
            if not k.wait_proc(p, 60.0): k.kill(p, 'user kill -9')
        r = Result(p, to)
        k.log('%s -> %r' % (' '.join(p.argv), r))
        return r

    def start_tool(self, args, conf=None, name=None):
        """cli_tools/bvn_repo as a simulated process; its fixed configuration path is mapped to the run's file"""
        p = self.k.new_proc(name or 'tool-' + args[0], 'tool', self.dir, ['bvn_repo'] + list(args))
        p.write_roots = [d['path'] for d in self.repos.values()] + [d['path'] + '_restore' for d in self.repos.values()] + [self.dir + '/dbs']
        p.tag['tool'] = args[0]
        p.tag['etc'] = conf or self.write_conf(8090, 'etc.json')
        self.k.spawn(p, env.run_script, (p, 'bvn_repo'))
        return p

    # -- user's own edits (atomic, never faulted)
    def put(self, path, data, age=None):
        """a user writes a file; age: replaced by one with another time (mv, cp -p, an unpacked archive)"""
        k = self.k
        k.op('edit')
        real.os_makedirs(os.path.dirname(path), exist_ok=True)
        old = real.os_stat(path).st_mtime_ns if age and fsim.real_isfile(path) else None
        with real.open(path, 'wb') as f: f.write(data)
        fsim.stamp(k, path)
        if age:
            self.nage = getattr(self, 'nage', 0) + 1
            t = real.os_stat(path).st_mtime_ns; n = 1_000_500 + (500_000 << min(self.nage, 38))       # (no two files' times agree, nor do steps back and forth cancel out)
            if age == 'past': t -= 10**15 + n
            elif age == 'future': t += 10**15 + n
            elif old is not None: t = old + (n if age == 'later' else -n)
            k.probe('edit.' + age)
            real.os_utime(path, ns=(t, t))
        fsim.notify(k, 'edit', path)

    def rm(self, path):
        self.k.op('edit')
        real.os_remove(path)
        fsim.notify(self.k, 'edit', path)


def read_tree(d, skip=('.bvn',)):
    """all regular files below d: {'/rel': bytes}"""
    out = {}
    def rec(p, rel):
        try: names = sorted(real.os_listdir(p))
        except FileNotFoundError: return
        for n in names:
            if rel == '' and n in skip: continue
            f = p + '/' + n
            if fsim.real_isdir(f): rec(f, rel + '/' + n)
            else:
                try: out[rel + '/' + n] = store.rd(f)
                except OSError: out[rel + '/' + n] = None
    rec(d, '')
    return out


# ---------------------------------------------------------------------- protocol-level client
class Lost(Exception):
    """the connection broke before a complete reply arrived"""


class Raw:
    """Speaks the wire protocol directly (written independently of the client under test)."""

    def __init__(self, w, repo, user, port=8090, timeout=700.0):
        self.w = w; self.k = w.k; self.repo = repo; self.user = user; self.port = port
        self.s = None; self.tokens = {}; self.timeout = timeout; self.nreq = 0
        self.last = 0.0            # time of the last complete reply
        self.busy = False          # a request is under way
        self.srv = None            # server process of this connection

    def connect(self):
        if self.s is not None: self.close()
        s = netsim.SimSocket(netsim.Endpoint())
        s.settimeout(self.timeout)
        self.srv = None
        try: s.connect(('server', self.port))
        except OSError as e: raise Lost('connect: %s' % e)
        self.s = s; self.last = self.k.now
        l = self.k.net.listeners.get(self.port)
        self.srv = l.proc if l is not None else None

    def close(self, reset=False):
        s, self.s = self.s, None
        if s is not None:
            if reset: s.ep.abort()
            else: s.close()

    def healthy(self):
        """this connection certainly works: nothing has happened to it that would make the server end it"""
        if self.s is None or self.busy: return False
        ep = self.s.ep; c = ep.conn
        if c is None or c.hole or c.b is None or c.b.closed or not c.b.proc.alive: return False
        for p in (c.ab, c.ba):
            if p.rst_at is not None or p.eof_at is not None or p.closed_at is not None: return False
        return self.k.now - self.last < 250.0

    def disturbed(self):
        """faults may explain an error on this connection"""
        if self.s is None: return True
        c = self.s.ep.conn
        if c is None or c.hole or c.b is None: return True
        p = c.b.proc
        return (not p.alive) or any(q.tag.get('errs', 0) > 0 for q in self.w.servers) or any(x.rst_at is not None for x in (c.ab, c.ba))

    def send_request(self, action, headers, body=b'', cut=None):
        """cut: send only that many bytes, then drop the connection"""
        if self.s is None: raise Lost('not connected')
        self.busy = True
        h = {'Host': 'server', 'Content-Type': 'application/octet-stream', 'Content-Length': str(len(body)), 'User-Agent': 'sim'}
        h.update(headers)
        pre = ('POST /%s HTTP/1.1\r\n' % action + ''.join('%s: %s\r\n' % kv for kv in h.items()) + '\r\n').encode('utf8')
        data = pre + body
        if cut is not None:
            n = cut % len(data)
            try: self.s.sendall(data[:n])
            except OSError: pass
            self.close()
            raise Lost('cut')
        try:
            self.s.sendall(data)
        except OSError as e:
            d = self.disturbed(); self.close(); x = Lost('send: %s' % e); x.disturbed = d; raise x

    def read_reply(self):
        buf = b''
        try:
            while b'\r\n\r\n' not in buf:
                d = self.s.recv(4096)
                if not d: raise Lost('eof in header')
                buf += d
            pre, buf = buf.split(b'\r\n\r\n', 1)
            lines = pre.decode('utf8').split('\r\n')
            hd = {}
            for l in lines[1:]:
                a, _, b = l.partition(':')
                hd[a.strip().lower()] = b[1:] if b[:1] == ' ' else b
            n = int(hd['content-length'])
            while len(buf) < n:
                d = self.s.recv(min(65536, n - len(buf)))
                if not d: raise Lost('eof in body')
                buf += d
            if len(buf) != n: raise Lost('extra bytes after reply')
        except (Lost, ValueError, KeyError, OSError) as e:
            d = self.disturbed(); self.close()
            x = e if isinstance(e, Lost) else Lost('%s: %s' % (type(e).__name__, e))
            x.disturbed = d
            raise x
        self.nreq += 1; self.last = self.k.now; self.busy = False
        return hd, buf

    def req(self, action, headers=None, body=b'', auth=True, repo=None, cut=None):
        repo = repo or self.repo
        h = {'repository': repo}
        if auth: h['session_token'] = self.tokens.get(repo, 'none')
        h.update(headers or {})
        self.send_request(action, h, body, cut)
        return self.read_reply()

    # -- convenience
    def login(self, user=None, sign_as=None, repo=None):
        h, _ = self.req('begin_auth', auth=False, repo=repo)
        if h.get('status') != 'ok': return h
        return self.login_with(h['auth_token'], user or self.user, sign_as or user or self.user, repo)

    def sign(self, token, sign_as): return base64.b64encode(pysodium.crypto_sign_detached(token, KEYS[sign_as][1])).decode()

    def login_with(self, token, user, sign_as, repo=None, version='3'):
        h, _ = self.req('authenticate', {'client_version': version, 'auth_token': token, 'signature': self.sign(token, sign_as), 'user': user}, auth=False, repo=repo)
        if h.get('status') == 'ok': self.tokens[repo or self.repo] = h['session_token']
        return h

    def begin(self, base, repo=None, cut=None): return self.req('begin_commit', {'user': self.user, 'previous_revision': base}, repo=repo, cut=cut)
    def push(self, path, data, repo=None, cut=None): return self.req('push_file', {'path': path}, data, repo=repo, cut=cut)
    def delete(self, paths, repo=None, cut=None):
        return self.req('delete_files', {}, json.dumps({'files': json.dumps([{'path': p} for p in paths])}).encode(), repo=repo, cut=cut)
    def finish(self, mode, msg='', repo=None, cut=None): return self.req('commit', {'mode': mode, 'commit_message': msg}, repo=repo, cut=cut)

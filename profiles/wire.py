"""The HTTP layer by itself: the real HTTPServer with a handler that reports what it was given, the real client_http_request,
and peers that send nonsense, stop half way or fall silent.  Bodies from nothing to more than two of the blocks they are
read in, on a network that splits, delays, resets and loses.

Oracle: what was handed in on one side is what comes out on the other, in order, or the connection fails; it may only fail
if something happened to it."""
import json
from sim import kernel as kn, fsim, store, world, env, netsim
from sim.kernel import SimKilled
from .common import sched_cfg, net_cfg

MAX_STEPS = 600_000
ESCAPE_PROPS = ('P13',)
PORT = 8090
SIZES = [0, 0, 1, 2, 100, 1000, 1023, 1024, 1025, 3000, 4095, 4096, 4097, 8192, 9999, 10000, 10001, 65535, 65536, 70001]
BIG = [999_999, 1_000_000, 1_000_001, 1_300_000, 2_000_000, 2_000_003]
VALUES = ['', 'x', ' leading', 'trailing ', '  both  ', 'a:b', 'a: b:', '\u00fc\u4e2d', '%20+&=', '\ttab\t', '"quoted"', 'x' * 1100, '\u00e9' * 700, '0', '\\', 'a\u2028b', '\u00a0nbsp\u00a0', '{"a": [1, 2]}']
NONSENSE = [b'GET / HTTP/1.1\r\nContent-Length: 0\r\n\r\n', b'POST / HTTP/1.1\r\n\r\n', b'POST /x HTTP/1.1\r\nContent-Length: abc\r\n\r\n', b'POST /x HTTP/1.1\r\nContent-Length: -5\r\n\r\n', b'POST /x\r\n\r\n',
            b'\xff\xfe\xfd\r\n\r\n', b'\r\n\r\n', b'POST /x HTTP/1.1\r\nno colon\r\n\r\n', b'\0' * 50, b'POST /x HTTP/1.1\r\nContent-Length: 10\r\n\r\n123', b'POST /cut HTTP/1.1\r\nContent-Le', b'',
            b'POST /x HTTP/1.1\r\nContent-Length: 3000000\r\nx-mode: all\r\n\r\n' + b'y' * 5000]


def gen(rng, o):
    cfg = sched_cfg(rng)
    cfg['budget'] = {}
    kinds = []
    if rng.random() < 0.6: kinds = [x for x in ('crash', 'net') if rng.random() < 0.6]
    cfg['net'] = net_cfg(rng, 'net' in kinds)
    if 'net' in kinds: cfg['budget'].update(reset=rng.randint(1, 3), hole=rng.randint(0, 2))
    if 'crash' in kinds: cfg['crash'] = {'server': rng.choice([0.0005, 0.003])}; cfg['budget']['crash:server'] = rng.randint(1, 2)
    big = rng.random() < 0.12
    if big: cfg['net']['window'] = 65536; cfg['net'].pop('p_short', None)
    actors = []
    for i in range(rng.randint(1, 4)):
        if rng.random() < 0.25:
            steps = [{'t': 'bad', 'what': rng.randrange(len(NONSENSE)), 'cut': rng.randrange(200) if rng.random() < 0.4 else None, 'then': rng.choice(['close', 'reset', 'stay', 'stay', 'drip'])} for _ in range(rng.randint(1, 3))]
        else:
            steps = []
            for _ in range(rng.randint(1, 7)):
                if rng.random() < 0.1: steps.append({'t': 'sleep', 's': rng.choice([0.01, 1.0, 100.0, 290.0, 310.0])}); continue
                if rng.random() < 0.06: steps.append({'t': 'connect'}); continue
                k = rng.choice(['request', 'request', 'gen', 'file', 'file'])
                st = {'t': k, 'n': size(rng, big), 'r': size(rng, big), 'file': rng.random() < 0.5, 'mode': rng.choice(['all', 'all', 'blocks', 'blocks', 'part', 'none']), 'bs': rng.choice([1, 100, 1000, 4096, 1000000]),
                      'h': [rng.randrange(len(VALUES)) for _ in range(rng.choice([0, 1, 2, 5]))], 'rh': [rng.randrange(len(VALUES)) for _ in range(rng.choice([0, 1, 2, 5]))]}
                if k == 'file' and rng.random() < 0.12:
                    st['change'] = rng.choice(['grow', 'shrink'])
                    if big: st['n'] = rng.choice(BIG[2:])
                if st['bs'] == 1 and st['n'] > 5000: st['bs'] = 1000
                if st['n'] > 100000: st['bs'] = rng.choice([65536, 999999, 1000000, 1000001])
                steps.append(st)
        actors.append({'steps': steps})
    return {'cfg': cfg, 'fixed': {}, 'actors': actors}


def size(rng, big): return rng.choice(BIG) if big and rng.random() < 0.3 else rng.choice(SIZES) if rng.random() < 0.8 else rng.randint(0, 12000)


def data(n, salt):
    b = bytes((salt * 7 + i * 13 + 1) & 255 for i in range(251)) + b'\r\n\r\nPOST /x HTTP/1.1\r\n\r\n%d' % salt
    return (b * (n // len(b) + 1))[:n]


class S: pass


def setup(k, w, plan):
    s = S(); s.k = k; s.w = w; s.usable = False
    s.reqs = {}; s.nreq = 0; s.answered = 0; s.ended = {}; s.conns = {}; s.cut_seen = 0; s.dead = set()
    s.dir = w.dir + '/srv/wire'
    fsim.real.os_makedirs(s.dir, exist_ok=True)
    s.summary = lambda: {'requests': s.nreq, 'answered': s.answered, 'connections': len(k.net.conns)}
    s.nontrivial = False
    return s


# ---------------------------------------------------------------------- the server
def start_server(s):
    k = s.k; w = s.w; w.nserver += 1
    p = k.new_proc('srv%d' % w.nserver, 'server', w.dir)
    p.write_roots = [s.dir]; p.tag['port'] = PORT
    w.servers.append(p)
    k.spawn(p, serve, (s, p))
    while PORT not in k.net.listeners and not p.exited: k.block('server start', k.now + 0.01)
    return p


def ensure(s):
    for _ in range(8):
        p = s.w.live_server(PORT)
        if p is not None and PORT in s.k.net.listeners: return p
        if p is not None: s.k.sleep(0.05); continue
        start_server(s)
    return s.w.live_server(PORT)


def serve(s, p):
    m = env.load_module(p, 'bversion.http.http_server')
    def handler(rq, ctx):
        key = (p.name, rq.remote_addr, rq.remote_port)
        if key not in s.conns:
            s.conns[key] = []
            def down(): s.ended[key] = s.ended.get(key, 0) + 1
            ctx.shutdown_handler = down
        return handle(s, m, rq, s.conns[key])
    m.HTTPServer('', PORT, handler)


def handle(s, m, rq, seen):
    k = s.k; h = rq.headers
    if 'x-id' not in h: return m.Responce({'status': 'nonsense'}, b'')
    r = s.reqs.get(h['x-id'])
    if r is None: k.violate('P13', 'request-invented', str(h)[:200]); return m.Responce({}, b'')
    r['arrived'] += 1
    if r['arrived'] > 1: k.violate('P13', 'request-twice', r['id'])
    if seen and seen[-1]['seq'] >= r['seq']: k.violate('P13', 'request-order', '%s after %s' % (r['id'], seen[-1]['id']))
    seen.append(r)
    if rq.uri != r['uri']: k.violate('P13', 'uri-differs', '%r is %r' % (r['uri'], rq.uri))
    for a, b in r['headers'].items():
        if h.get(a) != b: k.violate('P13', 'header-differs', 'request %s: %r is %r' % (a, b[:60], str(h.get(a))[:60])); break
    st = r['st']; mode = st['mode']; want = r['body']; got = None
    # an exception here means the connection has failed, the caller sees it
    if mode == 'all': got = rq.body.read_all(); full = True
    elif mode == 'blocks':
        got = b''; full = True
        while True:
            x = rq.body.read(st['bs'])
            if x is None: break
            got += x
            if x == b'' or len(x) > st['bs']: k.violate('P13', 'block-size', '%d of %d' % (len(x), st['bs'])); break
            if len(got) > int(h['content-length']): break
    elif mode == 'part':
        x = rq.body.read(st['bs']); got = x or b''; full = x is None
    else: got = b''; full = False
    if full and (got != want if want is not None else len(got) != int(h['content-length'])):
        k.violate('P13', 'body-differs', 'request %s: %d bytes sent, %d taken for all of it%s' % (r['id'], r['length'], len(got), '' if want is None or len(got) != len(want) else ', others'))
    elif want is not None and not want.startswith(got): k.violate('P13', 'body-differs', 'request %s: not the beginning of what was sent' % r['id'])
    r['handled'] = True
    body = r['reply']
    if st['file']:
        f = s.dir + '/' + r['id']
        with fsim.real.open(f, 'wb') as x: x.write(body)
        body = m.ServeFile(f)
    return m.Responce({a: v.encode('utf8') if i % 2 else v for i, (a, v) in enumerate(r['rheaders'].items())}, body)


# ---------------------------------------------------------------------- clients
class Client:
    def __init__(self, s, i, spec): self.s = s; self.i = i; self.spec = spec; self.c = None; self.left = False

    def disturbed(self):
        ep = self.c.c.s.ep; c = ep.conn
        return c is None or c.hole or c.b is None or not c.b.proc.alive or c.ab.rst_at is not None or c.ba.rst_at is not None or self.start - self.last >= 299

    def go(self, p):
        s = self.s; k = s.k
        m = env.load_module(p, 'bversion.http.client_http_request')
        for st in self.spec['steps']:
            if st['t'] == 'sleep': k.sleep(st['s'])
            elif st['t'] == 'bad': self.bad(st)
            elif st['t'] == 'connect': self.drop()
            else: self.request(m, st)
        self.drop()

    def drop(self):
        c, self.c = self.c, None
        if c is not None:
            try: c.c.close()
            except OSError: pass

    def request(self, m, st):
        s = self.s; k = s.k
        if self.c is None:
            try: self.c = m.client_http_request('http://server:%d' % PORT)
            except OSError as e:
                if s.w.live_server(PORT) is not None and not k.faults_on: k.violate('P13', 'refused', str(e))
                ensure(s) if k.faults_on else None
                return
            self.last = k.now
        s.nreq += 1; n = s.nreq; t = st['t']; self.start = k.now
        r = {'id': 'q%d' % n, 'seq': n, 'st': st, 'arrived': 0, 'handled': False, 'reply': data(st['r'], n)}
        url = ['push_file', 'pull/x', '\u00fcri', 'a%20b?c=d#e'][n % 4]; r['uri'] = '/' + url
        r['headers'] = {'x-id': r['id']}; r['headers'].update({'x-h%d' % i: VALUES[v] for i, v in enumerate(st['h'])})
        r['rheaders'] = {'x-re': r['id']}; r['rheaders'].update({'x-r%d' % i: VALUES[v] for i, v in enumerate(st['rh'])})
        s.reqs[r['id']] = r
        ok = False
        try:
            if t == 'file':
                f = s.w.dir + '/wc/up%d' % n
                b = data(st['n'], n); r['body'] = b; r['length'] = len(b)
                with fsim.real.open(f, 'wb') as x: x.write(b)
                if st.get('change') and b:
                    grow = st['change'] == 'grow'
                    r['body'] = None
                    if not grow: r['maybe_short'] = True
                    def change():
                        k.sleep(k.net.lat * [0, 1, 2, 5, 9][n % 5])
                        with fsim.real.open(f, 'r+b') as x:
                            if grow: x.seek(0, 2); x.write(b'more than before')
                            else: x.truncate(len(b) // 2)
                    k.spawn(k.cur.proc, change)
                body, h = self.c.send_file(url, r['headers'], f)
            else:
                d = {'v': data(st['n'], n).decode('latin1').replace('\r', '\u00fc')} if st['n'] else None
                r['body'] = (json.dumps(d) if d is not None else '{}').encode(); r['length'] = len(r['body'])
                body, h = self.c.request(url, r['headers'], d, gen=t == 'gen')
                if t == 'gen':
                    f = s.w.dir + '/wc/down%d' % n
                    body(f)
                    body = store.rd(f)
            ok = True
        except SimKilled: raise
        except (Exception, SystemExit) as e:
            k.log('request %s failed: %s %s' % (r['id'], type(e).__name__, e))
            s.cut_seen += 1
            if not self.disturbed() and not (r.get('maybe_short') and isinstance(e, OSError)):
                k.violate('P13', 'failed-for-nothing', 'request %s (%s, %d bytes): %s: %s' % (r['id'], t, r['length'], type(e).__name__, e))
            self.drop()
            return
        s.answered += 1; self.last = k.now; s.nontrivial = True
        if not r['handled']: k.violate('P13', 'reply-without-handling', r['id'])
        for a, b in r['rheaders'].items():
            if h.get(a) != b: k.violate('P13', 'reply-header-differs', '%s: %s: %r is %r' % (r['id'], a, b[:60], str(h.get(a))[:60])); break
        if body != r['reply']: k.violate('P13', 'reply-body-differs', '%s: %d bytes sent, %d received' % (r['id'], len(r['reply']), len(body)))

    def bad(self, st):
        """somebody who is no client"""
        s = self.s; k = s.k
        x = netsim.SimSocket(netsim.Endpoint()); x.settimeout(700.0)
        try:
            x.connect(('server', PORT))
            b = NONSENSE[st['what']]
            x.sendall(b if st['cut'] is None else b[:st['cut']])
            t0 = k.now
            if st['then'] == 'close': x.close()
            elif st['then'] == 'reset': x.ep.abort()
            else:
                if st['then'] == 'drip':
                    for _ in range(2): k.sleep(200); x.sendall(b'z'); t0 = k.now
                while x.recv(1000): pass
                if k.now - t0 > 310 + 20 and not x.ep.conn.hole: k.violate('P13', 'not-dropped', 'after %d s of silence' % (k.now - t0))
                x.close()
        except TimeoutError:
            if x.ep.conn is not None and not x.ep.conn.hole and x.ep.conn.b is not None and x.ep.conn.b.proc.alive:
                for q in ('P13', 'P10'): k.violate(q, 'not-dropped', 'silent for 700 s, sent %r' % b[:40])
            x.ep.abort()
        except OSError: x.close()


# ---------------------------------------------------------------------- the run
def main(k, w, plan, s):
    k.faults_on = False
    fsim.real.os_makedirs(w.dir + '/wc', exist_ok=True)
    if not smoke(s): return
    k.faults_on = True
    ts = []
    for i, a in enumerate(plan['actors']):
        p = k.new_proc('client%d' % i, 'actor', w.dir + '/wc', host='10.0.0.%d' % (1 + i % 2))
        p.write_roots = None
        ts.append((k.spawn(p, Client(s, i, a).go, (p,)), p))
    stop = []
    def keeper():
        while not stop: ensure(s); k.sleep(0.5)
    kp = k.new_proc('keeper', 'actor', w.dir); k.spawn(kp, keeper)
    for t, p in ts: k.wait_thread(t, 9000)
    stop.append(1)
    for t, p in ts:
        if t.state != 'done':
            if not any(c.hole for c in k.net.conns): k.violate('P13', 'client-does-not-end', p.name)
            k.kill(p, 'waits for ever')
    w.quiet()
    k.sleep(1.0)
    k.sleep(640)
    # everything has ended that could end
    for t, p in ts:
        if p.exc is not None and not p.killed: k.violate('P13', 'client-failed', '%s: %s %s' % (p.name, type(p.exc).__name__, (p.tb or '')[-400:]))
    for c in k.net.conns:
        if c.b is not None and c.b.proc.alive and not c.b.closed:
            for q in ('P13', 'P10'): k.violate(q, 'handler-not-ended', 'connection %d' % c.id)
    for key, seen in s.conns.items():
        if any(q.name == key[0] and q.alive for q in w.servers) and s.ended.get(key, 0) != 1:
            for q in ('P13', 'P10'): k.violate(q, 'shutdown-handler', 'called %d times for %s' % (s.ended.get(key, 0), key))
    if not s.usable: return
    if ensure(s) is None: k.violate('P13', 'server-gone', 'it does not start any more'); return
    p = k.new_proc('last', 'actor', w.dir + '/wc'); c = Client(s, 99, {'steps': [SMOKE, dict(SMOKE, t='file', n=5000, file=True)]})
    n = s.answered
    t = k.spawn(p, c.go, (p,)); k.wait_thread(t, 1000)
    if s.answered < n + 2: k.violate('P13', 'server-affected', 'a request without any fault is not answered')


SMOKE = {'t': 'request', 'n': 10, 'r': 10, 'file': False, 'mode': 'all', 'bs': 1000, 'h': [1], 'rh': [1]}


def smoke(s):
    """the interfaces are still what this profile takes them for"""
    k = s.k; n = len(k.violations)
    start_server(s)
    p = k.new_proc('first', 'actor', s.w.dir + '/wc')
    c = Client(s, 98, {'steps': [SMOKE]})
    t = k.spawn(p, c.go, (p,)); k.wait_thread(t, 1000)
    s.usable = s.answered == 1
    if not s.usable:
        k.probe('interface_changed'); del k.violations[n:]
    return s.usable


def on_stop(k, w, plan, s, reason):
    if reason in ('steps', 'deadlock') and s.usable:
        for q in ('P13', 'P10'): k.violate(q, 'no-end', reason)

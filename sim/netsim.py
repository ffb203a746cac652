"""Network seam: stream sockets between simulated processes.

Per run: latency, window size, and decisions for partial sends, short
receives, delays, resets, silent loss of the connection (blackhole)."""
import socket as _socket, errno, io, os
from . import kernel as kn, fsim
from .kernel import SimKilled

real_socket = _socket.socket
real_getaddrinfo = _socket.getaddrinfo


class Pipe:
    """one direction of a connection"""
    def __init__(self, window):
        self.segs = []        # [arrival, bytes]
        self.queued = 0
        self.window = window
        self.eof_at = None    # arrival time of FIN
        self.rst_at = None    # arrival time of RST
        self.last_arrival = 0.0
        self.total = 0
        self.closed_at = None # when the sender learns nothing: receiver has closed
        self.swallowed = False
        self.tap = None


class Tap:
    """follows what one side sends: messages, each with exactly the body it announces"""

    def __init__(self, begins): self.begins = begins; self.head = bytearray(); self.body = 0; self.n = 0; self.bad = False

    def feed(self, data):
        """an explanation when the stream is out of step"""
        while data and not self.bad:
            if self.body:
                m = min(self.body, len(data)); self.body -= m; data = data[m:]
                continue
            self.head += data; data = b''
            i = self.head.find(b'\r\n\r\n')
            begin = bytes(self.head[:len(self.begins)])
            if begin.upper() != self.begins[:len(begin)]: self.bad = True; return 'after %d complete messages comes %r' % (self.n, bytes(self.head[:40]))
            if i < 0: return None
            data = bytes(self.head[i + 4:]); head = bytes(self.head[:i]); self.head = bytearray(); self.n += 1
            for line in head.split(b'\r\n')[1:]:
                a, _, b = line.partition(b':')
                if a.strip().lower() == b'content-length':
                    try: self.body = int(b)
                    except ValueError: self.bad = True; return 'length %r' % b
        return None


class Net:
    def __init__(self, k):
        self.k = k; self.listeners = {}; self.conns = []; self.nconn = 0
        c = k.cfg.get('net', {})
        self.lat = c.get('latency', 0.0005)
        self.window = c.get('window', 65536)
        self.p_partial = c.get('p_partial', 0.0)     # partial send
        self.p_short = c.get('p_short', 0.0)         # short receive
        self.p_delay = c.get('p_delay', 0.0)         # extra delay of a segment
        self.p_reset = c.get('p_reset', 0.0)
        self.p_hole = c.get('p_hole', 0.0)           # connection silently lost
        self.ports = 40000

    def calm(self):
        self.p_reset = self.p_hole = self.p_delay = 0.0


class Conn:
    def __init__(self, net, client, server_proc):
        self.id = net.nconn; net.nconn += 1
        self.ab = Pipe(net.window); self.ba = Pipe(net.window)   # client->server, server->client
        self.hole = False
        self.a = client; self.b = None
        if client.proc.role == 'cli': self.ab.tap = Tap(b'POST /')
        if server_proc.role == 'server': self.ba.tap = Tap(b'HTTP/1.')
        self.dead = False


class Endpoint:
    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        k = kn.K
        self.k = k; self.proc = k.cur.proc; self.family = family; self.type = type
        self.timeout = None; self.closed = False; self.addr = None
        self.conn = None; self.rx = None; self.tx = None; self.peer = None
        self.listening = False; self.backlog = []; self.waiter = None; self.swaiter = None
        self.err = None; self.rd_shut = False; self.wr_shut = False; self.eofs = 0
        self.proc.socks.add(self)

    # -- helpers
    def _enter(self, what, cls='net'):
        k = self.k
        if kn.K is not k or not self.proc.alive: raise SimKilled()
        if self.closed: raise OSError(errno.EBADF, 'Bad file descriptor')
        e = k.op(what, cls)
        if self.closed: raise OSError(errno.EBADF, 'Bad file descriptor')
        return e

    def _wake(self):
        if self.waiter is not None: self.k.wake(self.waiter)

    def _wait(self, why, attr, until):
        t = self.k.cur
        setattr(self, attr, t)
        try: return self.k.block(why, until)
        finally: setattr(self, attr, None)

    # -- configuration
    def settimeout(self, t): self.timeout = t
    def gettimeout(self): return self.timeout
    def setblocking(self, f): self.timeout = None if f else 0.0
    def setsockopt(self, *a): pass
    def getsockopt(self, *a): return 0
    def fileno(self): return -1 if self.closed else 1000 + id(self) % 1000
    def getpeername(self): return self.peer
    def getsockname(self): return self.addr or ('0.0.0.0', 0)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    # -- server side
    def bind(self, addr):
        self._enter('bind')
        host, port = addr[0], addr[1]
        if port in self.k.net.listeners: raise OSError(errno.EADDRINUSE, 'Address already in use')
        self.addr = (host, port)

    def listen(self, n=128):
        self.proc.tag['listened'] = True
        self._enter('listen')
        self.listening = True
        self.k.net.listeners[self.addr[1]] = self
        self.k.log('listen %d' % self.addr[1])

    def accept(self):
        self._enter('accept', 'x')
        end = None if self.timeout is None else self.k.now + self.timeout
        while not self.backlog:
            if end is not None and self.k.now >= end: raise TimeoutError('timed out')
            self._wait('accept', 'waiter', end)
            if self.closed: raise OSError(errno.EBADF, 'Bad file descriptor')
        c = self.backlog.pop(0)
        s = Endpoint()
        s.conn = c; s.rx = c.ab; s.tx = c.ba; s.addr = self.addr
        s.peer = (c.a.proc.host, c.a.addr[1])
        c.b = s
        return SimSocket(s), s.peer

    # -- client side
    def connect(self, addr):
        self._enter('connect')
        k = self.k
        host, port = addr[0], addr[1]
        k.sleep(k.net.lat * 2)
        l = k.net.listeners.get(port)
        if l is None or l.closed or not l.proc.alive:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        k.net.ports += 1
        self.addr = (self.proc.host, k.net.ports)
        c = Conn(k.net, self, l.proc)
        k.net.conns.append(c)
        self.conn = c; self.tx = c.ab; self.rx = c.ba; self.peer = (host, port)
        l.backlog.append(c)
        l._wake()

    def connect_ex(self, addr):
        try: self.connect(addr)
        except OSError as e: return e.errno
        return 0

    # -- data
    def _other(self): return self.conn.b if self.conn.a is self else self.conn.a

    def _net_faults(self):
        k = self.k; n = k.net
        if not k.faults_on or k.cur.nofault: return
        if n.p_reset and k.fault_budget.get('reset', 0) > 0 and k.choose('reset', 2, n.p_reset):
            k.fault_budget['reset'] -= 1
            k.stat('fault.conn_reset'); k.fault_log.append((k.steps, 'reset', self.proc.name, ''))
            k.log('FAULT reset connection %d' % self.conn.id)
            c = self.conn
            for p in (c.ab, c.ba):
                p.segs = []; p.queued = 0; p.rst_at = k.now
            for s in (c.a, c.b):
                if s is not None and s is not self:
                    s._wake()
                    if s.swaiter: k.wake(s.swaiter)
        elif n.p_hole and k.fault_budget.get('hole', 0) > 0 and k.choose('hole', 2, n.p_hole):
            k.fault_budget['hole'] -= 1
            k.stat('fault.conn_blackhole'); k.fault_log.append((k.steps, 'hole', self.proc.name, ''))
            k.log('FAULT blackhole connection %d' % self.conn.id)
            self.conn.hole = True

    def send(self, data, flags=0):
        self._enter('send')
        return self._send(data)

    def _send(self, data):
        k = self.k; n = k.net
        if self.conn is None: raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        if self.wr_shut: raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self._net_faults()
        data = bytes(data)
        if not data: return 0
        tx = self.tx
        end = None if self.timeout is None else k.now + self.timeout
        while True:
            if self.closed: raise OSError(errno.EBADF, 'Bad file descriptor')
            if tx.rst_at is not None and tx.rst_at <= k.now:
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if self.rx.rst_at is not None and self.rx.rst_at <= k.now:
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            if tx.closed_at is not None and tx.closed_at <= k.now and not self.conn.hole:
                # the peer has closed: the first send is accepted by the kernel and answered by a reset
                if tx.swallowed: raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
                tx.swallowed = True; tx.tap = None
                self.rx.rst_at = k.now + 2 * n.lat
                k.call_at(self.rx.rst_at, self._wake)
                return len(data)
            room = tx.window - tx.queued
            if room > 0: break
            k.probe('net.window_full')
            if end is not None and k.now >= end: raise TimeoutError('timed out')
            self._wait('send', 'swaiter', end)
        m = min(room, len(data))
        if m < len(data): k.probe('net.partial_send')
        if n.p_partial and m > 1:
            v = k.choose('partial', m, n.p_partial)
            if v: m = v; k.stat('fault.partial_send')
        part = data[:m]
        tx.queued += m; tx.total += m
        if tx.tap is not None:
            why = tx.tap.feed(part)
            if why: k.violate('P13', 'out-of-step', '%s: %s' % (self.proc.name, why))
        if self.conn.hole: return m                 # vanishes; the window fills up, as unacknowledged data does
        lat = n.lat
        if n.p_delay and k.faults_on:
            v = k.choose('delay', 200, n.p_delay)
            if v:
                lat += v * v * 0.0005; k.stat('fault.delay')
                if v > 40: k.stat('fault.long_delay')      # near a second and more: tokens may expire
        at = max(k.now + lat, tx.last_arrival)
        tx.last_arrival = at
        tx.segs.append([at, part])
        k.call_at(at, lambda c=self.conn, me=self: me._arrived(c))
        return m

    def _arrived(self, c):
        o = c.b if c.a is self else c.a
        if o is not None: o._wake()

    def sendall(self, data, flags=0):
        data = bytes(data)
        while True:
            self._enter('send')
            n = self._send(data)
            data = data[n:]
            if not data: return None

    def recv(self, n, flags=0):
        self._enter('recv')
        k = self.k; net = k.net
        if self.conn is None: raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        self._net_faults()
        if n == 0: return b''
        rx = self.rx
        end = None if self.timeout is None else k.now + self.timeout
        while True:
            if self.closed: raise OSError(errno.EBADF, 'Bad file descriptor')
            avail = bytearray()
            i = 0
            while i < len(rx.segs) and rx.segs[i][0] <= k.now and len(avail) < n:
                avail += rx.segs[i][1]; i += 1
            if avail: break
            if rx.rst_at is not None and rx.rst_at <= k.now:
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if not rx.segs and rx.eof_at is not None and rx.eof_at <= k.now and not self.conn.hole:
                self.eofs += 1
                if self.eofs > 300:       # nothing will ever come of it: a loop without end
                    for x in ('P10', 'P13'): k.violate(x, 'spin-on-eof', '%s keeps reading from a connection which has ended' % self.proc.name)
                return b''
            if end is not None and k.now >= end:
                k.probe('net.timeout')
                raise TimeoutError('timed out')
            self._wait('recv', 'waiter', end)
        m = min(n, len(avail))
        if net.p_short and m > 1:
            v = k.choose('short', m, net.p_short)
            if v: m = v; k.stat('fault.short_recv')
        out = bytes(avail[:m])
        left = m
        while left:
            s = rx.segs[0][1]
            if len(s) <= left: left -= len(s); rx.segs.pop(0)
            else: rx.segs[0][1] = s[left:]; left = 0
        rx.queued -= m
        k.cur.conn = self.conn
        o = self._other()
        if o is not None and o.swaiter is not None: k.wake(o.swaiter)
        return out

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def sendfile(self, file, offset=0, count=None):
        if offset: file.seek(offset)
        total = 0
        while count is None or total < count:
            b = file.read(8192 if count is None else min(8192, count - total))
            if not b: break
            self.sendall(b); total += len(b)
        return total

    def makefile(self, mode='r', buffering=None, *, encoding=None, errors=None, newline=None):
        raw = _SockIO(self, mode)
        if buffering == 0: return raw
        if 'w' in mode and 'r' in mode: b = io.BufferedRWPair(raw, raw)
        elif 'w' in mode: b = io.BufferedWriter(raw)
        else: b = io.BufferedReader(raw)
        return b if 'b' in mode else io.TextIOWrapper(b, encoding, errors, newline)

    # -- end
    def shutdown(self, how):
        self._enter('shutdown')
        if self.conn is None: raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR): self._fin()
        if how in (_socket.SHUT_RD, _socket.SHUT_RDWR): self.rd_shut = True

    def _fin(self):
        self.wr_shut = True
        k = self.k
        if self.tx.eof_at is None:
            at = max(k.now + k.net.lat, self.tx.last_arrival)
            self.tx.eof_at = at
            k.call_at(at, lambda c=self.conn, me=self: me._arrived(c))

    def close(self):
        if self.closed: return
        k = self.k
        if kn.K is k and k.cur is not None:
            if not self.proc.alive: raise SimKilled()
            k.op('close', 'net')
        self.os_close()

    def os_close(self, killed=False):
        if self.closed: return
        self.closed = True
        k = self.k
        self.proc.socks.discard(self)
        if self.listening:
            if k.net.listeners.get(self.addr[1]) is self: k.net.listeners.pop(self.addr[1])
            for c in self.backlog: 
                c.ba.rst_at = k.now; c.ab.rst_at = k.now
                c.a._wake()
                if c.a.swaiter: k.wake(c.a.swaiter)
            self.backlog = []
        elif self.conn is not None:
            at = max(k.now + k.net.lat, self.tx.last_arrival)
            if self.conn.hole: pass
            elif self.rx.segs:                       # unread data: the peer gets a reset after what was sent
                self.tx.rst_at = at; self.rx.rst_at = at
            else:
                self._fin()
                self.rx.closed_at = at
                self.rx.segs = []; self.rx.queued = 0
            if not self.conn.hole:
                def arrive(c=self.conn, me=self):
                    me._arrived(c)
                    o = c.b if c.a is me else c.a
                    if o is not None and o.swaiter is not None: k.wake(o.swaiter)
                k.call_at(at, arrive)
        self._wake()

    def abort(self):
        """harness: close with a reset"""
        if self.closed: return
        if self.conn is not None:
            self.tx.rst_at = self.k.now; self.tx.segs = []; self.tx.queued = 0
        self.os_close()

    def detach(self): self.close(); return -1


class SimSocket:
    """what the application holds; dropping the last reference closes the connection"""
    def __init__(self, ep): self.ep = ep
    def __getattr__(self, n): return getattr(self.ep, n)
    def __enter__(self): return self
    def __exit__(self, *a): self.ep.close()
    def makefile(self, *a, **kw):
        f = self.ep.makefile(*a, **kw)
        return f

    def __del__(self):
        try:
            ep = self.ep
            if not ep.closed and kn.K is ep.k and ep.proc.alive: ep.os_close()
        except Exception: pass


class _SockIO(io.RawIOBase):
    def __init__(self, s, mode): self.s = s; self.m = mode
    def readable(self): return 'r' in self.m
    def writable(self): return 'w' in self.m
    def readinto(self, b): return self.s.recv_into(b)
    def write(self, b): return self.s.send(b)


def make_socket(family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
    k = kn.K
    if k is None or k.cur is None: return real_socket(family, type, proto, fileno)
    return SimSocket(Endpoint(family, type, proto, fileno))


class SocketMeta(type):
    def __call__(cls, *a, **kw): return make_socket(*a, **kw)
    def __instancecheck__(cls, o): return isinstance(o, (SimSocket, real_socket))


class socket_class(metaclass=SocketMeta):
    pass


def sim_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    k = kn.K
    if k is None or k.cur is None: return real_getaddrinfo(host, port, family, type, proto, flags)
    return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, '', (host or '127.0.0.1', port))]


def install():
    import ssl, http.client, urllib.parse  # noqa: import before patching, they subclass socket
    _socket.socket = socket_class
    _socket.getaddrinfo = sim_getaddrinfo
    _socket.gethostbyname = lambda h: '127.0.0.1'

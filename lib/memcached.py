"""A memcached server (text protocol, get and set) whose replies can be cut, delayed and spoiled."""
import socket
import threading
import time

from lib.backend import Backend, Reader


class FakeMemcached(Backend):
    """plan(kind, key) returns a list of steps for the reply: {'cuts': [...], 'gap': s, 'delay': s, 'fault': name, 'arg': n}"""

    def __init__(self, path=None, tcp=None, backlog=256):
        self.d = {}
        self.lock = threading.Condition()
        self.log = []          # ('get', key, hit) / ('set', key, flags, ttl, data)
        self.bad = []
        self.plans = []
        self.conns = set()
        super().__init__(path, None, tcp, backlog)

    def reset(self, plans=()):
        with self.lock:
            self.d.clear()
            del self.log[:]
            del self.bad[:]
            self.plans = list(plans)

    def drop(self):
        with self.lock:
            cs = list(self.conns)
        for c in cs:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def plan(self):
        with self.lock:
            return self.plans.pop(0) if self.plans else {}

    def handle(self, c):
        with self.lock:
            self.conns.add(c)
        try:
            self.serve(c)
        finally:
            with self.lock:
                self.conns.discard(c)

    def serve(self, c):
        c.settimeout(600)
        if c.family == socket.AF_INET:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        r = Reader(c)
        while True:
            line = r.until(b'\r\n')
            a = line.split(b' ')
            if a[0] == b'get' and len(a) == 2:
                with self.lock:
                    v = self.d.get(a[1])
                    self.log.append(('get', a[1], v))
                    self.lock.notify_all()
                reply = b'END\r\n' if v is None else b'VALUE %s %d %d\r\n%s\r\nEND\r\n' % (a[1], v[0], len(v[1]), v[1])
                hit = v is not None
            elif a[0] == b'set' and len(a) == 5 and all(x.isdigit() for x in a[2:]):
                data = r.exact(int(a[4]))
                end = r.exact(2)
                if end != b'\r\n':
                    with self.lock:
                        self.bad.append('value of %r not followed by CRLF but %r' % (a[1], end))
                    return
                reply, hit = None, None
                v = (int(a[2]), data)
            else:
                with self.lock:
                    self.bad.append('unexpected command %r' % line[:200])
                    self.lock.notify_all()
                return
            if not (0 < len(a[1]) <= 250 and all(0x20 < x < 0x7f for x in a[1])):
                with self.lock:
                    self.bad.append('bad key %r' % a[1])
            p = self.plan()
            f = p.get('fault')
            if p.get('delay'):
                time.sleep(p['delay'])
            if a[0] == b'set':
                reply = b'STORED\r\n'
                with self.lock:
                    if f not in ('notstored', 'servererror', 'error', 'close'):
                        self.d[a[1]] = v
                    self.log.append(('set', a[1], v[0], int(a[3]), v[1]))
                    self.lock.notify_all()
            if f == 'close':
                return
            if f == 'cut':
                reply = reply[:max(1, p['arg'] % len(reply))]
            elif f == 'servererror':
                reply = b'SERVER_ERROR out of memory storing object\r\n'
            elif f == 'error':
                reply = b'ERROR\r\n'
            elif f == 'notstored' and a[0] == b'set':
                reply = b'NOT_STORED\r\n'
            elif f == 'size' and hit:
                reply = b'VALUE %s 0 %s\r\n%s\r\nEND\r\n' % (a[1], str(p['arg']).encode(), v[1])
            elif f == 'flags' and hit:
                reply = b'VALUE %s x %d\r\n%s\r\nEND\r\n' % (a[1], len(v[1]), v[1])
            elif f == 'noend' and hit:
                reply = reply[:-5] + b'VALUE k 0 1\r\nx\r\nEND\r\n'
            elif f == 'garbage':
                reply = bytes((p['arg'] * 7 + i * 37) % 256 for i in range(p['arg'] % 3000 + 1)) + b'\r\n'
            elif f == 'longline':
                reply = b'VALUE ' + b'k' * (1000 + p['arg'] % 5000) + b'\r\n'
            elif f == 'extra':
                reply += b'END\r\n'
            pos = 0
            cuts = sorted(set(x % (len(reply) + 1) for x in p.get('cuts', ())))
            if p.get('bytes'):
                cuts = sorted(set(cuts) | set(range(0, min(len(reply), 12))) | set(range(max(0, len(reply) - 9), len(reply))))
            for x in cuts:
                if x > pos:
                    c.sendall(reply[pos:x])
                    pos = x
                    time.sleep(p.get('gap', 0.001))
            c.sendall(reply[pos:])
            if f == 'cut':
                return

    def wait(self, cond, secs):
        end = time.monotonic() + secs
        with self.lock:
            while not cond():
                left = end - time.monotonic()
                if left <= 0:
                    return False
                self.lock.wait(left)
        return True

"""C29: how long a connection lives: keepalive.requests, keepalive.timeout, io.timeout."""
import os
import select
import socket
import threading
import time

from hypothesis import strategies as st

from lib.backend import HoldBackend
from lib.e2e import l1, req
from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Server, Violation

RULE = ('requests: keepalive.requests settings (unconditional and per path) x request sequences, one by one and pipelined; idle: keepalive.timeout settings x connections with generated pauses; '
        'io: io.timeout x connections that stall or trickle at generated points of request and response; non-trivial: the limit ends a connection (requests), a pause is longer than the timeout (idle), a stall or a trickle longer than the timeout (io)')


class Base(Sub):
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)

    def teardown(self):
        pass

    def start(self, conf):
        srv = Server(self.scratch, conf)
        if not srv.start():
            srv.settle_dead(0.2)
            srv.check_alive()
            raise Violation('configuration refused: %s\n%s' % (srv.log_text()[-400:], conf))
        return srv


def ended(c, wait):
    """seconds until the server closes the connection (None: it did not)"""
    t = time.monotonic()
    left = wait
    while left > 0:
        r, _, _ = select.select([c.s], [], [], left)
        if r:
            try:
                d = c.s.recv(65536)
            except OSError:
                d = b''
            if not d:
                return time.monotonic() - t
            c.buf += d
        left = wait - (time.monotonic() - t)
    return None


class Requests(Base):
    NAME = 'requests'
    N_QUICK = 150
    N_THOROUGH = 4000
    SECS_QUICK = 40

    def strategy(self):
        n = st.sampled_from([0, 0, 1, 1, 2, 3, 4, 7])
        rq = st.fixed_dictionaries({'p': st.sampled_from(['/', '/a', '/b']), 'm': st.sampled_from(['GET', 'GET', 'HEAD', 'POST']), 'close': st.sampled_from([False] * 9 + [True]), 'v': st.sampled_from(['1.1', '1.1', '1.1', '1.0', '1.0ka']), 't': st.integers(0, 11)})
        return st.fixed_dictionaries({'all': st.one_of(st.none(), n), 'a': st.one_of(st.none(), n), 'b0': st.booleans(), 'setup': st.booleans(), 'conns': st.lists(st.tuples(st.sampled_from(['seq', 'pipe', 'pairs']), st.lists(rq, min_size=1, max_size=10)).map(list), min_size=1, max_size=3)})

    def run(self, case, rec):
        conf = 'setup { listen "unix:%SOCK%"; workers 1; '
        glob = 'keepalive.requests %d;' % case['all'] if case['all'] is not None else ''
        conf += (glob if case['setup'] else '') + ' }\nstrict.post_content_length false;\n' + ('' if case['setup'] else glob) + '\n'
        if case['a'] is not None:
            conf += 'if req.path == "/a" { keepalive.requests %d; }\n' % case['a']
        if case['b0']:
            conf += 'if req.path == "/b" { keepalive.timeout 0; }\n'
        conf += 'respond 200 => "%{req.path} %{req.query}";\n'
        srv = self.start(conf)
        try:
            for how, rs in case['conns']:
                self.conn(case, srv, how, rs, rec)
            srv.settle_dead(0.0)
            srv.check_alive()
        finally:
            srv.kill()

    def conn(self, case, srv, how, rs, rec):
        c = Conn(path=srv.sock, timeout=10)
        try:
            raws, last = [], None
            for k, r in enumerate(rs):
                h = []
                t = r.get('t', 0)
                if r['v'] == '1.0ka':
                    h.append(('Connection', ['keep-alive', 'Keep-Alive', 'KEEP-ALIVE'][t % 3]))
                elif r['close'] and r['v'] == '1.1':
                    h.append(('Connection', ['close', 'Close', 'CLOSE'][t % 3]))
                elif t > 6:     # tokens that mean nothing here
                    h.append(('Connection', ['closed', 'clos', 'x-close', 'keep-alive' if r['v'] == '1.1' else 'keep-aliv', 'keep-alives'][t - 7]))
                body = b''
                if r['m'] == 'POST':
                    body = b'x' * (k + 1)
                    h.append(('Content-Length', str(len(body))))
                raws.append(req(r['m'], '%s?%d' % (r['p'], k), r['v'][:3], h, body))
                lim = case['a'] if r['p'] == '/a' and case['a'] is not None else case['all']
                if last is None:
                    if lim and k + 1 >= lim:
                        last = k
                        rec.nt(True)
                        rec.label('limit reached')
                    elif (r['close'] and r['v'] == '1.1') or r['v'] == '1.0' or (r['p'] == '/b' and case['b0']):
                        last = k
            step = {'seq': 1, 'pairs': 2, 'pipe': len(raws)}[how]
            sent = 0
            for k, r in enumerate(rs):
                if k >= sent:
                    try:
                        c.send(b''.join(raws[sent:sent + step]))
                    except OSError:
                        pass
                    sent += step
                w = 'request %d of %r (%s): ' % (k + 1, [(x['p'], x['v']) for x in rs], how)
                try:
                    x = c.response(r['m'])
                except Closed:
                    srv.settle_dead(0.2)
                    srv.check_alive()
                    raise Violation(w + 'the connection was closed, expected %s' % ('it to end after request %d' % (last + 1) if last is not None else 'it to stay open'))
                except Timeout:
                    raise Violation(w + 'no answer', timing=True)
                except Malformed as e:
                    raise Violation(w + 'malformed: %s' % e)
                if x.status != 200 or r['m'] != 'HEAD' and x.body != l1('%s %d' % (r['p'], k)):
                    raise Violation(w + 'got %d %r' % (x.status, x.body[:50]))
                con = (x.get('connection') or '').lower()
                stays = con != 'close' if r['v'] != '1.0' and r['v'] != '1.0ka' else con == 'keep-alive'
                if stays != (last is None or k < last):
                    raise Violation(w + 'the response %s the connection, expected %s' % ('keeps' if stays else 'ends', 'it to end after request %d' % (last + 1) if last is not None else 'it to stay open'))
                if k == last:
                    t = ended(c, 5)
                    if t is None:
                        raise Violation(w + 'announced the end of the connection, but it is still open after 5 s', timing=True)
                    if c.buf:
                        raise Violation(w + 'more data after the last response: %r' % bytes(c.buf[:100]))
                    return
            if ended(c, 0.02) is not None:
                raise Violation('connection closed although it should stay open after %r (%s)' % ([(x['p'], x['v']) for x in rs], how))
        finally:
            c.close()


class Timed(Base):
    """many connections at once, each following its own plan of pauses"""

    def all(self, srv, plans):
        self.errs = []
        ts = [threading.Thread(target=self.guard, args=(srv, i, p)) for i, p in enumerate(plans)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        srv.settle_dead(0.0)
        srv.check_alive()
        if self.errs:
            raise self.errs[0]

    def guard(self, srv, i, p):
        try:
            self.plan(srv, i, p)
        except Violation as e:
            self.errs.append(e)
        except Exception as e:
            import traceback
            self.errs.append(Violation('%r\n%s' % (e, traceback.format_exc()[-600:]), timing=True))


class Idle(Timed):
    NAME = 'idle'
    N_QUICK = 3
    N_THOROUGH = 200
    SECS_QUICK = 30

    def setup(self):
        super().setup()
        self.slow = SlowBackend(os.path.join(self.scratch, 'slow'))

    def teardown(self):
        self.slow.stop()

    def strategy(self):
        r = st.tuples(st.sampled_from([1, 2, 3, 5, 30]), st.sampled_from([0, 0, 100, 500, 700, 1200, 2300, 3900]), st.sampled_from([0, 0, 0, 0, 600, 1500, 2400, 3500])).map(list)
        return st.fixed_dictionaries({'dflt': st.sampled_from([1, 2, 3]), 'plans': st.lists(st.lists(r, min_size=1, max_size=4), min_size=4, max_size=24), 'wrk': st.integers(1, 2)})

    def run(self, case, rec):
        conf = 'setup { module_load "mod_proxy"; listen "unix:%%SOCK%%"; workers %d; }\nkeepalive.timeout %d;\n' % (case['wrk'], case['dflt'])
        for t in (1, 2, 3, 5, 30):
            conf += 'if req.header["T"] == "%d" { keepalive.timeout %d; }\n' % (t, t)
        conf += 'if req.path =^ "/st" { proxy "unix:%s"; } else { respond 200 => "ok"; }\n' % self.slow.path
        srv = self.start(conf)
        try:
            rec.nt(any(p > t * 1000 or s > t * 1000 for pl in case['plans'] for t, p, s in pl))
            rec.label('connections', len(case['plans']))
            self.all(srv, case['plans'])
        finally:
            srv.kill()

    def plan(self, srv, i, p):
        c = Conn(path=srv.sock, timeout=10)
        try:
            for k, (t, pause, slow) in enumerate(p):
                w = 'connection %d with (timeout, pause in ms, time the answer takes) %r, request %d: ' % (i, p, k + 1)
                t0 = time.monotonic()
                try:
                    c.send(req('GET', '/st/%d/1' % slow if slow else '/', headers=[('T', str(t))]))
                    x = c.response('GET')
                except (Closed, OSError):
                    raise Violation(w + 'connection closed although the time was not over', timing=True)
                except Timeout:
                    raise Violation(w + 'no answer', timing=True)
                if x.status != 200 or (x.get('connection') or '').lower() == 'close':
                    raise Violation(w + 'status %d, Connection: %r' % (x.status, x.get('connection')))
                t1 = time.monotonic()
                if slow:
                    t0 = t1
                last = k == len(p) - 1
                if last and t < 30:
                    pause = t * 1000 + 4000
                if abs(pause / 1000 - t) < 0.4 or t <= pause / 1000 <= t + 4 and not last:
                    pause = min(pause, t * 1000 - 400)      # neither here nor there
                z = ended(c, pause / 1000)
                now = time.monotonic()
                if c.buf:
                    raise Violation(w + 'unexpected data %r' % bytes(c.buf[:60]))
                if z is None and pause > t * 1000:
                    raise Violation(w + 'still open after %.1f s' % (now - t1), timing=True)
                if z is not None:
                    if now - t0 < t - 0.2:
                        raise Violation(w + 'closed after %.2f s, before the time was over' % (now - t0), timing=True)
                    return
        finally:
            c.close()


IOT = 3


class SlowBackend:
    """answers in two parts with a pause (/st/PAUSE_MS/SIZE) between them"""

    def __init__(self, d):
        os.makedirs(d, exist_ok=True)
        self.path = d + '/slow.sock'
        if os.path.exists(self.path):
            os.unlink(self.path)
        self.l = socket.socket(socket.AF_UNIX)
        self.l.bind(self.path)
        self.l.listen(200)
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                s, _ = self.l.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(s,), daemon=True).start()

    def serve(self, s):
        try:
            s.settimeout(30)
            buf = b''
            while b'\r\n\r\n' not in buf:
                d = s.recv(65536)
                if not d:
                    return
                buf += d
            _, _, pause, size = buf.split(b' ')[1].split(b'/')
            size = int(size)
            s.sendall(b'HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n' % (2 * size))
            s.sendall(b'p' * size)
            time.sleep(int(pause) / 1000)
            s.sendall(b'q' * size)
        except OSError:
            pass
        finally:
            s.close()

    def stop(self):
        self.l.close()


class IO(Timed):
    NAME = 'io'
    N_QUICK = 4
    N_THOROUGH = 100
    SECS_QUICK = 40

    def setup(self):
        super().setup()
        with open(self.scratch + '/big', 'wb') as f:
            f.truncate(40 << 20)
        self.be = HoldBackend(os.path.join(self.scratch, 'be'))
        self.slow = SlowBackend(os.path.join(self.scratch, 'slow'))

    def teardown(self):
        self.be.stop()
        self.slow.stop()

    def strategy(self):
        gap = st.integers(100, 1100)
        kinds = st.one_of(
            st.tuples(st.just('stall-none')).map(list), st.tuples(st.just('stall-head'), st.integers(1, 60)).map(list), st.tuples(st.just('stall-second'), st.integers(1, 60)).map(list),
            st.tuples(st.just('stall-body'), st.integers(0, 400), st.sampled_from(['respond', 'proxy', 'static'])).map(list), st.tuples(st.just('stall-read'), st.sampled_from(['/big', '/big', '/st/100/20000000', '/st/20000/8000000'])).map(list),
            st.tuples(st.just('paused'), st.sampled_from([1000, 3900, 4700]), st.sampled_from([10, 1000, 300000])).map(list), st.tuples(st.just('held-body'), st.sampled_from([500, 3700]), st.sampled_from([1, 500, 70000])).map(list),
            st.tuples(st.just('slow-head'), gap, st.integers(4, 9)).map(list), st.tuples(st.just('slow-body'), gap, st.integers(4, 9), st.sampled_from(['proxy'])).map(list), st.tuples(st.just('slow-read'), gap).map(list),
            st.tuples(st.just('held'), st.sampled_from([500, 3700, 4500])).map(list))
        return st.fixed_dictionaries({'plans': st.lists(kinds, min_size=10, max_size=40), 'wrk': st.integers(1, 2), 'tcp': st.just(False)})

    def run(self, case, rec):
        conf = 'setup { module_load "mod_proxy"; listen "unix:%%SOCK%%"; workers %d; io.timeout %d; }\nkeepalive.timeout 30;\n' % (case['wrk'], IOT)
        conf += 'docroot "%%DIR%%";\nif req.path =^ "/be" { proxy "unix:%s"; } else if req.path =^ "/st" { proxy "unix:%s"; } else if req.path =^ "/re" { respond 200 => "ok"; } else { static; }\n' % (self.be.path, self.slow.path)
        srv = self.start(conf)
        self.case_no = getattr(self, 'case_no', 0) + 1
        try:
            rec.nt(True)
            for p in case['plans']:
                rec.label(p[0])
            self.all(srv, case['plans'])
        finally:
            srv.kill()

    def must_end(self, c, t0, w, lo=IOT - 1.3, hi=IOT + 3.0):
        z = ended(c, t0 + hi + 1 - time.monotonic())
        now = time.monotonic()
        if z is None:
            raise Violation(w + ': the connection is still open %.1f s after the last progress (io.timeout %d)' % (now - t0, IOT), timing=True)
        if now - t0 < lo:
            raise Violation(w + ': the connection was closed %.2f s after the last progress (io.timeout %d)' % (now - t0, IOT), timing=True)

    def plan(self, srv, i, p):
        c = Conn(path=srv.sock, timeout=20)
        w = 'connection %d, %r' % (i, p)
        ident = 'c%d-%d' % (self.case_no, i)
        try:
            kind = p[0]
            head = req('GET', '/re/x', '1.1', [('X-Some', 'header value that is long enough to be cut')])
            if kind == 'stall-none':
                t0 = time.monotonic()
                self.must_end(c, t0, w)
            elif kind in ('stall-head', 'stall-second'):
                if kind == 'stall-second':
                    c.send(head)
                    if c.response('GET').status != 200:
                        raise Violation(w + ': no answer')
                    time.sleep(0.3)
                t0 = time.monotonic()
                c.send(head[:p[1]])
                self.must_end(c, t0, w)
                if c.buf:
                    raise Violation(w + ': data %r' % bytes(c.buf[:80]))
            elif kind == 'stall-body':
                path = {'respond': '/re', 'proxy': '/be', 'static': '/nothere'}[p[2]]
                t0 = time.monotonic()
                c.send(req('POST', path, '1.1', [('X-Id', ident), ('Content-Length', '500')]) + b'b' * p[1])
                if p[2] == 'proxy':
                    self.must_end(c, t0, w)
                else:
                    # an answer that needs no body may come at once; the connection must not be kept for ever
                    self.must_end(c, t0, w, lo=0)
            elif kind == 'stall-read':
                c.send(req('GET', p[1]))
                size = 2 * int(p[1].split('/')[3]) if p[1] != '/big' else 40 << 20
                time.sleep(0.5)
                t0 = time.monotonic() - 0.5
                # do not read for a while; then the rest of what was on its way comes, but not the whole file
                time.sleep(IOT + 3)
                n = 0
                c.s.settimeout(5)
                try:
                    while True:
                        d = c.s.recv(1 << 20)
                        if not d:
                            break
                        n += len(d)
                except socket.timeout:
                    raise Violation(w + ': a client that does not read for %.1f s is neither closed nor served' % (time.monotonic() - t0), timing=True)
                except ConnectionError:
                    pass
                if n >= size:
                    raise Violation(w + ': a client that had not read for %d s still got the whole file (io.timeout %d)' % (IOT + 3, IOT), timing=True)
            elif kind == 'slow-head':
                parts = [head[j * len(head) // p[2]:(j + 1) * len(head) // p[2]] for j in range(p[2])]
                for x in parts:
                    try:
                        c.send(x)
                    except OSError:
                        break
                    time.sleep(p[1] / 1000)
                self.whole(c, w, 200, b'ok')
            elif kind == 'slow-body':
                body = b'y' * (p[2] * 10)
                c.send(req('POST', '/be', '1.1', [('X-Id', ident), ('Content-Length', str(len(body)))]))
                for j in range(p[2]):
                    time.sleep(p[1] / 1000)
                    try:
                        c.send(body[j * 10:j * 10 + 10])
                    except OSError:
                        break
                self.be.release(ident, b'fine')
                self.whole(c, w, 200, b'fine')
            elif kind == 'slow-read':
                c.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
                c.send(req('GET', '/big'))
                n = 0
                t0 = time.monotonic()
                while time.monotonic() - t0 < IOT + 2.5:
                    time.sleep(p[1] / 1000)
                    d = c.s.recv(1 << 19)
                    if not d:
                        raise Violation(w + ': the connection of a slowly reading client was closed after %.1f s' % (time.monotonic() - t0), timing=True)
                    n += len(d)
                while n < 40 << 20:
                    d = c.s.recv(1 << 20)
                    if not d:
                        raise Violation(w + ': only %d bytes of the file' % n, timing=True)
                    n += len(d)
            elif kind == 'paused':
                c.send(req('GET', '/st/%d/%d' % (p[1], p[2])))
                self.whole(c, w, 200, b'p' * p[2] + b'q' * p[2])
            elif kind == 'held-body':
                c.send(req('POST', '/be', '1.1', [('X-Id', ident), ('Content-Length', str(p[2]))], b'z' * p[2]))
                time.sleep(p[1] / 1000)
                self.be.release(ident, b'late')
                self.whole(c, w, 200, b'late')
            elif kind == 'held':
                c.send(req('GET', '/be', '1.1', [('X-Id', ident)]))
                time.sleep(p[1] / 1000)
                self.be.release(ident, b'late')
                self.whole(c, w, 200, b'late')
        except Timeout:
            raise Violation(w + ': no answer', timing=True)
        except (Closed, ConnectionError):
            raise Violation(w + ': connection closed instead of an answer', timing=True)
        finally:
            c.close()

    def whole(self, c, w, status, body):
        x = c.response('GET')
        if x.status != status or x.body != body:
            raise Violation(w + ': got %d %r' % (x.status, x.body[:40]))


SUBS = [Requests, Idle, IO]

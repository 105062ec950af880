"""Base class for checks that drive the real server process."""
import os

from lib.http import Conn, Malformed, Closed, Timeout
from lib.runner import Sub
from lib.server import Server, Violation, Inconclusive


class E2E(Sub):
    """One server on a fixed configuration for many cases."""
    RECYCLE = 400
    TCP = False

    def conf(self):
        raise NotImplementedError

    def prepare(self):
        """create files / backends in self.scratch before the server starts"""

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)
        self.srv = None
        self.prepare()
        self.srv = Server(self.scratch, self.conf())
        if not self.srv.start():
            self.srv.check_alive()

    def teardown(self):
        if self.srv is not None:
            rc = self.srv.stop()
            self.stopped(rc)

    def stopped(self, rc):
        pass

    def after(self, case):
        self.srv.check_alive()

    def conn(self, timeout=10.0):
        try:
            return Conn(path=self.srv.sock, timeout=timeout)
        except OSError as e:
            self.srv.settle_dead()
            self.srv.check_alive()
            raise Violation('cannot connect: %s' % e, timing=True)

    def died(self, wait=0.3):
        self.srv.settle_dead(wait)
        self.srv.check_alive()

    def one(self, c, method, what, timeout=None):
        """one response on an open connection; protocol errors become violations"""
        try:
            return c.response(method, timeout)
        except Malformed as e:
            raise Violation('malformed response (%s): %s' % (what, e))
        except Closed:
            self.died()
            raise Violation('connection closed before the response was complete (%s)' % what)
        except Timeout:
            self.srv.check_alive()
            raise Violation('no (complete) response (%s)' % what, timing=True)

    def get(self, raw, method='GET', timeout=10.0):
        if isinstance(raw, str):
            raw = raw.encode('latin-1')
        c = self.conn(timeout)
        try:
            c.send(raw)
            return self.one(c, method, repr(raw[:300]))
        finally:
            c.close()


def lat(b):
    return b.decode('latin-1')


def l1(s):
    return s.encode('latin-1')


def req(method, target, version='1.1', headers=(), body=b'', host='h.test'):
    out = ['%s %s HTTP/%s' % (method, target, version)]
    if host is not None:
        out.append('Host: ' + host)
    out += ['%s: %s' % (k, v) for k, v in headers]
    return l1('\r\n'.join(out) + '\r\n\r\n') + body


def chunked(body, sizes):
    out = b''
    p = 0
    i = 0
    while p < len(body):
        n = max(1, sizes[i % len(sizes)]) if sizes else len(body)
        n = min(n, len(body) - p)
        out += b'%x\r\n' % n + body[p:p + n] + b'\r\n'
        p += n
        i += 1
    return out + b'0\r\n\r\n'

"""Strict, independent HTTP/1.x client side used as oracle."""
import array
import fcntl
import re
import select
import socket
import termios
import time

from lib.server import Violation

TOKEN = re.compile(rb"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")
SIOCOUTQ = termios.TIOCOUTQ


class Malformed(Exception):
    pass


class Closed(Exception):
    """connection ended before / within a message"""


class Timeout(Exception):
    pass


class Response:
    __slots__ = ('status', 'version', 'reason', 'headers', 'body', 'framing', 'interim', 'head')

    def __init__(self):
        self.interim = []

    def get(self, name, default=None):
        name = name.lower()
        for k, v in self.headers:
            if k.lower() == name:
                return v
        return default

    def getall(self, name):
        name = name.lower()
        return [v for k, v in self.headers if k.lower() == name]

    def brief(self):
        return '%s %r body[%d]=%r' % (self.status, self.headers, len(self.body), self.body[:80])


class Conn:
    def __init__(self, path=None, tcp=None, source=None, timeout=10.0, sock=None):
        if sock is not None:
            self.s = sock
        elif tcp:
            fam = socket.AF_INET6 if ':' in tcp[0] else socket.AF_INET
            self.s = socket.socket(fam, socket.SOCK_STREAM)
            if source:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                self.s.bind((source, 0))
            self.s.settimeout(timeout)
            self.s.connect(tcp)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        else:
            self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            self.s.settimeout(timeout)
            for i in range(200):
                try:
                    self.s.connect(path)
                    break
                except BlockingIOError:
                    time.sleep(0.01)
            else:
                self.s.connect(path)
        self.timeout = timeout
        self.s.settimeout(timeout)
        self.buf = b''
        self.total = 0
        self.eof = False
        self.unix = path is not None
        self.broken = False

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def send(self, data):
        """Send, tolerating that the peer closed early."""
        try:
            self.s.sendall(data)
            return True
        except socket.timeout:
            raise Timeout('send')
        except OSError:
            self.broken = True
            return False

    def drained(self, wait=0.05):
        """wait until the peer has read everything we sent (unix sockets only)"""
        if not self.unix:
            return True
        end = time.monotonic() + wait
        a = array.array('i', [0])
        n = 0
        while True:
            try:
                fcntl.ioctl(self.s.fileno(), SIOCOUTQ, a)
            except OSError:
                return True
            if a[0] == 0:
                return True
            if time.monotonic() > end:
                return False
            n += 1
            time.sleep(0 if n < 10 else 0.0001 if n < 30 else 0.001)

    def send_pieces(self, data, cuts):
        """send data split at the given positions; every piece is read by the server separately"""
        pos = 0
        for c in sorted(set(c for c in cuts if 0 < c < len(data))) + [len(data)]:
            if pos and not self.drained():
                pass
            if not self.send(data[pos:c]):
                return
            pos = c

    def shutdown_wr(self):
        try:
            self.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def _fill(self, deadline):
        if self.eof:
            raise Closed('eof')
        left = deadline - time.monotonic()
        if left <= 0:
            raise Timeout('recv')
        self.s.settimeout(left)
        try:
            d = self.s.recv(262144)
        except socket.timeout:
            raise Timeout('recv')
        except OSError:
            d = b''
        if not d:
            self.eof = True
            raise Closed('eof')
        self.buf += d
        self.total += len(d)

    def recv_rest(self, timeout=None):
        """read until EOF"""
        deadline = time.monotonic() + (timeout or self.timeout)
        while not self.eof:
            try:
                self._fill(deadline)
            except Closed:
                break
        r, self.buf = self.buf, b''
        return r

    def _line(self, deadline, limit=65536):
        while True:
            i = self.buf.find(b'\n')
            if i >= 0:
                if i == 0 or self.buf[i - 1:i] != b'\r':
                    raise Malformed('bare LF in %r' % self.buf[:i + 1][-80:])
                line = self.buf[:i - 1]
                self.buf = self.buf[i + 1:]
                if b'\r' in line:
                    raise Malformed('bare CR in %r' % line[-80:])
                return line
            if len(self.buf) > limit:
                raise Malformed('line too long')
            self._fill(deadline)

    def _exact(self, n, deadline):
        while len(self.buf) < n:
            self._fill(deadline)
        r = self.buf[:n]
        self.buf = self.buf[n:]
        return r

    def response(self, method='GET', timeout=None):
        """Parse exactly one final response (interim 1xx collected).  Raises Malformed / Closed / Timeout"""
        deadline = time.monotonic() + (timeout or self.timeout)
        interim = []
        while True:
            r = self._one(method, deadline)
            if 100 <= r.status < 200 and r.status != 101:
                interim.append(r)
                continue
            r.interim = interim
            return r

    def _one(self, method, deadline):
        r = Response()
        line = self._line(deadline)
        m = re.match(rb'^HTTP/(1\.[01]) ([1-9]\d\d) ?(.*)$', line, re.S)
        if not m:
            raise Malformed('status line %r' % line[:200])
        r.version, r.status, r.reason = m.group(1).decode(), int(m.group(2)), m.group(3)
        r.headers = []
        r.head = [line]
        while True:
            line = self._line(deadline)
            if line == b'':
                break
            r.head.append(line)
            if line[:1] in (b' ', b'\t'):
                raise Malformed('folded header %r' % line[:100])
            k, sep, v = line.partition(b':')
            if not sep or not TOKEN.match(k):
                raise Malformed('header line %r' % line[:200])
            v = v.strip(b' \t')
            if any(c < 32 and c != 9 or c == 127 for c in v):
                raise Malformed('control character in header %r' % line[:200])
            r.headers.append((k.decode('latin-1'), v.decode('latin-1')))
        r.body = b''
        cls = r.getall('content-length')
        te = r.getall('transfer-encoding')
        if cls and (len(cls) > 1 or not re.match(r'^\d{1,18}$', cls[0])):
            raise Malformed('content-length %r' % cls)
        if te and [t.lower() for t in te] != ['chunked']:
            raise Malformed('transfer-encoding %r' % te)
        if te and cls:
            raise Malformed('both content-length and transfer-encoding')
        if te and r.version == '1.0':
            raise Malformed('chunked in 1.0 response')
        if method == 'HEAD' or r.status in (204, 304) or 100 <= r.status < 200:
            r.framing = 'none'
        elif te:
            r.framing = 'chunked'
            parts = []
            while True:
                line = self._line(deadline)
                m = re.match(rb'^([0-9A-Fa-f]{1,16})$', line)
                if not m:
                    raise Malformed('chunk size %r' % line[:100])
                n = int(m.group(1), 16)
                if n == 0:
                    if self._line(deadline) != b'':
                        raise Malformed('trailer')
                    break
                parts.append(self._exact(n, deadline))
                if self._exact(2, deadline) != b'\r\n':
                    raise Malformed('chunk not terminated by CRLF')
            r.body = b''.join(parts)
        elif cls:
            r.framing = 'cl'
            r.body = self._exact(int(cls[0]), deadline)
        else:
            r.framing = 'close'
            while not self.eof:
                try:
                    self._fill(deadline)
                except Closed:
                    break
            r.body, self.buf = self.buf, b''
        return r

    def expect_eof(self, timeout=10.0):
        """True when the peer closes without sending anything more"""
        deadline = time.monotonic() + timeout
        while not self.eof:
            if self.buf:
                return False
            try:
                self._fill(deadline)
            except Closed:
                break
            except Timeout:
                return None
        return not self.buf

    def quiet(self, wait):
        """True if nothing arrives for `wait` seconds and the connection is open"""
        if self.buf or self.eof:
            return False
        r, _, _ = select.select([self.s], [], [], wait)
        return not r


def fetch(srv, raw, method='GET', timeout=10.0, **kw):
    """one request on a fresh connection; protocol problems become violations"""
    try:
        c = Conn(path=srv.sock, timeout=timeout, **kw)
    except OSError as e:
        srv.settle_dead()
        srv.check_alive()
        raise Violation('cannot connect: %s' % e, timing=True)
    try:
        c.send(raw)
        return c.response(method)
    except Malformed as e:
        raise Violation('malformed response: %s' % e)
    except Closed as e:
        srv.settle_dead(0.3)
        srv.check_alive()
        raise Violation('connection closed without a complete response to %r' % raw[:300])
    except Timeout:
        srv.check_alive()
        raise Violation('no (complete) response within %ss to %r' % (timeout, raw[:300]), timing=True)
    finally:
        c.close()

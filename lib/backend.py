"""Scriptable backends (HTTP, SCGI, FastCGI) on unix or TCP sockets, run in threads of the check process."""
import json
import os
import re
import socket
import struct
import threading


class Backend:
    """accepts connections; `handler(conn_socket)` is run in a thread per connection"""

    def __init__(self, path=None, handler=None, tcp=None, backlog=256):
        self.path = path
        self.handler = handler or self.handle
        if path:
            try:
                os.unlink(path)
            except FileNotFoundError:
                pass
            self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            self.s.bind(path)
        else:
            self.s = socket.socket()
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.s.bind(tcp)
        self.s.listen(backlog)
        self.stopping = False
        self.nconn = 0
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while not self.stopping:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            self.nconn += 1
            threading.Thread(target=self.guard, args=(c,), daemon=True).start()

    def guard(self, c):
        try:
            c.settimeout(20)
            self.handler(c)
        except (OSError, EOFError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def handle(self, c):
        raise NotImplementedError

    def stop(self):
        self.stopping = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()
        if self.path:
            try:
                os.unlink(self.path)
            except OSError:
                pass


class Reader:
    def __init__(self, c):
        self.c = c
        self.buf = b''

    def more(self):
        d = self.c.recv(262144)
        if not d:
            raise EOFError()
        self.buf += d

    def exact(self, n):
        while len(self.buf) < n:
            self.more()
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def until(self, sep):
        while sep not in self.buf:
            self.more()
        r, _, self.buf = self.buf.partition(sep)
        return r


def read_http_request(c):
    """returns dict(method, target, version, headers=[(k,v)], body, raw_head) ; body per Content-Length / chunked"""
    r = Reader(c)
    head = r.until(b'\r\n\r\n')
    lines = head.split(b'\r\n')
    parts = lines[0].split(b' ')
    q = {'line': lines[0], 'raw_head': head, 'headers': []}
    if len(parts) == 3:
        q['method'], q['target'], q['version'] = parts
    for l in lines[1:]:
        k, _, v = l.partition(b':')
        q['headers'].append((k, v.strip(b' \t')))
    cl = [v for k, v in q['headers'] if k.lower() == b'content-length']
    te = [v for k, v in q['headers'] if k.lower() == b'transfer-encoding']
    q['cl'], q['te'] = cl, te
    body = b''
    if te and te[-1].lower() == b'chunked':
        while True:
            n = int(r.until(b'\r\n'), 16)
            body += r.exact(n)
            r.exact(2)
            if n == 0:
                break
    elif cl:
        body = r.exact(int(cl[-1]))
    q['body'] = body
    q['reader'] = r
    return q


class EchoBackend(Backend):
    """answers every request with a JSON description of what it received"""

    def handle(self, c):
        q = read_http_request(c)
        d = json.dumps({
            'line': q['line'].decode('latin-1'), 'headers': [[k.decode('latin-1'), v.decode('latin-1')] for k, v in q['headers']],
            'body': q['body'].decode('latin-1'), 'extra': q['reader'].buf.decode('latin-1')}).encode()
        c.sendall(b'HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(d) + d)


# ------------------------------------------------------------------ SCGI

def read_scgi_request(c):
    r = Reader(c)
    n = int(r.until(b':'))
    blob = r.exact(n)
    if r.exact(1) != b',':
        raise EOFError()
    parts = blob.split(b'\0')
    if parts and parts[-1] == b'':
        parts.pop()
    env = list(zip(parts[0::2], parts[1::2]))
    cl = [v for k, v in env if k == b'CONTENT_LENGTH']
    body = r.exact(int(cl[0])) if cl else b''
    return {'env': env, 'body': body, 'reader': r, 'odd': len(parts) % 2, 'nul_end': blob.endswith(b'\0')}


# ------------------------------------------------------------------ FastCGI

def fcgi_record(t, rid, data, pad=0):
    return struct.pack('>BBHHBB', 1, t, rid, len(data), pad, 0) + data + b'\0' * pad


def read_fcgi_record(r):
    v, t, rid, n, pad, res = struct.unpack('>BBHHBB', r.exact(8))
    data = r.exact(n)
    r.exact(pad)
    return v, t, rid, data


def fcgi_pairs(b):
    out = []
    p = 0

    def length(p):
        if b[p] & 0x80:
            return struct.unpack('>I', b[p:p + 4])[0] & 0x7fffffff, p + 4
        return b[p], p + 1
    while p < len(b):
        kl, p = length(p)
        vl, p = length(p)
        out.append((b[p:p + kl], b[p + kl:p + kl + vl]))
        if p + kl + vl > len(b):
            raise ValueError('truncated pair')
        p += kl + vl
    return out


def read_fcgi_request(r):
    """one complete request (BEGIN, PARAMS..., STDIN...)"""
    params = b''
    stdin = b''
    begun = None
    pdone = False
    records = []
    while True:
        v, t, rid, data = read_fcgi_record(r)
        records.append((v, t, rid, len(data)))
        if v != 1:
            raise ValueError('version %d' % v)
        if t == 1:
            begun = rid
            role, flags = struct.unpack('>HB', data[:3])
        elif t == 2:
            return {'abort': True}
        elif t == 4:
            if data:
                params += data
            else:
                pdone = True
        elif t == 5:
            if data:
                stdin += data
            else:
                break
    return {'id': begun, 'role': role, 'flags': flags, 'env': fcgi_pairs(params), 'body': stdin, 'pdone': pdone, 'records': records}


class HoldBackend(Backend):
    """keeps every request (named by its X-Id header) until it is released"""

    def __init__(self, *a, **kw):
        self.cv = threading.Condition()
        self.seen = {}
        self.go = {}
        self.gone = set()
        super().__init__(*a, **kw)

    def handle(self, c):
        q = read_http_request(c)
        i = dict((k.lower(), v) for k, v in q['headers']).get(b'x-id', b'').decode()
        with self.cv:
            self.seen[i] = q
            self.cv.notify_all()
        c.settimeout(0.05)
        while i not in self.go and not self.stopping:
            # the server closing the connection means the client has gone
            try:
                if c.recv(1) == b'':
                    with self.cv:
                        self.gone.add(i)
                        self.cv.notify_all()
                    return
            except socket.timeout:
                pass
            with self.cv:
                if i not in self.go:
                    self.cv.wait(0.0)
        d = self.go.get(i, b'x')
        c.settimeout(20)
        c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(d) + d)

    def release(self, i, body=b'done'):
        with self.cv:
            self.go[i] = body
            self.cv.notify_all()

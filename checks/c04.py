"""C04: no client behaviour stops the server, damages other connections or leaks resources."""
import os
import socket
import struct
import time

from hypothesis import strategies as st

from lib.backend import Backend, read_http_request
from lib.e2e import E2E, l1, lat
from lib.http import Conn, Closed, Malformed, Timeout
from lib.server import Violation, free_port

RULE = ('1-4 concurrent connections (unix and TCP) running generated scripts of sends (valid, truncated, oversized, mutated and binary requests to every handler), partial reads, half closes, '
        'resets and closes in an interleaved schedule, with backends that answer, truncate, stall or break off; afterwards a fresh request must be answered correctly, an innocent long-lived '
        'connection must still work, and file descriptors must return to the idle level; non-trivial: at least one connection is aborted or malformed with a request under way')

REQS = [
    'GET /ok HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /big.bin HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /f.txt HTTP/1.1\r\nHost: h\r\nRange: bytes=0-3,5-9\r\n\r\n', 'HEAD /big.bin HTTP/1.1\r\nHost: h\r\n\r\n',
    'GET /b/full HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/trunc HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/chunk HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/chunktrunc HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/garbage HTTP/1.1\r\nHost: h\r\n\r\n',
    'GET /b/none HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/big HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/slow HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/early HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/headonly HTTP/1.1\r\nHost: h\r\n\r\n',
    'POST /b/full HTTP/1.1\r\nHost: h\r\nContent-Length: 10\r\n\r\n0123456789', 'POST /b/full HTTP/1.1\r\nHost: h\r\nContent-Length: 200000\r\n\r\n' + 'x' * 100, 'POST /b/early HTTP/1.1\r\nHost: h\r\nContent-Length: 200000\r\n\r\n' + 'x' * 1000,
    'POST /b/full HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n', 'POST /ok HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n',
    'POST /ok HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n', 'GET /dead HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /list/ HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /list/?C=%00 HTTP/1.1\r\nHost: h\r\n\r\n',
    'GET /z/big.txt HTTP/1.1\r\nHost: h\r\nAccept-Encoding: gzip\r\n\r\n', 'GET /z/big.txt HTTP/1.1\r\nHost: h\r\nAccept-Encoding: deflate\r\n\r\n', 'GET /status HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /status?format=plain HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /status?mode=runtime HTTP/1.1\r\nHost: h\r\n\r\n',
    'GET /auth HTTP/1.1\r\nHost: h\r\nAuthorization: Basic Zm9vOmJhcg==\r\n\r\n', 'GET /auth HTTP/1.1\r\nHost: h\r\nAuthorization: Basic !!!\r\n\r\n', 'GET /auth HTTP/1.1\r\nHost: h\r\nAuthorization: Digest x="\r\n\r\n',
    'GET /slow/big.bin HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /flv/big.bin?start=99999999999999999999 HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /flv/big.bin?start=10 HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /flv/big.bin?start=-10 HTTP/1.1\r\nHost: h\r\n\r\n',
    'GET /rw/a/b HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /redir/x?y HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /progress?show=1 HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /lim HTTP/1.1\r\nHost: h\r\n\r\n', 'OPTIONS * HTTP/1.1\r\nHost: h\r\n\r\n',
    'GET /f.txt HTTP/1.1\r\nHost: h\r\nIf-Modified-Since: Sun, 09 Sep 2001 01:46:40 GMT\r\n\r\n', 'HEAD /f.txt HTTP/1.1\r\nHost: h\r\nIf-Modified-Since: Sun, 09 Sep 2001 01:46:40 GMT\r\n\r\n', 'GET /f.txt HTTP/1.1\r\nHost: h\r\nRange: bytes=1000-\r\n\r\n',
    'GET /f.txt HTTP/1.1\r\nHost: h\r\nIf-Modified-Since: yesterday\r\n\r\n', 'GET /fifo HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /list HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /noread HTTP/1.1\r\nHost: h\r\n\r\n', 'POST /f.txt HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabc',
    'GET /empty HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /f.txt/pi HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /c/f.txt HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /c/big.txt HTTP/1.1\r\nHost: h\r\nAccept-Encoding: gzip\r\n\r\n', 'GET /c/f.txt HTTP/1.1\r\nHost: h\r\nRange: bytes=1-5\r\n\r\n',
    'GET /flv/f.txt HTTP/1.1\r\nHost: h\r\nIf-Modified-Since: Sun, 09 Sep 2001 01:46:40 GMT\r\n\r\n',
    'GET http://x:99999/ HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /ok HTTP/1.1\r\nHost: [::1\r\n\r\n', 'GET /ok HTTP/1.1\r\nHost: a..b\r\n\r\n', 'GET /missing HTTP/1.0\r\n\r\n', 'GET /sc/x HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /fc/x HTTP/1.1\r\nHost: h\r\n\r\n',
    'GET /debug HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /debug?con=0x0 HTTP/1.1\r\nHost: h\r\n\r\n', 'CONNECT h:80 HTTP/1.1\r\nHost: h\r\n\r\n', 'GET /b/full HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n\r\nabc', 'GET /b/upgrade HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n\r\nabc',
]


class Bad(Backend):
    def handle(self, c):
        t = c.recv(100000)
        p = lat(t).split(' ')[1:2]
        p = p[0].split('?')[0] if p else ''
        if p == '/b/early':
            c.sendall(b'HTTP/1.1 403 No\r\nContent-Length: 2\r\n\r\nno')
            return
        if p == '/b/none':
            return
        if p == '/b/garbage':
            c.sendall(b'\x00\xff\r\n garbage: \r\n\r\n')
            return
        if p == '/b/upgrade':
            c.sendall(b'HTTP/1.1 101 Switching\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n\r\nhello')
            d = c.recv(1000)
            c.sendall(d)
            return
        if p == '/b/trunc':
            c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\nno')
        elif p == '/b/chunk':
            c.sendall(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n')
        elif p == '/b/chunktrunc':
            c.sendall(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n30\r\nabc')
        elif p == '/b/headonly':
            c.sendall(b'HTTP/1.1 200 OK\r\nFoo: bar\r\n')
        elif p == '/b/big':
            c.sendall(b'HTTP/1.1 200 OK\r\n\r\n' + b'q' * 600000)
        elif p == '/b/slow':
            c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\nab')
            time.sleep(0.01)
            c.sendall(b'cdef')
        else:
            c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok')


CONF = '''
setup { module_load ["mod_proxy", "mod_dirlist", "mod_redirect", "mod_rewrite", "mod_deflate", "mod_status", "mod_auth", "mod_throttle", "mod_flv", "mod_progress", "mod_limit",
 "mod_scgi", "mod_fastcgi", "mod_debug", "mod_accesslog", "mod_expire", "mod_cache_disk_etag"]; listen "unix:%SOCK%"; listen "127.0.0.1:%PORT%"; workers 2; }
server.tag "t";
keepalive.requests 100000;
keepalive.timeout 600;
accesslog "file:%DIR%/access.log";
mime_types [".txt" => "text/plain", ".html" => "text/html", "" => "application/octet-stream"];
docroot "%DIR%/www";
if req.path =^ "/b/" { progress.track; proxy "unix:%DIR%/be.sock"; }
else if req.path =^ "/dead" { proxy "unix:%DIR%/nobody.sock"; }
else if req.path =^ "/sc/" { scgi "unix:%DIR%/be.sock"; }
else if req.path =^ "/fc/" { fastcgi "unix:%DIR%/be.sock"; }
else if req.path == "/ok" { respond "ok"; }
else if req.path =^ "/list" { dirlist; }
else if req.path =^ "/z/" { deflate; alias "/z" => "%DIR%/www"; }
else if req.path =^ "/c/" { alias "/c" => "%DIR%/www"; static; cache.disk.etag "%DIR%/cache"; deflate; }
else if req.path =^ "/slow/" { io.throttle 200kbyte; alias "/slow" => "%DIR%/www"; }
else if req.path =^ "/flv/" { alias "/flv" => "%DIR%/www"; flv; }
else if req.path =^ "/status" { status.info; }
else if req.path =^ "/debug" { debug.show_connections; }
else if req.path =^ "/progress" { progress.show; }
else if req.path =^ "/lim" { limit.con 1; respond "lim"; }
else if req.path =^ "/rw" { rewrite "^/rw/(.*)" => "/f.txt?$1"; static; }
else if req.path =^ "/redir" { redirect "/x%{req.path}"; }
else if req.path =^ "/auth" { auth.plain ["method" => "basic", "realm" => "r", "file" => "%DIR%/pw", "ttl" => 10]; respond "in"; }
'''


def mutate(s, muts):
    for pos, kind, ch in muts:
        i = int(pos * len(s))
        s = s[:i] + (ch if kind != 1 else '') + s[i + (1 if kind else 0):]
    return s


class Chaos(E2E):
    NAME = 'chaos'
    N_QUICK = 700
    N_THOROUGH = 30000
    SECS_QUICK = 40
    RECYCLE = 300

    def prepare(self):
        d = self.scratch + '/www'
        os.makedirs(d + '/list', exist_ok=True)
        with open(d + '/big.bin', 'wb') as f:
            f.write(bytes(range(256)) * 4000)
        with open(d + '/big.txt', 'wb') as f:
            f.write(b'hello text %d\n' * 30000)
        with open(d + '/f.txt', 'wb') as f:
            f.write(b'0123456789' * 10)
        os.utime(d + '/f.txt', (1000000000, 1000000000))
        with open(d + '/empty', 'wb'), open(d + '/noread', 'wb'):
            pass
        os.makedirs(self.scratch + '/cache', exist_ok=True)
        if not os.path.exists(d + '/fifo'):
            os.mkfifo(d + '/fifo')
        with open(self.scratch + '/pw', 'w') as f:
            f.write('foo:bar\n')
        self.be = Bad(self.scratch + '/be.sock')
        self.port = free_port()
        self.ncases = 0
        self.idle = None
        self.innocent = None

    def conf(self):
        return CONF.replace('%PORT%', str(self.port))

    def setup(self):
        E2E.setup(self)
        self.probe('at start')
        self.innocent = None
        self.idle = self.nfds()

    def teardown(self):
        if self.innocent:
            self.innocent.close()
        E2E.teardown(self)
        self.be.stop()

    def fds(self):
        out = []
        try:
            for f in os.listdir('/proc/%d/fd' % self.srv.proc.pid):
                try:
                    t = os.readlink('/proc/%d/fd/%s' % (self.srv.proc.pid, f))
                except OSError:
                    continue
                # event loop descriptors and logs are opened lazily, once per worker
                if not (t.startswith('anon_inode:') or t.endswith('.log') or t == '/dev/null'):
                    out.append(t)
        except OSError:
            self.srv.check_alive()
        return out

    def nfds(self):
        return len(self.fds())

    def strategy(self):
        mut = st.lists(st.tuples(st.floats(0, 0.999), st.integers(0, 2), st.sampled_from('\x00\r\n \t"\\:/%?=a9\x7f\xff')), max_size=3)
        frag = st.one_of(
            st.integers(0, len(REQS) - 1).map(lambda i: ['q', i]), st.integers(0, len(REQS) - 1).map(lambda i: ['q', i]),
            st.tuples(st.just('m'), st.integers(0, len(REQS) - 1), mut).map(list),
            st.tuples(st.just('t'), st.integers(0, len(REQS) - 1), st.floats(0, 1)).map(list),
            st.text(alphabet=st.characters(min_codepoint=0, max_codepoint=255), max_size=30).map(lambda s: ['x', s]),
            st.tuples(st.just('big'), st.sampled_from(['A: ', 'GET /', 'x', '\r\n', '0123456789abcdef\r\n']), st.sampled_from([100, 9000, 70000, 300000])).map(list))
        step = st.one_of(frag, frag, frag, st.sampled_from([['r', 10], ['r', 5000], ['r', 200000], ['w'], ['shut']]))
        script = st.tuples(st.booleans(), st.lists(step, min_size=1, max_size=5), st.sampled_from(['close', 'rst', 'read', 'close'])).map(list)
        return st.fixed_dictionaries({'conns': st.lists(script, min_size=1, max_size=4), 'sched': st.lists(st.integers(0, 3), max_size=12), 'inno': st.booleans()})

    def data(self, s):
        if s[0] == 'q':
            return l1(REQS[s[1]])
        if s[0] == 'm':
            return l1(mutate(REQS[s[1]], s[2]))
        if s[0] == 't':
            r = REQS[s[1]]
            return l1(r[:int(s[2] * len(r))])
        if s[0] == 'x':
            return l1(s[1])
        return l1(s[1]) * (s[2] // len(s[1]))

    def probe(self, what):
        r = self.get(b'GET /ok HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n')
        if r.status != 200 or r.body != b'ok':
            raise Violation('after %s a fresh request is answered by %s' % (what, r.brief()))

    def run(self, case, rec):
        self.ncases += 1
        conns = []
        try:
            if self.innocent is None:
                self.innocent = self.conn()
            for tcp, script, end in case['conns']:
                conns.append([Conn(tcp=('127.0.0.1', self.port), timeout=5) if tcp else self.conn(5), list(script)])
            order = list(case['sched']) + [0, 1, 2, 3] * 6
            bad = 0
            for i in order:
                if i >= len(conns) or not conns[i][1]:
                    continue
                c, sc = conns[i]
                s = sc.pop(0)
                try:
                    if s[0] == 'r':
                        c.s.settimeout(0.01)
                        try:
                            c.s.recv(s[1])
                        except OSError:
                            pass
                    elif s[0] == 'w':
                        c.drained(0.02)
                    elif s[0] == 'shut':
                        c.shutdown_wr()
                        bad += 1
                    else:
                        if s[0] != 'q':
                            bad += 1
                        d = self.data(s)
                        c.s.settimeout(0.05)
                        c.s.sendall(d)
                except OSError:
                    pass
            rec.nt(bad > 0 or any(e in ('rst', 'close') for _, _, e in case['conns']))
            for (tcp, script, end), (c, _) in zip(case['conns'], conns):
                if end == 'rst' and tcp:
                    c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                elif end == 'read':
                    c.s.settimeout(0.02)
                    try:
                        for _ in range(20):
                            if not c.s.recv(262144):
                                break
                    except OSError:
                        pass
                rec.label('end-' + end)
                c.close()
                c.s = None
        finally:
            for c, _ in conns:
                if c.s is not None:
                    c.close()
        self.srv.check_alive()
        self.probe('this')
        if case['inno']:
            i = self.innocent
            i.send(b'GET /ok?%d HTTP/1.1\r\nHost: h\r\n\r\n' % self.ncases)
            r = self.one(i, 'GET', 'innocent connection')
            if r.status != 200 or r.body != b'ok':
                raise Violation('another, well-behaved connection got %s' % r.brief())
        else:
            self.innocent.close()
            self.innocent = None
        self.check_fds()

    def check_fds(self):
        end = time.monotonic() + 40
        k = 0
        while True:
            n = self.nfds()
            if n <= self.idle + (1 if self.innocent else 0):
                return
            if time.monotonic() > end:
                break
            k += 1
            time.sleep(0.0003 if k < 20 else 0.01)
        self.srv.check_alive()
        raise Violation('file descriptors leaked: %d open, %d when idle: %r' % (n, self.idle, sorted(self.fds())[:60]), timing=True)


SUBS = [Chaos]

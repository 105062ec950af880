"""C26: TLS (mod_openssl, mod_gnutls): the same HTTP service over TLS, client certificates, SNI certificates, arbitrary ClientHello bytes."""
import os
import shutil
import socket
import ssl
import time

from hypothesis import strategies as st

from lib.backend import Backend, read_http_request
from lib.e2e import chunked, l1, lat, req
from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Server, Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CERTS = os.path.join(HERE, 'data', 'tls')
RULE = ('transport: requests (files, ranges, uploads, pipelines) over generated TLS records / TCP segments x OpenSSL and GnuTLS listeners x TLS versions x resumed sessions; '
        'verify: client certificates x verification settings; sni: server names x hello fragmentations; hello: generated and mutated ClientHello messages; '
        'non-trivial: more than one request or a body above one record (transport), a certificate is presented (verify), a name is sent (sni), the hello differs from a regular one (hello)')
SIZES = [0, 1, 700, 16383, 16384, 16385, 40000, 65536, 131072, 300001]


def pattern(n, salt=0):
    return bytes((i * 7 + (i >> 8) * 13 + salt) & 0xff for i in range(min(n, 4096))) * (n // 4096 + 1)


def data(n):
    return pattern(n)[:n]


class TConn(Conn):
    """TLS on top of Conn, with control over records and segments"""

    def __init__(self, path, ctx, name=None, session=None, sizes=(), recs=(), timeout=10.0, refrag=()):
        Conn.__init__(self, path=path, timeout=timeout)
        self.inc = ssl.MemoryBIO()
        self.out = ssl.MemoryBIO()
        self.obj = ctx.wrap_bio(self.inc, self.out, server_side=False, server_hostname=name, session=session)
        self.sizes = list(sizes)
        self.recs = list(recs)
        self.refrag = list(refrag)
        self.k = 0
        self.small = 0
        self.clean = None
        self.alert = None
        self.first = True
        self.readsize = 262144

    def flush(self):
        d = self.out.read()
        if self.first and d and self.refrag:
            d = refragment(d, self.refrag)
        if d:
            self.first = False
        while d:
            n = len(d)
            if self.sizes and self.small < 400:
                n = self.sizes[self.k % len(self.sizes)]
                self.k += 1
                if n < 200:
                    self.small += 1
            if not Conn.send(self, d[:n]):
                return False
            d = d[n:]
            if d:
                self.drained(0.02)
        return True

    def raw(self, deadline):
        left = deadline - time.monotonic()
        if left <= 0:
            raise Timeout('recv')
        self.s.settimeout(left)
        try:
            d = self.s.recv(self.readsize)
        except socket.timeout:
            raise Timeout('recv')
        except OSError:
            d = b''
        if d:
            self.inc.write(d)
        else:
            self.inc.write_eof()
        return len(d)

    def handshake(self, timeout=None):
        """True, or the error text"""
        deadline = time.monotonic() + (timeout or self.timeout)
        while True:
            try:
                self.obj.do_handshake()
                self.flush()
                return True
            except ssl.SSLWantReadError:
                self.flush()
                try:
                    self.raw(deadline)
                except Timeout:
                    raise
            except (ssl.SSLError, OSError) as e:
                self.flush()
                return str(e) or repr(e)

    def send(self, d):
        i = 0
        p = 0
        while p < len(d):
            n = self.recs[i % len(self.recs)] if self.recs and i < 300 else len(d) - p
            i += 1
            try:
                p += self.obj.write(d[p:p + n])
            except ssl.SSLError:
                return False
            if not self.flush():
                return False
        return True

    def _fill(self, deadline):
        if self.eof:
            raise Closed('eof')
        while True:
            try:
                d = self.obj.read(262144)
                if not d:
                    raise ssl.SSLZeroReturnError()
                self.buf += d
                self.total += len(d)
                return
            except ssl.SSLWantReadError:
                self.flush()
                self.raw(deadline)
            except ssl.SSLZeroReturnError:
                self.eof = True
                self.clean = True
                raise Closed('eof')
            except ssl.SSLError as e:
                self.eof = True
                self.clean = False
                self.alert = str(e)
                raise Closed('eof')

    def bye(self):
        """send our close_notify"""
        try:
            self.obj.unwrap()
        except (ssl.SSLError, ValueError):
            pass
        self.flush()


def refragment(d, sizes):
    """split the handshake records of a flight into several records"""
    out = b''
    k = 0
    while len(d) >= 5:
        n = int.from_bytes(d[3:5], 'big')
        body = d[5:5 + n]
        if d[0] == 22:
            while body:
                m = sizes[k % len(sizes)]
                k += 1
                out += d[:3] + min(m, len(body)).to_bytes(2, 'big') + body[:m]
                body = body[m:]
        else:
            out += d[:5 + n]
        d = d[5 + n:]
    return out


def client(version=None, cert=None, chain=True):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    if version == '1.2':
        c.maximum_version = ssl.TLSVersion.TLSv1_2
    elif version == '1.3':
        c.minimum_version = ssl.TLSVersion.TLSv1_3
    if cert:
        c.load_cert_chain(os.path.join(CERTS, cert + '.pem'))
    return c


def der(name):
    t = open(os.path.join(CERTS, name)).read()
    i = t.index('-----BEGIN CERTIFICATE')
    return ssl.PEM_cert_to_DER_cert(t[i:t.index('-----END CERTIFICATE-----', i) + 25])


class BodyBackend(Backend):
    def handle(self, c):
        d = read_http_request(c)['body']
        c.sendall(b'HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\nConnection: close\r\n\r\n' % len(d) + d)


class Base(Sub):
    RECYCLE = 250

    def listeners(self):
        raise NotImplementedError

    def body(self):
        return ''

    def prepare(self):
        pass

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)
        self.srv = None
        d = os.path.join(self.scratch, 'certs')
        shutil.copytree(CERTS, d, dirs_exist_ok=True)
        self.prepare()
        conf = ('setup { module_load ["mod_openssl", "mod_gnutls", "mod_proxy"]; io.timeout 60; fetch.files_static "sni" => "%s/certs/sni_*.pem"; %s listen "unix:%s/s.sock"; }\nkeepalive.timeout 60;\n%s'
                % (self.scratch, self.listeners(), self.scratch, self.body()))
        self.srv = Server(self.scratch, conf)
        if not self.srv.start():
            self.srv.settle_dead(0.2)
            self.srv.check_alive()
            raise Violation('configuration refused: %s' % self.srv.log_text()[-600:])

    def teardown(self):
        if self.srv is not None:
            self.srv.stop()
        self.unprepare()

    def unprepare(self):
        pass

    def after(self, case):
        self.srv.check_alive()

    def path(self, which):
        return '%s/%s.sock' % (self.scratch, which)

    def hand(self, c, what):
        try:
            r = c.handshake()
        except Timeout:
            self.srv.check_alive()
            raise Violation('TLS handshake does not finish (%s)' % what, timing=True)
        if r is not True:
            self.srv.settle_dead(0.2)
            self.srv.check_alive()
        return r

    def one(self, c, method, what):
        try:
            return c.response(method)
        except Malformed as e:
            raise Violation('malformed response (%s): %s' % (what, e))
        except Closed:
            self.srv.settle_dead(0.2)
            self.srv.check_alive()
            raise Violation('connection ended before the response was complete (%s) %s' % (what, c.alert or ''))
        except Timeout:
            self.srv.check_alive()
            raise Violation('no (complete) response (%s); %d bytes so far' % (what, c.total), timing=True)

    def serves(self, which, what):
        c = TConn(self.path(which), client())
        try:
            r = self.hand(c, what)
            if r is not True:
                raise Violation('handshake fails afterwards (%s): %s' % (what, r))
            c.send(req('GET', '/scheme'))
            r = self.one(c, 'GET', what)
            if r.status != 200 or r.body != b'https':
                raise Violation('afterwards (%s): %s' % (what, r.brief()))
        finally:
            c.close()


REQS = st.one_of(
    st.fixed_dictionaries({'k': st.just('file'), 'n': st.sampled_from(SIZES), 'head': st.booleans()}),
    st.fixed_dictionaries({'k': st.just('range'), 'n': st.sampled_from(SIZES[3:]), 'a': st.integers(0, 1 << 30), 'b': st.integers(0, 1 << 30)}),
    st.fixed_dictionaries({'k': st.just('scheme')}),
    st.fixed_dictionaries({'k': st.just('echo'), 'n': st.one_of(st.sampled_from(SIZES + [600000]), st.integers(0, 100000)), 'chunks': st.lists(st.sampled_from([1, 100, 5000, 16384, 70000]), max_size=3)}),
)


class Transport(Base):
    NAME = 'transport'
    N_QUICK = 120
    N_THOROUGH = 4000
    SECS_QUICK = 40

    def prepare(self):
        os.makedirs(self.scratch + '/www', exist_ok=True)
        for n in SIZES:
            with open('%s/www/f%d' % (self.scratch, n), 'wb') as f:
                f.write(data(n))
        self.be = BodyBackend(path=self.scratch + '/be.sock')

    def unprepare(self):
        self.be.stop()

    def listeners(self):
        s = self.scratch
        return ('openssl [ "listen" => "unix:%s/openssl.sock", "pemfile" => "%s/certs/srv.pem" ];'
                'gnutls [ "listen" => "unix:%s/gnutls.sock", "pemfile" => "%s/certs/srv.pem" ];'
                'gnutls [ "listen" => "unix:%s/gnutlsdb.sock", "pemfile" => "%s/certs/srv.pem", "session-db-size" => 2 ];' % (s, s, s, s, s, s))

    def body(self):
        return ('if req.path == "/scheme" { respond 200 => "%%{req.scheme}"; }\n'
                'if req.path == "/echo" { proxy "unix:%s/be.sock"; }\n'
                'docroot "%s/www";\n' % (self.scratch, self.scratch))

    def strategy(self):
        sizes = st.lists(st.sampled_from([1, 2, 5, 6, 50, 1000, 16000, 20000, 70000]), max_size=4)
        return st.fixed_dictionaries({
            'l': st.sampled_from(['openssl', 'gnutls', 'gnutlsdb']), 'v': st.sampled_from(['1.2', '1.3']),
            'seg': sizes, 'recs': st.lists(st.sampled_from([1, 3, 100, 16384, 16000, 5000]), max_size=3), 'refrag': st.one_of(st.just([]), st.lists(st.sampled_from([1, 4, 30, 100, 250]), min_size=1, max_size=3)),
            'conns': st.lists(st.fixed_dictionaries({
                'reqs': st.lists(REQS, min_size=1, max_size=5), 'pipe': st.booleans(), 'end': st.sampled_from(['close', 'keep', 'bye', 'drop', 'abort']), 'slow': st.sampled_from([0, 0, 0, 1000, 20000])}), min_size=1, max_size=3)})

    def make(self, q, last):
        h = [('Connection', 'close')] if last else []
        if q['k'] == 'file':
            return ('HEAD' if q['head'] else 'GET'), req('HEAD' if q['head'] else 'GET', '/f%d' % q['n'], headers=h), 200, b'' if q['head'] else data(q['n'])
        if q['k'] == 'range':
            a, b = sorted((q['a'] % q['n'], q['b'] % q['n']))
            return 'GET', req('GET', '/f%d' % q['n'], headers=h + [('Range', 'bytes=%d-%d' % (a, b))]), 206, data(q['n'])[a:b + 1]
        if q['k'] == 'scheme':
            return 'GET', req('GET', '/scheme', headers=h), 200, b'https'
        d = data(q['n'])
        if q['chunks']:
            return 'POST', req('POST', '/echo', headers=h + [('Transfer-Encoding', 'chunked')], body=chunked(d, q['chunks'] if min(q['chunks']) > 1 or q['n'] < 3000 else [5000])), 200, d
        return 'POST', req('POST', '/echo', headers=h + [('Content-Length', str(len(d)))], body=d), 200, d

    def run(self, case, rec):
        rec.nt(sum(len(c['reqs']) for c in case['conns']) > 1 or any(q.get('n', 0) > 16384 for c in case['conns'] for q in c['reqs']))
        rec.label(case['l'])
        ctx = client(case['v'])
        session = None
        for ci, spec in enumerate(case['conns']):
            what = '%s TLS %s connection %d' % (case['l'], case['v'], ci)
            c = TConn(self.path(case['l']), ctx, session=session, sizes=case['seg'], recs=case['recs'], refrag=case['refrag'])
            try:
                r = self.hand(c, what)
                if r is not True:
                    raise Violation('handshake fails (%s): %s' % (what, r))
                if c.obj.getpeercert(True) != der('srv.pem'):
                    raise Violation('wrong server certificate (%s)' % what)
                if c.obj.session_reused:
                    rec.label('resumed')
                if spec['slow']:
                    c.readsize = spec['slow']
                todo = []
                for i, q in enumerate(spec['reqs']):
                    todo.append(self.make(q, spec['end'] == 'close' and i == len(spec['reqs']) - 1))
                if spec['pipe'] and sum(len(t[1]) for t in todo) < 90000:
                    c.send(b''.join(t[1] for t in todo))
                    rec.label('pipelined')
                else:
                    spec = dict(spec, pipe=False)
                for i, (m, raw, status, body) in enumerate(todo):
                    if not spec['pipe']:
                        if not c.send(raw):
                            raise Violation('the server ends the connection while request %d is sent (%s)' % (i, what))
                    if spec['end'] == 'abort' and i == len(todo) - 1:
                        break
                    r = self.one(c, m, '%s request %d %s' % (what, i, raw[:40]))
                    if r.status != status or r.body != body:
                        raise Violation('%s request %d: expected %d with %d bytes, got %s' % (what, i, status, len(body), r.brief()))
                    if m == 'HEAD' and len(body) == 0 and r.get('Content-Length') not in (None, str(spec['reqs'][i]['n'])):
                        raise Violation('%s: HEAD says %s' % (what, r.brief()))
                session = c.obj.session
                if spec['end'] == 'close':
                    t = time.monotonic()
                    try:
                        rest = c.recv_rest(5)
                    except Timeout:
                        raise Violation('%s: Connection: close, but the connection stays open' % what, timing=True)
                    if rest:
                        raise Violation('%s: bytes after the last response: %r' % (what, rest[:60]))
                    if not c.clean and case['l'] == 'openssl':
                        raise Violation('%s: the connection ends without close_notify (%s)' % (what, c.alert))
                    rec.label('close')
                elif spec['end'] == 'bye':
                    c.bye()
                    try:
                        c.recv_rest(5)
                    except Timeout:
                        raise Violation('%s: the connection stays open after the close_notify of the client' % what, timing=True)
                if c.buf and spec['end'] != 'abort':
                    raise Violation('%s: bytes after the last response: %r' % (what, c.buf[:60]))
            finally:
                c.close()


VALID = {None: None, 'good': 1, 'good2': 1, 'deep': 2, 'expired': 0, 'selfs': 0, 'foreign': 0, 'forged': 0}
CN = {'good': 'good client', 'good2': 'second client', 'deep': 'deep client', 'expired': 'expired client', 'selfs': 'self signed', 'foreign': 'foreign client', 'forged': 'good client'}
O = {'good': 'Verif', 'good2': 'Two'}
MODES = [('off', {}), ('v', {'verify': 'true'}), ('vr', {'verify': 'true', 'verify-require': 'true'}), ('va', {'verify': 'true', 'verify-any': 'true'}),
         ('var', {'verify': 'true', 'verify-any': 'true', 'verify-require': 'true'}), ('vr0', {'verify': 'true', 'verify-require': 'true', 'verify-depth': '0'}), ('vr5', {'verify': 'true', 'verify-require': 'true', 'verify-depth': '5'})]


class Verify(Base):
    NAME = 'verify'
    N_QUICK = 40
    N_THOROUGH = 800
    SECS_QUICK = 25

    def listeners(self):
        s = self.scratch
        return ''.join('openssl [ "listen" => "unix:%s/%s.sock", "pemfile" => "%s/certs/srv.pem", "client-ca-file" => "%s/certs/cca.crt"%s ];'
                       % (s, n, s, s, ''.join(', "%s" => %s' % kv for kv in o.items())) for n, o in MODES)

    def body(self):
        return ('if req.path == "/env" { openssl.setenv [ "client", "server" ]; respond 200 => "%{req.env[SSL_CLIENT_S_DN_CN]}|%{req.env[SSL_CLIENT_S_DN_O]}|%{req.env[SSL_SERVER_S_DN_CN]}"; }\n'
                'if req.path == "/pem" { openssl.setenv "client-cert"; respond 200 => "%{req.env[SSL_CLIENT_CERT]}"; }\n'
                'if req.path == "/none" { respond 200 => "%{req.env[SSL_CLIENT_S_DN_CN]}|%{req.env[SSL_CLIENT_CERT]}"; }\n'
                'respond 404;\n')

    def strategy(self):
        return st.fixed_dictionaries({
            'conns': st.lists(st.tuples(st.sampled_from(MODES).map(lambda m: m[0]), st.sampled_from(sorted(VALID, key=str)), st.sampled_from(['1.2', '1.3']), st.lists(st.sampled_from(['/env', '/pem', '/none']), min_size=1, max_size=4), st.booleans()), min_size=1, max_size=5)})

    def run(self, case, rec):
        rec.nt(any(c[1] for c in case['conns']))
        sess = {}
        for mode, cert, version, paths, resume in case['conns']:
            o = dict(MODES)[mode]
            what = 'listener %s, client certificate %s, TLS %s' % (mode, cert, version)
            depth = int(o.get('verify-depth', 1))
            verify, anyc, require = 'verify' in o, 'verify-any' in o, 'verify-require' in o
            if not verify:
                want = True
            elif cert is None:
                want = not require
            elif anyc:
                want = True
            else:
                # depth: the number of intermediate certificates
                want = VALID[cert] > 0 and VALID[cert] - 1 <= depth
                if not want and not require:
                    want = None
            key = (mode, cert, version)
            ctx, session = sess.get(key, (None, None))
            if ctx is None or not resume:
                ctx, session = client(version, cert), None
            c = TConn(self.path(mode), ctx, session=session)
            try:
                ok = self.hand(c, what)
                served = []
                if ok is True:
                    for p in paths:
                        c.send(req('GET', p))
                        try:
                            served.append(c.response('GET'))
                        except Closed as e:
                            ok = 'closed: %s' % c.alert
                            break
                        except Timeout:
                            self.srv.check_alive()
                            raise Violation('no response (%s)' % what, timing=True)
                        except Malformed as e:
                            raise Violation('malformed response (%s): %s' % (what, e))
                if want is False and served:
                    raise Violation('%s: the request is answered although verification has to fail: %s' % (what, served[0].brief()))
                if want is True and len(served) != len(paths):
                    self.srv.settle_dead(0.2)
                    self.srv.check_alive()
                    raise Violation('%s: not served: %s' % (what, ok))
                rec.label('served' if served else 'refused')
                if want is None:
                    continue
                if served and c.obj.session_reused:
                    rec.label('resumed')
                shown = cert if verify else None
                have = False
                pem = False
                for p, r in zip(paths, served):
                    if p == '/env':
                        exp = l1('%s|%s|default.test' % (CN.get(shown, ''), O.get(shown, '')))
                        if r.body != exp:
                            raise Violation('%s: environment %r instead of %r' % (what, r.body, exp))
                    elif p == '/pem':
                        try:
                            got = ssl.PEM_cert_to_DER_cert(r.body.decode('latin-1').strip()) if r.body else None
                        except ValueError:
                            got = 'garbage'
                        if got != (der(shown + '.pem') if shown else None):
                            raise Violation('%s: SSL_CLIENT_CERT is %r' % (what, r.body[:80]))
                    elif r.body != b'|':
                        raise Violation('%s: environment without openssl.setenv: %r' % (what, r.body[:80]))
                if served:
                    sess[key] = (ctx, c.obj.session)
            finally:
                c.close()


NAMES = ['a.test', 'bb.test', 'xn--bcher-kva.test', 'longer-name.sub.test', 'nope.test', 'a.tes', 'a.test2', 'sub.a.test', 'b.test', 'test', 'x' * 60 + '.test', '..', '../srv', 'a.test/', 'srv']


class Sni(Base):
    NAME = 'sni'
    N_QUICK = 60
    N_THOROUGH = 2000
    SECS_QUICK = 20

    def listeners(self):
        s = self.scratch
        return ('gnutls [ "listen" => "unix:%s/sni.sock", "pemfile" => "%s/certs/srv.pem", "sni-backend" => "sni", "sni-fallback-pemfile" => "%s/certs/fallback.pem" ];'
                'gnutls [ "listen" => "unix:%s/sninf.sock", "pemfile" => "%s/certs/srv.pem", "sni-backend" => "sni" ];'
                'gnutls [ "listen" => "unix:%s/plain.sock", "pemfile" => "%s/certs/srv.pem" ];'
                'openssl [ "listen" => "unix:%s/openssl.sock", "pemfile" => "%s/certs/srv.pem" ];' % ((s,) * 9))

    def body(self):
        return 'if req.path == "/scheme" { respond 200 => "%{req.scheme}"; }\nrespond 200 => "%{req.host}";\n'

    def strategy(self):
        return st.fixed_dictionaries({
            'l': st.sampled_from(['sni', 'sni', 'sninf', 'plain', 'openssl']), 'v': st.sampled_from(['1.2', '1.3']),
            'names': st.lists(st.one_of(st.none(), st.sampled_from(NAMES[:11])), min_size=1, max_size=4),
            'refrag': st.one_of(st.just([]), st.lists(st.sampled_from([1, 2, 3, 40, 120, 200]), min_size=1, max_size=3)),
            'seg': st.lists(st.sampled_from([1, 3, 5, 9, 60, 100, 250]), max_size=4)})

    def want(self, l, name):
        if l in ('plain', 'openssl') or name is None:
            return ['srv.pem']
        if os.path.exists(os.path.join(CERTS, 'sni_%s.pem' % name)):
            return ['sni_%s.pem' % name]
        return ['fallback.pem' if l == 'sni' else 'srv.pem']

    def run(self, case, rec):
        rec.nt(any(case['names']))
        ctx = client(case['v'])
        for name in case['names']:
            what = '%s listener, server name %r, TLS %s' % (case['l'], name, case['v'])
            c = TConn(self.path(case['l']), ctx, name=name, sizes=case['seg'], refrag=case['refrag'])
            try:
                r = self.hand(c, what)
                if r is not True:
                    raise Violation('handshake fails (%s): %s' % (what, r))
                got = c.obj.getpeercert(True)
                want = self.want(case['l'], name)
                rec.label('cert-' + want[0].split('_')[0].split('.')[0])
                if got not in [der(w) for w in want]:
                    which = [f for f in os.listdir(CERTS) if f.endswith('.pem') and der(f) == got]
                    raise Violation('%s: certificate %s instead of %s' % (what, which, want))
                c.send(req('GET', '/scheme'))
                r = self.one(c, 'GET', what)
                if r.status != 200 or r.body != b'https':
                    raise Violation('%s: %s' % (what, r.brief()))
            finally:
                c.close()


def u16(n):
    return (n & 0xffff).to_bytes(2, 'big')


def hello(case):
    """a TLS 1.2 ClientHello; entries of the server name list, other extensions and length distortions are generated"""
    exts = []
    sid = l1(case['sid'])
    for e in case['exts']:
        if e[0] == 'sni':
            lst = b''.join(bytes([t]) + u16(len(n) + d) + l1(n) for t, n, d in e[1])
            exts.append(u16(0) + u16(len(lst) + 2 + e[2]) + u16(len(lst) + e[3]) + lst)
        elif e[0] == 'rawsni':
            exts.append(u16(0) + u16(len(e[1])) + l1(e[1]))
        else:
            exts.append(u16(e[1]) + u16(len(e[2])) + l1(e[2]))
    std = [b'\x00\x0a\x00\x06\x00\x04\x00\x17\x00\x18', b'\x00\x0b\x00\x02\x01\x00', b'\x00\x0d\x00\x0a\x00\x08\x04\x03\x05\x03\x08\x04\x04\x01', b'\xff\x01\x00\x01\x00']
    x = b''.join(exts[:case['at']] + std + exts[case['at']:])
    b = b'\x03\x03' + bytes(range(32)) + bytes([len(sid)]) + sid + u16(len(case['ciphers']) * 2) + b''.join(u16(c) for c in case['ciphers']) + b'\x01\x00'
    if case['noext']:
        pass
    else:
        b += u16(len(x) + case['dx']) + x
    return b'\x01' + (len(b) + case['dl']).to_bytes(3, 'big') + b


def records(msg, sizes, version=b'\x03\x01'):
    out = b''
    k = 0
    p = 0
    while p < len(msg):
        n = sizes[k % len(sizes)] if sizes and k < 60 else len(msg) - p
        k += 1
        n = min(n, len(msg) - p)
        out += b'\x16' + version + u16(n) + msg[p:p + n]
        p += n
    return out


def server_cert(raw):
    """the first certificate in a plain text (TLS 1.2) server flight, or None"""
    msg = b''
    while len(raw) >= 5:
        n = int.from_bytes(raw[3:5], 'big')
        if raw[0] == 22:
            msg += raw[5:5 + n]
        raw = raw[5 + n:]
    while len(msg) >= 4:
        n = int.from_bytes(msg[1:4], 'big')
        if msg[0] == 11 and len(msg) >= 4 + n:
            k = int.from_bytes(msg[7:10], 'big')
            return msg[10:10 + k]
        msg = msg[4 + n:]
    return None


SN = st.sampled_from(NAMES + ['', '\xff\xfe', 'a\0b', lat('b\u00fccher.test'.encode()), 'a.test\0x', 'A.TEST', 'y' * 300])


def binary(**kw):
    return st.binary(**kw).map(lat)


ENTRY = st.tuples(st.sampled_from([0, 0, 0, 0, 1, 255]), SN, st.sampled_from([0, 0, 0, 0, 1, -1, 3000]))
EXT = st.one_of(st.tuples(st.just('sni'), st.lists(ENTRY, max_size=3), st.sampled_from([0, 0, 0, 0, 1, -1]), st.sampled_from([0, 0, 0, 1, -1])),
                st.tuples(st.just('rawsni'), binary(max_size=12)),
                st.tuples(st.just('x'), st.sampled_from([5, 15, 16, 23, 35, 43, 65000]), st.one_of(st.just(''), binary(max_size=20))))


class Hello(Sni):
    NAME = 'hello'
    N_QUICK = 400
    N_THOROUGH = 20000
    SECS_QUICK = 25

    def strategy(self):
        z = st.sampled_from([0] * 12 + [1, -1, 5, -5, 300])
        one = st.sampled_from(NAMES[:11]).map(lambda n: [('sni', [(0, n, 0)], 0, 0)])
        regular = st.fixed_dictionaries({
            'l': st.sampled_from(['sni', 'sni', 'sninf', 'plain', 'openssl']), 'exts': st.one_of(one, one, st.tuples(one, binary(max_size=20), st.booleans()).map(lambda t: t[0] + [('x', 65000, t[1])] if t[2] else [('x', 65000, t[1])] + t[0])),
            'at': st.integers(0, 3), 'sid': st.one_of(st.just(''), binary(min_size=32, max_size=32)), 'ciphers': st.just([0xc02b, 0xc02c, 0xcca9, 0xc023]), 'noext': st.just(False), 'dx': st.just(0), 'dl': st.just(0),
            'recs': st.one_of(st.just([]), st.lists(st.sampled_from([1, 3, 7, 50, 60, 100]), min_size=1, max_size=3)), 'cuts': st.lists(st.integers(0, 400), max_size=6), 'flip': st.just([]), 'doflip': st.just(False), 'tail': st.just(''), 'trunc': st.none()})
        return st.one_of(regular, regular, st.fixed_dictionaries({
            'l': st.sampled_from(['sni', 'sni', 'sninf', 'plain', 'openssl']),
            'exts': st.lists(EXT, max_size=3), 'at': st.integers(0, 3), 'sid': st.one_of(st.just(''), binary(min_size=32, max_size=32), binary(max_size=40)),
            'ciphers': st.one_of(st.just([0xc02b, 0xc02c, 0xcca9, 0xc023]), st.lists(st.integers(0, 65535), max_size=4)), 'noext': st.sampled_from([False] * 9 + [True]),
            'dx': z, 'dl': z, 'recs': st.one_of(st.just([]), st.lists(st.sampled_from([1, 3, 7, 50, 60, 100]), min_size=1, max_size=3)),
            'cuts': st.lists(st.integers(0, 400), max_size=4), 'flip': st.lists(st.tuples(st.integers(0, 300), st.integers(0, 255)), max_size=2), 'doflip': st.sampled_from([False, False, True]), 'tail': st.one_of(st.just(''), st.just(''), binary(max_size=30)), 'trunc': st.one_of(st.just(None), st.just(None), st.integers(0, 250))}))

    def run(self, case, rec):
        raw = bytearray(records(hello(case), case['recs']))
        flipped = False
        if case['doflip']:
            for p, v in case['flip']:
                if p < len(raw) and raw[p] != v:
                    raw[p] = v
                    flipped = True
        raw = bytes(raw) + l1(case['tail'])
        if case['trunc'] is not None:
            raw = raw[:case['trunc']]
        rec.nt(bool(case['exts']) or flipped or case['trunc'] is not None)
        what = '%s listener, hello %s' % (case['l'], raw[:400].hex())
        # is it a well formed hello whose names are clear?
        clear = not (flipped or case['tail'] or case['trunc'] is not None or case['noext'] or case['dx'] or case['dl'] or len(case['sid']) > 32)
        clear = clear and 0xc02b in case['ciphers']
        names = [e for e in case['exts'] if e[0] in ('sni', 'rawsni')]
        types = [e[1] for e in case['exts'] if e[0] == 'x']
        if any(e[0] == 'x' and e[1] != 65000 for e in case['exts']) or len(set(types)) != len(types) or len(names) > 1:
            clear = False
        name = None
        if clear and names:
            e = names[0]
            if e[0] == 'rawsni' or e[2] or e[3] or len(e[1]) != 1 or e[1][0][0] != 0 or e[1][0][2] or e[1][0][1] not in NAMES[:11]:
                clear = False
            else:
                name = e[1][0][1]
        c = Conn(path=self.path(case['l']), timeout=5)
        try:
            c.send_pieces(raw, case['cuts'])
            if clear:
                got = b''
                end = time.monotonic() + 5
                cert = None
                while cert is None and time.monotonic() < end:
                    c.s.settimeout(max(0.01, end - time.monotonic()))
                    try:
                        d = c.s.recv(65536)
                    except socket.timeout:
                        break
                    except OSError:
                        d = b''
                    if not d:
                        break
                    got += d
                    cert = server_cert(got)
                if cert is None:
                    self.srv.settle_dead(0.1)
                    self.srv.check_alive()
                    raise Violation('no certificate for a regular hello (%s): %s' % (what, got[:40].hex()), timing=True)
                want = self.want(case['l'], name)
                rec.label('hello-' + want[0].split('_')[0].split('.')[0])
                if cert not in [der(w) for w in want]:
                    which = [f for f in os.listdir(CERTS) if f.endswith('.pem') and der(f) == cert]
                    raise Violation('%s: certificate %s instead of %s' % (what, which, want))
            else:
                c.drained(0.2)
        finally:
            c.close()
        # whatever a client sends: the others are served
        self.serves(case['l'], 'after ' + what)


SUBS = [Transport, Verify, Sni, Hello]

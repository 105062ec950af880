"""C17: the HTTP proxy relays requests, responses and upgraded connections faithfully."""
import re
import threading
import time

from hypothesis import strategies as st

from lib.backend import Reader, read_http_request
from lib.e2e import E2E, l1, lat, req
from lib.http import Closed, Malformed, Timeout
from lib.relay import Scripted, add_framing, body_bytes, fchunked, fix_request, requests, responses, send_cut, unix_drained, values
from lib.server import Violation

RULE = ('exchange: generated request (method, target, version, headers incl. repeated and hop-by-hop ones, body with either framing, cut into pieces) answered by a scripted application server with a generated '
        'response (interim 1xx responses, CGI or HTTP style, LF or CRLF, any status, headers, body with Content-Length, chunked or end-of-connection framing, cut into pieces, truncated anywhere); tunnel: generated histories of sends and closes in both directions of an '
        'upgraded connection; non-trivial: a body in either direction, an interim response, a truncation, a repeated header, or a tunnel with data both ways')

RQ = ['X-A', 'x-a', 'Accept', 'Cookie', 'User-Agent', 'X-Forwarded-For', 'X-Forwarded-Proto', 'x-forwarded-for', 'TE', 'Proxy-Connection', 'Authorization', 'Referer', 'X-Long', 'If-None-Match', 'Range', 'Content-Type', 'X-Forwarded', 'TEx', 'Via']
RS = ['X-R', 'x-r', 'Set-Cookie', 'Set-Cookie', 'Content-Type', 'Cache-Control', 'ETag', 'Location', 'Vary', 'Date', 'Server', 'Connection', 'WWW-Authenticate', 'X-Content-Length', 'Last-Modified', 'Content-Encodingx', 'Proxy']
STATUSES = [200, 200, 200, 200, 201, 202, 203, 204, 206, 207, 299, 300, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 404, 409, 410, 418, 429, 451, 499, 500, 502, 503, 504, 599]

TE = ('te', 'tecl', 'clte')


def hl(l):
    return [(lat(k) if isinstance(k, bytes) else k, lat(v) if isinstance(v, bytes) else v) for k, v in l]


def norm(v):
    return v.strip(' \t')


class Exchange(E2E):
    NAME = 'exchange'
    N_QUICK = 2200
    N_THOROUGH = 80000
    SECS_QUICK = 45
    RECYCLE = 1500

    def prepare(self):
        self.be = Scripted(self.scratch + '/be.sock')

    def teardown(self):
        E2E.teardown(self)
        self.be.stop()

    def conf(self):
        return '''
setup { module_load ["mod_proxy"]; listen "unix:%SOCK%"; }
server.tag "t";
keepalive.requests 1000000;
proxy "unix:%DIR%/be.sock";
'''

    def strategy(self):
        resp = responses(RS, STATUSES)
        extra = st.fixed_dictionaries({'f': st.sampled_from(['cl', 'cl', 'te', 'te', 'tecl', 'clte', 'close', 'close10', 'cgicl', 'ka10']), 'lf': st.booleans(), 'interim': st.lists(st.sampled_from([100, 102, 103, 199]), max_size=2),
                                       'trunc': st.one_of(st.none(), st.none(), st.none(), st.floats(0, 1)), 'more': st.sampled_from(['', '', '', 'HTTP/1.1 200 OK\r\n\r\nextra'])})
        abs_ = st.sampled_from([None, None, None, None, 'http://h.test', 'https://Other.test:81'])
        return st.fixed_dictionaries({'q': requests(RQ), 'r': resp, 'x': extra, 'abs': abs_, 'again': st.booleans(), 'conn': st.sampled_from(['', '', '', 'close', 'keep-alive', 'X-A, close', 'TE, upgrade'])})

    def run(self, case, rec):
        q, r, x = case['q'], case['r'], case['x']
        body, fr, wire = fix_request(q)
        hs = [tuple(h) for h in q['h']]
        add_framing(hs, fr, q)
        if case['conn']:
            hs.append(('Connection', case['conn']))
        target = q['t']
        host = 'h.test'
        if case['abs'] and target.startswith('/') and not target.startswith('//'):
            wt = case['abs'] + target
        else:
            wt = target
        raw = req(q['m'], wt, q['v'], hs, host=host) + wire
        hlen = len(raw) - len(wire)

        # the response on the backend's wire
        rbody = body_bytes(r['b'], 9)
        nobody = q['m'] == 'HEAD' or r['status'] in (204, 304)
        nl = b'\n' if x['lf'] else b'\r\n'
        rh = [tuple(h) for h in r['h'] if not (h[0].lower() == 'connection')]
        if any(h[0].lower() == 'connection' for h in r['h']) and x['f'] != 'ka10':
            rh.append(('Connection', 'close'))
        f = x['f']
        head = b''
        if f in ('close10', 'ka10'):
            head += b'HTTP/1.0 %d Some Text' % r['status'] + nl
        elif not f.startswith('cgi'):
            head += b'HTTP/1.1 %d Some Text' % r['status'] + nl
        else:
            rh.insert(len(rh) // 2, ('Status', '%d Some Text' % r['status']))
        if f in ('cl', 'cgicl', 'ka10'):
            rh.append(('Content-Length', str(len(rbody))))
        if f == 'ka10':
            rh.append(('Connection', 'keep-alive'))
        if f in TE:
            rh.append(('Transfer-Encoding', 'chunked'))
        if f in ('tecl', 'clte'):
            # both framings: the chunked coding counts
            rh.insert(len(rh) if f == 'tecl' else 0, ('Content-Length', str([len(rbody), 0, 3, 100000][len(rh) % 4])))
        for k, v in rh:
            head += l1(k + ': ' + v) + nl
        head += nl
        interim = b''
        if not f.startswith('cgi'):
            for s in x['interim']:
                interim += b'HTTP/1.1 %d Interim' % s + nl + b'X-Interim: 1' + nl + b'Link: x' + nl + nl
        enc = b'' if nobody else fchunked(rbody, r['cs']) if f in TE else rbody
        out = interim + head + enc
        cut = None
        if x['trunc'] is not None:
            cut = int(x['trunc'] * len(out))
            out = out[:cut]
            if f in ('close', 'close10', 'cgi') and cut >= len(interim) + len(head):
                rbody = enc = enc[:cut - len(interim) - len(head)]
                cut = None
            elif cut >= len(interim) + len(head) + len(enc) or (f == 'cl' and nobody and cut >= len(interim) + len(head)):
                cut = None
        elif x['more'] and f in ('cl', 'cgicl', 'ka10') + TE and not nobody:
            out += l1(x['more'])
        rec.nt(bool(body or rbody or interim or cut is not None or len(set(k.lower() for k, _ in hs)) < len(hs)))
        rec.label(f)
        if cut is not None:
            rec.label('truncated')

        def script(c, seen):
            try:
                qq = read_http_request(c)
                seen.append(qq)
            except (EOFError, ValueError, IndexError) as e:
                seen.append({'error': repr(e)})
                return
            send_cut(c, out, r['cuts'], len(interim) + len(head), r['hcut'])

        self.be.arm(script)
        c = self.conn()
        try:
            cuts = [int(z * (hlen if len(q['cuts']) > 1 else len(raw))) for z in q['cuts']]
            c.send_pieces(raw, cuts)
            if cut is not None:
                self.truncated(c, q, r, x, rbody, cut, len(interim), len(head))
            else:
                self.complete(c, q, r, x, rbody, rh, nobody, case)
            seen = self.be.seen
            if len(seen) != 1:
                raise Violation('application server saw %d requests for one client request' % len(seen))
            self.request_ok(seen[0], q, hs, target, body, fr)
            if cut is None and case['conn'] in ('', 'keep-alive') and q['v'] == '1.1' and case['again']:
                self.be.arm(lambda c, seen: (read_http_request(c), c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nagain')))
                c.send(req('GET', '/again'))
                r2 = self.one(c, 'GET', 'second request on the connection')
                if r2.status != 200 or r2.body != b'again':
                    raise Violation('second request on the connection answered wrongly: %s' % r2.brief())
        finally:
            c.close()

    def complete(self, c, q, r, x, rbody, rh, nobody, case):
        resp = self.one(c, q['m'], 'proxied %s' % x['f'])
        if resp.interim:
            pass
        if resp.status != r['status']:
            raise Violation('application server answered %d, the client received %d' % (r['status'], resp.status))
        if resp.version != q['v'] and q['v'] == '1.0':
            raise Violation('HTTP/1.1 response to a HTTP/1.0 client')
        if nobody:
            rbody = b''
        page = r['status'] >= 400 and r['status'] < 600 and not rbody
        if resp.body != rbody and not (page and resp.body.find(b'Error %d' % r['status']) > 0) and not nobody:
            raise Violation('response body changed in transit: %d bytes sent, %d received, first difference at %s' % (
                len(rbody), len(resp.body), next((i for i in range(min(len(rbody), len(resp.body))) if rbody[i] != resp.body[i]), 'end')))
        drop = ('connection', 'transfer-encoding', 'content-length', 'status') if x['f'].startswith('cgi') else ('connection', 'transfer-encoding', 'content-length')
        if not x['f'].startswith('cgi'):
            drop += ('status',)
        want = [(k, norm(v)) for k, v in rh if k.lower() not in drop]
        names = [k.lower() for k, _ in want]
        got = [(k, v) for k, v in resp.headers if k.lower() not in drop]
        if 'date' not in names:
            if [k.lower() for k, _ in got].count('date') != 1:
                raise Violation('no Date header')
            got = [h for h in got if h[0].lower() != 'date']
        if 'server' not in names:
            got = [h for h in got if h[0].lower() != 'server']
        if page:
            skip = ('content-type', 'content-encoding', 'etag')
            want = [h for h in want if h[0].lower() not in skip]
            got = [h for h in got if h[0].lower() not in skip]
        if got != want:
            raise Violation('response headers changed: application server sent %r, client received %r' % ([h for h in want if h not in got][:5] or want[:6], [h for h in got if h not in want][:5] or got[:6]))
        cl = resp.get('content-length')
        if q['m'] == 'HEAD' and x['f'] == 'cl' and cl is not None and int(cl) != len(body_bytes(r['b'], 9)) and not page:
            raise Violation('HEAD: Content-Length %s, application server said %d' % (cl, len(body_bytes(r['b'], 9))))

    def truncated(self, c, q, r, x, rbody, cut, ilen, hlen):
        """the application server ended the connection in the middle of its response"""
        try:
            resp = c.response(q['m'])
        except Closed:
            self.died(0.01)
            return      # lighttpd2 aborts the connection when a request fails
        except Malformed as e:
            raise Violation('malformed response: %s' % e)
        except Timeout:
            self.srv.check_alive()
            raise Violation('no response after the application server closed its connection', timing=True)
        if resp.status >= 500 and resp.status != r['status']:
            return
        if resp.framing == 'close' and x['f'] in TE and rbody.startswith(resp.body) and cut >= ilen + hlen:
            return      # nothing else is possible without Content-Length or chunked coding
        if resp.status == r['status'] and x['f'] in ('ka10', 'cgicl') and q['m'] == 'HEAD' or r['status'] in (204, 304):
            if cut >= ilen + hlen:
                return
        raise Violation('the application server ended its connection after %d of the bytes of its response, the client received a complete looking response: %s' % (cut, resp.brief()[:200]))

    def request_ok(self, s, q, hs, target, body, fr):
        if 'error' in s:
            raise Violation('application server received an incomplete or malformed request: %s' % s['error'])
        if lat(s['line']) != '%s %s HTTP/%s' % (q['m'], target, q['v']):
            raise Violation('request line %r forwarded as %r' % ('%s %s HTTP/%s' % (q['m'], target, q['v']), lat(s['line'])))
        got = hl(s['headers'])
        low = [k.lower() for k, _ in got]
        if s['te']:
            raise Violation('Transfer-Encoding forwarded with an unchunked body')
        if fr and (len(s['cl']) != 1 or int(s['cl'][0]) != len(body)):
            raise Violation('Content-Length %r forwarded for a body of %d bytes' % (s['cl'], len(body)))
        if not fr and s['cl'] not in ([], [b'0']):
            raise Violation('Content-Length %r forwarded for a request without body' % s['cl'])
        if s['body'] != body:
            raise Violation('request body changed in transit: %d bytes sent, %d received' % (len(body), len(s['body'])))
        if s['reader'].buf:
            raise Violation('bytes after the request sent to the application server: %r' % s['reader'].buf[:60])
        for k, v in (('x-forwarded-for', 'unix:'), ('x-forwarded-proto', 'http')):
            vals = [b for a, b in got if a.lower() == k]
            if len(vals) != 1 or not vals[0].startswith(v):
                raise Violation('%s given as %r' % (k, vals))
        drop = ('connection', 'transfer-encoding', 'content-length', 'te', 'proxy-connection', 'x-forwarded-for', 'x-forwarded-proto')
        want = [('Host', 'h.test')] + [(k, norm(v)) for k, v in hs if k.lower() not in drop]
        have = [(k, v) for k, v in got if k.lower() not in drop]
        if have != want:
            raise Violation('request headers changed: client sent %r, application server received %r' % ([h for h in want if h not in have][:5] or want[:6], [h for h in have if h not in want][:5] or have[:6]))


class Tunnel(E2E):
    NAME = 'tunnel'
    N_QUICK = 900
    N_THOROUGH = 40000
    SECS_QUICK = 40
    RECYCLE = 800

    prepare = Exchange.prepare
    teardown = Exchange.teardown
    conf = Exchange.conf

    def strategy(self):
        size = st.one_of(st.integers(1, 60), st.integers(1, 3000), st.sampled_from([16384, 65536, 100000, 300000]))
        op = st.one_of(st.tuples(st.just('c'), size), st.tuples(st.just('s'), size), st.tuples(st.just('both'), size), st.tuples(st.just('echo'), size))
        return st.fixed_dictionaries({'early': st.one_of(st.just(0), size), 'first': st.one_of(st.just(0), size), 'ops': st.lists(op, max_size=6), 'end': st.sampled_from(['s', 's', 'c', 'sdata', 'cdata']),
                                      'cuts': st.lists(st.floats(0, 1), max_size=3), 'hdr': st.lists(st.tuples(st.just('X-H'), values(10)), max_size=2), 'm': st.sampled_from(['GET', 'GET', 'POST'])})

    def run(self, case, rec):
        ops = case['ops']
        kinds = set(o[0] for o in ops)
        rec.nt(bool(kinds & {'both', 'echo'} or {'c', 's'} <= kinds or case['early'] and 's' in kinds))
        early = body_bytes(case['early'], 21)
        first = body_bytes(case['first'], 22)
        state = {'sock': None, 'rd': None, 'req': None}
        ready = threading.Event()
        done = threading.Event()

        def script(c, seen):
            try:
                rd = Reader(c)
                head = rd.until(b'\r\n\r\n')
                state['req'] = head
                out = b'HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: foo\r\n'
                for k, v in case['hdr']:
                    out += l1('%s: %s\r\n' % (k, v))
                out += b'\r\n'
                send_cut(c, out + first, case['cuts'], len(out), True)
                state['sock'], state['rd'] = c, rd
            finally:
                ready.set()
            done.wait(30)

        self.be.arm(script)
        c = self.conn()
        try:
            hs = [('Connection', 'Upgrade'), ('Upgrade', 'foo')]
            if case['m'] == 'POST':
                hs.append(('Content-Length', '0'))
            c.send(req(case['m'], '/up', '1.1', hs) + early)
            if not ready.wait(10) or state['sock'] is None:
                self.died()
                raise Violation('application server did not get the upgrade request', timing=True)
            if b'upgrade: foo' not in state['req'].lower() or b'connection: upgrade' not in state['req'].lower():
                raise Violation('upgrade request not forwarded as one: %r' % state['req'][:200])
            r = self.one(c, 'GET', 'upgrade')
            if r.status != 101 or (r.get('upgrade') or '') != 'foo' or (r.get('connection') or '').lower() != 'upgrade':
                raise Violation('upgrade answered with %s' % r.brief()[:200])
            if [v for k, v in r.headers if k == 'X-H'] != [norm(v) for _, v in case['hdr']]:
                raise Violation('headers of the 101 response changed: %r' % r.headers)
            s, rd = state['sock'], state['rd']
            s.settimeout(15)
            self.to_client(c, first, 'first bytes after the 101 response')
            self.to_server(rd, early, 'bytes sent right after the upgrade request')
            for i, (k, n) in enumerate(ops):
                d = body_bytes(n, i)
                if k == 'c':
                    self.pump(c.s, d, lambda: self.to_server(rd, d, 'client to server'))
                elif k == 's':
                    self.pump(s, d, lambda: self.to_client(c, d, 'server to client'))
                elif k == 'both':
                    d2 = body_bytes(n + 1, i + 7)
                    t = threading.Thread(target=self.push, args=(s, d2), daemon=True)
                    t.start()
                    self.pump(c.s, d, lambda: (self.to_client(c, d2, 'server to client'), self.to_server(rd, d, 'client to server')) if n < 100000 else self.duplex(c, rd, d2, d))
                    t.join(10)
                else:
                    self.pump(c.s, d, lambda: self.to_server(rd, d, 'client to server (echo)'))
                    self.pump(s, d, lambda: self.to_client(c, d, 'server to client (echo)'))
            last = body_bytes(70000, 99) if case['end'].endswith('data') else b''
            if case['end'][0] == 's':
                if last:
                    t = threading.Thread(target=lambda: (self.push(s, last), s.close()), daemon=True)
                    t.start()
                else:
                    s.close()
                rest = self.rest_client(c)
                if rest != last:
                    raise Violation('application server sent %d bytes and closed, the client received %d bytes' % (len(last), len(rest)))
            else:
                if last:
                    t = threading.Thread(target=lambda: (self.push(c.s, last), c.close()), daemon=True)
                    t.start()
                else:
                    c.close()
                got = rd.buf
                try:
                    while True:
                        z = s.recv(262144)
                        if not z:
                            break
                        got += z
                except ConnectionResetError:
                    pass
                except OSError:
                    self.srv.check_alive()
                    raise Violation('the client closed an upgraded connection, the application server is not told', timing=True)
                if last and got != last:
                    raise Violation('client sent %d bytes and closed, the application server received %d bytes' % (len(last), len(got)))
        finally:
            done.set()
            c.close()

    def push(self, sock, d):
        try:
            sock.sendall(d)
        except OSError:
            pass

    def pump(self, sock, d, recv):
        if len(d) > 50000:
            t = threading.Thread(target=self.push, args=(sock, d), daemon=True)
            t.start()
            recv()
            t.join(10)
        else:
            self.push(sock, d)
            recv()

    def duplex(self, c, rd, d2, d):
        err = []

        def side():
            try:
                self.to_client(c, d2, 'server to client')
            except Violation as e:
                err.append(e)
        t = threading.Thread(target=side, daemon=True)
        t.start()
        self.to_server(rd, d, 'client to server')
        t.join(20)
        if err:
            raise err[0]

    def rest_client(self, c):
        try:
            return c.recv_rest(10)
        except Timeout:
            self.srv.check_alive()
            raise Violation('the application server closed an upgraded connection, the client is not told', timing=True)

    def to_client(self, c, want, what):
        try:
            got = c._exact(len(want), time.monotonic() + 10)
        except (Closed, Timeout) as e:
            self.died(0.2)
            raise Violation('%s: only %d of %d bytes arrived (%s)' % (what, len(c.buf), len(want), type(e).__name__), timing=True)
        if got != want:
            raise Violation('%s: data changed in transit' % what)

    def to_server(self, rd, want, what):
        try:
            got = rd.exact(len(want))
        except (EOFError, OSError) as e:
            self.died(0.2)
            raise Violation('%s: only %d of %d bytes arrived (%r)' % (what, len(rd.buf), len(want), e), timing=True)
        if got != want:
            raise Violation('%s: data changed in transit' % what)


SUBS = [Exchange, Tunnel]

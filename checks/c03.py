"""C03: every response is a complete, self-delimiting, well-formed HTTP message, for every handler, status, method and protocol version."""
import email.utils
import os
import time

from hypothesis import strategies as st

from lib.backend import Backend, read_http_request
from lib.e2e import E2E, l1, lat
from lib.http import Closed, Malformed, Timeout
from lib.server import Violation

RULE = ('method x version x Connection x conditional/range headers x handler (respond/set_status with every status code, static files, directories, listings, redirects, '
        'errors, user-controlled response headers, proxied responses with every framing), optionally after malformed input; the message is parsed strictly and a probe request '
        'follows on the same connection; non-trivial: status other than 200, or HEAD, or HTTP/1.0, or a proxied body')

CODES = [200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421,
         422, 423, 424, 426, 428, 429, 431, 444, 451, 499, 500, 501, 502, 503, 504, 505, 506, 507, 509, 510, 511, 599, 600, 999]


class Script(Backend):
    """/b/<framing>/<status>/<n>[/...]: answers accordingly"""

    def handle(self, c):
        q = read_http_request(c)
        p = lat(q['target']).split('?')[0].split('/')
        framing, status, n = p[2], int(p[3]), int(p[4])
        body = b'0123456789abcdef' * (n // 16 + 1)
        body = body[:n]
        head = b'HTTP/1.1 %d Text\r\nX-B: 1\r\n' % status
        if q.get('method') == b'HEAD' or status in (204, 304):
            wire = b''
        else:
            wire = body
        if framing == 'cl':
            out = head + b'Content-Length: %d\r\n\r\n' % n + wire
        elif framing == 'close':
            out = head + b'\r\n' + wire
        elif framing == 'te':
            enc = b''
            if q.get('method') != b'HEAD' and status not in (204, 304):
                for i in range(0, len(wire), 5000):
                    enc += b'%x\r\n' % len(wire[i:i + 5000]) + wire[i:i + 5000] + b'\r\n'
                enc += b'0\r\n\r\n'
            out = head + b'Transfer-Encoding: chunked\r\n\r\n' + enc
        elif framing == '10':
            out = b'HTTP/1.0 %d Text\r\nX-B: 1\r\n\r\n' % status + wire
        else:
            out = head + b'Content-Length: 0\r\n\r\n'
        if n % 2 and len(out) > 20:
            c.sendall(out[:len(out) - 10])
            time.sleep(0.002)
            c.sendall(out[len(out) - 10:])
        else:
            c.sendall(out)


class Frame(E2E):
    NAME = 'frame'
    N_QUICK = 5000
    N_THOROUGH = 200000

    def prepare(self):
        d = self.scratch + '/www'
        os.makedirs(d + '/dir/sub', exist_ok=True)
        os.makedirs(d + '/list', exist_ok=True)
        self.files = {'/empty': b'', '/one': b'x', '/f.txt': b'hello world\n' * 10, '/big.bin': bytes(range(256)) * 500, '/list/a<b>&.txt': b'q', '/dir/x.html': b'<p>'}
        for k, v in self.files.items():
            with open(d + k, 'wb') as f:
                f.write(v)
        self.be = Script(self.scratch + '/be.sock')

    def teardown(self):
        E2E.teardown(self)
        self.be.stop()

    def conf(self):
        rules = []
        for c in CODES:
            rules.append('if req.path == "/r/%d" { respond %d => "body of %d"; } else if req.path == "/n/%d" { respond %d; }\n' % (c, c, c, c, c))
        return '''
setup { module_load ["mod_proxy", "mod_dirlist", "mod_redirect"]; listen "unix:%SOCK%"; }
server.tag "t";
keepalive.requests 100000;
mime_types [".txt" => "text/plain", ".html" => "text/html", "" => "application/octet-stream"];
if req.path =^ "/b/" { proxy "unix:%DIR%/be.sock"; }
else if req.path == "/hdr" { header.add "X-E" => "%{req.header[X-V]}"; header.add "X-Q" => "%{req.query}"; header.append "X-E" => "%{req.path}"; header.overwrite "X-O" => "%{req.header[X-V]}"; respond "hdr"; }
else if req.path =^ "/redir" { redirect "http://%{req.host}%{req.path}?%{req.query}"; }
else if req.path == "/ok" { respond "ok"; }
else if req.path =^ "/list" { docroot "%DIR%/www"; static; dirlist; }
else if req.path =^ "/buf" { io.buffer_out 16kbyte; docroot "%DIR%/www"; alias "/buf" => "%DIR%/www"; }
else if req.path =~ "^/[rn]/" {
''' + ''.join(rules) + '''
}
else { docroot "%DIR%/www"; index ["x.html"]; }
'''

    def strategy(self):
        hdr = st.text(alphabet='ab :;,"\\<>\t\xe9%', max_size=12)
        target = st.one_of(
            st.tuples(st.sampled_from(['/r/', '/n/']), st.sampled_from(CODES)).map(lambda t: t[0] + str(t[1])),
            st.sampled_from(['/empty', '/one', '/f.txt', '/big.bin', '/dir', '/dir/', '/dir/sub', '/dir/sub/', '/list', '/list/', '/list/a%3Cb%3E&.txt', '/missing', '/buf/big.bin', '/buf/f.txt', '/%2e%2e/x', '/']),
            st.sampled_from(['/hdr', '/hdr?a%0d%0ab', '/hdr?x', '/redir', '/redir/%0d%0aX: y', '/redir/a%0Ab?c%0Ad', '/redir/\xe9?"<']),
            st.tuples(st.sampled_from(['cl', 'close', 'te', '10', 'zero']), st.sampled_from([200, 200, 200, 404, 500, 204, 205, 304, 301, 206]),
                      st.sampled_from([0, 1, 10, 1000, 9999, 70001, 300000])).map(lambda t: '/b/%s/%d/%d' % t))
        return st.fixed_dictionaries({
            'm': st.sampled_from(['GET', 'GET', 'GET', 'HEAD', 'HEAD', 'POST', 'PUT', 'OPTIONS', 'DELETE', 'FOO', 'TRACE']),
            'v': st.sampled_from(['1.1', '1.1', '1.1', '1.0', '1.0ka', '1.1close']), 't': target,
            'h': st.lists(st.sampled_from(['Range: bytes=0-0', 'Range: bytes=5-', 'Range: bytes=-3', 'Range: bytes=0-1,3-4', 'Range: bytes=999999999-', 'Range: bytes=x', 'If-None-Match: *', 'If-None-Match: "x"',
                                           'If-Modified-Since: Sun, 06 Nov 2033 08:49:37 GMT', 'If-Modified-Since: Sun, 06 Nov 1994 08:49:37 GMT', 'If-Modified-Since: x', 'Accept-Encoding: gzip',
                                           'Expect: 100-continue', 'Expect: foo', 'Connection: Upgrade', 'Upgrade: x', 'Transfer-Encoding: foo', 'Host: second']), max_size=2, unique=True),
            'x': hdr})

    def raw(self, case, m):
        out = '%s %s HTTP/%s\r\nHost: h.test\r\n' % (m, case['t'].replace(' ', '%20'), case['v'][:3])
        if case['v'] == '1.0ka':
            out += 'Connection: keep-alive\r\n'
        if case['v'] == '1.1close':
            out += 'Connection: close\r\n'
        out += 'X-V: %s\r\n' % case['x'].replace('"', '').strip()
        for h in case['h']:
            out += h + '\r\n'
        if m == 'POST':
            out += 'Content-Length: 0\r\n'
        return l1(out + '\r\n')

    def exchange(self, case, m, rec):
        raw = self.raw(case, m)
        what = repr(raw)
        c = self.conn()
        try:
            c.send(raw)
            r = self.one(c, m, what)
            rec.label('%dxx' % (r.status // 100))
            rec.label('framing-' + r.framing)
            v11 = case['v'].startswith('1.1')
            if r.version != ('1.1' if v11 else '1.0'):
                raise Violation('response version %s to %s' % (r.version, what))
            if len(r.interim) > 1 or (r.interim and ('Expect: 100-continue' not in case['h'] or not v11)):
                raise Violation('unexpected interim response to %s' % what)
            dates = r.getall('date')
            try:
                if len(dates) != 1 or abs(email.utils.parsedate_to_datetime(dates[0]).timestamp() - time.time()) > 120:
                    raise ValueError
            except (ValueError, TypeError):
                raise Violation('Date header %r in the response to %s' % (dates, what))
            conn = (r.get('connection') or '').lower()
            if len(r.getall('connection')) > 1:
                raise Violation('several Connection headers %r for %s' % (r.getall('connection'), what))
            persistent = conn != 'close' if v11 else conn == 'keep-alive'
            if persistent and case['v'] in ('1.0', '1.1close'):
                raise Violation('persistent connection announced although the client did not want it: %s -> %r' % (what, r.headers))
            if persistent and r.framing == 'close':
                raise Violation('response to %s is neither self-delimiting nor announced as closing: %r' % (what, r.brief()))
            if r.status in (205,) and r.body:
                raise Violation('status %d with a body for %s' % (r.status, what))
            if persistent:
                c.send(b'GET /ok HTTP/1.1\r\nHost: h.test\r\nConnection: close\r\n\r\n')
                p = self.one(c, 'GET', 'probe after ' + what)
                if p.status != 200 or p.body != b'ok':
                    raise Violation('after %s (%s) a following request on the same connection was answered by %r' % (what, r.brief(), p.brief()))
                rec.label('probe')
            else:
                e = c.expect_eof(10)
                if e is None:
                    raise Violation('connection not closed after %s (%s)' % (what, r.brief()), timing=True)
                if not e:
                    raise Violation('data after the final response to %s: %r' % (what, c.buf[:200]))
            return r
        finally:
            c.close()

    def run(self, case, rec):
        m = case['m']
        r = self.exchange(case, m, rec)
        rec.nt(r.status != 200 or m == 'HEAD' or case['v'].startswith('1.0') or case['t'].startswith('/b/'))
        p = case['t'].split('/')
        what = repr(self.raw(case, m))
        if m == 'HEAD' and r.status < 500:
            g = self.exchange(case, 'GET', rec)
            ign = ('date', 'content-length', 'transfer-encoding', 'connection', 'content-type')
            a = [(k.lower(), v) for k, v in r.headers if k.lower() not in ign]
            b = [(k.lower(), v) for k, v in g.headers if k.lower() not in ign]
            if g.status != r.status or sorted(a) != sorted(b):
                raise Violation('HEAD and GET differ for %s: %d %r / %d %r' % (what, r.status, r.headers, g.status, g.headers))
            if r.get('content-length') is not None and g.framing in ('cl', 'chunked', 'close') and int(r.get('content-length')) != len(g.body):
                raise Violation('HEAD announces Content-Length %s, GET delivers %d bytes for %s' % (r.get('content-length'), len(g.body), what))
        plain = not [h for h in case['h'] if h.split(':')[0] in ('Transfer-Encoding', 'Host', 'Expect')]
        if m in ('GET',) and plain:
            if len(p) == 3 and p[1] in ('r', 'n'):
                code = int(p[2])
                if r.status != code:
                    raise Violation('status %d instead of %d for %s' % (r.status, code, what))
                if p[1] == 'r' and code not in (204, 205, 304) and lat(r.body) != 'body of %d' % code:
                    raise Violation('body %r for %s' % (r.body[:100], what))
                if p[1] == 'n' and 400 <= code < 600 and (b'%d' % code) not in r.body:
                    raise Violation('no error page for %s: %r' % (what, r.body[:100]))
            elif case['t'] in self.files and not case['h']:
                if r.status != 200 or r.body != self.files[case['t']]:
                    raise Violation('file content wrong for %s: %s' % (what, r.brief()))
            elif case['t'] == '/hdr':
                if r.get('x-o') != case['x'].replace('"', '').strip(' \t') and r.get('x-o') is not None and (r.get('x-o') or '').strip() != case['x'].replace('"', '').strip():
                    raise Violation('response header X-O %r for %s' % (r.get('x-o'), what))
            elif p[1] == 'b' and p[2] != 'zero':
                n = int(p[4])
                exp = (b'0123456789abcdef' * (n // 16 + 1))[:n]
                if int(p[3]) in (204, 205, 304):
                    exp = b''
                if int(p[3]) >= 400 and not exp:
                    exp = r.body
                if r.status != int(p[3]) or r.body != exp:
                    raise Violation('proxied response %s delivered as %s' % (case['t'], r.brief()))
                if r.get('x-b') != '1':
                    raise Violation('backend header lost: %r' % r.headers)


SUBS = [Frame]

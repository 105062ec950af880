"""C02: persistent connections: every request gets its own response, in order; body bytes are never taken for a request."""
import json
import re

from hypothesis import strategies as st

from lib.backend import EchoBackend
from lib.e2e import E2E, req, chunked, l1, lat
from lib.http import Malformed, Closed, Timeout
from lib.server import Violation

RULE = ('pipelined/sequential request lists (GET/HEAD/POST/PUT/DELETE/OPTIONS/custom, HTTP/1.0 and 1.1, Content-Length, chunked and ambiguous '
        'framing, bodies that look like requests, cut at random byte positions) sent to the real server; every response must carry the identity of '
        'its request; non-trivial: at least two requests and at least one body or one ambiguous framing')

EVIL = 'GET /r/evil HTTP/1.1\r\nHost: h\r\nX-Id: evil\r\n\r\n'


def bodies():
    frag = st.one_of(st.sampled_from([EVIL, 'POST /r/evil HTTP/1.1\r\nHost: h\r\nX-Id: evil\r\nContent-Length: 0\r\n\r\n', '\r\n', '\r\n\r\n', '0\r\n\r\n', 'a', ' ', '\n',
                                      '5\r\nhello\r\n', 'GET / HTTP/1.0\r\n\r\n', '\x00\xff']),
                     st.text(alphabet=st.characters(min_codepoint=0, max_codepoint=255), max_size=12),
                     st.integers(0, 4).map(lambda k: 'x' * [10, 100, 1000, 4096, 9000][k]))
    small = st.lists(frag, max_size=4).map(''.join)
    return st.one_of(small, small, small, small, small, st.sampled_from([20000, 70000, 300000]))


# (header lines with %N for the body length, what is legitimate besides an error)
AMBIG = [
    ['Content-Length: %N', 'Content-Length: 0'],
    ['Content-Length: 0', 'Content-Length: %N'],
    ['Content-Length: %N', 'Content-Length: 1'],
    ['Content-Length: +%N'], ['Content-Length: %N, 0'], ['Content-Length: 0x%N'], ['Content-Length: %N a'], ['Content-Length: -%N'], ['Content-Length: -0'],
    ['Content-Length: '], ['Content-Length: 99999999999999999999'], ['Content-Length: %N', 'Content-Length: '],
    ['Content-Length: ', 'Content-Length: %N'], ['Content-Length : %N'], ['Content-Length\t: %N'], ['Content-Length: %N\x00'], ['Content-Length: 0\x00%N'],
    ['Content-Length: 0\r\n\t%N'], ['Content-Length: 0,%N'],
    ['Content-Length: 3', 'Content-Length: %N'], ['Content-Length: %N', 'Content-Length: %N', 'Content-Length: 99999'],
]
# framing is chunked or the request is refused
TEAMBIG = [
    ['Transfer-Encoding: chunked', 'Content-Length: %N'], ['Content-Length: 0', 'Transfer-Encoding: chunked'], ['Transfer-Encoding: chunked', 'Content-Length: 3'],
    ['Transfer-Encoding: identity', 'Transfer-Encoding: chunked'], ['Transfer-Encoding: CHUNKED'], ['Transfer-Encoding: chunked', 'Transfer-Encoding: chunked'],
    ['Transfer-Encoding: gzip, chunked'], ['Transfer-Encoding: chunked, identity'], ['Transfer-Encoding: xchunked'], ['Transfer-Encoding: chunked;x'],
    ['Transfer-Encoding : chunked'], ['Transfer-Encoding:\r\n chunked'], ['Transfer-Encoding:\tchunked'], ['transfer-encoding:chunked'], ['Transfer-Encoding: identity, chunked'],
    ['Transfer-Encoding: chunked', 'Transfer-Encoding: identity'], ['Transfer-Encoding: "chunked"'], ['Transfer-Encoding: chunked\x00'],
]
TEREFUSE = (6, 7, 8, 10, 16, 17)


class Pipe(E2E):
    NAME = 'pipe'
    N_QUICK = 2000
    N_THOROUGH = 60000
    SECS_QUICK = 60

    def prepare(self):
        self.be = EchoBackend(self.scratch + '/be.sock')

    def teardown(self):
        E2E.teardown(self)
        self.be.stop()

    def conf(self):
        return '''
setup { module_load ["mod_proxy"]; listen "unix:%SOCK%"; }
server.tag "t";
keepalive.requests 100000;
if req.path =^ "/echo" { proxy "unix:%DIR%/be.sock"; }
else { respond 200 => "id=%{req.header[X-Id]} m=%{req.method} p=%{req.path} q=%{req.query} h=%{req.host}"; }
'''

    def strategy(self):
        frame = st.one_of(
            st.just(['none']), st.just(['none']), st.just(['cl']), st.just(['cl']), st.just(['cl2']),
            st.tuples(st.just('te'), st.lists(st.integers(1, 5000), min_size=1, max_size=4)),
            st.tuples(st.just('te'), st.lists(st.integers(1, 20), min_size=1, max_size=4)),
            st.tuples(st.just('amb'), st.integers(0, len(AMBIG) - 1)),
            st.tuples(st.just('teamb'), st.integers(0, len(TEAMBIG) - 1)))
        r = st.fixed_dictionaries({
            'm': st.sampled_from(['GET', 'GET', 'HEAD', 'POST', 'POST', 'PUT', 'OPTIONS', 'DELETE', 'FOO']),
            'p': st.sampled_from(['/r/', '/r/', '/echo/']), 'q': st.sampled_from(['', '?a=1', '?x=%2F&']),
            'v': st.sampled_from(['1.1', '1.1', '1.1', '1.0ka', '1.0', '1.1close']),
            'f': frame, 'b': bodies(), 'e': st.booleans() })
        return st.fixed_dictionaries({
            'reqs': st.lists(r, min_size=1, max_size=6), 'cuts': st.lists(st.floats(0, 1), max_size=4),
            'hcut': st.booleans(), 'pipe': st.booleans(), 'bsplit': st.booleans()})

    def build(self, i, q):
        """(bytes, intended end offset of body, kind)"""
        ver = q['v'][:3]
        hs = [('X-Id', 'i%d' % i)]
        if q['v'] == '1.0ka':
            hs.append(('Connection', 'keep-alive'))
        if q['v'] == '1.1close':
            hs.append(('Connection', 'close'))
        f = q['f'][0]
        body = l1(q['b']) if isinstance(q['b'], str) else l1(EVIL * (q['b'] // len(EVIL) + 1))[:q['b']]
        has_body = False
        weird = False
        raw_lines = []
        enc = b''
        if f == 'none':
            if q['m'] == 'POST':
                hs.append(('Content-Length', '0'))
        elif f in ('cl', 'cl2'):
            hs.append(('Content-Length', str(len(body))))
            if f == 'cl2':
                hs.append(('Content-Length', str(len(body))))
                weird = True
            enc = body
        elif f == 'te':
            hs.append(('Transfer-Encoding', 'chunked'))
            enc = chunked(body, [x * (1 if len(body) < 15000 else 40) for x in q['f'][1]])
            if ver == '1.0':
                weird = True
        elif f == 'amb':
            body = (body + l1(EVIL))[:5000]
            raw_lines = [x.replace('%N', str(len(body))) for x in AMBIG[q['f'][1]]]
            enc = body
            weird = True
        else:
            body = (body + l1(EVIL))[:5000]
            enc = chunked(body, [7, 3000])
            raw_lines = [x.replace('%N', str(len(enc))) for x in TEAMBIG[q['f'][1]]]
            weird = True
        if q['m'] in ('GET', 'HEAD') and f not in ('none',):
            weird = True
        if q['e'] and f != 'none' and ver == '1.1' and not weird:
            hs.append(('Expect', '100-continue'))
        h = req(q['m'], q['p'] + str(i) + q['q'], ver, hs)
        if raw_lines:
            h = h[:-2] + l1('\r\n'.join(raw_lines)) + b'\r\n\r\n'
        return h, enc, body, weird

    def run(self, case, rec):
        reqs = case['reqs'] + [{'m': 'GET', 'p': '/r/', 'q': '?end', 'v': '1.1close', 'f': ['none'], 'b': '', 'e': False}]
        msgs = [self.build(i, q) for i, q in enumerate(reqs)]
        rec.nt(len(case['reqs']) >= 2 and any(m[1] for m in msgs))
        for q in case['reqs']:
            rec.label(q['f'][0])
        c = self.conn()
        closed = False
        try:
            if case['pipe']:
                data = b''.join(m[0] + m[1] for m in msgs)
                cuts = [int(x * len(data)) for x in case['cuts']]
                if case['hcut']:
                    pos = 0
                    for m in msgs:
                        cuts.append(pos + len(m[0]))
                        pos += len(m[0]) + len(m[1])
                        cuts.append(pos)
                if len(data) < 150000:
                    c.send_pieces(data, cuts)
                else:
                    import threading
                    t = threading.Thread(target=self.bg, args=(c, data, cuts), daemon=True)
                    t.start()
            for i, (q, m) in enumerate(zip(reqs, msgs)):
                if not case['pipe']:
                    cuts = [len(m[0])] if case['bsplit'] else []
                    cuts += [int(x * len(m[0] + m[1])) for x in case['cuts']]
                    if len(m[1]) < 150000:
                        c.send_pieces(m[0] + m[1], cuts)
                    else:
                        import threading
                        t = threading.Thread(target=self.bg, args=(c, m[0] + m[1], cuts), daemon=True)
                        t.start()
                done = self.check(c, i, q, m, reqs, rec)
                if done:
                    break
        finally:
            c.close()

    @staticmethod
    def bg(c, data, cuts):
        try:
            c.send_pieces(data, cuts)
        except Exception:
            pass

    def check(self, c, i, q, m, reqs, rec):
        """True when the connection has (legitimately) ended"""
        head, enc, body, weird = m
        what = 'request %d: %r' % (i, head[:200])
        prev_discard = i > 0 and reqs[i - 1]['p'] == '/r/' and reqs[i - 1]['f'][0] != 'none'
        try:
            r = c.response(q['m'])
        except Malformed as e:
            raise Violation('malformed response to %s: %s' % (what, e))
        except Timeout:
            self.srv.check_alive()
            raise Violation('no response to %s' % what, timing=True)
        except Closed:
            self.died(0.02)
            if c.buf:
                raise Violation('truncated response to %s: %r' % (what, c.buf[:200]))
            if weird or prev_discard:
                rec.label('closed')
                return True
            # undecodable framing of an earlier (weird) message never gets here: those return
            raise Violation('connection closed without a response to %s' % what)
        if r.interim and (len(r.interim) > 1 or r.interim[0].status != 100 or b'xpect: 100-continue' not in head):
            raise Violation('unexpected interim response(s) %r for %s' % ([x.status for x in r.interim], what))
        if r.status >= 400:
            if not weird:
                raise Violation('status %d for valid %s' % (r.status, what))
            rest = self.rest(c, what)
            if rest:
                raise Violation('after an error response to %s the server answered more: %r' % (what, rest[:300]))
            rec.label('refused')
            return True
        if q['f'][0] == 'amb' or (q['f'][0] == 'teamb' and q['f'][1] in TEREFUSE):
            raise Violation('status %d, but the body length is ambiguous or malformed: %s' % (r.status, what))
        self.identity(r, q, i, body, what, weird)
        rec.label('answered')
        will_close = 'close' in (r.get('connection') or '').lower() or (r.version == '1.0' and 'keep-alive' not in (r.get('connection') or '').lower())
        must_close = q['v'] in ('1.0', '1.1close')
        if must_close and not will_close:
            raise Violation('%s asked to close, but response announces a persistent connection: %r' % (what, r.headers))
        if will_close:
            rest = self.rest(c, what)
            if rest:
                raise Violation('response to %s announced close, but more data followed: %r' % (what, rest[:300]))
            return True
        return False

    def rest(self, c, what):
        try:
            return c.recv_rest(10)
        except Timeout:
            self.srv.check_alive()
            raise Violation('connection not closed after %s' % what, timing=True)

    def identity(self, r, q, i, body, what, weird):
        if r.status != 200:
            raise Violation('unexpected status %d for %s' % (r.status, what))
        if q['m'] == 'HEAD':
            return
        if q['p'] == '/r/':
            exp = 'id=i%d m=%s p=/r/%d q=%s h=h.test' % (i, q['m'], i, q['q'][1:])
            if lat(r.body) != exp:
                raise Violation('response to %s does not belong to it: %r, expected %r' % (what, r.body[:200], exp))
            return
        try:
            d = json.loads(r.body)
        except ValueError:
            raise Violation('response to %s is not from the backend: %r' % (what, r.body[:200]))
        if d['line'].split(' ')[:2] != [q['m'], q['p'] + str(i) + q['q']] or ['X-Id', 'i%d' % i] not in d['headers']:
            raise Violation('backend saw a different request for %s: %r' % (what, d))
        if d['extra']:
            raise Violation('backend got bytes beyond the body of %s: %r' % (what, d['extra'][:200]))
        exp = lat(body) if q['m'] not in ('GET', 'HEAD') else ''
        if q['f'][0] == 'none':
            exp = ''
        if d['body'] != exp and not (weird and q['m'] in ('GET', 'HEAD')):
            raise Violation('backend got another body for %s: %r %d bytes %r, expected %d bytes %r' % (what, d['headers'], len(d['body']), d['body'][:100], len(exp), exp[:100]))


SUBS = [Pipe]

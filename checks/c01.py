"""C01: how a request is understood depends only on its bytes, never on how they are cut into packets; and it follows the grammar."""
import json
import re
import time

from hypothesis import strategies as st

from checks.c15 import clean
from checks.c16 import ref_decode, ref_simplify
from lib.backend import EchoBackend
from lib.e2e import E2E, l1, lat
from lib.harness import Harness, headers_dump
from lib.http import Closed, Timeout
from lib.runner import Sub
from lib.server import Violation

RULE = ('request heads built from a grammar (methods, targets, versions, headers with folding, quotes, odd whitespace, CRLF/LF line ends), then possibly mutated at '
        'byte level, parsed whole and cut at random positions (in-process: also spread over string, memory, buffer and file chunks; server: over separate packets); '
        'non-trivial: the head is cut at least once and contains at least one header')

TOK = rb'[^\x00-\x1f\x7f()<>@,;:\\"/\[\]?={} \t]+'
QD = rb'(?:[^\x00-\x1f\x7f"\\]|\t|\r?\n[ \t])'
Q = rb'"(?:' + QD + rb'|\\[\x20-\x7e])*"'
FC = rb'(?:[^\x00-\x1f\x7f"]|\t|' + Q + rb'|\r?\n[ \t])'
FIELD = rb'(' + TOK + rb'):[ \t]*((?:' + FC + rb')*\r?\n)(?![ \t])'
LINE = re.compile(rb'(?:\r?\n)*(' + TOK + rb') ([^\x00-\x20\x7f]+) (HTTP/[0-9]+\.[0-9]+)\r?\n')
FIELD_RE = re.compile(FIELD)
END = re.compile(rb'\r?\n')


def ref_parse(data):
    """None, or (method, target, version, [(key, value)], consumed)"""
    m = LINE.match(data)
    if not m:
        return None
    pos = m.end()
    hs = []
    while True:
        e = END.match(data, pos)
        if e:
            return m.group(1), m.group(2), m.group(3), hs, e.end()
        f = FIELD_RE.match(data, pos)
        if not f:
            return None
        hs.append((f.group(1), clean(lat(f.group(2)).rstrip('\r\n '))))
        pos = f.end()


token = st.one_of(st.sampled_from(['GET', 'POST', 'HEAD', 'get', 'FOO', 'PROPFIND', 'M-SEARCH', "x!#$%&'*+.^_`|~", 'OPTIONS']), st.text(alphabet='ABCxyz-_!\xe9', min_size=1, max_size=8))
target = st.one_of(st.sampled_from(['/', '*', '/a', '/a/b?c=d', 'http://h/x', 'http://h:80/x?y', '/%41%2f', '/a//b/../c', '/' + 'x' * 200, 'foo', '//', '/?', 'h:80', '/a#b', '/\xe9']),
                   st.text(alphabet='/abc.%20?&=;:@~\xe9"<>', min_size=1, max_size=20))
any_version = st.sampled_from(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/1.2', 'HTTP/2.0', 'HTTP/01.1', 'HTTP/1.10', 'HTTP/0.9', 'HTTP/1.', 'http/1.1', 'HTTP/11', 'XTTP/1.1'])
key = st.one_of(st.sampled_from(['Host', 'X-Id', 'x-id', 'Cookie', 'X-A', 'X-A', 'Accept', 'A', "!#$%&'*+-.^_`|~", 'X-\xe9']), st.text(alphabet='abX-', min_size=1, max_size=6))
any_value = st.one_of(
    st.sampled_from(['h', 'h', 'x', '', ' ', 'a b', 'a  b ', '\ta\t', '"q"', '"a\\"b"', '"open', 'a"b', '"a\r\n b"', 'x\r\n y', 'x\n\ty', 'x\r\n\r\n', '"\\', ':', 'a:b', '\xe9', '\x00', '\x7f', 'x\r',
                     'x\r\n  \r\n y', '"a" "b"', 'x' * 300, '"' + 'y' * 100 + '"', '\\"', '"\\\xe9"']),
    st.text(alphabet='ab "\\\t:,\xe9', max_size=15))
ok_eol = st.sampled_from(['\r\n'] * 4 + ['\n'])
ok_sep = st.sampled_from([': '] * 4 + [':', ':\t', ': \t '])
ok_version = st.sampled_from(['HTTP/1.1'] * 4 + ['HTTP/1.0', 'HTTP/1.2', 'HTTP/2.0', 'HTTP/01.1'])
ok_value = st.one_of(st.sampled_from(['h', 'x', '', ' ', 'a b', 'a  b ', '\ta\t', '"q"', '"a\\"b"', '"a\r\n b"', 'x\r\n y', 'x\n\ty', ':', 'a:b', '\xe9', 'x\r\n  \r\n y', '"a" "b"', 'x' * 300, '"' + 'y' * 100 + '"', '\\']), st.text(alphabet='ab \\\t:,\xe9', max_size=15))
any_eol = st.sampled_from(['\r\n'] * 8 + ['\n', '\r\n', '\r', '\r\r\n', '\n\r'])
any_sep = st.sampled_from([': '] * 6 + [':', ':\t', ': \t ', ' :', ' ', '::', '\t: ', ':\r\n '])


@st.composite
def heads(draw):
    ok = draw(st.booleans())
    eol = ok_eol if ok else any_eol
    sep = ok_sep if ok else any_sep
    value = ok_value if ok else any_value
    version = ok_version if ok else any_version
    out = draw(st.sampled_from([''] * 6 + ['\r\n', '\n', '\r\n\r\n'] + ([] if ok else [' ', '\r'])))
    sp = draw(st.sampled_from([' '] * (9 if ok else 2) + ([] if ok else ['  ', '\t'])))
    out += draw(token) + sp + draw(target) + ' ' + draw(version) + draw(eol)
    for k, s, v, e in draw(st.lists(st.tuples(key, sep, value, eol), max_size=6)):
        out += k + s + v + e
    out += draw(eol)
    out += draw(st.sampled_from(['', '', 'rest', '\r\n', 'GET / HTTP/1.0\r\n\r\n']))
    for pos, kind, ch in draw(st.lists(st.tuples(st.floats(0, 0.999), st.integers(0, 2), st.sampled_from('\x00\r\n "\\:\t/a\x7f\xff')), max_size=0 if ok or draw(st.booleans()) else 2)):
        i = int(pos * len(out))
        out = out[:i] + (ch if kind != 1 else '') + out[i + (kind != 0):]
    return out


class Parse(Sub):
    NAME = 'parse'
    HARNESS = True
    N_QUICK = 2500
    N_THOROUGH = 150000

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()

    def teardown(self):
        self.h.stop()

    def strategy(self):
        return st.fixed_dictionaries({'d': heads(), 'cuts': st.lists(st.floats(0, 1), max_size=6), 'every': st.sampled_from([0, 0, 0, 1, 2, 3]),
                                      'kinds': st.lists(st.integers(0, 3), min_size=1, max_size=4)})

    def parse(self, data, cuts, kinds):
        pos = 0
        f = []
        for i, c in enumerate(sorted(set(x for x in cuts if 0 < x < len(data))) + [len(data)]):
            f += [kinds[i % len(kinds)], data[pos:c]]
            pos = c
        r = self.h.call('req', *f)
        return int(r[0]), r[2], int(r[3]), r[4], headers_dump(r[5]), r

    def run(self, case, rec):
        data = l1(case['d'])
        if not data:
            return
        cuts = [int(x * len(data)) for x in case['cuts']]
        if case['every']:
            cuts = list(range(case['every'], len(data), case['every']))
        ref = ref_parse(data)
        rec.nt(len(cuts) > 0 and data.count(b':') > 0)
        rec.label('accepted' if ref else 'not-accepted')
        a = self.parse(data, [], [0])
        b = self.parse(data, cuts, case['kinds'])
        if a[0] != b[0]:
            raise Violation('head %r: result %d in one piece, %d when cut at %r' % (data, a[0], b[0], cuts))
        GO_ON = 0
        for what, x in (('whole', a), ('cut at %r' % cuts, b)):
            if (x[0] == GO_ON) != (ref is not None):
                raise Violation('head %r (%s): parser result %d, but grammar says %s' % (data, what, x[0], 'accept' if ref else 'not complete/valid'))
            if ref:
                ver = {b'HTTP/1.1': 'v11', b'HTTP/1.0': 'v10'}.get(ref[2], 'unset')
                got = (x[1], x[3], x[4])
                exp = (ref[0], ref[1], [(lat(k), v) for k, v in ref[3]])
                hd = [(lat(k) if isinstance(k, bytes) else k, lat(v) if isinstance(v, bytes) else v) for k, v in x[4]]
                if (x[1], x[3], hd) != exp:
                    raise Violation('head %r (%s): parsed as %r, expected %r' % (data, what, (x[1], x[3], hd), exp))
                if not hasattr(self, 'vers'):
                    self.vers = {}
                if self.vers.setdefault(ver, x[2]) != x[2]:
                    raise Violation('head %r: version %r mapped inconsistently' % (data, ref[2]))
        if ref and len(set(self.vers.values())) != len(self.vers):
            raise Violation('different protocol versions are not distinguished: %r' % self.vers)


class Wire(E2E):
    """the same bytes in one packet and in many must give the same answers"""
    NAME = 'wire'
    N_QUICK = 900
    N_THOROUGH = 30000

    def prepare(self):
        self.be = EchoBackend(self.scratch + '/be.sock')

    def teardown(self):
        E2E.teardown(self)
        self.be.stop()

    def conf(self):
        return '''
setup { module_load ["mod_proxy"]; listen "unix:%SOCK%"; }
server.tag "t";
keepalive.requests 100000;
if req.method == "POST" or req.method == "PUT" { proxy "unix:%DIR%/be.sock"; }
else { respond 200 => "m=%{req.method} p=%{req.path} q=%{req.query} h=%{req.host} x=%{req.header[X-Id]}"; }
'''

    def strategy(self):
        ok = st.fixed_dictionaries({
            'm': st.sampled_from(['GET', 'GET', 'HEAD', 'OPTIONS', 'POST', 'PUT']),
            't': st.sampled_from(['/', '/a', '/a%20b?x=1', '/a/../b', '/a//b/./c', '/%41?%41', 'http://other.test/z?q', '/x%2fy', '/' + 'l' * 3000]),
            'v': st.sampled_from(['1.1', '1.1', '1.0']),
            'x': st.sampled_from(['1', 'v w', '"q r"', 'a\r\n b', 'z' * 5000]), 'xname': st.sampled_from(['X-Id', 'x-id', 'X-ID']),
            'big': st.sampled_from([0] * 12 + [20000, 60000, 70000, 200000]), 'lead': st.sampled_from(['', '', '\r\n', '\n']),
            'ka': st.booleans(), 'b': st.one_of(st.just(''), st.text(alphabet='ab\r\n0', max_size=40), st.integers(1, 60000)),
            'te': st.sampled_from([0, 0, 1, 7, 100])})
        return st.fixed_dictionaries({
            'reqs': st.lists(ok, min_size=1, max_size=3), 'evil': st.one_of(st.none(), st.none(), heads()),
            'cuts': st.lists(st.floats(0, 1), min_size=1, max_size=8), 'tail': st.sampled_from([True] * 5 + [False])})

    def build(self, q):
        hs = ['%s /' % q['m']]
        out = q['lead'] + '%s %s HTTP/%s\r\nHost: h.test\r\n%s: %s\r\n' % (q['m'], q['t'], q['v'], q['xname'], q['x'])
        if q['big']:
            out += 'X-Big: ' + 'y' * q['big'] + '\r\n'
        if q['v'] == '1.0' and q['ka']:
            out += 'Connection: keep-alive\r\n'
        body = b''
        if q['m'] in ('POST', 'PUT'):
            body = l1(q['b']) if isinstance(q['b'], str) else b'0123456789' * (q['b'] // 10)
            if q['te']:
                out += 'Transfer-Encoding: chunked\r\n\r\n'
                n = q['te'] if len(body) < 2000 else 4000
                enc = b''.join(b'%x\r\n' % len(body[i:i + n]) + body[i:i + n] + b'\r\n' for i in range(0, len(body), n)) + b'0\r\n\r\n'
                return l1(out) + enc, body
            return l1(out) + b'Content-Length: %d\r\n\r\n' % len(body) + body, body
        return l1(out + '\r\n'), body

    def collect(self, data, cuts, idle, want=None):
        """everything the server sends; (bytes, closed)"""
        c = self.conn()
        try:
            c.send_pieces(data, cuts)
            deadline = time.monotonic() + (10 if want is not None else idle)
            while True:
                if want is not None and len(c.buf) >= want[0] and not want[1]:
                    deadline = min(deadline, time.monotonic() + 0.01)
                n = len(c.buf)
                try:
                    c._fill(deadline)
                except Closed:
                    return c.buf, True
                except Timeout:
                    return c.buf, False
                if want is None and len(c.buf) > n:
                    deadline = time.monotonic() + idle
        finally:
            c.close()

    @staticmethod
    def norm(b):
        return re.sub(rb'\r\nDate: [^\r]*', b'\r\nDate: x', b)

    def run(self, case, rec):
        parts = [self.build(q) for q in case['reqs']]
        data = b''.join(p[0] for p in parts)
        if case['evil'] is not None:
            data += l1(case['evil'])
            rec.label('evil')
        if case['tail']:
            data += b'GET /end HTTP/1.1\r\nHost: h.test\r\nConnection: close\r\n\r\n'
        cuts = [int(x * len(data)) for x in case['cuts']]
        rec.nt(any(0 < x < len(data) for x in cuts))
        if not case['tail']:
            rec.label('no-tail')
        a = self.collect(data, [], 0.1)
        self.srv.check_alive()
        b = self.collect(data, cuts, 0, (len(a[0]), a[1]))
        self.srv.check_alive()
        if self.norm(a[0]) != self.norm(b[0]) or a[1] != b[1]:
            a = self.collect(data, [], 2.0)     # was the first observation just cut short?
            b = self.collect(data, cuts, 2.0)
            if self.norm(a[0]) != self.norm(b[0]) or a[1] != b[1]:
                raise Violation('same bytes, different answers: whole: %d bytes closed=%s %r ; cut at %r: %d bytes closed=%s %r; input %r' % (
                    len(a[0]), a[1], a[0][-300:], cuts[:10], len(b[0]), b[1], b[0][-300:], data[:300]), timing=True)
        # the first requests have known meaning
        pos = a[0]
        for q, (raw, body) in zip(case['reqs'], parts):
            if len(raw) - len(body) > 60000 or q['m'] == 'HEAD':
                break
            t = q['t']
            host = 'h.test'
            if t.startswith('http://'):
                host, _, t = t[7:].partition('/')
                t = '/' + t
            p, _, qs = t.partition('?')
            if q['m'] in ('POST', 'PUT'):
                break
            exp = 'm=%s p=%s q=%s h=%s x=%s' % (q['m'], ref_simplify(ref_decode(p)), qs, host, clean(q['x']))
            head, _, rest = pos.partition(b'\r\n\r\n')
            if not head.startswith(b'HTTP/1.') or b' 200 OK' not in head[:20] or not rest.startswith(l1(exp)):
                raise Violation('request %r answered by %r, expected body %r' % (raw[:300], pos[:400], exp))
            pos = rest[len(exp):]
            if q['v'] == '1.0' and not q['ka']:
                break


SUBS = [Parse, Wire]

"""Generators and helpers for checks of gateway handlers (proxy, FastCGI, SCGI)."""
import array
import fcntl
import termios
import threading
import time

from hypothesis import strategies as st

from lib.backend import Backend
from lib.e2e import chunked, l1

TCH = "!#$%&'*+-.^_`|~0123456789abcXYZ"
VCH = 'abcXYZ0189 \t,;:=/()<>@[]{}?!#$%&\'*+-._|~\x80\xe4\xff'


def fchunked(body, sizes):
    """chunked coding with not too many chunks"""
    k = max(1, len(body) // 300)
    return chunked(body, [max(x, k) for x in sizes])


def values(maxlen=24):
    base = st.text(alphabet=VCH, max_size=maxlen).map(lambda s: s.strip(' \t'))
    return st.one_of(base, base, st.sampled_from(['', 'x', '"q, uoted"', 'a="b;c"', 'a,b', 'a, b', '1', 'text/html; charset=utf-8']), st.integers(100, 6000).map(lambda n: 'v' * n))


def targets():
    seg = st.one_of(st.sampled_from(['a', 'dir', 'x.php', '%20', '%41', '%2f', '%2e', '..', '.', '', '~u', 'a b'.replace(' ', '+'), '%C3%A4', '%ff', ';p=1', '&', '=', '*', "'", '(', '!', ',', '@', ':', '$1', '%25', '%3f', '%0a']),
                    st.text(alphabet='abcXYZ0189-_.~', max_size=6))
    path = st.lists(seg, max_size=5).map(lambda l: '/' + '/'.join(l))
    q = st.one_of(st.just(''), st.just('?'), st.lists(st.sampled_from(['a=1', '&', '=', '%26', 'b=%20', '+', '?', '/', '../', 'x', ';', '%00', '%']), max_size=5).map(lambda l: '?' + ''.join(l)))
    return st.tuples(path, q).map(lambda t: t[0] + t[1])


def bodies():
    return st.one_of(st.just(''), st.text(alphabet=st.characters(min_codepoint=0, max_codepoint=255), max_size=40), st.sampled_from(['\r\n', '0\r\n\r\n', 'GET / HTTP/1.1\r\n\r\n']),
                     st.integers(1, 5000), st.sampled_from([8191, 8192, 16384, 65534, 65535, 65536, 65543, 131071, 200000, 300001]))


def body_bytes(b, salt=0):
    if isinstance(b, str):
        return l1(b)
    unit = bytes((i * 37 + salt * 11 + (i >> 8)) & 0xff for i in range(4099))
    return (unit * (b // 4099 + 1))[:b]


def requests(extra_names, maxhdr=6):
    name = st.one_of(st.sampled_from(extra_names), st.sampled_from(extra_names), st.text(alphabet=TCH, min_size=1, max_size=10).map(lambda s: 'X' + s))
    return st.fixed_dictionaries({
        'm': st.sampled_from(['GET', 'GET', 'GET', 'HEAD', 'POST', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PROPFIND', 'FOO']),
        't': targets(), 'v': st.sampled_from(['1.1', '1.1', '1.1', '1.0']), 'h': st.lists(st.tuples(name, values()), max_size=maxhdr),
        'b': bodies(), 'te': st.one_of(st.none(), st.lists(st.integers(1, 70000), min_size=1, max_size=3)),
        'cuts': st.lists(st.floats(0, 1), max_size=2),
        # a Content-Length besides the chunked coding: the coding counts
        'clx': st.one_of(st.none(), st.none(), st.tuples(st.booleans(), st.sampled_from([0, 1, 5, 1000, 100000])))})


def fix_request(q):
    """(header list without framing, body, framing header or None, wire body)"""
    body = body_bytes(q['b'], 3)
    if q['m'] in ('GET', 'HEAD'):
        return b'', None, b''
    if q['te'] and q['v'] == '1.1':
        return body, ('Transfer-Encoding', 'chunked'), fchunked(body, q['te'])
    return body, ('Content-Length', str(len(body))), body


def add_framing(hs, fr, q):
    if fr:
        hs.insert(len(hs) // 2, fr)
        if fr[0] == 'Transfer-Encoding' and q.get('clx'):
            front, n = q['clx']
            hs.insert(0 if front else len(hs), ('Content-Length', str(n)))


def responses(names, statuses):
    name = st.one_of(st.sampled_from(names), st.sampled_from(names), st.text(alphabet=TCH, min_size=1, max_size=10).map(lambda s: 'Y' + s))
    return st.fixed_dictionaries({
        'status': st.sampled_from(statuses), 'h': st.lists(st.tuples(name, values()), max_size=5), 'b': bodies(),
        'cs': st.lists(st.integers(1, 70000), min_size=1, max_size=3), 'cuts': st.lists(st.floats(0, 1), max_size=4), 'hcut': st.booleans()})


def unix_drained(s, wait=0.05):
    end = time.monotonic() + wait
    a = array.array('i', [0])
    n = 0
    while time.monotonic() < end:
        try:
            fcntl.ioctl(s.fileno(), termios.TIOCOUTQ, a)
        except OSError:
            return
        if a[0] == 0:
            return
        n += 1
        time.sleep(0 if n < 10 else 0.0001 if n < 30 else 0.001)


def send_cut(c, data, cuts, hlen=0, hcut=False):
    """send in pieces, each read separately by the peer; with hcut the cuts fall into the first hlen bytes"""
    n = hlen if hcut and hlen else len(data)
    pos = 0
    for p in sorted(set(int(x * n) for x in cuts)) + [len(data)]:
        if p <= pos:
            continue
        if pos:
            unix_drained(c)
        c.sendall(data[pos:p])
        pos = p


class Scripted(Backend):
    """`script(conn)` is set per case; exceptions and what it saw are kept"""

    def __init__(self, *a, **kw):
        self.script = None
        self.seen = []
        self.lock = threading.Lock()
        self.idle = threading.Condition(self.lock)
        self.running = 0
        Backend.__init__(self, *a, **kw)

    def arm(self, script):
        with self.lock:
            self.script = script
            self.seen = []

    def handle(self, c):
        with self.lock:
            f, seen = self.script, self.seen
            self.running += 1
        try:
            if f is not None:
                f(c, seen)
        finally:
            with self.lock:
                self.running -= 1
                self.idle.notify_all()

    def wait_idle(self, timeout=5):
        with self.lock:
            return self.idle.wait_for(lambda: self.running == 0, timeout)

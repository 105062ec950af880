"""C14: chunked transfer coding: encoder/decoder."""
import os
import re

from hypothesis import strategies as st

from lib.harness import Harness
from lib.runner import Sub
from lib.server import Violation

RULE = ('encode: byte strings fed to the encoder in random pieces and chunk kinds, decoded by an independent strict decoder and '
        'by the server decoder in random pieces; decode: chunked messages built from the grammar (sizes with mixed case and leading zeros, '
        'trailers, following pipelined bytes) and mutated messages, cut at random places; non-trivial: at least two data '
        'pieces/chunks, or a mutated message')


def lat(b):
    return b.decode('latin-1')


def ref_decode(msg):
    """independent strict decoder: ('ok', body, rest) | ('bad',) | ('more', body so far) | ('skip',) for forms left open"""
    pos = 0
    body = b''
    while True:
        m = re.match(rb'[0-9a-fA-F]*', msg[pos:])
        digits = m.group(0)
        p = pos + len(digits)
        sig = digits.lstrip(b'0')
        if len(sig) > 16 or (len(sig) == 16 and int(sig, 16) > 2 ** 63 - 1):
            return ('bad', body)
        if len(sig) >= 15:
            # sizes next to the integer limit: rejected or waited for, never completed
            return ('nofinish', body)
        if p == len(msg):
            return ('more', body)
        if not digits:
            return ('bad', body)
        if msg[p:p + 1] == b';' or msg[p:p + 1] in (b' ', b'\t'):
            return ('skip', body)   # chunk extensions / bad whitespace: rejecting or ignoring are both fine
        if msg[p:p + 1] != b'\r':
            return ('bad', body)
        if p + 1 == len(msg):
            return ('more', body)
        if msg[p + 1:p + 2] != b'\n':
            return ('bad', body)
        p += 2
        n = int(digits, 16)
        if n == 0:
            # trailers
            rest = msg[p:]
            while True:
                if rest[:2] == b'\r\n':
                    return ('ok', body, rest[2:])
                i = rest.find(b'\r\n')
                if i < 0:
                    if b'\r' in rest[:-1] or b'\n' in rest:
                        return ('skip', body)
                    return ('more', body)
                line = rest[:i]
                if not re.match(rb"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+:[\t\x20-\x7e\x80-\xff]*$", line):
                    return ('skip', body)
                rest = rest[i + 2:]
        body += msg[p:p + n]
        if len(msg) < p + n:
            return ('more', body)
        p += n
        if msg[p:p + 2] == b'\r\n':
            pos = p + 2
            continue
        if b'\r\n'.startswith(msg[p:p + 2]):
            return ('more', body)
        return ('bad', body)


def pieces(msg, cuts):
    out = []
    pos = 0
    for c in sorted(set(c for c in cuts if 0 < c < len(msg))) + [len(msg)]:
        out.append(msg[pos:c])
        pos = c
    return out


class Base(Sub):
    HARNESS = True
    RECYCLE = 20000
    SECS_QUICK = 40

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()

    def teardown(self):
        self.h.stop()


data = st.one_of(st.binary(max_size=40), st.integers(0, 70000).map(lambda n: bytes((i * 7 + n) & 255 for i in range(n))),
                 st.sampled_from([b'\r\n', b'0\r\n\r\n', b'\r', b'\n', b'5\r\nhello\r\n', b'a' * 15, b'a' * 16, b'a' * 255, b'a' * 256,
                                  b'a' * 4096])).map(lat)
cutlist = st.lists(st.integers(1, 400), max_size=8)


class Encode(Base):
    NAME = 'encode'
    N_QUICK = 1000
    N_THOROUGH = 30000

    def strategy(self):
        return st.tuples(st.lists(st.tuples(st.integers(0, 3), data), min_size=1, max_size=7), st.booleans(), cutlist)

    def run(self, case, rec):
        parts, closed, cuts = case
        body = b''.join(p.encode('latin-1') for _, p in parts)
        rec.nt(len([1 for _, p in parts if p]) >= 2)
        req = ['chenc', 1 if closed else 0]
        for k, p in parts:
            req += [k, p]
        a = self.h.call(*req)
        enc = a[2]
        if a[0] != b'1' or a[1] != b'0':
            raise Violation('encoder did not finish: closed=%s left=%s' % (a[0], a[1]))
        if a[3] != b'':
            raise Violation('encoder produced %r after the terminating chunk' % a[3][:50])
        r = ref_decode(enc)
        if r[0] != 'ok' or r[2] != b'' or r[1] != body:
            raise Violation('encoded message does not decode to its input: %s body %d bytes, expected %d; %r' % (
                r[0], len(r[1]), len(body), enc[:200]))
        req = ['chdec', 0]
        for p in pieces(enc, cuts):
            req += [len(p), p]
        a = self.h.call(*req)
        if a[0] != b'1' or a[1] != b'1' or a[2] != body or a[3] != b'':
            raise Violation('decoder does not invert encoder: ok=%s closed=%s %d bytes (expected %d), %r left' % (
                a[0], a[1], len(a[2]), len(body), a[3][:40]))


class EncodeBig(Base):
    NAME = 'encbig'
    N_QUICK = 60
    N_THOROUGH = 1500

    def setup(self):
        super().setup()
        self.path = os.path.join(self.scratch, 'sparse')
        with open(self.path, 'wb') as f:
            f.truncate(1 << 42)

    def strategy(self):
        return st.one_of(st.integers(1, 1 << 42), st.integers(0, 42).flatmap(lambda b: st.integers(-2, 2).map(lambda d: max(1, min(1 << 42, (1 << b) + d)))))

    def run(self, case, rec):
        rec.nt(case > 65535)
        a = self.h.call('chencfile', self.path, case)
        m = re.match(rb'^([0-9a-fA-F]+)\r\n((?:<\d+>)+)\r\n0\r\n\r\n$', a[0])
        if not m:
            raise Violation('malformed encoding of a %d byte file: %r' % (case, a[0][:200]))
        n = sum(int(x) for x in re.findall(rb'<(\d+)>', m.group(2)))
        if int(m.group(1), 16) != case or n != case:
            raise Violation('chunk size says %s for %d bytes of data (source %d)' % (m.group(1), n, case))


class Decode(Base):
    NAME = 'decode'
    N_QUICK = 4000
    N_THOROUGH = 100000

    def strategy(self):
        size = st.tuples(st.integers(0, 3), st.booleans())
        chunk = st.tuples(size, st.one_of(st.binary(min_size=1, max_size=30), st.sampled_from([b'\r\n', b'0\r\n\r\n', b'x' * 16, b'y' * 300])).map(lat))
        trailer = st.sampled_from(['', '', '', 'X: y\r\n', 'A: b\r\nC:\r\n', 'X: y', '\r', 'X: \ty\r\n', 'foo\r\n', '\rX', '\rX\r\n', 'A: b\r\n\rX', 'A: b\rc', '\n', 'A: b\r\n\r\r', 'A\r\r\n'])
        tail = st.sampled_from(['', '', 'GET / HTTP/1.1\r\n\r\n', '\r\n', '5\r\nhello\r\n0\r\n\r\n', 'x'])
        mut = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(['del', 'ins', 'set', 'cut']), st.integers(0, 200),
                        st.sampled_from(['\r', '\n', '0', '1', 'f', 'g', ' ', ';', 'x', '-', '+', '\0', '\xff', ',', '8000000000000000', '7fffffffffffffff', 'ffffffffffffffff', '10000000000000000', '100000000'])))
        return st.tuples(st.lists(chunk, max_size=5), size, trailer, tail, mut, cutlist, st.booleans())

    def build(self, case):
        chunks, lastsize, trailer, tail, mut, cuts, close = case

        def num(n, fmt):
            s = '0' * fmt[0] + '%x' % n
            return s.upper() if fmt[1] else s
        msg = ''.join('%s\r\n%s\r\n' % (num(len(d), f), d) for f, d in chunks) + num(0, lastsize) + '\r\n' + trailer + '\r\n' + tail
        msg = msg.encode('latin-1')
        if mut:
            k, pos, ch = mut
            pos %= len(msg) + 1
            ch = ch.encode('latin-1')
            if k == 'del':
                msg = msg[:pos] + msg[pos + 1:]
            elif k == 'ins':
                msg = msg[:pos] + ch + msg[pos:]
            elif k == 'set':
                msg = msg[:pos] + ch + msg[pos + 1:]
            else:
                msg = msg[:pos]
        return msg

    def run(self, case, rec):
        msg = self.build(case)
        if not msg:
            return
        close = case[6]
        rec.nt(len(case[0]) >= 2 or case[4] is not None)
        r = ref_decode(msg)
        rec.label(r[0])
        results = []
        for ps in (pieces(msg, case[5]), [msg[i:i + 1] for i in range(len(msg))]):
            req = ['chdec', 1 if close else 0]
            for i, p in enumerate(ps):
                req += [i + len(p), p]
            ok, closed, body, left = self.h.call(*req)
            ok, closed = int(ok), int(closed)
            results.append((ok, closed, body, left))
            what = 'message %r in %d pieces' % (msg[:300], len(ps))
            if r[0] == 'ok':
                if not ok or not closed or body != r[1] or left != r[2]:
                    raise Violation('%s: valid, but ok=%d closed=%d body=%r left=%r; expected body=%r left=%r' % (
                        what, ok, closed, body[:80], left[:80], r[1][:80], r[2][:80]))
            elif r[0] == 'bad':
                if ok:
                    raise Violation('%s: invalid, but accepted (closed=%d body=%r)' % (what, closed, body[:80]))
            elif r[0] == 'more':
                if ok and closed:
                    raise Violation('%s: incomplete, but reported as complete body=%r' % (what, body[:80]))
                if not ok and not close:
                    raise Violation('%s: incomplete but valid so far, rejected' % what)
            elif r[0] == 'nofinish' and ok and closed:
                raise Violation('%s: reported complete' % what)
            if ok and closed and not msg[:len(msg) - len(left)].endswith(b'\r\n\r\n'):
                raise Violation('%s: taken as complete before an empty line: %r left' % (what, left[:80]))
            if not r[1].startswith(body[:len(r[1])]):
                raise Violation('%s: decoded %r, which is not part of the data %r' % (what, body[:80], r[1][:80]))
            if r[0] != 'skip' and len(body) > len(r[1]) and r[0] != 'nofinish':
                raise Violation('%s: decoded more data than the message contains: %r vs %r' % (what, body[:80], r[1][:80]))
        a, b = results
        if (a[0], a[1]) != (b[0], b[1]) or (a[0] and (a[2] != b[2] or a[3] != b[3])):
            raise Violation('message %r: result depends on how it is split: %r vs %r' % (msg[:300], a, b))


SUBS = [Encode, EncodeBig, Decode]

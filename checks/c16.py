"""C16: URL decoding, path normalisation, encoders, query lookup, host parsing."""
import html
import re
import urllib.parse

from hypothesis import strategies as st

from lib.harness import Harness
from lib.runner import Sub
from lib.server import Violation

RULE = ('random byte strings and strings built from path/escape fragments ("..", "%2e", "%2F", "//", "%", "%g0", control characters, UTF-8) '
        'against a reference decoder / normaliser / encoder; non-trivial: the string contains an escape, a dot segment, an empty segment, '
        'or a character the encoder must replace')

frag = st.sampled_from(['/', '/', '.', '..', '/../', '/./', '//', '%2e', '%2E', '%2f', '%2F', '%5c', '\\', 'a', 'b.c', 'foo', '%61', '%C3%A9',
                        '\xc3\xa9', '%20', ' ', '%00', '%0a', '%7f', '%', '%2', '%g1', '%1g', '%:0', '%0:', '%..', '%--', '%2', '%25', '%252e', '...', '.a', '..a', 'a..', '~', '+', '_',
                        '%ff', '%80', '%C0%AE', '&', '<', '>', '"', "'", '=', ';', ',', '@', ':', '#', '$', '!', '(', ')', '*', '-', '\x01', '\x7f', '\t', '%2g', '%@1'])
path = st.one_of(st.lists(frag, max_size=10).map(''.join), st.lists(frag, max_size=10).map(lambda l: '/' + ''.join(l)),
                 st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=255), max_size=30),
                 st.lists(frag, min_size=20, max_size=200).map(''.join))

HEX = '0123456789abcdefABCDEF'


def ref_decode(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '%':
            if i + 2 >= len(s) + 0 and len(s) - i < 3:
                break           # an escape cut off by the end of the string is dropped
            if s[i + 1] in HEX and s[i + 2] in HEX:
                o = int(s[i + 1:i + 3], 16)
                out.append('_' if o < 32 or o == 127 else chr(o))
            i += 3
            continue
        out.append('_' if ord(c) < 32 or ord(c) == 127 else c)
        i += 1
    return ''.join(out)


def ref_simplify(s):
    s = s.lstrip(' ')
    if not s.startswith('/'):
        s = '/' + s
    segs = s.split('/')[1:]
    out = []
    for n, g in enumerate(segs):
        last = n == len(segs) - 1
        if g == '' or g == '.':
            if last:
                out.append('')
        elif g == '..':
            if out:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(g)
    return '/' + '/'.join(out)


class Base(Sub):
    HARNESS = True
    RECYCLE = 50000
    SECS_QUICK = 30

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()

    def teardown(self):
        self.h.stop()


class Paths(Base):
    NAME = 'paths'
    N_QUICK = 5000
    N_THOROUGH = 100000

    def strategy(self):
        return path

    def run(self, s, rec):
        rec.nt('%' in s or '..' in s or '//' in s or '/.' in s)
        a = self.h.call('url', 'decode', s, 'simplify', s, 'rawpath', s)
        dec = a[1].decode('latin-1')
        if dec != ref_decode(s):
            raise Violation('decoding %r gives %r, expected %r' % (s, dec, ref_decode(s)))
        simp = a[2].decode('latin-1')
        self.normal(s, simp)
        if simp != ref_simplify(s):
            raise Violation('normalising %r gives %r, expected %r' % (s, simp, ref_simplify(s)))
        again = self.h.call('url', 'simplify', simp)[0].decode('latin-1')
        if again != simp:
            raise Violation('normalising is not idempotent: %r -> %r -> %r' % (s, simp, again))
        ok, p, q, raw = a[3] == b'1', a[4].decode('latin-1'), a[5].decode('latin-1'), a[6].decode('latin-1')
        if not ok:
            if re.match(r'^/[/A-Za-z0-9._~!$&\'()*+,;=:@-]*(\?[/A-Za-z0-9._~!$&\'()*+,;=:@?-]*)?$', s):
                raise Violation('valid request target %r rejected' % s)
            return
        rec.label('rawpath accepted')
        self.normal(s, p)
        if any(ord(c) < 32 or ord(c) == 127 for c in p):
            raise Violation('path of %r contains control characters: %r' % (s, p))
        if '#' not in s:
            praw, _, qraw = s.partition('?')
            if p != ref_simplify(ref_decode(praw)):
                raise Violation('target %r: path %r, expected %r' % (s, p, ref_simplify(ref_decode(praw))))
            if q != qraw or raw != s:
                raise Violation('target %r: query %r raw %r' % (s, q, raw))

    def normal(self, s, p):
        if not p.startswith('/') or '//' in p or '/../' in p + '/' or '/./' in p + '/' or '\0' in p:
            raise Violation('%r becomes %r, which is not a normalised absolute path' % (s, p))


class Encoders(Base):
    NAME = 'encode'
    N_QUICK = 3000
    N_THOROUGH = 60000

    def strategy(self):
        return st.one_of(st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=255), max_size=40), path)

    def run(self, s, rec):
        a = self.h.call('url', 'html', s, 'uri', s, 'hex', s)
        ht, ht2, u, u2, hx, hx2 = (x.decode('latin-1') for x in a)
        rec.nt(ht != s or u != s)
        for x, y in ((ht, ht2), (u, u2), (hx, hx2)):
            if y != 'old' + x:
                raise Violation('append variant of the encoder differs for %r: %r vs %r' % (s, x, y))
        # html: no markup survives and it reads back as the original text
        if re.search(r'[<>\x00-\x1f\x7f]', ht) or re.search(r'&(?!#x[0-9a-fA-F]+;|[a-z]+;)', ht):
            raise Violation('HTML encoding of %r leaves markup or control characters: %r' % (s, ht))
        back = re.sub(r'&#x([0-9a-fA-F]+);', lambda m: chr(int(m.group(1), 16)), ht)
        if back != s:
            raise Violation('HTML encoding of %r does not read back: %r' % (s, ht))
        if not re.match(r"^[!()*\-./0-9A-Z_a-z]*$", re.sub(r'%[0-9a-fA-F]{2}', '', u)):
            raise Violation('URI encoding of %r contains unsafe characters: %r' % (s, u))
        if urllib.parse.unquote_to_bytes(u) != s.encode('latin-1'):
            raise Violation('URI encoding of %r does not decode back: %r' % (s, u))
        if all(ord(c) >= 32 and ord(c) != 127 for c in s):
            d = self.h.call('url', 'decode', u)[1].decode('latin-1')
            if d != s:
                raise Violation('server decodes its own encoding of %r as %r' % (s, d))
        if hx.lower() != s.encode('latin-1').hex():
            raise Violation('hex encoding of %r is %r' % (s, hx))


class Query(Base):
    NAME = 'query'
    N_QUICK = 2000
    N_THOROUGH = 30000

    def strategy(self):
        key = st.sampled_from(['a', 'b', 'ab', 'start', 'sta', 'c', ''])
        v = st.sampled_from(['', '1', '22', 'x%20y', 'a', 'start'])
        return st.tuples(st.lists(st.tuples(key, v), max_size=5), st.sampled_from(['&', ';']), st.sampled_from(['a', 'ab', 'start', 'b', 'c', 'zz']),
                         st.one_of(st.integers(-2 ** 63, 2 ** 63 - 1), st.sampled_from([-2 ** 63, 2 ** 63 - 1, 0, -1])), st.one_of(st.integers(-1000, 1000), st.integers(0, 64).map(lambda b: (1 << b) - 1 if b < 64 else 2 ** 63 - 1)))

    def run(self, case, rec):
        pairs, sep, key, big, small = case
        qs = sep.join(k + '=' + v for k, v in pairs)
        a = self.h.call('url', 'qs', qs, key, 'appint', big, 'appint', small)
        first = [v for k, v in pairs if k == key]
        rec.nt(len(pairs) > 1 and bool(first))
        if first:
            if a[0] != b'1' or a[1].decode() != first[0]:
                raise Violation('query %r: key %r gives %r, expected %r' % (qs, key, a[1] if a[0] == b'1' else None, first[0]))
        elif a[0] != b'0':
            raise Violation('query %r: key %r found: %r' % (qs, key, a[1]))
        if a[2].decode() != 'x%d' % big or a[3].decode() != 'x%d' % small:
            raise Violation('decimal output of %d / %d: %r %r' % (big, small, a[2], a[3]))


class Hosts(Base):
    NAME = 'host'
    N_QUICK = 2000
    N_THOROUGH = 30000

    def strategy(self):
        name = st.one_of(st.sampled_from(['example.com', 'EXAMPLE.com', 'a', '127.0.0.1', '[::1]', '[fe80::1]', 'a_b', 'x.y.z.', '1.2.3', 'a%41', '256.256.256.256', 'xn--a']),
                         st.text(alphabet='abcXYZ019-._~', min_size=1, max_size=20))
        port = st.sampled_from(['', ':80', ':', ':8080', ':x', ':80x', ':1:2'])
        junk = st.sampled_from(['', '', '', '', ' ', '/', '@', '\\', '#', '?', '[', ']', '\x01', '"', '<'])
        return st.tuples(name, port, junk, st.integers(0, 20))

    def run(self, case, rec):
        name, port, junk, pos = case
        s = name + port
        if junk:
            pos %= len(s) + 1
            s = s[:pos] + junk + s[pos:]
        a = self.h.call('url', 'hostname', s)
        rec.nt(bool(junk) or bool(port))
        good = re.match(r'^([A-Za-z0-9._~-]+|\[[0-9a-fA-F:]+\])(:[0-9]+)?$', s)
        if good:
            if a[0] != b'1' or a[1].decode('latin-1') != good.group(1).lower():
                raise Violation('Host %r: accepted=%s host=%r' % (s, a[0], a[1]))
        elif re.search(r'[\s/@\\#?"<\x00-\x1f]', s) or port in (':', ':x', ':80x', ':1:2') and not junk:
            if a[0] != b'0':
                raise Violation('Host %r accepted as %r' % (s, a[1]))


SUBS = [Paths, Encoders, Query, Hosts]

"""C19: on-the-fly compression never changes what the client gets."""
import bz2
import os
import re
import time
import zlib

from hypothesis import strategies as st

from lib.backend import read_http_request
from lib.e2e import E2E, l1, req
from lib.http import Closed, Malformed, Timeout
from lib.relay import Scripted
from lib.server import Violation

RULE = ('static: generated requests (Accept-Encoding in all shapes with parameters, methods, versions, ranges, conditionals) for files and generated content of many sizes under 12 sets of deflate options; '
        'backend: generated responses of an application server in segments with pauses and truncations; non-trivial: the response was compressed or had to be left alone although an encoding was named')

VARIANTS = ['', '["compression-level" => 9]', '["blocksize" => 37]', '["blocksize" => 100, "output-buffer" => 64]', '["output-buffer" => 1]', '["output-buffer" => 10]', '["output-buffer" => 11, "compression-level" => 3]', '["output-buffer" => 100000]',
            '["encodings" => "gzip"]', '["encodings" => "deflate"]', '["encodings" => "bzip2"]', '["encodings" => "deflate,gzip", "blocksize" => 4096, "compression-level" => 6]']
ALLOWED = [{'gzip', 'x-gzip', 'deflate', 'bzip2', 'x-bzip2'}] * 8 + [{'gzip'}, {'deflate'}, {'bzip2'}, {'deflate', 'gzip'}]
SIZES = [0, 1, 2, 10, 63, 64, 65, 99, 100, 101, 399, 400, 401, 1000, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537, 70000, 131072, 200001]
NAMES = ['gzip', 'x-gzip', 'deflate', 'bzip2', 'x-bzip2']


def content(kind, n, salt=0):
    if kind == 0:
        return b'a' * n
    if kind == 1:
        import random
        return random.Random(n * 31 + salt).randbytes(n)
    return (b''.join(b'line %d of the text, %d\n' % (i, i * i % 97) for i in range(n // 16 + 1)))[:n]


def decode(enc, data):
    """(plain, complete) by an independent decoder; raises on damage"""
    if enc in ('gzip', 'x-gzip'):
        d = zlib.decompressobj(31)
    elif enc == 'deflate':
        d = zlib.decompressobj(-15)
    else:
        d = bz2.BZ2Decompressor()
    out = d.decompress(data)
    if d.eof and d.unused_data:
        raise ValueError('%d bytes after the end of the compressed stream' % len(d.unused_data))
    return out, d.eof


def accepted(values):
    """encodings the client accepts / accepts without doubt, from its Accept-Encoding values"""
    may, refused = set(), set()
    star = None
    for v in values:
        for item in v.split(','):
            tok, _, par = item.strip(' \t').partition(';')
            tok = tok.strip(' \t').lower()
            m = re.match(r'^[ \t]*q[ \t]*=[ \t]*0(\.0*)?[ \t]*$', par, re.I)
            if not tok:
                continue
            if m:
                refused.add(tok)
            else:
                may.add(tok)
    return may, refused


def ae_values():
    name = st.sampled_from(NAMES + NAMES + ['identity', 'compress', 'br', '*', 'gzi', 'gzipx', 'xgzip', 'bzip', 'deflated', 'GZIP', 'x-deflate', 'zip'])
    par = st.sampled_from(['', '', '', '', ';q=1', ';q=0.5', ';q=0', '; q=0', ';q=0.0', ';q=0.000', ' ; q=0', ';q=0.001', ';Q=0', ';q=1.000', ';x=y'])
    sep = st.sampled_from([', ', ',', ' , ', ',  ', ',\t'])
    val = st.tuples(st.lists(st.tuples(name, par).map(''.join), min_size=1, max_size=4), sep).map(lambda t: t[1].join(t[0]))
    return st.lists(val, min_size=0, max_size=2)


class Base(E2E):
    def blocks(self, inner):
        out = ''
        for i, v in enumerate(VARIANTS):
            out += '%sif req.header["X-Var"] == "%d" { %s deflate %s; }\n' % ('else ' if i else '', i, inner, v)
        return out

    def judge(self, what, r, v, ae, body, method, eligible):
        """checks the coding of a complete response against the identity body"""
        ce = r.getall('content-encoding')
        if len(ce) > 1:
            raise Violation('%s: more than one Content-Encoding %r' % (what, ce))
        may, refused = accepted(ae)
        vary = ','.join(r.getall('vary')).lower()
        if not ce:
            if method != 'HEAD' and r.body != body:
                raise Violation('%s: body changed (%d bytes instead of %d)' % (what, len(r.body), len(body)))
            plain = [t for val in ae for t in val.split(', ')]
            if eligible and any(t in ALLOWED[v] and t not in refused for t in ('gzip', 'deflate', 'bzip2') if plain and plain[0] == t):
                raise Violation('%s: not compressed although %r is accepted and enabled' % (what, plain[0]))
            return None
        enc = ce[0]
        if not eligible and r.status < 400:
            raise Violation('%s: response with status %d must not be compressed' % (what, r.status))
        if enc not in ALLOWED[v]:
            raise Violation('%s: encoded with %r, which is not enabled' % (what, enc))
        if enc not in may:
            raise Violation('%s: encoded with %r, which the client does not accept (%r)' % (what, enc, ae))
        if 'accept-encoding' not in vary and '*' not in vary:
            raise Violation('%s: compressed response without Vary: Accept-Encoding' % what)
        if method == 'HEAD':
            return enc
        try:
            plain, eof = decode(enc, r.body)
        except Exception as e:
            raise Violation('%s: %s stream is damaged: %s' % (what, enc, e))
        if not eof:
            raise Violation('%s: %s stream is incomplete (%d of %d bytes come out)' % (what, enc, len(plain), len(body)))
        if plain != body:
            raise Violation('%s: %s stream decodes to other content (%d bytes instead of %d)' % (what, enc, len(plain), len(body)))
        return enc


class Static(Base):
    NAME = 'static'
    N_QUICK = 1200
    N_THOROUGH = 60000
    SECS_QUICK = 45
    RECYCLE = 600

    def prepare(self):
        d = self.scratch + '/www'
        os.makedirs(d, exist_ok=True)
        for k in range(3):
            for n in SIZES:
                with open('%s/f%d-%d.txt' % (d, k, n), 'wb') as f:
                    f.write(content(k, n))

    def conf(self):
        return '''setup { module_load ["mod_deflate"]; listen "unix:%%SOCK%%"; }
keepalive.requests 100000;
mime_types [ ".txt" => "text/plain" ];
docroot "%%DIR%%/www";
if req.path =^ "/r" { respond 200 => "answer to %%{req.query}"; }
else if req.path == "/404" { set_status 404; }
else if req.path == "/500" { respond 500 => "internal %%{req.query}"; }
else if req.path == "/204" { respond 204; }
else if req.path == "/enc" { header.add "Content-Encoding" => "gzip"; respond 200 => "plain"; }
else if req.path == "/2etag" { header.add "ETag" => "\\"a\\""; header.add "ETag" => "\\"b\\""; respond 200 => "two etags"; }
else if req.path == "/vary" { header.add "Vary" => "X-Q"; header.add "ETag" => "\\"ab\\""; respond 200 => "varied varied varied"; }
static;
%s
''' % self.blocks('')

    def strategy(self):
        f = st.tuples(st.integers(0, 2), st.sampled_from(SIZES)).map(lambda t: '/f%d-%d.txt' % t)
        other = st.sampled_from(['/r?' + 'xyz' * 30, '/r', '/404', '/500?' + 'abc' * 50, '/204', '/enc', '/2etag', '/vary', '/none.txt'])
        return st.fixed_dictionaries({'t': st.one_of(f, f, f, other), 'v': st.integers(0, len(VARIANTS) - 1), 'ae': ae_values(), 'm': st.sampled_from(['GET', 'GET', 'GET', 'HEAD']), 'ver': st.sampled_from(['1.1', '1.1', '1.0']),
                                      'range': st.sampled_from([None, None, None, 'bytes=0-0', 'bytes=1-5', 'bytes=5-']), 'again': st.booleans()})

    def run(self, case, rec):
        t, v, m, ae = case['t'], case['v'], case['m'], case['ae']
        hs = [('X-Var', str(v))] + [('Accept-Encoding', a) for a in ae]
        if case['range']:
            hs.append(('Range', case['range']))
        what = '%s %s Accept-Encoding %r options %s' % (m, t, ae, VARIANTS[v] or 'default')
        mm = re.match(r'/f(\d)-(\d+)', t)
        base = [('X-Var', str(v)), ('Range', case['range'])] if case['range'] else [('X-Var', str(v))]
        plain = self.get(req('GET', t, '1.1', base + [('Connection', 'close')]))
        if plain.get('content-encoding') and t != '/enc':
            raise Violation('%s: compressed without Accept-Encoding' % what)
        c = self.conn()
        try:
            c.send(req(m, t, case['ver'], hs))
            r = self.one(c, m, what)
        finally:
            c.close()
        if r.status != plain.status:
            raise Violation('%s: status %d, but %d without Accept-Encoding' % (what, r.status, plain.status))
        if mm and not case['range'] and plain.body != content(int(mm.group(1)), int(mm.group(2))):
            raise Violation('%s: wrong file content' % what)
        if t == '/enc':
            if m == 'GET' and r.body != b'plain':
                raise Violation('already encoded response was changed')
            rec.label('left alone')
            return
        eligible = r.status not in (100, 101, 204, 205, 206, 304, 416) and not (m == 'HEAD' and r.status >= 400) and t not in ('/2etag', '/404', '/none.txt')
        enc = self.judge(what, r, v, ae, plain.body, m, eligible)
        rec.label(enc or 'identity')
        rec.nt(enc is not None or any(n in a for a in ae for n in NAMES))
        if r.status == 206 and enc:
            raise Violation('%s: partial content was compressed' % what)
        e0, e1 = plain.get('etag'), r.get('etag')
        if enc and e0 is not None:
            if e1 is None or e1 == e0:
                raise Violation('%s: compressed variant has the ETag of the plain one (%r)' % (what, e1))
        elif e0 != e1:
            raise Violation('%s: ETag %r instead of %r' % (what, e1, e0))
        if e1 and r.status == 200 and case['again'] and t != '/2etag':
            r2 = self.get(req('GET', t, '1.1', hs + [('If-None-Match', e1), ('Connection', 'close')]))
            rec.label('revalidated')
            if mm and r2.status != 304:
                raise Violation('%s: not revalidated by its own ETag %r: %d' % (what, e1, r2.status))
            if r2.status == 304 and r2.body:
                raise Violation('%s: 304 with a body' % what)
            if r2.status == 200:
                self.judge(what + ' (If-None-Match)', r2, v, ae, plain.body, 'GET', True)
            # an ETag of one variant never validates another one
            r3 = self.get(req('GET', t, '1.1', base + [('If-None-Match', e1), ('Connection', 'close')]))
            if enc and r3.status == 304:
                raise Violation('%s: plain content validated by the ETag of the %s variant' % (what, enc))


class Back(Base):
    NAME = 'backend'
    N_QUICK = 250
    N_THOROUGH = 12000
    SECS_QUICK = 45
    RECYCLE = 500

    def prepare(self):
        self.be = Scripted(self.scratch + '/be')

    def teardown(self):
        E2E.teardown(self)
        self.be.stop()

    def conf(self):
        return '''setup { module_load ["mod_deflate", "mod_proxy"]; listen "unix:%%SOCK%%"; }
keepalive.requests 100000;
proxy "unix:%%DIR%%/be";
%s
''' % self.blocks('')

    def strategy(self):
        seg = st.tuples(st.integers(0, 2), st.one_of(st.sampled_from([1, 2, 100, 4096, 16384, 20000]), st.integers(1, 70000))).map(list)
        return st.fixed_dictionaries({'segs': st.lists(seg, max_size=4), 'v': st.integers(0, len(VARIANTS) - 1), 'enc': st.sampled_from(['gzip', 'gzip', 'deflate', 'bzip2', 'x-gzip']), 'f': st.sampled_from(['cl', 'chunked', 'close']),
                                      'cut': st.sampled_from([None, None, None, 'mid', 'end']), 'wait': st.booleans(), 'status': st.sampled_from([200, 200, 200, 404, 203, 204, 206])})

    def run(self, case, rec):
        segs = [content(k, n, i) for i, (k, n) in enumerate(case['segs'])]
        body = b''.join(segs)
        nobody = case['status'] == 204
        if case['status'] == 404 and not body:
            return   # gets the error page of the server
        if nobody:
            segs, body = [], b''
        cut = case['cut'] if case['f'] != 'close' and body else None
        head = b'HTTP/1.1 %d X\r\nContent-Type: text/plain\r\n' % case['status']
        if case['status'] == 206:
            head += b'Content-Range: bytes 0-%d/%d\r\n' % (max(0, len(body) - 1), len(body) + 5)
        if nobody:
            pass
        elif case['f'] == 'cl':
            head += b'Content-Length: %d\r\n' % len(body)
        elif case['f'] == 'chunked':
            head += b'Transfer-Encoding: chunked\r\n'
        head += b'Connection: close\r\n\r\n'
        import threading
        go = [threading.Event() for _ in segs]
        fin = threading.Event()

        def script(c, seen):
            seen.append(read_http_request(c))
            c.sendall(head)
            for i, s in enumerate(segs):
                if i == len(segs) - 1 and cut == 'mid':
                    s2 = s[:len(s) // 2]
                    c.sendall((b'%x\r\n' % len(s) if case['f'] == 'chunked' else b'') + s2)
                    return
                c.sendall(b'%x\r\n%s\r\n' % (len(s), s) if case['f'] == 'chunked' else s) if not (cut == 'end' and case['f'] == 'cl' and i == len(segs) - 1) else c.sendall(s[:-1])
                if case['wait']:
                    go[i].wait(10)
            if cut == 'end':
                return
            if case['f'] == 'chunked' and not nobody:
                c.sendall(b'0\r\n\r\n')

        self.be.arm(script)
        v, enc = case['v'], case['enc']
        what = 'backend %s %r options %s' % (enc, case['segs'], VARIANTS[v] or 'default')
        c = self.conn()
        try:
            c.send(req('GET', '/x', '1.1', [('X-Var', str(v)), ('Accept-Encoding', enc)]))
            if case['wait'] and enc in ALLOWED[v] and case['status'] == 200 and enc != 'bzip2':
                self.stepwise(c, case, segs, go, what, rec, cut)
            for g in go:
                g.set()
            if cut:
                rec.label('cut')
                try:
                    r = c.response('GET')
                except (Malformed, Closed):
                    self.died(0.02)
                    rec.nt(True)
                    return
                except Timeout:
                    raise Violation('%s: broken-off response neither ended nor aborted' % what, timing=True)
                if r.status >= 500:
                    return
                raise Violation('%s: response broken off by the application server (%s %s) was passed on as complete: %s, %d bytes' % (what, case['f'], cut, r.get('content-encoding'), len(r.body)))
            r = self.one(c, 'GET', what)
        finally:
            for g in go:
                g.set()
            c.close()
        if r.status != case['status']:
            raise Violation('%s: status %d instead of %d' % (what, r.status, case['status']))
        got = self.judge(what, r, v, [enc], body, 'GET', case['status'] not in (204, 206))
        rec.nt(got is not None)
        rec.label(got or 'identity')

    def stepwise(self, c, case, segs, go, what, rec, cut):
        """what the application has sent so far reaches the client without the rest"""
        d = zlib.decompressobj(-15 if case['enc'] == 'deflate' else 31)
        raw = b''
        want = b''
        for i, s in enumerate(segs):
            if cut and i == len(segs) - 1:
                return
            want += s
            end = time.monotonic() + 5
            while True:
                plain = self.sofar(c.buf, case['enc'])
                if plain is not None and len(plain) >= len(want):
                    break
                left = end - time.monotonic()
                if left <= 0:
                    raise Violation('%s: after segment %d only %s of %d bytes can be decoded' % (what, i, None if plain is None else len(plain), len(want)), timing=True)
                c.s.settimeout(left)
                try:
                    x = c.s.recv(65536)
                except OSError:
                    continue
                finally:
                    c.s.settimeout(c.timeout)
                if not x:
                    self.died()
                    raise Violation('%s: connection closed early' % what)
                c.buf += x
            if plain[:len(want)] != want:
                raise Violation('%s: wrong content after segment %d' % (what, i))
            go[i].set()
        rec.label('stepwise')

    @staticmethod
    def sofar(buf, enc):
        i = buf.find(b'\r\n\r\n')
        if i < 0:
            return None
        head, p = buf[:i].lower(), i + 4
        data = b''
        if b'transfer-encoding: chunked' in head:
            while True:
                e = buf.find(b'\r\n', p)
                if e < 0:
                    break
                n = int(buf[p:e], 16)
                data += buf[e + 2:e + 2 + n]
                p = e + 2 + n + 2
                if n == 0:
                    break
        else:
            data = buf[p:]
        if b'content-encoding' not in head:
            return data
        return zlib.decompressobj(-15 if enc == 'deflate' else 31).decompress(data)


SUBS = [Static, Back]

"""C06: static files: exact content, ranges, validators, types; after any history of file changes."""
import email.utils
import os
import re
import time

from hypothesis import strategies as st

from lib.e2e import E2E, l1, lat
from lib.server import Violation

RULE = ('histories of 1-8 steps over a few files: (re)write a file with generated size and modification time, or request it (GET/HEAD on one kept-alive connection) with generated Range, If-Range, If-None-Match, '
        'If-Modified-Since headers built from current, outdated and made-up validators; non-trivial: a range, a conditional header or a file changed since the previous request is involved')

MIME = [('.txt', 'text/plain'), ('.tar.gz', 'application/x-tar-gz'), ('.gz', 'application/gzip'), ('.g', 'x/g'), ('xt', 'x/xt'), ('README', 'x/readme'), ('a.txt', 'x/atxt'), ('.html', 'text/html'), ('\xff', 'x/ff')]
FILES = ['f.txt', 'a.txt', 'x.tar.gz', 'y.gz', 'zgz', 'README', 'n', 'h.html', 'k.g', 'foo.xt', 'b.htm']
SIZES = [0, 1, 2, 3, 10, 11, 99, 100, 101, 1000, 16383, 16384, 16385, 70000, 131073, 300001]
T0 = 1700000000


def mime(name):
    best = ('', 'application/octet-stream')
    for s, m in MIME:
        if name.endswith(s) and len(s) > len(best[0]):
            best = (s, m)
    return best[1]


def content(size, salt):
    return (b'%d:' % salt + bytes((i * 7 + salt * 13 + (i >> 8)) & 0xff for i in range(min(size, 5000))) * (size // 5000 + 1))[:size] if size else b''


def ref_hash(s):
    h = 0
    for c in s.encode():
        h = ((h << 5) & 0xffffffff) ^ (h >> 27) ^ c
    return h


def fdate(t):
    return email.utils.formatdate(t, usegmt=True)


SPEC = re.compile(r'^(\d+)-(\d*)$|^-(\d+)$')


def ref_ranges(h, size):
    """list of (start, end) | 'unsat' | None (ignore header: not well-formed)"""
    if not h.startswith('bytes='):
        return None
    out = []
    for spec in h[6:].split(','):
        m = SPEC.match(spec)
        if not m or len(spec) > 30:
            return None
        if m.group(3) is not None:
            n = int(m.group(3))
            if n > 0 and size > 0:
                out.append((max(0, size - n), size - 1))
        else:
            a = int(m.group(1))
            b = int(m.group(2)) if m.group(2) else None
            if b is not None and b < a:
                return None
            if a < size:
                out.append((a, size - 1 if b is None else min(b, size - 1)))
    return out or 'unsat'


class Static(E2E):
    NAME = 'static'
    N_QUICK = 2500
    N_THOROUGH = 100000
    SECS_QUICK = 40
    RECYCLE = 1500

    def prepare(self):
        self.d = self.scratch + '/www'
        os.makedirs(self.d, exist_ok=True)
        self.salt = 0
        self.files = {}
        for f in FILES:
            self.write(f, 10, T0)

    def write(self, f, size, mtime, inplace=False):
        self.salt += 1
        body = content(size, self.salt)
        p = self.d + '/' + f
        t = p if inplace else p + '.new'
        with open(t, 'wb') as fh:
            fh.write(body)
        os.utime(t, (mtime, mtime))
        if not inplace:
            os.rename(t, p)
        self.files[f] = (body, mtime, os.stat(p).st_ino)

    def conf(self):
        return '''
setup { listen "unix:%SOCK%"; stat_cache.ttl 1; }
server.tag "t";
keepalive.requests 1000000;
mime_types [''' + ', '.join('"%s" => "%s"' % m for m in MIME) + '''];
docroot "%DIR%/www";
if req.header["X-Mode"] == "noetag" { etag.use [[]]; }
else if req.header["X-Mode"] == "size" { etag.use ["size", "mtime"]; }
else if req.header["X-Mode"] == "norange" { static.range_requests false; }
else if req.header["X-Mode"] == "sync" { stat.async false; }
static;
'''

    def strategy(self):
        num = st.one_of(st.integers(0, 20), st.sampled_from([0, 1, 9, 10, 11, 99, 100, 101, 16383, 16384, 16385, 70000, 299999, 300000, 300001, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, 10 ** 25]), st.integers(0, 310000))
        spec = st.one_of(st.tuples(num, num).map(lambda t: '%d-%d' % (min(t), max(t))), st.tuples(num, num).map(lambda t: '%d-%d' % t), num.map(lambda n: '%d-' % n), num.map(lambda n: '-%d' % n))
        good = st.lists(spec, min_size=1, max_size=4).map(lambda l: 'bytes=' + ','.join(l))
        junk = st.one_of(st.sampled_from(['bytes=', 'bytes=-', 'bytes=a-b', 'bytes=1', 'bytes 0-1', 'items=0-1', 'bytes=0-1;2-3', 'bytes=0--1', 'bytes=,0-1', 'bytes=0-1,,3-4', 'bytes = 0 - 3', 'bytes=0-1,x', 'bytes=1-0', 'bytes=0-0,', '']),
                         st.text(alphabet='bytes=0123456789-, ', max_size=14), st.tuples(good, st.integers(0, 30), st.sampled_from(', -=x9')).map(lambda t: t[0][:t[1]] + t[2] + t[0][t[1]:]))
        rng = st.one_of(st.none(), good, good, junk)
        val = st.sampled_from(['cur', 'cur', 'old', 'bogus', 'none', 'none', 'none', 'none', 'none', 'weak', 'list', 'noquote', 'part', 'oldlist', 'star', 'two'])
        ims = st.sampled_from(['none'] * 6 + ['cur', 'cur', 'old', 'later', 'earlier', 'garbage', 'semi', 'prefix', 'empty'])
        ifr = st.sampled_from(['none'] * 6 + ['etag', 'etag', 'oldetag', 'lm', 'oldlm', 'bogus', 'weak'])
        reqst = st.fixed_dictionaries({'op': st.just('r'), 'f': st.integers(0, 3), 'm': st.sampled_from(['GET', 'GET', 'GET', 'HEAD']), 'range': rng, 'inm': val, 'ims': ims, 'ifr': ifr,
                                       'mode': st.sampled_from(['', '', '', '', 'noetag', 'size', 'norange', 'sync'])})
        wr = st.fixed_dictionaries({'op': st.just('w'), 'f': st.integers(0, 3), 'size': st.one_of(st.sampled_from(SIZES), st.integers(0, 400)), 'ip': st.booleans(), 'dt': st.sampled_from([0, 1, -1, 2, 60, 3600, -86400, 12345])})
        return st.fixed_dictionaries({'names': st.lists(st.sampled_from(FILES), min_size=4, max_size=4, unique=True), 'ops': st.lists(st.one_of(reqst, reqst, reqst, wr), min_size=1, max_size=8)})

    def run(self, case, rec):
        c = self.conn()
        for f in case['names']:
            if len(self.files[f][0]) != 10 or self.files[f][1] != T0:
                self.write(f, 10, T0)
        known = {}      # (file, mode) -> [(etag, lm, state)]
        try:
            for op in case['ops']:
                f = case['names'][op['f']]
                if op['op'] == 'w':
                    body, mt, _ = self.files[f]
                    self.write(f, op['size'], mt + op['dt'] if abs(mt - T0) < 10 ** 8 else T0, op['ip'])
                    rec.nt(any(k[0] == f for k in known))
                    continue
                self.request(c, f, op, known, rec)
        finally:
            c.close()

    def request(self, c, f, op, known, rec):
        body, mt, ino = self.files[f]
        size = len(body)
        key = (f, op['mode'])
        hist = known.setdefault(key, [])
        if not hist:
            # learn the current validators
            r = self.ask(c, 'GET', f, op['mode'], [])
            self.full(f, op['mode'], r, hist, 'GET')
        state = (size, mt, ino)
        if hist[-1][2] != state and op['inm'] in ('cur', 'weak', 'list', 'noquote', 'part', 'two') or op['ifr'] in ('etag', 'weak') and hist[-1][2] != state:
            r = self.ask(c, 'GET', f, op['mode'], [])
            self.full(f, op['mode'], r, hist, 'GET')
        cur_etag, cur_lm, _ = hist[-1]
        olds = [e for e, l, s in hist[:-1] if e and e != cur_etag] if hist[-1][2] == state else [e for e, l, s in hist if e]
        if hist[-1][2] != state:
            cur_etag = None
        oldlms = [l for e, l, s in hist if l != fdate(mt)]
        hdr = []
        inm = None          # None: absent, else True/False/'any'
        k = op['inm']
        if k != 'none':
            if k == 'cur' and cur_etag:
                hdr.append('If-None-Match: ' + cur_etag)
                inm = True
            elif k == 'weak' and cur_etag:
                hdr.append('If-None-Match: W/' + cur_etag)
                inm = 'any'
            elif k == 'list' and cur_etag:
                hdr.append('If-None-Match: "zzz", %s' % cur_etag)
                inm = True
            elif k == 'two' and cur_etag:
                hdr += ['If-None-Match: "zzz"', 'If-None-Match: ' + cur_etag]
                inm = True
            elif k == 'noquote' and cur_etag:
                hdr.append('If-None-Match: ' + cur_etag.strip('"'))
                inm = False
            elif k == 'part' and cur_etag:
                hdr.append('If-None-Match: ' + cur_etag[:-2] + '"')
                inm = False
            elif k == 'old' and olds:
                hdr.append('If-None-Match: ' + olds[-1])
                inm = False
            elif k == 'oldlist' and olds:
                hdr.append('If-None-Match: %s, "x"' % olds[0])
                inm = False
            elif k == 'star':
                hdr.append('If-None-Match: *')
                inm = 'any'
            else:
                hdr.append('If-None-Match: "bogus"')
                inm = False
            if op['mode'] == 'noetag' and inm is True:
                inm = 'any'
            if op['mode'] == 'noetag' and inm is False:
                inm = 'ignored'     # without validators the header has nothing to be compared with
        ims = None
        k = op['ims']
        if k != 'none':
            if k == 'cur':
                v, ims = fdate(mt), True
            elif k == 'semi':
                v, ims = fdate(mt) + '; length=%d' % size, True
            elif k == 'later':
                v, ims = fdate(mt + 100000), True
            elif k == 'earlier':
                v, ims = fdate(mt - 1), False
            elif k == 'old' and oldlms:
                t = email.utils.parsedate_to_datetime(oldlms[-1]).timestamp()
                v, ims = oldlms[-1], t >= mt
            elif k == 'prefix':
                v, ims = fdate(mt)[:12], False
            elif k == 'empty':
                v, ims = '', False
            else:
                v, ims = 'yesterday', False
            hdr.append('If-Modified-Since: ' + v)
        use_range = None
        if op['range'] is not None:
            hdr.append('Range: ' + op['range'].strip())
            use_range = True
            k = op['ifr']
            if k == 'etag' and cur_etag and op['mode'] != 'noetag':
                hdr.append('If-Range: ' + cur_etag)
            elif k == 'oldetag' and olds:
                hdr.append('If-Range: ' + olds[-1])
                use_range = False
            elif k == 'lm':
                hdr.append('If-Range: ' + fdate(mt))
            elif k == 'oldlm' and oldlms:
                hdr.append('If-Range: ' + oldlms[-1])
                use_range = False
            elif k == 'weak' and cur_etag:
                hdr.append('If-Range: W/' + cur_etag)
                use_range = False
            elif k in ('bogus', 'oldetag', 'oldlm'):
                hdr.append('If-Range: "bogus"')
                use_range = False
        rec.nt(bool(hdr))
        m = op['m']
        r = self.ask(c, m, f, op['mode'], hdr)
        what = '%s %s (size %d, mtime %d, %s) %r' % (m, f, size, mt, op['mode'], hdr)
        # expectation: 304?
        if inm in ('any', 'ignored'):
            may, must = True, False
            if inm == 'ignored':
                may = ims is True
                must = False
        elif inm is not None:
            may = inm
            must = inm and ims is not False
        else:
            may = must = ims is True
        if r.status == 304:
            rec.label('304')
            if not may:
                raise Violation('304 although the client\'s copy is outdated: %s' % what)
            if r.body:
                raise Violation('304 with body: %s' % what)
            return
        if must:
            raise Violation('validators are current but the response is %d: %s' % (r.status, what))
        if r.get('last-modified') != fdate(mt) and r.status in (200, 206):
            raise Violation('Last-Modified %r, file has %r: %s' % (r.get('last-modified'), fdate(mt), what))
        want = ref_ranges(op['range'].strip(), size) if use_range and op['mode'] != 'norange' else None
        strict = use_range and op['mode'] != 'norange'
        if r.status == 200:
            if want is not None and m == 'GET' and not any(int(x) > 10 ** 17 for x in re.findall(r'\d+', op['range'])):
                raise Violation('satisfiable or unsatisfiable range %r ignored: %s' % (want, what))
            self.full(f, op['mode'], r, hist, m, what)
            return
        if not strict:
            raise Violation('status %d although the range must not be used: %s' % (r.status, what))
        if r.status == 416:
            rec.label('416')
            if want not in ('unsat', None):
                raise Violation('416 for a satisfiable range: %s' % what)
            if r.get('content-range') != 'bytes */%d' % size:
                raise Violation('416 with Content-Range %r: %s' % (r.get('content-range'), what))
            return
        if r.status != 206:
            raise Violation('status %d: %s' % (r.status, what))
        rec.label('206')
        if want == 'unsat':
            raise Violation('206 for an unsatisfiable range: %s' % what)
        ct = r.get('content-type') or ''
        if m == 'HEAD':
            return
        got = []
        if ct.startswith('multipart/byteranges'):
            rec.label('multipart')
            mb = re.match(r'^multipart/byteranges; boundary=([^ ;"]+)$', ct)
            if not mb:
                raise Violation('bad multipart type %r: %s' % (ct, what))
            b = l1('\r\n--' + mb.group(1))
            data = r.body if r.body.startswith(b'\r\n') else b'\r\n' + r.body
            pos = 0
            while True:
                if not data.startswith(b, pos):
                    raise Violation('multipart boundary expected at %d: %r: %s' % (pos, data[pos:pos + 40], what))
                pos += len(b)
                if data[pos:pos + 2] == b'--':
                    if data[pos:] not in (b'--', b'--\r\n'):
                        raise Violation('junk after the last part: %s' % what)
                    break
                e = data.find(b'\r\n\r\n', pos)
                head = lat(data[pos:e])
                mr = re.search(r'\r\nContent-Range: bytes (\d+)-(\d+)/(\d+)(\r\n|$)', head)
                mtp = re.search(r'\r\nContent-Type: ([^\r\n]*)', head)
                if e < 0 or not mr or not mtp or mtp.group(1) != mime(f) or int(mr.group(3)) != size:
                    raise Violation('bad part header %r: %s' % (head, what))
                a, z = int(mr.group(1)), int(mr.group(2))
                part = data[e + 4:e + 4 + z - a + 1]
                if part != body[a:z + 1] or len(part) != z - a + 1:
                    raise Violation('part %d-%d has wrong content: %s' % (a, z, what))
                got.append((a, z))
                pos = e + 4 + len(part)
        else:
            mr = re.match(r'^bytes (\d+)-(\d+)/(\d+)$', r.get('content-range') or '')
            if not mr or int(mr.group(3)) != size or ct != mime(f):
                raise Violation('Content-Range %r type %r: %s' % (r.get('content-range'), ct, what))
            a, z = int(mr.group(1)), int(mr.group(2))
            if r.body != body[a:z + 1] or z < a or z >= size:
                raise Violation('range %d-%d has wrong content (%d bytes): %s' % (a, z, len(r.body), what))
            got.append((a, z))
        if want is not None and got != want:
            raise Violation('ranges %r served, expected %r: %s' % (got, want, what))

    def ask(self, c, m, f, mode, hdr):
        raw = '%s /%s HTTP/1.1\r\nHost: h\r\nX-Mode: %s\r\n%s\r\n' % (m, f, mode, ''.join(h + '\r\n' for h in hdr))
        c.send(l1(raw))
        return self.one(c, m, repr(raw))

    def full(self, f, mode, r, hist, m, what=None):
        body, mt, ino = self.files[f]
        what = what or 'plain %s %s %s' % (m, f, mode)
        if r.status != 200:
            raise Violation('status %d: %s' % (r.status, what))
        if m == 'GET' and r.body != body:
            raise Violation('wrong content (%d bytes, file has %d): %s' % (len(r.body), len(body), what))
        if r.get('content-length') != str(len(body)) and not (m == 'HEAD' and not body):
            raise Violation('Content-Length %r for %d bytes: %s' % (r.get('content-length'), len(body), what))
        if r.get('content-type') != mime(f):
            raise Violation('Content-Type %r, expected %r: %s' % (r.get('content-type'), mime(f), what))
        if r.get('content-range'):
            raise Violation('Content-Range in a complete response: %s' % what)
        if r.get('last-modified') != fdate(mt):
            raise Violation('Last-Modified %r, expected %r: %s' % (r.get('last-modified'), fdate(mt), what))
        if (r.get('accept-ranges') == 'bytes') != (mode != 'norange'):
            raise Violation('Accept-Ranges %r: %s' % (r.get('accept-ranges'), what))
        e = r.get('etag')
        if (e is None) != (mode == 'noetag'):
            raise Violation('ETag %r: %s' % (e, what))
        state = (len(body), mt, ino)
        if e is not None:
            if not re.match(r'^"[^"\x00-\x20]+"$', e):
                raise Violation('ETag %r: %s' % (e, what))
            for e2, _, s2 in hist:
                a, b = (s2[:2], state[:2]) if mode == 'size' else (s2, state)
                if a == b and e2 != e:
                    raise Violation('ETag of an unchanged file changed from %s to %s: %s' % (e2, e, what))
                if a != b and e2 == e:
                    if mode == 'size':
                        h1, h2 = ref_hash('%d-%d' % a), ref_hash('%d-%d' % b)
                    else:
                        h1, h2 = (ref_hash('%d-%d-%d' % (s[2], s[0], s[1])) for s in (a, b))
                    if h1 != h2:
                        raise Violation('ETag %s is the same for two states %r and %r of the file: %s' % (e, s2, state, what))
        hist.append((e, fdate(mt), state))


SUBS = [Static]

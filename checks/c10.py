"""C10: password protected areas are open exactly for the right credentials."""
import base64
import ctypes
import hashlib
import os
import re
import time

from hypothesis import strategies as st

from lib.e2e import E2E, l1, lat, req
from lib.server import Violation

_crypt = ctypes.CDLL('libcrypt.so.1')
_crypt.crypt.restype = ctypes.c_char_p
_crypt.crypt.argtypes = [ctypes.c_char_p, ctypes.c_char_p]

RULE = ('sequences of 1-4 requests on one connection with generated Authorization headers (right, wrong, foreign, truncated, extended, NUL-containing credentials, hashes used as passwords, malformed encodings) for areas protected by '
        'plain, htpasswd (apr1, SHA, crypt variants) and htdigest files; reload: histories of password file changes; non-trivial: a request carries decodable credentials naming an existing user, or the file changed')

USERS = [('bob', 'secret'), ('Bob', 'Secret'), ('bob2', 'secret2'), ('b', 's'), ('al ice', 'pass word'), ('carl', 'p:w:x'), ('d\xfcr', 'p\xe4ss'), ('empty', ''), ('x' * 200, 'y' * 300), ('sp', ' lead'), ('tr', 'trail '), ('long', 'abcdefghijklmnop'),
         ('hash', '$apr1$abc$def'), ('num', '1'), ('eight', '12345678'), ('nine', '123456789')]


def apr1(pw, salt):
    md5 = lambda b: hashlib.md5(b).digest()
    m = b'$apr1$'
    ctx = pw + m + salt
    fin = md5(pw + salt + pw)
    n = len(pw)
    while n > 0:
        ctx += fin[:min(16, n)]
        n -= 16
    n = len(pw)
    while n:
        ctx += b'\0' if n & 1 else pw[:1]
        n >>= 1
    fin = md5(ctx)
    for i in range(1000):
        c = pw if i & 1 else fin
        if i % 3:
            c += salt
        if i % 7:
            c += pw
        c += fin if i & 1 else pw
        fin = md5(c)
    it = './0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
    out = ''

    def to64(v, n):
        s = ''
        for _ in range(n):
            s += it[v & 0x3f]
            v >>= 6
        return s
    for a, b, c in ((0, 6, 12), (1, 7, 13), (2, 8, 14), (3, 9, 15), (4, 10, 5)):
        out += to64(fin[a] << 16 | fin[b] << 8 | fin[c], 4)
    out += to64(fin[11], 2)
    return '$apr1$' + salt.decode() + '$' + out


KINDS = ['apr1', 'sha', 'des', 'md5', 'sha256', 'sha512', 'apr1b']


def hashed(kind, pw):
    b = l1(pw)
    if kind == 'apr1':
        return apr1(b, b'aX9./bcd')
    if kind == 'apr1b':
        return apr1(b, b'q')
    if kind == 'sha':
        return '{SHA}' + base64.b64encode(hashlib.sha1(b).digest()).decode()
    if b'\0' in b:
        return None
    s = {'des': 'ab', 'md5': '$1$saltsalt$', 'sha256': '$5$rounds=1000$somesalt$', 'sha512': '$6$rounds=1000$xx$'}[kind]
    r = _crypt.crypt(b, s.encode())
    return lat(r) if r else None


def htmatch(kind, pw, entry):
    """does the (possibly truncating) scheme accept pw"""
    return hashed(kind, pw) == entry


def lenient(v):
    v = re.sub('[^A-Za-z0-9+/=]', '', v)
    out = b''
    for i in range(0, len(v) - 3, 4):
        g = v[i:i + 4]
        n = len(g) - len(g.rstrip('='))
        out += base64.b64decode(g.replace('=', 'A'))[:3 - min(n, 2)]
    return lat(out)


class Auth(E2E):
    NAME = 'auth'
    N_QUICK = 2500
    N_THOROUGH = 100000
    SECS_QUICK = 40
    RECYCLE = 2000

    def write(self, name, lines, eol='\n'):
        with open(self.scratch + '/' + name, 'wb') as f:
            f.write(l1(eol.join(lines) + eol))

    def prepare(self):
        self.plain = dict(USERS)
        self.write('plain', ['%s:%s' % u for u in USERS])
        self.ht = {}
        for i, (u, p) in enumerate(USERS):
            k = KINDS[i % len(KINDS)]
            self.ht[u] = (k, hashed(k, p), p)
        self.ht['none'] = ('none', '', '')
        self.ht['star'] = ('none', '*', '*')
        self.ht['junk'] = ('none', '$9$foo', 'x')
        self.write('ht', ['%s:%s' % (u, v[1]) for u, v in self.ht.items()], '\r\n')
        self.dig = {}
        lines = []
        for i, (u, p) in enumerate(USERS):
            for realm in ('one', 'one two')[:1 + i % 2] if i % 3 else ('one two', 'other'):
                pw = p + ('' if realm == 'one' else realm)
                self.dig[u, realm] = pw
                lines.append('%s:%s:%s' % (u, realm, hashlib.md5(l1('%s:%s:%s' % (u, realm, pw))).hexdigest()))
        self.write('dig', lines)

    def conf(self):
        return '''
setup { module_load ["mod_auth"]; listen "unix:%SOCK%"; }
server.tag "t";
keepalive.requests 1000000;
if req.path =^ "/plain" { auth.plain ["method" => "basic", "realm" => "one", "file" => "%DIR%/plain", "ttl" => 10]; }
else if req.path =^ "/ht" { auth.htpasswd ["method" => "basic", "realm" => "one", "file" => "%DIR%/ht", "ttl" => 10]; }
else if req.path =^ "/dig1" { auth.htdigest ["method" => "basic", "realm" => "one", "file" => "%DIR%/dig", "ttl" => 0]; }
else if req.path =^ "/dig2" { auth.htdigest ["method" => "basic", "realm" => "one two", "file" => "%DIR%/dig", "ttl" => 10]; }
else if req.path =^ "/deny" { auth.plain ["method" => "basic", "realm" => "one", "file" => "%DIR%/plain"]; if req.env["REMOTE_USER"] !~ "^(bob|b)$" { auth.deny; } }
respond 200 => "user=%{req.env[REMOTE_USER]}|type=%{req.env[AUTH_TYPE]}|";
'''

    def strategy(self):
        user = st.one_of(st.sampled_from([u for u, _ in USERS] + ['none', 'star', 'junk', 'nobody', '', 'BOB', 'bob ', ' bob', 'bo', 'bobx', 'bob\x00', 'bob\n', 'bob:one', '\x00bob']))
        pw = st.one_of(st.just(['own']), st.just(['own']), st.just(['own']), st.tuples(st.just('mut'), st.sampled_from(['+x', '-1', 'case', '+nul', '+nulx', 'nul+', '+nl', 'empty', '+colon', 'space', 'dup', 'trunc8'])),
                       st.tuples(st.just('other'), st.integers(0, len(USERS) - 1)), st.just(['hash']), st.tuples(st.just('lit'), st.sampled_from(['', 'x', '*', '{SHA}', '\x00', 'secret\x00', '$9$foo', 'one', 'admin'])))
        enc = st.sampled_from(['ok'] * 14 + ['none', 'lower', 'nospace', 'twospace', 'tab', 'badchars', 'nopad', 'extra', 'digest', 'raw', 'nocolon', 'empty', 'tail', 'dup', 'dup2', 'bearer'])
        r = st.fixed_dictionaries({'p': st.sampled_from(['/plain', '/ht', '/ht', '/dig1', '/dig2', '/deny', '/free']), 'u': user, 'pw': pw, 'enc': enc, 'm': st.sampled_from(['GET', 'GET', 'POST'])})
        return st.fixed_dictionaries({'rs': st.lists(r, min_size=1, max_size=4), 'pipe': st.booleans()})

    def real(self, path, u):
        if path == '/ht':
            return self.ht.get(u, (None, None, None))[2]
        if path == '/dig1':
            return self.dig.get((u, 'one'), self.dig.get((u, 'one two')))
        if path == '/dig2':
            return self.dig.get((u, 'one two'), self.dig.get((u, 'one')))
        return self.plain.get(u)

    def granted(self, path, u, p):
        if path == '/free':
            return True
        if '\0' in u or '\0' in p or ':' in u:
            return False
        if path in ('/plain', '/deny'):
            return self.plain.get(u) == p
        if path == '/ht':
            e = self.ht.get(u)
            return e is not None and e[0] != 'none' and htmatch(e[0], p, e[1])
        return self.dig.get((u, 'one' if path == '/dig1' else 'one two')) == p

    def creds(self, r):
        u = r['u']
        own = self.real(r['p'], u)
        if own is None:
            own = 'secret'
        k = r['pw'][0]
        if k == 'own':
            p = own
        elif k == 'other':
            p = USERS[r['pw'][1]][1]
        elif k == 'hash':
            if r['p'] == '/ht':
                p = self.ht.get(u, ('', 'zz', ''))[1]
            else:
                p = hashlib.md5(l1('%s:%s:%s' % (u, 'one', own))).hexdigest()
        elif k == 'lit':
            p = r['pw'][1]
        else:
            m = r['pw'][1]
            p = {'+x': own + 'x', '-1': own[:-1], 'case': own.swapcase(), '+nul': own + '\0', '+nulx': own + '\0x', 'nul+': '\0' + own, '+nl': own + '\n', 'empty': '', '+colon': own + ':', 'space': ' ' + own, 'dup': own + own, 'trunc8': own[:8]}[m]
        return u, p

    def run(self, case, rec):
        c = self.conn()
        try:
            raws = []
            for r in case['rs']:
                u, p = self.creds(r)
                b = base64.b64encode(l1(u + ':' + p)).decode()
                e = r['enc']
                h = {'ok': ['Basic ' + b], 'none': [], 'lower': ['basic ' + b], 'nospace': ['Basic' + b], 'twospace': ['Basic  ' + b], 'tab': ['Basic\t' + b], 'badchars': ['Basic ' + b[:3] + '!\x80' + b[3:]], 'nopad': ['Basic ' + b.rstrip('=')],
                     'extra': ['Basic ' + b + 'AAAA'], 'digest': ['Digest username="%s"' % 'bob'], 'raw': ['Basic %s:%s' % ('bob', 'secret')], 'nocolon': ['Basic ' + base64.b64encode(l1(u)).decode()], 'empty': ['Basic '], 'tail': ['Basic ' + b + ' x'],
                     'dup': ['Basic ' + b, 'Basic AAAA'], 'dup2': ['Basic AAAA', 'Basic ' + b], 'bearer': ['Bearer ' + b]}[e]
                r = dict(r, hdr=h)
                raws.append((r, u, p, req(r['m'], r['p'] + '/x', '1.1', [('Authorization', v) for v in h] + ([('Content-Length', '0')] if r['m'] == 'POST' else []))))
            if case['pipe']:
                c.send(b''.join(x[3] for x in raws))
            for r, u, p, raw in raws:
                if not case['pipe']:
                    c.send(raw)
                self.check(self.one(c, r['m'], 'auth'), r, u, p, rec)
        finally:
            c.close()

    def check(self, resp, r, u, p, rec):
        g = self.granted(r['p'], u, p)
        e = r['enc']
        what = '%s user %r password %r (%s)' % (r['p'], u[:30], p[:40], e)
        if r['p'] == '/free':
            if resp.status != 200 or resp.body != b'user=|type=|':
                raise Violation('unprotected resource: %s' % resp.brief()[:200])
            return
        if self.real(r['p'], u) is not None:
            rec.nt(True)
        if resp.status == 200:
            if e not in ('none', 'digest', 'raw', 'empty', 'bearer', 'nocolon', 'nopad') and g:
                ru = u if not (r['p'] == '/deny' and u not in ('bob', 'b')) else None
                if resp.body != l1('user=%s|type=Basic|' % ru):
                    raise Violation('%s: REMOTE_USER/AUTH_TYPE wrong: %r' % (what, resp.body[:80]))
                rec.label('granted')
                return
            # other encodings: a lenient base64 decoder may see other credentials, but those must be valid
            for v in r.get('hdr', []) if e not in ('ok', 'none') else []:
                lu, _, lp = lenient(v[6:]).partition(':')
                if v[:6].lower() == 'basic ' and self.granted(r['p'], lu, lp):
                    rec.label('lenient')
                    return
            raise Violation('access granted without valid credentials: %s: %r' % (what, resp.body[:60]))
        if b'user=' in resp.body:
            raise Violation('protected content sent with status %d: %s' % (resp.status, what))
        denied = r['p'] == '/deny' and g and u not in ('bob', 'b')
        if g and e == 'ok' and not denied:
            raise Violation('access refused (%d) with valid credentials: %s' % (resp.status, what))
        if resp.status != 401 and not (denied and resp.status == 403):
            raise Violation('unauthorised request answered with %d: %s' % (resp.status, what))
        if resp.status == 401:
            realm = 'one two' if r['p'] == '/dig2' else 'one'
            if resp.getall('WWW-Authenticate') != ['Basic realm="%s"' % realm]:
                raise Violation('401 without the right challenge: %r' % resp.getall('WWW-Authenticate'))
            rec.label('401')
        else:
            rec.label('denied')


class Reload(E2E):
    """changes of the password file take effect after the ttl; a broken file never opens the area"""
    NAME = 'reload'
    N_QUICK = 5
    N_THOROUGH = 120
    SECS_QUICK = 30
    RECYCLE = 10

    def prepare(self):
        self.put('u0:p0\n')

    def put(self, text, how='w'):
        p = self.scratch + '/pw'
        if how == 'rename':
            with open(p + '.n', 'wb') as f:
                f.write(l1(text))
            os.rename(p + '.n', p)
        else:
            with open(p, 'wb') as f:
                f.write(l1(text))

    def conf(self):
        return '''
setup { module_load ["mod_auth"]; listen "unix:%SOCK%"; }
server.tag "t";
auth.plain ["method" => "basic", "realm" => "one", "file" => "%DIR%/pw", "ttl" => 1];
respond 200 => "ok";
'''

    def strategy(self):
        line = st.tuples(st.sampled_from(['u0', 'u1', 'u2', 'u10']), st.sampled_from(['p0', 'p1', 'p', '', 'p0:x'])).map(':'.join)
        good = st.lists(line, min_size=1, max_size=4).map(lambda l: '\n'.join(l) + '\n')
        bad = st.sampled_from(['garbage\n', 'u0\n', 'u0:p0\nnocolon\n', ''])
        return st.lists(st.tuples(st.one_of(good, good, good, bad), st.sampled_from(['w', 'rename'])), min_size=1, max_size=2)

    def probe(self, u, p):
        b = base64.b64encode(l1(u + ':' + p)).decode()
        return self.get(req('GET', '/', '1.1', [('Authorization', 'Basic ' + b), ('Connection', 'close')])).status

    def model(self, text):
        d = {}
        for l in text.split('\n'):
            if l:
                if ':' not in l:
                    return None
                u, _, p = l.partition(':')
                d[u] = p
        return d

    def run(self, case, rec):
        rec.nt(True)
        self.put('u0:p0\n')
        time.sleep(1.3)
        self.probe('u0', 'p0')
        time.sleep(1.1)
        cur = {'u0': 'p0'}
        for text, how in case:
            self.put(text, how)
            m = self.model(text)
            if m is not None:
                cur = m
            time.sleep(1.4)
            self.probe('u0', 'p0')      # the request that notices the change may or may not see it
            for u in ('u0', 'u1', 'u2', 'u10', ''):
                for p in ('p0', 'p1', 'p', '', 'p0:x', 'x'):
                    s = self.probe(u, p)
                    want = 200 if cur.get(u) == p else 401
                    if s != want:
                        raise Violation('after the password file changed to %r: user %r password %r gives %d instead of %d' % (text, u, p, s, want), timing=True)


SUBS = [Auth, Reload]

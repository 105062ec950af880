"""C05: static content never leaves the configured roots, and each URL is mapped to exactly the file it names."""
import os
import stat

from hypothesis import strategies as st

from checks.c16 import ref_decode, ref_simplify
from lib.e2e import E2E, l1, lat
from lib.server import Violation

RULE = ('requests built from an adversarial path grammar (dot segments, single and double percent escapes, backslashes, control bytes, doubled slashes, over-long parts, absolute URLs) for nine ways of '
        'mapping URLs to files (docroot, docroot from the host name, alias with and without slash, userdir, pathinfo, index, rewrite, excluded extensions); non-trivial: the target contains a dot '
        'segment, an escape or names an existing file')

SECRET = b'TOP-SECRET-MARKER'
TREE = ['a.txt', 'dir/b.txt', 'dir/index.html', 'dir/sub/c.txt', 'index.html', 'top.html', 'sp ace.txt', '%41.txt', 'A.txt', '..x/f.txt', '.../g.txt', '.hidden', 'x.php', 'y.php.txt', 'z.txt~', 'x.phps', 'back\\slash',
        'al', 'alx/q.txt', 'slx/q.txt', 'sl.txt', 'dir/subx/q.txt', 'dir2/x.php/d.txt', 'secret.html', 'a.txt.', '_', 'a_b', '%2e%2e', '%2e%2e%2fsecret.txt', '~u1/fake.txt', 'w+w', '&=;,']
ROOTS = ['www', 'al_t', 'sl_t', 'vh/h1.test/htdocs', 'vh/two/htdocs', 'users/u1/html', 'users/U-2_x/html', 'www2']
MODES = ['doc', 'alias', 'host', 'user', 'pinfo', 'index', 'exclude', 'rewrite', 'hostlist']


class Paths(E2E):
    NAME = 'paths'
    N_QUICK = 7000
    N_THOROUGH = 300000
    SECS_QUICK = 40
    RECYCLE = 3000

    def prepare(self):
        d = self.scratch
        self.files = {}
        for r in ROOTS:
            for t in TREE:
                p = os.path.join(d, r, t)
                if r.startswith('users') and t.startswith('~'):
                    continue
                if t == 'al' and r not in ('www', 'www2'):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                body = ('content of %s in %s' % (t, r)).encode()
                with open(p, 'wb') as f:
                    f.write(body)
                self.files[p] = body
        if not os.path.exists(d + '/www/fifo.txt'):
            os.mkfifo(d + '/www/fifo.txt')
        for s in ['secret.txt', 'www-private/secret.txt', 'www.txt', 'al_t-private/a.txt', 'al_tx', 'vh/secret.txt', 'vh/a.txt', 'htdocs/a.txt', 'htdocs/secret.txt', 'users/secret.txt', 'users/a.txt', 'html/a.txt', 'users/u1/secret.txt', 'users/u1/a.txt',
                  'a.txt', 'dir/b.txt', 'users/u1/htmlx/a.txt', 'wwwa.txt', 'etc/passwd', 'sl_ta.txt', 'sl_tx/q.txt', 'al_tx.txt', 'sl_t.txt',  'al_ta.txt', 'www2-x/a.txt']:
            p = os.path.join(d, s)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(SECRET + s.encode())

    def conf(self):
        return '''
setup { module_load ["mod_userdir", "mod_rewrite"]; listen "unix:%SOCK%"; }
server.tag "t";
keepalive.requests 100000;
if req.header["X-Mode"] == "doc" { docroot "%DIR%/www"; static; }
else if req.header["X-Mode"] == "alias" { docroot "%DIR%/www"; alias ["/al" => "%DIR%/al_t", "/sl/" => "%DIR%/sl_t", "/dir/sub" => "%DIR%/al_t/dir"]; static; }
else if req.header["X-Mode"] == "host" { docroot "%DIR%/vh/$0/htdocs"; static; }
else if req.header["X-Mode"] == "user" { docroot "%DIR%/www"; userdir "%DIR%/users/*/html/"; static; }
else if req.header["X-Mode"] == "pinfo" { docroot "%DIR%/www"; pathinfo; static; }
else if req.header["X-Mode"] == "index" { docroot "%DIR%/www"; index ["index.html", "c.txt"]; static; }
else if req.header["X-Mode"] == "exclude" { docroot "%DIR%/www"; static.exclude_extensions [".php", "~", ".hidden"]; static; }
else if req.header["X-Mode"] == "rewrite" { rewrite "^/rw/(.*)$" => "/$1"; docroot "%DIR%/www2"; static; }
else if req.header["X-Mode"] == "hostlist" { docroot ["%DIR%/vh/$0/htdocs", "%DIR%/www"]; static; }
else { respond 599; }
'''

    def strategy(self):
        seg = st.sampled_from(['..', '.', '', '%2e%2e', '%2E.', '.%2e', '...', '..%2f', '%2f..', '..%5c', '..\\', '%252e%252e', '%00', '..%00', '%00..', '..;', '.. ', '..%20', '%20..', '~u1', '~', '~..', '~U-2_x', '~root', 'a.txt', 'dir', 'b.txt', 'sub', 'c.txt',
                               'secret.txt', 'al', 'sl', 'alx', 'slx', 'subx', 'q.txt', 'sl.txt',  'al_t', 'www', 'www-private', 'vh', 'users', 'u1', 'html', 'htdocs', 'rw', 'index.html', 'sp%20ace.txt', 'sp ace.txt', '%41.txt', '%2541.txt', '..x', 'f.txt', 'g.txt', '.hidden', 'x.php', 'x.ph%70',
                               'y.php.txt', 'z.txt~', 'z.txt%7e', 'x.phps', 'back%5cslash', 'back\\slash', 'fifo.txt', '%', '%2', '%zz', 'a.txt%00.php', 'x.php%00', 'x.php.', 'a.txt.', '%c0%ae%c0%ae', '\xe9', 'a%0db', 'a_b', '_', '%ff', '%2e%2e%2fsecret.txt',
                               '%252e%252e%252fsecret.txt', 'etc', 'passwd', 'w+w', '&=;,', 'top.html', 'secret.html', 'x' * 300, 'dir2', 'd.txt'])
        path = st.lists(seg, min_size=1, max_size=7).map(lambda l: '/' + '/'.join(l))
        known = st.sampled_from(TREE).map(lambda t: '/' + t.replace('%', '%25'))
        # a known file reached through a detour which cancels out
        detour = st.tuples(st.lists(st.sampled_from(['./', 'q/../', '/', '%2e/', 'a.txt/../', 'dir/%2e%2e/', '../', 'sub/../']), max_size=4), st.sampled_from(TREE)).map(lambda t: '/' + ''.join(t[0]) + t[1].replace('%', '%25'))
        pre = st.sampled_from(['', '', '', '/al', '/sl', '/rw', '/~u1', '/~U-2_x', '/dir/sub', '/al/', '/alx', '/slx', '/sl', '/dir/subx', '/rw/rw'])
        p = st.tuples(pre, st.one_of(path, known, detour, detour)).map(lambda t: t[0] + t[1])
        host = st.sampled_from(['h1.test', 'two', 'H1.TEST', 'h1.test:80', 'h1.test.', '..', '.', '...', '../vh/two', '..%2f', '%2e%2e', 'two%2f..', '-', 'a..b', '..two', 'nohost', 'h1.test%00', '[::1]', '..:80', '.:1', '../..', 'two..', '....', 'h1.test..'])
        return st.fixed_dictionaries({'mode': st.sampled_from(MODES), 'p': p, 'suffix': st.sampled_from(['', '', '', '?q', '?/../', '/', '/x/y', '?a=/b']), 'host': st.one_of(st.just('h1.test'), host),
                                      'abs': st.sampled_from(['', '', '', 'http://h1.test', 'http://..', 'http://x@two:80'])})

    def fexists(self, p):
        try:
            s = os.stat(l1(p))
        except (OSError, ValueError):
            return None
        return s

    def expect(self, case, path, host):
        """the file the URL names: physical path or None"""
        d = self.scratch
        m = case['mode']
        if m == 'doc' or m == 'exclude':
            return d + '/www' + path
        if m == 'alias':
            for pre, root in (('/al', d + '/al_t'), ('/sl', d + '/sl_t'), ('/dir/sub', d + '/al_t/dir')):
                if path == pre or path.startswith(pre + '/'):
                    return root + path[len(pre):]
            return d + '/www' + path
        if m == 'user':
            if path.startswith('/~'):
                u = path[2:].split('/')[0]
                if u and all(c.isascii() and (c.isalnum() or c in '_-') for c in u):
                    return d + '/users/' + u + '/html/' + path[2 + len(u):]
            return d + '/www' + path
        if m == 'pinfo':
            p = d + '/www' + path
            q = p
            while len(q) > len(d + '/www'):
                try:
                    os.stat(l1(q))
                    return q
                except NotADirectoryError:
                    q = q[:q.rindex('/')]
                except (OSError, ValueError):
                    return q
            return q
        if m == 'index':
            p = d + '/www' + path
            if p.endswith('/') and os.path.isdir(l1(p)):
                for i in ('index.html', 'c.txt'):
                    if os.path.exists(l1(p + i)):
                        return p + i
            return p
        if m == 'rewrite':
            if path.startswith('/rw/') and '\n' not in path:
                path = ref_simplify('/' + path[4:]) if True else path
            return d + '/www2' + path
        if m == 'host':
            return d + '/vh/' + host + '/htdocs' + path
        if m == 'hostlist':
            r = d + '/vh/' + host + '/htdocs'
            if '..' not in host.split('/') and os.path.isdir(r):
                return r + path
            return d + '/www' + path

    def run(self, case, rec):
        raw_target = case['abs'] + case['p'] + case['suffix']
        target = raw_target.replace(' ', '%20')
        d = self.scratch
        rec.label(case['mode'])
        head = 'GET %s HTTP/1.1\r\nHost: %s\r\nX-Mode: %s\r\nConnection: close\r\n\r\n' % (target, case['host'], case['mode'])
        r = self.get(l1(head))
        what = '%s %r host %r' % (case['mode'], target, case['host'])
        blob = r.body + b'|' + repr(r.headers).encode()
        if SECRET in blob:
            raise Violation('content from outside the root was served for %s: %r' % (what, r.body[:80]))
        if b'root:' in r.body:
            raise Violation('system file served for %s' % what)
        path = case['p'] + case['suffix']
        path = ref_simplify(ref_decode(path.replace(' ', '%20').split('?')[0]))
        exists = False
        if r.status == 200 and r.body not in self.files.values():
            raise Violation('200 with a body which is no file of the tree for %s: %r' % (what, r.body[:80]))
        host = {'': case['host'], 'http://h1.test': 'h1.test', 'http://..': '..', 'http://x@two:80': 'two'}[case['abs']].lower()
        if host.rpartition(':')[2].isdigit() and not host.startswith('['):
            host = host.rpartition(':')[0]
        special = any(ord(c) > 126 or ord(c) < 32 for c in target) or '#' in target
        weird_host = any(c in '/%[' for c in case['host']) or '..' in host or host.strip('.') != host
        if case['mode'] in ('host', 'hostlist') and weird_host:
            # only containment is decided for odd host names
            rec.nt(True)
            rec.label('odd host')
            if r.status == 200 and case['mode'] == 'host':
                h = os.path.normpath(d + '/vh/' + host + '/htdocs')
                if not h.startswith(d + '/vh/'):
                    raise Violation('docroot built from host name left its parent directory for %s: %r' % (what, r.body[:80]))
            return
        if r.status == 400:
            if not special and not (weird_host or case['abs'] == 'http://..'):
                raise Violation('well-formed request refused: %s' % what)
            return
        phys = self.expect(case, path, host)
        if phys is None:
            return
        # with a rewritten path both reading of a literal % in it (again decoded or not) are fine
        cands = [phys]
        if case['mode'] == 'rewrite' and '%' in path:
            cands.append(d + '/www2' + ref_simplify(ref_decode('/' + path[4:])))
        ok = False
        exp = None
        for p in cands:
            s = self.fexists(p)
            exp = 404
            if s is not None and stat.S_ISREG(s.st_mode) and not p.endswith('/'):
                exp = 200
                norm = os.path.normpath(p)
                if norm not in self.files:
                    raise Violation('model maps %s to %r outside the tree' % (what, p))
                if case['mode'] == 'exclude' and os.path.basename(p).endswith(('.php', '~', '.hidden')):
                    exp = 403
                    rec.label('excluded')
                if exp == 200:
                    exists = True
                    ok = ok or (r.status == 200 and r.body == self.files[norm])
                    continue
            ok = ok or r.status in ((403,) if exp == 403 else (301, 403, 404, 414))
        rec.nt('..' in path or '%' in target or '//' in target or exists)
        rec.label('served' if r.status == 200 else str(r.status))
        if not ok:
            raise Violation('%s: expected %s (%r), got %d %r' % (what, exp, cands[0][len(d):], r.status, r.body[:80]))


SUBS = [Paths]

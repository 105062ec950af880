"""C12: virtual hosts (vhost.map, vhost.map_regex) and user directories (userdir)."""
import os
import pwd
import re

from hypothesis import strategies as st

from lib.e2e import l1, req
from lib.http import Conn
from lib.runner import Sub
from lib.server import Server, Violation

RULE = ('vhost: generated vhost.map / vhost.map_regex tables (exact names, regular expressions in order, nested, with and without default) x requests with hosts from and near the tables (case, port, trailing dots, prefixes, suffixes, absolute URLs); '
        'userdir: generated userdir patterns (letters, user name, relative and absolute) x request paths with real and invented users; non-trivial: some entry or default was selected (vhost), the path names a user (userdir)')

LAB = ['a', 'b', 'www', 'example', 'com', 'xn--p', 'a-b', '1', 'aa', 'test']


def host_s():
    return st.lists(st.sampled_from(LAB), min_size=1, max_size=3).map('.'.join)


class PerConf(Sub):
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)

    def teardown(self):
        pass

    def serve(self, conf, reqs, method='GET'):
        """the responses to the requests, all on one connection, under the configuration"""
        srv = Server(self.scratch, conf)
        if not srv.start():
            srv.settle_dead(0.2)
            srv.check_alive()
            raise Violation('configuration refused: %s\n%s' % (srv.log_text()[-400:], conf))
        try:
            out = []
            c = Conn(path=srv.sock, timeout=10)
            try:
                for i, raw in enumerate(reqs):
                    c.send(raw)
                    out.append(self.one(srv, c, method if isinstance(method, str) else method[i], raw))
                    if out[-1].status == 400 or (out[-1].get('connection') or '').lower() == 'close':
                        c.close()
                        c = Conn(path=srv.sock, timeout=10)
            finally:
                c.close()
            srv.settle_dead(0.0)
            srv.check_alive()
            return out
        finally:
            srv.kill()

    def one(self, srv, c, method, raw):
        from lib.http import Closed, Malformed, Timeout
        try:
            return c.response(method)
        except Malformed as e:
            raise Violation('malformed response to %r: %s' % (raw[:200], e))
        except Closed:
            srv.settle_dead(0.3)
            srv.check_alive()
            raise Violation('connection closed instead of a response to %r' % raw[:200])
        except Timeout:
            srv.check_alive()
            raise Violation('no response to %r' % raw[:200], timing=True)


def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


class VHost(PerConf):
    NAME = 'vhost'
    N_QUICK = 300
    N_THOROUGH = 6000
    SECS_QUICK = 40

    def strategy(self):
        h = host_s()
        key = h
        rx = st.one_of(h.map(lambda s: '^' + re.escape(s).replace('\\-', '-') + '$'), st.sampled_from(['^www\\.', '\\.com$', '^a', 'b$', '^(www\\.)?example\\.(com|test)$', '^[a-b]+\\.', '.', '^[^.]+$', '^(a|b)\\.(a|b)$', 'x', '1', '^$', '[0-9]+$', 'a.b', '^.*\\.test$', '\\.[^.]{2,4}$']))
        leaf = st.integers(0, 99).map(lambda n: ['leaf', n])

        def tab(sub):
            act = st.one_of(leaf, leaf, sub)
            return st.one_of(
                st.tuples(st.just('map'), st.lists(st.tuples(key, act).map(list), max_size=5, unique_by=lambda t: t[0]), st.one_of(st.none(), act)).map(list),
                st.tuples(st.just('rx'), st.lists(st.tuples(rx, act).map(list), max_size=5), st.one_of(st.none(), act)).map(list))
        t = tab(tab(leaf))
        hs = st.one_of(h, h, h, st.just(None))
        dec = st.sampled_from(['', '', '', ':80', '.', '..', ':8080', '.:80'])
        pre = st.sampled_from(['', '', '', '', 'www.', 'a', '.'])
        rq = st.fixed_dictionaries({'h': hs, 'i': st.integers(0, 20), 'dec': dec, 'pre': pre, 'up': st.booleans(), 'abs': st.sampled_from([False, False, False, True])})
        return st.fixed_dictionaries({'tabs': st.lists(t, min_size=1, max_size=2), 'rq': st.lists(rq, min_size=1, max_size=14)})

    def conf_of(self, t, depth=0):
        if t[0] == 'leaf':
            return '{ header.add "X-Leaf" => "%d"; }' % t[1]
        ents = ['%s => %s' % (cstr(k), self.conf_of(a)) for k, a in t[1]]
        if t[2] is not None:
            ents.append('default => ' + self.conf_of(t[2]))
        return '{ vhost.%s [%s]; }' % ('map' if t[0] == 'map' else 'map_regex', ', '.join(ents))

    def model(self, t, host, out):
        if t is None:
            return
        if t[0] == 'leaf':
            out.append(str(t[1]))
            return
        for k, a in t[1]:
            if (t[0] == 'map' and k == host) or (t[0] == 'rx' and re.search(k, host)):
                return self.model(a, host, out)
        return self.model(t[2], host, out)

    def keys(self, t):
        if t is None or t[0] == 'leaf':
            return []
        out = [k for k, _ in t[1]] if t[0] == 'map' else [re.sub(r'[^a-z0-9.-]', '', k.replace('\\.', '.')) for k, _ in t[1]]
        for _, a in t[1]:
            out += self.keys(a)
        return out + self.keys(t[2])

    def run(self, case, rec):
        tabs = [t for t in case['tabs']]
        # the empty table cannot be written as key-value list
        for t in tabs:
            if self.empty(t):
                return
        keys = [k for t in tabs for k in self.keys(t)]
        keys = [k for k in keys if k.strip('.') and '..' not in k and not k.startswith(('.', '-'))] or ['a']
        conf = 'setup { module_load "mod_vhost"; listen "unix:%SOCK%"; }\nkeepalive.requests 1000;\n'
        for i, t in enumerate(tabs):
            conf += 'b%d = %s;\nb%d;\n' % (i, self.conf_of(t), i)
        conf += 'respond 200 => "%{req.host}";\n'
        reqs, exps = [], []
        for r in case['rq']:
            h = r['h'] if r['h'] is not None else keys[r['i'] % len(keys)]
            if r['pre'] == '.':
                h = h.partition('.')[2] or h
            else:
                h = r['pre'] + h
            h = h.rstrip('.')
            wire = (h.upper() if r['up'] else h) + r['dec']
            out = []
            for t in tabs:
                self.model(t, h.lower(), out)
            exps.append((h.lower(), out))
            reqs.append(req('GET', 'http://%s/p' % wire if r['abs'] else '/p', host='other.test' if r['abs'] else wire))
            rec.nt(bool(out))
        rs = self.serve(conf, reqs)
        for raw, r, (h, out) in zip(reqs, rs, exps):
            got = [v for k, v in r.headers if k.lower() == 'x-leaf']
            if r.status != 200 or r.body.decode('latin-1') != h:
                raise Violation('host %r of %r seen as %d %r' % (h, raw[:120], r.status, r.body[:80]))
            if got != out:
                raise Violation('host %r selected %r, expected %r\n%s' % (h, got, out, conf))
            rec.label('selected' if out else 'nothing')

    def empty(self, t):
        if t is None or t[0] == 'leaf':
            return False
        return (not t[1] and t[2] is None) or any(self.empty(a) for _, a in t[1]) or self.empty(t[2])


class UserDir(PerConf):
    NAME = 'userdir'
    N_QUICK = 300
    N_THOROUGH = 6000
    SECS_QUICK = 40

    def strategy(self):
        part = st.one_of(st.sampled_from(['*', '*', '$1', '$2', '$9', '$5', '/', '/', 'x', 'web', 'public_html', '$1$2', '$0', '$', '$a', '$:', '$:1', '.', '-', '5', '$$1', '$11', '$1x', '$2y', '**', '~']))
        pat = st.tuples(st.sampled_from(['/', '/', '/', '', '/srv/', '/srv/u']), st.lists(part, min_size=0, max_size=6)).map(lambda t: t[0] + ''.join(t[1])).filter(lambda s: s)
        user = st.one_of(st.sampled_from(['nobody', 'daemon', 'www-data', 'root', 'Root', 'rootx', 'roo', 'nosuchuser_1', 'u', 'a-b_C9', 'abcdefghij', '', '-', '0']), st.text('abrot09_-XYZ', max_size=10), st.sampled_from(['a.b', 'a b', '..', 'a%2fb', 'a%2e', 'no%62ody', 'r%6fot', 'a;b', 'a\xe9', 'a+b', '~a']))
        rest = st.sampled_from(['', '/', '/f.html', '/d/e/f', '/d/../f', '//x', '/~nobody/x', '/a%20b', '/../~root/x', '/.', '?q=~a/', '/f?x'])
        pre = st.sampled_from(['/~', '/~', '/~', '/~', '/~', '/', '//~', '/x/~', '/%7e', '/./~', '/x/../~'])
        rq = st.tuples(pre, user, rest).map(lambda t: (t[0] + t[1] + t[2]))
        return st.fixed_dictionaries({'pat': pat, 'rq': st.lists(rq, min_size=1, max_size=14)})

    def run(self, case, rec):
        from checks.c16 import ref_decode, ref_simplify
        pat = case['pat']
        conf = ('setup { module_load "mod_userdir"; listen "unix:%%SOCK%%"; }\nkeepalive.requests 1000;\ndocroot "/none";\nuserdir %s;\n'
                'if !req.is_handled { respond 200 => "%%{phys.docroot}|%%{phys.path}|%%{req.path}"; }\n') % cstr(pat)
        parts = []
        for m in re.finditer(r'\*|\$[1-9]|.', pat):
            parts.append(m.group())
        reqs = [req('GET', t.replace(' ', '%20')) for t in case['rq']]
        rs = self.serve(conf, reqs)
        for t, r in zip(case['rq'], rs):
            what = 'userdir %r, request %r' % (pat, t)
            if any(ord(ch) > 126 for ch in t) and r.status == 400:
                continue
            path = ref_simplify(ref_decode(t.replace(' ', '%20').split('?')[0]))
            m = re.match(r'/~([A-Za-z0-9_-]+)(/.*)?$', path, re.S)
            if not m:
                exp = ('/none/', '/none' + path, path)
            else:
                rec.nt(True)
                u, rest = m.group(1), m.group(2) or ''
                root = ''
                named = False
                if not pat.startswith('/'):
                    named = True
                    if u == 'root':
                        if r.status != 403:
                            raise Violation('%s: root must be refused, got %d %r' % (what, r.status, r.body[:80]))
                        rec.label('root')
                        continue
                    try:
                        root = pwd.getpwnam(u).pw_dir + '/'
                    except KeyError:
                        if r.status != 404:
                            raise Violation('%s: unknown user must give 404, got %d %r' % (what, r.status, r.body[:80]))
                        rec.label('unknown user')
                        continue
                for p in parts:
                    if p == '*':
                        root += u
                        named = True
                    elif len(p) == 2:
                        root += u[int(p[1]) - 1:int(p[1])]
                    else:
                        root += p
                if not named:
                    root += '/' + u
                exp = (root + '/', root + '/' + rest, rest or '/')
                rec.label('mapped')
            got = r.body.decode('latin-1').split('|')
            # the number of slashes in a row makes no difference
            sq = lambda s: re.sub('/+', '/', s.rstrip('/') or '/')
            if r.status != 200 or len(got) != 3 or [sq(g) for g in got] != [sq(e) for e in exp] or (m and got[2] != exp[2]):
                raise Violation('%s: expected %r, got %d %r' % (what, exp, r.status, got))


SUBS = [VHost, UserDir]

"""C28: response metadata: content types, expiry times, index files and excluded extensions, header and status edits."""
import email.utils
import os
import shutil
import time
from urllib.parse import quote_from_bytes, unquote_to_bytes, urlsplit

from hypothesis import strategies as st

from checks.c12 import PerConf, cstr
from lib.backend import Backend, Reader
from lib.e2e import l1, req
from lib.http import Conn
from lib.server import Violation

RULE = ('mime: generated mime_types tables (overlapping suffixes, duplicates, empty suffix) x file names, Content-Type of the delivered file; expire: generated rules x file modification times; '
        'index: generated directory trees x index lists x static.exclude_extensions x static/static_no_fail; edit: generated backend responses x header.*/set_status edits made once the response is known. '
        'Non-trivial: more than one suffix matches / a rule with several terms or a modification base / an index name is looked for / an edit touches an existing header')


class Mime(PerConf):
    NAME = 'mime'
    N_QUICK = 150
    N_THOROUGH = 4000
    SECS_QUICK = 30

    def strategy(self):
        piece = st.sampled_from(['.', 'a', 'b', 'gz', '.gz', 'tar', '.tar', 'x', '~', '\xff', '\xe9', 'A', 'html', '-'])
        name = st.lists(piece, min_size=1, max_size=5).map(''.join).filter(lambda s: s not in ('.', '..'))
        suf = st.one_of(st.lists(piece, min_size=1, max_size=3).map(''.join), st.just(''))
        return st.fixed_dictionaries({'tab': st.lists(st.tuples(suf, st.sampled_from(['text/plain', 'text/html; charset=utf-8', 'a/b', 'c/d', 'application/x-tar', 'e/f', 'g/h'])).map(list), max_size=10),
                                      'tab2': st.one_of(st.none(), st.none(), st.lists(st.tuples(suf, st.sampled_from(['two/a', 'two/b'])).map(list), min_size=1, max_size=3)), 'names': st.lists(name, min_size=1, max_size=10, unique=True)})

    def run(self, case, rec):
        root = os.path.join(self.scratch, 'm')
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        names = []
        for i, n in enumerate(case['names']):
            if i % 3 and case['tab']:
                n += case['tab'][(i * 7 + len(n)) % len(case['tab'])][0]
            if n in names or n in ('.', '..'):
                continue
            with open(os.path.join(root.encode(), l1(n)), 'wb') as f:
                f.write(b'x')
            names.append(n)

        def tab(t):
            return 'mime_types [%s];\n' % ', '.join('%s => %s' % (cstr(k), cstr(v)) for k, v in t)
        conf = 'setup { listen "unix:%SOCK%"; }\nkeepalive.requests 1000;\n' + 'docroot "%s";\n' % root + (tab(case['tab']) if case['tab'] else '')
        if case['tab2'] is not None:
            conf += 'if req.query == "two" { %s }\n' % tab(case['tab2'])
        work = [(n, q) for n in names for q in (('', '?two') if case['tab2'] is not None else ('',))]
        rs = self.serve(conf, [req('GET', '/' + quote_from_bytes(l1(n), safe='') + q) for n, q in work])
        for (n, q), r in zip(work, rs):
            t = case['tab2'] if q else case['tab']
            # the suffix is searched in the physical path
            path = root.encode().decode('latin-1') + '/' + n
            m = [(k, v) for k, v in t if path.endswith(k)]
            exp = 'application/octet-stream'
            if m:
                best = max(len(k) for k, _ in m)
                exp = [v for k, v in m if len(k) == best][-1]
            rec.nt(len({k for k, _ in m}) > 1)
            if r.status != 200 or r.get('content-type') != exp:
                raise Violation('file %r under %r: Content-Type %r (status %d), expected %r' % (n, t, r.get('content-type'), r.status, exp))
            rec.label('typed' if m else 'default')


UNIT = {'second': 1, 'minute': 60, 'hour': 3600, 'day': 86400, 'week': 7 * 86400, 'month': 30 * 86400, 'year': 365 * 86400}


class Expire(PerConf):
    NAME = 'expire'
    N_QUICK = 150
    N_THOROUGH = 4000
    SECS_QUICK = 30

    def strategy(self):
        num = st.one_of(st.integers(1, 12), st.integers(1, 100), st.sampled_from([1, 60, 100, 68, 69, 136, 137, 200]), st.integers(1, 300))
        rule = st.tuples(st.sampled_from(['access', 'now', 'modification', 'modification']), st.booleans(), st.lists(st.tuples(num, st.sampled_from(sorted(UNIT)), st.booleans()).map(list), min_size=1, max_size=3)).map(list)
        return st.fixed_dictionaries({'rules': st.lists(rule, min_size=1, max_size=5), 'age': st.lists(st.one_of(st.integers(-1000, 100000), st.sampled_from([0, 10 ** 8, 10 ** 9, -10 ** 7, 5, 59, 60, 61, 3599, 3600])), min_size=1, max_size=2), 'cc': st.sampled_from([None, 'public', 'private, must-revalidate']), 'ex': st.booleans()})

    def run(self, case, rec):
        root = os.path.join(self.scratch, 'e')
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        now0 = int(time.time())
        ages = {}
        for i, a in enumerate(case['age']):
            with open('%s/f%d' % (root, i), 'w') as f:
                f.write('x')
            os.utime('%s/f%d' % (root, i), (now0 - a, now0 - a))
            ages['f%d' % i] = a
        conf = 'setup { module_load "mod_expire"; listen "unix:%SOCK%"; }\nkeepalive.requests 1000;\n' + 'docroot "%s";\n' % root
        if case['cc']:
            conf += 'header.add "Cache-Control" => %s;\n' % cstr(case['cc'])
        if case['ex']:
            conf += 'header.add "Expires" => "0";\n'
        for i, (base, plus, terms) in enumerate(case['rules']):
            conf += 'if req.query == "r%d" { expire "%s%s %s"; }\n' % (i, base, ' plus' if plus else '', ' '.join('%d %s%s' % (n, u, 's' if s else '') for n, u, s in terms))
        work = [(i, f) for i in range(len(case['rules'])) for f in sorted(ages) + ['missing']]
        rs = self.serve(conf, [req('GET', '/%s?r%d' % (f, i)) for i, f in work])
        now1 = int(time.time())
        for (i, f), r in zip(work, rs):
            base, plus, terms = case['rules'][i]
            secs = sum(n * UNIT[u] for n, u, _ in terms)
            w = 'rule %r for %s (age %s)' % (case['rules'][i], f, ages.get(f))
            if secs > 2 ** 31 - 1:
                rec.label('far')
            rec.nt(len(terms) > 1 or base == 'modification')
            ex, cc = r.get('expires'), r.getall('cache-control')
            if base == 'modification' and f == 'missing':
                if r.status != 404 or ex != ('0' if case['ex'] else None) or cc != ([case['cc']] if case['cc'] else []):
                    raise Violation('%s: no file, but status %d, Expires %r, Cache-Control %r' % (w, r.status, ex, cc))
                rec.label('missing')
                continue
            pre = case['cc'] + ', ' if case['cc'] else ''
            if len(r.getall('expires')) != 1 or len(cc) != 1 or not cc[0].startswith(pre + 'max-age='):
                raise Violation('%s: Expires %r, Cache-Control %r' % (w, r.getall('expires'), cc))
            if base == 'modification':
                lo, hi = max(now0 - ages[f] + secs, now0 - 1), max(now0 - ages[f] + secs, now1 + 1)
            else:
                lo, hi = now0 - 1 + secs, now1 + 1 + secs
            try:
                t = email.utils.parsedate_to_datetime(ex).timestamp()
                age = int(cc[0][len(pre) + 8:])
            except (ValueError, TypeError, OverflowError):
                raise Violation('%s: Expires %r, Cache-Control %r' % (w, ex, cc))
            if not lo <= t <= hi:
                raise Violation('%s: Expires %r is %d s from now, expected %d..%d' % (w, ex, t - now0, lo - now0, hi - now0))
            if not t - now1 - 1 <= age <= t - now0 + 1:
                raise Violation('%s: max-age %d, but Expires %d s from now' % (w, age, t - now0))
            rec.label('expired' if t <= now1 else 'fresh')


class Index(PerConf):
    NAME = 'index'
    N_QUICK = 200
    N_THOROUGH = 5000
    SECS_QUICK = 40

    def strategy(self):
        fn = st.sampled_from(['index.html', 'index.php', 'a', 'b.txt', 'x.php', 'sub/i', 'f.txt'])
        dn = st.sampled_from(['d', 'd/e', 'q.php', 'index.html'])
        ent = st.one_of(fn.map(lambda f: ['f', f]), st.tuples(dn, fn).map(lambda t: ['f', t[0] + '/' + t[1]]), dn.map(lambda d: ['d', d]))
        idx = st.lists(st.sampled_from(['index.html', 'index.php', '/index.html', '/index.php', 'a', '/a', '/d/a', 'sub/i', 'none', '/none', 'x.php']), min_size=1, max_size=4)
        ex = st.lists(st.sampled_from(['.php', '.txt', 'a', '.html', 'x.php', 'index.html']), max_size=3)
        path = st.one_of(st.sampled_from(['/', '/d/', '/d', '/d/e/', '/d/e', '/none/', '/none', '/index.html', '/d/none', '/a', '/a/', '/x.php', '/d/index.html', '/q.php', '/q.php/', '/index.html/']), st.tuples(st.sampled_from(['/', '/d/', '/d/e/']), fn).map(''.join))
        return st.fixed_dictionaries({'ents': st.lists(ent, max_size=10), 'idx': st.one_of(st.none(), idx, idx), 'ex': ex, 'nofail': st.booleans(), 'async': st.booleans(), 'rq': st.lists(st.tuples(path, st.sampled_from(['GET', 'GET', 'GET', 'HEAD', 'POST'])).map(list), min_size=1, max_size=10)})

    def run(self, case, rec):
        root = os.path.join(self.scratch, 'i')
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        for kind, p in case['ents']:
            full = root + '/' + p
            try:
                if kind == 'd':
                    os.makedirs(full, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    if not os.path.lexists(full):
                        with open(full, 'w') as f:
                            f.write('content of /' + p)
            except OSError:
                pass
        conf = 'setup { listen "unix:%SOCK%"; }\nkeepalive.requests 1000;\n' + 'docroot "%s";\n' % root
        if case['ex']:
            conf += 'static.exclude_extensions [%s];\n' % ', '.join(cstr(x) for x in case['ex'])
        if not case['async']:
            conf += 'stat.async false;\n'
        if case['idx']:
            conf += 'index [%s];\n' % ', '.join(cstr(x) for x in case['idx'])
        if case['nofail']:
            conf += 'static_no_fail;\nif !req.is_handled { respond 299 => "%{req.path}|%{phys.path}"; }\n'
        out = self.serve(conf, [req(m, p, headers=[('Content-Length', '0')] if m == 'POST' else []) for p, m in case['rq']], [m for _, m in case['rq']])
        for (path, method), r in zip(case['rq'], out):
            self.judge(case, root, path, method, r, rec)

    def judge(self, case, root, path, method, r, rec):
        w = '%s %s, index %r, excluded %r, files %r' % (method, path, case['idx'], case['ex'], [p for _, p in case['ents']])
        phys, url = root + path, path
        isdir = os.path.isdir(phys)
        if not os.path.isfile(phys):
            for name in case['idx'] or []:
                if name.startswith('/'):
                    cand, curl = root + name, name
                else:
                    if not isdir:
                        continue
                    if not path.endswith('/'):
                        if r.status != 301 or urlsplit(r.get('location') or '').path != path + '/':
                            raise Violation('%s: expected a redirect to the directory, got %d %r' % (w, r.status, r.get('location')))
                        rec.label('redirect')
                        rec.nt(True)
                        return
                    cand, curl = phys + name, path + name
                rec.nt(True)
                if os.path.exists(cand):
                    phys, url = cand, curl
                    break
        exp, body, miss = None, None, False
        if method == 'POST':
            exp, miss = 405, True
        elif phys.endswith('/'):
            exp = 404
            miss = True
        elif any(os.path.basename(phys).endswith(x) for x in case['ex']):
            exp, miss = 403, True
        elif os.path.isdir(phys):
            exp, miss = 404, True
        elif os.path.isfile(phys):
            exp = 200
            with open(phys, 'rb') as f:
                body = f.read()
        else:
            exp, miss = 404, True
        if case['nofail'] and miss:
            if r.status != 299 or (method != 'HEAD' and r.body.decode() != url + '|' + phys):
                raise Violation('%s: static_no_fail had to leave the request alone, got %d %r' % (w, r.status, r.body[:80]))
            rec.label('left alone')
            return
        if exp == 404 and path.endswith('/') and r.status == 403:
            exp = 403
        if r.status != exp or (body is not None and method == 'GET' and r.body != body):
            raise Violation('%s: status %d %r, expected %d %r' % (w, r.status, r.body[:60], exp, body))
        rec.label(str(exp))


class RespBackend(Backend):
    def handle(self, c):
        r = Reader(c)
        while True:
            head = r.until(b'\r\n\r\n')
            i = int(head.split(b'/', 1)[1].split(b' ')[0])
            c.sendall(self.resp[i])


NAMES = ['X-A', 'x-a', 'X-B', 'X-Powered-By', 'Set-Cookie', 'X-Long-Name-Header', 'Content-Type', 'Vary', 'Server']


class Edit(PerConf):
    NAME = 'edit'
    N_QUICK = 150
    N_THOROUGH = 4000
    SECS_QUICK = 40

    def strategy(self):
        n = st.sampled_from(NAMES)
        v = st.sampled_from(['1', 'a, b', 'x y', 'q=1; path=/', 'text/html', 'long ' * 30 + 'e', '"q"', 'gzip'])
        op = st.one_of(st.tuples(st.sampled_from(['add', 'append', 'overwrite']), n, v), st.tuples(st.just('remove'), n), st.tuples(st.just('status'), st.sampled_from([200, 201, 403, 404, 500, 418])),
                       st.tuples(st.just('ifh'), n, v, st.sampled_from(['==', '!=', '=^']), st.tuples(st.sampled_from(['add', 'overwrite']), n, v).map(list)), st.tuples(st.just('ifs'), st.sampled_from([200, 404, 201]), st.tuples(st.just('add'), n, v).map(list))).map(list)
        resp = st.fixed_dictionaries({'s': st.sampled_from([200, 200, 200, 404, 500, 201, 403]), 'h': st.lists(st.tuples(n, v).map(list), max_size=5), 'b': st.sampled_from(['', 'body', 'y' * 3000])})
        return st.fixed_dictionaries({'ops': st.lists(op, min_size=1, max_size=7), 'resp': st.lists(resp, min_size=1, max_size=4), 'direct': st.sampled_from([False, False, True])})

    def setup(self):
        super().setup()
        self.be = RespBackend(path=self.scratch + '/be')

    def teardown(self):
        self.be.stop()

    def conf_of(self, o):
        if o[0] in ('add', 'append', 'overwrite'):
            return 'header.%s %s => %s;' % (o[0], cstr(o[1]), cstr(o[2]))
        if o[0] == 'remove':
            return 'header.remove %s;' % cstr(o[1])
        if o[0] == 'status':
            return 'set_status %d;' % o[1]
        if o[0] == 'ifh':
            return 'if resp.header[%s] %s %s { %s }' % (cstr(o[1]), o[3], cstr(o[2]), self.conf_of(o[4]))
        return 'if resp.status == %d { %s }' % (o[1], self.conf_of(o[2]))

    def model(self, o, m, s, rec):
        def idx(k):
            return [i for i, e in enumerate(m) if e[0].lower() == k.lower()]
        if o[0] in ('add', 'append', 'overwrite'):
            ix = idx(o[1])
            rec.nt(bool(ix))
            if o[0] == 'add' or not ix:
                m.append((o[1], o[2]))
            elif o[0] == 'append':
                m[ix[-1]] = (m[ix[-1]][0], m[ix[-1]][1] + ', ' + o[2])
            else:
                m[ix[-1]] = (m[ix[-1]][0], o[2])
        elif o[0] == 'remove':
            rec.nt(bool(idx(o[1])))
            m[:] = [e for e in m if e[0].lower() != o[1].lower()]
        elif o[0] == 'status':
            return o[1]
        elif o[0] == 'ifh':
            val = ', '.join(m[i][1] for i in idx(o[1]))
            if {'==': val == o[2], '!=': val != o[2], '=^': val.startswith(o[2])}[o[3]]:
                return self.model(o[4], m, s, rec)
        elif s == o[1]:
            return self.model(o[2], m, s, rec)
        return s

    def run(self, case, rec):
        R = case['resp']
        self.be.resp = [('HTTP/1.1 %d X\r\n' % r['s'] + ''.join('%s: %s\r\n' % (k, v) for k, v in r['h']) + 'Content-Length: %d\r\n\r\n' % len(r['b']) + r['b']).encode() for r in R]
        conf = 'setup { module_load "mod_proxy"; listen "unix:%SOCK%"; }\nkeepalive.requests 1000;\nserver.tag "";\n'
        if case['direct']:
            for i, r in enumerate(R):
                conf += 'if req.path == "/%d" { respond %d => %s; %s }\n' % (i, r['s'], cstr(r['b']), ' '.join('header.add %s => %s;' % (cstr(k), cstr(v)) for k, v in r['h']))
        else:
            conf += 'proxy "unix:%s/be";\n' % self.scratch
        conf += 'if resp.status >= 0 { %s }\n' % ' '.join(self.conf_of(o) for o in case['ops'])
        rs = self.serve(conf, [req('GET', '/%d' % i) for i in range(len(R))])
        for r, exp in zip(rs, R):
            m, s = ([('Content-Type', 'text/plain')] if case['direct'] else []) + [(k, v) for k, v in exp['h']], exp['s']
            for o in case['ops']:
                s = self.model(o, m, s, rec)
            w = 'response %r with edits %r' % (exp, case['ops'])
            if r.status != s:
                raise Violation('%s: status %d, expected %d' % (w, r.status, s))
            names = {k.lower() for k in NAMES}
            for k in names:
                want = [v for kk, v in m if kk.lower() == k]
                got = [v for kk, v in r.headers if kk.lower() == k]
                if k == 'content-type' and not want and (case['direct'] or not exp['b']):
                    continue    # generated pages
                if k == 'content-type' and not exp['b'] and s >= 400:
                    continue
                if k == 'server' and not want:
                    continue
                if got != want:
                    raise Violation('%s: header %s is %r, expected %r' % (w, k, got, want))
            if r.body != exp['b'].encode() and (exp['b'] or s < 400):
                raise Violation('%s: body %r' % (w, r.body[:60]))
            rec.label('edited')


SUBS = [Mime, Expire, Index, Edit]

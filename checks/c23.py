"""C23: directory listings (dirlist): exactly the visible entries, working links, no injection, redirects to the directory."""
import html.parser
import os
import shutil
from urllib.parse import quote_from_bytes, unquote_to_bytes, urljoin, urlsplit

from hypothesis import strategies as st

from checks.c12 import PerConf, cstr
from lib.e2e import l1, lat, req
from lib.server import Violation

RULE = ('listing: generated directory trees (names with any bytes incl. markup, quotes, %, :, #, ?, spaces; dot and tilde files, sub-directories, dangling links, HEADER.txt / README.txt as files or directories) x generated dirlist options, with the stat cache '
        'on and off: GET and HEAD of every directory with and without the final slash, and the listed links followed; non-trivial: some entry is hidden or a name needs escaping')

PIECES = ['a', 'b', 'file', '.txt', '.bak', '~', '.', ' ', '%', '%41', '%2f', '<', '>', '"', "'", '&', '&amp;', '&lt', ':', '#', '?', '=', '+', ';', ',', '\\', '<b>', '"><i>x', "'><x>", '\xe9', '\xc3\xa9', '\xff', 'ä'.encode().decode('latin-1'), '\n', '\t',
          '*', '$1', '[', ']', '{', '|', '^', '`', '@', '!', '(', 'README', 'HEADER', '-', '_', 'mailto:', 'http:', 'javascript:', 'Z', '0', '<!--', 'a' * 40]


def name_s():
    free = st.lists(st.sampled_from(PIECES), min_size=1, max_size=5).map(''.join)
    return st.one_of(free, free, st.sampled_from(['HEADER.txt', 'README.txt', '.hidden', 'x~', 'a.bak', 'b.tmp', 'index.html', 'pre_x', '~', '..x', 'HEADER.txt~', 'XHEADER.txt', 'README.txt.bak', 'header.txt', '.HEADER.txt'])).filter(lambda s: s not in ('.', '..') and len(s) < 200)


class Listing(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags = []
        self.rows = []
        self.row = None
        self.cell = None
        self.stack = []
        self.title = ''
        self.h2 = ''
        self.pre = []
        self.links = []

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, dict(attrs)))
        d = dict(attrs)
        if tag == 'tr':
            self.row = {'href': None, 'text': '', 'cells': [], 'hrefs': 0}
            self.rows.append(self.row)
        elif tag in ('td', 'th') and self.row is not None:
            self.row['cells'].append([d, ''])
        elif tag == 'a' and self.row is not None:
            self.row['href'] = d.get('href')
            self.row['hrefs'] += 1
        elif tag == 'link':
            self.links.append(d)
        elif tag == 'pre':
            self.pre.append('')
        if tag not in ('link', 'meta', 'br', 'hr', 'img', 'input'):
            self.stack.append(tag)

    def handle_endtag(self, tag):
        if tag in self.stack:
            while self.stack.pop() != tag:
                pass
        if tag == 'tr':
            self.row = None

    def handle_data(self, data):
        if 'pre' in self.stack:
            self.pre[-1] += data
        elif 'title' in self.stack:
            self.title += data
        elif 'h2' in self.stack:
            self.h2 += data
        elif self.row is not None and self.row['cells']:
            self.row['cells'][-1][1] += data
            if 'a' in self.stack:
                self.row['text'] += data


BAD_TAGS = {'b', 'i', 'x', 'img', 'svg', 'iframe', 'u'}


class Dirlist(PerConf):
    NAME = 'listing'
    N_QUICK = 170
    N_THOROUGH = 4000
    SECS_QUICK = 45

    def strategy(self):
        content = st.one_of(st.sampled_from(['', 'x', 'hello <b>world</b> & "co"\n', '<i>&amp;']), st.integers(0, 3000).map(lambda n: 'y' * n), st.sampled_from([1023, 1024, 1025, 1048576, 70000]).map(lambda n: 'z' * n))
        ent = st.tuples(name_s(), st.sampled_from(['f', 'f', 'f', 'f', 'd', 'dl', 'lf', 'ld']), content).map(list)
        ents = st.lists(ent, max_size=9, unique_by=lambda e: e[0])
        hdr = st.sampled_from([None, None, ['f', 'Head <b>1</b> & text\n'], ['f', 'H' * 3000], ['d', ''], ['p', ''], ['f', 'big' * 30000], ['f', '']])
        d = st.fixed_dictionaries({'name': name_s(), 'ents': ents, 'h': hdr, 'r': hdr})
        b = st.sampled_from([None, None, True, False])
        opts = st.fixed_dictionaries({
            'hide-dotfiles': b, 'hide-tildefiles': b, 'hide-directories': b, 'include-header': b, 'hide-header': b, 'encode-header': b, 'include-readme': b, 'hide-readme': b, 'encode-readme': b, 'debug': st.sampled_from([None, None, None, True]),
            'exclude-suffix': st.one_of(st.none(), st.none(), st.lists(st.sampled_from(['.bak', '.txt', '~', 'x', 'a', '.', 'file.txt']), max_size=3)),
            'exclude-prefix': st.one_of(st.none(), st.none(), st.lists(st.sampled_from(['a', '.', 'file', 'pre_', 'README', 'HEADER.txt', '<']), max_size=3)),
            'css': st.one_of(st.none(), st.none(), st.just('/style.css')), 'content-type': st.one_of(st.none(), st.none(), st.just('text/html'))})
        return st.fixed_dictionaries({'o': opts, 'ttl': st.sampled_from([None, None, None, 0, 1]), 'dirs': st.lists(d, min_size=1, max_size=3, unique_by=lambda x: x['name']), 'nest': st.booleans(), 'miss': st.lists(st.sampled_from(['/.loop~', '/.loop~/', '/.loop~/x/', '/none/', '/none', '/.loop~/../none/', '/' + 'n' * 300 + '/']), max_size=2), 'q': st.sampled_from(['', '', '?a=b&c', '?x=%3c<b>']), 'noopt': st.sampled_from([False, False, False, True])})

    def build(self, root, d):
        """creates the directory; the model: name -> (kind, size, content)"""
        os.makedirs(root)
        m = {}
        ents = list(d['ents'])
        for n, spec in (('HEADER.txt', d['h']), ('README.txt', d['r'])):
            if spec is not None:
                ents = [e for e in ents if e[0] != n] + [[n, spec[0], spec[1]]]
        for n, kind, content in ents:
            p = os.path.join(root, l1(n))
            if kind == 'f':
                if content and n in ('HEADER.txt', 'README.txt'):
                    content = '[[%s:' % n + content + ':%s]]' % n
                with open(p, 'wb') as f:
                    f.write(l1(content))
                m[n] = ('f', len(content), content)
            elif kind == 'd':
                os.mkdir(p)
                m[n] = ('d', 0, None)
            elif kind == 'p':
                os.mkfifo(p)
                m[n] = ('p', 0, None)
            elif kind == 'dl':
                os.symlink(b'/nonexistent/x', p)
            elif kind == 'lf':
                os.symlink(self.tgt.encode() + b'/file', p)
                m[n] = ('f', 6, 'target')
            else:
                os.symlink(self.tgt.encode() + b'/dir', p)
                m[n] = ('d', 0, None)
        return m

    def run(self, case, rec):
        base = os.path.join(self.scratch, 't')
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + '/tgt/dir')
        self.tgt = base + '/tgt'
        with open(base + '/tgt/file', 'w') as f:
            f.write('target')
        root = (base + '/root').encode()
        os.mkdir(root)
        os.symlink(b'.loop~', root + b'/.loop~')
        models = {}
        cur, url = root, b'/'
        top = {}
        for d in case['dirs']:
            n = l1(d['name'])
            p = cur + b'/' + n
            if os.path.lexists(p):
                return
            m = self.build(p, d)
            models.setdefault(url, {})[d['name']] = ('d', 0, None)
            models.setdefault(url + n + b'/', {}).update(m)
            if case['nest']:
                cur, url = p, url + n + b'/'
        self.listing(case, rec, root.decode(), models)

    def expect_hidden(self, o, n, kind):
        g = lambda k, dflt: dflt if o.get(k) is None else o[k]
        if g('hide-dotfiles', True) and n.startswith('.'):
            return True
        if g('hide-tildefiles', True) and n.endswith('~'):
            return True
        if kind == 'd' and g('hide-directories', False):
            return True
        if any(n.endswith(s) for s in g('exclude-suffix', [])) or any(n.startswith(s) for s in g('exclude-prefix', [])):
            return True
        if kind != 'd' and n == 'HEADER.txt' and g('hide-header', False):
            return True
        return kind != 'd' and n == 'README.txt' and g('hide-readme', False)

    def listing(self, case, rec, root, models):
        o = {} if case['noopt'] else case['o']
        kv = []
        for k, v in o.items():
            if v is None:
                continue
            if isinstance(v, bool):
                kv.append('"%s" => %s' % (k, 'true' if v else 'false'))
            elif isinstance(v, list):
                kv.append('"%s" => [%s]' % (k, ', '.join(cstr(x) for x in v)))
            else:
                kv.append('"%s" => %s' % (k, cstr(v)))
        conf = 'setup { module_load "mod_dirlist"; listen "unix:%SOCK%"; ' + ('' if case['ttl'] is None else 'stat_cache.ttl %d; ' % case['ttl']) + '}\n'
        conf += 'keepalive.requests 10000;\nmime_types [ ".txt" => "text/plain", "file" => "text/x-file" ];\netag.use [[]];\ndocroot "%s";\n' % root
        conf += 'dirlist%s;\n' % (' [%s]' % ', '.join(kv) if kv else '')
        reqs, what = [], []

        def ask(kind, url, *ctx):
            raw = url.replace(b'/', b'/')
            target = quote_from_bytes(raw, safe='/')
            reqs.append(req('HEAD' if kind == 'head' else 'GET', target + (case['q'].replace('<', '%3c').replace('>', '%3e') if kind in ('list', 'redir') else ''), host='h.test'))
            what.append((kind, url) + ctx)
        for url, m in models.items():
            ctl = any(ch < 32 or ch == 127 for ch in url)
            if ctl:
                continue
            ask('list', url, m)
            if url != b'/':
                ask('redir', url[:-1])
        for t in case['miss']:
            reqs.append(req('GET', t, host='h.test'))
            what.append(('miss', l1(t)))
        gets = self.serve(conf, reqs)
        follow = []
        for (kind, url, *ctx), r in zip(what, gets):
            w = 'GET %r' % url
            if kind == 'miss':
                if r.status not in (403, 404, 500):
                    raise Violation('%s: there is nothing to list, got %d' % (w, r.status))
                continue
            if kind == 'redir':
                if r.status != 301:
                    raise Violation('%s: directory without final slash gave %d' % (w, r.status))
                loc = r.get('location') or ''
                u = urlsplit(loc)
                if (u.scheme, u.netloc) != ('http', 'h.test') or unquote_to_bytes(u.path) != url + b'/' or u.fragment or '?' + u.query != (case['q'].replace('<', '%3c').replace('>', '%3e') or '?'):
                    raise Violation('%s%s: redirected to %r' % (w, case['q'], loc))
                if any(ch in loc for ch in ' <>"\n'):
                    raise Violation('%s: Location %r is not a valid URL' % (w, loc))
                rec.label('redirect')
                continue
            self.judge(o, url, ctx[0], r, rec, follow)
        # the links work
        reqs, what = [], []
        for url, href, n, ent in follow[:12]:
            if any(ch < 32 or ch == 127 for ch in url + l1(n)):
                continue
            u = urlsplit(urljoin('http://h.test' + quote_from_bytes(url, safe='/'), href))
            if u.scheme != 'http' or u.netloc != 'h.test' or u.query or u.fragment:
                raise Violation('the link %r of entry %r leads to %r' % (href, n, u.geturl()))
            reqs.append(req('GET', u.path, host='h.test'))
            what.append((href, n, ent))
        if reqs:
            for (href, n, ent), r in zip(what, self.serve(conf, reqs)):
                if r.status != 200 or (ent[0] == 'f' and r.body != l1(ent[2])):
                    raise Violation('following the link %r of entry %r gave %d, %d bytes' % (href, n, r.status, len(r.body)))

    def judge(self, o, url, m, r, rec, follow):
        w = 'listing of %r with %r' % (url, {k: v for k, v in o.items() if v is not None})
        if r.status != 200:
            raise Violation('%s: status %d' % (w, r.status))
        ct = r.get('content-type')
        if ct != (o.get('content-type') or 'text/html; charset=utf-8'):
            raise Violation('%s: Content-Type %r' % (w, ct))
        body = r.body.decode('latin-1')
        g = lambda k, dflt: dflt if o.get(k) is None else o[k]
        texts = []
        for n, k, inc in (('HEADER.txt', 'header', False), ('README.txt', 'readme', True)):
            e = m.get(n)
            if not g('include-' + k, inc) or e is None or e[0] != 'f':
                continue
            if e[1] > 64 * 1024:
                continue
            if g('encode-' + k, True):
                texts.append(e[2])
            elif e[2]:
                if e[2] not in body:
                    raise Violation('%s: %s is not included' % (w, n))
                body = body.replace(e[2], '', 1)
        p = Listing()
        p.feed(body)
        p.close()
        bad = [t for t, _ in p.tags if t in BAD_TAGS] or [a for _, a in p.tags if any(k.startswith(('x', 'on')) and k != 'onclick' for k in a)]
        if bad:
            raise Violation('%s: a name reached the page as markup: %r' % (w, bad[:3]))
        norm = lambda s: s.replace('\r\n', '\n').replace('\r', '\n')
        if [norm(t) for t in p.pre] != [norm(t) for t in texts]:
            raise Violation('%s: included texts %r, expected %r' % (w, [t[:60] for t in p.pre], [t[:60] for t in texts]))
        path = url.decode('latin-1')
        if p.title.strip() != ('Index of ' + path).strip() or p.h2.strip() != ('Index of ' + path).strip():
            raise Violation('%s: title %r, heading %r' % (w, p.title[:80], p.h2[:80]))
        css = [d.get('href') for d in p.links]
        if css != ([o['css']] if o.get('css') else []):
            raise Violation('%s: stylesheets %r' % (w, css))
        exp = {n: e for n, e in m.items() if not self.expect_hidden(o, n, e[0])}
        rec.nt(len(exp) < len(m) or any(ch in n for n in exp for ch in '<>"&%:#? \'') or any(chr(c) in path for c in b'<>"&%:#? '))
        seen = {}
        parents = 0
        for row in p.rows:
            if row['href'] is None:
                continue
            if row['href'] == '../':
                parents += 1
                continue
            n = row['text']
            if row['hrefs'] != 1 or n in seen:
                raise Violation('%s: entry %r listed twice' % (w, n))
            if n not in exp:
                raise Violation('%s: entry %r must not be listed' % (w, n))
            e = exp[n]
            seen[n] = row
            u = urlsplit(urljoin('http://h.test' + quote_from_bytes(url, safe='/'), row['href']))
            if unquote_to_bytes(u.path) != url + l1(n) + (b'/' if e[0] == 'd' else b'') or u.scheme != 'http' or u.netloc != 'h.test':
                raise Violation('%s: the link %r of entry %r leads to %r' % (w, row['href'], n, u.geturl()))
            size = [c for c in row['cells'] if c[0].get('class') == 'size']
            if e[0] == 'f':
                if not size or size[0][0].get('val') != str(e[1]):
                    raise Violation('%s: entry %r has %d bytes, listed as %r' % (w, n, e[1], size))
                self.size_text(w, n, e[1], size[0][1])
                typ = [c for c in row['cells'] if c[0].get('class') == 'type']
                t = 'text/plain' if n.endswith('.txt') else 'text/x-file' if n.endswith('file') else 'application/octet-stream'
                if not typ or typ[0][1] != t:
                    raise Violation('%s: entry %r has type %s, listed as %r' % (w, n, t, typ))
            if len(follow) < 40 and e[0] != 'p':
                follow.append((url, row['href'], n, e))
        if set(seen) != set(exp):
            raise Violation('%s: entries %r are missing' % (w, sorted(set(exp) - set(seen))[:5]))
        if parents != (0 if url == b'/' else 1):
            raise Violation('%s: %d links to the parent directory' % (w, parents))
        rec.label('listed %s' % ('0' if not exp else '1-5' if len(exp) < 6 else '6+'))

    def size_text(self, w, n, size, text):
        try:
            v = float(text[:-1]) * 1024 ** 'BKMGTPE'.index(text[-1:])
        except ValueError:
            raise Violation('%s: entry %r: size text %r' % (w, n, text))
        if abs(v - size) > max(0.11 * size, 0):
            raise Violation('%s: entry %r has %d bytes, shown as %r' % (w, n, size, text))


SUBS = [Dirlist]

"""Reference interpreter for the action part of the configuration language (conditions, patterns, actions).

A program is a JSON-able list of statements; render() turns it into configuration text, Machine interprets it for one request."""
import functools
import re

from hypothesis import strategies as st

from checks.c15 import clean
from checks.c16 import ref_decode, ref_simplify

MAXU = 2 ** 32 - 1
URI_SAFE = set("!()*-./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz")
PCHAR = r"(?:[A-Za-z0-9\-._~!$&'()*+,;=:@/]|%[0-9A-Fa-f]{2})"
RAW_OK = re.compile(r'/%s*(\?(?:%s|\?)*)?' % (PCHAR, PCHAR))


def uri_encode(s):
    return ''.join(c if c in URI_SAFE else '%%%02x' % ord(c) for c in s)


def quote(s, q='"'):
    """configuration string literal"""
    out = []
    for c in s:
        if c in '\\"\'':
            out.append('\\' + c)
        elif ord(c) < 32 or ord(c) >= 127:
            out.append('\\x%02x' % ord(c))
        else:
            out.append(c)
    return q + ''.join(out) + q


# ---------------------------------------------------------------- patterns
def pat_text(p, esc_q=True):
    """pattern string (before configuration quoting)"""
    out = []
    for x in p:
        k = x[0]
        if k == 's':
            out.append(''.join('\\' + c if c in '$%\\' or (c == '?' and esc_q) else c for c in x[1]))
        elif k == 'q':
            out.append('?')
        elif k == 'dir':
            out.append('%DIR%/www' + x[1])
        elif k in '$%' and len(x) == 2:
            out.append('%s%d' % (k, x[1]))
        elif k in '$%':
            a, b = x[1], x[2]
            if a is not None and a == b and x[3]:
                out.append('%s[%d]' % (k, a))
            else:
                out.append('%s[%s-%s]' % (k, '' if a is None else a, '' if b is None else b))
        else:
            out.append('%%{%s%s%s}' % ('enc:' if x[3] else '', x[1], '[%s]' % x[2] if x[2] else ''))
    return ''.join(out)


def labels(host, frm, to):
    """labels of a host name, numbered from the top level; the range is read in reverse order"""
    frm = MAXU if frm is None else frm
    to = MAXU if to is None else to
    if frm == 0 or to == 0:
        return host
    ls = host.split('.')
    n = len(ls)
    if n > 31 or min(frm, to) > n or any(n < i < MAXU for i in (frm, to)) or '' in ls:
        raise Unknown
    frm, to = min(frm, n), min(to, n)
    return '.'.join(ls[n - i] for i in (range(to, frm - 1, -1) if frm <= to else range(to, frm + 1)))


def captures(m, frm, to):
    if m is None:
        return ''
    frm = MAXU if frm is None else frm
    to = MAXU if to is None else to
    n = m.re.groups
    if frm <= to:
        ix = range(frm, min(to, n) + 1)
    else:
        ix = range(min(frm, n), to - 1, -1)
    return ''.join(m.group(i) or '' for i in ix)


# ---------------------------------------------------------------- rendering
def render_cond(c):
    k = c[0]
    if k == 'chain':
        out = render_cond(c[1][0])
        for op, x in c[1][1:]:
            out += ' %s %s' % (op, render_cond(x))
        return out
    if k == 'par':
        return '(' + render_cond(c[1]) + ')'
    if k == 'not':
        return '%s%s' % (c[2], render_cond(c[1]))
    if k == 'bool':
        return c[1]
    var = c[1] + ('["%s"]' % c[2] if c[2] else '')
    return '%s %s %s' % (var, c[3], c[4] if isinstance(c[4], int) else quote(c[4]))


def render(prog, ind=''):
    out = []
    for s in prog:
        k = s[0]
        if k == 'if':
            t = 'if %s {\n%s%s}' % (render_cond(s[1]), render(s[2], ind + '  '), ind)
            if s[3] is not None:
                if len(s[3]) == 1 and s[3][0][0] == 'if' and s[4]:
                    t += ' else ' + render(s[3], ind).strip()
                else:
                    t += ' else {\n%s%s}' % (render(s[3], ind + '  '), ind)
        elif k == 'hdr':
            t = '%s %s => %s;' % (s[1], quote(s[2]), quote(pat_text(s[3])))
        elif k == 'hdrrem':
            t = '%s %s;' % (s[1], quote(s[2]))
        elif k == 'env':
            t = '%s %s => %s;' % (s[1], quote(s[2]), quote(pat_text(s[3])))
        elif k == 'envrem':
            t = 'env.remove %s;' % quote(s[1])
        elif k == 'envclear':
            t = 'env.clear;'
        elif k in ('rewrite', 'rewrite_raw', 'redirect'):
            esc = k != 'redirect'

            def rule(r):
                tgt = (r[2] if len(r) > 2 else '') + pat_text(r[1], esc)
                return quote(tgt) if r[0] is None else '%s => %s' % (quote(r[0]), quote(tgt))
            if len(s[1]) == 1:
                t = '%s %s;' % (k, rule(s[1][0]))
            else:
                t = '%s [ %s ];' % (k, ', '.join(rule(r) for r in s[1]))
        elif k == 'respond':
            t = 'respond %s;' % ('%d => %s' % (s[1], quote(pat_text(s[2]))) if s[2] is not None else s[1])
        elif k == 'status':
            t = 'set_status %d;' % s[1]
        elif k == 'map':
            def key(ks):
                return 'default' if ks is None else quote(ks[0]) if len(ks) == 1 else '[' + ', '.join(quote(x) for x in ks) + ']'
            t = 'map %s => [\n%s%s];' % (quote(pat_text(s[1])), ''.join('%s  %s => {\n%s%s  },\n' % (ind, key(ks), render(b, ind + '    '), ind) for ks, b in s[2]), ind)
        elif k == 'def':
            t = '%s = {\n%s%s};' % (s[1], render(s[2], ind + '  '), ind)
        elif k == 'call':
            t = s[1] + ';'
        elif k == 'list':
            t = 'list [\n%s%s];' % (''.join('%s  {\n%s%s  },\n' % (ind, render(b, ind + '    '), ind) for b in s[1]), ind)
        elif k == 'docroot':
            ds = [quote(pat_text(x, False)) for x in s[1]]
            t = 'docroot %s;' % (ds[0] if len(ds) == 1 else '[' + ', '.join(ds) + ']')
        elif k == 'alias':
            t = 'alias %s;' % ('%s => %s' % (quote(s[1][0][0]), quote(pat_text(s[1][0][1], False))) if len(s[1]) == 1 else '[ ' + ', '.join('%s => %s' % (quote(a), quote(pat_text(b, False))) for a, b in s[1]) + ' ]')
        else:
            raise AssertionError(k)
        out.append(ind + t + '\n')
    return ''.join(out)


# ---------------------------------------------------------------- interpretation
class Unknown(Exception):
    """the outcome for this request is not specified"""


class Machine:
    def __init__(self, rq, defs, tree=None, root='', async_stat=False):
        self.async_stat = async_stat
        self.method = rq['m']
        self.host = rq['h'].lower().split(':')[0]
        self.authority = rq['h'].lower()
        self.raw_path = rq['p'] + ('?' + rq['q'] if rq['q'] is not None else '')
        self.path = ref_simplify(ref_decode(rq['p']))
        self.query = rq['q'] or ''
        self.length = rq.get('len')
        self.headers = [('Host', rq['h'])] + [tuple(x) for x in rq['hs']]
        self.env = {}
        self.resp = []
        self.status = 0
        self.handled = False
        self.body = None
        self.stack = []
        self.defs = dict(defs)
        self.tree = tree or {}
        self.root = root
        self.phys = ''
        self.docroot = ''
        self.steps = 0

    # variables
    def allof(self, hs, key):
        vs = [v for k, v in hs if k.lower() == key.lower()]
        while vs and vs[0] == '':
            vs = vs[1:]
        return ', '.join(vs)

    def var(self, name, key):
        name = name.replace('request.', 'req.').replace('physical.', 'phys.').replace('response.', 'resp.')
        if name == 'req.path':
            return self.path
        if name == 'req.raw_path':
            return self.raw_path
        if name == 'req.host':
            return self.host
        if name == 'req.scheme':
            return 'http'
        if name == 'req.query':
            return self.query
        if name == 'req.method':
            return self.method
        if name == 'req.length':
            if self.length is None:
                raise Unknown
            return self.length
        if name == 'req.header':
            return self.allof(self.headers, key)
        if name in ('req.env', 'req.environment'):
            return self.env.get(key, '')
        if name == 'req.is_handled':
            return self.handled
        if name in ('req.localport', 'req.remoteport'):
            return -1
        if name == 'phys.path':
            return self.phys
        if name == 'phys.docroot':
            return self.docroot
        if name == 'phys.pathinfo':
            return ''
        if name in ('phys.exists', 'phys.is_file', 'phys.is_dir', 'phys.size'):
            e = self.lookup(self.phys)
            if name == 'phys.size':
                if e == 'd':
                    raise Unknown
                return -1 if e is None else e
            return False if e is None else True if name == 'phys.exists' else (e == 'd') == (name == 'phys.is_dir')
        if name == 'resp.status':
            if not self.handled:
                raise Unknown
            return self.status
        if name == 'resp.header':
            if not self.handled:
                raise Unknown
            return self.allof(self.resp, key)
        raise AssertionError(name)

    def lookup(self, p):
        """entry of the file tree: None, 'd' or the size"""
        if p == '':
            return None
        if not p.startswith(self.root) or p[len(self.root):][:1] not in ('', '/'):
            raise Unknown
        rel = p[len(self.root):]
        segs = [s for s in rel.split('/') if s]
        if '.' in segs or '..' in segs or '\0' in rel:
            raise Unknown
        key = '/'.join(segs)
        e = 'd' if key == '' else self.tree.get(key)
        if e is not None and e != 'd' and rel.endswith('/'):
            return None
        return e

    def unknown(self):
        raise Unknown

    # patterns
    def ev(self, p, m=None, nth=True):
        out = []
        for x in p:
            k = x[0]
            if k == 's':
                out.append(x[1])
            elif k == 'q':
                out.append('?')
            elif k == 'dir':
                out.append(self.root + x[1])
            elif k == '$' and m == 'labels':
                a, b = (x[1], x[1]) if len(x) == 2 else (x[1], x[2])
                out.append(labels(self.host, a, b) if self.host else '')
            elif k in '$%':
                mm = (m if nth else None) if k == '$' else (self.stack[-1] if self.stack else None)
                a, b = (x[1], x[1]) if len(x) == 2 else (x[1], x[2])
                out.append(captures(mm, a, b))
            else:
                if self.async_stat and self.phys and re.fullmatch(r'phys(ical)?\.(exists|is_file|is_dir|size)', x[1]):
                    raise Unknown  # a pattern doesn't wait for the result of stat
                v = self.var(x[1], x[2])
                if isinstance(v, bool):
                    v = 'TRUE' if v else 'FALSE'
                v = str(v)
                out.append(uri_encode(v) if x[3] else v)
        return ''.join(out)

    # conditions; pushes the captures of matching regular expressions
    def cond(self, c):
        k = c[0]
        if k == 'chain':
            # 'and' binds stronger than 'or'
            groups, cur = [], [c[1][0]]
            for op, x in c[1][1:]:
                if op == 'and':
                    cur.append(x)
                else:
                    groups.append(cur)
                    cur = [x]
            groups.append(cur)
            return any(all(self.cond(x) for x in g) for g in groups)
        if k == 'par':
            return self.cond(c[1])
        if k == 'not':
            return not self.cond(c[1])
        if k == 'bool':
            return bool(self.var(c[1], None))
        v = self.var(c[1], c[2])
        op, w = c[3], c[4]
        if isinstance(w, int):
            return {'==': v == w, '!=': v != w, '<': v < w, '<=': v <= w, '>': v > w, '>=': v >= w}[op]
        if isinstance(v, bool):
            raise Unknown
        v = str(v)
        if op in ('=~', '!~'):
            m = re.search(w, v, re.S | re.A)
            if m:
                self.stack.append(m)
            return (m is not None) == (op == '=~')
        r = {'=': v == w, '^': v.startswith(w), '$': v.endswith(w)}[op[1]]
        return r if op[0] == '=' else not r

    def hset(self, hs, how, key, v):
        ix = [i for i, e in enumerate(hs) if e[0].lower() == key.lower()]
        if how == 'remove':
            hs[:] = [e for i, e in enumerate(hs) if i not in ix]
        elif how == 'add' or not ix:
            hs.append((key, clean(v)))
        elif how == 'append':
            hs[ix[-1]] = (hs[ix[-1]][0], clean(hs[ix[-1]][1] + ', ' + v))
        else:
            hs[ix[-1]] = (hs[ix[-1]][0], clean(v))

    def run(self, prog):
        for s in prog:
            self.steps += 1
            k = s[0]
            if k == 'if':
                n = len(self.stack)
                if self.cond(s[1]):
                    self.run(s[2])
                elif s[3] is not None:
                    self.run(s[3])
                del self.stack[n:]
            elif k in ('hdr', 'hdrrem'):
                hs = self.headers if s[1].startswith('req_') else self.resp
                how = s[1].split('.')[1]
                self.hset(hs, how, s[2], self.ev(s[3], nth=False) if k == 'hdr' else '')
            elif k == 'env':
                v = self.ev(s[3], nth=False)
                if s[1] == 'env.set' or s[2] not in self.env:
                    self.env[s[2]] = v
            elif k == 'envrem':
                self.env.pop(s[1], None)
            elif k == 'envclear':
                self.env = {}
            elif k == 'rewrite':
                for r in s[1]:
                    m = re.search(r[0], self.path, re.S | re.A) if r[0] is not None else None
                    if r[0] is None or m:
                        q = [i for i, x in enumerate(r[1]) if x[0] == 'q']
                        np = self.ev(r[1][:q[0]] if q else r[1], m)
                        nq = self.ev(r[1][q[0] + 1:], m) if q else None
                        if nq is not None:
                            self.query = nq
                        self.path = ref_simplify(np)
                        self.raw_path = uri_encode(self.path) + ('?' + self.query if self.query else '')
                        break
            elif k == 'rewrite_raw':
                for r in s[1]:
                    m = re.search(r[0], self.raw_path, re.S | re.A) if r[0] is not None else None
                    if r[0] is None or m:
                        v = self.ev(r[1], m)
                        if not RAW_OK.fullmatch(v):
                            raise Unknown
                        p, qm, q = v.partition('?')
                        self.raw_path = v
                        self.path = ref_simplify(ref_decode(p))
                        self.query = q
                        break
            elif k == 'redirect':
                if self.handled:
                    continue
                for r in s[1]:
                    m = re.search(r[0], self.path, re.S | re.A) if r[0] is not None else None
                    if r[0] is None or m:
                        pre = r[2] if len(r) > 2 else ''
                        t = self.ev(r[1], m)
                        base = 'http://' + self.authority
                        if pre == '/':
                            t = base + '/' + t
                        elif pre == '?':
                            t = base + self.path + '?' + t
                        elif pre == './':
                            t = base + self.path[:self.path.rindex('/') + 1] + t
                        else:
                            t = pre + t
                        self.handled = True
                        self.status = 301
                        self.hset(self.resp, 'overwrite', 'Location', t)
                        break
            elif k == 'respond':
                if self.handled:
                    continue
                self.handled = True
                self.status = s[1]
                self.body = self.ev(s[2], nth=False) if s[2] is not None else ''
            elif k == 'status':
                self.status = s[1]
            elif k == 'map':
                v = self.ev(s[1], nth=False)
                hit = dflt = None
                for ks, b in s[2]:
                    if ks is None:
                        dflt = b
                    elif v in ks:
                        hit = b
                if hit is not None:
                    self.run(hit)
                elif dflt is not None:
                    self.run(dflt)
            elif k == 'def':
                self.defs[s[1]] = s[2]
            elif k == 'call':
                self.run(self.defs[s[1]])
            elif k == 'list':
                for b in s[1]:
                    self.run(b)
            elif k == 'docroot':
                # the first existing path, or the last one
                for i, p in enumerate(s[1]):
                    d = self.ev(p, 'labels')
                    if i == len(s[1]) - 1 or self.lookup(d) is not None:
                        break
                self.docroot = d
                self.phys = d + self.path
            elif k == 'alias':
                for pre, p in s[1]:
                    q = pre[:-1] if pre.endswith('/') else pre
                    if self.path.startswith(q) and self.path[len(q):][:1] in ('', '/'):
                        self.docroot = self.ev(p, 'labels')
                        self.phys = self.docroot + self.path[len(q):]
                        break
            else:
                raise AssertionError(k)


# ---------------------------------------------------------------- generators
ATOMS = ['a', 'b', '/', '.', '1', 'ab', 'x', 'php', '-', ' ']


@st.composite
def regexes(draw, depth=2):
    """regular expressions on which PCRE and Python agree"""
    n = [0]

    def atom(d, quant):
        k = draw(st.integers(0, 9 if d > 0 and not quant and n[0] < 12 else 5))
        if k <= 2:
            return re.sub(r'([.\-/ ])', lambda m: '\\' + m.group(1) if m.group(1) == '.' else m.group(1), draw(st.sampled_from(ATOMS)))
        if k == 3:
            return '.'
        if k == 4:
            return draw(st.sampled_from(['[^/]', '[a-b]', '[0-9]', '\\d', '\\w', '[^a]', '[/.]']))
        if k == 5:
            return draw(st.sampled_from(['[^/]*', '.*', '[a-z]+', '\\d+', 'a?', '.*?', '[^/]+']))
        g = draw(st.sampled_from(['(', '(', '(', '(?:']))
        if g == '(':
            n[0] += 1
        body = alt(d - 1)
        q = draw(st.sampled_from(['', '', '', '?', '?']))
        return g + body + ')' + q

    def seq(d):
        return ''.join(atom(d, False) for _ in range(draw(st.integers(1, 3))))

    def alt(d):
        return '|'.join(seq(d) for _ in range(draw(st.sampled_from([1, 1, 1, 2]))))
    r = alt(depth)
    if '|' not in r:
        if draw(st.booleans()):
            r = '^/' + r if draw(st.booleans()) else '^' + r
        if draw(st.integers(0, 3)) == 0:
            r += '$'
    return r


PATHS = ['/', '/a', '/ab', '/ab/a', '/a/b', '/a/b/', '/x.php', '/a/x.php', '/1', '/a/1/b', '/ab-1', '/f', '/d/f1', '/d', '/d/', '/b/a.b/x', '/a%20b', '/a%2fb', '/%61/../b', '//a', '/a/./b', '/a+b', '/b%3fc', '/a%25', '/xy', '/%c3%a4', '/a:b', '/a/b/1.php']
QUERIES = [None, None, None, '', 'a', 'a=1', 'x=/../y', 'a=1&b=%20', 'q?x', '%2e', 'php']
HOSTS = ['a.test', 'b.a.test', 'A.TEST', 'x', 'a.test:80', '1.2.3.4']
HVALS = ['', 'a', 'ab', 'a/b', 'a b', '1', '-1', 'x.php', '$1', '%1', '\\', 'a,b', '\xe4']
ENVS = ['E1', 'E2', 'e1']
HN = ['X-A', 'x-a', 'X-B', 'X-AB']


def texts(extra=''):
    return st.one_of(st.sampled_from(['a', '/', 'x-', '.', 'b/', '?', '$', '%', '\\', '%{', '$1', ' ', 'php', '"', "'", '=', '\xe4', '&', '//', '/../', '0', '-', '[', ']', '}']), st.text(alphabet='ab/.1-$%?\\' + extra, max_size=5))


@functools.lru_cache(None)
def patterns(nth=True, resp=False, maxlen=5):
    num = st.sampled_from([0, 1, 1, 1, 2, 2, 3, 9])
    big = st.sampled_from([0, 1, 2, 3, 4, 12, 300])
    rng = st.tuples(st.one_of(big, st.none()), st.one_of(big, st.none()), st.booleans()).filter(lambda t: t[0] is not None or t[1] is not None).map(list)
    var = st.one_of(st.sampled_from(['req.path', 'request.path', 'req.raw_path', 'req.host', 'req.query', 'request.query', 'req.scheme', 'req.method', 'req.is_handled', 'req.localport', 'phys.path', 'phys.docroot', 'phys.exists', 'physical.is_file', 'phys.size']).map(lambda n: [n, None]),
                    st.sampled_from(HN + ['Host', 'X-None']).map(lambda k: ['req.header', k]), st.sampled_from(ENVS).map(lambda k: ['req.env', k]), st.sampled_from(ENVS).map(lambda k: ['request.environment', k]))
    sig = ['$', '%'] if nth else ['%']
    part = st.one_of(texts().map(lambda t: ['s', t]), texts().map(lambda t: ['s', t]), st.tuples(st.sampled_from(sig), num).map(list), st.tuples(st.sampled_from(sig), rng).map(lambda t: [t[0]] + t[1]),
                     st.tuples(var, st.booleans()).map(lambda t: ['v'] + t[0] + [t[1]]))
    return st.lists(part, max_size=maxlen)


@functools.lru_cache(None)
def dirs():
    fixed = st.sampled_from(['', '', '/d', '/none', '/b', '/']).map(lambda d: [['dir', d]])
    rng = st.tuples(st.sampled_from([None, 0, 1, 1, 2, 2, 3]), st.sampled_from([None, 0, 1, 2, 2, 3]), st.booleans()).filter(lambda t: t[0] is not None or t[1] is not None).map(list)
    lab = st.one_of(st.sampled_from([0, 1, 1, 2, 2, 3]).map(lambda n: ['$', n]), rng.map(lambda t: ['$'] + t), st.sampled_from([0, 1, 2]).map(lambda n: ['%', n]), st.sampled_from(ENVS).map(lambda k: ['v', 'req.env', k, False]), st.just(['v', 'req.host', None, False]))
    pat = st.tuples(st.sampled_from(['/', '/d/', '/vh/', '/vh/', '/vh/x-']), st.lists(st.one_of(lab, lab, st.sampled_from(['-', '/', 'a', '$', '\\']).map(lambda t: ['s', t])), min_size=1, max_size=3)).map(lambda t: [['dir', t[0]]] + t[1])
    return st.one_of(fixed, pat, pat)


@functools.lru_cache(None)
def leaf_conditions(resp=True):
    s = st.one_of(st.sampled_from(['a', '/', '/a', 'b', '', 'php', '.php', '/ab/a', 'a.test', 'x', '1', '/x', 'GET', 'a=1', '/d/f1', '/b', 'test']), texts())
    sv = st.one_of(st.sampled_from(['req.path', 'req.path', 'request.path', 'req.raw_path', 'req.host', 'req.query', 'req.method', 'req.scheme', 'phys.path', 'phys.docroot']).map(lambda n: [n, None]),
                   st.sampled_from(HN + ['X-None', 'host']).map(lambda k: ['req.header', k]), st.sampled_from(ENVS).map(lambda k: ['req.env', k]))
    strc = st.tuples(sv, st.sampled_from(['==', '!=', '=^', '!^', '=$', '!$']), s).map(lambda t: ['cmp'] + t[0] + [t[1], t[2]])
    rex = st.tuples(sv, st.sampled_from(['=~', '=~', '=~', '!~']), regexes()).map(lambda t: ['cmp'] + t[0] + [t[1], t[2]])
    num = st.tuples(st.sampled_from(['phys.size', 'phys.size', 'req.length', 'req.remoteport']), st.sampled_from(['==', '!=', '<', '<=', '>', '>=']), st.sampled_from([-1, 0, 1, 2, 3, 10, 100, 2 ** 40])).map(lambda t: ['cmp', t[0], None, t[1], t[2]])
    boo = st.sampled_from(['req.is_handled', 'phys.exists', 'physical.exists', 'phys.is_file', 'phys.is_dir']).map(lambda n: ['bool', n])
    rs = [st.tuples(st.just('resp.status'), st.sampled_from(['==', '!=', '<', '>=']), st.sampled_from([200, 301, 404, 300])).map(lambda t: ['cmp', t[0], None, t[1], t[2]]),
          st.tuples(st.sampled_from(HN), st.sampled_from(['==', '=^', '!=']), s).map(lambda t: ['cmp', 'resp.header', t[0], t[1], t[2]])] if resp else []
    return st.one_of(strc, strc, rex, rex, rex, num, boo, *rs)


@functools.lru_cache(None)
def conditions(resp=True):
    leaf = leaf_conditions(resp)

    def ext(c):
        item = st.one_of(leaf, c.map(lambda x: ['par', x]), st.tuples(c.map(lambda x: ['par', x]), st.sampled_from(['!', 'not ', '! '])).map(lambda t: ['not', t[0], t[1]]),
                         st.tuples(leaf, st.sampled_from(['!', 'not '])).map(lambda t: ['not', t[0], t[1]]))
        return st.tuples(item, st.lists(st.tuples(st.sampled_from(['and', 'or']), item).map(list), min_size=0, max_size=3)).map(lambda t: ['chain', [t[0]] + t[1]])
    return st.one_of(leaf, ext(leaf), ext(ext(leaf)))


@functools.lru_cache(None)
def rules(raw, redirect=False):
    tgt = st.tuples(st.sampled_from(['/', '/', '/n/', '']).map(lambda s: [['s', s]] if s else []), patterns(), st.booleans(), patterns(maxlen=3))

    def mk(t):
        p = t[0] + t[1]
        if t[2] and not redirect:
            p = p + [['q']] + t[3]
        return p
    rx = regexes()
    if redirect:
        one = st.tuples(st.one_of(rx, rx, st.none()), patterns(), st.sampled_from(['/', '/', '?', './', 'http://o.test/', 'http://'])).map(list)
    else:
        one = st.tuples(st.one_of(rx, rx, st.none()), tgt.map(mk)).map(list)

    def fix(l):
        return [r for r in l if r[0] is not None] or l[:1] if len(l) > 1 else l
    return st.lists(one, min_size=1, max_size=3).map(fix)


EASY = ['^/(.)', '(.*)', '^(.)(.*)$', '(.)$', '([^.]*)([.].*)?$', '(.)(.)?(.)?', '^/([^/]*)/?(.*)$', '(a)|(b)|.', '^']


@functools.lru_cache(None)
def deep():
    """conditions with captures inside conditions with captures, and what uses the captures, before, between and after the inner ones"""
    var = st.sampled_from([['req.path', None], ['req.host', None], ['req.method', None], ['req.scheme', None], ['req.raw_path', None], ['req.header', 'Host'], ['req.query', None]])
    cond = st.tuples(var, st.sampled_from(EASY)).map(lambda t: ['cmp'] + t[0] + ['=~', t[1]])
    cond = st.one_of(cond, cond, st.tuples(cond, st.sampled_from(['and', 'or']), cond).map(lambda t: ['chain', [t[0], [t[1], t[2]]]]), cond.map(lambda c: ['not', ['par', ['not', ['par', c], '!']], '!']))
    part = st.one_of(st.sampled_from([0, 1, 1, 1, 2, 2, 3]).map(lambda n: ['%', n]), st.sampled_from(['-', 'x', '/']).map(lambda t: ['s', t]))
    pat = st.lists(part, min_size=1, max_size=4).map(lambda l: [['s', '/']] + l)
    use = st.one_of(st.tuples(st.one_of(st.none(), st.sampled_from(EASY)), pat).map(lambda t: ['rewrite', [list(t)]]), st.tuples(st.one_of(st.none(), st.sampled_from(EASY)), pat).map(lambda t: ['rewrite', [list(t)]]),
                    st.tuples(st.sampled_from(['env.set', 'env.add']), st.sampled_from(ENVS), pat).map(lambda t: ['env'] + list(t)), st.tuples(st.just('header.add'), st.sampled_from(HN), pat).map(lambda t: ['hdr'] + list(t)))
    uses = st.lists(use, max_size=2)

    def lev(inner):
        return st.tuples(cond, uses, inner, uses, st.one_of(st.none(), uses)).map(lambda t: ['if', t[0], t[1] + [t[2]] + t[3], t[4], False])
    return lev(st.one_of(use, lev(use), lev(use), lev(lev(use))))


def programs(depth=3, kinds=None, resp=True):
    kinds = kinds or ['if', 'if', 'if', 'if', 'deep', 'hdr', 'hdr', 'hdr', 'hdrrem', 'env', 'env', 'envrem', 'envclear', 'rewrite', 'rewrite_raw', 'redirect', 'respond', 'status', 'map', 'call', 'list', 'docroot']

    @functools.lru_cache(None)
    def block(d):
        return st.lists(st.deferred(lambda: stmt(d)), min_size=0, max_size=4)

    @functools.lru_cache(None)
    def stmt(d):
        alts = []
        for k in kinds:
            if k == 'if' and d > 0:
                alts.append(st.tuples(conditions(resp), block(d - 1), st.one_of(st.none(), block(d - 1), block(d - 1)), st.booleans()).map(lambda t: ['if'] + list(t)))
            elif k == 'hdr':
                alts.append(st.tuples(st.sampled_from(['header.add', 'header.add', 'header.append', 'header.overwrite', 'req_header.add', 'req_header.append', 'req_header.overwrite']), st.sampled_from(HN), patterns(nth=False)).map(lambda t: ['hdr'] + list(t)))
            elif k == 'hdrrem':
                alts.append(st.tuples(st.sampled_from(['header.remove', 'req_header.remove']), st.sampled_from(HN)).map(lambda t: ['hdrrem'] + list(t)))
            elif k == 'env':
                alts.append(st.tuples(st.sampled_from(['env.set', 'env.add']), st.sampled_from(ENVS), patterns(nth=False)).map(lambda t: ['env'] + list(t)))
            elif k == 'envrem':
                alts.append(st.sampled_from(ENVS).map(lambda e: ['envrem', e]))
            elif k == 'envclear':
                alts.append(st.just(['envclear']))
            elif k in ('rewrite', 'rewrite_raw', 'redirect'):
                alts.append(rules(k == 'rewrite_raw', k == 'redirect').map(lambda r, k=k: [k, r]))
            elif k == 'respond':
                alts.append(st.tuples(st.sampled_from([200, 200, 201, 404, 500, 403]), st.one_of(st.none(), patterns(nth=False), patterns(nth=False))).map(lambda t: ['respond'] + list(t)))
            elif k == 'status':
                alts.append(st.sampled_from([200, 202, 404, 410, 503]).map(lambda n: ['status', n]))
            elif k == 'map' and d > 0:
                key = st.one_of(st.none(), st.lists(st.sampled_from(['', 'a', '/a', '/ab/a', 'a.test', 'x', '1', 'b', '/', 'GET', '/x.php']), min_size=1, max_size=3, unique=True))
                alts.append(st.tuples(patterns(nth=False, maxlen=2), st.lists(st.tuples(key, block(d - 1)).map(list), min_size=1, max_size=3)).map(lambda t: ['map', t[0], t[1]]))
            elif k == 'call':
                alts.append(st.sampled_from(['act1', 'act2']).map(lambda n: ['call', n]))
            elif k == 'list' and d > 0:
                alts.append(st.lists(block(d - 1), min_size=1, max_size=3).map(lambda bs: ['list', bs]))
            elif k == 'deep':
                alts.append(deep())
            elif k == 'docroot':
                alts.append(st.lists(dirs(), min_size=1, max_size=3).map(lambda d: ['docroot', d]))
            elif k == 'alias':
                alts.append(st.lists(st.tuples(st.sampled_from(['/', '/a', '/a/', '/ab', '/ab/a', '/d', '', '/b/', '/x.php', '/a/b']), dirs()).map(list), min_size=1, max_size=3).map(lambda d: ['alias', d]))
        return st.one_of(*alts)
    leafs = [k for k in kinds if k in ('hdr', 'env', 'rewrite', 'status')]
    small = st.lists(stmt(0) if not leafs else stmt(0), min_size=1, max_size=3).map(lambda b: [s for s in b if s[0] != 'call'])
    return st.tuples(small, small, st.lists(stmt(depth), min_size=1, max_size=6)).map(lambda t: [['def', 'act1', t[0]], ['def', 'act2', t[1]]] + t[2])


def requests():
    h = st.tuples(st.sampled_from(['X-A', 'x-a', 'X-B', 'X-Ab']), st.sampled_from(HVALS)).map(list)
    return st.fixed_dictionaries({'m': st.sampled_from(['GET', 'GET', 'POST', 'HEAD']), 'p': st.one_of(st.sampled_from(PATHS), st.text(alphabet='ab/.1', max_size=6).map(lambda s: '/' + s)), 'q': st.sampled_from(QUERIES), 'h': st.sampled_from(HOSTS), 'hs': st.lists(h, max_size=3)})

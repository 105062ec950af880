"""C15: header collections are an ordered case-insensitive multimap and can never carry line breaks."""
import re

from hypothesis import strategies as st

from lib.harness import Harness, headers_dump, split32
from lib.runner import Sub
from lib.server import Violation

RULE = ('random histories of insert/append/overwrite/remove/lookup/compare/get-all/tokenize/reset on one header set, names differing '
        'only in case or by a prefix, values with folding, CR/LF, quotes and backslashes; model: Python list of pairs; '
        'non-trivial: at least two entries under one name or a value with a line break / quote / backslash')

keys = st.sampled_from(['Host', 'host', 'HOST', 'Hos', 'Hosts', 'X-A', 'x-a', 'X-B', 'Connection', 'cONNECTION', 'a', 'A', ''])
val = st.one_of(
    st.sampled_from(['', 'x', 'close', 'Close', 'keep-alive, Upgrade', 'a\r\n b', 'a\r\nb: c', '\r\n x', 'a\r\n', 'a \r\n\t b', 'a\nb', 'a\rb',
                     '"q, r" s', 'a\\,b, c', '"a\\"b"', 'x"y"', '"open', 'end\\', '"end\\', ' lead', 'trail ', 'a,,b', ', ,', '""', '"",""', '"a""b"',
                     'a\r\n\r\nEvil: 1', '\n', '\r', ' \r\n ']),
    st.text(alphabet='ab ,"\\\r\n\t:;=\xe9', max_size=14),
    st.text(alphabet='abcdefghij', min_size=1, max_size=100))


def clean(v):
    v = re.sub('[\r\n][\r\n\t ]*$', '', v)
    return re.sub('[\r\n][\r\n\t ]*', ' ', v)


def tokens(values):
    out = []
    for v in values:
        pos = 0
        tok = ''
        while pos < len(v):
            c = v[pos]
            if c == '"':
                if tok:
                    return out, True
                pos += 1
                while True:
                    if pos >= len(v):
                        return out, True
                    if v[pos] == '"':
                        pos += 1
                        out.append(tok)
                        tok = ''
                        break
                    if v[pos] == '\\':
                        pos += 1
                        if pos >= len(v):
                            return out, True
                    tok += v[pos]
                    pos += 1
                continue
            if c in ' ,':
                if tok:
                    out.append(tok)
                    tok = ''
                pos += 1
                continue
            if c == '\\':
                pos += 1
                if pos >= len(v):
                    return out, True
            tok += v[pos]
            pos += 1
        if tok:
            out.append(tok)
    return out, False


class Headers(Sub):
    NAME = 'history'
    HARNESS = True
    N_QUICK = 4000
    N_THOROUGH = 60000
    SECS_QUICK = 45
    RECYCLE = 20000

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()

    def teardown(self):
        self.h.stop()

    def strategy(self):
        k, v = keys, val
        o = st.one_of(st.tuples(st.sampled_from(['insert', 'append', 'overwrite']), k, v),
                      st.tuples(st.sampled_from(['insert', 'append', 'overwrite']), k, v),
                      st.tuples(st.sampled_from(['remove', 'lookup', 'all', 'tok']), k),
                      st.tuples(st.sampled_from(['remove', 'lookup', 'all', 'tok']), k),
                      st.tuples(st.just('is'), k, v), st.tuples(st.sampled_from(['dump', 'dump', 'dump', 'reset'])))
        return st.lists(o, min_size=1, max_size=25)

    def run(self, case, rec):
        m = []
        req = ['hdr']
        want = []

        def idx(k):
            return [i for i, e in enumerate(m) if e[0].lower() == k.lower()]
        for o in list(case) + [['dump']]:
            req += list(o)
            op = o[0]
            if op in ('insert', 'append', 'overwrite'):
                k, v = o[1], o[2]
                ix = idx(k)
                rec.nt(len(ix) > 0 or v != clean(v) or '"' in v or '\\' in v)
                if op == 'insert' or not ix:
                    m.append((k, clean(v)))
                elif op == 'append':
                    m[ix[-1]] = (m[ix[-1]][0], clean(m[ix[-1]][1] + ', ' + v))
                else:
                    m[ix[-1]] = (m[ix[-1]][0], clean(v))
            elif op == 'remove':
                ix = idx(o[1])
                want.append((o, 'int', 1 if ix else 0))
                m = [e for i, e in enumerate(m) if i not in ix]
            elif op == 'lookup':
                ix = idx(o[1])
                want.append((o, 'int', 1 if ix else 0))
                want.append((o, 'str', m[ix[-1]][1] if ix else ''))
            elif op == 'is':
                want.append((o, 'int', 1 if any(m[i][1].lower() == o[2].lower() for i in idx(o[1])) else 0))
            elif op == 'all':
                vs = [m[i][1] for i in idx(o[1])]
                while vs and vs[0] == '':
                    vs = vs[1:]
                want.append((o, 'str', ', '.join(vs)))
            elif op == 'tok':
                want.append((o, 'tok', tokens([m[i][1] for i in idx(o[1])])))
            elif op == 'reset':
                m = []
            elif op == 'dump':
                want.append((o, 'dump', list(m)))
        ans = self.h.call(*req)
        pos = 0
        for o, kind, w in want:
            if kind == 'int':
                if int(ans[pos]) != w:
                    raise Violation('%r answered %s, expected %d' % (o, ans[pos].decode(), w))
                pos += 1
            elif kind == 'str':
                if ans[pos].decode('latin-1') != w:
                    raise Violation('%r answered %r, expected %r' % (o, ans[pos], w))
                pos += 1
            elif kind == 'tok':
                got = [t.decode('latin-1') for t in split32(ans[pos + 1])]
                pos += 2
                if got != w[0]:
                    raise Violation('%r gave tokens %r, expected %r' % (o, got, w[0]))
            else:
                got = [(a.decode('latin-1'), b.decode('latin-1')) for a, b in headers_dump(ans[pos])]
                pos += 1
                for a, b in got:
                    if '\r' in b or '\n' in b:
                        raise Violation('stored header value contains a line break: %r: %r' % (a, b))
                if got != w:
                    raise Violation('headers are %r, expected %r' % (got, w))


SUBS = [Headers]

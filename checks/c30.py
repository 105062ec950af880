"""C30: Lua handlers: object API, contexts, reloading, filters, the scripts of contrib/."""
import hashlib
import os
import re
import socket
import threading
import time

from hypothesis import strategies as st

from checks.c12 import PerConf, cstr
from lib.backend import Backend, read_http_request
from lib.e2e import l1, lat, req
from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Server, Violation

RULE = ('objects: generated programs of Lua operations on environment, headers, uri, paths, status, body, globals and REQ, spread over several handlers, run by lua.handler and include_lua for several requests; '
        'misuse: handlers calling API functions with wrong arguments between good requests; filters: in/out filters written in Lua (transforming, holding back, failing, aborting) over generated bodies and chunkings; '
        'contrib: the scripts of contrib/ (require_user, xsendfile, cached_html) over generated users, paths, headers; reload: histories of edits of a lua.handler file with a ttl; '
        'non-trivial: at least 4 operations (objects), at least one wrong call (misuse), a filter that sees data (filters), a request the script decides (contrib), an edit between requests (reload)')


def lq(s):
    return '"' + ''.join('\\%03d' % b for b in l1(s)) + '"'


def hx(s):
    return 's' + l1(s).hex()


def sanitize(v):
    return re.sub('[\r\n][\r\n \t]*(?=[^\r\n \t])', ' ', re.sub('[\r\n][\r\n \t]*$', '', v, flags=0)) if re.search('[\r\n]', v) else v


PRELUDE = r'''
local function q1(v)
  local t = type(v)
  if t == "string" then return "s" .. (v:gsub(".", function(c) return string.format("%02x", c:byte()) end)) end
  if t == "number" then return "n" .. tostring(v) end
  if t == "nil" then return "nil" end
  if t == "boolean" then return v and "true" or "false" end
  return t
end
local function T(f)
  local r = { pcall(f) }
  if not r[1] then return "err" end
  return q1(r[2])
end
local function pairs_of(it, sorted)
  local l = {}
  for k, v in it do l[#l + 1] = q1(k) .. "=" .. q1(v) end
  if sorted then table.sort(l) end
  return table.concat(l, "+")
end
leak = 5
'''

HK = st.sampled_from(['X-A', 'x-a', 'X-b', 'X-B', 'Cookie', 'x-Long-Name', 'get', 'set', 'pairs', 'X'])
SK = st.sampled_from(['X-A', 'x-a', 'X-b', 'X-B', 'X-Long-Name', 'X-get'])
EK = st.one_of(st.sampled_from(['A', 'a', 'B', 'get', 'set', 'clear', '__index', 'pairs', '', 'REMOTE_USER', 'A\x00b', 'A\x00c']), st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=4))
VAL = st.one_of(st.sampled_from(['', 'x', 'some value', 'a,b', 'ÿ', '1']), st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=12))
SVAL = st.text(st.characters(min_codepoint=33, max_codepoint=126), max_size=10)
HVAL = st.one_of(VAL, st.sampled_from(['a\r\nb', 'a\r\n  b', '\n', 'a \r\n', 'x\r\n\t \r\ny z']))
METHODS = {'h': ['get', 'set', 'append', 'insert', 'unset', 'pairs', 'list', 'clear'], 'e': ['get', 'set', 'unset', 'weak_set', 'pairs', 'clear']}
UF = ['raw', 'raw_path', 'raw_orig_path', 'scheme', 'authority', 'path', 'query', 'host']
PF = ['path', 'doc_root', 'pathinfo']
STATUS = [200, 201, 299, 400, 404, 500, 599, 999]
FILES = {'f0': 0, 'f1': 1, 'f2': 5000, 'f3': 70000}


def fdata(name):
    n = FILES[name]
    return (('<%s>' % name).encode() * (n // 4 + 1))[:n]


def op_strategy():
    def hdr(o, k, v):
        return st.one_of(*[st.tuples(st.just(o), *x).map(list) for x in (
            (st.sampled_from(['set', 'newindex', 'append', 'insert', 'insert', 'append']), k, v), (st.sampled_from(['unset', 'setnil', 'nilindex']), k), (st.sampled_from(['get', 'get', 'index', 'list']), k), (st.just('pairs'),), (st.just('clear'),))])
    env = st.one_of(*[st.tuples(st.just('env'), *x).map(list) for x in (
        (st.sampled_from(['set', 'newindex', 'weak_set']), EK, VAL), (st.sampled_from(['unset', 'setnil', 'nilindex']), EK), (st.sampled_from(['get', 'get', 'index']), EK), (st.just('pairs'),), (st.just('clear'),))])
    return st.one_of(
        env, hdr('rh', HK, HVAL), hdr('sh', SK, SVAL),
        st.tuples(st.just('uri'), st.sampled_from(UF), st.one_of(st.none(), st.none(), VAL)).map(list), st.tuples(st.just('phys'), st.sampled_from(PF), st.one_of(st.none(), st.none(), VAL)).map(list),
        st.tuples(st.just('status'), st.one_of(st.none(), st.sampled_from(STATUS), st.sampled_from([0, 199, 1000, -1, 100]))).map(list),
        st.tuples(st.just('info'), st.sampled_from(['http_method', 'http_version', 'content_length'])).map(list), st.tuples(st.just('handled')).map(list), st.tuples(st.just('direct')).map(list),
        st.tuples(st.just('hash'), st.sampled_from(['md5', 'sha1', 'sha256']), VAL).map(list),
        st.tuples(st.just('log'), st.sampled_from(['vr:print("x", 5, nil)', 'vr:debug("x")', 'vr:info({}, true)', 'vr:warning("x", 2.5)', 'lighty.error("x")', 'lighty.print("x")', 'lighty.warning("x", nil)', 'lighty.info(vr)', 'print("x", 1)'])).map(list),
        st.tuples(st.sampled_from(['glob', 'REQ']), st.sampled_from(['ga', 'gb', 'leak', 'print']), st.one_of(st.none(), st.none(), SVAL)).map(list),
        st.tuples(st.just('bad'), st.sampled_from(['vr.foo', 'vr.env = 1', 'vr.req.http_method = "X"', 'vr.req.uri.foo', 'vr.phys.foo = 1', 'vr.resp.headers = 1', 'vr.req.uri.path = nil', 'vr.env:set("a")', 'vr.resp.headers:append("a")', 'vr:nope()', 'lighty.nope()', 'error("x")', 'vr.resp.status = "x"', 'lighty.print = 1'])).map(list),
        st.tuples(st.just('out'), st.sampled_from(['add', 'add', 'add', 'addn']), VAL).map(list), st.tuples(st.just('out'), st.sampled_from(['reset', 'skip_all'])).map(list),
        st.tuples(st.just('out'), st.just('file'), st.sampled_from(['f0', 'f1', 'f2', 'f3', 'f2', 'd', 'none']), st.one_of(st.none(), st.integers(0, 6000), st.just(-1)), st.one_of(st.none(), st.integers(0, 6000), st.just(-1))).map(list))


class Objects(Sub):
    NAME = 'objects'
    N_QUICK = 160
    N_THOROUGH = 6000
    SECS_QUICK = 45
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch + '/d', exist_ok=True)
        for f in FILES:
            with open(self.scratch + '/' + f, 'wb') as x:
                x.write(fdata(f))

    def teardown(self):
        pass

    def strategy(self):
        h = st.fixed_dictionaries({'ops': st.lists(op_strategy(), min_size=1, max_size=12), 'enter': st.sampled_from([False, False, True]), 'co': st.sampled_from([False, False, False, True])})
        return st.fixed_dictionaries({
            'handlers': st.lists(h, min_size=1, max_size=4), 'mode': st.sampled_from(['handler', 'include', 'include']), 'workers': st.integers(1, 2),
            'rq': st.fixed_dictionaries({'m': st.sampled_from(['GET', 'POST', 'PUT']), 'v': st.sampled_from(['1.1', '1.1', '1.0']), 'p': st.sampled_from(['/', '/a/b', '/a%20b/../c', '//x']), 'q': st.sampled_from(['', '?', '?a=1&b=2', '?%41']), 'body': st.integers(0, 50), 'h': st.lists(st.tuples(HK, SVAL.map(lambda x: x.replace('"', "'").replace('\\', '/'))).map(list), max_size=4)})})

    # Lua text of an operation
    def emit(self, op):
        k = op[0]
        if k in ('rh', 'sh', 'env'):
            o = {'rh': 'vr.req.headers', 'sh': 'vr.resp.headers', 'env': 'vr.env'}[k]
            a = [lq(x) for x in op[2:]]
            f = op[1]
            if f == 'newindex':
                return '%s[%s] = %s' % (o, *a)
            if f == 'nilindex':
                return '%s[%s] = nil' % (o, *a)
            if f == 'setnil':
                return '%s:set(%s, nil)' % (o, *a)
            if f == 'index':
                return 'return %s[%s]' % (o, *a)
            if f == 'get':
                return 'return %s:get(%s)' % (o, *a)
            if f == 'list':
                return 'return pairs_of(%s:list(%s))' % (o, *a)
            if f == 'pairs':
                return 'return pairs_of(%s:pairs(), %s)' % (o, 'true' if k == 'env' else 'false')
            return '%s:%s(%s)' % (o, f, ', '.join(a))
        if k in ('uri', 'phys'):
            o = 'vr.req.uri' if k == 'uri' else 'vr.phys'
            return 'return %s.%s' % (o, op[1]) if op[2] is None else '%s.%s = %s' % (o, op[1], lq(op[2]))
        if k == 'status':
            return 'return vr.resp.status' if op[1] is None else 'vr.resp.status = %d' % op[1]
        if k == 'info':
            return 'return vr.req.' + op[1]
        if k == 'handled':
            return 'return vr.is_handled'
        if k == 'direct':
            return 'return vr:handle_direct()'
        if k == 'hash':
            return 'return lighty.%s(%s)' % (op[1], lq(op[2]))
        if k == 'glob':
            return 'return ' + op[1] if op[2] is None else '%s = %s' % (op[1], lq(op[2]))
        if k == 'REQ':
            return 'return REQ.' + op[1] if op[2] is None else 'REQ.%s = %s' % (op[1], lq(op[2]))
        if k == 'log':
            return op[1]
        if k == 'bad':
            return op[1] if '(' in op[1] or '=' in op[1] else 'return ' + op[1]
        if k == 'out':
            if op[1] == 'add':
                return 'vr.out:add(%s)' % lq(op[2])
            if op[1] == 'addn':
                return 'vr.out:add(%d)' % len(op[2])
            if op[1] == 'file':
                a = [lq(self.scratch + '/' + op[2])]
                if op[3] is not None:
                    a.append(str(op[3]))
                    if op[4] is not None:
                        a.append(str(op[4]))
                return 'vr.out:add_file(%s)' % ', '.join(a)
            return 'vr.out:%s()' % op[1]
        raise AssertionError(op)

    # reference model of an operation
    def model(self, S, op):
        k = op[0]
        if k in ('rh', 'sh'):
            H = S[k]
            f = op[1]
            same = lambda x: l1(x[0]).lower() == l1(op[2]).lower()
            if f in ('set', 'newindex'):
                H[:] = [x for x in H if not same(x)] + [[op[2], sanitize(op[3])]]
            elif f in ('unset', 'setnil', 'nilindex'):
                H[:] = [x for x in H if not same(x)]
            elif f == 'insert':
                H.append([op[2], sanitize(op[3])])
            elif f == 'append':
                m = [x for x in H if same(x)]
                if m:
                    m[-1][1] = sanitize(m[-1][1] + ', ' + op[3])
                else:
                    H.append([op[2], sanitize(op[3])])
            elif f == 'get' or f == 'index' and op[2] not in METHODS['h']:
                return hx(self.join([x[1] for x in H if same(x)]))
            elif f == 'index':
                return 'function'
            elif f == 'list':
                return hx('+'.join(hx(a) + '=' + hx(b) for a, b in H if same((a,))))
            elif f == 'pairs':
                return hx('+'.join(hx(a) + '=' + hx(b) for a, b in H))
            elif f == 'clear':
                H.clear()
            return 'nil'
        if k == 'env':
            E, f = S['env'], op[1]
            if f in ('set', 'newindex'):
                E[op[2]] = op[3]
            elif f == 'weak_set':
                E.setdefault(op[2], op[3])
            elif f in ('unset', 'setnil', 'nilindex'):
                E.pop(op[2], None)
            elif f == 'get' or f == 'index' and op[2] not in METHODS['e'] and not op[2].startswith('__'):
                return hx(E[op[2]]) if op[2] in E else 'nil'
            elif f == 'index':
                return 'function'
            elif f == 'pairs':
                return hx('+'.join(sorted(hx(a) + '=' + hx(b) for a, b in E.items())))
            elif f == 'clear':
                E.clear()
            return 'nil'
        if k in ('uri', 'phys'):
            if op[2] is None:
                return hx(S[k][op[1]]) if S[k].get(op[1]) is not None else '?'
            S[k][op[1]] = op[2]
            return 'nil'
        if k == 'status':
            if op[1] is None:
                return 'n%d' % S['status']
            if not 200 <= op[1] <= 999:
                return 'err'
            S['status'] = op[1]
            return 'nil'
        if k == 'info':
            v = S['info'][op[1]]
            if v == -1:
                return '?'
            return hx(v) if isinstance(v, str) else 'n%d' % v
        if k == 'handled':
            return 'true' if S['handled'] else 'false'
        if k == 'direct':
            r = 'false' if S['handled'] else 'true'
            S['handled'] = True
            return r
        if k == 'hash':
            return hx(hashlib.new(op[1], l1(op[2])).hexdigest())
        if k in ('glob', 'REQ'):
            G = S[k]
            if op[2] is None:
                return hx(G[op[1]]) if op[1] in G else 'function' if k == 'glob' and op[1] == 'print' else 'nil'
            G[op[1]] = op[2]
            return 'nil'
        if k == 'log':
            return 'nil' if op[1][:5] != 'print' or 'print' not in S['glob'] else 'err'
        if k == 'bad':
            return 'err'
        if k == 'out':
            if not S['handled']:
                return 'err'
            if op[1] == 'add':
                S['body'] += l1(op[2])
            elif op[1] == 'addn':
                S['body'] += b'%d' % len(op[2])
            elif op[1] == 'file':
                if op[2] not in FILES:
                    return 'err'
                d = fdata(op[2])
                a = op[3] if op[3] is not None else 0
                n = op[4] if op[3] is not None and op[4] is not None else len(d) - a
                if a < 0 or n < 0 or a + n > len(d):
                    return 'err'
                S['body'] += d[a:a + n]
            else:
                S['body'] = b''
            return 'nil'
        raise AssertionError(op)

    @staticmethod
    def join(vs):
        r = ''
        for v in vs:
            r += (', ' if r else '') + v
        return r

    def script(self, case):
        t = [PRELUDE]
        names = []
        for i, h in enumerate(case['handlers']):
            b = ['  local R = REQ.R or {}; REQ.R = R']
            b += ['  R[#R + 1] = T(function() %s end)' % self.emit(op) for op in h['ops']]
            if h['enter']:
                t.append('local sub%d = action.list(function(vr) REQ.R[#REQ.R + 1] = "sub%d:" .. q1(cnt) .. ":" .. q1(ga) ; ga = "sub" end)' % (i, i))
                b = ['  cnt = (cnt or 0) + 1', '  if cnt == 1 then', *b, '    vr:enter_action(sub%d)' % i, '    return lighty.HANDLER_WAIT_FOR_EVENT', '  end', '  REQ.R[#REQ.R + 1] = "again:" .. q1(cnt) .. ":" .. q1(ga)']
            t.append('local function H%d(vr)\n%s\nend' % (i, '\n'.join(b)))
            names.append('function(vr) return coroutine.wrap(H%d)(vr) end' % i if h['co'] else 'H%d' % i)
        t.append('local function done(vr)\n  vr:handle_direct()\n  if vr.resp.status == 0 then vr.resp.status = 200 end\n  vr.resp.headers["X-R"] = table.concat(REQ.R, ";")\nend')
        t.append('actions = action.list(%s, done)' % ', '.join(names))
        return '\n'.join(t) + '\n'

    def run(self, case, rec):
        p = self.scratch + '/p.lua'
        with open(p, 'wb') as f:
            f.write(l1(self.script(case)))
        conf = 'setup { module_load "mod_lua"; listen "unix:%%SOCK%%"; workers %d; }\ndocroot "%s/www";\nstrict.post_content_length false;\n%s "%s";\n' % (case['workers'], self.scratch, 'lua.handler' if case['mode'] == 'handler' else 'include_lua', p)
        srv = Server(self.scratch, conf)
        if not srv.start():
            srv.settle_dead(0.2)
            srv.check_alive()
            raise Violation('configuration refused: %s' % srv.log_text()[-500:])
        try:
            ops = [op for h in case['handlers'] for op in h['ops']]
            rec.nt(len(ops) >= 4)
            for o in ops:
                rec.label(o[0])
            for n in (2, 1):
                c = Conn(path=srv.sock, timeout=10)
                try:
                    for i in range(n):
                        self.one(case, srv, c)
                        if case['rq']['v'] == '1.0':
                            break
                finally:
                    c.close()
            srv.settle_dead(0.0)
            srv.check_alive()
        finally:
            srv.kill()

    def one(self, case, srv, c):
        rq = case['rq']
        body = b'' if rq['m'] == 'GET' else b'b' * rq['body']
        hs = [(a, b) for a, b in rq['h'] if b]
        if rq['m'] != 'GET':
            hs.append(('Content-Length', str(len(body))))
        raw = req(rq['m'], rq['p'] + rq['q'], rq['v'], hs, body, host='ex.test:8080')
        c.send(raw)
        try:
            r = c.response(rq['m'])
        except (Closed, Timeout, Malformed) as e:
            srv.settle_dead(0.3)
            srv.check_alive()
            raise Violation('no good response (%s %s); log: %s' % (type(e).__name__, e, srv.log_text()[-600:]), timing=isinstance(e, Timeout))
        path = {'/': '/', '/a/b': '/a/b', '/a%20b/../c': '/c', '//x': '/x'}[rq['p']]
        lines = raw.split(b'\r\n\r\n')[0].split(b'\r\n')[1:]
        S = {'rh': [[a, b.strip(' ')] for a, b in (lat(x).split(':', 1) for x in lines)], 'sh': [], 'env': {}, 'status': 0, 'handled': False, 'REQ': {}, 'body': b'',
             'info': {'http_method': rq['m'], 'http_version': 'HTTP/' + rq['v'], 'content_length': -1 if rq['m'] == 'GET' else len(body)},
             'uri': {'raw': rq['p'] + rq['q'], 'raw_path': rq['p'] + rq['q'], 'raw_orig_path': rq['p'] + rq['q'], 'scheme': 'http', 'authority': 'ex.test:8080', 'path': path, 'query': rq['q'][1:], 'host': 'ex.test'},
             'phys': {'path': self.scratch + '/www' + path, 'doc_root': self.scratch + '/www', 'pathinfo': ''}}
        exp, txt = [], []
        for i, h in enumerate(case['handlers']):
            S['glob'] = {}
            for op in h['ops']:
                exp.append(self.model(S, op))
                txt.append(self.emit(op))
            if h['enter']:
                exp.append('sub%d:nil:nil' % i)
                exp.append('again:n2:' + (hx(S['glob']['ga']) if 'ga' in S['glob'] else 'nil'))
                txt += ['(in entered action)', '(again)']
        got = (r.get('x-r') or '').split(';')
        if len(got) != len(exp):
            raise Violation('the handlers left %d results, expected %d (status %d); log: %s' % (len(got), len(exp), r.status, srv.log_text()[-400:]))
        for i, (a, b) in enumerate(zip(got, exp)):
            if b != '?' and a != b:
                raise Violation('operation %d `%s` gave %s, expected %s\nprogram:\n%s' % (i, txt[i][:200], self.show(a), self.show(b), '\n'.join(txt[:i + 1])[-1500:]))
        st_ = S['status'] or 200
        if r.status != st_:
            raise Violation('status %d, expected %d' % (r.status, st_))
        if r.body != S['body'] and not (st_ >= 400 and S['body'] == b'' and r.body.startswith(b'<')):    # the server's own error page
            raise Violation('body of %d bytes %r, expected %d bytes %r\nprogram:\n%s' % (len(r.body), r.body[:60], len(S['body']), S['body'][:60], '\n'.join(t for t in txt if 'out' in t or 'direct' in t)[-1500:]))
        sh = [(a, b.strip()) for a, b in r.headers if a.lower() in ('x-a', 'x-b', 'x-long-name', 'x-get')]
        if sh != [(a, b.strip()) for a, b in S['sh']]:
            raise Violation('response headers %r, expected %r' % (sh, S['sh']))

    @staticmethod
    def show(x):
        def f(m):
            try:
                return repr(bytes.fromhex(m.group(1)))
            except ValueError:
                return m.group(0)
        return re.sub(r'\bs((?:[0-9a-f]{2})*)\b', f, x)[:400]


MISUSE = [
    'vr.out.reset()', 'vr.out.skip_all()', 'vr.out:steal_all()', 'vr.out:steal_all(vr)', 'vr.out.steal_all(nil, vr.out)', 'vr.out:steal_all(vr.out)', 'vr.print()', 'vr.print("x")', 'vr:print({}, nil, print)', 'vr.debug(5, "x")', 'vr.warning()', 'vr.info(vr.req)',
    'vr.env.set(1, 2, 3)', 'vr.env.get()', 'vr.env:get({})', 'vr.env:set({}, {})', 'vr.env.pairs()', 'vr.env.clear()', 'for k, v in vr.env.pairs(vr) do end', 'vr:stat()', 'vr.stat(1, "x")', 'vr:stat({})', 'vr:stat("")', 'vr:stat("a\\000b")', 'vr:enter_action(5)', 'vr:enter_action()', 'vr.enter_action(5, 5)',
    'vr:add_filter_out()', 'vr:add_filter_out(nil)', 'vr:add_filter_in(nil)', 'vr.add_filter_out(nil, {})', 'vr:add_filter_out({})', 'vr:add_filter_out(5)', 'vr:add_filter_in({})', 'vr:add_filter_out({handle = function() error("x") end})', 'vr:add_filter_out({handle = function() return 77 end})', 'vr:add_filter_out({handle = 5, finished = 5})',
    'vr:add_filter_out({handle = function(self, vr, o, i) i:skip_all() end, finished = function() error("y") end})', 'vr.handle_direct()', 'vr.handle_direct(5)', 'lighty.filter_in()', 'lighty.filter_out(nil)', 'vr:enter_action(lighty.filter_out({}))', 'vr:enter_action(lighty.filter_out({new = function() error("z") end}))', 'vr:enter_action(lighty.filter_in({new = function() return nil end}))',
    'vr:enter_action(lighty.filter_out({new = 5}))', 'lighty.md5()', 'lighty.md5({})', 'lighty.path_simplify()', 'lighty.print(nil, {}, setmetatable({}, {__tostring = function() error("t") end}))', 'lighty.print(setmetatable({}, {__tostring = function() return 5 end}))', 'setmetatable(vr, {})', 'getmetatable(vr).__index = 1', 'vr.con.foo = 1',
    'vr.req.headers.pairs(1)', 'vr.req.headers.get(vr, "a")', 'vr.req.headers.set(nil, "a", "b")', 'vr.req.headers:list()', 'vr.req.headers:list({})', 'vr.req.headers.clear()', 'vr.resp.headers:insert("a", {})', 'local f = vr.req.headers:pairs(); f(); f(1, 2, 3); for i = 1, 40 do f() end', 'local f = vr.env:pairs(); for i = 1, 40 do f() end',
    'local f = vr.req.headers:list("x-a"); vr.req.headers:clear(); ', 'action.respond(5, 5, 5)', 'action.nope()', 'action.nope.nope({})', 'vr:enter_action(action.respond(200, {}))', 'action.list(5)', 'action.when()', 'action.when(request.path:eq("a"))', 'action.when(5, 5)', 'request.path:eq()', 'request.path:match("(")', 'request.path:eq({})', 'request.nope:eq("a")', 'request.header:eq("a")',
    'request.path.eq("a", "b")', 'tostring(vr); tostring(vr.req.headers); tostring(request.path); tostring(lighty)', 'REQ = nil', 'REQ = 5', '_G = nil', '_G.newglobal = 5', 'while true do error({}) end', 'error(nil)', 'error(setmetatable({}, {__tostring = function() error("e") end}))', 'string.rep("x", -1)', 'local function r() return r() + 1 end; r()', 'return 77', 'return "x"', 'return {}', 'return vr', 'return lighty.HANDLER_ERROR', 'return -1',
    'vr.phys.path = "\\000"', 'vr.req.uri.path = ""', 'vr.resp.status = 200.7', 'vr.resp.status = 1e300', 'vr.out:add_file()', 'vr.out:add_file({})', 'vr.out:add_file("/nope", {})', 'vr.out:add_file("%F", "x")', 'vr.out:add_file("%F", 0, {})', 'vr.out:add_file("%F", 1e300)', 'vr.out:add_file("%F", 0, 1e300)', 'vr.out:add_file("%F", 0/0)', 'vr.out:add_file("/")', 'vr.out:add(nil)', 'vr.out:add({})', 'vr.out:add({filename = 5})', 'vr.out:add({filename = {}})',
    'vr.out.is_closed = 5', 'vr["in"]:add("x")', 'vr["in"]:skip_all()', 'collectgarbage()', 'coroutine.wrap(function() vr:print("x"); vr:handle_direct() end)()', 'coroutine.wrap(function() error("c") end)()', 'coroutine.wrap(function() vr:stat("/etc") end)()', 'xpcall(function() vr.foo = 1 end, function(e) error("again") end)', 'setup.listen("x")', 'vr:subrequest({})',
    'coroutine.wrap(function() vr:enter_action(action.respond(200, "x")) end)()', 'coroutine.wrap(function() for i = 1, 50 do local a = action.respond(200) end; collectgarbage() end)()', 'coroutine.wrap(function() vr:enter_action(lighty.filter_out({new = function() return nil end})) end)()', 'coroutine.wrap(function() vr:add_filter_out({handle = function(self, vr, o, i) o:steal_all(i) end}) end)()',
    'local co = coroutine.create(function() local a = action.list(function() end); coroutine.yield(a) end); coroutine.resume(co); co = nil; collectgarbage()', 'coroutine.wrap(function() vr:subrequest(action.respond(200), function() end, function() end) end)()',
]


class Misuse(Sub):
    """wrong calls in a handler are errors of that request at most"""
    NAME = 'misuse'
    N_QUICK = 60
    N_THOROUGH = 2500
    SECS_QUICK = 25
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)
        with open(self.scratch + '/f2', 'wb') as f:
            f.write(b'0123456789' * 10)

    def teardown(self):
        pass

    def strategy(self):
        h = st.fixed_dictionaries({'m': st.lists(st.tuples(st.integers(0, len(MISUSE) - 1), st.booleans()).map(list), min_size=1, max_size=4), 'direct': st.booleans(), 'then': st.sampled_from(['none', 'respond', 'static'])})
        return st.fixed_dictionaries({'hs': st.lists(h, min_size=1, max_size=6), 'mode': st.sampled_from(['handler', 'include']), 'body': st.booleans()})

    def run(self, case, rec):
        t = ['local T = {}']
        for i, h in enumerate(case['hs']):
            b = ['vr:handle_direct(); vr.resp.status = 200'] if h['direct'] else []
            for k, prot in h['m']:
                m = MISUSE[k].replace('%F', self.scratch + '/f2')
                b.append('pcall(function() %s end)' % m if prot or m.startswith('return') and m is not h['m'][-1] else 'do %s end' % m)
            if not h['direct'] and h['then'] != 'none':
                pass
            t.append('T["/%d"] = function(vr)\n  %s\nend' % (i, '\n  '.join(b)))
        t.append('T["/good"] = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add("good " .. vr.req.uri.query) end')
        t.append('actions = function(vr) local f = T[vr.req.uri.path]; if f then return f(vr) end end')
        p = self.scratch + '/p.lua'
        with open(p, 'wb') as f:
            f.write(l1('\n'.join(t) + '\n'))
        conf = 'setup { module_load "mod_lua"; listen "unix:%%SOCK%%"; workers 1; }\nstrict.post_content_length false;\n%s "%s";\n' % ('lua.handler' if case['mode'] == 'handler' else 'include_lua', p)
        conf += 'if req.path =^ "/" { respond 200 => "end"; }\n'
        srv = Server(self.scratch, conf)
        if not srv.start():
            srv.settle_dead(0.2)
            srv.check_alive()
            raise Violation('configuration refused: %s' % srv.log_text()[-500:])
        try:
            rec.nt(True)
            for i, h in enumerate(case['hs']):
                for u in ('/%d' % i, '/good?%d' % i):
                    c = Conn(path=srv.sock, timeout=1.5 if '/good' not in u and self.may_wait(h) else 10)
                    what = '/good' in u and 'after' or 'at'
                    try:
                        body = b'abc' if case['body'] else b''
                        c.send(req('POST' if body else 'GET', u, '1.1', [('X-A', 'v'), ('Connection', 'close')] + ([('Content-Length', '3')] if body else []), body))
                        r = c.response('GET')
                        rec.label(r.status)
                        if what == 'after' and (r.status, r.body) != (200, l1('good %d' % i)):
                            raise Violation('request after the wrong calls %r: got %d %r' % ([MISUSE[k] for k, _ in h['m']], r.status, r.body[:60]))
                    except (Closed, Malformed, Timeout, OSError) as e:
                        srv.settle_dead(0.3)
                        try:
                            srv.check_alive()
                        except Violation as v:
                            raise Violation('%s %r: %s' % (what, [MISUSE[k] for k, _ in h['m']], v))
                        if what == 'after' or isinstance(e, Timeout) and not self.may_wait(h):
                            raise Violation('request %s the wrong calls %r: %s %s' % (what, [MISUSE[k] for k, _ in h['m']], type(e).__name__, e), timing=isinstance(e, Timeout))
                    finally:
                        c.close()
            srv.settle_dead(0.0)
            srv.check_alive()
        finally:
            srv.kill()

    @staticmethod
    def may_wait(h):
        # these leave the response open: the request then waits for more, by intention of the (wrong) script
        return any('filter' in MISUSE[k] or 'is_closed' in MISUSE[k] or 'vr["in"]' in MISUSE[k] or 'return' in MISUSE[k] for k, _ in h['m'])


FILTERS = r'''
local function log(t) local f = io.open("%(log)s", "a"); f:write(t .. "\n"); f:close() end
local function class(k, arg, id)
  local C = {}
  C.__index = C
  function C:new(vr)
    if k == "none" then return nil end
    local o = setmetatable({n = 0, id = vr.req.uri.query .. ":" .. id}, self)
    log("new " .. o.id)
    return o
  end
  function C:finished() log("fin " .. self.id); self.fin = true end
  function C:handle(vr, outq, inq)
    if self.fin then log("late " .. self.id) end
    self.n = self.n + 1
    if self.closed then if inq then inq:skip_all() end; return lighty.HANDLER_GO_ON end
    if k == "err" and self.n >= arg then error("planned") end
    if self.n == 1 and k == "prefix" then outq:add(arg) end
    if k == "early" then outq:add(arg); outq.is_closed = true; self.closed = true; if inq then inq:skip_all() end; return lighty.HANDLER_GO_ON end
    local fin = not inq or inq.is_closed
    if inq then
      if k == "drop" or k == "replace" or k == "same" then inq:skip_all() else outq:steal_all(inq) end
    end
    if fin then
      if k == "suffix" or k == "replace" then outq:add(arg) end
      if k == "same" then outq:add(string.rep("z", vr and tonumber(vr.req.headers["Content-Length"]) or 0)) end
      if k == "file" then outq:add_file("%(dir)s/f", arg[1], arg[2]) end
      if k == "temp" then
        local fn = "%(dir)s/tmp." .. string.gsub(self.id, "[^0-9a-z]", "_")
        local f = io.open(fn, "w"); f:write(arg); f:close()
        outq:add_temp_file(fn)
      end
      outq.is_closed = true
      self.closed = true
    end
    return lighty.HANDLER_GO_ON
  end
  return C
end
'''


class Filters(Sub):
    """chains of Lua filters: the body is what the filters make of it, and every filter is finished exactly once"""
    NAME = 'filters'
    N_QUICK = 60
    N_THOROUGH = 2500
    SECS_QUICK = 30
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch + '/www', exist_ok=True)
        for f in os.listdir(self.scratch):
            if f.startswith('tmp.'):
                os.unlink(self.scratch + '/' + f)
        self.data = bytes((i * 7 + (i >> 8)) % 251 for i in range(400000))
        with open(self.scratch + '/f', 'wb') as f:
            f.write(self.data[:5000])
        for n in (0, 1, 70000, 400000):
            with open(self.scratch + '/www/s%d' % n, 'wb') as f:
                f.write(self.data[:n])

    def teardown(self):
        pass

    def strategy(self):
        txt = st.one_of(st.sampled_from(['x', 'pre:', '']), st.integers(1, 40000).map(lambda n: 'L' * n))
        f = st.one_of(st.tuples(st.sampled_from(['pass', 'drop', 'none']), st.none()), st.tuples(st.sampled_from(['prefix', 'suffix', 'replace', 'early', 'temp']), txt), st.tuples(st.just('file'), st.tuples(st.integers(0, 4999), st.integers(0, 4999)).map(sorted).map(lambda t: [t[0], t[1] - t[0]])))
        ferr = st.tuples(st.just('err'), st.integers(1, 3))
        fl = st.fixed_dictionaries({'f': st.one_of(f, f, f, f, f, f, f, f, f, ferr).map(list), 'how': st.sampled_from(['action', 'action', 'add', 'co']), 'after': st.booleans()})
        src = st.one_of(st.tuples(st.just('text'), st.sampled_from([0, 1, 500])), st.tuples(st.just('static'), st.sampled_from([0, 1, 70000, 400000])), st.tuples(st.just('proxy'), st.sampled_from([0, 1, 20000, 400000])), st.tuples(st.just('proxy'), st.sampled_from([0, 1, 20000, 400000])))
        site = st.fixed_dictionaries({'src': src.map(list), 'out': st.lists(fl, max_size=4), 'inn': st.lists(st.sampled_from(['pass', 'same', 'pass', 'none']), max_size=3), 'reg': st.sampled_from(['handler', 'include'])})
        rq = st.fixed_dictionaries({'site': st.integers(0, 2), 'm': st.sampled_from(['GET', 'GET', 'GET', 'HEAD', 'POST']), 'v': st.sampled_from(['1.1', '1.1', '1.1c', '1.0']), 'body': st.sampled_from([0, 1, 3000, 100000]), 'end': st.sampled_from(['full'] * 6 + ['slow', 'abort', 'abort0'])})
        be = st.fixed_dictionaries({'how': st.sampled_from(['cl', 'chunked', 'close']), 'cuts': st.lists(st.integers(1, 100000), max_size=5), 'ms': st.sampled_from([0, 0, 1, 15])})
        return st.fixed_dictionaries({'sites': st.lists(site, min_size=1, max_size=3), 'rs': st.lists(rq, min_size=1, max_size=6), 'be': be, 'workers': st.sampled_from([1, 1, 2])})

    @staticmethod
    def arg(a):
        return 'nil' if a is None else str(a) if isinstance(a, int) else '{%d, %d}' % tuple(a) if isinstance(a, list) else '"%s"' % a

    def backend(self, case):
        be = case['be']

        def handle(c):
            q = read_http_request(c)
            n = int(q['target'].split(b'/')[-1].split(b'?')[0])
            body = b'%d:' % len(q['body']) + hashlib.md5(q['body']).hexdigest().encode() + b':' + self.data[:n]
            h = b'HTTP/1.1 200 OK\r\nX-Be: y\r\n'
            if q['method'] == b'HEAD':
                c.sendall(h + b'Content-Length: %d\r\n\r\n' % len(body))
                return
            parts, at = [], 0
            for k in be['cuts']:
                parts.append(body[at:at + k])
                at += k
            parts.append(body[at:])
            if be['how'] == 'cl':
                h += b'Content-Length: %d\r\n' % len(body)
            elif be['how'] == 'chunked':
                h += b'Transfer-Encoding: chunked\r\n'
            c.sendall(h + (b'Connection: close\r\n' if be['how'] == 'close' else b'') + b'\r\n')
            for p in parts:
                if be['ms']:
                    time.sleep(be['ms'] / 1000.0)
                if p:
                    c.sendall(b'%x\r\n' % len(p) + p + b'\r\n' if be['how'] == 'chunked' else p)
            if be['how'] == 'chunked':
                c.sendall(b'0\r\n\r\n')
        return handle

    def run(self, case, rec):
        log = self.scratch + '/filters.log'
        open(log, 'w').close()
        conf = 'setup { module_load ["mod_lua", "mod_proxy"]; listen "unix:%%SOCK%%"; workers %d; }\nstrict.post_content_length false;\ndocroot "%s/www";\n' % (case['workers'], self.scratch)
        for i, s in enumerate(case['sites']):
            conf += 'if req.path =^ "/%d/" {\n' % i
            for part in ('before', 'after'):
                fs = [(j, x) for j, x in enumerate(s['out']) if x['after'] == (part == 'after')]
                t = FILTERS % {'log': log, 'dir': self.scratch}
                acts = []
                if part == 'before':
                    for j, k in enumerate(s['inn']):
                        acts.append('lighty.filter_in(class("%s", nil, "i%d"))' % (k, j))
                for j, x in fs:
                    t += 'local c%d = class("%s", %s, "o%d")\n' % (j, x['f'][0], self.arg(x['f'][1]), j)
                    acts.append('lighty.filter_out(c%d)' % j if x['how'] == 'action' else 'function(vr) coroutine.wrap(function() local o = c%d:new(vr); if o then vr:add_filter_out(o) end end)() end' % j if x['how'] == 'co' else 'function(vr) local o = c%d:new(vr); if o then local f = vr:add_filter_out(o); if f then local q = f.out end end end' % j)
                if part == 'after':
                    acts.insert(0, 'function(vr) if vr.is_handled and not vr.has_response then return lighty.HANDLER_WAIT_FOR_EVENT end end')
                    acts.append('function(vr) vr.resp.headers["Content-Length"] = nil end')
                t += 'actions = action.list(%s)\n' % ', '.join(acts + ['function() end'])
                p = '%s/%s%d.lua' % (self.scratch, part, i)
                with open(p, 'w') as f:
                    f.write(t)
                if part == 'before':
                    conf += '\t%s "%s";\n' % ('lua.handler' if s['reg'] == 'handler' else 'include_lua', p)
                    k, n = s['src']
                    conf += {'text': '\trespond 200 => "%s";\n' % ('t' * n), 'static': '\trewrite "^/./(.*)$" => "/s%d";\n\tdocroot "%s/www";\n\tstatic;\n' % (n, self.scratch), 'proxy': '\tproxy "unix:%s/be.sock";\n' % self.scratch}[k]
                else:
                    conf += '\t%s "%s";\n' % ('lua.handler' if s['reg'] == 'handler' else 'include_lua', p)
            conf += '}\n'
        conf = conf.replace('"mod_proxy"]', '"mod_proxy", "mod_rewrite"]')
        be = Backend(self.scratch + '/be.sock', self.backend(case))
        srv = Server(self.scratch, conf)
        try:
            if not srv.start():
                raise Violation('configuration refused: %s' % srv.log_text()[-500:])
            c = None
            for i, r in enumerate(case['rs']):
                c = self.one(case, srv, c, i, r, rec)
            if c:
                c.close()
            end = time.monotonic() + 5
            while True:
                with open(log) as f:
                    ls = f.read().split('\n')[:-1]
                new = [x[4:] for x in ls if x.startswith('new ')]
                fin = [x[4:] for x in ls if x.startswith('fin ')]
                if sorted(new) == sorted(fin) or time.monotonic() > end:
                    break
                time.sleep(0.02)
            srv.settle_dead(0.0)
            srv.check_alive()
            for x in new:
                if fin.count(x) != new.count(x):
                    raise Violation('filter object %s: finished was called %d times, expected once' % (x, fin.count(x)), timing=fin.count(x) == 0)
            late = [x for x in ls if x.startswith('late ')]
            if late:
                raise Violation('handle called after finished: %r' % late)
            left = [x for x in os.listdir(self.scratch) if x.startswith('tmp.')]
            for x in left:
                os.unlink(self.scratch + '/' + x)
            if left:
                raise Violation('files given to add_temp_file were not removed: %r' % left)
        finally:
            srv.kill()
            be.stop()

    def one(self, case, srv, c, i, r, rec):
        s = case['sites'][r['site'] % len(case['sites'])]
        n = r['site'] % len(case['sites'])
        k, size = s['src']
        m = r['m'] if not (r['m'] == 'POST' and k == 'static') else 'GET'
        body = self.data[:r['body']] if m == 'POST' else b''
        h = [('Connection', 'close')] if r['v'] == '1.1c' else []
        if m == 'POST':
            h.append(('Content-Length', str(len(body))))
        # what is to be expected
        if k == 'proxy':
            seen = body
            for x in s['inn']:
                if x == 'same':
                    seen = b'z' * len(seen)
            exp = b'%d:' % len(seen) + hashlib.md5(seen).hexdigest().encode() + b':' + self.data[:size]
        else:
            exp = b't' * size if k == 'text' else self.data[:size]
        chain = [x for x in s['out'] if not x['after']] + [x for x in s['out'] if x['after']]
        may_fail = False
        early = False
        for x in chain:
            f, a = x['f']
            rec.label(f)
            if f == 'err':
                may_fail = True
            elif f in ('replace', 'early'):
                exp = l1(a)
                early |= f == 'early'
            elif f == 'drop':
                exp = b''
            elif f == 'prefix':
                exp = l1(a) + exp
            elif f in ('suffix', 'temp'):
                exp += l1(a)
            elif f == 'file':
                exp += self.data[:5000][a[0]:a[0] + a[1]]
        rec.nt(len([x for x in chain if x['f'][0] not in ('none', 'pass')]) >= 1 or 'same' in s['inn'])
        what = 'request %d (%s %s, %s of %d bytes; in: %r, out: %r)' % (i, m, r['v'], k, size, s['inn'], [(x['f'][0], x['how'], 'after' if x['after'] else 'before', str(x['f'][1])[:20]) for x in chain])
        if c is None:
            c = Conn(path=srv.sock, timeout=10)
        try:
            if r['end'] == 'slow':
                c.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
            c.send(req(m, '/%d/%s?%d' % (n, size, i), r['v'][:3], h, body))
            if r['end'].startswith('abort'):
                if r['end'] == 'abort':
                    c.s.settimeout(0.05)
                    try:
                        c.s.recv(700)
                    except OSError:
                        pass
                c.close()
                return None
            x = c.response(m)
        except (Closed, Malformed, Timeout, OSError) as e:
            c.close()
            srv.settle_dead(0.3)
            srv.check_alive()
            if may_fail and not isinstance(e, Timeout):
                return None
            raise Violation('%s: %s %s; log: %s' % (what, type(e).__name__, e, srv.log_text()[-400:]), timing=isinstance(e, Timeout))
        if may_fail and m != 'HEAD':
            # an error must not look like a complete response, except that the server may tell of the error
            if x.status == 200 and x.get('content-length') is None and x.get('transfer-encoding') is None:
                pass
            elif x.status == 200 and not early and not any(y['f'][0] in ('drop', 'replace') for y in chain) and x.body != exp:
                raise Violation('%s: a failed filter left a complete looking response of %d bytes instead of %d' % (what, len(x.body), len(exp)))
            c.close()
            return None
        if x.status != 200:
            raise Violation('%s: status %d; log: %s' % (what, x.status, srv.log_text()[-400:]))
        if m != 'HEAD' and x.body != exp:
            j = next((j for j, (a, b) in enumerate(zip(x.body, exp)) if a != b), min(len(exp), len(x.body)))
            raise Violation('%s: body of %d bytes, expected %d, first difference at %d: %r / %r' % (what, len(x.body), len(exp), j, x.body[j:j + 30], exp[j:j + 30]))
        if r['v'] != '1.1' or (x.get('connection') or '').lower() == 'close':
            c.close()
            return None
        return c


class Contrib(PerConf):
    """the scripts of contrib/: secdownload, core.xsendfile, auth.require_user, core.cached_html, core.wsgi"""
    NAME = 'contrib'
    N_QUICK = 60
    N_THOROUGH = 2500
    SECS_QUICK = 30

    FILES = ['a', 'a.txt', 'd/a', 'd/e/b.html', 'x.html', 'd.html', 'd/i.html', 'n.html.html', 'with space', 'd/x.html', 'y']

    def setup(self):
        super().setup()
        for base in ('sec', 'sec2', 'www', 'xs', 'xsy'):
            for f in self.FILES:
                p = '%s/%s/%s' % (self.scratch, base, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as o:
                    o.write('FILE %s %s' % (base, f) + ' .' * (len(f) * 3))
        for f in ('secret', 'www.html', 'sec.html', 'xs.html'):
            with open(self.scratch + '/' + f, 'w') as o:
                o.write('FILE outside ' + f)

    def strategy(self):
        fn = st.sampled_from(['/' + f for f in self.FILES] + ['/nope', '/d', '/d/', '/'])
        user = st.sampled_from(['a', 'b', 'a.b', 'axb', 'a|b', 'a+', 'aa', 'a*', '(a)', '[ab]', 'a$', '^a', 'a-b', 'a\\b', '.', '?', 'a?', 'a{2}', 'ab', '', '.*', 'A', 'a b', 'a/b', '#', 'a@b.c', 'a@bxc'])
        sec = st.fixed_dictionaries({'t': st.just('sec'), 'f': fn, 'off': st.sampled_from([0, 0, 0, -20, 20, -400, 400, -100000, 90, -90, 2 ** 31]), 'mut': st.sampled_from([None] * 4 + ['md5', 'ts', 'path', 'secret', 'noprefix', 'short', 'nots', 'upper', 'other', 'trav', 'sep', 'long']), 'k': st.integers(0, 31), 'fmt': st.sampled_from(['%08x', '%08x', '%x', '%010x', '%08X'])})
        xs = st.fixed_dictionaries({'t': st.just('xs'), 'root': st.sampled_from([None, 'xs', 'xs/', 'xs', 'xs/d', 'xs//d/.']), 'f': st.one_of(fn.map(lambda f: 'xs' + f), fn.map(lambda f: 'xsy' + f), st.sampled_from(['secret', 'xs/../secret', 'xs/d/../a', 'xs/./a', 'xs//d//a', 'xs/d/../../secret', 'xs', 'xs/d', '', 'xs/../xsy/a'])), 'be': st.sampled_from(['cl', 'chunked', 'close', 'direct']), 'n': st.sampled_from([0, 5, 30000]), 'v': st.sampled_from(['1.1', '1.0']), 'm': st.sampled_from(['GET', 'GET', 'HEAD'])})
        us = st.fixed_dictionaries({'t': st.just('user'), 'u': user})
        ch = st.fixed_dictionaries({'t': st.just('cached'), 'f': st.one_of(fn, st.sampled_from(['/x', '/d', '/d/', '/d/x', '/n.html', '/', '/n', '/d/i/', '/x/', '/with', '/../secret', '/d/e/b', '/d/e/b.html', '/.html']))})
        ws = st.fixed_dictionaries({'t': st.just('wsgi'), 'p': st.sampled_from(['', '/', '/a', '/a/b', '//x', '/%41%20b', '/a/../c'])})
        return st.fixed_dictionaries({'prefix': st.sampled_from(['/sec/', '/sec/', '/s', None, '/a.b/']), 'slash': st.booleans(), 'secret': st.sampled_from(['abc', 's%e', 'x' * 70, '']), 'timeout': st.sampled_from([None, 50, 600]), 'users': st.lists(user, min_size=1, max_size=4), 'wp': st.sampled_from(['/trac', '/t/r', '/t.r']), 'rs': st.lists(st.one_of(sec, sec, xs, us, ch, ws), min_size=4, max_size=14)})

    def run(self, case, rec):
        repo = os.environ.get('VERIF_REPO', '/repo')
        s = self.scratch
        prefix = case['prefix'] or '/'
        conf = 'setup { module_load ["mod_lua", "mod_auth", "mod_proxy"]; listen "unix:%%SOCK%%"; workers 1; lua.plugin "%s/contrib/core.lua"; lua.plugin "%s/contrib/secdownload.lua"; }\n' % (repo, repo)
        conf += 'docroot "%s/www";\n' % s
        roots = sorted(set(r['root'] or '-' for r in case['rs'] if r['t'] == 'xs'))
        opts = ['"document-root" => %s' % cstr(s + '/sec' + ('/' if case['slash'] else '')), '"secret" => %s' % cstr(case['secret'])]
        if case['prefix']:
            opts.append('"prefix" => %s' % cstr(case['prefix']))
        if case['timeout']:
            opts.append('"timeout" => %d' % case['timeout'])
        timeout = case['timeout'] or 60
        conf += 'if req.host == "sec" { secdownload [ %s ]; if physical.docroot !~ "/sec/?$" { respond 200 => "not protected"; } static; }\n' % ', '.join(opts)
        conf += 'if req.host == "user" { env.set "REMOTE_USER" => "%%{req.header[X-User]}"; auth.require_user [ %s ]; respond 200 => "let in"; }\n' % ', '.join(cstr(u) for u in case['users'])
        conf += 'if req.host == "cached" { core.cached_html; static; }\n'
        conf += 'if req.host == "wsgi" { core.wsgi ( %s, { respond 200 => "%%{req.path} %%{phys.pathinfo}"; } ); respond 200 => "no app"; }\n' % cstr(case['wp'])
        for i, r in enumerate(roots):
            for be in ('be', 'direct'):
                conf += 'if req.host == "%s%d" { ' % (be, i)
                conf += 'proxy "unix:%s/be.sock"; ' % s if be == 'be' else 'respond 200 => "backend body"; header.add "X-Sendfile" => "%{req.header[X-File]}"; '
                conf += 'core.xsendfile%s; }\n' % ('' if r == '-' else ' ' + cstr(s + '/' + r))
        now = int(time.time())
        plan = []
        for r in case['rs']:
            t = r['t']
            if t == 'sec':
                ts = r['fmt'] % max(0, now + r['off'])
                h = hashlib.md5(l1(case['secret'] + r['f'] + ts)).hexdigest()
                f, m = r['f'], r['mut']
                pre = prefix
                if m == 'md5':
                    h = h[:r['k']] + ('0' if h[r['k']] != '0' else '1') + h[r['k'] + 1:]
                elif m == 'upper':
                    m, h = ('upper', h.upper()) if h.upper() != h else (None, h)
                elif m == 'ts':
                    ts = ts[:-1] + ('0' if ts[-1] != '0' else '1')
                elif m == 'path':
                    f += 'x'
                elif m == 'secret':
                    h = hashlib.md5(l1('no' + case['secret'] + r['f'] + ts)).hexdigest()
                elif m == 'short':
                    h = h[:31]
                elif m == 'long':
                    h += '0'
                elif m == 'nots':
                    ts = ['', 'zz', '-1', 'g0'][r['k'] % 4]
                elif m == 'other':
                    f = '/a' if f != '/a' else '/y'
                u = pre + h + '/' + ts + f.replace(' ', '%20')
                if m == 'noprefix':
                    u = '/other' + u
                    if prefix == '/':
                        m = 'md5'
                elif m == 'trav':
                    u = pre + h + '/' + ts + '/../' + ts + '/../../../secret'
                elif m == 'sep':
                    u = pre + h + 'x' + ts + f
                plan.append((r, req('GET', u, '1.1', host='sec'), 'GET', (m, u)))
            elif t == 'user':
                plan.append((r, req('GET', '/', '1.1', [('X-User', r['u'])] if r['u'] else [], host='user'), 'GET', None))
            elif t == 'cached':
                plan.append((r, req('GET', r['f'].replace(' ', '%20'), '1.1', host='cached'), 'GET', None))
            elif t == 'wsgi':
                plan.append((r, req('GET', case['wp'] + r['p'], '1.1', host='wsgi'), 'GET', None))
            else:
                h = 'direct' if r['be'] == 'direct' else 'be'
                plan.append((r, req(r['m'], '/', r['v'], [('X-File', s + '/' + r['f'] if r['f'] else '-'), ('X-How', r['be']), ('X-N', str(r['n']))] + ([('Connection', 'keep-alive')] if r['v'] == '1.0' else []), host='%s%d' % (h, roots.index(r['root'] or '-'))), r['m'], None))
        be = Backend(s + '/be.sock', self.backend)
        try:
            rec.nt(len(set(r['t'] for r in case['rs'])) >= 2)
            srv = Server(s, conf)
            if not srv.start():
                srv.settle_dead(0.2)
                srv.check_alive()
                raise Violation('configuration refused: %s' % srv.log_text()[-500:])
            try:
                for r, raw, m, extra in plan:
                    c = Conn(path=srv.sock, timeout=10)
                    try:
                        c.send(raw)
                        try:
                            x = c.response(m)
                        except (Closed, Malformed, Timeout) as e:
                            srv.settle_dead(0.2)
                            srv.check_alive()
                            x = None
                            if isinstance(e, (Malformed, Timeout)):
                                raise Violation('%r: %s %s' % (raw[:200], type(e).__name__, e), timing=isinstance(e, Timeout))
                    finally:
                        c.close()
                    rec.label(r['t'] + (':%s' % x.status if x else ':closed'))
                    self.judge(case, r, raw, m, extra, x, prefix, timeout)
                srv.settle_dead(0.0)
                srv.check_alive()
            finally:
                srv.kill()
        finally:
            be.stop()

    @staticmethod
    def backend(c):
        q = read_http_request(c)
        h = dict(q['headers'])
        n, how = int(h[b'X-N']), h[b'X-How']
        f = h[b'X-File'] if h[b'X-File'] != b'-' else b''
        body = b'backend body' + b'b' * n
        head = b'HTTP/1.1 200 OK\r\nX-Sendfile: ' + f + b'\r\nX-Other: o\r\n'
        if q['method'] == b'HEAD':
            c.sendall(head + b'Content-Length: %d\r\n\r\n' % len(body))
        elif how == b'chunked':
            c.sendall(head + b'Transfer-Encoding: chunked\r\n\r\n%x\r\n' % len(body) + body + b'\r\n0\r\n\r\n')
        elif how == b'cl':
            c.sendall(head + b'Content-Length: %d\r\n\r\n' % len(body) + body)
        else:
            c.sendall(head + b'Connection: close\r\n\r\n' + body)

    def content(self, p):
        try:
            with open(p, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def judge(self, case, r, raw, m, extra, x, prefix, timeout):
        t = r['t']
        what = '%s: %r' % (t, raw[:160])
        st_, body = (x.status, x.body) if x else (None, b'')

        def bad(exp):
            raise Violation('%s (settings: prefix %r timeout %r users %r): got %r %r, expected %s' % (what, prefix, timeout, case['users'], st_, body[:50], exp))

        if t == 'sec':
            mut, u = extra
            if b'outside' in body:
                bad('nothing from outside of the document root')
            if mut == 'noprefix':
                if body != b'not protected':
                    bad('an unprotected request')
            elif mut is None:
                if abs(abs(r['off']) - timeout) <= 5:
                    return
                if abs(r['off']) > timeout:
                    if st_ != 410:
                        bad('410, the link is %d s off' % r['off'])
                    return
                c = self.content(self.scratch + '/sec' + r['f'])
                if c is not None and (st_ != 200 or body != c):
                    bad('the file')
                if c is None and (st_ in (200, 403, 410) and r['f'][-1] != '/'):
                    bad('no such file')
            elif st_ == 200 and mut != 'trav' or st_ is None or b'FILE sec' in body:
                bad('no access, the link is wrong (%s)' % mut)
        elif t == 'user':
            if (st_, body) != (200, b'let in') if r['u'] in case['users'] else (st_ == 200 or st_ not in (401, 403)):
                bad('access' if r['u'] in case['users'] else 'no access')
        elif t == 'cached':
            p = os.path.normpath(self.scratch + '/www' + os.path.normpath('/' + r['f'].lstrip('/'))) + ('/' if r['f'].endswith('/') and len(r['f']) > 1 else '')
            if b'outside' in body:
                bad('nothing from outside of the document root')
            exp = self.content(p) if not p.endswith('/') else None
            if exp is None and not p.endswith('.html') and p.rstrip('/') != self.scratch + '/www':
                exp = self.content(p.rstrip('/') + '.html')
            if exp is not None and (st_, body) != (200, exp):
                bad(repr(exp[:50]))
            if exp is None and st_ == 200:
                bad('no content')
        elif t == 'wsgi':
            if r['p'] in ('', '/', '/a', '/a/b') and (st_, body) != (200, l1(case['wp'] + ' ' + r['p'])):
                bad('%r' % (case['wp'] + ' ' + r['p']))
            if st_ != 200:
                bad('200')
        else:
            p = os.path.normpath(self.scratch + '/' + r['f'])
            if not r['f']:
                if x is None or st_ != 200 or m != 'HEAD' and not body.startswith(b'backend body'):
                    if r['be'] != 'direct':
                        bad('the response of the backend')
                return
            inside = r['root'] is None or (p + '/').startswith(os.path.normpath(self.scratch + '/' + r['root']) + '/')
            c = self.content(p) if not r['f'].endswith('/') else None
            if not inside:
                if b'FILE' in body:
                    bad('no file from outside of the given directory')
            elif c is not None:
                if x is None or st_ != 200 or m != 'HEAD' and body != c or x.get('x-sendfile') or r['be'] != 'direct' and x.get('x-other') != 'o':
                    bad('the file, and no X-Sendfile header')
                if m == 'HEAD' and x.get('content-length') not in (None, str(len(c))):
                    bad('the length of the file, not %r' % x.get('content-length'))
            elif b'FILE' in body:
                bad('no file')


class Reload(Sub):
    """lua.handler files are picked up again within ttl (+ stat cache), a bad file only fails its own requests"""
    NAME = 'reload'
    N_QUICK = 2
    N_THOROUGH = 60
    SECS_QUICK = 45
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)

    def teardown(self):
        pass

    def strategy(self):
        stp = st.fixed_dictionaries({'wait': st.one_of(st.integers(0, 12), st.integers(0, 45)), 'k': st.sampled_from(['good'] * 5 + ['syntax', 'rt', 'none', 'missing', 'dir']), 'mt': st.sampled_from(['now'] * 5 + ['old', 'older', 'future'])})
        plan = st.fixed_dictionaries({'steps': st.lists(stp, min_size=1, max_size=6), 'poll': st.integers(1, 8), 'keep': st.booleans()})
        return st.fixed_dictionaries({'ttl': st.sampled_from([1, 1, 2]), 'sc': st.sampled_from([0, 1, 1, 2]), 'workers': st.sampled_from([1, 2]), 'plans': st.lists(plan, min_size=10, max_size=16)})

    def put(self, n, serial, s):
        p = '%s/h%d.lua' % (self.scratch, n)
        if s['k'] == 'missing':
            try:
                os.unlink(p)
            except OSError:
                pass
            return None
        if s['k'] == 'dir':     # a file that exists but can't be loaded
            t = '\0\1\2'
        elif s['k'] == 'good':
            t = 'local fn, a = ...\nactions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add("v%d " .. a.x) end\n' % serial
        elif s['k'] == 'syntax':
            t = 'actions = function(vr) vr:handle_direct( end\n'
        elif s['k'] == 'rt':
            t = 'actions = nil + %d\n' % serial
        else:
            t = 'local x = %d\n' % serial
        with open(p + '.tmp', 'w') as f:
            f.write(t)
        now = time.time()
        mt = {'now': None, 'old': now - 5000 + 50 * serial, 'older': now - 9000 - 50 * serial, 'future': now + 5000 + 50 * serial}[s['mt']]
        if mt is not None:
            os.utime(p + '.tmp', (mt, mt))
        os.rename(p + '.tmp', p)
        return 'v%d A%d' % (serial, n) if s['k'] == 'good' else None

    def run(self, case, rec):
        conf = 'setup { module_load "mod_lua"; listen "unix:%%SOCK%%"; workers %d; stat_cache.ttl %d; }\n' % (case['workers'], case['sc'])
        for n, _ in enumerate(case['plans']):
            conf += 'if req.path == "/%d" { lua.handler ("%s/h%d.lua", [ "ttl" => %d ], [ "x" => "A%d" ]); }\n' % (n, self.scratch, n, case['ttl'], n)
        conf += 'respond 200 => "end";\n'
        for n, pl in enumerate(case['plans']):
            for f in ('', '.tmp'):
                try:
                    os.unlink('%s/h%d.lua%s' % (self.scratch, n, f))
                except OSError:
                    pass
        srv = Server(self.scratch, conf)
        if not srv.start():
            raise Violation('configuration refused: %s' % srv.log_text()[-500:])
        errs = []
        self.rec = rec
        try:
            ths = [threading.Thread(target=self.plan, args=(case, srv, n, pl, errs)) for n, pl in enumerate(case['plans'])]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            srv.settle_dead(0.0)
            srv.check_alive()
            if errs:
                raise errs[0]
        finally:
            srv.kill()

    def plan(self, case, srv, n, pl, errs):
        bound = case['ttl'] + case['sc'] + 3.0
        hist = []    # (time the state is there for certain / began, answer)
        try:
            for i, s in enumerate(pl['steps'] + [None]):
                end = time.monotonic() + (s['wait'] / 10.0 if s else bound + 0.7)
                if s is None:
                    self.rec.nt(len(hist) >= 2)
                while hist:
                    self.ask(srv, n, hist, bound)
                    if time.monotonic() >= end:
                        break
                    time.sleep(min(pl['poll'] / 10.0, max(0.01, end - time.monotonic())))
                if s is not None:
                    if not hist:
                        time.sleep(0)
                    t0 = time.monotonic()
                    a = self.put(n, i, s)
                    hist.append((t0, time.monotonic(), a, s['k'], s['mt']))
                    self.rec.label(s['k'])
            # a last one, alone
            self.ask(srv, n, hist, bound)
        except Violation as e:
            errs.append(e)
        except Exception as e:
            errs.append(Violation('client failed: %s %s' % (type(e).__name__, e), timing=True))

    def ask(self, srv, n, hist, bound):
        t0 = time.monotonic()
        c = Conn(path=srv.sock, timeout=10)
        try:
            c.send(req('GET', '/%d' % n, '1.1', [('Connection', 'close')]))
            r = c.response('GET')
            got = r.body.decode('latin-1') if r.status == 200 else None
            if r.status < 500 and r.status != 200:
                got = str(r.status)
        except Closed:
            got = None
        finally:
            c.close()
        t1 = time.monotonic()
        # the states that were current at some time in [t0 - bound, t1]
        ok = [a for k, (b, e, a, _, _) in enumerate(hist) if b <= t1 and not (k + 1 < len(hist) and hist[k + 1][1] < t0 - bound)]
        if got not in ok:
            raise Violation('lua.handler with ttl answered %r, but the file was last changed %s' % (got, ', '.join('%.1f s ago to %r (%s, mtime %s)' % (t0 - e, a, k, m) for b, e, a, k, m in hist[-3:])), timing=True)


SUBS = [Objects, Misuse, Filters, Contrib, Reload]

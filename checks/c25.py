"""C25: caches: memcached.lookup / memcached.store, the memcached Lua API, cache.disk.etag."""
import base64
import hashlib
import os
import re
import shutil
import threading
import time
import zlib
from urllib.parse import quote, unquote_to_bytes

from hypothesis import strategies as st

from lib.backend import Backend, read_http_request
from lib.e2e import E2E, l1, req
from lib.http import Closed, Conn, Malformed, Timeout
from lib.memcached import FakeMemcached
from lib.runner import Sub
from lib.server import Server, Violation, free_port, own_addr

RULE = ('memcached: sequences of requests (paths, methods, statuses, sizes, framings, broken backends) through lookup and store with several options against a memcached whose replies arrive in generated pieces; '
        'faults: the same, several connections at once, with replies that are cut, wrong, late or missing; lua: programs of get/set/setq calls through the Lua API; disk: sequences of responses with and without ETag through cache.disk.etag; '
        'non-trivial: a hit and a store (memcached, disk), a spoiled reply (faults), an answered get (lua)')


def pattern(key, n):
    unit = ('<%s|%d>' % (key, n)).encode()
    return (unit * (n // len(unit) + 1))[:n]


class Origin(Backend):
    """answers /path?v=..&n=..&st=..&fr=..&cut=..&et=.. with a body that says where it came from"""

    def handle(self, c):
        q = read_http_request(c)
        path, _, query = q['target'].decode('latin-1').partition('?')
        a = dict(x.split('=', 1) for x in query.split('&') if '=' in x)
        n = int(a.get('n', 10))
        body = self.body(path, a)
        h = b'HTTP/1.1 %d X\r\nContent-Type: text/x-origin\r\n' % int(a.get('st', 200))
        if 'et' in a:
            for e in a['et'].split(','):
                h += b'ETag: "%s"\r\n' % unquote_to_bytes(e)
        fr = a.get('fr', 'cl')
        out = body
        if q['method'] == b'HEAD':
            h += b'Content-Length: %d\r\n' % n if fr == 'cl' else b''
            out = b''
        elif fr == 'cl':
            h += b'Content-Length: %d\r\n' % n
        elif fr == 'chunked':
            h += b'Transfer-Encoding: chunked\r\n'
            step = max(1, n // 3)
            out = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + step]), body[i:i + step]) for i in range(0, n, step)) + b'0\r\n\r\n'
        else:
            h += b'Connection: close\r\n'
        if 'cut' in a:
            out = out[:int(a['cut']) % max(1, len(out))]
        c.sendall(h + b'\r\n')
        step = int(a.get('step', 0))
        if step:
            for i in range(0, len(out), step):
                c.sendall(out[i:i + step])
                if i // step < 20:
                    time.sleep(0.001)
        else:
            c.sendall(out)

    @staticmethod
    def body(path, a):
        return pattern('%s?%s' % (path, a.get('v', '')), int(a.get('n', 10)))


def mutate(key):
    if 0 < len(key) <= 250 and all(0x20 < x < 0x7f for x in key):
        return key
    return hashlib.sha1(key).hexdigest().encode()


MIME = 'mime_types [".txt" => "text/plain", ".bin" => "x/y"];\n'
TYPES = {'.txt': 'text/plain', '.bin': 'x/y'}


def mime(path):
    for e, t in TYPES.items():
        if path.endswith(e):
            return t
    return 'application/octet-stream'


ZONES = {  # name -> (lookup options, store options)
    'a': ({}, {'ttl': 60}),
    'b': ({'key': 'b:%{req.host}%{req.path}'}, {'key': 'b:%{req.host}%{req.path}', 'ttl': 0, 'flags': 17, 'maxsize': 3000}),
    'c': ({'key': '%{req.path} %{req.host}'}, {'key': '%{req.path} %{req.host}', 'maxsize': 300000}),
}


def opts(server, o):
    l = ['"server" => "%s"' % server]
    for k, v in o.items():
        l.append('"%s" => %s' % (k, '"%s"' % v if isinstance(v, str) else v))
    return '[' + ', '.join(l) + ']'


class Mem(E2E):
    NAME = 'memcached'
    N_QUICK = 250
    N_THOROUGH = 3000
    SECS_QUICK = 40
    RECYCLE = 100

    SERVER = 'unix:%SCRATCH%/m'

    def prepare(self):
        self.m = FakeMemcached(path=self.scratch + '/m')
        self.o = Origin(path=self.scratch + '/o')

    def teardown(self):
        super().teardown()
        self.m.stop()
        self.m.drop()
        self.o.stop()

    def conf(self):
        s = self.SERVER.replace('%SCRATCH%', self.scratch)
        out = 'setup { listen "unix:%SOCK%"; workers 1; module_load ["mod_memcached", "mod_proxy", "mod_vhost"]; }\nkeepalive.requests 100000;\n' + MIME
        for z, (lo, so) in ZONES.items():
            out += ('if req.header["X-Zone"] == "%s" { memcached.lookup (%s, { header.add "X-Memcached" => "Hit"; }, { header.add "X-Memcached" => "Miss"; proxy "unix:%s/o"; memcached.store %s; }); } else '
                    % (z, opts(s, lo), self.scratch, opts(s, so)))
        return out + '{ respond 500; }\n'

    PATHS = ['/a', '/b', '/a.txt', '/d/e.bin', '/with%20space', '/%C3%A4', '/' + 'l' * 245, '/' + 'l' * 260, '/q%ff']

    def rq(self):
        return st.fixed_dictionaries({
            'z': st.sampled_from('aaabc'), 'p': st.sampled_from(self.PATHS[:3] * 4 + self.PATHS), 'host': st.sampled_from(['h', 'h', 'i']), 'm': st.sampled_from(['GET'] * 8 + ['HEAD']),
            'n': st.one_of(st.sampled_from([0, 0, 1, 10, 2999, 3000, 3001, 16384, 65535, 65536, 65537, 4083, 4084, 4085, 4094, 4095, 4096]), st.integers(0, 9000), st.integers(0, 200000)),
            'st': st.sampled_from([200] * 9 + [404, 206, 302]), 'fr': st.sampled_from(['cl', 'cl', 'chunked', 'eof']), 'cut': st.sampled_from([None] * 9 + [0, 5, 70000]), 'step': st.sampled_from([0, 0, 1000]),
            'evict': st.sampled_from([False] * 6 + [True])})

    def pl(self):
        return st.fixed_dictionaries({}, optional={'cuts': st.lists(st.one_of(st.integers(0, 60), st.integers(0, 10000), st.integers(-12, -1)), max_size=4), 'bytes': st.sampled_from([False, False, True]), 'delay': st.sampled_from([0, 0, 0.003])})

    def strategy(self):
        return st.fixed_dictionaries({'rs': st.lists(self.rq(), min_size=2, max_size=14), 'pl': st.lists(self.pl(), max_size=10)})

    def target(self, r, v):
        a = {'v': v, 'n': r['n'], 'st': r['st'], 'fr': r['fr']}
        if r['cut'] is not None:
            a['cut'] = r['cut']
        if r['step']:
            a['step'] = r['step']
        return r['p'] + '?' + '&'.join('%s=%s' % x for x in a.items()), Origin.body(r['p'], {k: str(v) for k, v in a.items()})

    def key(self, r):
        path = unquote_to_bytes(r['p'])
        k = ZONES[r['z']][0].get('key', '%{req.path}').encode()
        return mutate(k.replace(b'%{req.host}', r['host'].encode()).replace(b'%{req.path}', path))

    def fails(self, r):
        """the backend breaks off before the response is complete"""
        if r['cut'] is None or r['m'] == 'HEAD':
            return False
        n = r['n']
        if r['fr'] == 'cl':
            return n > 0 and r['cut'] % max(1, n) < n
        return r['fr'] == 'chunked'

    def run(self, case, rec):
        self.m.reset([dict(p) for p in case['pl']])
        c = self.conn()
        hits = sets = 0
        try:
            for i, r in enumerate(case['rs']):
                h, s = self.step(c, r, i)
                hits += h
                sets += s
                if self.fails(r):
                    c.close()
                    c = self.conn()
        finally:
            c.close()
        if self.m.bad:
            raise Violation('memcached received: %s' % self.m.bad[0])
        rec.nt(hits and sets)
        rec.label('hit', hits)
        rec.label('set', sets)

    def step(self, c, r, i):
        m = self.m
        key = self.key(r)
        so = ZONES[r['z']][1]
        if r['evict']:
            with m.lock:
                m.d.pop(key, None)
        with m.lock:
            before = m.d.get(key)
            mark = len(m.log)
        target, body = self.target(r, 'v%d' % i)
        what = 'request %d: %s %s key %r' % (i, r['m'], target[:80], key[:60])
        c.s.sendall(req(r['m'], target, headers=[('X-Zone', r['z'])], host=r['host']))
        fails = before is None and self.fails(r)
        try:
            rs = c.response(r['m'], 10)
        except Malformed as e:
            raise Violation('malformed response (%s): %s' % (what, e))
        except Closed:
            if fails:
                rs = None
            else:
                self.died()
                raise Violation('connection closed (%s)' % what)
        except Timeout:
            self.died()
            raise Violation('no answer (%s)' % what, timing=True)
        with m.lock:
            gets = [x for x in m.log[mark:] if x[0] == 'get']
        if len(gets) != 1 or gets[0][1] != key:
            raise Violation('%s: memcached was asked for %r' % (what, [g[1][:80] for g in gets]))
        if before is not None:
            if rs.get('X-Memcached') != 'Hit' or rs.status != 200:
                raise Violation('%s: in the cache, but the answer is %s' % (what, rs.brief()))
            want = b'' if r['m'] == 'HEAD' else before[1]
            if rs.body != want:
                raise Violation('%s: cached value of %d bytes delivered as %d bytes: %r... for %r...' % (what, len(want), len(rs.body), rs.body[:60], want[:60]))
            if rs.get('Content-Type') != mime(r['p']):
                raise Violation('%s: hit with Content-Type %r' % (what, rs.get('Content-Type')))
            return 1, 0
        if rs is not None and not fails:
            if rs.get('X-Memcached') != 'Miss' or rs.status != r['st']:
                raise Violation('%s: not in the cache, but the answer is %s' % (what, rs.brief()))
            want = b'' if r['m'] == 'HEAD' else body
            if r['cut'] is not None and r['fr'] == 'eof' and want:
                want = want[:r['cut'] % max(1, len(want))]
            if rs.body != want and (want or r['st'] < 400):
                raise Violation('%s: response of %d bytes delivered as %d bytes' % (what, len(want), len(rs.body)))
        store = not fails and r['m'] == 'GET' and r['st'] == 200 and len(want) <= so.get('maxsize', 65536)
        if store:
            if not m.wait(lambda: any(x[0] == 'set' for x in m.log[mark:]), 5):
                raise Violation('%s: complete response of %d bytes was not stored' % (what, len(want)), timing=True)
            x = [x for x in m.log[mark:] if x[0] == 'set'][0]
            if x[1] != key or x[2] != so.get('flags', 0) or x[3] != so.get('ttl', 30) or x[4] != want:
                raise Violation('%s: stored key %r flags %d ttl %d, %d bytes %r... instead of %d bytes' % (what, x[1][:80], x[2], x[3], len(x[4]), x[4][:60], len(want)))
            return 0, 1
        if r['m'] == 'HEAD' or fails or r['st'] != 200 or r['n'] > so.get('maxsize', 65536):
            time.sleep(0.004)
            with m.lock:
                s = [x for x in m.log[mark:] if x[0] == 'set']
            if s:
                raise Violation('%s: %s response of %d bytes stored with %d bytes (status %d)' % (what, 'incomplete' if fails else r['m'], r['n'], len(s[0][4]), r['st']))
        return 0, 0


class Faults(Mem):
    NAME = 'faults'
    N_QUICK = 16
    N_THOROUGH = 500
    SECS_QUICK = 60
    RECYCLE = 60

    def prepare(self):
        self.addr = (own_addr(), free_port(own_addr()))
        self.SERVER = '%s:%d' % self.addr
        self.m = FakeMemcached(tcp=self.addr)
        self.o = Origin(path=self.scratch + '/o')

    def rq(self):
        return st.fixed_dictionaries({
            'z': st.sampled_from('aac'), 'p': st.sampled_from(['/a', '/b', '/c.txt', '/with%20space']), 'host': st.just('h'), 'm': st.sampled_from(['GET'] * 8 + ['HEAD']), 'n': st.one_of(st.sampled_from([0, 1, 4090, 4096, 65536]), st.integers(0, 9000), st.integers(0, 120000)),
            'st': st.just(200), 'fr': st.sampled_from(['cl', 'chunked', 'eof']), 'cut': st.sampled_from([None] * 12 + [5]), 'step': st.sampled_from([0, 0, 1000]), 'gone': st.sampled_from([None] * 8 + [0, 1, 3, 10])})

    def pl(self):
        f = st.one_of(
            st.fixed_dictionaries({'fault': st.sampled_from(['close', 'servererror', 'error', 'notstored', 'flags', 'noend'])}),
            st.fixed_dictionaries({'fault': st.sampled_from(['cut', 'garbage', 'longline']), 'arg': st.integers(1, 70000)}),
            st.fixed_dictionaries({'fault': st.just('size'), 'arg': st.sampled_from([-1, -2, -3, 0, 1, 2, 2 ** 31, 2 ** 32 + 5, 2 ** 62, 2 ** 64, -2 ** 63, 10 ** 30, 99999, '1x', '', '0x10', '1 2', '1 2 3', '-'])}))
        return st.one_of(super().pl(), super().pl(), super().pl(), f, f, st.tuples(f, super().pl()).map(lambda t: dict(t[1], **t[0])))

    def strategy(self):
        return st.fixed_dictionaries({'cs': st.lists(st.lists(self.rq(), min_size=1, max_size=7), min_size=1, max_size=5), 'pl': st.lists(self.pl(), min_size=1, max_size=14), 'restart': st.sampled_from([False, False, True])})

    def run(self, case, rec):
        self.m.reset([dict(p) for p in case['pl']])
        allowed = {}
        self.n = getattr(self, 'n', 0) + 1     # a late store of the previous case must not be taken for one of this case
        pre = '/n%d' % self.n
        cs = [[dict(r, p=pre + r['p']) for r in rs] for rs in case['cs']]
        for k, rs in enumerate(cs):
            for i, r in enumerate(rs):
                r['v'] = 'v%d.%d' % (k, i)
                r['t'], r['b'] = self.target(r, r['v'])
                if r['fr'] == 'eof' and r['cut'] is not None:
                    r['b'] = r['b'][:r['cut'] % max(1, r['n'])]
                r['k'] = self.key(r)
                allowed.setdefault(r['k'], set()).add(r['b'])
        out = []
        ts = [threading.Thread(target=self.client, args=(k, rs, allowed, out), daemon=True) for k, rs in enumerate(cs)]
        for t in ts:
            t.start()
        if case['restart']:
            time.sleep(0.005)
            self.m.drop()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            raise Violation('a client is still waiting after a minute', timing=True)
        self.srv.settle_dead(0.0)
        self.srv.check_alive()
        if out:
            raise Violation(out[0][0], timing=out[0][1])
        with self.m.lock:
            left = len(self.m.plans)
            del self.m.plans[:]
            for x in self.m.log:
                if x[0] == 'set' and x[1].startswith(pre.encode() + b'/') and x[4] not in allowed.get(x[1], ()):
                    raise Violation('stored under %r: %d bytes %r... which are no complete response' % (x[1][:60], len(x[4]), x[4][:60]))
            if self.m.bad:
                raise Violation('memcached received: %s' % self.m.bad[0])
            spoiled = any('fault' in p for p in case['pl'][:len(case['pl']) - left])
            back = (pre + '/back').encode()
            self.m.d[back] = (0, b'cached value')
        # the cache is used again soon
        end = time.monotonic() + 6
        c = self.conn()
        try:
            while True:
                rs = self.get(c, 'GET', pre + '/back?n=10', [('X-Zone', 'a')], 'recovery')
                if rs.body == b'cached value':
                    break
                if rs.body != pattern(pre + '/back?', 10):
                    raise Violation('recovery: %s' % rs.brief())
                with self.m.lock:
                    self.m.d[back] = (0, b'cached value')
                if time.monotonic() > end:
                    raise Violation('memcached works, but is not used any more', timing=True)
                time.sleep(0.05)
        finally:
            c.close()
        rec.nt(spoiled)

    def get(self, c, method, target, headers, what):
        try:
            c.s.sendall(req(method, target, headers=headers, host='h'))
            return c.response(method, 15)
        except Malformed as e:
            raise Violation('malformed response (%s): %s' % (what, e))
        except (Closed, OSError) as e:
            raise Closed(what)
        except Timeout:
            raise Violation('no answer (%s)' % what, timing=True)

    def client(self, k, rs, allowed, out):
        c = None
        try:
            for r in rs:
                if c is None:
                    c = Conn(path=self.srv.sock, timeout=15)
                what = 'client %d: %s %s' % (k, r['m'], r['t'][:80])
                if r['gone'] is not None:
                    c.s.sendall(req(r['m'], r['t'], headers=[('X-Zone', r['z'])], host='h'))
                    time.sleep(r['gone'] / 1000)
                    c.close()
                    c = None
                    continue
                try:
                    a = self.get(c, r['m'], r['t'], [('X-Zone', r['z'])], what)
                except Closed:
                    c.close()
                    c = None
                    if not self.fails(r):
                        raise Violation('connection closed (%s)' % what)
                    continue
                if a.status != 200:
                    raise Violation('%s: %s' % (what, a.brief()))
                hit = a.get('X-Memcached')
                ok = ({b''} if r['m'] == 'HEAD' else allowed[r['k']] if hit == 'Hit' else {r['b']})
                if a.body not in ok:
                    raise Violation('%s: %s with %d bytes %r...' % (what, hit, len(a.body), a.body[:60]))
        except Violation as e:
            out.append((str(e), e.timing))
        except OSError as e:
            out.append(('client %d: %s' % (k, e), True))
        finally:
            if c is not None:
                c.close()


SCRIPT = r"""
local _, args = ...
local addr = args.addr
local con = memcached.new(addr)
local results = {}
local nres = 0
local function hex(s) return (s:gsub(".", function(c) return string.format("%02x", c:byte()) end)) end
local function unhex(s) return (s:gsub("..", function(h) return string.char(tonumber(h, 16)) end)) end
local function show(r)
  if type(r) ~= "table" then return "?" .. tostring(r) end
  local o = "code=" .. tostring(r.code)
  if r.error then return o .. ",error" end
  if r.key then o = o .. ",key=" .. hex(r.key) end
  if r.flags then o = o .. ",flags=" .. tostring(r.flags) end
  if r.cas then o = o .. ",cas=" .. tostring(r.cas) end
  if r.data then o = o .. ",data=" .. hex(r.data) end
  return o
end
local function start(vr, f)
  local op, mode, key = f[1], f[2], unhex(f[3] or "")
  if op == "res" then return show(results[tonumber(f[2])]) end
  if op == "gc" then collectgarbage() collectgarbage() return "ok" end
  if op == "new" then con = memcached.new(addr) return "ok" end
  local who = vr
  local id
  if mode == "cb" then
    nres = nres + 1
    id = nres
    who = function(r) results[id] = r end
  end
  local ok, r, err
  local pcall = pcall
  if mode ~= "vr" and f[#f] == "co" then
    pcall = function(f) local co = coroutine.create(f) return coroutine.resume(co) end
  end
  if op == "get" then ok, r, err = pcall(function() return con:get(key, who) end)
  elseif op == "set" then
    local ttl = tonumber(f[5])
    if ttl then ok, r, err = pcall(function() return con:set(key, unhex(f[4]), who, ttl) end)
    else ok, r, err = pcall(function() return con:set(key, unhex(f[4]), who) end) end
  elseif op == "setq" then
    local ttl = tonumber(f[5])
    if ttl then ok, r, err = pcall(function() return con:setq(key, unhex(f[4]), ttl) end)
    else ok, r, err = pcall(function() return con:setq(key, unhex(f[4])) end) end
    return ok and tostring(r) or "err"
  elseif op == "bad" then
    local bad = {
      function() return con:get() end, function() return con:get(key) end, function() return con:get(key, 5) end, function() return con:get({}, vr) end, function() return con.get(vr, key, vr) end,
      function() return con:set(key, "v") end, function() return con:set(key, {}, vr) end, function() return con:set(key, nil, vr) end, function() return con:set(key, "v", 7) end,
      function() return con:setq(key) end, function() return con:setq(key, {}) end, function() return con:setq({}, "v") end, function() return memcached.new({}) end, function() return memcached.new("not an address") end, function() return con.nosuch() end,
    }
    ok, r = pcall(bad[tonumber(mode)])
    return ok and "no error" or "err"
  end
  if not ok then return "err" end
  if not r then return "nil" end
  if mode == "cb" then return "id=" .. id end
  return r
end
actions = function(vr)
  if not ops then
    ops = {}
    for op in vr.req.headers["X-Ops"]:gmatch("[^;]+") do
      local f = {}
      for x in (op .. ":"):gmatch("([^:]*):") do f[#f + 1] = x end
      ops[#ops + 1] = start(vr, f)
    end
  end
  local out = {}
  for i, o in ipairs(ops) do
    if type(o) ~= "string" then
      if not o.response or not o.response.code then return lighty.HANDLER_WAIT_FOR_EVENT end
      o = show(o.response)
    end
    out[i] = o
  end
  if vr:handle_direct() then
    vr.resp.status = 200
    vr.out:add(table.concat(out, ";"))
  end
end
"""


class Lua(E2E):
    NAME = 'lua'
    N_QUICK = 200
    N_THOROUGH = 5000
    SECS_QUICK = 30
    RECYCLE = 150

    def prepare(self):
        self.m = FakeMemcached(path=self.scratch + '/m')
        with open(self.scratch + '/s.lua', 'w') as f:
            f.write(SCRIPT)

    def teardown(self):
        super().teardown()
        self.m.stop()
        self.m.drop()

    def conf(self):
        return ('setup { listen "unix:%%SOCK%%"; workers 1; module_load ["mod_memcached", "mod_lua"]; }\nkeepalive.requests 100000;\nlua.handler "%s/s.lua", [], ["addr" => "unix:%s/m"];\n' % (self.scratch, self.scratch))

    KEYS = [b'a', b'b', b'k' * 250, b'x/y?z=1&:;', b'!~']
    BADKEYS = [b'', b'with space', b'a\r\nset b 0 0 1\r\nx', b'\xff', b'k' * 251, b'\x7f', b'a\x00']

    def strategy(self):
        key = st.one_of(st.sampled_from(self.KEYS), st.sampled_from(self.KEYS), st.sampled_from(self.KEYS[:2]), st.sampled_from(self.BADKEYS)).map(lambda k: k.hex())
        val = st.one_of(st.sampled_from([b'', b'x', b'END\r\n', b'\r\n', b'\x00', b'VALUE a 0 1\r\nx\r\nEND\r\n', b'\r']), st.binary(max_size=30), st.tuples(st.sampled_from([100, 1023, 1024, 4093, 4094, 4096, 5000]), st.integers(0, 255)).map(lambda t: bytes([t[1]]) * t[0])).map(lambda v: v.hex())
        mode = st.sampled_from(['vr', 'vr', 'vr', 'cb'])
        ttl = st.one_of(st.just(''), st.just(''), st.sampled_from(['0', '1', '60', '100000']))
        op = st.one_of(
            st.tuples(st.just('get'), mode, key), st.tuples(st.just('get'), mode, key), st.tuples(st.just('set'), mode, key, val, ttl), st.tuples(st.just('set'), mode, key, val, ttl), st.tuples(st.just('setq'), st.just(''), key, val, ttl),
            st.tuples(st.just('gc')), st.tuples(st.just('bad'), st.integers(1, 15).map(str))).map(list)
        store = st.one_of(st.tuples(st.just('evict'), key), st.tuples(st.just('put'), key, val)).map(list)
        pl = st.one_of(st.fixed_dictionaries({}, optional={'cuts': st.lists(st.one_of(st.integers(0, 60), st.integers(0, 3000), st.integers(-12, -1)), max_size=4), 'bytes': st.sampled_from([False, True]), 'delay': st.sampled_from([0, 0, 0.003])}),
                       st.fixed_dictionaries({}), st.sampled_from([{'fault': 'servererror'}, {'fault': 'notstored'}]))
        return st.fixed_dictionaries({'rs': st.lists(st.one_of(*[st.lists(op, min_size=1, max_size=5)] * 3, st.lists(store, min_size=1, max_size=3)), min_size=1, max_size=6), 'pl': st.lists(pl, max_size=8), 'co': st.sampled_from([False, False, False, True])})

    def run(self, case, rec):
        m = self.m
        m.reset([dict(p) for p in case['pl']])
        plans = [dict(p) for p in case['pl']]
        model, cbs, sets = {}, {}, []
        n = 0
        c = self.conn()
        try:
            for ops in case['rs']:
                if ops[0][0] in ('evict', 'put'):
                    if not m.wait(lambda: len(m.log) >= n, 4):
                        raise Violation('%d of %d commands reached memcached' % (len(m.log), n), timing=True)
                    for op in ops:
                        k = bytes.fromhex(op[1])
                        if mutate(k) == k:
                            with m.lock:
                                if op[0] == 'evict':
                                    m.d.pop(k, None)
                                    model.pop(k, None)
                                else:
                                    m.d[k] = model[k] = (5, bytes.fromhex(op[2]))
                    continue
                want = []
                for op in ops:
                    if op[0] in ('gc', 'bad'):
                        want.append('ok' if op[0] == 'gc' else 'err')
                        continue
                    k = bytes.fromhex(op[2])
                    if mutate(k) != k:
                        want.append('nil')
                        continue
                    n += 1
                    f = (plans.pop(0) if plans else {}).get('fault')
                    if op[0] == 'get':
                        v = model.get(k)
                        w = 'code=5,error' if f == 'servererror' else 'code=4' if v is None else 'code=1,key=%s,flags=%d,cas=0,data=%s' % (k.hex(), v[0], v[1].hex())
                    else:
                        v = bytes.fromhex(op[3])
                        sets.append((k, 0, int(op[4] or 300), v))
                        if not f:
                            model[k] = (0, v)
                        w = 'code=5,error' if f == 'servererror' else 'code=2' if f == 'notstored' else 'code=1'
                    want.append(('id', w) if op[1] == 'cb' else 'true' if op[0] == 'setq' else w)
                got = self.ask(c, ';'.join(':'.join(o) + (':co' if case['co'] and o[0] in ('get', 'set', 'setq') else '') for o in ops), 'operations %s' % ' '.join(':'.join(o)[:40] for o in ops))
                if len(got) != len(want):
                    raise Violation('%d results for %d operations: %r' % (len(got), len(want), got))
                for op, g, w in zip(ops, got, want):
                    if isinstance(w, tuple):
                        if not g.startswith('id='):
                            raise Violation('%s gives %s' % (':'.join(op)[:100], g))
                        cbs[g[3:]] = (op, w[1])
                    elif g != w:
                        raise Violation('%s gives %s instead of %s' % (':'.join(op)[:100], g[:200], w[:200]))
            left = dict(cbs)
            end = time.monotonic() + 4
            while left:
                for i, g in zip(list(left), self.ask(c, 'gc;' + ';'.join('res:' + i for i in left), 'results of callbacks')[1:]):
                    op, w = left[i]
                    if g == '?nil' and time.monotonic() < end:
                        continue
                    if g != w:
                        raise Violation('%s: the callback gets %s instead of %s' % (':'.join(op)[:100], g[:200], w[:200]), timing=g == '?nil')
                    left.pop(i)
                if left:
                    time.sleep(0.003)
        finally:
            c.close()
        if not m.wait(lambda: sum(x[0] == 'set' for x in m.log) >= len(sets), 4):
            raise Violation('%d of %d values reached memcached' % (sum(x[0] == 'set' for x in m.log), len(sets)), timing=True)
        got = [x[1:] for x in m.log if x[0] == 'set']
        if got != sets:
            x = [(g, w) for g, w in zip(got, sets) if g != w][:1]
            raise Violation('memcached was told to store %s' % (', instead of '.join('key %r flags %d ttl %d value %r' % (y[0][:60], y[1], y[2], y[3][:60]) for y in x[0]) if x else '%d values instead of %d' % (len(got), len(sets))))
        if m.bad:
            raise Violation('memcached received: %s' % m.bad[0])
        rec.nt(n >= 2)
        rec.label('operations', n)
        rec.label('callbacks', len(cbs))

    def ask(self, c, query, what):
        try:
            c.s.sendall(req('GET', '/', headers=[('X-Ops', query)]))
            rs = c.response('GET', 10)
        except Malformed as e:
            raise Violation('malformed response (%s): %s' % (what, e))
        except (Closed, OSError):
            self.died()
            raise Violation('connection closed (%s)' % what)
        except Timeout:
            self.died()
            raise Violation('no answer (%s)' % what, timing=True)
        if rs.status != 200:
            raise Violation('%s: %s' % (what, rs.brief()))
        return rs.body.decode().split(';')


class Disk(E2E):
    NAME = 'disk'
    N_QUICK = 150
    N_THOROUGH = 2500
    SECS_QUICK = 40
    RECYCLE = 60

    ZONES = {'a': ('proxy "unix:%s/o"; cache.disk.etag "%s/cache/a/x";', False), 'b': ('proxy "unix:%s/o"; deflate; cache.disk.etag "%s/cache/b";', True), 'c': ('proxy "unix:%s/o"; cache.disk.etag "%s/cache/c"; deflate;', False)}

    def prepare(self):
        self.o = Origin(path=self.scratch + '/o')
        shutil.rmtree(self.scratch + '/cache', ignore_errors=True)
        os.makedirs(self.scratch + '/cache')
        self.strict = self.index % 2 == 0
        self.n = 0

    def teardown(self):
        super().teardown()
        self.o.stop()

    def conf(self):
        out = 'setup { listen "unix:%SOCK%"; workers 1; module_load ["mod_cache_disk_etag", "mod_proxy", "mod_deflate"]; ' + ('stat_cache.ttl 0; ' if self.strict else '') + '}\nkeepalive.requests 100000;\nstrict.post_content_length false;\n'
        for z, (a, _) in self.ZONES.items():
            out += 'if req.header["X-Zone"] == "%s" { %s } else ' % (z, a % (self.scratch, self.scratch))
        return out + '{ respond 500; }\n'

    PATHS = ['/a', '/b', '/d/', '/d/e', '/d', '/with%20space', '/%C3%A4', '/a-' + 'x' * 10, '/' + 'l' * 250, '/a/b']

    TWINS = ['O%ff%93o%f3%c0D', 'O%e4%db%ff%f3%c0D', '%cf%ffj%af%cb%5e%3e', '%cf%da%ab%ff%cb%5e%3e']      # equal but for the place of a // in their base64

    def strategy(self):
        etag = st.one_of(st.sampled_from(['e1', 'e1', 'e2', 'e3', '', 'W', '..', '/', '%ff%ff%ff%ff', 'O%ff%93o%f3%c0D', 'O%e4%db%ff%f3%c0D', '%cf%ffj%af%cb%5e%3e', '%cf%da%ab%ff%cb%5e%3e', '%fb%ef%be', '../../x', 'E' * 200, 'E' * 120]), st.binary(min_size=1, max_size=6).map(lambda b: quote(bytes(x for x in b if x > 32 and x not in (34, 92, 127)), safe='')))
        rq = st.fixed_dictionaries({
            'z': st.sampled_from('aabc'), 'p': st.integers(0, 2), 'et': st.integers(0, 2), 'm': st.sampled_from(['GET'] * 9 + ['HEAD', 'POST']),
            'n': st.one_of(st.sampled_from([0, 1, 10, 16384, 65535, 65536, 65537, 131072, 200000]), st.integers(0, 3000), st.integers(0, 300000)), 'st': st.sampled_from([200] * 12 + [404, 206, 302]),
            'fr': st.sampled_from(['cl', 'cl', 'chunked', 'eof']), 'cut': st.sampled_from([None] * 10 + [0, 5, 70000]), 'step': st.sampled_from([0, 0, 1000, 40000]), 'gz': st.booleans(), 'gone': st.sampled_from([None] * 12 + [0, 1, 3]), 'par': st.sampled_from([0] * 8 + [1, 2])})
        return st.fixed_dictionaries({'rs': st.lists(rq, min_size=2, max_size=14), 'same': st.booleans(),
            'ps': st.lists(st.one_of(st.sampled_from(self.PATHS[:2]), st.sampled_from(self.PATHS)), min_size=1, max_size=3), 'ets': st.one_of(*[st.lists(etag, min_size=1, max_size=2)] * 3, st.lists(st.one_of(etag, st.none(), st.just('e1,e2')), min_size=3, max_size=3), st.sampled_from([self.TWINS[:2], self.TWINS[2:]]))})

    def run(self, case, rec):
        self.n += 1
        pre = '/n%d' % self.n
        allowed, stored = {}, {}
        hits = miss = 0
        out = []
        c = self.conn()
        try:
            for i, r in enumerate(case['rs']):
                r = dict(r, p=pre + case['ps'][r['p'] % len(case['ps'])], et=case['ets'][r['et'] % len(case['ets'])])
                fails = Mem.fails(self, r)
                k = (r['z'], unquote_to_bytes(r['p']), r['et'], r['gz'] and r['z'] == 'b')
                a = {'v': 'v0' if case['same'] else 'v%d' % i, 'n': r['n'], 'st': r['st'], 'fr': r['fr']}
                if r['cut'] is not None:
                    a['cut'] = r['cut']
                if r['step']:
                    a['step'] = r['step']
                if r['et'] is not None:
                    a['et'] = r['et']
                target = r['p'] + '?' + '&'.join('%s=%s' % x for x in a.items())
                body = Origin.body(r['p'], {x: str(y) for x, y in a.items()})
                if r['fr'] == 'eof' and r['cut'] is not None and body:
                    body = body[:r['cut'] % max(1, len(body))]
                can = r['m'] == 'GET' and r['st'] == 200 and r['et'] is not None and ',' not in r['et']
                if can and not fails:
                    allowed.setdefault(k[1:3], set()).add(body)
                hs = [('X-Zone', r['z'])] + ([('Accept-Encoding', 'gzip')] if r['gz'] else []) + ([('Content-Length', '0')] if r['m'] == 'POST' else [])
                what = 'request %d: %s %s etag %r' % (i, r['m'], target[:80], r['et'])
                if r['gone'] is not None:
                    g = self.conn()
                    g.s.sendall(req(r['m'], target, headers=hs, host='h'))
                    time.sleep(r['gone'] / 1000)
                    g.close()
                    stored[k] = None if can else stored.get(k)
                    continue
                others = []
                for _ in range(r['par']):
                    g = self.conn()
                    g.s.sendall(req(r['m'], target, headers=hs, host='h'))
                    others.append(g)
                c.s.sendall(req(r['m'], target, headers=hs, host='h'))
                old = stored.get(k, 0) if can else 0
                for g in others + [c]:
                    try:
                        rs = g.response(r['m'], 10)
                    except Malformed as e:
                        raise Violation('malformed response (%s): %s' % (what, e))
                    except Closed:
                        if fails:       # (a hit doesn't save the connection from a backend that breaks off)
                            rs = None
                        else:
                            self.died()
                            raise Violation('connection closed (%s)' % what)
                    except Timeout:
                        self.died()
                        raise Violation('no answer (%s)' % what, timing=True)
                    if g is not c:
                        g.close()
                    if rs is None or (fails and not old):
                        continue
                    got = rs.body
                    enc = rs.get('Content-Encoding')
                    if enc == 'gzip' and r['gz'] and r['z'] in 'bc':
                        try:
                            got = zlib.decompress(got, 31) if got or r['m'] != 'HEAD' else b''
                        except zlib.error as e:
                            raise Violation('%s: body does not decode (%s): %s' % (what, e, rs.brief()))
                    elif enc:
                        raise Violation('%s: unexpected Content-Encoding %r' % (what, enc))
                    if rs.status != r['st']:
                        raise Violation('%s: %s' % (what, rs.brief()))
                    if r['m'] == 'HEAD':
                        ok = {b''}
                    elif not can:
                        ok = {body}
                    elif isinstance(old, bytes) and self.strict and not others and body:
                        ok = {old}
                    elif old == 0 and not others:
                        ok = {body}
                    else:
                        ok = allowed[k[1:3]] | {body}
                    if got not in ok and not (got.startswith(b'<') and body == b'' and r['st'] >= 400):
                        raise Violation('%s: %d bytes %r... instead of %s' % (what, len(got), got[:60], ' or '.join('%d bytes %r...' % (len(x), x[:60]) for x in list(ok)[:3])))
                    if isinstance(old, bytes):
                        hits += 1
                if fails:
                    c.close()
                    c = self.conn()
                if can and not old and old is not None and not fails and not others:
                    # names longer than the file system allows can't be stored
                    stored[k] = body if len(unquote_to_bytes(r['p']).split(b'/')[-1]) + len(r['et']) * 1.4 < 200 and r['p'][-1] != '/' else None
                    if not body:      # (an empty body needs no cache)
                        stored[k] = None
                    miss += 1
                elif can and others:
                    stored[k] = None
        finally:
            c.close()
        self.files(pre, allowed)
        rec.nt(hits and miss)
        rec.label('hits', hits)

    @staticmethod
    def b64(r):
        return base64.b64encode(b'"' + unquote_to_bytes(r['et']) + b'"')

    def files(self, pre, allowed):
        # the name of a file is path-code(-XXXXXX while incomplete), the code is a base64 of the ETag (`/` in it made directories)
        codes = {}
        for (p, e), bs in allowed.items():
            b = base64.b64encode(b'"' + unquote_to_bytes(e) + b'"')
            for c in (re.sub(b'/+', b'/', b), b.replace(b'/', b'_'), b.translate(bytes.maketrans(b'+/', b'-_')), b):
                codes.setdefault(p + b'-' + c, set()).update(bs)
        end = time.monotonic() + 3
        while True:
            tmp = []
            for z, (_, enc) in self.ZONES.items():
                root = self.scratch + '/cache/' + ('a/x' if z == 'a' else z) + pre
                for d, _, fs in os.walk(root.encode()):
                    for f in fs:
                        full = os.path.join(d, f)
                        name = pre.encode() + full[len(root.encode()):]
                        if enc:       # (deflate changes the ETag)
                            ok = set()
                            if not re.search(rb'[^-]-[A-Za-z0-9]{6}$', name) or name[-7:-6] != b'-' or len(name.split(b'-')) < 3:
                                for (p, e), bs in allowed.items():
                                    if name.startswith(p + b'-'):
                                        ok |= bs
                            else:
                                tmp.append(name)
                                continue
                        elif name in codes:
                            ok = codes[name]
                        else:
                            tmp.append(name)
                            continue
                        try:
                            with open(full, 'rb') as x:
                                data = x.read()
                        except FileNotFoundError:
                            continue
                        if enc and data[:2] == b'\x1f\x8b':
                            try:
                                data = zlib.decompress(data, 31)
                            except zlib.error:
                                raise Violation('cache file %r holds %d bytes which do not decode' % (name[:100], len(data)))
                        if data not in ok:
                            raise Violation('cache file %r holds %d bytes %r... which are no complete response (%s)' % (name[:100], len(data), data[:60], ', '.join('%d bytes' % len(x) for x in ok)))
            if not tmp:
                return
            if time.monotonic() > end:
                raise Violation('files without a complete response stay behind: %r' % tmp[:2], timing=True)
            time.sleep(0.01)


SUBS = [Mem, Faults, Lua, Disk]

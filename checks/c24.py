"""C24: access log: every answered request gives exactly one line, whose fields are true and cannot be forged."""
import os
import re
import select
import socket
import struct
import threading
import time
from urllib.parse import unquote_to_bytes

from hypothesis import strategies as st

from lib.backend import EchoBackend
from lib.e2e import l1
from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Inconclusive, Server, Violation, free_port, own_addr

RULE = ('log: generated log formats (all documented specifiers in any combination) x requests on several concurrent keep-alive connections from different addresses (files, errors, generated and backend responses, POST, HEAD, HTTP/1.0, broken requests, '
        'client aborts), with client-controlled fields of any bytes, 1-2 workers, log target and format chosen per request, read while running or after shutdown; non-trivial: some field needs escaping or is empty, or the request does not end normally')

SPECS = ['%', 'a', 'A', 'b', 'B', 'D', 'f', 'h', 'm', 'p', 'q', 'r', 's', 't', 'T', 'u', 'U', 'v', 'V', 'X', 'I', 'O', '{User-Agent}i', '{referer}i', '{X-Multi}i', '{X-Resp}o', '{Content-Type}o', '{FOO}e', '{UA}e', '{REMOTE_USER}e', '>s', '<s', '{X-None}i']


def esc(b):
    out = ''
    for ch in b:
        c = chr(ch)
        out += {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\v': '\\v'}.get(c, c if 32 <= ch <= 126 else '\\x%02X' % ch)
    return out


class Log(Sub):
    NAME = 'log'
    N_QUICK = 110
    N_THOROUGH = 2500
    SECS_QUICK = 60
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)
        self.be = EchoBackend(path=self.scratch + '/be')
        self.www = self.scratch + '/www'
        os.makedirs(self.www, exist_ok=True)
        for n in (0, 1, 5000, 300000, 12000000):
            with open('%s/f%d' % (self.www, n), 'wb') as f:
                f.write(b'z' * n)

    def teardown(self):
        self.be.stop()

    def strategy(self):
        spec = st.sampled_from(SPECS)
        fmt = st.lists(spec, min_size=1, max_size=10)
        val = st.one_of(st.none(), st.sampled_from(['Mozilla/5.0 (X; Y)', '"', 'a"b', '\\', 'a\\"', '\xe9\xff', 'x\ty', '-', '\x80', '%s%n', 'L' * 400, 'M' * 3000, 'a "200" 5 "', "'"]), st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=255, blacklist_characters='\x7f@'), max_size=20))
        path = st.one_of(st.sampled_from(['/f1', '/f1', '/f5000', '/f0', '/f300000', '/none', '/resp', '/resp', '/be', '/rw/abc', '/auth', '/dir/%22x%22', '/n%5c%22', '/%e9%80', '/st/403', '/st/204', '/st/500', '/resp/%0a127.0.0.1%20-', '/be/x']))
        q = st.sampled_from(['', '', '?a=b', '?%22x%22', '?a"b', '?x=\\', '?l2', '?l2', '?nolog', '?f2'])
        r = st.fixed_dictionaries({'m': st.sampled_from(['GET', 'GET', 'GET', 'GET', 'HEAD', 'POST']), 'p': path, 'q': q, 'ua': val, 'ref': val, 'mul': st.sampled_from([[], [], ['a'], ['a', 'b"']]), 'v': st.sampled_from(['1.1', '1.1', '1.1', '1.0']),
                                  'close': st.sampled_from([False, False, False, True]), 'kind': st.sampled_from(['n', 'n', 'n', 'n', 'n', 'n', 'nohost', 'abort', 'badlen']), 'body': st.integers(0, 2000), 'host': st.sampled_from(['h.test', 'Example.ORG', '[::1]:80', '10.0.0.1'])})
        return st.fixed_dictionaries({'f1': fmt, 'f2': fmt, 'conns': st.lists(st.lists(r, min_size=1, max_size=5), min_size=1, max_size=4), 'wrk': st.integers(1, 2), 'name': st.booleans(), 'stop': st.sampled_from(['poll', 'poll', 'int', 'term']), 'tgt': st.sampled_from(['file:', ''])})

    def fmtstr(self, f, tag):
        out = '%s@@%%{X-Id}i@@' % tag
        for s in f:
            out += ('%' + s) + '@@'
        return out.replace('\\', '\\\\').replace('"', '\\"')

    def run(self, case, rec):
        addr = own_addr()
        port = free_port(addr)
        a, b = self.scratch + '/log1', self.scratch + '/log2'
        for p in (a, b):
            if os.path.exists(p):
                os.unlink(p)
        conf = 'setup { module_load ["mod_accesslog", "mod_proxy", "mod_rewrite", "mod_auth"]; workers %d; listen "%s:%d"; }\n' % (case['wrk'], addr, port)
        conf += 'keepalive.requests 1000;\nstrict.post_content_length false;\naccesslog "%s%s";\naccesslog.format "%s";\n' % (case['tgt'], a, self.fmtstr(case['f1'], 'F1'))
        if case['name']:
            conf += 'server.name "srv.name";\n'
        conf += 'if req.query == "l2" { accesslog "%s%s"; }\nif req.query == "nolog" { accesslog ""; }\nif req.query == "f2" { accesslog.format "%s"; }\n' % (case['tgt'], b, self.fmtstr(case['f2'], 'F2'))
        conf += 'env.set "FOO" => "bar baz"; env.set "UA" => "%{req.header[User-Agent]}"; header.add "X-Resp" => "%{req.header[Referer]}";\n'
        conf += 'docroot "%s";\nrewrite "^/rw/(.*)$" => "/resp/rewritten-$1";\n' % self.www
        conf += 'if req.path =^ "/auth" { env.set "REMOTE_USER" => "us\\"er"; }\n'
        conf += 'if req.path =^ "/be" { proxy "unix:%s/be"; } else if req.path =^ "/resp" { respond 200 => "hello"; } else if req.path == "/st/403" { respond 403; } else if req.path == "/st/204" { respond 204; } else if req.path == "/st/500" { respond 500 => "err"; } else if req.path =^ "/auth" { respond 200 => "in"; }\n' % self.scratch
        self.srv = Server(self.scratch, conf, tcp=(addr, port))
        t0 = time.time()
        if not self.srv.start():
            self.srv.settle_dead(0.2)
            if 'in use' in self.srv.log_text():
                raise Inconclusive('port')
            self.srv.check_alive()
            raise Violation('configuration refused: %s' % self.srv.log_text()[-300:])
        try:
            self.exp = []
            self.err = []
            self.addr, self.port = addr, port
            ts = [threading.Thread(target=self.guard, args=(case, i, rs, rec)) for i, rs in enumerate(case['conns'])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if self.err:
                raise self.err[0]
            want = {a: {}, b: {}}
            for e in self.exp:
                if e['log'] == 'l2':
                    want[b][e['id']] = e
                elif e['log'] != 'nolog':
                    want[a][e['id']] = e
            if case['stop'] == 'poll':
                end = time.time() + 6
                while time.time() < end:
                    if all(len(self.lines(p)) >= sum(1 for e in want[p].values() if not self.refused(e)) for p in (a, b)):
                        break
                    time.sleep(0.01)
                time.sleep(0.03)
            else:
                rc = self.shutdown(case['stop'])
                if rc != 0:
                    self.srv.settle_dead(0.5)
                    self.srv.check_alive()
                    raise Violation('shutdown after %s ended with %r: %s' % (case['stop'], rc, self.srv.log_text()[-300:]), timing=True)
            t1 = time.time()
            for p in (a, b):
                self.judge(case, p, want[p], self.lines(p), t0, t1, rec)
            if case['stop'] == 'poll':
                self.srv.settle_dead(0.0)
                self.srv.check_alive()
        finally:
            self.srv.kill()

    def shutdown(self, how):
        import signal
        import subprocess
        self.srv.proc.send_signal(signal.SIGINT if how == 'int' else signal.SIGTERM)
        try:
            return self.srv.proc.wait(8)
        except subprocess.TimeoutExpired:
            return None

    def lines(self, p):
        try:
            with open(p, 'rb') as f:
                return f.read().split(b'\n')[:-1]
        except FileNotFoundError:
            return []

    def guard(self, case, i, rs, rec):
        try:
            self.client(case, i, rs, rec)
        except Exception as e:
            self.err.append(e)

    def client(self, case, ci, rs, rec):
        src = '127.%d.%d.%d' % (20 + ci, int(self.addr.split('.')[2]), int(self.addr.split('.')[3]))
        c = None
        for k, r in enumerate(rs):
            if c is None:
                c = Conn(tcp=(self.addr, self.port), source=src, timeout=10)
            rid = 'r%d-%d' % (ci, k)
            kind = r['kind']
            method = r['m'] if kind != 'badlen' else 'POST'
            path = r['p'] if kind != 'abort' else '/f12000000'
            if method == 'POST' and not path.startswith(('/be', '/resp', '/none')):
                method = 'GET'
            if kind == 'abort':
                method = 'GET'
            target = path + r['q']
            h = []
            if kind != 'nohost' or r['v'] == '1.0':
                h.append(('Host', r['host']))
            for n, key in (('User-Agent', 'ua'), ('Referer', 'ref')):
                if r[key] is not None:
                    h.append((n, self.hv(r[key])))
            for v in r['mul']:
                h.append(('X-Multi', self.hv(v)))
            h.append(('X-Id', rid))
            if r['close'] and r['v'] == '1.1':
                h.append(('Connection', 'close'))
            if r['v'] == '1.0' and not r['close']:
                h.append(('Connection', 'keep-alive'))
            body = b''
            if kind == 'badlen':
                h.append(('Content-Length', 'x5'))
            elif method == 'POST':
                body = b'p' * r['body']
                h.append(('Content-Length', str(len(body))))
            raw = l1('%s %s HTTP/%s\r\n' % (method, target, r['v']) + ''.join('%s: %s\r\n' % e for e in h) + '\r\n') + body
            c.send(raw)
            e = {'id': rid, 'r': r, 'm': method, 'path': path, 'target': target, 'src': src, 'raw': len(raw), 'kind': kind, 'h': h, 'log': r['q'][1:], 'resp': None}
            if kind == 'abort':
                try:
                    if c.s.recv(1000)[9:12] in (b'400', b'411'):
                        e['kind'] = 'refused'
                except OSError:
                    pass
                c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                c.close()
                c = None
                self.exp.append(e)
                continue
            try:
                before = c.total - len(c.buf)
                resp = c.response(method)
                e['wire'] = c.total - len(c.buf) - before
            except Malformed as x:
                raise Violation('malformed response to %r: %s' % (raw[:150], x))
            except Closed:
                self.srv.settle_dead(0.3)
                self.srv.check_alive()
                raise Violation('no response to %r' % raw[:150])
            except Timeout:
                raise Violation('no response to %r' % raw[:150], timing=True)
            e['resp'] = resp
            e['ka'] = (resp.get('connection') or '').lower() == 'keep-alive' if r['v'] == '1.0' else (resp.get('connection') or '').lower() != 'close'
            self.exp.append(e)
            if not e['ka']:
                c.close()
                c = None
        if c is not None:
            c.close()

    def refused(self, e):
        # refused before the configuration was consulted: nothing says where to log it
        return e['kind'] == 'refused' or e['resp'] is not None and e['resp'].status in (400, 411)

    def hv(self, v):
        return v.strip(' \t\r\n').replace('@', '') or 'v'

    def judge(self, case, p, want, lines, t0, t1, rec):
        seen = {}
        for ln in lines:
            parts = ln.split(b'@@')
            if len(parts) < 3 or parts[0] not in (b'F1', b'F2') or parts[-1] != b'':
                raise Violation('%s: log line %r does not follow the format' % (os.path.basename(p), ln[:300]))
            rid = parts[1].decode('latin-1')
            if rid not in want:
                raise Violation('%s: log line %r belongs to no request (or to another log)' % (os.path.basename(p), ln[:300]))
            if rid in seen:
                raise Violation('%s: request %s was logged twice: %r' % (os.path.basename(p), rid, ln[:200]))
            seen[rid] = parts
        for rid, e in want.items():
            if rid not in seen and not self.refused(e):
                raise Violation('request %s (%s %s, %s) was answered but not logged' % (rid, e['m'], e['target'], e['kind']), timing=case['stop'] == 'poll')
        for rid, parts in seen.items():
            e = want[rid]
            second = e['log'] == 'f2'
            if parts[0] != (b'F2' if second else b'F1'):
                raise Violation('request %s was logged with the wrong format' % rid)
            fmt = case['f2'] if second else case['f1']
            vals = [x.decode('latin-1') for x in parts[2:-1]]
            if len(vals) != len(fmt):
                raise Violation('request %s: line %r has %d fields, format %r' % (rid, parts, len(vals), fmt))
            for s, v in zip(fmt, vals):
                self.field(case, e, s, v, t0, t1, rec)

    def field(self, case, e, s, v, t0, t1, rec):
        r, resp = e['r'], e['resp']
        hd = lambda n: [x for k, x in e['h'] if k.lower() == n.lower()]
        broken = e['kind'] in ('nohost', 'badlen') and resp is not None and resp.status == 400
        done = resp is not None
        exp = None
        joined = lambda xs: esc(l1(', '.join(xs))) if xs else '-'
        dec = unquote_to_bytes(e['path'])
        dec = bytes(ch if ch >= 32 and ch != 127 else ord('_') for ch in dec)
        host = e['r']['host'].lower().replace(':80', '') if hd('Host') else ''
        if dec.startswith(b'/rw/'):
            dec2 = b'/resp/rewritten-' + dec[4:]
        else:
            dec2 = dec
        if s == '%':
            exp = '%'
        elif s in 'ah':
            exp = e['src']
        elif s == 'A':
            exp = self.addr
        elif s == 'p':
            exp = str(self.port)
        elif s in ('b', 'B'):
            if done and e['kind'] != 'abort':
                n = len(resp.body)
                exp = '-' if n == 0 and s == 'b' else str(n)
        elif s in ('D', 'T'):
            if not re.fullmatch(r'\d+', v) or int(v) > (t1 - t0 + 1) * (10 ** 6 if s == 'D' else 1):
                raise Violation('request %s: %%%s is %r' % (e['id'], s, v))
            return
        elif s == 'm':
            exp = e['m']
        elif s in ('s', '>s', '<s'):
            exp = str(resp.status) if done else '200'
        elif s == 't':
            try:
                t = time.mktime(time.strptime(v[1:-1].rsplit(' ', 1)[0], '%d/%b/%Y:%H:%M:%S'))
            except ValueError:
                raise Violation('request %s: %%t is %r' % (e['id'], v))
            if not t0 - 2 <= t <= t1 + 2:
                raise Violation('request %s: %%t is %r, now %r' % (e['id'], v, time.ctime(t1)))
            return
        elif s == 'X':
            exp = 'X' if e['kind'] == 'abort' else '+' if e['ka'] else '-'
            rec.label('status ' + exp)
        elif s == 'I':
            if done:
                exp = str(e['raw'])
        elif s == 'O':
            if done:
                exp = str(e['wire'])
        elif broken:
            return
        elif s == 'q':
            q = e['target'].split('?', 1)[1] if '?' in e['target'] else ''
            exp = esc(l1(q)) if q else '-'
        elif s == 'r':
            exp = '%s %s HTTP/%s' % (e['m'], esc(l1(e['target'])), r['v'])
        elif s == 'U':
            exp = esc(dec2)
        elif s == 'f':
            # the physical path is not changed by the rewrite
            exp = esc(l1(self.www) + dec)
        elif s in ('u', '{REMOTE_USER}e'):
            exp = 'us\\"er' if dec.startswith(b'/auth') else '-'
        elif s == 'v':
            exp = 'srv.name' if case['name'] else host
        elif s == 'V':
            exp = host or '-'
        elif s.endswith('}i'):
            exp = joined(hd(s[1:-2]))
        elif s == '{FOO}e':
            exp = 'bar baz'
        elif s == '{UA}e':
            exp = esc(l1(', '.join(hd('User-Agent'))))
        elif s == '{X-Resp}o':
            exp = joined(hd('Referer'))
        elif s == '{Content-Type}o':
            exp = esc(l1(resp.get('content-type'))) if done and resp.get('content-type') else '-' if done else None
        rec.nt(exp is not None and ('\\' in exp or exp == '-') or e['kind'] != 'n')
        if exp is not None and v != exp:
            raise Violation('request %s (%s %s, %s, %s): %%%s is %r, expected %r' % (e['id'], e['m'], e['target'], e['kind'], 'closed' if done and not e['ka'] else 'kept', s, v, exp))


SUBS = [Log]

"""C18: FastCGI and SCGI applications get exactly the request, clients get exactly their response."""
import os

from hypothesis import strategies as st

from checks.c16 import ref_decode, ref_simplify
from checks.c17 import STATUSES, RS, norm
from lib.backend import Reader, fcgi_record, read_fcgi_request, read_scgi_request
from lib.e2e import E2E, l1, lat, req
from lib.http import Closed, Malformed, Timeout
from lib.relay import Scripted, add_framing, body_bytes, fix_request, requests, responses, send_cut
from lib.server import Violation

RULE = ('generated request (method, target, repeated and odd headers, long values, bodies up to 300 KB with either framing) passed to a scripted FastCGI or SCGI application, which answers with a generated response '
        '(FastCGI: split into records of generated sizes and paddings, with stderr and unknown records in between, cut into arbitrary packets, ended in one of several regular ways or broken off, rejected or corrupted); '
        'edge: requests whose FastCGI variables (second request, fitted from the first) and bodies have lengths within 9 bytes of 65535 (bodies also twice that); non-trivial: a body in either direction, a repeated header, several records or a failure')

RQ = ['X-A', 'x-a', 'X_A', 'Accept', 'Cookie', 'cookie', 'User-Agent', 'Content-Type', 'content-type', 'X-Set', 'x-set', 'X-SET', 'Authorization', 'X.Dot', 'Content-TypeX', 'CONTENT_LENGTH', 'Script-Name', 'X-Long', 'Referer', 'Range']
SRS = [h for h in RS if h != 'Connection']
ENDS = ['normal', 'normal', 'normal', 'end', 'eof', 'cut', 'overloaded', 'version', 'endlen', 'afterof', 'errafter']


def cgi_name(k):
    if k.lower() == 'content-type':
        return 'CONTENT_TYPE'
    return 'HTTP_' + ''.join(c.upper() if c.isascii() and c.isalnum() else '_' for c in k)


class Gateway(E2E):
    NAME = 'gateway'
    N_QUICK = 2200
    N_THOROUGH = 80000
    SECS_QUICK = 45
    RECYCLE = 1500

    def prepare(self):
        self.fc = Scripted(self.scratch + '/fc.sock')
        self.sc = Scripted(self.scratch + '/sc.sock')
        os.makedirs(self.scratch + '/www/dir', exist_ok=True)
        for f in ('x.php', 'dir/x.php', 'a'):
            with open(self.scratch + '/www/' + f, 'w') as fh:
                fh.write('script')

    def teardown(self):
        E2E.teardown(self)
        self.fc.stop()
        self.sc.stop()

    def conf(self):
        return '''
setup { module_load ["mod_fastcgi", "mod_scgi"]; listen "unix:%SOCK%"; }
server.tag "tag/1";
keepalive.requests 1000000;
docroot "%DIR%/www";
if req.header["X-Mode"] =~ "pinfo" { pathinfo; }
if req.header["X-Mode"] =~ "env" { env.set "HTTP_X_SET" => "forced"; env.set "MINE" => "<%{req.path}>"; env.set "REMOTE_USER" => "bob"; env.set "DOCUMENT_ROOT" => "/else"; env.add "MINE" => "no"; env.add "TWO" => "2"; env.set "GONE" => "1"; env.remove "GONE"; }
if req.header["X-Mode"] =~ "fc" { fastcgi "unix:%DIR%/fc.sock"; } else { scgi "unix:%DIR%/sc.sock"; }
'''

    def strategy(self):
        x = st.fixed_dictionaries({'style': st.sampled_from(['status', 'status', 'none', 'http']), 'cl': st.booleans(), 'lf': st.booleans(), 'rs': st.lists(st.one_of(st.integers(1, 40), st.integers(1, 65535), st.sampled_from([65535, 8, 16384])), min_size=1, max_size=4),
                                   'pad': st.lists(st.integers(0, 255), min_size=1, max_size=3), 'err': st.lists(st.tuples(st.integers(0, 6), st.sampled_from(['stderr line\n', 'x' * 300, 'a\nb\n\n', '\xff\x00z', '%s%n', 'err' * 25000])), max_size=2), 'unk': st.lists(st.tuples(st.integers(0, 6), st.sampled_from([0, 10, 11, 99])), max_size=1),
                                   'end': st.sampled_from(ENDS), 'endpad': st.integers(0, 9), 'where': st.floats(0, 0.9999), 'app': st.sampled_from([0, 1, 0xffffffff])})
        return st.fixed_dictionaries({'q': requests(RQ), 'r': responses(SRS, STATUSES), 'x': x, 'p': st.sampled_from(['fc', 'fc', 'sc']), 'mode': st.sampled_from(['', '', 'env', 'pinfo', 'pinfo env']), 'big': st.sampled_from([0, 0, 0, 0, 0, 127, 128, 40000]),
                                      'pre': st.sampled_from(['', '', '/x.php', '/dir/x.php', '/a']), 'again': st.booleans()})

    def run(self, case, rec):
        q, r, x, p = case['q'], case['r'], case['x'], case['p']
        body, fr, wire = fix_request(q)
        hs = [tuple(h) for h in q['h']]
        if case['big']:
            hs.append(('X-Big', 'b' * case['big']))
        add_framing(hs, fr, q)
        hs.append(('X-Mode', case['mode'] + ' ' + p))
        target = case['pre'] + q['t']
        raw = req(q['m'], target, q['v'], hs) + wire
        be = self.fc if p == 'fc' else self.sc

        rbody = body_bytes(r['b'], 9)
        nobody = q['m'] == 'HEAD' or r['status'] in (204, 304)
        if nobody:
            rbody = b''
        nl = b'\n' if x['lf'] else b'\r\n'
        rh = [tuple(h) for h in r['h']]
        status = r['status']
        head = b''
        if x['style'] == 'http':
            head = b'HTTP/1.1 %d Fine' % status + nl
        elif x['style'] == 'status':
            rh.insert(len(rh) // 2, ('Status', '%d Fine' % status))
        else:
            status = 200
            nobody = q['m'] == 'HEAD'
        if x['cl'] and not nobody:
            rh.append(('Content-Length', str(len(rbody))))
        if x['style'] == 'none' and not rh:
            rh.append(('X-R', '1'))
        head += b''.join(l1(k + ': ' + v) + nl for k, v in rh) + nl
        stdout = head + rbody
        ok = True
        if p == 'fc':
            recs = []
            pos = i = 0
            while pos < len(stdout):
                n = max(x['rs'][i % len(x['rs'])], min(65535, len(stdout) // 200))
                recs.append(fcgi_record(6, 1, stdout[pos:pos + n], x['pad'][i % len(x['pad'])]))
                pos += n
                i += 1
            for at, e in x['err']:
                e = l1(e)
                for k in range(0, len(e), 65535):
                    recs.insert(min(at, len(recs)), fcgi_record(7, 1, e[k:k + 65535], at))
            for at, t in x['unk']:
                recs.insert(min(at, len(recs)), fcgi_record(t, 0, b'??' * at, 3))
            eof = fcgi_record(6, 1, b'', x['endpad'])
            fin = fcgi_record(3, 1, bytes([x['app'] >> 24, 1, 2, 3]) + b'\0\0\0\0', x['endpad'])
            e = x['end']
            if e == 'normal':
                out = b''.join(recs) + eof + fin
            elif e == 'end':
                out = b''.join(recs) + fin
            elif e == 'eof':
                out = b''.join(recs) + eof
            elif e == 'errafter':
                out = b''.join(recs) + eof + fcgi_record(7, 1, b'late', 1) + fcgi_record(7, 1, b'') + fin
            else:
                ok = False
                at = int(x['where'] * (len(recs) + 1))
                if e == 'cut':
                    out = b''.join(recs)
                    out = out[:int(x['where'] * (len(out) + 1))]
                elif e == 'overloaded':
                    out = b''.join(recs[:at]) + fcgi_record(3, 1, b'\0\0\0\0' + bytes([1 + at % 3]) + b'\0\0\0', 0)
                elif e == 'version':
                    out = b''.join(recs[:at]) + b'\2' + eof[1:] + fin
                elif e == 'endlen':
                    out = b''.join(recs[:at]) + fcgi_record(3, 1, b'\0' * (7 if at % 2 else 9), 0)
                else:
                    at = min(at, len(recs) - 1)
                    out = b''.join(recs[:at]) + eof + b''.join(recs[at:]) + fin
                    if not any(z[1] == 6 for z in recs[at:]):
                        ok = True
                if len(recs[:at]) == len(recs) and e != 'cut' and not ok:
                    rec.label('failure after all data')
            rec.label(e)
        else:
            out = stdout
            rec.label('scgi')
        rec.nt(bool(body or rbody or not ok or p == 'fc' and len(recs) > 1))

        def script(c, seen):
            try:
                rd = Reader(c)
                if p == 'fc':
                    seen.append(read_fcgi_request(rd))
                else:
                    seen.append(read_scgi_request(c))
            except (EOFError, ValueError, IndexError, KeyError) as e:
                seen.append({'error': repr(e)})
                return
            send_cut(c, out, r['cuts'], 200, r['hcut'])

        be.arm(script)
        c = self.conn()
        try:
            c.send_pieces(raw, [int(z * len(raw)) for z in q['cuts']])
            if ok:
                self.complete(c, q, status, rh, rbody, nobody)
            else:
                self.failed(c, q, status, rbody)
            if len(be.seen) != 1:
                raise Violation('the application saw %d requests for one client request' % len(be.seen))
            self.request_ok(be.seen[0], case, hs, target, body, fr)
            if ok and q['v'] == '1.1' and case['again']:
                c.send(req('GET', '/again', '1.1', [('X-Mode', p)]))
                r2 = self.one(c, 'GET', 'second request on the connection')
                if r2.status != status:
                    raise Violation('second request on the connection answered wrongly: %s' % r2.brief())
        finally:
            c.close()

    def complete(self, c, q, status, rh, rbody, nobody):
        resp = self.one(c, q['m'], 'application response')
        if resp.status != status:
            raise Violation('application answered %d, the client received %d' % (status, resp.status))
        page = 400 <= status < 600 and not rbody
        if resp.body != rbody and not nobody and not (page and resp.body.find(b'Error %d' % status) > 0):
            raise Violation('response body changed in transit: %d bytes sent, %d received, first difference at %s' % (
                len(rbody), len(resp.body), next((i for i in range(min(len(rbody), len(resp.body))) if rbody[i] != resp.body[i]), 'end')))
        drop = ('connection', 'transfer-encoding', 'content-length', 'status')
        want = [(k, norm(v)) for k, v in rh if k.lower() not in drop]
        names = [k.lower() for k, _ in want]
        got = [(k, v) for k, v in resp.headers if k.lower() not in drop]
        for n in ('date', 'server'):
            if n not in names:
                got = [h for h in got if h[0].lower() != n]
        if page:
            skip = ('content-type', 'content-encoding', 'etag')
            want = [h for h in want if h[0].lower() not in skip]
            got = [h for h in got if h[0].lower() not in skip]
        if got != want:
            raise Violation('response headers changed: application sent %r, client received %r' % ([h for h in want if h not in got][:5] or want[:6], [h for h in got if h not in want][:5] or got[:6]))

    def failed(self, c, q, status, rbody):
        try:
            resp = c.response(q['m'])
        except Closed:
            self.died(0.01)
            return
        except Malformed as e:
            raise Violation('malformed response: %s' % e)
        except Timeout:
            self.srv.check_alive()
            raise Violation('no reaction to the failure of the application', timing=True)
        if resp.status >= 500 and resp.status != status:
            return
        if resp.framing in ('close', 'none') or q['m'] == 'HEAD':
            return
        if 400 <= resp.status < 600 and b'Error %d' % status in resp.body:
            return
        if resp.body == rbody:
            return      # all data had been delivered
        raise Violation('the application failed while answering, the client received a complete looking response: %s' % resp.brief()[:200])

    def request_ok(self, s, case, hs, target, body, fr):
        q = case['q']
        if 'error' in s:
            raise Violation('the application received an incomplete or malformed request: %s' % s['error'])
        env = [(lat(k), lat(v)) for k, v in s['env']]
        d = dict(env)
        if len(d) != len(env):
            ks = [k for k, _ in env]
            raise Violation('variable passed more than once: %r' % sorted(k for k in d if ks.count(k) > 1)[:4])
        if s['body'] != body:
            raise Violation('request body changed in transit: %d bytes sent, %d received' % (len(body), len(s['body'])))
        if case['p'] == 'sc':
            if env[0][0] != 'CONTENT_LENGTH' or d.get('SCGI') != '1' or s['odd'] or not s['nul_end']:
                raise Violation('not a valid SCGI request: starts with %r, SCGI=%r' % (env[0], d.get('SCGI')))
            if s['reader'].buf:
                raise Violation('bytes after the SCGI request: %r' % s['reader'].buf[:50])
        else:
            if s.get('abort') or s['role'] != 1 or not s['pdone'] or any(z[2] != s['id'] for z in s['records']):
                raise Violation('not a valid FastCGI request: %r' % {k: v for k, v in s.items() if k not in ('env', 'body')})
        path, _, query = target.partition('?')
        path = ref_simplify(ref_decode(path))
        root = self.scratch + '/www'
        phys = root + path
        pinfo = ''
        script = path
        if 'pinfo' in case['mode']:
            z = phys
            while len(z) > len(root):
                try:
                    os.stat(l1(z))
                    # the rest of the path belongs to PATH_INFO only
                    script = path[:len(path) - len(phys) + len(z)]
                    break
                except NotADirectoryError:
                    z = z[:z.rindex('/')]
                except (OSError, ValueError):
                    break
            pinfo = phys[len(z):]
            phys = z
            if pinfo and script == path:
                script = None
        want = {'CONTENT_LENGTH': str(len(body)), 'SERVER_SOFTWARE': 'tag/1', 'SERVER_NAME': 'h.test', 'GATEWAY_INTERFACE': 'CGI/1.1', 'SERVER_ADDR': None, 'REMOTE_ADDR': None, 'SCRIPT_NAME': script, 'PATH_INFO': pinfo,
                'SCRIPT_FILENAME': phys, 'DOCUMENT_ROOT': root, 'REQUEST_URI': target, 'QUERY_STRING': query, 'REQUEST_METHOD': q['m'], 'REDIRECT_STATUS': '200', 'SERVER_PROTOCOL': 'HTTP/' + q['v'], 'REQUEST_SCHEME': 'http', 'HTTP_HOST': 'h.test'}
        if pinfo:
            want['PATH_TRANSLATED'] = root + pinfo
        if case['p'] == 'sc':
            want['SCGI'] = '1'
        opt = {'CONTENT_LENGTH'} if not fr else set()
        hv = {}
        for k, v in hs:
            hv.setdefault(cgi_name(k), []).append(norm(v))
        for k, l in hv.items():
            want[k] = ('; ' if k == 'HTTP_COOKIE' else ', ').join(l)
        for k in ('HTTP_TRANSFER_ENCODING', 'HTTP_CONTENT_LENGTH'):
            if k in want:
                opt.add(k)
        if 'env' in case['mode']:
            want.update({'HTTP_X_SET': 'forced', 'MINE': '<' + path + '>', 'REMOTE_USER': 'bob', 'DOCUMENT_ROOT': '/else', 'TWO': '2'})
        for k, v in want.items():
            if k not in d:
                if k in opt:
                    continue
                raise Violation('variable %s is not passed to the application' % k)
            if v is not None and d[k] != v and k not in ('HTTP_CONTENT_LENGTH',):
                if k == 'MINE' and 'pinfo' in case['mode']:
                    continue
                raise Violation('variable %s: application received %r, should be %r' % (k, d[k][:200], v[:200]))
        extra = set(d) - set(want)
        if extra:
            raise Violation('unexpected variables passed to the application: %r' % sorted(extra)[:5])


class Edge(Gateway):
    """variables and bodies whose length is next to the largest one of a FastCGI record"""
    NAME = 'edge'
    N_QUICK = 60
    N_THOROUGH = 2500
    SECS_QUICK = 30

    def strategy(self):
        near = st.one_of(st.integers(-9, 9), st.sampled_from([-1, 0, 1, 2]))
        return st.fixed_dictionaries({'q': requests(['X-A', 'Cookie'], 2), 'd': near, 'k': st.just(1), 'body': st.one_of(st.none(), st.tuples(st.sampled_from([1, 1, 2]), near)), 'mode': st.sampled_from(['', 'env'])})

    def run(self, case, rec):
        rec.nt(True)
        q = dict(case['q'], cuts=[], m='POST')
        if case['body']:
            q['b'] = case['body'][0] * 65535 + case['body'][1]
        big = 50000
        for step in range(2):
            body, fr, wire = fix_request(q)
            hs = [tuple(h) for h in q['h']] + [('X-Big', 'b' * (big // 2)), ('X-Big2', 'c' * (big - big // 2))]
            add_framing(hs, fr, q)
            hs.append(('X-Mode', case['mode'] + ' fc'))
            out = fcgi_record(6, 1, b'X-R: 1\n\nfine') + fcgi_record(6, 1, b'') + fcgi_record(3, 1, b'\0' * 8)

            def script(c, seen):
                try:
                    seen.append(read_fcgi_request(Reader(c)))
                except (EOFError, ValueError, IndexError, KeyError) as e:
                    seen.append({'error': repr(e)})
                    return
                c.sendall(out)

            self.fc.arm(script)
            c = self.conn()
            try:
                c.send(req(q['m'], q['t'], q['v'], hs) + wire)
                self.complete(c, q, 200, [('X-R', '1')], b'fine', False)
            finally:
                c.close()
            if len(self.fc.seen) != 1:
                raise Violation('the application saw %d requests for one client request' % len(self.fc.seen))
            s = self.fc.seen[0]
            self.request_ok(s, {'q': q, 'p': 'fc', 'mode': case['mode']}, hs, q['t'], body, fr)
            n = sum(len(k) + len(v) + (1 if len(k) < 128 else 4) + (1 if len(v) < 128 else 4) for k, v in s['env'])
            if step == 1 and n == case['k'] * 65535 + case['d']:
                rec.label('hit')
            big += case['k'] * 65535 + case['d'] - n


SUBS = [Gateway, Edge]

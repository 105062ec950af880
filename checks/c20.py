"""C20: mod_limit: concurrent requests and requests per second never exceed the configured limits, and slots come back."""
import os
import select
import socket
import time

from hypothesis import strategies as st

from lib.backend import HoldBackend
from lib.e2e import req
from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Inconclusive, Server, Violation, free_port, own_addr

RULE = ('con: generated histories of requests starting, finishing and being aborted from several client addresses under generated sets of limit.con / limit.con_ip rules (with and without actions, 1 or 2 workers); '
        'rate: generated bursts of requests from several addresses under limit.req / limit.req_ip rules, repeated after the window has passed; non-trivial: some limit was reached')


def action(k, kind):
    if kind == 'none':
        return ''
    if kind == 'resp':
        return ' => { respond 200 => "over%d"; }' % k
    return ' => { req_header.add "X-Over" => "%d"; }' % k


class Base(Sub):
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)
        self.n = 0
        self.v6 = False
        try:
            s = socket.socket(socket.AF_INET6)
            s.bind(('::1', 0))
            s.close()
            self.v6 = True
        except OSError:
            pass

    def teardown(self):
        pass

    def start(self, rules, workers):
        self.addr = own_addr()
        self.p4 = free_port(self.addr)
        listen = ['"%s:%d"' % (self.addr, self.p4)]
        self.p6 = None
        if self.v6:
            self.p6 = free_port('::1')
            listen.insert(0, '"[::1]:%d"' % self.p6)
        conf = 'setup { module_load ["mod_limit", "mod_proxy"]; workers %d; listen [%s]; }\n' % (workers, ', '.join(listen))
        conf += 'keepalive.requests 100000;\n'
        for k, (t, n, kind) in enumerate(rules):
            conf += 'if req.query =~ "r%d" { limit.%s %d%s; }\n' % (k, t, n, action(k, kind))
        conf += 'if !req.is_handled { if req.path == "/fast" { respond 200 => "ok %{req.header[X-Over]}"; } else { proxy "unix:%DIR%/hold"; } }\n'
        self.conf = conf
        self.srv = Server(self.scratch, conf, tcp=(self.addr, self.p4))
        if not self.srv.start():
            self.srv.settle_dead(0.2)
            if 'already in use' in self.srv.log_text():
                raise Inconclusive('port in use')
            self.srv.check_alive()

    def conn(self, ip):
        try:
            return self.connect(ip)
        except OSError as e:
            self.srv.settle_dead(0.3)
            self.srv.check_alive()
            raise Inconclusive('cannot connect: %s' % e)

    def connect(self, ip):
        if ip == 'v6':
            return Conn(tcp=('::1', self.p6), timeout=10)
        return Conn(tcp=(self.addr, self.p4), source='127.0.7.%d' % ip, timeout=10)


class Con(Base):
    NAME = 'con'
    N_QUICK = 120
    N_THOROUGH = 3000
    SECS_QUICK = 60

    def strategy(self):
        rule = st.tuples(st.sampled_from(['con', 'con_ip']), st.integers(1, 3), st.sampled_from(['none', 'none', 'resp', 'mark'])).map(list)
        # most histories are about few addresses, so that per-address limits are reached
        ips = st.one_of(st.sampled_from([[1], ['v6'], [1, 2], [1, 'v6']]), st.lists(st.sampled_from([1, 2, 3, 'v6']), min_size=1, max_size=4))
        ip = st.integers(0, 11)
        op = st.one_of(st.tuples(st.just('start'), ip, st.sampled_from([1, 1, 2, 3, 4, 5, 6, 7, 7, 0]), st.booleans()), st.tuples(st.just('start'), ip, st.sampled_from([1, 1, 2, 3, 4, 5, 6, 7, 7, 0]), st.booleans()), st.tuples(st.just('fin'), st.integers(0, 9)), st.tuples(st.just('abort'), st.integers(0, 9))).map(list)
        return st.fixed_dictionaries({'rules': st.lists(rule, min_size=1, max_size=3), 'workers': st.sampled_from([1, 1, 2]), 'ips': ips, 'ops': st.integers(5, 40).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))})

    def run(self, case, rec):
        self.be = HoldBackend(self.scratch + '/hold')
        self.held = []      # [id, conn, ip, [rules counted]]
        self.idle = {}
        self.start(case['rules'], case['workers'])
        try:
            self.history(case, rec)
            self.srv.check_alive()
        finally:
            for h in self.held:
                h[1].close()
            for c in self.idle.values():
                c.close()
            self.srv.kill()
            self.be.stop()

    def count(self, k, ip):
        return sum(1 for h in self.held for r in h[3] if r == k and (self.rules[k][0] == 'con' or h[2] == ip))

    def expect(self, ip, use):
        """(what the client gets at once or None, X-Over marks, rules counted)"""
        marks, cnt = [], []
        for k in use:
            if self.count(k, ip) < self.rules[k][1]:
                cnt.append(k)
                continue
            kind = self.rules[k][2]
            if kind == 'none':
                return '503', marks, cnt
            if kind == 'resp':
                return 'over%d' % k, marks, cnt
            marks.append(str(k))
        return None, marks, cnt

    def observe(self, c, ident):
        """waits for the request either to reach the backend or to be answered"""
        end = time.monotonic() + 10
        while time.monotonic() < end:
            if ident in self.be.seen:
                q = self.be.seen[ident]
                over = [v.decode() for k, v in q['headers'] if k.lower() == b'x-over']
                return None, [x.strip() for v in over for x in v.split(',')], None
            if c.buf:
                break
            r, _, _ = select.select([c.s], [], [], 0.002)
            if r:
                break
        try:
            r = c.response('GET', timeout=5)
        except Malformed as e:
            raise Violation('malformed response: %s' % e)
        except Closed:
            self.srv.settle_dead(0.3)
            self.srv.check_alive()
            return 'closed', [], None
        except Timeout:
            raise Violation('request neither answered nor passed on', timing=True)
        return ('503' if r.status == 503 else r.body.decode('latin-1')), [], r

    def history(self, case, rec):
        self.rules = case['rules']
        seq = 0
        recent = 0.0
        for op in case['ops']:
            if op[0] == 'start':
                _, ip, mask, keep = op
                ip = case['ips'][ip % len(case['ips'])]
                if ip == 'v6' and not self.v6:
                    ip = 1
                use = [k for k in range(len(self.rules)) if mask >> k & 1]
                deadline = time.monotonic() + 3
                while True:
                    exp, marks, cnt = self.expect(ip, use)
                    seq += 1
                    ident = 'i%d' % seq
                    c = self.idle.pop(ip, None) if keep else None
                    if c is None:
                        c = self.conn(ip)
                    c.send(req('GET', '/p?' + ''.join('r%d' % k for k in use), headers=[('X-Id', ident)]))
                    got, gmarks, resp = self.observe(c, ident)
                    if (got, gmarks if got is None else []) == (exp, marks if exp is None else []):
                        break
                    if got is None and (exp is not None or set(marks) - set(gmarks)):
                        # the requests counted are really in progress: this is never too early
                        raise Violation('rules %r: request from %r under rules %r with %r active: expected %s, but it was admitted%s' % (self.rules, ip, use, [self.count(k, ip) for k in use], self.show(exp, marks), ' with marks %r' % gmarks if gmarks else ''))
                    # slots of requests which have just ended may take a moment to come back
                    if got is None:
                        self.be.release(ident)
                        try:
                            c.response('GET', timeout=5)
                        except (Malformed, Closed, Timeout):
                            pass
                    c.close()
                    if time.monotonic() > deadline or time.monotonic() - recent > 6:
                        raise Violation('rules %r: request from %r under rules %r with %r active: expected %s, got %s' % (self.rules, ip, use, [self.count(k, ip) for k in use], self.show(exp, marks), self.show(got, gmarks)), timing=False)
                    time.sleep(0.03)
                if got is None:
                    self.held.append([ident, c, ip, cnt])
                    if marks:
                        rec.nt(True)
                        rec.label('marked')
                    rec.label('admitted')
                else:
                    rec.nt(True)
                    rec.label('refused' if got == '503' else 'action')
                    c.close()
            elif self.held:
                h = self.held.pop(op[1] % len(self.held))
                recent = time.monotonic()
                if op[0] == 'fin':
                    self.be.release(h[0], b'done' + h[0].encode())
                    try:
                        r = h[1].response('GET', timeout=10)
                    except (Malformed, Closed, Timeout) as e:
                        self.srv.settle_dead(0.3)
                        self.srv.check_alive()
                        raise Violation('admitted request was not answered: %r' % e, timing=isinstance(e, Timeout))
                    if r.status != 200 or r.body != b'done' + h[0].encode():
                        raise Violation('admitted request was answered %d %r' % (r.status, r.body[:60]))
                    if self.idle.get(h[2]) is None:
                        self.idle[h[2]] = h[1]
                    else:
                        h[1].close()
                else:
                    h[1].close()
                    rec.label('aborted')

    def show(self, e, marks):
        return 'admission%s' % (' with marks %r' % marks if marks else '') if e is None else repr(e)


class Rate(Base):
    NAME = 'rate'
    N_QUICK = 14
    N_THOROUGH = 500
    SECS_QUICK = 60

    def strategy(self):
        rule = st.tuples(st.sampled_from(['req', 'req_ip', 'req_ip']), st.integers(1, 5), st.sampled_from(['none', 'none', 'resp', 'mark'])).map(list)
        ip = st.one_of(st.integers(1, 3), st.just('v6'))
        burst = st.lists(st.tuples(ip, st.integers(0, 7)).map(list), min_size=4, max_size=30)
        return st.fixed_dictionaries({'rules': st.lists(rule, min_size=1, max_size=3), 'workers': st.sampled_from([1, 2]), 'bursts': st.lists(burst, min_size=1, max_size=2)})

    def run(self, case, rec):
        self.start(case['rules'], case['workers'])
        self.rules = case['rules']
        try:
            for n, b in enumerate(case['bursts']):
                if n:
                    time.sleep(1.35)
                self.burst(case, b, rec)
            self.srv.check_alive()
        finally:
            self.srv.kill()

    def burst(self, case, b, rec):
        t0 = time.monotonic()
        cnt = {}
        bad = None
        conns = {}
        try:
            for ip, mask in b:
                if ip == 'v6' and not self.v6:
                    ip = 1
                use = [k for k in range(len(self.rules)) if mask >> k & 1]
                exp, marks = None, []
                for k in use:
                    key = (k, ip if self.rules[k][0] == 'req_ip' else None)
                    cnt[key] = cnt.get(key, 0) + 1
                    if cnt[key] <= self.rules[k][1]:
                        continue
                    kind = self.rules[k][2]
                    if kind == 'none':
                        exp = '503'
                        break
                    if kind == 'resp':
                        exp = 'over%d' % k
                        break
                    marks.append(str(k))
                if exp is None:
                    exp = 'ok ' + ', '.join(marks)
                else:
                    rec.nt(True)
                if marks:
                    rec.nt(True)
                if ip not in conns:
                    conns[ip] = self.conn(ip)
                c = conns[ip]
                c.send(req('GET', '/fast?' + ''.join('r%d' % k for k in use)))
                try:
                    r = c.response('GET')
                except (Malformed, Closed, Timeout) as e:
                    self.srv.settle_dead(0.3)
                    self.srv.check_alive()
                    raise Violation('no proper answer: %r' % e, timing=isinstance(e, Timeout))
                got = '503' if r.status == 503 else r.body.decode('latin-1')
                if r.status == 503:
                    # error pages may close the connection
                    if any(k.lower() == 'connection' and v.lower() == 'close' for k, v in r.headers):
                        conns.pop(ip).close()
                rec.label('refused' if got == '503' else 'over' if got.startswith('over') else 'ok')
                if got != exp and bad is None:
                    bad = 'rules %r: request %r from %r under rules %r: expected %r, got %r (counts %r)' % (self.rules, len(cnt), ip, use, exp, got, sorted((str(k), v) for k, v in cnt.items()))
        finally:
            for c in conns.values():
                c.close()
        dt = time.monotonic() - t0
        if bad and dt < 0.8:
            raise Violation(bad)
        if dt >= 0.8:
            rec.label('too slow to judge')


SUBS = [Con, Rate]

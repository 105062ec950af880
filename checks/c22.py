"""C22: balancing: which backend a request gets, and what happens when backends go away and come back."""
import os
import select
import socket
import time

from hypothesis import strategies as st

from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Server, Violation, free_port

RULE = ('histories of start / finish / abandon / backend goes down / backend comes back / pause over 1..4 proxy backends under balance.rr, balance.sqf or nested balancers, backend sockets unix or TCP, answers with and without keep-alive; '
        'non-trivial: a backend was down while a request was started, or at least 3 requests were in progress at once')


class Farm:
    """the backends and the clients, all served by the thread of the test itself"""

    def __init__(self, sub, n, tcp, ka):
        self.sub, self.n, self.tcp, self.ka = sub, n, tcp, ka
        self.addr = []
        for i in range(n):
            self.addr.append(('127.0.0.1', free_port('127.0.0.1')) if tcp else os.path.join(sub.scratch, 'be%d' % i))
        self.lst = [None] * n
        self.conns = {}         # backend side: socket -> [backend, buf, id or None]
        self.arrived = {}       # id -> [backend...]
        self.backend_gone = set()
        self.clients = {}       # id -> Conn
        self.down_ever = [False] * n
        for i in range(n):
            self.up(i)

    def name(self, i):
        return '%s:%d' % self.addr[i] if self.tcp else 'unix:' + self.addr[i]

    def up(self, i):
        if self.lst[i]:
            return
        if self.tcp:
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            for k in range(50):
                try:
                    s.bind(self.addr[i])
                    break
                except OSError:
                    time.sleep(0.05)
            else:
                from lib.runner import Inconclusive
                raise Inconclusive('port taken')
        else:
            try:
                os.unlink(self.addr[i])
            except FileNotFoundError:
                pass
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.bind(self.addr[i])
        s.listen(64)
        s.setblocking(False)
        self.lst[i] = s

    def down(self, i):
        if not self.lst[i]:
            return
        self.pump(0)
        self.down_ever[i] = True
        self.lst[i].close()
        self.lst[i] = None
        for c, e in list(self.conns.items()):
            if e[0] == i and e[2] is None:      # idle ones go too
                self.drop(c)

    def drop(self, c):
        del self.conns[c]
        c.close()

    def pump(self, timeout, until=None):
        end = time.monotonic() + timeout
        while True:
            if until and until():
                return True
            left = end - time.monotonic()
            rl = [s for s in self.lst if s] + list(self.conns)
            r, _, _ = select.select(rl, [], [], max(0, min(left, 0.1)))
            for s in r:
                if s in self.conns:
                    try:
                        d = s.recv(65536)
                    except OSError:
                        d = b''
                    e = self.conns[s]
                    if not d:
                        if e[2] is not None:
                            self.backend_gone.add(e[2])
                        self.drop(s)
                        continue
                    e[1] += d
                    if e[2] is None and b'\r\n\r\n' in e[1]:
                        h = e[1].split(b'\r\n\r\n', 1)[0]
                        ident = h.split(b' ')[1].rsplit(b'/', 1)[1].decode()
                        e[1] = e[1].split(b'\r\n\r\n', 1)[1]
                        e[2] = ident
                        self.arrived.setdefault(ident, []).append(e[0])
                else:
                    try:
                        c, _ = s.accept()
                    except OSError:
                        continue
                    c.setblocking(True)
                    c.settimeout(10)
                    self.conns[c] = [self.lst.index(s), b'', None]
            if not r and left <= 0:
                return bool(until and until())

    def answer(self, ident):
        for c, e in list(self.conns.items()):
            if e[2] == ident:
                body = b'b%d.' % e[0] + ident.encode()
                c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n%s\r\n' % (len(body), b'' if self.ka else b'Connection: close\r\n') + body)
                e[2] = None
                if not self.ka:
                    self.drop(c)
                return e[0], body
        return None, None

    def close(self):
        for s in self.lst:
            if s:
                s.close()
        for c in list(self.conns):
            self.drop(c)
        for c in self.clients.values():
            c.close()


def tree_conf(t, farm):
    if isinstance(t, int):
        return '{ proxy "%s"; }' % farm.name(t)
    m, subs = t
    return '{ balance.%s [ %s ]; }' % (m, ', '.join(tree_conf(s, farm) for s in subs))


def leaves(t):
    return [t] if isinstance(t, int) else [x for s in t[1] for x in leaves(s)]


class Balance(Sub):
    NAME = 'balance'
    N_QUICK = 60
    N_THOROUGH = 1500
    SECS_QUICK = 60
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)

    def teardown(self):
        pass

    def strategy(self):
        m = st.sampled_from(['rr', 'sqf'])
        trees = st.one_of(
            st.tuples(m, st.integers(1, 4)).map(lambda t: [t[0], list(range(t[1]))]),
            st.tuples(m, st.integers(2, 4)).map(lambda t: [t[0], list(range(t[1]))]),
            m.flatmap(lambda a: m.flatmap(lambda b: st.sampled_from([
                [a, [[b, [0, 1]], 2]], [a, [2, [b, [0, 1]]]], [a, [[b, [0]], 1]], [a, [[b, [0, 1]], [b, [2, 3]]]], [a, [[b, [0]], [b, [1]]]], [a, [[b, [0, [a, [1]]]], 2]], [a, [[b, [0]]]]]))))
        i = st.integers(0, 3)
        op = st.one_of(st.just(['start']), st.just(['start']), st.just(['start']), st.just(['start']),
                       st.tuples(st.just('finish'), i).map(list), st.tuples(st.just('finish'), i).map(list), st.tuples(st.just('abandon'), i).map(list),
                       st.tuples(st.just('down'), i).map(list), st.tuples(st.just('up'), i).map(list), st.tuples(st.just('pause'), st.sampled_from([5, 60, 400, 1050])).map(list))
        calm = st.one_of(st.just(['start']), st.just(['start']), st.tuples(st.just('finish'), i).map(list), st.tuples(st.just('abandon'), i).map(list))
        ops = st.one_of(st.lists(calm, min_size=4, max_size=24), st.lists(op, min_size=4, max_size=20), st.lists(op, min_size=4, max_size=20))
        return st.fixed_dictionaries({'tree': trees, 'tcp': st.booleans(), 'ka': st.booleans(), 'depth': st.one_of(st.just(0), st.integers(0, 20)), 'ops': ops})

    def run(self, case, rec):
        tree = case['tree']
        n = max(leaves(tree)) + 1
        farm = Farm(self, n, case['tcp'], case['ka'])
        try:
            self.history(case, tree, n, farm, rec)
        finally:
            farm.close()

    def history(self, case, tree, n, farm, rec):
        act = tree_conf(tree, farm)[2:-2]
        for _ in range(case['depth']):
            act = 'if req.method == "GET" { %s }' % act
        conf = 'setup { module_load [ "mod_balance", "mod_proxy" ]; listen "unix:@SOCK@"; workers 1; io.timeout 60; }\nif req.path == "/alive" { respond 200 => "alive"; } else { %s }\n' % act
        conf = conf.replace('@SOCK@', os.path.join(self.scratch, 's.sock'))
        srv = Server(self.scratch, conf)
        if not srv.start():
            srv.settle_dead(0.2)
            srv.check_alive()
            raise Violation('configuration refused: %s\n%s' % (srv.log_text()[-400:], conf))
        try:
            self.play(case, tree, n, farm, rec, srv)
            srv.settle_dead(0.0)
            srv.check_alive()
        finally:
            srv.kill()

    def fail(self, srv, msg, timing=False):
        srv.settle_dead(0.3)
        srv.check_alive()
        raise Violation(msg, timing=timing)

    def play(self, case, tree, n, farm, rec, srv):
        flat = all(isinstance(s, int) for s in tree[1])
        alive = Conn(path=srv.sock, timeout=15)
        busy = []       # arrived, not answered: [id]
        waiting = []    # sent, not arrived
        load = [0] * n
        last = [-1]     # of the round robin
        cnt = [0]
        maxbusy = 0
        downstart = False

        def barrier():
            alive.send(b'GET /alive HTTP/1.1\r\nHost: a\r\n\r\n')
            try:
                r = alive.response('GET')
            except (Closed, Malformed, Timeout) as e:
                self.fail(srv, 'no answer to an unrelated request: %s' % e, timing=isinstance(e, Timeout))
            if r.status != 200:
                self.fail(srv, 'status %d for an unrelated request' % r.status)
            farm.pump(0)

        def early(ident):
            """an answer (or the end of the connection) before the backend has answered"""
            c = farm.clients[ident]
            r, _, _ = select.select([c.s], [], [], 0)
            if not r:
                return
            try:
                x = c.response('GET')
                self.fail(srv, 'request %s was answered with status %d although no backend has answered it' % (ident, x.status))
            except Closed:
                self.fail(srv, 'the connection of request %s was closed although no backend has answered it' % ident)
            except Malformed as e:
                self.fail(srv, 'malformed: %s' % e)

        def place(ident, b, started_with):
            """checks the choice of backend b"""
            if len(farm.arrived[ident]) != 1:
                self.fail(srv, 'request %s was given to the backends %r' % (ident, farm.arrived[ident]))
            if flat and tree[0] == 'rr':
                k = (last[0] + 1) % n
                while k != b:
                    if not farm.down_ever[k]:
                        self.fail(srv, 'round robin over %d backends: request %s went to %d after %d, although %d has always been up' % (n, ident, b, last[0], k))
                    k = (k + 1) % n
            if flat and tree[0] == 'sqf':
                for k in range(n):
                    if not farm.down_ever[k] and load[k] < load[b]:
                        self.fail(srv, 'shortest queue: request %s went to backend %d with %d requests in progress, although backend %d has %d' % (ident, b, load[b], k, load[k]))
            last[0] = b

        def collect():
            for ident in list(waiting):
                if ident in farm.arrived:
                    waiting.remove(ident)
                    busy.append(ident)
                    b = farm.arrived[ident][0]
                    if len(farm.arrived[ident]) != 1:
                        self.fail(srv, 'request %s was given to the backends %r' % (ident, farm.arrived[ident]))
                    load[b] += 1
                    last[0] = b

        def start():
            ident = 'q%d' % cnt[0]
            cnt[0] += 1
            c = Conn(path=srv.sock, timeout=15)
            farm.clients[ident] = c
            anyup = [i for i in range(n) if farm.lst[i] and not farm.down_ever[i]]
            up = [i for i in range(n) if farm.lst[i]]
            c.send(b'GET /r/%s HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n' % ident.encode())
            if not up:
                # nothing can take it: it waits
                farm.pump(0.05)
                waiting.append(ident)
                early(ident)
                return ident
            if not anyup:
                farm.pump(0.05, lambda: ident in farm.arrived)
                if ident not in farm.arrived:
                    waiting.append(ident)
                    early(ident)
                    return ident
                collect()
            elif not farm.pump(4, lambda: ident in farm.arrived):
                early(ident)
                self.fail(srv, 'request %s has not reached a backend after 4 s, although the backends %r have always been up' % (ident, anyup), timing=True)
            collect()
            b = farm.arrived[ident][0]
            place(ident, b, None)
            busy.append(ident)
            load[b] += 1
            return ident

        def finish(ident, known=True):
            b, body = farm.answer(ident)
            if b is None:
                self.fail(srv, 'the server has closed its backend connection of request %s although the client is still there' % ident)
            c = farm.clients[ident]
            try:
                r = c.response('GET')
            except (Closed, Malformed) as e:
                self.fail(srv, 'no answer to request %s, which backend %d has answered: %s' % (ident, b, e))
            except Timeout:
                self.fail(srv, 'no answer to request %s, which backend %d has answered' % (ident, b), timing=True)
            if r.status != 200 or r.body != body:
                self.fail(srv, 'request %s: got %d %r instead of %r' % (ident, r.status, r.body[:40], body))
            c.close()
            del farm.clients[ident]
            busy.remove(ident)
            load[b] -= 1
            barrier()

        for op in case['ops']:
            farm.pump(0)
            collect()
            if op[0] == 'start':
                if None in farm.lst:
                    downstart = True
                start()
                maxbusy = max(maxbusy, len(busy))
            elif op[0] == 'finish' and busy:
                finish(busy[op[1] % len(busy)])
            elif op[0] == 'abandon' and (busy or waiting):
                allof = busy + waiting
                ident = allof[op[1] % len(allof)]
                farm.clients.pop(ident).close()
                if ident in busy:
                    if not farm.pump(5, lambda: ident in farm.backend_gone):
                        self.fail(srv, 'the client of request %s has gone, but the connection to its backend stays open for 5 s' % ident, timing=True)
                    load[farm.arrived[ident][0]] -= 1
                    busy.remove(ident)
                    barrier()
                else:
                    barrier()
                    barrier()
                    farm.pump(0.01)
                    collect()
                    if ident in busy:       # had just been given to a backend
                        load[farm.arrived[ident][0]] -= 1
                        busy.remove(ident)
                    else:
                        waiting.remove(ident)
            elif op[0] == 'down':
                farm.down(op[1] % n)
                barrier()
                barrier()
            elif op[0] == 'up':
                farm.up(op[1] % n)
            elif op[0] == 'pause':
                farm.pump(op[1] / 1000)
            for ident in busy + waiting:
                early(ident)
        # all come back: everything that waits is served
        for i in range(n):
            farm.up(i)
        if waiting:
            rec.label('requests waited for a backend')
            if not farm.pump(14, lambda: all(w in farm.arrived for w in waiting)):
                for w in waiting:
                    early(w)
                self.fail(srv, 'requests %r have not reached a backend 14 s after all backends came back' % [w for w in waiting if w not in farm.arrived], timing=True)
            collect()
        for ident in list(busy):
            finish(ident)
        # and a backend that has come back is used again
        if any(farm.down_ever) and flat and n > 1:
            rec.label('came back')
            end = time.monotonic() + 14
            while True:
                got = []
                for _ in range(n):
                    ident = 'q%d' % cnt[0]
                    cnt[0] += 1
                    c = Conn(path=srv.sock, timeout=15)
                    farm.clients[ident] = c
                    c.send(b'GET /r/%s HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n' % ident.encode())
                    if not farm.pump(14, lambda: ident in farm.arrived):
                        self.fail(srv, 'request %s has not reached a backend within 14 s although all are up' % ident, timing=True)
                    got.append(farm.arrived[ident][0])
                    busy.append(ident)
                    load[got[-1]] += 1
                for ident in list(busy):
                    finish(ident)
                if len(set(got)) == n:
                    break
                if time.monotonic() > end:
                    self.fail(srv, '14 s after all backends came back, %d requests at the same time were given to %r' % (n, got), timing=True)
                farm.pump(0.3)
        for ident, bs in farm.arrived.items():
            if len(bs) != 1:
                self.fail(srv, 'request %s was given to the backends %r' % (ident, bs))
        alive.close()
        rec.nt(downstart or maxbusy >= 3)
        rec.label(tree[0] + (' flat' if flat else ' nested'))
        if downstart:
            rec.label('started while a backend was down')


SUBS = [Balance]

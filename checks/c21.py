"""C21: outgoing bandwidth limits."""
import os
import select
import socket
import struct
import time

from hypothesis import strategies as st

from lib.harness import Harness
from lib.runner import Sub
from lib.server import Server, Violation, free_port, own_addr

RULE = ('model: generated histories (connections on several workers opening, joining and leaving pools, changing rates, writing, stalling, closing; minutes of simulated time, any start time) for the throttle code; '
        'live: generated downloads from the running server under io.throttle, io.throttle_pool, io.throttle_ip; '
        'non-trivial: a limit held back at least one transfer')

OVER = 8 * 1024
STEP = 64 * 1024


class Model(Sub):
    NAME = 'model'
    HARNESS = True
    N_QUICK = 700
    N_THOROUGH = 20000
    SECS_QUICK = 40
    RECYCLE = 50000

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()

    def teardown(self):
        self.h.stop()

    def strategy(self):
        rate = st.one_of(st.integers(8192, 200000), st.integers(8192, 20000000), st.just(512 * 1024 * 1024))
        lim = st.tuples(rate, st.sampled_from([200, 1000, 1000, 2000, 300])).map(lambda x: [x[0], min(x[0] * x[1] // 1000 + 1, 512 * 1024 * 1024)])
        plim = rate.map(lambda r: [r, r])     # mod_throttle always uses burst = rate for pools
        conn = st.fixed_dictionaries({'w': st.integers(0, 2), 'rate': st.one_of(st.none(), st.none(), lim), 'pools': st.lists(st.integers(0, 2), max_size=2, unique=True)})
        idx = st.integers(0, 5)
        op = st.one_of(
            st.tuples(st.just('a'), st.one_of(st.integers(1, 3000), st.integers(1, 60000), st.integers(100000, 400000)), st.sampled_from([50, 50, 13]), st.integers(0, 7)),
            st.tuples(st.just('a'), st.integers(1, 60000), st.just(50), st.integers(0, 7)),
            st.tuples(st.just('w'), idx, st.one_of(st.integers(1, 5000), st.integers(1, 1000000), st.just(1 << 40), st.just(1 << 40))),
            st.tuples(st.just('s'), idx, st.integers(0, 1)), st.tuples(st.just('s'), idx, st.integers(0, 1)),
            st.tuples(st.just('c'), idx), st.tuples(st.just('q'), idx, st.integers(0, 2)), st.tuples(st.just('p'), idx, st.integers(0, 2)), st.tuples(st.just('r'), idx, lim)).map(list)
        base = st.one_of(st.integers(1, 2 ** 33).map(float), st.integers(0, 200).map(lambda d: 4294967.296 * 415 - d), st.integers(0, 400).map(lambda d: 2147483.648 * 831 - d))
        return st.fixed_dictionaries({'base': base, 'nw': st.sampled_from([1, 1, 2, 3]), 'pools': st.lists(plim, min_size=3, max_size=3), 'start': st.lists(st.sampled_from([0, 1 << 40, 1 << 40, 100000, 1000000]), min_size=6, max_size=6), 'conns': st.lists(conn, min_size=1, max_size=6), 'ops': st.lists(op, min_size=2, max_size=14)})

    def run(self, case, rec):
        nw = case['nw']
        conns = case['conns']
        req = ['throttle', '%.3f' % case['base'], nw, 3]
        for p in case['pools']:
            req += p
        t = 0
        ev = []     # (time, kind, conn, ...)
        opened = {}
        mem = {}    # conn -> set of pools

        def open_(c):
            k = conns[c]
            req.extend(['o', c, k['w'] % nw])
            opened[c] = True
            mem[c] = set()
            ev.append((t, 'o', c))
            if k['rate']:
                req.extend(['r', c] + k['rate'])
                ev.append((t, 'r', c) + tuple(k['rate']))
            for p in k['pools']:
                req.extend(['p', c, p])
                mem[c].add(p)
                ev.append((t, 'p', c, p))
        limited = lambda c: mem[c] or any(e[1] == 'r' and e[2] == c for e in ev)
        for op in [['w', c, w] for c, w in enumerate(case['start'][:len(conns)]) if w] + case['ops']:
            op = list(op)
            if op[0] == 'a':
                req += op
                t += op[1]
                continue
            c = op[1] % len(conns)
            if not opened.get(c):
                open_(c)
            if op[0] == 'w':
                n = op[2]
                if not limited(c) and n > 1 << 30:
                    n = 1 << 20     # never give an unlimited connection endless data
                req += ['w', c, n]
                ev.append((t, 'w', c, n))
            elif op[0] == 's':
                req += ['s', c, op[2]]
                ev.append((t, 's', c, op[2]))
            elif op[0] == 'c':
                req += ['c', c]
                opened[c] = False
                ev.append((t, 'c', c))
            elif op[0] == 'p':
                if op[2] not in mem[c]:
                    mem[c].add(op[2])
                    req += ['p', c, op[2]]
                    ev.append((t, 'p', c, op[2]))
            elif op[0] == 'q':
                if op[2] in mem[c] and (len(mem[c]) > 1 or conns[c]['rate']):
                    mem[c].discard(op[2])
                    req += ['q', c, op[2]]
                    ev.append((t, 'q', c, op[2]))
            elif op[0] == 'r':
                req += ['r', c] + op[2]
                ev.append((t, 'r', c) + tuple(op[2]))
        req += ['a', 1, 50, 0]
        a = self.h.call(*req, timeout=60)
        tr = [struct.unpack('<iii', a[0][i:i + 12]) for i in range(0, len(a[0]), 12)]
        self.judge(case, ev, tr, t + 1, rec)

    def judge(self, case, ev, tr, end, rec):
        nw = case['nw']
        n = len(case['conns'])
        lim = [None] * n            # [rate, burst, granted since, since]
        pools = [set() for _ in range(n)]
        want = [0] * n
        stalled = [0] * n
        level = [[0, 0]] * n        # token bucket of the connection limit: [fill, time]
        alive = [False] * n
        pool_total = [0, 0, 0]
        pool_over = [0, 0, 0]
        pool_level = [0, 0, 0]
        pool_at = [0, 0, 0]
        gen = [0] * n
        windows = {}                # conn -> [t0, granted, signature]
        last = 0
        held = False

        def check_window(c, t):
            w = windows.pop(c, None)
            if not w:
                return
            T = (t - w['t']) / 1000.0
            rates = []
            for p in w['pools']:
                rates.append(min(case['pools'][p][0], 2e7) / w['k'][p] * 0.55)
            if w['lim']:
                rates.append(min(w['lim'][0], 2e7) * 0.7)
            if not rates:
                return
            r = min(rates)
            slack = STEP * 2 + OVER + sum(case['pools'][p][1] for p in w['pools'])
            if len(w['pools']) + (1 if w['lim'] else 0) > 1:
                r *= 0.5
            if w['got'] < r * T * 0.8 - slack - r * 2:
                raise Violation('connection %d wanted to send for %.1f s, got %d bytes, entitled to at least %d (limit %r, pools %r shared by %r)' % (
                    c, T, w['got'], r * T * 0.8, w['lim'], [case['pools'][p] for p in w['pools']], [w['k'][p] for p in w['pools']]))

        def hungry(c):
            return alive[c] and not stalled[c] and want[c] > 1 << 35 and (lim[c] or pools[c])

        def sync(t):
            # (re)start windows whose situation changed
            members = [[c for c in range(n) if alive[c] and p in pools[c]] for p in range(3)]
            for c in range(n):
                w = windows.get(c)
                h = hungry(c)
                if w and (not h or w['pools'] != frozenset(pools[c]) or w['sig'] != (gen[c],)):
                    check_window(c, t)
                    w = None
                if h and not w:
                    windows[c] = w = {'t': t, 'got': 0, 'pools': frozenset(pools[c]), 'sig': (gen[c],), 'lim': lim[c] and lim[c][:2], 'k': [1, 1, 1]}
                if w:
                    for p in pools[c]:
                        w['k'][p] = max(w['k'][p], len(members[p]))
        pw = [None] * 3     # pool windows: some member limited by nothing else wants to send all the time

        def pool_check(p, t):
            w = pw[p]
            pw[p] = None
            if w:
                T = (t - w[0]) / 1000.0
                rate, burst = case['pools'][p]
                if w[1] < 0.6 * min(rate, 2e7) * T - (nw + n) * burst - n * (STEP * 2 + OVER) - rate * 2:
                    raise Violation('pool %d of %d bytes/s: a connection wanted to send for %.1f s, but only %d bytes were sent' % (p, rate, T, w[1]))

        def pool_sync(t):
            for p in range(3):
                sole = tuple(c for c in range(n) if hungry(c) and pools[c] == {p} and not lim[c])
                w = pw[p]
                if w and (not sole or not set(w[2]) & set(sole)):
                    pool_check(p, t)
                    w = None
                if sole and not w:
                    pw[p] = [t, 0, sole]
                elif w:
                    w[2] = tuple(set(w[2]) & set(sole))
        ev = iter(ev)
        for t, c, m in tr:
            if c < 0:
                e = next(ev)
                c = e[2]
                if e[1] == 'o':
                    alive[c], want[c], stalled[c], lim[c], pools[c] = True, 0, 0, None, set()
                elif e[1] == 'c':
                    alive[c] = False
                    pools[c] = set()
                elif e[1] == 'r':
                    gen[c] += 1
                    lim[c] = [e[3], e[4], 0, t]
                    level[c] = [0, t]
                elif e[1] == 'p':
                    pools[c] = pools[c] | {e[3]}
                    pool_over[e[3]] += 1
                    gen[c] += 1
                elif e[1] == 'q':
                    pools[c] = pools[c] - {e[3]}
                    gen[c] += 1
                elif e[1] == 'w':
                    want[c] += e[3]
                elif e[1] == 's':
                    stalled[c] = e[3]
                sync(t)
                pool_sync(t)
                continue
            want[c] -= m
            for p in pools[c]:
                pool_total[p] += m
                rate, burst = case['pools'][p]
                # long-term accumulation: no window may exceed what a full set of magazines holds
                pool_level[p] = max(0, pool_level[p] - rate * (t - pool_at[p]) / 1000) + m
                pool_at[p] = t
                cap = burst * (nw + 2 + n) + (pool_over[p] + n) * (OVER + STEP)
                if pool_level[p] > cap:
                    raise Violation('pool %d of %d bytes/s (burst %d): %d bytes more than the rate allows were sent at once after %.2f s, at most %d' % (p, rate, burst, pool_level[p], t / 1000, cap))
                bound = burst * 5 // 4 + rate * t // 1000 + pool_over[p] * (OVER + STEP)
                if pool_total[p] > bound:
                    raise Violation('pool %d of %d bytes/s (burst %d): %d bytes sent in the first %.2f s by %d connections, at most %d allowed' % (p, rate, burst, pool_total[p], t / 1000, pool_over[p], bound))
                if pw[p]:
                    pw[p][1] += m
            if lim[c]:
                lim[c][2] += m
                rate, burst, got, since = lim[c]
                # no pause may save up more than the burst
                level[c] = [max(0, level[c][0] - rate * (t - level[c][1]) / 1000) + m, t]
                if level[c][0] > burst + OVER + STEP + rate // 4:
                    raise Violation('connection %d limited to %d bytes/s (burst %d): %d bytes more than the rate allows were sent at once after %.2f s' % (c, rate, burst, level[c][0], t / 1000))
                if got > burst + rate * (t - since) // 1000 + OVER + STEP:
                    raise Violation('connection %d limited to %d bytes/s (burst %d) sent %d bytes in %.2f s' % (c, rate, burst, got, (t - since) / 1000))
            if c in windows:
                windows[c]['got'] += m
            if lim[c] or pools[c]:
                held = held or hungry(c)
        for c in range(n):
            check_window(c, end)
        for p in range(3):
            pool_check(p, end)
        rec.nt(held)
        if any(len(p) for p in pools):
            rec.label('pool')


SLACK = 24 * 1024       # per connection: the overload of the throttle code and response headers


class Live(Sub):
    """Downloads from the running server."""
    NAME = 'live'
    N_QUICK = 7
    N_THOROUGH = 300
    SECS_QUICK = 45
    RECYCLE = 10 ** 9
    SPAN = 3.6

    def setup(self):
        os.makedirs(self.scratch + '/d', exist_ok=True)
        for n in (1, 20, 100, 400, 1000, 5000):
            with open(self.scratch + '/d/%d' % n, 'wb') as f:
                f.write((b'%07d\n' % n) * (n * 128))

    def teardown(self):
        pass

    def strategy(self):
        rate = st.sampled_from([16384, 32768, 65536, 100000, 150000])
        iconn = st.fixed_dictionaries({'f': st.sampled_from(['i', 'i', 'i', 'i', 'ip']), 'ip': st.just(1), 'at': st.integers(0, 20), 'rq': st.lists(st.sampled_from([1, 20, 20, 100]), max_size=3), 'big': st.booleans(), 'gap': st.sampled_from([0, 0, 0, 2]), 'stop': st.sampled_from([99, 99, 8, 15, 20])})
        conn = st.fixed_dictionaries({'f': st.sampled_from(['i', 'i', 'i', 'p', 'p', 'c', 'ic', 'pc', 'pq', 'ip', 'n']), 'ip': st.integers(1, 2), 'at': st.integers(0, 12),
                                      'rq': st.lists(st.sampled_from([1, 1, 20, 100, 400]), max_size=4), 'big': st.booleans(), 'gap': st.sampled_from([0, 0, 1, 3]), 'stop': st.sampled_from([99, 99, 99, 8, 15])})
        k = lambda at, rq, big, stop: {'f': 'i', 'ip': 1, 'at': at, 'rq': rq, 'big': big, 'gap': 0, 'stop': stop}
        chain = st.tuples(st.integers(5, 10), st.integers(0, 4), st.lists(st.sampled_from([1, 1, 20]), max_size=3), st.integers(1, 4), st.lists(st.tuples(st.integers(0, 20), st.booleans()), max_size=2)).map(
            lambda x: [k(0, [], True, x[0]), k(x[1], x[2], True, 99), k(x[0] + x[3], [], True, 99)] + [k(a, [1], b, 99) for a, b in x[4]])
        return st.fixed_dictionaries({'nw': st.sampled_from([1, 2, 2, 3]), 'c': st.tuples(rate, st.sampled_from([0.3, 1, 2, 4])), 'cform': st.booleans(), 'p': rate, 'q': rate, 'i': rate, 'kind': st.sampled_from(['sendfile', 'write']), 'conns': st.one_of(st.lists(conn, min_size=2, max_size=8), st.lists(iconn, min_size=3, max_size=7), chain)})

    def run(self, case, rec):
        crate = case['c'][0]
        cburst = 2 * crate if not case['cform'] else int(crate * case['c'][1])
        addr = own_addr()
        port = free_port(addr)
        back = {'sendfile': '', 'write': 'network.backend "write";'}
        conf = """setup {
  workers %d; module_load ("mod_throttle"); listen "%s:%d"; listen "unix:%%SOCK%%"; io.timeout 300;
}
docroot "%%DIR%%/d";
if req.query =~ "c" { io.throttle %s; }
if req.query =~ "p" { io.throttle_pool %d; }
if req.query =~ "q" { io.throttle_pool %d; }
if req.query =~ "i" { io.throttle_ip %d; }
static;
""" % (case['nw'], addr, port, '%d => %d' % (cburst, crate) if case['cform'] else '%d' % crate, case['p'], case['q'], case['i'])
        srv = Server(self.scratch, conf)
        if not srv.start():
            srv.settle_dead(0.2)
            srv.check_alive()
            raise Violation('configuration refused: %s\n%s' % (srv.log_text()[-400:], conf))
        try:
            self.go(case, (addr, port), cburst, crate, rec)
            srv.check_alive()
        finally:
            srv.kill()

    def go(self, case, tcp, cburst, crate, rec):
        t0 = time.monotonic()
        cs = []
        base = int(tcp[0].split('.')[3])
        for k in case['conns']:
            cs.append({'k': k, 'rq': list(k['rq']) + ([5000] if k['big'] else []), 's': None, 'next': t0 + k['at'] / 10, 'stop': t0 + k['stop'] / 10, 'buf': b'', 'left': None, 'log': [], 'got': 0, 'ivs': [], 'done': False})
        end = t0 + self.SPAN
        while True:
            now = time.monotonic()
            if now >= end:
                break
            live = []
            for c in cs:
                if c['done']:
                    continue
                if now >= c['stop']:
                    if c['s']:
                        c['s'].close()
                    c['done'] = True
                    if c['left'] is not None:
                        c['ivs'][-1][1] = now
                        c['ivs'][-1][3] = False
                    continue
                if c['left'] is None and now >= c['next']:
                    if not c['rq']:
                        continue        # stay connected, idle
                    n = c['rq'].pop(0)
                    if not c['s']:
                        c['s'] = socket.socket()
                        c['s'].bind(('127.%d.%d.%d' % (tcp[1] >> 8, tcp[1] & 255, c['k']['ip']), 0))
                        c['s'].connect(tcp)
                        c['s'].setblocking(False)
                    c['s'].send(b'GET /%d?%s HTTP/1.1\r\nHost: a\r\n\r\n' % (n, c['k']['f'].encode()))
                    c['left'] = 0
                    c['n'] = n
                    c['ivs'].append([now, None, None, True, n])
                if c['left'] is not None:
                    live.append(c)
            if not live:
                if not any(c['rq'] and not c['done'] for c in cs):
                    break
                time.sleep(0.01)
                continue
            r, _, _ = select.select([c['s'] for c in live], [], [], 0.03)
            now = time.monotonic()
            for c in live:
                if c['s'] not in r:
                    continue
                try:
                    d = c['s'].recv(262144)
                except BlockingIOError:
                    continue
                if not d:
                    raise Violation('connection closed in the middle of a response (request %d, flags %s)' % (len(c['ivs']), c['k']['f']))
                c['got'] += len(d)
                c['log'].append((now, len(d)))
                if c['ivs'][-1][2] is None:
                    c['ivs'][-1][2] = now
                if c['left'] == 0:
                    c['buf'] += d
                    p = c['buf'].find(b'\r\n\r\n')
                    if p < 0:
                        continue
                    if not c['buf'].startswith(b'HTTP/1.1 200') or b'Content-Length: %d\r\n' % (c['n'] * 1024) not in c['buf'][:p + 2]:
                        raise Violation('unexpected response %r' % c['buf'][:200])
                    d = c['buf'][p + 4:]
                    c['buf'] = b''
                    c['left'] = c['n'] * 1024
                    c['pos'] = 0
                self.verify(c, d)
                if c['left'] == 0:
                    c['ivs'][-1][1] = now
                    c['left'] = None
                    c['next'] = now + c['k']['gap'] / 10
        stop = time.monotonic()
        for c in cs:
            if c['s']:
                c['s'].close()
        self.judge(case, cs, t0, stop, cburst, crate, rec)

    def verify(self, c, d):
        unit = b'%07d\n' % c['n']
        o = c['pos'] % 8
        if len(d) > c['left'] or d != (unit * (len(d) // 8 + 2))[o:o + len(d)]:
            raise Violation('wrong content in a response at offset %d' % c['pos'])
        c['pos'] += len(d)
        c['left'] -= len(d)

    def judge(self, case, cs, t0, stop, cburst, crate, rec):
        held = False

        def upper(name, group, rate, fixed):
            log = sorted(x for c in group for x in c['log'])
            if not log:
                return
            start = min(c['ivs'][0][0] for c in group if c['ivs'])
            tot = 0
            for t, n in log:
                tot += n
                if tot > fixed + rate * (t - start + 0.05) + SLACK * len(group):
                    raise Violation('%s of %d bytes/s: %d bytes received within %.2f s by %d connections, at most %d allowed' % (name, rate, tot, t - start, len(group), fixed + rate * (t - start + 0.05) + SLACK * len(group)), timing=True)
        for p in 'pq':
            g = [c for c in cs if p in c['k']['f']]
            upper('io.throttle_pool', g, case[p], case[p] * 5 // 4)
            # one member that is only limited by this pool and wants data till the end
            h = [c for c in g if c['k']['f'] == p and c['ivs'] and c['ivs'][-1][1] is None and c['ivs'][-1][4] == 5000]
            if h:
                held = True
                s = min(c['ivs'][-1][0] for c in h)
                tot = sum(n for c in g for t, n in c['log'] if t >= s)
                if tot < 0.5 * case[p] * (stop - s) - case[p]:
                    raise Violation('io.throttle_pool of %d bytes/s: only %d bytes were sent in %.2f s' % (case[p], tot, stop - s), timing=True)
        for c in cs:
            if 'c' in c['k']['f']:
                # the action refills the magazine: one burst for each request
                upper('io.throttle', [c], crate, cburst * len(c['ivs']))
                if c['k']['f'] == 'c' and c['ivs'] and c['ivs'][-1][1] is None and c['ivs'][-1][4] == 5000:
                    held = True
                    s = c['ivs'][-1][0]
                    tot = sum(n for t, n in c['log'] if t >= s)
                    if tot < 0.5 * crate * (stop - s) - crate:
                        raise Violation('io.throttle of %d bytes/s: only %d bytes were sent in %.2f s' % (crate, tot, stop - s), timing=True)
            if c['k']['f'] == 'n':
                for iv in c['ivs']:
                    if iv[1] is None and stop - iv[0] > 3:
                        raise Violation('a download without limits was not finished after %.2f s' % (stop - iv[0]), timing=True)
        for ip in (1, 2):
            g = [c for c in cs if 'i' in c['k']['f'] and c['k']['ip'] == ip]
            ivs = sorted((iv for c in g for iv in c['ivs']), key=lambda x: x[0])
            # the pool of an address lives as long as it is used: a request made while no other one is surely active may find a new one
            fresh = sum(1 for iv in ivs if not any(o is not iv and o[2] is not None and o[2] < iv[0] - 0.05 and (o[1] is None or o[1] > iv[0] + 0.3) for o in ivs))
            upper('io.throttle_ip', g, case['i'], case['i'] * fresh * 5 // 4)
            if len(ivs) > 1 and fresh < len(ivs):
                held = True
                rec.label('shared-ip')
            h = [c for c in g if c['k']['f'] == 'i' and c['ivs'] and c['ivs'][-1][1] is None and c['ivs'][-1][4] == 5000]
            if h:
                s = min(c['ivs'][-1][0] for c in h)
                tot = sum(n for c in g for t, n in c['log'] if t >= s)
                if tot < 0.5 * case['i'] * (stop - s) - case['i']:
                    raise Violation('io.throttle_ip of %d bytes/s: only %d bytes were sent in %.2f s' % (case['i'], tot, stop - s), timing=True)
        rec.nt(held)


SUBS = [Model, Live]

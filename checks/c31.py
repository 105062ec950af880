"""C31: graceful shutdown and graceful reload lose no request."""
import os
import re
import signal
import socket
import threading
import time

from hypothesis import strategies as st

from lib import build
from lib.e2e import req
from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Inconclusive, Server, Violation, asan_env, crash_summary, free_port, own_addr
from checks.c22 import Farm

RULE = ('stop: requests at generated stages (half a head, half an upload, waiting for a backend, half a backend answer, half a file, idle keep-alive, connected only) over 1..3 workers, SIGTERM/SIGINT, then the rest of every request in a generated order; '
        'reload: histories of configuration edits (good / broken), SIGHUP to the angel, worker crashes, requests held across the replacement, a thread doing requests all the time; '
        'non-trivial: at least 2 unfinished requests when the signal arrives (stop), a replacement of the worker (reload)')

BIG = bytes((i * 7 + (i >> 8)) & 0xff for i in range(3000000))


class Base(Sub):
    RECYCLE = 10 ** 9

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)
        d = os.path.join(self.scratch, 'www')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'big'), 'wb') as f:
            f.write(BIG)

    def teardown(self):
        pass


KINDS = ['head', 'upload', 'wait', 'stream', 'big', 'idle', 'new', 'pipelined', 'stall']
OPEN = ('head', 'upload', 'wait', 'stream', 'big', 'pipelined')


class Part:
    """a request done in two halves: before() up to its stage, after() the rest and the verdict"""

    def __init__(self, sub, addr, kind, k, farm, cut):
        self.sub, self.kind, self.k, self.farm, self.cut = sub, kind, k, farm, cut
        self.addr = addr
        self.c = Conn(timeout=10, **addr)
        self.id = 'r%d' % k
        self.done = False

    def before(self):
        c, kind = self.c, self.kind
        if kind == 'head':
            self.raw = req('GET', '/v/%d' % self.k, '1.1', [('X-A', 'b' * 40)])
            n = 1 + self.cut * (len(self.raw) - 2) // 100
            c.send(self.raw[:n])
            self.rest = self.raw[n:]
            self.taken()
        elif kind == 'pipelined':
            self.raw = req('GET', '/v/%d' % self.k, '1.1') * 2
            n = 1 + self.cut * (len(self.raw) // 2 - 2) // 100
            c.send(self.raw[:len(self.raw) // 2 + n])
            self.rest = self.raw[len(self.raw) // 2 + n:]
            r = c.response('GET')
            self.check(r, b'/v/%d' % self.k)
            self.taken()
        elif kind == 'upload':
            body = b'u' * (200 + self.cut * 700)
            self.raw = req('POST', '/p/' + self.id, '1.1', [('Content-Length', str(len(body)))], body)
            n = len(self.raw) - 1 - self.cut
            c.send(self.raw[:n])
            self.rest = self.raw[n:]
            self.taken()
        elif kind in ('wait', 'stream'):
            c.send(req('GET', '/p/' + self.id, '1.1'))
            if not self.farm.pump(10, lambda: self.id in self.farm.arrived):
                raise Violation('a request does not reach its backend', timing=True)
            if kind == 'stream':
                self.bc = [s for s, e in self.farm.conns.items() if e[2] == self.id][0]
                self.bc.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 2000\r\n\r\n' + b's' * (1 + self.cut * 15))
                time.sleep(0.01)
        elif kind == 'big':
            c.send(req('GET', '/big', '1.1'))
            want = 1000 + self.cut * 2000
            got = b''
            while len(got) < want:
                d = c.s.recv(min(65536, want - len(got)))
                if not d:
                    raise Violation('a file download broke off')
                got += d
            c.buf = got + c.buf
        elif kind in ('idle', 'stall'):
            c.send(req('GET', '/v/%d' % self.k, '1.1'))
            self.check(c.response('GET'), b'/v/%d' % self.k)
            if kind == 'stall':
                c.send(b'GET /v/x HTTP/1.1\r\nHo')
        return self

    def taken(self):
        """until the server has read what was sent"""
        end = time.monotonic() + 10
        while self.c.unix and not self.c.drained(1):
            if time.monotonic() > end:
                raise Violation('the server does not read a request', timing=True)
        time.sleep(0.004)

    def check(self, r, body):
        if r.status != 200 or r.body != body:
            raise Violation('%s request: answer %s instead of 200 %r' % (self.kind, r.brief(), body[:40]))

    def after(self, what):
        """the rest of the request; the answer has to be complete and right"""
        c, kind = self.c, self.kind
        try:
            if kind in ('head', 'pipelined'):
                c.send(self.rest)
                self.check(c.response('GET'), b'/v/%d' % self.k)
            elif kind == 'upload':
                c.send(self.rest)
                if not self.farm.pump(10, lambda: self.id in self.farm.arrived):
                    raise Violation('%s: an upload in progress does not reach its backend' % what, timing=True)
                _, b = self.farm.answer(self.id)
                self.check(c.response('POST'), b)
            elif kind == 'wait':
                self.farm.pump(0)
                _, b = self.farm.answer(self.id)
                if b is None:
                    raise Violation('%s: the backend connection of a request in progress was dropped' % what)
                self.check(c.response('GET'), b)
            elif kind == 'stream':
                try:
                    self.bc.sendall(b's' * (2000 - 1 - self.cut * 15))
                except OSError:
                    raise Violation('%s: the backend connection of a response in progress was dropped' % what)
                self.check(c.response('GET'), b's' * 2000)
                self.farm.conns[self.bc][2] = None
            elif kind == 'big':
                self.check(c.response('GET'), BIG)
        except Closed:
            raise Violation('%s: a request in progress (%s) was cut off' % (what, kind))
        except (BrokenPipeError, ConnectionResetError):
            raise Violation('%s: a request in progress (%s) was cut off' % (what, kind))
        except Timeout:
            raise Violation('%s: no (complete) answer to a request in progress (%s)' % (what, kind), timing=True)
        except Malformed as e:
            raise Violation('%s: malformed answer to a request in progress (%s): %s' % (what, kind, e))
        self.done = True

    def close(self):
        self.c.close()


PART = st.tuples(st.sampled_from(KINDS[:6] + KINDS), st.integers(0, 100)).map(list)


class Stop(Base):
    NAME = 'stop'
    N_QUICK = 90
    N_THOROUGH = 3000
    SECS_QUICK = 30

    def strategy(self):
        return st.fixed_dictionaries({
            'workers': st.integers(1, 3), 'parts': st.lists(PART, min_size=1, max_size=8), 'order': st.integers(0, 10 ** 6), 'gap': st.sampled_from([0, 0, 1, 20, 120]),
            'sig': st.sampled_from(['TERM', 'INT']), 'tcp': st.booleans(), 'keep': st.booleans(), 'backend_tcp': st.booleans(), 'late': st.booleans()})

    def run(self, case, rec):
        farm = Farm(self, 1, case['backend_tcp'], case['keep'])
        log = os.path.join(self.scratch, 'access.log')
        if os.path.exists(log):
            os.unlink(log)
        tcp = (own_addr(), free_port(own_addr()))
        conf = '''setup { module_load [ "mod_proxy", "mod_accesslog" ]; listen "unix:%%SOCK%%"; listen "%s:%d"; workers %d; accesslog.format "%%U|%%s|%%b"; accesslog "%s"; }
if req.path =^ "/v/" { respond 200 => "%%{req.path}"; }
else if req.path =^ "/p/" { proxy "%s"; }
else { docroot "%s"; static; }
''' % (tcp[0], tcp[1], case['workers'], log, farm.name(0), os.path.join(self.scratch, 'www'))
        srv = Server(self.scratch, conf)
        parts = []
        try:
            if not srv.start():
                srv.settle_dead(0.2)
                srv.check_alive()
                raise Violation('configuration refused: %s\n%s' % (srv.log_text()[-400:], conf))
            self.history(case, srv, farm, parts, tcp, log, rec)
        finally:
            for p in parts:
                p.close()
            farm.close()
            srv.kill()

    def history(self, case, srv, farm, parts, tcp, log, rec):
        addr = {'tcp': tcp} if case['tcp'] else {'path': srv.sock}
        what = 'stopping with SIG%s' % case['sig']
        # up and running (a listening socket exists while the server is still loading its configuration)
        c = Conn(path=srv.sock, timeout=10)
        c.send(req('GET', '/v/up', '1.1', [('Connection', 'close')]))
        try:
            c.response('GET')
        except (Closed, Timeout) as e:
            raise Violation('no answer before the signal: %r' % e, timing=True)
        finally:
            c.close()
        t0 = time.monotonic()
        for k, (kind, cut) in enumerate(case['parts']):
            # (whether the server has read a piece is only known on unix sockets)
            p = Part(self, {'path': srv.sock} if kind in ('head', 'pipelined', 'upload') else addr, kind, k, farm, cut)
            parts.append(p)
            p.before()
        srv.settle_dead(0.0)
        srv.check_alive()
        todo = [p for p in parts if p.kind in OPEN]
        rec.nt(len(todo) >= 2)
        for p in parts:
            rec.label(p.kind)
        if time.monotonic() - t0 > 2.0:
            raise Inconclusive('too slow')
        os.kill(srv.proc.pid, signal.SIGTERM if case['sig'] == 'TERM' else signal.SIGINT)
        t1 = time.monotonic()
        order = case['order']
        late = None
        while todo:
            if case['gap']:
                time.sleep(case['gap'] / 1000)
            if case['late'] and late is None:
                # a connection made after the signal: whatever happens, no broken answer
                try:
                    late = Conn(timeout=10, **addr)
                    late.send(req('GET', '/v/late', '1.1', [('Connection', 'close')]))
                except OSError:
                    late = False
            order, i = divmod(order, len(todo))
            try:
                todo.pop(i).after(what)
            except Violation as e:
                # connections are ended after 3 seconds without any I/O
                if time.monotonic() - t1 > 2.0:
                    raise Inconclusive('too slow')
                srv.settle_dead(0.5)
                if srv.proc.poll() not in (None, 0):
                    srv.check_alive()
                raise Violation('%s; server log: %s' % (e, srv.log_text()[-300:]), timing=e.timing)
        for p in parts:
            if p.kind == 'idle':
                try:
                    r = p.c.response('GET', 8)
                    raise Violation('%s: unrequested answer on an idle connection: %s' % (what, r.brief()))
                except (Closed, ConnectionResetError):
                    pass
                except Timeout:
                    raise Violation('%s: an idle keep-alive connection stays open' % what, timing=True)
        if late:
            try:
                r = late.response('GET', 10)
                if r.status != 200 or r.body != b'/v/late':
                    raise Violation('%s: a late request gets %s' % (what, r.brief()))
            except (Closed, ConnectionResetError):
                if late.total:
                    raise Violation('%s: half an answer to a late request' % what)
            except Timeout:
                raise Violation('%s: a late connection is neither served nor closed' % what, timing=True)
            late.close()
        slow = any(p.kind in ('new', 'stall') for p in parts) or late is not None
        try:
            rc = srv.proc.wait(25)
        except Exception:
            raise Violation('%s: the server does not end (%s)' % (what, srv.log_text()[-300:]), timing=True)
        txt = srv.log_text()
        if rc == -signal.SIGKILL:
            raise Inconclusive('killed from outside')
        if rc != 0 or 'AddressSanitizer' in txt:
            raise Violation('%s: exit status %s: %s' % (what, rc, crash_summary(txt)))
        took = time.monotonic() - t1
        if not slow and took > 2.9 + case['gap'] * len(parts) / 1000 + 6:
            raise Violation('%s: the server took %.1f s to end although every request was finished' % (what, took), timing=True)
        lines = []
        if os.path.exists(log):
            with open(log, 'rb') as f:
                lines = f.read().decode('latin-1').splitlines()
        for p in parts:
            if p.kind in ('new',):
                continue
            path = {'big': '/big', 'upload': '/p/' + p.id, 'wait': '/p/' + p.id, 'stream': '/p/' + p.id}.get(p.kind, '/v/%d' % p.k)
            n = sum(1 for q in parts if q.kind == 'big') if p.kind == 'big' else 2 if p.kind == 'pipelined' else 1
            m = sum(1 for ln in lines if ln.startswith(path + '|200|'))
            if m != n:
                raise Violation('%s: %d lines for %s (%s) in the access log instead of %d: %r' % (what, m, path, p.kind, n, lines[:12]))


class Startup(Base):
    """the signal arrives while the server starts"""
    NAME = 'startup'
    N_QUICK = 60
    N_THOROUGH = 2000
    SECS_QUICK = 15
    MODS = ['mod_proxy', 'mod_accesslog', 'mod_lua', 'mod_memcached', 'mod_progress', 'mod_status', 'mod_debug', 'mod_cache_disk_etag', 'mod_balance', 'mod_fastcgi']

    def strategy(self):
        return st.fixed_dictionaries({'workers': st.integers(1, 4), 'mods': st.lists(st.sampled_from(self.MODS), max_size=4, unique=True), 'delay': st.one_of(st.integers(0, 3000), st.integers(0, 20000)),
                                      'after': st.sampled_from(['socket', 'socket', 'spawn']), 'client': st.booleans(), 'sig': st.sampled_from(['TERM', 'INT'])})

    def run(self, case, rec):
        conf = 'setup { %slisten "unix:%%SOCK%%"; workers %d; }\nrespond 200 => "x";\n' % ('module_load [ %s ]; ' % ', '.join('"%s"' % m for m in case['mods']) if case['mods'] else '', case['workers'])
        srv = Server(self.scratch, conf)
        sig = signal.SIGTERM if case['sig'] == 'TERM' else signal.SIGINT
        c = None
        try:
            with open(srv.conf_path, 'w') as f:
                f.write(srv.conf)
            if os.path.exists(srv.sock):
                os.unlink(srv.sock)
            srv.log = open(srv.log_path, 'wb')
            import subprocess
            srv.proc = subprocess.Popen([build.WORKER, '-m', build.MODDIR, '-c', srv.conf_path], stdin=subprocess.DEVNULL, stdout=srv.log, stderr=srv.log, cwd=srv.dir, env=asan_env(), start_new_session=True)
            end = time.monotonic() + 20
            while case['after'] == 'socket' and not os.path.exists(srv.sock):
                if srv.proc.poll() is not None or time.monotonic() > end:
                    srv.check_alive()
                    raise Inconclusive('server did not come up')
            t = time.monotonic() + case['delay'] / 1e6
            if case['client'] and case['after'] == 'socket':
                try:
                    c = Conn(path=srv.sock, timeout=10)
                    c.send(req('GET', '/', '1.1'))
                except OSError:
                    c = None
            while time.monotonic() < t:
                pass
            os.kill(srv.proc.pid, sig)
            rec.nt(case['after'] == 'socket')
            try:
                rc = srv.proc.wait(20)
            except Exception:
                raise Violation('SIG%s %d us after the %s: the server does not end' % (case['sig'], case['delay'], case['after']), timing=True)
            txt = srv.log_text()
            if rc == -signal.SIGKILL:
                raise Inconclusive('killed from outside')
            if rc == -sig and case['after'] == 'spawn':
                return      # before the server could install its handlers
            if rc != 0 or 'AddressSanitizer' in txt:
                raise Violation('SIG%s %d us after the %s: exit status %s: %s' % (case['sig'], case['delay'], case['after'], rc, crash_summary(txt)))
            if c:
                try:
                    r = c.response('GET')
                    if r.status != 200 or r.body != b'x':
                        raise Violation('wrong answer at shutdown: %s' % r.brief())
                    rec.label('served')
                except (Closed, ConnectionResetError):
                    if c.total:
                        raise Violation('half an answer at shutdown')
                    rec.label('not served')
        finally:
            if c:
                c.close()
            srv.kill()


class AngelProc:
    """lighttpd2 (the angel) with its worker processes"""

    def __init__(self, scratch):
        self.dir = scratch
        self.sock = os.path.join(scratch, 'a.sock')
        self.sock2 = os.path.join(scratch, 'b.sock')
        self.conf = os.path.join(scratch, 'w.conf')
        self.aconf = os.path.join(scratch, 'angel.conf')
        self.log_path = os.path.join(scratch, 'angel.log')
        self.proc = None

    def start(self):
        import subprocess
        env = asan_env()
        with open(self.aconf, 'w') as f:
            f.write('binary "%s";\nconfig "%s";\nmodules_path "%s";\nallow_listen "unix:%s/*";\ncopy_env [ %s ];\n' % (build.WORKER, self.conf, build.MODDIR, self.dir, ', '.join('"%s"' % k for k in env)))
        for s in (self.sock, self.sock2):
            if os.path.exists(s):
                os.unlink(s)
        self.log = open(self.log_path, 'wb')
        self.proc = subprocess.Popen([build.ANGEL, '-m', build.MODDIR, '-c', self.aconf], stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, cwd=self.dir, env=env, start_new_session=True)

    def log_text(self):
        with open(self.log_path, 'rb') as f:
            return f.read().decode('utf-8', 'replace')

    def pids(self):
        return [int(x) for x in re.findall(r'instance\[(\d+)\] spawned', self.log_text())]

    def alive_pids(self):
        out = []
        for p in self.pids():
            try:
                with open('/proc/%d/stat' % p) as f:
                    st_ = f.read().rsplit(')', 1)[1].split()
                if st_[0] != 'Z' and int(st_[3]) == self.proc.pid or self._ours(p):
                    out.append(p)
            except OSError:
                pass
        return out

    def _ours(self, p):
        try:
            with open('/proc/%d/cmdline' % p, 'rb') as f:
                return self.conf.encode() in f.read()
        except OSError:
            return False

    def count(self, what):
        return self.log_text().count(what)

    def kill(self):
        if self.proc is None:
            return
        pids = [p for p in self.pids() if self._ours(p)]
        if self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        for p in pids + [p for p in self.pids() if self._ours(p)]:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        self.log.close()


class Hammer(threading.Thread):
    """requests on fresh connections, all the time"""

    def __init__(self, sock):
        super().__init__(daemon=True)
        self.sock = sock
        self.stop = False
        self.lossy = 0
        self.busy = threading.Lock()
        self.bad = None
        self.n = 0
        self.seen = set()

    def run(self):
        while not self.stop:
            with self.busy:
                e = self.once()
                if e and not self.lossy:
                    self.bad = e
                    return
            time.sleep(0.001)

    def once(self):
        try:
            c = Conn(path=self.sock, timeout=10)
        except OSError as e:
            return 'connection refused: %r' % e
        try:
            c.send(req('GET', '/ver', '1.1', [('Connection', 'close')]))
            r = c.response('GET')
            if r.status != 200 or not re.match(rb'^v\d+$', r.body):
                return 'wrong answer: ' + r.brief()
            self.seen.add(int(r.body[1:]))
            self.n += 1
        except Timeout:
            return 'no answer in 10 s'
        except (Closed, Malformed, OSError) as e:
            return 'request lost: %r' % e
        finally:
            c.close()
        return None


class Reload(Base):
    NAME = 'reload'
    N_QUICK = 100
    N_THOROUGH = 3000
    SECS_QUICK = 35

    def strategy(self):
        e = st.sampled_from(['good', 'good', 'good', 'good2', 'good2', 'syntax', 'option', 'module', 'empty', 'missing'])
        op = st.one_of(st.tuples(st.just('edit'), e), st.tuples(st.just('reload'), e), st.tuples(st.just('reload'), e), st.tuples(st.just('reload'), e), st.just(('hup',)), st.just(('kill',)), st.just(('killold',)), st.tuples(st.just('killnew'), st.integers(0, 30000)),
                       st.tuples(st.just('start'), st.sampled_from(list(OPEN) + ['idle']), st.integers(0, 100)), st.tuples(st.just('start'), st.sampled_from(list(OPEN)), st.integers(0, 100)), st.tuples(st.just('finish'), st.integers(0, 5)), st.tuples(st.just('wait'), st.sampled_from([1, 20, 150])))
        return st.fixed_dictionaries({'workers': st.integers(1, 3), 'ops': st.lists(op.map(list), min_size=2, max_size=10), 'sig': st.sampled_from(['TERM', 'INT']), 'first2': st.booleans(), 'gap': st.integers(0, 30), 'end': st.sampled_from(['settled', 'settled', 'early', 'hup', 'hup2'])})

    def write(self, kind):
        a = self.a
        if kind == 'missing':
            if os.path.exists(a.conf):
                os.unlink(a.conf)
            self.file = (None, kind)
            return
        self.nver += 1
        extra = {'syntax': '\nif {{{ ', 'option': '\nno.such.option 5;\n', 'empty': ''}.get(kind, '')
        conf = """setup { module_load [ "mod_proxy"%s ]; listen "unix:%s"; %sworkers %d; }
if req.path == "/ver" { respond 200 => "v%d"; }
else if req.path =^ "/v/" { respond 200 => "%%{req.path}"; }
else if req.path =^ "/p/" { proxy "%s"; }
else { docroot "%s"; static; }
%s""" % (', "mod_no_such"' if kind == 'module' else '', a.sock, 'listen "unix:%s"; ' % a.sock2 if kind == 'good2' else '', self.workers, self.nver, self.farm.name(0), os.path.join(self.scratch, 'www'), extra)
        if kind == 'empty':
            conf = 'setup { frobnicate 1; }\n'
        with open(a.conf + '.new', 'w') as f:
            f.write(conf)
        os.rename(a.conf + '.new', a.conf)
        self.file = (self.nver, kind)

    def next_id(self):
        self.ids += 1
        return self.ids

    def good(self):
        return self.file[1] in ('good', 'good2')

    def until(self, f, what, wait=15):
        end = time.monotonic() + wait
        while not f():
            if self.a.proc.poll() is not None:
                raise Violation('the angel ended (%s) while %s: %s' % (self.a.proc.poll(), what, crash_summary(self.a.log_text())))
            if time.monotonic() > end:
                raise Violation('%s: not in %d s; log: %s' % (what, wait, self.a.log_text()[-500:]), timing=True)
            time.sleep(0.003)

    def ver(self):
        e = self.h2.once()
        if e and not self.hammer.lossy:
            raise Violation('a request was lost: %s; log: %s' % (e, self.a.log_text()[-400:]))
        return max(self.h2.seen) if not e and self.h2.seen else None

    def get_ver(self):
        self.h2.seen = set()
        return self.ver()

    def run(self, case, rec):
        self.farm = Farm(self, 1, False, True)
        self.a = a = AngelProc(self.scratch)
        self.workers = case['workers']
        self.nver = self.ids = 0
        self.parts = []
        self.old = []           # unfinished requests of a worker that is being replaced
        self.deadline = None
        self.replacing = False
        self.replaced = 0
        self.hammer = None
        try:
            self.write('good2' if case['first2'] else 'good')
            a.start()
            self.until(lambda: os.path.exists(a.sock), 'starting')
            self.hammer, self.h2 = Hammer(a.sock), Hammer(a.sock)
            self.hammer.lossy = 1
            self.until(lambda: self.get_ver() == self.nver, 'starting')
            self.cur = self.file
            self.hammer.lossy = 0
            self.hammer.start()
            for op in case['ops']:
                self.op(op, rec)
                self.verdict()
            if case['end'] == 'settled':
                self.finish_all()
                self.settle()
            self.stop(case, rec)
        except Violation as e:
            txt = a.log_text()
            if 'AddressSanitizer' in txt:
                raise Violation('%s | %s' % (crash_summary(txt), str(e)[:300]))
            raise
        finally:
            if self.hammer:
                self.hammer.stop = True
            for p in self.parts:
                p.close()
            a.kill()
            self.farm.close()
            if self.hammer and self.hammer.is_alive():
                self.hammer.join(15)

    def verdict(self):
        if self.hammer.bad:
            raise Violation('a request was lost during the history: %s; log: %s' % (self.hammer.bad, self.a.log_text()[-400:]))
        if self.a.proc.poll() is not None:
            raise Violation('the angel ended by itself (%s): %s' % (self.a.proc.poll(), crash_summary(self.a.log_text())))
        if 'AddressSanitizer' in self.a.log_text():
            raise Violation('crash: %s' % crash_summary(self.a.log_text()))

    def finish(self, p):
        late = self.deadline is not None and time.monotonic() > self.deadline
        try:
            p.after('reload' if p in self.old else 'no reload')
        except Violation:
            if late or (self.deadline is not None and time.monotonic() > self.deadline + 0.5):
                return      # more than 2 seconds without I/O on a worker that is stopping
            raise
        finally:
            if p in self.old:
                self.old.remove(p)
            self.parts.remove(p)
            p.close()

    def finish_all(self):
        for p in list(self.parts):
            if p.kind in OPEN:
                self.finish(p)

    def settle(self):
        """wait for the end of a replacement whose old worker has nothing left to do"""
        if not self.replacing:
            return
        for p in list(self.old):
            if p.kind in OPEN:
                self.finish(p)
        self.until(lambda: self.a.count(' replaced by ') >= self.replaced, 'waiting for the old worker to be replaced')
        self.replacing = False
        self.deadline = None
        self.old = []
        self.until(lambda: len(self.a.alive_pids()) == 1, 'waiting for the old worker to end')
        v = self.get_ver()
        if v is not None and v != self.cur[0]:
            raise Violation('after the replacement requests are answered by version %s, not %s' % (v, self.cur[0]))
        self.second()

    def second(self):
        want = self.cur[1] == 'good2'

        def reach():
            e = Hammer(self.a.sock2).once()
            return (e is None) == want
        self.until(reach, 'the second socket being %s' % ('served' if want else 'closed'), 8)

    def op(self, op, rec):
        a = self.a
        if self.deadline is not None and time.monotonic() > self.deadline - 0.7:
            self.settle()
        if op[0] == 'edit':
            self.write(op[1])
        elif op[0] == 'start':
            p = Part(self, {'path': a.sock}, op[1], self.next_id(), self.farm, op[2])
            self.parts.append(p)
            try:
                p.before()
            except (Closed, OSError):
                raise Violation('a request was lost: %s' % op[1])
            except Timeout:
                raise Violation('no answer to a request: %s' % op[1], timing=True)
            rec.label(op[1])
        elif op[0] == 'finish':
            l = [p for p in self.parts if p.kind in OPEN]
            if l:
                self.finish(l[op[1] % len(l)])
        elif op[0] == 'wait':
            time.sleep(op[1] / 1000)
        elif op[0] in ('hup', 'reload', 'killnew'):
            self.settle()
            if op[0] == 'reload':
                self.write(op[1])
            for p in list(self.parts):
                if p.kind == 'idle':
                    self.parts.remove(p)
                    p.close()
            if op[0] == 'killnew':
                if not self.good():
                    return
                return self.killnew(op, rec)
            if self.good():
                if self.file[0] == self.cur[0]:
                    self.write(self.file[1])        # (so that one can see who answers)
                v = self.file[0]
                self.deadline = time.monotonic() + 2
                self.replacing = True
                self.replaced += 1
                self.old = list(self.parts)
                rec.nt(True)
                rec.label('reload')
                os.kill(a.proc.pid, signal.SIGHUP)
                self.until(lambda: self.get_ver() == v, 'the new configuration taking over')
                self.cur = self.file
            else:
                n = a.count('continue old instance')
                os.kill(a.proc.pid, signal.SIGHUP)
                self.until(lambda: a.count('continue old instance') > n, 'the angel giving up on a broken configuration')
                rec.label('broken reload')
                if self.get_ver() != self.cur[0]:
                    raise Violation('a broken configuration replaced the running one')
                self.second()
        elif op[0] == 'kill':
            self.settle()
            if not self.good():
                return
            rec.label('crash')
            with self.hammer.busy:
                self.hammer.lossy = 1
            pid = a.alive_pids()
            if len(pid) != 1:
                raise Violation('%d workers instead of one' % len(pid))
            n = len(a.pids())
            try:
                os.kill(pid[0], signal.SIGKILL)
            except OSError:
                raise Violation('the worker is gone')
            self.lose(list(self.parts))
            self.until(lambda: len(a.pids()) > n, 'restarting a crashed worker')
            self.cur = self.file
            self.until(lambda: self.get_ver() == self.cur[0], 'a restarted worker serving requests')
            with self.hammer.busy:
                self.hammer.lossy = 0
            self.second()
        elif op[0] == 'killold':
            if not self.replacing:
                return
            pids = a.alive_pids()
            if len(pids) == 2 and a.count(' replaced by ') < self.replaced:
                rec.label('old worker crashed')
                with self.hammer.busy:
                    self.hammer.lossy = 1
                    try:
                        os.kill(pids[0], signal.SIGKILL)
                    except OSError:
                        pass
                self.lose(list(self.old))
                self.until(lambda: a.count(' replaced by ') >= self.replaced, 'a crashed old worker being replaced')
                with self.hammer.busy:
                    self.hammer.lossy = 0
            self.settle()

    def lose(self, parts):
        for p in parts:
            if p in self.parts:
                self.parts.remove(p)
            if p in self.old:
                self.old.remove(p)
            p.close()

    def killnew(self, op, rec):
        """the new worker crashes while it takes over"""
        a = self.a
        n = len(a.pids())
        r, f = a.count(' replaced by '), a.count('continue old instance')
        self.finish_all()
        self.hammer.busy.acquire()
        self.hammer.lossy = 1
        self.hammer.busy.release()
        os.kill(a.proc.pid, signal.SIGHUP)
        self.until(lambda: len(a.pids()) > n, 'spawning a worker')
        time.sleep(op[1] / 1e6)
        rec.label('new worker crashed')
        try:
            os.kill(a.pids()[n], signal.SIGKILL)
        except OSError:
            pass
        self.until(lambda: a.count(' replaced by ') > r or a.count('continue old instance') > f, 'a replacement ending although the new worker crashed')
        self.until(lambda: len(a.alive_pids()) == 1, 'one worker remaining')
        self.replaced = a.count(' replaced by ')
        if a.count(' replaced by ') > r:
            self.cur = self.file
        self.until(lambda: self.get_ver() == self.cur[0], 'a worker serving requests')
        self.hammer.busy.acquire()
        self.hammer.lossy = 0
        self.hammer.busy.release()
        self.second()

    def stop(self, case, rec):
        a = self.a
        self.hammer.stop = True
        self.hammer.join(15)
        self.verdict()
        for k, kind in enumerate(('wait', 'stream')):
            p = Part(self, {'path': a.sock}, kind, 7000 + k, self.farm, 30)
            self.parts.append(p)
            p.before()
        if case['end'].startswith('hup'):
            # the end comes right after (another) reload was asked for
            for _ in case['end'][2:]:
                os.kill(a.proc.pid, signal.SIGHUP)
            time.sleep(case['gap'] / 1000)
        rec.label('end ' + case['end'])
        os.kill(a.proc.pid, signal.SIGTERM if case['sig'] == 'TERM' else signal.SIGINT)
        t = time.monotonic()
        for p in [p for p in self.parts if p.kind in OPEN]:
            try:
                p.after('stopping the angel')
            except Violation:
                if time.monotonic() - t > 2:
                    break
                if p in self.old and self.deadline is not None and time.monotonic() > self.deadline:
                    continue
                raise
        try:
            rc = a.proc.wait(20)
        except Exception:
            raise Violation('the angel does not end; log: %s' % a.log_text()[-500:], timing=True)
        txt = a.log_text()
        if rc != 0 or 'AddressSanitizer' in txt:
            raise Violation('exit status of the angel: %s: %s' % (rc, crash_summary(txt)))
        end = time.monotonic() + 5
        while a.alive_pids():
            if time.monotonic() > end:
                raise Violation('worker processes %r are left after the angel ended' % a.alive_pids(), timing=True)
            time.sleep(0.01)


SUBS = [Stop, Startup, Reload]

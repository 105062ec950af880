"""helpers for the demonstration: run the server that was built in /repo/_build in a scratch directory"""
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import time

B = '/repo/_build/src'


class Srv:
    def __init__(self, conf, prepare=None, args=()):
        self.d = tempfile.mkdtemp(prefix='demo')
        self.sock = self.d + '/s'
        os.chmod(self.d, 0o755)
        if prepare:
            prepare(self.d)
        conf = conf.replace('%SOCK%', self.sock).replace('%DIR%', self.d)
        open(self.d + '/c.conf', 'w').write(conf)
        self.log = open(self.d + '/log', 'wb')
        self.p = subprocess.Popen([B + '/main/lighttpd2-worker', '-c', self.d + '/c.conf', '-m', B + '/modules'] + list(args), stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL)
        for i in range(500):
            if os.path.exists(self.sock) or self.p.poll() is not None:
                break
            time.sleep(0.01)
        time.sleep(0.05)

    def alive(self):
        return self.p.poll() is None

    def conn(self, timeout=10):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        for i in range(100):
            try:
                s.connect(self.sock)
                return s
            except (BlockingIOError, ConnectionRefusedError, FileNotFoundError):
                time.sleep(0.02)
        s.connect(self.sock)
        return s

    def raw(self, data, wait=2.0, pieces=None, gap=0.05):
        """send data (str/bytes or list of pieces), return everything received until close or `wait` seconds of silence"""
        s = self.conn(wait)
        out = b''
        try:
            for i, x in enumerate(data if isinstance(data, (list, tuple)) else [data]):
                if i:
                    time.sleep(gap)
                s.sendall(x.encode('latin-1') if isinstance(x, str) else x)
            while True:
                d = s.recv(65536)
                if not d:
                    break
                out += d
        except (socket.timeout, OSError):
            pass
        s.close()
        return out

    def get(self, path, headers='', method='GET', host='h'):
        r = self.raw('%s %s HTTP/1.1\r\nHost: %s\r\n%sConnection: close\r\n\r\n' % (method, path, host, headers))
        head, _, body = r.partition(b'\r\n\r\n')
        st = int(head.split(b' ')[1]) if head.startswith(b'HTTP/1.') else 0
        return st, head.decode('latin-1'), body

    def stop(self):
        if self.p.poll() is None:
            self.p.terminate()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        self.log.close()
        self.logtext = open(self.d + '/log', errors='replace').read()
        shutil.rmtree(self.d, ignore_errors=True)


def serve(path, handler):
    """a backend on a unix socket: handler(conn) in a thread for each connection"""
    import threading
    l = socket.socket(socket.AF_UNIX)
    l.bind(path)
    os.chmod(path, 0o777)
    l.listen(50)

    def one(c):
        try:
            handler(c)
        except OSError:
            pass
        c.close()

    def loop():
        while True:
            c, _ = l.accept()
            threading.Thread(target=one, args=(c,), daemon=True).start()
    threading.Thread(target=loop, daemon=True).start()


def read_head(c):
    d = b''
    while b'\r\n\r\n' not in d:
        x = c.recv(65536)
        if not x:
            break
        d += x
    return d


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def run(main, conf, prepare=None, args=()):
    """main(srv) returns None when the behaviour is right, else a message"""
    s = Srv(conf, prepare, args)
    try:
        if not s.alive():
            print('server did not start')
            sys.exit(3)
        m = main(s)
        if not m and not s.alive():
            m = 'server died'
    finally:
        s.stop()
        sys.stdout.flush()
    if m:
        print('WRONG:', m)
        sys.exit(1)
    print('ok')
    sys.exit(0)

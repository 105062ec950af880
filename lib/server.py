"""Launch lighttpd2-worker (ASAN build) on a generated configuration."""
import os
import re
import signal
import socket
import subprocess
import time

from lib import build


class Violation(Exception):
    """The property does not hold on this case.  timing=True: the observation is a missing
    reaction (a hang), which is only believed when every replay shows it again."""

    def __init__(self, msg, timing=False):
        super().__init__(msg)
        self.timing = timing


class Inconclusive(Exception):
    """The environment got in the way (killed by OOM, out of ports...): says nothing."""


def asan_env(extra=None):
    env = {
        'PATH': '/usr/sbin:/usr/bin:/sbin:/bin', 'LANG': 'C', 'TZ': 'UTC', 'HOME': '/tmp',
        'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                        'symbolize=1:handle_abort=1:detect_stack_use_after_return=0',
        'ASAN_SYMBOLIZER_PATH': '/usr/bin/llvm-symbolizer-18',
        'G_SLICE': 'always-malloc',
        'LD_LIBRARY_PATH': os.path.join(build.OBJ, 'src/main') + ':' + os.path.join(build.OBJ, 'src/common'),
    }
    if extra:
        env.update(extra)
    return env


def crash_summary(log):
    m = re.search(r'(ERROR: AddressSanitizer:.*)', log)
    out = []
    if m:
        out.append(m.group(1)[:200])
    out += re.findall(r'^\s+#\d+ .* in (\S+ \S+)', log, re.M)[:6]
    m = re.search(r'.*(Assertion|assertion|failed:).*', log)
    if m:
        out.append(m.group(0)[:200])
    return ' | '.join(out) if out else log[-600:]


class Server:
    """One lighttpd2-worker process.  `conf` is the complete config text; %SOCK% is replaced by
    the unix socket path, %DIR% by the scratch directory."""

    def __init__(self, scratch, conf, name='s', tcp=None, lua=False, files=None, wait_sock=True, env=None,
                 preexec=None):
        self.dir = scratch
        self.name = name
        self.sock = os.path.join(scratch, name + '.sock')
        self.conf = conf.replace('%SOCK%', self.sock).replace('%DIR%', scratch)
        self.conf_path = os.path.join(scratch, name + ('.lua' if lua else '.conf'))
        self.log_path = os.path.join(scratch, name + '.log')
        self.lua = lua
        self.tcp = tcp
        self.proc = None
        self.wait_sock = wait_sock
        self.env = env
        self.preexec = preexec

    def start(self, timeout=20.0):
        with open(self.conf_path, 'w', encoding='latin-1', newline='') as f:
            f.write(self.conf)
        try:
            os.unlink(self.sock)
        except FileNotFoundError:
            pass
        self.log = open(self.log_path, 'wb')
        cmd = [build.WORKER, '-m', build.MODDIR, '-c', self.conf_path]
        if self.lua:
            cmd.insert(1, '-l')
        if os.environ.get('VERIF_STRACE'):
            cmd = ['strace', '-f', '-tt', '-s', '120', '-o', os.environ['VERIF_STRACE']] + cmd
        self.proc = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                     cwd=self.dir, env=asan_env(self.env), preexec_fn=self.preexec,
                                     start_new_session=True)
        end = time.monotonic() + timeout
        while True:
            if self.proc.poll() is not None:
                return False
            try:
                if self.tcp:
                    s = socket.create_connection(self.tcp, timeout=2)
                else:
                    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                    s.connect(self.sock)
                s.close()
                if self.tcp:
                    time.sleep(0.002)
                return self.proc.poll() is None
            except OSError:
                pass
            if time.monotonic() > end:
                self.kill()
                raise Inconclusive('server did not come up in %ss: %s' % (timeout, self.log_text()[-500:]))
            time.sleep(0.004)

    def log_text(self):
        try:
            with open(self.log_path, 'rb') as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 200000))
                return f.read().decode('utf-8', 'replace')
        except OSError:
            return ''

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def check_alive(self):
        """Violation when the server process ended by itself."""
        if self.proc is None:
            raise Inconclusive('server not started')
        rc = self.proc.poll()
        if rc is None:
            return
        if rc == -signal.SIGKILL:
            raise Inconclusive('server was killed from outside')
        raise Violation('server process ended (rc=%s): %s' % (rc, crash_summary(self.log_text())))

    def settle_dead(self, wait=1.0):
        """After a connection broke unexpectedly: give a crashing server time to end."""
        end = time.monotonic() + wait
        while time.monotonic() < end:
            if self.proc.poll() is not None:
                return True
            if b'AddressSanitizer' in self._tail():
                try:
                    self.proc.wait(20)
                except subprocess.TimeoutExpired:
                    pass
                return True
            time.sleep(0.01)
        return False

    def _tail(self):
        try:
            with open(self.log_path, 'rb') as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 20000))
                return f.read()
        except OSError:
            return b''

    def stop(self, grace=5.0):
        """Clean shutdown (SIGINT); returns exit code or None when it had to be killed."""
        if self.proc is None or self.proc.poll() is not None:
            return self.proc.returncode if self.proc else None
        self.proc.send_signal(signal.SIGINT)
        try:
            rc = self.proc.wait(grace)
        except subprocess.TimeoutExpired:
            self.kill()
            rc = None
        self.log.close()
        return rc

    def kill(self):
        if self.proc is not None and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                self.proc.kill()
            self.proc.wait()
        try:
            self.log.close()
        except Exception:
            pass


def test_config(scratch, conf_bytes, lua=False, timeout=30, name='t', angel=False, preexec=None):
    """lighttpd2-worker -t: returns (rc, output)"""
    path = os.path.join(scratch, name + ('.lua' if lua else '.conf'))
    with open(path, 'wb') as f:
        f.write(conf_bytes)
    cmd = [build.WORKER, '-t', '-m', build.MODDIR, '-c', path]
    if lua:
        cmd.insert(1, '-l')
    if angel:
        cmd = [build.ANGEL, '-o', '-m', build.MODDIR, '-c', path]
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=scratch, env=asan_env(), start_new_session=True, preexec_fn=preexec)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out.decode('utf-8', 'replace')
    return p.returncode, out.decode('utf-8', 'replace')


def own_addr():
    """a loopback address no other process of the check uses"""
    p = os.getpid()
    return '127.%d.%d.%d' % (64 + (p >> 16 & 63), p >> 8 & 255, p & 255)


def free_port(addr='127.0.0.1'):
    """a port outside the ephemeral range, different for concurrent processes"""
    fam = socket.AF_INET6 if ':' in addr else socket.AF_INET
    while True:
        p = 5000 + int.from_bytes(os.urandom(4), 'big') % 27000
        s = socket.socket(fam)
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((addr, p))
            return p
        except OSError:
            pass
        finally:
            s.close()

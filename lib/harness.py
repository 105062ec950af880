"""Client for the in-process harness (length-prefixed fields over pipes)."""
import os
import select
import signal
import struct
import subprocess
import time

from lib import build
from lib.server import Violation, Inconclusive, asan_env, crash_summary


class Harness:
    def __init__(self, scratch):
        self.scratch = scratch
        self.log_path = os.path.join(scratch, 'harness.log')
        self.p = None

    def start(self):
        self.log = open(self.log_path, 'wb')
        self.p = subprocess.Popen([build.HARNESS], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
                                  env=asan_env(), cwd=self.scratch, bufsize=0, start_new_session=True)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.log):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def _dead(self):
        try:
            rc = self.p.wait(30)
        except subprocess.TimeoutExpired:
            rc = None
        if rc == -signal.SIGKILL:
            raise Inconclusive('harness killed')
        if rc == 42:
            raise RuntimeError('harness protocol error: ' + open(self.log_path).read()[-500:])
        log = open(self.log_path, 'rb').read().decode('utf-8', 'replace')
        raise Violation('library code crashed (rc=%s): %s' % (rc, crash_summary(log)))

    def _read(self, n, deadline):
        out = b''
        fd = self.p.stdout.fileno()
        while len(out) < n:
            left = deadline - time.monotonic()
            r, _, _ = select.select([fd], [], [], max(0, left))
            if not r:
                raise Violation('library call did not return within the time limit', timing=True)
            d = os.read(fd, n - len(out))
            if not d:
                self._dead()
            out += d
        return out

    def call(self, *fields, timeout=20):
        enc = []
        for f in fields:
            if isinstance(f, bytes):
                b = f
            elif isinstance(f, str):
                b = f.encode('latin-1')
            else:
                b = str(int(f)).encode()
            enc.append(struct.pack('<I', len(b)) + b)
        msg = struct.pack('<I', len(enc)) + b''.join(enc)
        try:
            self.p.stdin.write(struct.pack('<I', len(msg)) + msg)
        except BrokenPipeError:
            self._dead()
        deadline = time.monotonic() + timeout
        n = struct.unpack('<I', self._read(4, deadline))[0]
        data = self._read(n, deadline)
        cnt = struct.unpack('<I', data[:4])[0]
        out = []
        pos = 4
        for _ in range(cnt):
            l = struct.unpack('<I', data[pos:pos + 4])[0]
            out.append(data[pos + 4:pos + 4 + l])
            pos += 4 + l
        return out


def split32(b):
    out = []
    pos = 0
    while pos < len(b):
        l = struct.unpack('<I', b[pos:pos + 4])[0]
        out.append(b[pos + 4:pos + 4 + l])
        pos += 4 + l
    return out


def headers_dump(b):
    """[(key, value)] from the harness dump; also checks the stored 'key: value' layout"""
    out = []
    pos = 0
    while pos < len(b):
        kl, dl = struct.unpack('<II', b[pos:pos + 8])
        d = b[pos + 8:pos + 8 + dl]
        if d[kl:kl + 2] != b': ':
            raise Violation('header entry is not stored as "key: value": %r' % d)
        out.append((d[:kl], d[kl + 2:]))
        pos += 8 + dl
    return out

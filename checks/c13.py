"""C13: byte queues (chunkqueues) behave like plain byte strings."""
import os
import random

from hypothesis import strategies as st

from lib.harness import Harness
from lib.runner import Sub
from lib.server import Violation

RULE = ('random operation histories over 4 queues and up to 3 shared memory limits: appends of every chunk kind '
        '(memory, string, byte array, buffer, buffer slice, grow-last-buffer, file, file descriptor, shared file, '
        'temporary file), moves (exact length / everything / first chunk), skips, resets, reads via read() and mmap, '
        'extraction, limit changes; the reference model is one Python bytes object per queue; non-trivial: at least '
        'one move, skip or read touches a queue holding two or more pieces')

NQ = 4
FILESIZE = 9000
BIG = 5 * 1024 * 1024 + 321

queue = st.sampled_from([0, 0, 0, 1, 1, 2, 3])
small = st.integers(0, 60)
length = st.one_of(st.integers(0, 40), st.integers(0, 9000), st.just(10 ** 9))
payload = st.one_of(st.integers(0, 40), st.integers(0, 3000))


def op():
    seed = st.integers(0, 255)
    return st.one_of(
        st.tuples(st.sampled_from(['mem', 'str', 'barr']), queue, payload, seed),
        st.tuples(st.just('buf'), queue, payload, seed, st.integers(0, 200)),
        st.tuples(st.just('buf2'), queue, payload, seed, st.integers(0, 50), st.integers(0, 3000)),
        st.tuples(st.just('lastbuf'), queue, st.integers(1, 100), seed),
        st.tuples(st.sampled_from(['file', 'filefd', 'cfile', 'temp', 'tempfd']), queue,
                  st.integers(0, FILESIZE), st.one_of(st.integers(0, 50), st.integers(0, FILESIZE))),
        st.tuples(st.just('steal_len'), queue, queue, length),
        st.tuples(st.just('steal_len'), queue, queue, length),
        st.tuples(st.sampled_from(['steal_all', 'steal_chunk']), queue, queue),
        st.tuples(st.sampled_from(['steal_all', 'steal_chunk']), queue, queue),
        st.tuples(st.just('skip'), queue, length),
        st.tuples(st.sampled_from(['skip_all', 'reset']), queue),
        st.tuples(st.just('ext'), queue, length, st.integers(0, 2)),
        st.tuples(st.just('read'), queue, st.integers(0, 4), st.integers(0, 3000), st.integers(1, 9000), st.integers(0, 1)),
        st.tuples(st.just('read'), st.just(0), st.integers(0, 2), st.integers(0, 30), st.integers(1, 90), st.integers(0, 1)),
        st.tuples(st.just('read'), st.just(0), st.just(0), st.integers(0, 30), st.integers(1, 90), st.integers(0, 1)),
        st.tuples(st.just('limit'), queue, st.one_of(st.integers(-1, 200), st.integers(0, 20000))),
        st.tuples(st.just('share'), queue, queue),
        st.tuples(st.just('nolimit'), queue),
        st.tuples(st.just('drain'), queue, st.one_of(st.integers(1, 100), st.integers(100, 20000)), st.integers(0, 1)),
    )


def data(n, seed):
    return random.Random(seed * 100003 + n).randbytes(n)


class Model:
    def __init__(self):
        self.q = [b''] * NQ
        self.bin = [0] * NQ
        self.bout = [0] * NQ
        self.limits = []          # limit objects: [limit value]
        self.lim = [None] * NQ


class Queues(Sub):
    NAME = 'history'
    N_QUICK = 2500
    N_THOROUGH = 20000
    SECS_QUICK = 40
    RECYCLE = 5000
    FILE = FILESIZE
    HARNESS = True

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()
        self.path = os.path.join(self.scratch, 'blob')
        self.blob = data(self.FILE, 7)
        with open(self.path, 'wb') as f:
            f.write(self.blob)
        self.ntemp = 0

    def teardown(self):
        self.h.stop()

    def strategy(self):
        return st.one_of(st.lists(op(), min_size=1, max_size=8), st.lists(op(), min_size=8, max_size=40))

    def run(self, case, rec):
        m = Model()
        req = ['cq']
        want = []       # list of (description, checker) in answer order
        temps = []
        pieces = [0] * NQ

        def expect(desc, val):
            want.append((desc, val))

        def push(k, d):
            if d:
                m.q[k] += d
                m.bin[k] += len(d)
                pieces[k] += 1

        for i, o in enumerate(case):
            name = o[0]
            where = 'op %d %r' % (i, o)
            if name in ('mem', 'str', 'barr'):
                d = data(o[2], o[3])
                req += [name, o[1], d]
                push(o[1], d)
            elif name == 'buf':
                d = data(o[2], o[3])
                req += ['buf', o[1], len(d) + o[4], d]
                push(o[1], d)
            elif name == 'buf2':
                d = data(o[2], o[3])
                off = min(o[4], len(d))
                ln = min(o[5], len(d) - off)
                req += ['buf2', o[1], d, off, ln]
                push(o[1], d[off:off + ln])
            elif name == 'lastbuf':
                # may or may not be possible; the answer decides, so model applies it lazily
                # (run alone: ask the queue and let the reply drive the model)
                d = data(o[2], o[3])
                req += ['lastbuf', o[1], d]
                want.append((where, ('lastbuf', o[1], d)))
                # we cannot know yet -> flush
                self.flush(req, want, m, temps, final=False)
                return_val = self.last
                if return_val == 1:
                    push(o[1], d)
                req_prefix = self.sent
                req = list(req_prefix)
                want = list(self.want_sent)
                want[-1] = (where, return_val)
            elif name in ('file', 'filefd', 'cfile', 'temp', 'tempfd'):
                start = min(o[2], self.FILE)
                ln = min(o[3], self.FILE - start)
                p = self.path
                if name in ('temp', 'tempfd'):
                    self.ntemp += 1
                    p = os.path.join(self.scratch, 't%d' % self.ntemp)
                    if ln == 0 and name == 'temp':
                        continue
                    temps.append((p, len(req)))
                if name == 'cfile':
                    req += ['cfile', o[1], o[1], p, start, ln]
                else:
                    req += [name, o[1], p, start, ln]
                push(o[1], self.blob[start:start + ln])
            elif name in ('steal_len', 'steal_all', 'steal_chunk'):
                dst, src = o[1], o[2]
                if dst == src:
                    continue
                rec.nt(pieces[src] >= 2)
                if name == 'steal_len':
                    n = min(o[3], len(m.q[src]))
                    req += [name, dst, src, o[3]]
                elif name == 'steal_all':
                    n = len(m.q[src])
                    req += [name, dst, src]
                else:
                    req += ['lens', src, name, dst, src]
                    want.append((where, ('lens', src, len(m.q[src]))))
                    self.flush(req, want, m, temps, final=False, peek=True)
                    lens = self.lens
                    if sum(lens) != len(m.q[src]):
                        raise Violation('%s: chunk lengths %r do not add up to the queue length %d' % (where, lens, len(m.q[src])))
                    want[-1] = (where, ('any',))
                    n = lens[0] if lens else 0
                expect(where, n)
                m.q[dst] += m.q[src][:n]
                m.q[src] = m.q[src][n:]
                m.bout[src] += n
                m.bin[dst] += n
                pieces[dst] += 1
            elif name == 'skip':
                rec.nt(pieces[o[1]] >= 2 and o[2] > 0)
                n = min(o[2], len(m.q[o[1]]))
                req += ['skip', o[1], o[2]]
                expect(where, n)
                m.q[o[1]] = m.q[o[1]][n:]
                m.bout[o[1]] += n
            elif name == 'skip_all':
                req += ['skip_all', o[1]]
                expect(where, len(m.q[o[1]]))
                m.bout[o[1]] += len(m.q[o[1]])
                m.q[o[1]] = b''
            elif name == 'reset':
                req += ['reset', o[1]]
                m.q[o[1]] = b''
                m.bin[o[1]] = m.bout[o[1]] = 0
            elif name == 'ext':
                k, n, mode = o[1], o[2], o[3]
                rec.nt(pieces[k] >= 2)
                req += ['ext', k, n, mode]
                if n > len(m.q[k]):
                    expect(where, 0)
                    want.append((where, ('any',)))
                else:
                    expect(where, 1)
                    expect(where, m.q[k][:n])
            elif name == 'read':
                k, idx, s, ln, mm = o[1:]
                req += ['lens', k, 'read', k, idx, s, ln, mm]
                want.append((where, ('read', m.q[k], idx, s, ln)))
                rec.nt(pieces[k] >= 2)
            elif name == 'limit':
                k, v = o[1], o[2]
                req += ['limit', k, v]
                if m.lim[k] is None:
                    m.limits.append([v])
                    m.lim[k] = len(m.limits) - 1
                else:
                    m.limits[m.lim[k]][0] = v
            elif name == 'share':
                a, b = o[1], o[2]
                req += ['share', a, b]
                m.lim[a] = m.lim[b]
            elif name == 'nolimit':
                req += ['nolimit', o[1]]
                m.lim[o[1]] = None
            elif name == 'drain':
                k = o[1]
                rec.nt(pieces[k] >= 2)
                req += ['drain', k, o[2], o[3]]
                expect(where, 0)
                expect(where, m.q[k])
                m.bout[k] += len(m.q[k])
                m.q[k] = b''
            # invariants after every op
            for k in range(NQ):
                req += ['stat', k]
            want.append((where, ('stat', list(len(x) for x in m.q), list(m.bin), list(m.bout), list(m.lim),
                                 [l[0] for l in m.limits])))
        for k in range(NQ):
            req += ['drain', k, 4096, k & 1]
            expect('final drain of queue %d' % k, 0)
            expect('final content of queue %d' % k, m.q[k])
        self.flush(req, want, m, temps, final=True)

    # -- execution ---------------------------------------------------------
    def flush(self, req, want, m, temps, final, peek=False):
        for p, _ in temps:
            with open(p, 'wb') as f:
                f.write(self.blob)
        if peek:
            # drop the steal_chunk that follows 'lens'
            cut = len(req) - 3
            ans = self.h.call(*req[:cut])
        else:
            ans = self.h.call(*req)
        for p, _ in temps:
            if os.path.exists(p):
                raise Violation('temporary file %s still exists after every queue was freed' % os.path.basename(p))
        pos = 0
        for i, (where, w) in enumerate(want):
            if isinstance(w, tuple) and w[0] == 'stat':
                pos = self.check_stat(where, w, ans, pos)
                continue
            if isinstance(w, tuple) and w[0] == 'lastbuf':
                self.last = int(ans[pos])
                pos += 1
                if self.last == -1:
                    raise Violation('%s: returned buffer has less free space than requested' % where)
                continue
            if isinstance(w, tuple) and w[0] == 'lens':
                self.lens = [int(x) for x in ans[pos].split()]
                pos += 1
                continue
            if isinstance(w, tuple) and w[0] == 'any':
                pos += 1
                continue
            if isinstance(w, tuple) and w[0] == 'read':
                _, content, idx, s, ln = w
                lens = [int(x) for x in ans[pos].split()]
                r, d = int(ans[pos + 1]), ans[pos + 2]
                pos += 3
                if sum(lens) != len(content):
                    raise Violation('%s: chunk lengths %r do not add up to %d' % (where, lens, len(content)))
                if r == -1:
                    continue
                off = sum(lens[:idx]) + s
                if r != 0 or not d or len(d) > ln or d != content[off:off + len(d)] or len(d) > lens[idx] - s:
                    raise Violation('%s: read at chunk %d+%d returned r=%d %r..., expected a prefix of %r...' % (
                        where, idx, s, r, d[:40], content[off:off + 40]))
                continue
            got = ans[pos]
            pos += 1
            if isinstance(w, int):
                if int(got) != w:
                    raise Violation('%s: returned %s, expected %d' % (where, got.decode(), w))
            elif got != w:
                raise Violation('%s: got %d bytes %r..., expected %d bytes %r...' % (where, len(got), got[:60], len(w), w[:60]))
        self.sent = list(req)
        self.want_sent = list(want)

    def check_stat(self, where, w, ans, pos):
        _, lens, bins, bouts, lim, limits = w
        usage = []
        cur = {}
        for k in range(NQ):
            ln, bi, bo, mu, lc, lk, av, nch = (int(x) for x in ans[pos:pos + 8])
            pos += 8
            if ln != lens[k]:
                raise Violation('after %s: queue %d reports length %d, has %d bytes' % (where, k, ln, lens[k]))
            if bi != bins[k] or bo != bouts[k]:
                raise Violation('after %s: queue %d counters in/out %d/%d, expected %d/%d' % (where, k, bi, bo, bins[k], bouts[k]))
            if mu < 0 or (nch == 0 and mu != 0):
                raise Violation('after %s: queue %d memory accounting %d with %d pieces' % (where, k, mu, nch))
            usage.append(mu)
            if lim[k] is not None:
                cur.setdefault(lim[k], [lc, lk, av])
            elif lc != -1:
                raise Violation('after %s: queue %d has a limit although none is set' % (where, k))
        for l, (c, locked, avail) in cur.items():
            s = sum(usage[k] for k in range(NQ) if lim[k] == l)
            # a shared limit counts exactly what the queues using it hold
            if c != s:
                raise Violation('after %s: limit accounts %d bytes, its queues hold %d' % (where, c, s))
            v = limits[l]
            if bool(locked) != (v > 0 and c >= v):
                raise Violation('after %s: limit locked=%d with %d of %d bytes used' % (where, locked, c, v))
            if avail != (-1 if v <= 0 else max(0, v - c)):
                raise Violation('after %s: limit_available=%d with %d of %d used' % (where, avail, c, v))
        return pos


class BigFile(Queues):
    """files larger than one mmap window"""
    NAME = 'bigfile'
    N_QUICK = 25
    N_THOROUGH = 1500
    SECS_QUICK = 20
    FILE = BIG

    def strategy(self):
        off = st.one_of(st.integers(0, BIG), st.sampled_from([0, 1, 4095, 4096, 4097, 2 << 20, (2 << 20) - 1, (2 << 20) + 1, 4 << 20]))
        return st.lists(st.one_of(
            st.tuples(st.sampled_from(['file', 'cfile', 'temp', 'filefd']), queue, off, off),
            st.tuples(st.just('mem'), queue, small, small),
            st.tuples(st.just('steal_len'), queue, queue, off),
            st.tuples(st.just('skip'), queue, off),
            st.tuples(st.just('read'), queue, st.integers(0, 2), off, off.map(lambda x: x + 1), st.integers(0, 1)),
            st.tuples(st.just('drain'), queue, st.one_of(st.integers(60000, 4 << 20), st.just(10 ** 9)), st.integers(0, 1)),
        ), min_size=2, max_size=12)


class Faults(Sub):
    """file pieces that cannot be read (missing, truncated): extraction reports failure, never wrong bytes or a crash"""
    NAME = 'fault'
    N_QUICK = 400
    N_THOROUGH = 8000
    SECS_QUICK = 15
    RECYCLE = 5000
    HARNESS = True
    RULE = 'queues with unreadable file pieces'

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()
        self.path = os.path.join(self.scratch, 'blob')
        self.blob = data(500, 7)
        with open(self.path, 'wb') as f:
            f.write(self.blob)

    def teardown(self):
        self.h.stop()

    def strategy(self):
        piece = st.one_of(st.tuples(st.just('mem'), st.integers(1, 30)),
                          st.tuples(st.just('good'), st.integers(0, 400), st.integers(1, 90)),
                          st.tuples(st.just('short'), st.integers(0, 600), st.integers(1, 90)),
                          st.tuples(st.just('missing'), st.integers(1, 30)))
        ops = st.lists(st.one_of(st.tuples(st.just('ext'), st.integers(0, 200), st.integers(0, 2)),
                                 st.tuples(st.just('skip'), st.integers(0, 60))), min_size=1, max_size=6)
        return st.tuples(st.lists(piece, min_size=1, max_size=6), ops)

    def run(self, case, rec):
        pieces, ops = case
        req = ['cq']
        content = []          # ints or None for unreadable
        for p in pieces:
            if p[0] == 'mem':
                d = data(p[1], 3)
                req += ['mem', 0, d]
                content += list(d)
            elif p[0] == 'missing':
                req += ['file', 0, self.path + '.none', 0, p[1]]
                content += [None] * p[1]
            else:
                start, ln = p[1], p[2]
                req += ['file', 0, self.path, start, ln]
                d = list(self.blob[start:start + ln])
                if p[0] == 'short' and len(d) < ln:
                    rec.nt()
                content += d + [None] * (ln - len(d))
        want = []
        for o in ops:
            if o[0] == 'skip':
                req += ['skip', 0, o[1]]
                want.append(('skip', min(o[1], len(content))))
                content = content[o[1]:]
            else:
                req += ['ext', 0, o[1], o[2]]
                want.append(('ext', o[1], list(content[:o[1]]), len(content)))
        ans = self.h.call(*req)
        pos = 0
        for w in want:
            if w[0] == 'skip':
                if int(ans[pos]) != w[1]:
                    raise Violation('skip returned %s, expected %d' % (ans[pos], w[1]))
                pos += 1
            else:
                ok, d = int(ans[pos]), ans[pos + 1]
                pos += 2
                good = w[1] <= w[3] and None not in w[2]
                rec.nt(w[1] > 0 and None in w[2])
                if ok and not good:
                    raise Violation('extracting %d bytes succeeded although the data is not available' % w[1])
                if not ok and good:
                    raise Violation('extracting %d available bytes failed' % w[1])
                if ok and d != bytes(w[2]):
                    raise Violation('extracted %r, expected %r' % (d[:60], bytes(w[2])[:60]))


SUBS = [Queues, BigFile, Faults]

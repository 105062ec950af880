"""C27: the angel <-> worker message layer: field codec and request id allocation."""
import hashlib
import re

from hypothesis import strategies as st

from lib.harness import Harness
from lib.runner import Sub
from lib.server import Violation

RULE = ('codec: random field sequences are serialised and read back, also from truncated / bit-flipped / arbitrary buffers in exactly sized '
        'memory; ids: random get/put histories (up to 2000 ids) against a set model; calls: histories of calls, results, one-way messages, fds, giving up, timeouts, refused sizes and closes on two connection ends over a small socket buffer; churn: more answered calls than ids; non-trivial: at least two fields including a string, or a damaged '
        'buffer; at least one id was given back and requested again')


class HBase(Sub):
    HARNESS = True
    RECYCLE = 50000
    SECS_QUICK = 40

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()

    def teardown(self):
        self.h.stop()


class Codec(HBase):
    NAME = 'codec'
    N_QUICK = 5000
    N_THOROUGH = 80000

    def strategy(self):
        i32 = st.one_of(st.integers(-2 ** 31, 2 ** 31 - 1), st.sampled_from([0, -1, 2 ** 31 - 1, -2 ** 31, 255, 256]))
        i64 = st.one_of(st.integers(-2 ** 63, 2 ** 63 - 1), st.sampled_from([0, -1, 2 ** 63 - 1, -2 ** 63]))
        s = st.one_of(st.binary(max_size=20), st.integers(0, 5000).map(lambda n: b'q' * n)).map(lambda b: b.decode('latin-1'))
        f = st.one_of(st.tuples(st.just('32'), i32), st.tuples(st.just('64'), i64), st.tuples(st.just('c'), st.integers(0, 255)),
                      st.tuples(st.just('s'), s), st.tuples(st.just('cs'), s))
        damage = st.one_of(st.none(), st.none(), st.tuples(st.just('cut'), st.integers(0, 200)),
                           st.tuples(st.just('flip'), st.integers(0, 200), st.integers(1, 255)), st.tuples(st.just('junk'), st.binary(max_size=30).map(lambda b: b.decode('latin-1'))))
        return st.tuples(st.lists(f, min_size=1, max_size=8), damage, st.booleans())

    def run(self, case, rec):
        fields, damage, usemem = case
        req = ['adata']
        for k, v in fields:
            req += ['w' + k, v]
        req += ['bytes']
        a = self.h.call(*req)
        for (k, v), r in zip(fields, a):
            if r != b'1' and (k not in ('s', 'cs') or len(v) <= 1024):
                raise Violation('writing field %s %r failed' % (k, str(v)[:80]))
        buf = a[len(fields)]
        # refused strings must leave no trace in the message
        fields = [f for f, r in zip(fields, a) if r == b'1']
        if not fields:
            if buf:
                raise Violation('a refused field left %d bytes in the message' % len(buf))
            return
        rec.nt(damage is not None or (len(fields) > 1 and any(k in ('s', 'cs') for k, _ in fields)))
        if damage:
            if damage[0] == 'cut':
                if damage[1] >= len(buf):
                    return
                buf = buf[:damage[1]]
            elif damage[0] == 'flip':
                p = damage[1] % len(buf)
                buf = buf[:p] + bytes([buf[p] ^ damage[2]]) + buf[p + 1:]
            else:
                buf = damage[1].encode('latin-1')
        req = ['adata', 'raw', buf, 'read']
        for k, v in fields:
            if k == 'cs':
                k = 's'
            req += ['r' + k]
        a = self.h.call(*req)
        pos = 0
        sizes = {'32': 4, '64': 8, 'c': 1}
        failed = False
        last = 0
        for i in range(len(fields)):
            k, v = fields[i]
            ok, val, p = int(a[pos]), a[pos + 1], int(a[pos + 2])
            pos += 3
            if p < last or p > len(buf):
                raise Violation('read position %d leaves the buffer of %d bytes (previous %d)' % (p, len(buf), last))
            used = p - last
            if damage is None:
                if not ok:
                    raise Violation('field %d (%s %r) cannot be read back' % (i, k, str(v)[:60]))
                if k in ('s', 'cs'):
                    if val != v.encode('latin-1'):
                        raise Violation('string field reads back as %r instead of %r' % (val[:60], v[:60]))
                elif int(val) != v:
                    raise Violation('field %s %d reads back as %s' % (k, v, val.decode()))
            elif ok:
                if k in ('s', 'cs'):
                    if used != 4 + len(val) or buf[last + 4:p] != val:
                        raise Violation('string of %d bytes read from %d buffer bytes' % (len(val), used))
                elif used != sizes[k]:
                    raise Violation('field %s consumed %d bytes' % (k, used))
            last = p
        if damage is None and last != len(buf):
            raise Violation('%d of %d bytes consumed' % (last, len(buf)))
        if damage and damage[0] == 'cut':
            oks = [int(a[3 * i]) for i in range(len(fields))]
            if all(oks):
                raise Violation('all fields were read from a truncated buffer (%d bytes)' % len(buf))


class Ids(HBase):
    NAME = 'ids'
    N_QUICK = 1500
    N_THOROUGH = 20000

    def strategy(self):
        op = st.one_of(st.tuples(st.just('get'), st.one_of(st.integers(1, 5), st.integers(1, 200))), st.tuples(st.just('put'), st.integers(0, 5000)),
                       st.tuples(st.just('puts'), st.integers(0, 5000), st.integers(1, 60)), st.tuples(st.just('used'), st.integers(0, 2500)))
        return st.tuples(st.one_of(st.integers(1, 10), st.sampled_from([1, 63, 64, 65, 640, 2000]), st.integers(1, 2000)), st.lists(op, min_size=1, max_size=25))

    def run(self, case, rec):
        mx, ops = case
        # request ids one by one so that freed ids can be chosen from the answers
        used = []
        script = ['idlist', mx]
        freed = False
        # the sequence is replayed from scratch each time an answer is needed; keep it short
        plan = []
        for o in ops:
            if o[0] == 'get':
                plan.append(['get', o[1]])
            else:
                plan.append(list(o))
        # first pass: dry run computing answers incrementally
        want_free = []
        req = list(script)
        live = []
        answers = 0
        for o in plan:
            if o[0] == 'get':
                req += ['get', o[1]]
                ans = self.h.call(*req)
                ids = [int(x) for x in ans[answers].split()]
                answers += 1
                if len(ids) != o[1]:
                    raise Violation('asked for %d ids, got %d' % (o[1], len(ids)))
                for i in ids:
                    if i == -1:
                        if mx < 0 or len(live) < mx:
                            raise Violation('no id available although only %d of %s are in use' % (len(live), mx))
                        continue
                    if i < 0 or (mx >= 0 and i >= mx):
                        raise Violation('id %d is out of range (maximum %d)' % (i, mx))
                    if i in live:
                        raise Violation('id %d handed out twice' % i)
                    live.append(i)
                if freed:
                    rec.nt()
            elif o[0] == 'put' and live:
                i = live.pop(o[1] % len(live))
                req += ['put', i]
                freed = True
            elif o[0] == 'puts' and live:
                for _ in range(o[2]):
                    if live:
                        req += ['put', live.pop(o[1] % len(live))]
                freed = True
            elif o[0] == 'used':
                req += ['used', o[1]]
                ans = self.h.call(*req)
                if bool(int(ans[answers])) != (o[1] in live):
                    raise Violation('id %d reported used=%s, expected %s' % (o[1], ans[answers], o[1] in live))
                answers += 1


def content(n, seed):
    return hashlib.md5(bytes((seed + i * 7 + (i >> 8)) & 255 for i in range(n))).hexdigest()


class Calls(HBase):
    """two real connection ends over a socket pair, against a model of who has to see what"""
    NAME = 'calls'
    N_QUICK = 700
    N_THOROUGH = 20000
    SECS_QUICK = 40

    def strategy(self):
        side = st.integers(0, 1)
        size = st.one_of(st.integers(-1, 30), st.integers(0, 9000), st.sampled_from([-1, 0, 1, 65535, 65536, 65537, 80000]))
        name = st.sampled_from(['core', 'x', 'm' * 40])
        call = st.tuples(st.just('call'), side, st.sampled_from([10 ** 6, 10 ** 6, 10 ** 6, 10 ** 6, 4]), name, name, size, st.integers(0, 99))
        reply = st.tuples(st.just('reply'), st.integers(0, 30), st.one_of(st.just(-1), size), size, st.sampled_from([0, 0, 0, 1, 2, 5]), st.integers(0, 99))
        op = st.one_of(call, call, call, reply, reply, reply, st.tuples(st.just('simple'), side, st.just(0), name, name, size, st.integers(0, 99)), st.tuples(st.just('pump')), st.tuples(st.just('pump')), st.tuples(st.just('pump')),
                       st.tuples(st.just('free'), st.integers(0, 30)), st.tuples(st.just('sleep')), st.tuples(st.just('close'), side, st.integers(0, 9))).map(list)
        return st.integers(2, 30).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))

    def run(self, case, rec):
        plan = []
        for i, o in enumerate(case):
            if o[0] == 'close' and (o[2] > 3 or i < len(case) * 2 // 3) or o[0] == 'sleep' and i % 2:
                continue
            plan.append(o)
            if o[0] == 'sleep':
                plan.append(['pump'])
        plan.append(['pump'])
        script = []
        for o in plan:
            if o[0] in ('call', 'simple'):
                script.append([o[0], o[1], o[2], o[3], o[4], o[5], o[6]])
            elif o[0] == 'reply':
                script.append(['reply', None, o])
            elif o[0] == 'free':
                script.append(['free', None, o])
            elif o[0] == 'sleep':
                script.append(['sleep', 9])
            elif o[0] == 'pump':
                script.append(['pump'])
            else:
                script.append(['close', o[1]])
        # replies and frees name a call by its number modulo those there are: fixed without looking at answers
        ncall = 0
        waiting = []        # calls received and unanswered, by order of receipt: known after a pump
        fresh = False
        opn = [True, True]
        nrec = 0
        out = []
        for x in script:
            if x[0] in ('call', 'simple') and opn[x[1]]:
                if x[0] == 'call':
                    fresh = True
                    ncall += 1
            elif x[0] == 'reply':
                if not waiting:
                    continue
                k = waiting.pop(x[2][1] % len(waiting))
                x = ['reply', k, x[2][2], x[2][3], x[2][4], x[2][5]]
            elif x[0] == 'free':
                if not ncall:
                    continue
                x = ['free', x[2][1] % ncall]
            elif x[0] == 'pump':
                if all(opn) and fresh:
                    fresh = False
                    # both directions are read in rounds: the numbering of receipts is looked up in the log
                    hs = self.h.call(*(['acon'] + [y for z in out for y in z] + ['pump']))
                    n = sum(1 for l in hs if l.startswith(b'recv') and int(l.split()[4]) >= 0)
                    waiting += list(range(nrec, n))
                    nrec = n
                elif not all(opn):
                    waiting = []
            elif x[0] == 'close':
                opn[x[1]] = False
                waiting = []
            out.append(x)
        log = [l.decode() for l in self.h.call(*(['acon'] + [y for z in out for y in z]))]
        rec.nt(any(x[0] == 'reply' for x in out))
        for x in out:
            rec.label(x[0])
        self.model(out, log, rec)

    def model(self, ops, log, rec):
        pos = 0
        st_ = []            # per call: [side, long, 'out'|'done'|'freed'|'refused', expected result or None]
        wire = [[], []]     # entries to be received by that side, in order
        got = []            # receipts of calls: (side, id, call index)
        used = [{}, {}]     # ids the caller side has in use
        opn = [True, True]
        fired = {}
        prev = None

        def seen(line):
            w = line.split(' ')
            if w[0] == 'recv':
                side, mod, act, cid, n, h = int(w[1]), w[2], w[3], int(w[4]), int(w[5]), w[6]
                if not wire[side]:
                    raise Violation('side %d received a message nobody sent: %s' % (side, line[:120]))
                kind, call, sig = wire[side].pop(0)
                if (mod, act, n, h) != sig or (kind == 'call') != (cid >= 0):
                    raise Violation('side %d received %s, sent was %s %r' % (side, line[:150], kind, sig))
                if kind == 'call':
                    if cid in used[1 - side]:
                        raise Violation('id %d was given to a call while another one with this id is unanswered' % cid)
                    used[1 - side][cid] = call
                    got.append((side, cid, call))
            elif w[0] == 'cb':
                k, tmo, sig = int(w[1]), int(w[2]), tuple(w[3:8])
                if k >= len(st_) or st_[k][2] != 'out' or k in fired:
                    raise Violation('callback of call %d, which is %s' % (k, 'done already' if k in fired else st_[k][2] if k < len(st_) else 'unknown'))
                fired[k] = 1
                s = st_[k]
                s[2] = 'done'
                if tmo:
                    if s[1] and opn[s[0]] and not s[4]:
                        raise Violation('call %d timed out although nothing but a short time has passed' % k)
                    return
                if s[3] is None:
                    raise Violation('call %d got a result nobody sent: %s' % (k, line[:120]))
                if s[3] != sig:
                    raise Violation('call %d got the result %r, sent was %r' % (k, sig, s[3]))
            elif w[0] == 'closed':
                side = int(w[1])
                if opn[1 - side] and opn[side]:
                    raise Violation('connection broke down by itself (side %d)' % side)
                opn[side] = False
                for s in st_:
                    if s[0] == side:
                        s[4] = True
            elif w[0] == 'stuck':
                raise Violation('data is not delivered')

        def until_dot():
            nonlocal pos
            lines = []
            while log[pos] != '.':
                lines.append(log[pos])
                pos += 1
            pos += 1
            return lines

        for x in ops:
            if x[0] in ('call', 'simple'):
                side, ms, n, seed = x[1], x[2], x[5], x[6]
                if not opn[side]:
                    if log[pos] != 'gone':
                        raise RuntimeError('out of step: %r' % log[pos])
                    pos += 1
                    continue
                if x[0] == 'call':
                    st_.append([side, ms > 1000, 'out', None, False])
                ans = until_dot()
                want = 'sent 1 -1' if n <= 65536 else 'sent 0 2'
                for l in ans[:-1]:
                    seen(l)
                if ans[-1] != want:
                    raise Violation('%s with %d bytes: %s' % (x[0], n, ans[-1]))
                if n <= 65536:
                    wire[1 - side].append((x[0], len(st_) - 1, (x[3], x[4], max(n, 0), content(max(n, 0), seed))))
                elif x[0] == 'call':
                    st_[-1][2] = 'refused'
            elif x[0] == 'reply':
                _, k, en, dn, nf, seed = x
                side, cid, call = got[k] if k < len(got) else (0, -1, -1)
                if cid < 0 or not opn[side]:
                    if log[pos] != 'gone':
                        raise RuntimeError('out of step: %r' % log[pos])
                    pos += 1
                    continue
                ans = until_dot()
                for l in ans[:-1]:
                    seen(l)
                if dn > 65536:
                    if ans[-1] != 'replied 0 2':
                        raise Violation('result with %d bytes: %s' % (dn, ans[-1]))
                    continue
                if ans[-1] != 'replied 1 -1':
                    raise Violation('result with %d bytes: %s' % (dn, ans[-1]))
                # from now on the id may be used again
                used[1 - side].pop(cid, None)
                en, dn = max(en, 0), max(dn, 0)
                st_[call][3] = (str(en), content(en, seed + 1), str(dn), content(dn, seed + 2), ''.join(',%d' % (seed + j) for j in range(nf)))
            elif x[0] == 'free':
                k = x[1]
                if log[pos] == 'gone':
                    pos += 1
                    if k < len(st_) and st_[k][2] == 'out':
                        raise RuntimeError('out of step')
                    continue
                for l in until_dot():
                    if not l.startswith('freed'):
                        seen(l)
                st_[k][2] = 'freed'
            else:
                if x[0] == 'close' and opn[x[1]]:
                    for s in st_:
                        if s[0] == x[1]:
                            s[4] = True
                    opn[x[1]] = False
                for l in until_dot():
                    seen(l)
                if x[0] == 'pump' and all(opn):
                    for side in (0, 1):
                        if wire[side]:
                            raise Violation('%d messages were not delivered to side %d' % (len(wire[side]), side))
                    for k, s in enumerate(st_):
                        if s[2] == 'out' and s[3] is not None:
                            raise Violation('the result of call %d was not delivered' % k)
                if x[0] == 'pump' and all(opn) and prev == 'sleep':
                    for k, s in enumerate(st_):
                        if s[2] == 'out' and not s[1]:
                            raise Violation('call %d did not time out' % k)
            prev = x[0]
        # everything is closed now: every call must have ended
        opn[0] = opn[1] = False
        for s in st_:
            s[4] = True
        for l in log[pos:]:
            if l.startswith('left'):
                raise Violation('call %s was not ended when its connection was closed' % l.split()[1])
            if l.startswith('fds '):
                if l != 'fds 0':
                    raise Violation('%s file descriptors leaked' % l[4:])
            else:
                seen(l)
        for k, s in enumerate(st_):
            if s[2] == 'out':
                raise Violation('call %d never ended' % k)


class Churn(HBase):
    """more calls than there are ids, all answered, some given up before"""
    NAME = 'churn'
    N_QUICK = 6
    N_THOROUGH = 60

    def strategy(self):
        return st.tuples(st.integers(65600, 68000), st.integers(1, 300), st.sampled_from([1, 1, 2, 3, 10 ** 6]))

    def run(self, case, rec):
        rec.nt(True)
        total, batch, every = case
        a = [x.decode() for x in self.h.call('acon', 'churn', total, max(batch, 40), every, timeout=120)]
        m = re.match(r'churn (\d+) refused, (\d+) of (\d+) ended', a[0])
        if m.group(1) != '0':
            raise Violation('a call is refused after %s calls although every earlier one has been answered' % m.group(3))
        if m.group(2) != m.group(3):
            raise Violation('%s of %s answered calls have ended' % (m.group(2), m.group(3)))
        if a[-1] != 'fds 0':
            raise Violation('file descriptors leaked: ' + a[-1])


SUBS = [Codec, Ids, Calls, Churn]

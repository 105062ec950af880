"""C09: client-address based decisions: address/network parsing, matching, longest-prefix lookup, mod_access end to end."""
import ipaddress
import re
import socket
import struct

from hypothesis import strategies as st

from lib.harness import Harness
from lib.http import Conn, Malformed, Closed, Timeout
from lib.runner import Sub
from lib.server import Violation, Server, free_port

RULE = ('parse: textual IPv4/IPv6 addresses, networks and socket addresses in every notation plus mutated text, against Python ipaddress; '
        'match: random address/network pairs sharing a random number of leading bits; radix: insert/remove/lookup histories over keys of '
        '0..128 bits with nested prefixes against a dictionary model; access: random allow/deny lists served by the real server, requests from '
        'random 127.x.y.z / ::1 source addresses; non-trivial: mutated or compressed notation, nested prefixes, at least two rules')


def lat(b):
    return b.decode('latin-1')


class HBase(Sub):
    HARNESS = True
    RECYCLE = 50000
    SECS_QUICK = 25

    def setup(self):
        self.h = Harness(self.scratch)
        self.h.start()

    def teardown(self):
        self.h.stop()


def fmt6(addr, style, bits):
    """one of several valid notations of an IPv6Address"""
    groups = [addr[i] << 8 | addr[i + 1] for i in range(0, 16, 2)]
    if style == 0:
        return ':'.join('%x' % g for g in groups)
    if style == 1:
        return ':'.join('%04X' % g for g in groups)
    if style == 2:
        return str(ipaddress.IPv6Address(bytes(addr)))
    if style == 3:
        return ':'.join('%x' % g for g in groups[:6]) + ':' + '.'.join(str(b) for b in addr[12:])
    # compress some zero run explicitly, longest or not
    runs = []
    i = 0
    while i < 8:
        if groups[i] == 0:
            j = i
            while j < 8 and groups[j] == 0:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    if not runs:
        return ':'.join('%x' % g for g in groups)
    a, b = runs[bits % len(runs)]
    left = ':'.join('%x' % g for g in groups[:a])
    if style == 5 and b <= 6:
        right = ':'.join(['%x' % g for g in groups[b:6]] + ['.'.join(str(x) for x in addr[12:])])
    else:
        right = ':'.join('%x' % g for g in groups[b:])
    return left + '::' + right


addr4 = st.one_of(st.integers(0, 2 ** 32 - 1), st.sampled_from([0, 0xffffffff, 0x7f000001, 0x0a000000, 0xc0a80101]))
addr6 = st.one_of(
    st.lists(st.integers(0, 255), min_size=16, max_size=16),
    st.lists(st.sampled_from([0, 0, 0, 1, 0xab, 0xffff, 0x1234]), min_size=8, max_size=8).map(lambda g: [x for v in g for x in (v >> 8, v & 255)]))


def ref4(s, cidr, port):
    """(ip, mask, port) | None | 'skip'"""
    m = re.match(r'^(\d+)\.(\d+)\.(\d+)\.(\d+)(/\d+)?(:\d+)?(?:[ \t\n\v\f\r].*)?$', s, re.S)
    if not m:
        return None
    if m.group(5) and not cidr or m.group(6) and not port:
        return None
    o = [int(x) for x in m.groups()[:4]]
    n = int(m.group(5)[1:]) if m.group(5) else 32
    p = int(m.group(6)[1:]) if m.group(6) else 0
    if any(x > 255 for x in o) or n > 32 or p > 65535:
        return None
    mask = (0xffffffff << (32 - n)) & 0xffffffff
    return bytes(o), struct.pack('>I', mask), p


def ref6(s, cidr, port):
    s = re.split(r'[ \t\n\v\f\r]', s, 1)[0]
    n, p = 128, 0
    if s.startswith('['):
        m = re.match(r'^\[([^\]/]*)(/\d+)?\](/\d+)?(:\d+)?$', s)
        if not m:
            return None
        if m.group(2) and m.group(3):
            return None
        a, net, prt = m.group(1), m.group(2) or m.group(3), m.group(4)
    else:
        m = re.match(r'^([^\[\]/]*)(/\d+)?$', s)
        if not m:
            return None
        a, net, prt = m.group(1), m.group(2), None
    if net and not cidr or prt and not port:
        return None
    if net:
        n = int(net[1:])
    if prt:
        p = int(prt[1:])
    if n > 128 or p > 65535:
        return None
    if '%' in a:
        return None
    m = re.search(r'(?:^|:)(0\d+|\d+\.0\d|\d+\.\d+\.0\d|\d+\.\d+\.\d+\.0\d)', a)
    if '.' in a:
        a = re.sub(r'\b0+(\d)', r'\1', a[:0]) + re.sub(r'(\d+\.\d+\.\d+\.\d+)$', lambda m: '.'.join(str(int(x)) for x in m.group(1).split('.')), a)
    try:
        return ipaddress.IPv6Address(a).packed, n, p
    except ValueError:
        return None


class Parse(HBase):
    NAME = 'parse'
    N_QUICK = 4000
    N_THOROUGH = 80000

    def strategy(self):
        num = st.one_of(st.integers(0, 40), st.sampled_from([0, 8, 24, 31, 32, 33, 64, 127, 128, 129, 256, 65535, 65536, 99999, 4294967296, 4294967328, 2 ** 64 + 8]))
        suffix = st.one_of(st.just(''), num.map(lambda n: '/%d' % n), num.map(lambda n: ':%d' % n), st.tuples(num, num).map(lambda t: '/%d:%d' % tuple(t)), st.just(' x'))
        mut = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(['del', 'ins', 'set']), st.integers(0, 60),
                        st.sampled_from(list('0123456789abcdefg:.[]/ -') + ['::', '4294967296', '00000', '12345'])))
        four = st.tuples(st.just(4), addr4, st.just(0), st.just(0), suffix, mut)
        six = st.tuples(st.just(6), addr6, st.integers(0, 5), st.integers(0, 7), suffix, mut)
        six2 = st.tuples(st.just(66), addr6, st.integers(0, 5), st.integers(0, 7), suffix, mut)
        return st.one_of(four, six, six2)

    def text(self, case):
        fam, a, style, bits, suffix, mut = case
        if fam == 4:
            s = '.'.join(str(x) for x in struct.pack('>I', a)) + suffix
        elif fam == 6:
            s = fmt6(a, style, bits) + suffix
        else:
            s = '[' + fmt6(a, style, bits) + ']' + suffix
        if mut:
            k, pos, ch = mut
            pos %= len(s) + 1
            if k == 'del':
                s = s[:pos] + s[pos + 1:]
            elif k == 'ins':
                s = s[:pos] + ch + s[pos:]
            else:
                s = s[:pos] + ch + s[pos + 1:]
        return s

    def run(self, case, rec):
        s = self.text(case)
        rec.nt(case[5] is not None or case[4] != '' or (case[0] != 4 and case[2] > 0))
        req = ['ip']
        for fl in range(4):
            req += ['v4', fl, s, 'v6', fl, s]
        a = self.h.call(*req)
        pos = 0
        for fl in range(4):
            cidr, port = bool(fl & 1), bool(fl & 2)
            ok, ip, mask, p = int(a[pos]), a[pos + 1], a[pos + 2], int(a[pos + 3])
            pos += 4
            w = ref4(s, cidr, port)
            if w is None:
                if ok:
                    raise Violation('%r accepted as IPv4 %s' % (s, '.'.join(str(x) for x in ip)))
            elif not ok or ip != w[0] or (cidr and mask != w[1]) or (port and p != w[2]):
                raise Violation('%r: IPv4 parse ok=%d %r mask %r port %d, expected %r' % (s, ok, ip, mask, p, w))
            ok, ip, n, p = int(a[pos]), a[pos + 1], int(a[pos + 2]), int(a[pos + 3])
            pos += 4
            w = ref6(s, cidr, port)
            if w is None:
                if ok:
                    raise Violation('%r accepted as IPv6 %r' % (s, ip.hex()))
            elif not ok or ip != w[0] or (cidr and n != w[1]) or (port and p != w[2]):
                raise Violation('%r: IPv6 parse ok=%d %s /%d port %d, expected %s /%d port %d' % (s, ok, ip.hex(), n, p, w[0].hex(), w[1], w[2]))
        # formatting round trip
        if case[0] != 4:
            packed = bytes(case[1])
            t = lat(self.h.call('ip', 'v6str', packed)[0])
            try:
                back = ipaddress.IPv6Address(t).packed
            except ValueError:
                back = None
            if back != packed:
                raise Violation('IPv6 %s formatted as %r' % (packed.hex(), t))
        w4, w6 = ref4(s, False, True), ref6(s, False, True)
        present, full, short, eq, hs = self.h.call('ip', 'sock', s, 77)
        if (w4 or w6) is None:
            if present != b'0' and not s.startswith('unix:'):
                raise Violation('%r accepted as socket address' % s)
        else:
            w = w4 or w6
            port = w[2] or 77
            addr = ipaddress.ip_address(w[0])
            want = '%s:%d' % (addr, port) if w4 else '[%s]:%d' % (addr, port)
            m = re.match(r'^\[(.*)\]:(\d+)$', lat(full))
            got = '[%s]:%s' % (ipaddress.ip_address(m.group(1)), m.group(2)) if m else lat(full)
            if present != b'1' or got != want or ipaddress.ip_address(lat(short)) != addr or eq != b'1' or hs != b'1':
                raise Violation('socket address %r: %r / %r equal=%s, expected %r' % (s, full, short, eq, want))


class Match(HBase):
    NAME = 'match'
    N_QUICK = 2500
    N_THOROUGH = 40000

    def strategy(self):
        return st.tuples(addr4, addr6, st.integers(0, 32), st.integers(0, 128), st.integers(0, 2 ** 128 - 1), st.booleans())

    def run(self, case, rec):
        a4, a6, n4, n6, noise, mapped = case
        rec.nt()
        b = bytes(a6)
        i6 = int.from_bytes(b, 'big')
        # differ from the network only after a random bit
        k = noise % 129
        t6 = (i6 ^ (noise >> k if k < 128 else 0)) & (2 ** 128 - 1)
        t4 = (a4 ^ ((noise & 0xffffffff) >> (noise % 33) if noise % 33 < 32 else 0)) & 0xffffffff
        mask4 = (0xffffffff << (32 - n4)) & 0xffffffff
        nm = struct.pack('>II', a4, mask4)
        if mapped:
            t6 = (0xffff << 32) | t4
        m6 = i6 if not mapped else (0xffff << 32 | a4)
        r = self.h.call('ip', 'net44', struct.pack('>I', t4), nm, 'net66', t6.to_bytes(16, 'big'), b, n6,
                        'net64', t6.to_bytes(16, 'big'), nm, 'net46', struct.pack('>I', t4), m6.to_bytes(16, 'big'), n6)

        def pre(x, y, n):
            return n == 0 or (x >> (128 - n)) == (y >> (128 - n))
        want = [(t4 & mask4) == (a4 & mask4), pre(t6, i6, n6), (t6 >> 32) == 0xffff and ((t6 & 0xffffffff) & mask4) == (a4 & mask4),
                pre((0xffff << 32) | t4, m6, n6)]
        for i, name in enumerate(['v4 in v4 net', 'v6 in v6 net', 'v6 in v4 net', 'v4 in v6 net']):
            if bool(int(r[i])) != want[i]:
                raise Violation('%s: got %s expected %s (v4 %08x/%d target %08x; v6 %s/%d target %032x)' % (
                    name, r[i], want[i], a4, n4, t4, b.hex(), n6, t6))


class Radix(HBase):
    NAME = 'radix'
    N_QUICK = 2500
    N_THOROUGH = 40000

    def strategy(self):
        key = st.one_of(
            st.tuples(st.sampled_from([0, 2 ** 128 - 1, 0x7f << 120, 0x80 << 120, 0x0a << 120, 0xaaaa << 112, 1, 1 << 95, 1 << 96, 3 << 95]), st.one_of(st.integers(0, 128), st.sampled_from([0, 8, 31, 32, 33, 63, 64, 65, 96, 127, 128]))),
            st.tuples(st.integers(0, 2 ** 128 - 1), st.integers(0, 128)))
        o = st.one_of(st.tuples(st.just('ins'), key), st.tuples(st.just('ins'), key), st.tuples(st.just('del'), st.integers(0, 40)),
                      st.tuples(st.just('delk'), key), st.tuples(st.just('get'), key), st.tuples(st.just('getnear'), st.integers(0, 40), st.integers(0, 128)),
                      st.tuples(st.just('exact'), key), st.tuples(st.just('exactk'), st.integers(0, 40)), st.tuples(st.just('foreach')))
        return st.one_of(st.lists(o, min_size=2, max_size=8), st.lists(o, min_size=12, max_size=40))

    def run(self, case, rec):
        d = {}
        req = ['radix']
        want = []
        val = 0

        def norm(v, n):
            return (v >> (128 - n), n) if n else (0, 0)

        def kb(v):
            return v.to_bytes(16, 'big')

        def lookup(v, n):
            for m in range(n, -1, -1):
                e = d.get(norm(v, m))
                if e is not None:
                    return e
            return 0
        order = []
        for o in case:
            op = o[0]
            if op == 'ins':
                v, n = o[1]
                val += 1
                k = norm(v, n)
                # clean the bits after the prefix at random: they must not matter
                req += ['ins', kb(v), n, val]
                if k in d:
                    want.append((o, d[k]))
                else:
                    want.append((o, 0))
                rec.nt(any(kk != k and (kk[1] < n and norm(v, kk[1]) == kk) for kk in d))
                d[k] = val
                order.append((v, n))
            elif op in ('del', 'delk', 'exact', 'exactk'):
                if op in ('del', 'exactk'):
                    if not order:
                        continue
                    v, n = order[o[1] % len(order)]
                else:
                    v, n = o[1]
                k = norm(v, n)
                req += ['del' if op in ('del', 'delk') else 'exact', kb(v), n]
                want.append((o, d.get(k, 0)))
                if op in ('del', 'delk'):
                    d.pop(k, None)
            elif op == 'get':
                v, n = o[1]
                req += ['get', kb(v), n]
                want.append((o, lookup(v, n)))
            elif op == 'getnear':
                if not order:
                    continue
                v, n = order[o[1] % len(order)]
                v ^= (1 << 127) >> o[2] if o[2] < 128 else 0
                req += ['get', kb(v), 128]
                want.append((o, lookup(v, 128)))
            else:
                req += ['foreach']
                want.append((o, len(d)))
                want.append((o, sum(d.values())))
        a = self.h.call(*req)
        want.append(('free', len(d)))
        want.append(('free', sum(d.values())))
        for (o, w), g in zip(want, a):
            if int(g) != w:
                raise Violation('%r answered %s, expected %d' % (o, g.decode(), w))


class Access(Sub):
    """mod_access + remoteip conditions on the real server"""
    NAME = 'access'
    N_QUICK = 250
    N_THOROUGH = 600
    SECS_QUICK = 40
    RECYCLE = 10 ** 9

    def strategy(self):
        ip = st.tuples(st.just(127), st.sampled_from([0, 0, 1, 2, 128, 255]), st.sampled_from([0, 0, 1, 64, 255]), st.sampled_from([1, 1, 2, 3, 127, 128, 200, 254]))
        net = st.one_of(st.tuples(ip, st.sampled_from([0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32])).map(lambda t: '%d.%d.%d.%d/%d' % (tuple(t[0]) + (t[1],))),
                        ip.map(lambda t: '%d.%d.%d.%d' % tuple(t)), st.sampled_from(['all', '::1', '::/0', '::1/128', '::/127', 'fe80::/10']))
        return st.fixed_dictionaries({'allow': st.lists(net, max_size=5), 'deny': st.lists(net, max_size=5), 'order': st.booleans(),
                                      'cond': st.lists(net.filter(lambda n: n != 'all'), min_size=1, max_size=3),
                                      'clients': st.lists(st.one_of(ip.map(lambda t: '%d.%d.%d.%d' % tuple(t)), ip.map(lambda t: '%d.%d.%d.%d' % tuple(t)), st.just('::1')), min_size=4, max_size=12)})

    def run(self, case, rec):
        # duplicates with both verdicts are contradictory configuration: leave them out
        nets = {}
        for verdict, lst in (('deny', case['deny']), ('allow', case['allow'])):
            for n in lst:
                for v, x in self.expand(n):
                    nets.setdefault(x, set()).add(verdict)
        allow = [n for n in case['allow'] if all(len(nets[x]) == 1 for _, x in self.expand(n))]
        deny = [n for n in case['deny'] if all(len(nets[x]) == 1 for _, x in self.expand(n))]
        rec.nt(len(allow) + len(deny) >= 2)
        p4, p6 = free_port(), None
        q = lambda l: '[' + ', '.join('"%s"' % x for x in l) + ']'
        parts = []
        if allow:
            parts.append('"allow" => ' + q(allow))
        if deny:
            parts.append('"deny" => ' + q(deny))
        if not case['order']:
            parts.reverse()
        conds = ''.join('if req.remoteip =/ "%s" { header.add "X-In" => "%d"; }\nif req.remoteip !/ "%s" { header.add "X-Not" => "%d"; }\n' % (n, i, n, i)
                        for i, n in enumerate(case['cond']))
        conf = 'setup { module_load ("mod_access"); listen "[::1]:%d"; listen "0.0.0.0:%d"; }\n' % (p4, p4)
        conf += conds
        if parts:
            conf += 'access.check [%s];\n' % ', '.join(parts)
        conf += 'respond 200 => "%{req.remoteip}";\n'
        srv = Server(self.scratch, conf, tcp=('127.0.0.1', p4))
        if not srv.start():
            log = srv.log_text()
            if 'Address already in use' in log or 'bind' in log:
                return
            raise Violation('server rejects a valid access configuration: %s\n%s' % (conf, log[-600:]))
        try:
            for c in case['clients']:
                self.one(srv, c, p4, allow, deny, case['cond'], bool(parts))
            srv.check_alive()
        finally:
            srv.kill()

    @staticmethod
    def expand(n):
        if n == 'all':
            return [(4, ipaddress.ip_network('0.0.0.0/0')), (6, ipaddress.ip_network('::/0'))]
        x = ipaddress.ip_network(n, strict=False)
        return [(x.version, x)]

    def one(self, srv, client, port, allow, deny, cond, active):
        addr = ipaddress.ip_address(client)
        try:
            c = Conn(tcp=('::1', port) if addr.version == 6 else ('127.0.0.1', port), source=client)
        except OSError:
            return
        with c:
            c.send(b'GET / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n')
            try:
                r = c.response()
            except (Malformed, Closed) as e:
                srv.settle_dead()
                srv.check_alive()
                raise Violation('client %s: no proper response: %s' % (client, e))
            except Timeout:
                raise Violation('client %s: no response' % client, timing=True)
        best, verdict = -1, not active
        for v, lst in ((True, allow), (False, deny)):
            for n in lst:
                for ver, x in self.expand(n):
                    if ver == addr.version and addr in x and x.prefixlen > best:
                        best, verdict = x.prefixlen, v
        # a rule set without any entry denies by default
        want = 200 if verdict else 403
        if r.status != want:
            raise Violation('client %s: status %d, expected %d (allow %r deny %r)' % (client, r.status, want, allow, deny))
        if want == 200 and r.body.decode() != client:
            raise Violation('client %s: server sees %r' % (client, r.body))
        ins = sorted(r.getall('X-In'))
        nots = sorted(r.getall('X-Not'))
        wi = sorted(str(i) for i, n in enumerate(cond) if addr in ipaddress.ip_network(n, strict=False))
        wn = sorted(str(i) for i, n in enumerate(cond) if addr not in ipaddress.ip_network(n, strict=False))
        if want == 200 and (ins != wi or nots != wn):
            raise Violation('client %s: network conditions matched %r / not %r, expected %r / %r of %r' % (client, ins, nots, wi, wn, cond))


SUBS = [Parse, Match, Radix, Access]

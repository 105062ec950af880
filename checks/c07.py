"""C07: configuration values, scopes, conditions, patterns and actions mean what the documentation says."""
import os
import re

from hypothesis import strategies as st

from lib import confmodel as cm
from lib.e2e import E2E, l1, lat, req
from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Server, Violation, crash_summary, test_config

RULE = ('values: generated programs of assignments (plain, local, global), nested blocks, conditional branches, includes and expressions (integers with bases and suffixes, strings with escapes, lists, casts, operator chains), printed while the configuration is loaded; '
        'flow: generated action programs (nested conditions with and/or/not chains, regular expressions, captures, header/env actions, rewrite, redirect, map, action variables) with 4-8 requests each; '
        'non-trivial: a program with an operator chain, scope or error (values), a program in which a condition was evaluated or a pattern with a variable part expanded (flow)')

I64 = 2 ** 63
SUFFIX = {'': 1, 'byte': 1, 'kbyte': 1024, 'mbyte': 1024 ** 2, 'gbyte': 1024 ** 3, 'tbyte': 1024 ** 4, 'pbyte': 1024 ** 5, 'kbit': 128, 'mbit': 1024 ** 2 // 8, 'gbit': 1024 ** 3 // 8, 'tbit': 1024 ** 4 // 8, 'pbit': 1024 ** 5 // 8,
          'sec': 1, 'min': 60, 'hours': 3600, 'days': 86400, 'bit': 0}


class Reject(Exception):
    pass


class Either(Exception):
    """whether the configuration is accepted is not specified"""


def to_s(v):
    if v is None:
        return 'null'
    if v is True or v is False:
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, tuple):
        return '<action>'
    return '(' + ', '.join(to_s(x) for x in v) + ')'


class Eval:
    def __init__(self):
        self.scopes = [{}]
        self.globals = {}
        self.out = []

    def num(self, e):
        _, neg, base, digits, suf = e
        v = int(digits, {'d': 10, 'o': 8, 'x': 16}[base])
        if neg:
            v = -v
        if v >= I64 or v < -I64:
            raise Reject
        if suf == 'bit':
            v = abs(v) // 8 * (-1 if v < 0 else 1)
        else:
            v *= SUFFIX[suf]
        if v >= I64 or v < -I64:
            raise Reject
        return v

    def ex(self, e):
        k = e[0]
        if k == 'int':
            return self.num(e)
        if k == 'str':
            return ''.join(p[1] for p in e[2])
        if k == 'lit':
            return {'true': True, 'false': False, 'none': None, 'default': None}[e[1]]
        if k == 'list':
            return [self.ex(x) for x in e[2]]
        if k == 'kv':
            return [[self.ex(a), self.ex(b)] for a, b in e[1]]
        if k == 'var':
            for s in reversed(self.scopes):
                if e[1] in s:
                    return s[e[1]]
            if e[1] in self.globals:
                return self.globals[e[1]]
            raise Reject
        if k == 'par':
            return self.ex(e[1])
        if k == 'neg':
            v = self.ex(e[1])
            if isinstance(v, bool) or not isinstance(v, int) or v == -I64:
                raise Reject
            return -v
        if k == 'not':
            v = self.ex(e[1])
            if not isinstance(v, bool):
                raise Reject
            return not v
        if k == 'cast':
            v = self.ex(e[2])
            if e[1] == 'int':
                if isinstance(v, bool):
                    return int(v)
                if isinstance(v, int):
                    return v
                if isinstance(v, str):
                    if not re.fullmatch('-?[0-9]+', v):
                        if re.fullmatch('[ \t]*[-+]?[0-9]+', v):
                            raise Either
                        raise Reject
                    i = int(v)
                    if not -I64 <= i < I64:
                        raise Reject
                    return i
                raise Reject
            if isinstance(v, (str, list, tuple)) or v is None:
                raise Either
            return to_s(v)
        if k == 'chain':
            # evaluate left to right, * and / first
            vals, ops = [self.ex(e[1])], []

            def reduce(minp):
                while ops and (2 if ops[-1] in '*/' else 1) >= minp:
                    b, a, op = vals.pop(), vals.pop(), ops.pop()
                    vals.append(self.op(op, a, b))
            for op, x in e[2]:
                reduce(2 if op in '*/' else 1)
                ops.append(op)
                vals.append(self.ex(x))
            reduce(0)
            return vals[0]
        raise AssertionError(k)

    def op(self, op, a, b):
        num = lambda x: isinstance(x, int) and not isinstance(x, bool)
        if num(a) and num(b):
            if op == '/':
                if b == 0:
                    raise Reject
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            else:
                r = a + b if op == '+' else a - b if op == '-' else a * b
            if not -I64 <= r < I64:
                raise Reject
            return r
        if op == '+' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == '+' and isinstance(a, list) and isinstance(b, list):
            return a + b
        raise Reject

    def run(self, stmts):
        for s in stmts:
            k = s[0]
            if k == 'set':
                v = self.ex(s[3])
                self.assign(s[1], s[2], v)
            elif k == 'print':
                self.out.append(to_s([s[1], self.ex(s[2])]))
            elif k == 'block':
                self.scopes.append({})
                self.run(s[2])
                self.scopes.pop()
                self.assign('', s[1], ('action',))
            elif k == 'include':
                self.scopes.append({})
                self.run(s[1])
                self.scopes.pop()
            elif k == 'if':
                self.run(s[1])
                if s[2] is not None:
                    self.run(s[2])
            elif k == 'setup':
                self.run(s[1])
            elif k == 'call':
                v = self.ex(['var', s[1]])
                if not isinstance(v, tuple):
                    raise Reject

    def assign(self, how, name, v):
        if how == 'global':
            self.globals[name] = v
            return
        if how == '':
            for s in reversed(self.scopes):
                if name in s:
                    s[name] = v
                    return
            if name in self.globals:
                self.globals[name] = v
                return
        self.scopes[-1][name] = v


NAMES = ['a', 'b', 'c', 'foo.bar', '_x', 'iff', 'e']


def exprs():
    dig = st.one_of(st.sampled_from(['1', '2', '3', '7', '8', '10', '100', '1024', '4096', '9223372036854775807', '9223372036854775806', '9223372036854775808', '922337203685477580', '9223372036854775800', '99999999999999999999', '8192', '65536', '34359738368']), st.integers(1, 10 ** 6).map(str), st.integers(1, 99).map(str), st.integers(1, 99).map(str), st.integers(1, 2 ** 63).map(str))
    dec = st.tuples(st.just('int'), st.booleans(), st.just('d'), dig, st.sampled_from([''] * 8 + list(SUFFIX)))
    octl = st.tuples(st.just('int'), st.booleans(), st.just('o'), st.one_of(st.sampled_from(['0', '00', '07', '0644', '0777777777777777777777', '01000000000000000000000']), st.integers(0, 2 ** 20).map(lambda n: '0%o' % n)), st.sampled_from([''] * 8 + list(SUFFIX)))
    hexa = st.tuples(st.just('int'), st.booleans(), st.just('x'), st.one_of(st.sampled_from(['0x0', '0xff', '0xFF', '0xaB', '0x7fffffffffffffff', '0x8000000000000000', '0x7FFFFFFFFFFFFFFE', '0x10000000000000000']), st.integers(0, 2 ** 20).map(lambda n: '0x%x' % n)), st.sampled_from([''] * 8 + [x for x in SUFFIX if x not in ('byte', 'bit', 'days')]))  # 0x0byte: b is a hex digit, ambiguous
    piece = st.sampled_from([['a', 'a'], ['b c', 'b c'], ['1', '1'], ['\\\\', '\\'], ['\\x41', 'A'], ['\\x2F', '/'], ['\\t', '\t'], ["\\'", "'"], ['\\"', '"'], ['#', '#'], ['{', '{'], [';', ';'], ['\\x22', '"'], ['=>', '=>'], ['12', '12'], ['-', '-']])
    odd = st.sampled_from([['\\d', '\\d'], ['\\.', '\\.'], ['\\ ', '\\ ']])
    string = st.one_of(st.tuples(st.just('str'), st.sampled_from(['"', "'"]), st.lists(st.one_of(piece, piece, piece, odd), max_size=4)), st.tuples(st.just('str'), st.sampled_from(['e"', "e'"]), st.lists(piece, max_size=4)))
    lit = st.sampled_from([['lit', 'true'], ['lit', 'false'], ['lit', 'none'], ['lit', 'default']])
    var = st.sampled_from(NAMES).map(lambda n: ['var', n])
    leaf = st.one_of(dec, dec, octl, hexa, string, string, lit, var, var, var).map(list)

    def ext(x):
        un = st.one_of(leaf, st.tuples(st.just('par'), x).map(list), st.tuples(st.just('neg'), leaf).map(list), st.tuples(st.just('not'), leaf).map(list), st.tuples(st.just('cast'), st.sampled_from(['int', 'string']), leaf).map(list),
                       st.tuples(st.just('list'), st.sampled_from(['[]', '[,]']), st.lists(x, max_size=3)).map(list), st.tuples(st.just('list'), st.just('()'), st.lists(x, min_size=2, max_size=3)).map(list),
                       st.tuples(st.just('kv'), st.lists(st.tuples(leaf, x).map(list), min_size=1, max_size=2)).map(list))
        return st.one_of(un, st.tuples(st.just('chain'), un, st.lists(st.tuples(st.sampled_from(['+', '-', '*', '/', '+', '*']), un).map(list), min_size=1, max_size=4)).map(list))
    numchain = st.tuples(st.just('chain'), dec.map(list), st.lists(st.tuples(st.sampled_from('+-*/'), st.one_of(dec.map(list), hexa.map(list), st.integers(1, 20).map(lambda n: ['int', False, 'd', str(n), '']))).map(list), min_size=1, max_size=5)).map(list)
    small = st.integers(1, 50).map(lambda n: ['int', n % 3 == 0, 'd', str(n), ''])
    sub = st.tuples(st.just('chain'), small, st.lists(st.tuples(st.sampled_from('+-*/'), small).map(list), min_size=1, max_size=3)).map(list)
    smallchain = st.tuples(st.just('chain'), small, st.lists(st.tuples(st.sampled_from('+-*/'), st.one_of(small, small, sub.map(lambda c: ['par', c]), st.sampled_from(NAMES).map(lambda n: ['var', n]))).map(list), min_size=1, max_size=5)).map(list)
    return st.one_of(leaf, smallchain, smallchain, numchain, ext(leaf), ext(ext(leaf)))


def rx(e):
    k = e[0]
    if k == 'int':
        return ('-' if e[1] else '') + e[3] + e[4]
    if k == 'str':
        return e[1] + ''.join(p[0] for p in e[2]) + e[1][-1]
    if k == 'lit' or k == 'var':
        return e[1]
    if k == 'list':
        inner = ', '.join(rx(x) for x in e[2])
        if e[1] == '()':
            return '(' + inner + ')'
        return '[' + inner + (',' if e[1] == '[,]' and e[2] else '') + ']'
    if k == 'kv':
        return '[' + ', '.join('%s => %s' % (rx(a), rx(b)) for a, b in e[1]) + ']'
    if k == 'par':
        return '(' + rx(e[1]) + ')'
    if k == 'neg':
        return '- ' + rx(e[1])
    if k == 'not':
        return '! ' + rx(e[1])
    if k == 'cast':
        return 'cast(%s) ' % e[1] + rx(e[2])
    return rx(e[1]) + ''.join(' %s %s' % (op, rx(x)) for op, x in e[2])


class Values(Sub):
    NAME = 'values'
    N_QUICK = 400
    N_THOROUGH = 20000
    SECS_QUICK = 40
    RECYCLE = 10 ** 9

    def strategy(self):
        e = exprs()
        setv = st.tuples(st.just('set'), st.sampled_from(['', '', '', 'local', 'global']), st.sampled_from(NAMES), e).map(list)
        # arithmetic on known variables is what matters most
        safe = st.tuples(st.just('set'), st.sampled_from(['', '', 'local', 'global']), st.sampled_from(NAMES), st.one_of(st.integers(0, 99).map(lambda n: ['int', False, 'd' if n else 'o', str(n), '']), st.just(['str', '"', [['a', 'a']]]))).map(list)
        prn = st.tuples(st.just('print'), st.integers(0, 10 ** 6).map(lambda n: 'm%d' % n), st.one_of(e, st.sampled_from(NAMES).map(lambda n: ['var', n]))).map(list)

        def ext(b):
            return st.one_of(safe, safe, setv, prn, prn, prn, st.tuples(st.just('block'), st.sampled_from(['blk', 'blk2', 'a']), b).map(list), st.tuples(st.just('if'), b, st.one_of(st.none(), b)).map(list),
                             st.tuples(st.just('include'), b).map(list), st.tuples(st.just('call'), st.sampled_from(['blk', 'blk2'])).map(list),
                             st.tuples(st.just('setup'), st.lists(st.one_of(safe, prn), max_size=2)).map(list))
        b0 = st.lists(st.one_of(safe, prn), max_size=3)
        b1 = st.lists(ext(b0), max_size=4)
        init = st.lists(safe, min_size=2, max_size=5)
        return st.tuples(init, st.lists(ext(b1), min_size=1, max_size=7)).map(lambda t: t[0] + t[1])

    def text(self, stmts, ind, files, in_setup=False):
        out = []
        for s in stmts:
            k = s[0]
            if k == 'set':
                out.append('%s%s = %s;' % (s[1] + ' ' if s[1] and not in_setup else '', s[2], rx(s[3])))
            elif k == 'print':
                out.append('__print "%s", %s;' % (s[1], rx(s[2])))
            elif k == 'block':
                out.append('%s = {\n%s};' % (s[1], self.text(s[2], ind, files)))
            elif k == 'if':
                out.append('if req.path == "/x" {\n%s}' % self.text(s[1], ind, files) + (' else {\n%s}' % self.text(s[2], ind, files) if s[2] is not None else ''))
            elif k == 'include':
                n = 'inc%d.conf' % len(files)
                files[n] = None
                files[n] = self.text(s[1], ind, files)
                out.append('include "%s/%s";' % (self.scratch, n))
            elif k == 'setup':
                out.append('setup {\n%s}' % self.text(s[1], ind, files, True))
            elif k == 'call':
                out.append(s[1] + ';')
        return '\n'.join(out) + '\n'

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)

    def teardown(self):
        pass

    def run(self, case, rec):
        # in a setup block there are only plain assignments
        def strip(l, ins=False):
            r = []
            for s in l:
                s = list(s)
                if s[0] == 'set' and ins:
                    s[1] = ''
                if s[0] in ('block',):
                    s[2] = strip(s[2])
                if s[0] == 'if':
                    s[1] = strip(s[1])
                    s[2] = strip(s[2]) if s[2] is not None else None
                if s[0] == 'include':
                    s[1] = strip(s[1])
                if s[0] == 'setup':
                    s[1] = strip(s[1], True)
                r.append(s)
            return r
        case = strip(case)
        ev = Eval()
        ok = True
        try:
            ev.run(case)
        except Reject:
            ok = False
            rec.label('reject')
        except Either:
            ok = None
        except RecursionError:
            return
        rec.nt(ok is False or any(s[0] in ('block', 'include', 'set') for s in case))
        files = {}
        t = self.text(case, '', files)
        for n, c in files.items():
            with open(self.scratch + '/' + n, 'w', encoding='latin-1') as f:
                f.write(c)
        conf = 'setup { listen "unix:%s/s"; log [ default => "stderr" ]; }\n' % self.scratch + t
        rc, out = test_config(self.scratch, l1(conf))
        for n in files:
            os.unlink(self.scratch + '/' + n)
        if rc is None:
            raise Violation('loading the configuration does not end', timing=True)
        if rc not in (0, 1) or 'AddressSanitizer' in out:
            raise Violation('loading the configuration crashes (rc=%s): %s\n%s' % (rc, crash_summary(out), t))
        got = re.findall(r'config __print: (.*)', out)
        want = ev.out
        n = min(len(got), len(want))
        if got[:n] != want[:n] or (ok is not None and len(got) != len(want)):
            i = next((i for i in range(n) if got[i] != want[i]), n)
            raise Violation('value number %d is %s, expected %s\n%s' % (i, got[i:i + 1], want[i:i + 1], t))
        if ok is not None and (rc == 0) != ok:
            raise Violation('configuration %s, should be %s: %s\n%s' % ('accepted' if rc == 0 else 'rejected', 'accepted' if ok else 'rejected', re.findall(r'config error: (.*)', out), t))


class Angel(Sub):
    """the configuration of the angel process has the same values; it is loaded up to an unknown item at the end"""
    NAME = 'angel'
    N_QUICK = 200
    N_THOROUGH = 8000
    SECS_QUICK = 20
    RECYCLE = 10 ** 9

    def strategy(self):
        e = exprs()
        setv = st.tuples(st.just('set'), st.just(''), st.sampled_from(NAMES), e).map(list)
        prn = st.tuples(st.just('print'), st.integers(0, 10 ** 6).map(lambda n: 'm%d' % n), st.one_of(e, st.sampled_from(NAMES).map(lambda n: ['var', n]))).map(list)
        safe = st.tuples(st.just('set'), st.just(''), st.sampled_from(NAMES), st.one_of(st.integers(0, 99).map(lambda n: ['int', False, 'd' if n else 'o', str(n), '']), st.just(['str', '"', [['a', 'a']]]))).map(list)
        return st.tuples(st.lists(safe, min_size=2, max_size=4), st.lists(st.one_of(setv, prn, prn), min_size=1, max_size=8)).map(lambda t: t[0] + t[1])

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)

    def teardown(self):
        pass

    def run(self, case, rec):
        ev = Eval()
        ok = True
        try:
            ev.run(case)
        except Reject:
            ok = False
            rec.label('reject')
        except Either:
            ok = None
        rec.nt(len(ev.out) > 0)
        t = ''.join('%s = %s;\n' % (s[2], rx(s[3])) if s[0] == 'set' else '__print "%s", %s;\n' % (s[1], rx(s[2])) for s in case) + '__print "all", 1;\nverif_no_such_item;\n'
        rc, out = test_config(self.scratch, l1(t), angel=True)
        if rc is None:
            raise Violation('loading the configuration does not end', timing=True)
        if rc != 255 or 'AddressSanitizer' in out:
            raise Violation('loading the angel configuration crashes (rc=%s): %s\n%s' % (rc, crash_summary(out), t))
        got = re.findall(r'config __print: (.*)', out)
        want = ev.out + (['("all", 1)'] if ok else [])
        n = min(len(got), len(want))
        if got[:n] != want[:n] or (ok is not None and len(got) != len(want)):
            i = next((i for i in range(n) if got[i] != want[i]), n)
            raise Violation('angel: value number %d is %s, expected %s\n%s' % (i, got[i:i + 1], want[i:i + 1], t))


TREE = {'vh': 'd', 'vh/test': 'd', 'vh/a.test': 'd', 'vh/a': 'd', 'vh/b.a': 'd', 'vh/x-test': 'd', 'a': 3, 'ab': 'd', 'ab/a': 0, 'd': 'd', 'd/f1': 10, 'd/d': 'd', 'x.php': 1, 'b': 'd', 'a b': 2}
END = [['s', 'end|'], ['v', 'req.path', None, False], ['s', '|'], ['v', 'req.raw_path', None, False], ['s', '|'], ['v', 'req.query', None, False], ['s', '|'], ['v', 'req.host', None, False], ['s', '|'],
       ['v', 'req.env', 'E1', False], ['s', '|'], ['v', 'req.env', 'E2', False], ['s', '|'], ['v', 'req.env', 'e1', False], ['s', '|'], ['v', 'req.header', 'X-A', False], ['s', '|'], ['v', 'req.header', 'X-B', False], ['s', '|'],
       ['v', 'phys.path', None, False], ['s', '|'], ['v', 'phys.docroot', None, False], ['s', '|'], ['%', 0], ['s', '|'], ['v', 'req.header', 'Host', False]]


class FlowBase(Sub):
    RECYCLE = 10 ** 9
    KINDS = None
    MODULES = 'setup { module_load ["mod_rewrite", "mod_redirect"]; listen "unix:%SOCK%"; }\nserver.tag "t";\n'

    def strategy(self):
        return st.fixed_dictionaries({'async': st.booleans(), 'prog': cm.programs(kinds=self.KINDS), 'rq': st.lists(cm.requests(), min_size=4, max_size=8)})

    def setup(self):
        os.makedirs(self.scratch, exist_ok=True)
        root = self.scratch + '/www'
        os.makedirs(root, exist_ok=True)
        for p, v in sorted(TREE.items()):
            if v == 'd':
                os.makedirs(root + '/' + p, exist_ok=True)
            else:
                with open(root + '/' + p, 'wb') as f:
                    f.write(b'z' * v)
        self.root = root

    def teardown(self):
        pass

    def run(self, case, rec):
        prog = case['prog'] + [['respond', 200, END]]
        text = self.MODULES + ('' if case['async'] else 'stat.async false;\n') + cm.render(prog)
        srv = Server(self.scratch, text)
        if not srv.start():
            srv.settle_dead(0.1)
            log = srv.log_text()
            rc = srv.proc.wait()
            srv.kill()
            if rc == 1 and 'AddressSanitizer' not in log:
                raise Violation('valid configuration is rejected: %s\n%s' % (re.findall(r'error\) (.*)', log)[-2:], text))
            raise Violation('loading a valid configuration crashes: %s\n%s' % (crash_summary(log), text))
        try:
            c = None
            for rq in case['rq']:
                try:
                    c = c or Conn(path=srv.sock, timeout=10)
                    c = self.one(srv, c, rq, prog, rec, case['async'])
                except (OSError, BrokenPipeError):
                    srv.settle_dead(0.5)
                    srv.check_alive()
                    raise Violation('connection failed')
            srv.settle_dead(0.0)
            srv.check_alive()
        except Violation as e:
            raise Violation('%s\n--- configuration:\n%s' % (e, text), timing=e.timing)
        finally:
            if c is not None:
                c.close()
            srv.kill()

    def one(self, srv, c, rq, prog, rec, async_stat):
        body = b''
        hs = [tuple(x) for x in rq['hs']]
        wire = list(hs)
        rq = dict(rq)
        if rq['m'] == 'POST':
            n = len(rq['p'])
            body = b'y' * n
            rq['len'] = n
            wire.append(('Content-Length', str(n)))
        target = rq['p'] + ('?' + rq['q'] if rq['q'] is not None else '')
        m = cm.Machine(dict(rq, hs=hs), {}, TREE, self.root, async_stat)
        known = True
        try:
            m.run(prog)
        except cm.Unknown:
            known = False
        if not target.startswith('/') or '#' in target:
            return c
        c.send(req(rq['m'], target, '1.1', wire, body, host=rq['h']))
        what = '%s %s' % (rq['m'], target)
        try:
            r = c.response(rq['m'])
        except Malformed as e:
            raise Violation('malformed response to %s: %s' % (what, e))
        except Closed:
            srv.settle_dead(0.5 if known else 0.06)
            srv.check_alive()
            if not known:
                c.close()
                return None
            raise Violation('no response to %s' % what)
        except Timeout:
            srv.check_alive()
            raise Violation('no response to %s' % what, timing=True)
        if not known:
            rec.label('unspecified')
            c.close()
            return None
        rec.nt(m.steps > 3)
        rec.label(str(m.status))
        status = m.status
        if r.status != status:
            raise Violation('%s (host %s, headers %r): status %d, expected %d' % (what, rq['h'], hs, r.status, status))
        names = {'x-a', 'x-b', 'x-ab', 'location'}
        got = [(k, v) for k, v in r.headers if k.lower() in names]
        want = [(k, v.strip(' \t')) for k, v in m.resp if k.lower() in names]
        if got != want:
            raise Violation('%s (host %s, headers %r): response headers %r, expected %r' % (what, rq['h'], hs, got, want))
        if rq['m'] != 'HEAD' and m.body is not None and not (m.body == '' and status >= 400):
            if lat(r.body) != m.body:
                raise Violation('%s (host %s, headers %r): response body %r, expected %r' % (what, rq['h'], hs, r.body[:400], m.body[:400]))
        if r.get('Connection', '').lower() == 'close':
            c.close()
            return None
        return c


class Flow(FlowBase):
    NAME = 'flow'
    N_QUICK = 450
    N_THOROUGH = 15000
    SECS_QUICK = 60


SUBS = [Values, Angel, Flow]

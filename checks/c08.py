"""C08: no configuration crashes or hangs the server: it is accepted or rejected with an error, and an accepted one serves requests."""
import os
import pwd
import re

from hypothesis import strategies as st

from lib import confmodel as cm
from lib.e2e import l1, req
from lib.http import Closed, Conn, Malformed, Timeout
from lib.runner import Sub
from lib.server import Server, Violation, crash_summary, test_config

RULE = ('items: generated configurations calling the actions, options and setups of every module with plausible and with arbitrarily shaped arguments, conditions and patterns, tested with -t and (if accepted) started and sent 3 requests; '
        'text: token- and byte-level mutations of valid configurations (deleted, duplicated, swapped, replaced tokens, truncation, arbitrary bytes) and Lua configurations; '
        'non-trivial: at least two items (items), at least one mutation (text)')

MODS = ['access', 'accesslog', 'auth', 'balance', 'cache_disk_etag', 'debug', 'deflate', 'dirlist', 'expire', 'fastcgi', 'flv', 'fortune', 'limit', 'lua', 'memcached', 'openssl', 'progress', 'proxy', 'redirect', 'rewrite', 'scgi', 'status',
        'throttle', 'userdir', 'vhost']
LOAD = 'setup { module_load [%s]; listen "unix:%%SOCK%%"; log [ default => "stderr" ]; workers 1; }\n' % ', '.join('"mod_%s"' % m for m in MODS)


def nobody():
    """switches the child to an unprivileged user: the configuration under test may name files"""
    e = pwd.getpwnam('nobody')

    def f():
        os.setgroups([])
        os.setgid(e.pw_gid)
        os.setuid(e.pw_uid)
    return f


# name -> plausible argument texts
ACT = {
    'debug.log_request_handling': ['true', 'false'], 'static.range_requests': ['true', 'false'], 'keepalive.timeout': ['5', '0', '1 sec', '10'], 'keepalive.requests': ['0', '1', '5'], 'etag.use': ['["inode", "mtime", "size"]', '["size", "mtime"]', '[[]]'],
    'stat.async': ['true', 'false'], 'buffer_request_body': ['true', 'false'], 'strict.post_content_length': ['true', 'false'], 'static.exclude_extensions': ['[".php", ".x"]', '[".a", ".b"]'],
    'server.name': ['"x"', '""'], 'server.tag': ['"x"', '""'], 'mime_types': ['[".txt" => "text/plain", ".html" => "text/html", "" => "x/y"]', '[".a" => "b", ".x.a" => "c"]'],
    'list': ['[{ }, { respond; }]', '{ }', '[]'], 'docroot': ['"%DIR%/www"', '["%DIR%/x", "%DIR%/www"]', '"%DIR%/$1/$[2-]"', '"%DIR%/%1"', '[]'], 'alias': ['"/a" => "%DIR%/www"', '["/a" => "%DIR%/www", "/b/" => "%DIR%/$0"]'],
    'index': ['["index.html", "x"]', '"a"', '["/abs", "a"]'], 'static': [''], 'static_no_fail': [''], 'pathinfo': [''], 'set_status': ['404', '200', '1000', '99'],
    'log': ['["debug" => "", default => "stderr"]', '["*" => "stderr"]', '["error" => "file:%DIR%/log1"]'], 'log.write': ['"x %{req.path}"', '"a", "b"', '"warning" => "m"'],
    'respond': ['', '200', '404 => "x"', '200 => "%{req.header[X-A]}"', '200 => "%{resp.header[X-A]} %{resp.status}"', '199', '1000 => "x"'],
    'env.set': ['"a" => "b"', '"a" => "%{req.env[a]}"'], 'env.add': ['"a" => "%1"'], 'env.remove': ['"a"'], 'env.clear': [''],
    'header.add': ['"X" => "a"', '"X" => "%{req.query}"', '"" => "x"'], 'header.append': ['"X" => "a"'], 'header.overwrite': ['"Content-Length" => "5"', '"Connection" => "x"', '"X" => "\\n"'], 'header.remove': ['"X"', '"Content-Type"'],
    'req_header.add': ['"X" => "a"', '"Host" => "%{req.host}"'], 'req_header.append': ['"X-A" => "a"'], 'req_header.overwrite': ['"X-A" => "b"'], 'req_header.remove': ['"X-A"', '"Host"'],
    'io.buffer_out': ['16kbyte', '64kbyte', '1mbyte', '0'], 'io.buffer_in': ['16kbyte', '1mbyte', '0'], 'map': ['"%{req.path}" => [ "/a" => { respond; }, default => { set_status 404; } ]', '"%1" => [ ["/a", "/b"] => { }, "x" => { respond 200 => "x"; } ]', '"a" => []'],
    'when': ['1, { }'],
    'access.log_blocked': ['true'], 'access.redirect_url': ['"http://x/%1"'], 'access.check': ['["allow" => ["127.0.0.0/8", "all"], "deny" => ["10.0.0.0/8"]]', '["deny" => ["all"]]', '["allow" => ["unix", "::1"]]'], 'access.deny': [''],
    'accesslog': ['"file:%DIR%/acc.log"', '"stderr"', '""'], 'accesslog.format': ['"%h %V %u %t \\"%r\\" %>s %b %{X-A}i %{Y}o %{e}e"', '"%%"', '"%{"', '"%"', '"%q"'],
    'auth.plain': ['["method" => "basic", "realm" => "r", "file" => "%DIR%/users"]', '["method" => "digest", "realm" => "r", "file" => "%DIR%/users"]', '["realm" => "r"]'], 'auth.htpasswd': ['["method" => "basic", "realm" => "r", "file" => "%DIR%/users", "ttl" => 5]'],
    'auth.htdigest': ['["method" => "basic", "realm" => "r", "file" => "%DIR%/none"]', '["method" => "basic", "realm" => "r", "file" => "%DIR%/users"]'], 'auth.deny': [''], 'auth.debug': ['true'],
    'balance.rr': ['{ proxy "unix:%DIR%/nope"; }', '[{ respond; }, { set_status 404; }]', '[]', '{ }'], 'balance.sqf': ['[{ proxy "127.0.0.1:1"; }, { respond; }]', '{ fastcgi "unix:%DIR%/nope"; }'],
    'cache.disk.etag': ['"%DIR%/cache"', '""'], 'debug.show_connections': [''], 'debug.show_events': [''], 'debug.profiler_dump': [''], 'debug.show_events_after_shutdown': ['1'],
    'deflate': ['', '["encodings" => "deflate,gzip", "blocksize" => 4096, "output-buffer" => 4096, "compression-level" => 9]', '["compression-level" => 1]', '["encodings" => "bzip2"]', '["blocksize" => 0]', '["output-buffer" => 0]'], 'deflate.debug': ['true'],
    'dirlist': ['', '["sort" => "size", "css" => "x", "hide-dotfiles" => true, "hide-tildefiles" => true, "hide-directories" => false, "include-header" => true, "hide-header" => false, "include-readme" => true, "hide-readme" => false, "encode-readme" => true, "exclude-suffix" => ["a"], "exclude-prefix" => ["."], "debug" => false, "content-type" => "text/html"]', '["sort" => "x"]', '["include-sort" => true]', '["exclude-suffix" => []]'],
    'expire': ['"access 1 week"', '"modification plus 1 day 2 hours"', '"now"', '"access 1"', '"x"', '"access plus 99999999999999 years"'], 'fastcgi': ['"unix:%DIR%/nope"', '"127.0.0.1:1"', '"127.0.0.1"', '""'], 'fastcgi.log_plain_errors': ['true'],
    'flv': [''], 'fortune.header': [''], 'fortune.page': [''],
    'limit.con': ['1', '10 => { respond 200 => "x"; }', '0', '-1'], 'limit.con_ip': ['1', '2 => { }'], 'limit.req': ['1', '5 => { }', '0'], 'limit.req_ip': ['1', '5'],
    'lua.handler': ['"%DIR%/h.lua"', '"%DIR%/none.lua"', '"%DIR%/h.lua", ["ttl" => 1], [1, 2]', '"%DIR%/bad.lua"'],
    'memcached.lookup': ['["server" => "127.0.0.1:1", "key" => "%{req.path}"], { header.add "X" => "hit"; }, { header.add "X" => "miss"; }', '["server" => "127.0.0.1:1"]', '[]', ''], 'memcached.store': ['["server" => "127.0.0.1:1", "flags" => 1, "ttl" => 5, "maxsize" => 10, "headers" => true]', '["ttl" => -1]', ''],
    'openssl.setenv': ['["client", "server"]', '"client"', '["x"]'],
    'progress.track': [''], 'progress.show': ['', '"json"', '"jsonp"', '"legacy"', '"x"'], 'progress.debug': ['true'], 'progress.methods': ['["GET", "POST"]', '["X"]'],
    'proxy': ['"127.0.0.1:1"', '"unix:%DIR%/nope"', '"x"', '"[::1]:1"'], 'scgi': ['"127.0.0.1:1"', '"unix:%DIR%/nope"'],
    'redirect': ['"/x"', '"^/a(.*)" => "/b$1"', '["^/(" => "/x"]', '"http://%{req.host}/?%{req.query}"', '["a" => "b", "c" => "?d"]'], 'redirect.debug': ['true'], 'rewrite.debug': ['true'],
    'rewrite': ['"/x"', '"^/a(.*)" => "/b$1?x=%{req.query}"', '["^/(" => "/x"]', '["a" => "/b", "c" => "d"]', '"^/" => "$[9-0]"', '"a" => "/%{req.header}"'], 'rewrite_raw': ['"/x"', '"^/a(.*)" => "/b$1"', '"a" => "%zz"'],
    'status.info': ['', '"text"', '"full"', '["x"]'], 'status.css': ['"x"', '"blue"'],
    'io.throttle': ['100kbyte', '0', '100kbyte => 20kbyte', '5byte'], 'io.throttle_pool': ['1mbyte', '100kbyte, 20kbyte', '0'], 'io.throttle_ip': ['100kbyte', '["rate" => 100kbyte, "masklen_ipv4" => 24, "masklen_ipv6" => 64]', '["rate" => 1mbyte, "masklen_ipv4" => 33]'],
    'userdir': ['"public_html"', '"/home/$1/$0/*"', '"%DIR%/*/x"', '""', '"%DIR%/$9"'], 'vhost.map': ['["a.test" => { respond; }, default => { set_status 404; }]', '["a" => 1]', '[]'], 'vhost.map_regex': ['["^a" => { respond; }, default => { }]', '["(" => { }]', '["a" => 1]', '[]'], 'vhost.debug': ['true'],
    '__print': ['', '1', '{ }, 1'],
}
SETUP = {
    'io.timeout': ['300', '1', '0', '-1'], 'stat_cache.ttl': ['10 sec', '0', '1'], 'tasklet_pool.threads': ['1', '0', '2'], 'log.timestamp': ['"%H:%M"', '""', '"%"'], 'log': ['[ default => "stderr" ]', '[ "debug" => "", default => "stderr" ]', '["foo" => "stderr"]'],
    'fetch.files_static': ['"ff" => "%DIR%/*"', '"f" => "%DIR%/www/*.x"', '"f" => "x"'], 'workers': ['1', '0', '2'], 'workers.cpu_affinity': ['[0]', '[[0], [0]]', '["a"]', '0'], 'module_load': ['"mod_rewrite"', '["mod_nope"]', '["core", "mod_auth"]', '[]'],
    'listen': ['"unix:%DIR%/l2"', '"127.0.0.1:99999"', '"999.1.1.1"', '"[::1"', '""', '"127.0.0.1:0"'], 'fortune.load': ['"%DIR%/users"', '"%DIR%/none"'], 'progress.ttl': ['30', '0', '-1'], 'lua.plugin': ['"%DIR%/p.lua"', '"%DIR%/none"', '"%DIR%/bad.lua", [], []'],
    'openssl': ['["listen" => "127.0.0.1:0", "pemfile" => "%DIR%/none"]', '["listen" => 1]', '[]', '["listen" => "127.0.0.1:0", "pemfile" => "%DIR%/users", "options" => ["ALL", "X"], "verify" => true]'],
    'debug.show_events_after_shutdown': ['1'], '__print': ['', '"x"'], 'static.range_requests': ['true', '1'], 'server.tag': ['"x"', '1'], 'mime_types': ['[]', '[1]'], 'keepalive.timeout': ['-1', '3'],
}
COND = ['req.path == "/a"', 'req.path =~ "^/(.)"', 'req.path !~ "x"', 'req.path =~ "("', 'req.remoteip =/ "127.0.0.0/8"', 'req.remoteip =/ "x"', 'req.remoteip == "127.0.0.1"', 'req.localip !/ "::1/64"', 'req.path =/ "10.0.0.0/8"', 'req.path > 5', 'req.length > 5', 'req.header["X-A"] =^ "a"',
        'req.header["X-A"] > 1', 'req.env["a"] =$ "b"', 'req.is_handled', '!req.is_handled', 'phys.exists', 'phys.size < 100', 'phys.path =~ "x"', 'resp.status == 200', 'resp.header["X"] == "a"', 'req.path == 5', 'req.path =^ 5', 'phys.size == "3"', 'req.scheme == "http"', 'req.host != ""', 'req.foo == 1',
        'req.remoteport > 1', 'req.localport', 'phys.docroot == "x"', 'phys.pathinfo =~ "^/"', 'req.method == "GET" and (req.query == "" or not req.is_handled)', 'req.path > "a"', 'req.remoteip > 5', 'req.header == "a"', 'req.header["a" == "b"', 'true', '1 == 1', 'phys.is_dir and', '()']


def vals():
    atom = st.one_of(st.sampled_from(['1', '0', '-1', '100', '9223372036854775807', '16kbyte', 'true', 'false', 'none', 'default', '""', '"a"', '"/"', '"%1"', '"$1"', '"%{req.path}"', '"%{req.header}"', '"%{enc:req.env[x]}"', '"%{"', '"%"', '"\\\\"', '"$[1-"', '"$[3-1]"', '"%[-]"',
                                     '"("', '"^/(a)"', '"unix:%DIR%/nope"', '"127.0.0.1:1"', '"127.0.0.1/8"', '"all"', '"%DIR%/www"', '{ }', '{ respond 200 => "x"; }', '{ set_status 404; }', '"x" + "y"', '1 + 1', '"GET"', '"stderr"', '"rate"', '"server"', '"method"', '"sort"', '"\\x00"', '"a\\x00b"', "'\\xff'", '2147483648', '4294967296']),
                     st.sampled_from(['"' + 'a' * 300 + '"']))
    lst = lambda v: st.lists(v, max_size=3).map(lambda l: '[' + ', '.join(l) + ']')
    kv = lambda v: st.lists(st.tuples(atom, v), min_size=1, max_size=3).map(lambda l: '[' + ', '.join('%s => %s' % t for t in l) + ']')
    v1 = st.one_of(atom, atom, lst(atom), kv(atom))
    v2 = st.one_of(v1, lst(v1), kv(v1))
    return st.one_of(st.just(''), v1, v2, st.tuples(v1, v1).map(', '.join), st.tuples(atom, v2).map(' => '.join), st.tuples(atom, atom, v1).map(', '.join))


REQS = [b'GET / HTTP/1.1\r\nHost: a.test\r\nX-A: a\r\n\r\n', b'GET /a/x.php?b=1 HTTP/1.1\r\nHost: a.b.test:80\r\nAccept-Encoding: gzip\r\nX-A: 1\r\n\r\n', b'POST /a HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc', b'HEAD /www/ HTTP/1.1\r\nHost: a\r\nAuthorization: Basic YTpi\r\n\r\n',
        b'GET /ab/../a%20b/?start=5&X-Progress-ID=0123456789abcdef0123456789abcdef HTTP/1.1\r\nHost: b.a.test\r\nConnection: close\r\n\r\n', b'GET /~user/x HTTP/1.0\r\n\r\n', b'GET /d/f?mode=runtime HTTP/1.1\r\nHost: a\r\nIf-None-Match: "x"\r\nRange: bytes=0-1\r\n\r\n']


class Base(Sub):
    RECYCLE = 10 ** 9

    def setup(self):
        d = self.scratch
        os.makedirs(d + '/www/a', exist_ok=True)
        os.makedirs(d + '/cache', exist_ok=True)
        for n, c in (('www/a/x.php', 'x' * 10), ('www/index.html', 'index'), ('users', 'a:b\nu:r:0123456789abcdef0123456789abcdef\n'), ('h.lua', 'local f = function(vr) return nil end\nreturn action.respond({200, "x"}) or action.list({})\n'), ('bad.lua', 'x = = ='), ('p.lua', 'local filename, args = ...\nactions = {}\n')):
            with open(d + '/' + n, 'w') as f:
                f.write(c)
        for p in (d, d + '/cache', d + '/www'):
            os.chmod(p, 0o777)
        # the parents of the scratch directory must be reachable
        p = os.path.dirname(d)
        while p.startswith('/tmp/'):
            os.chmod(p, 0o711)
            p = os.path.dirname(p)
        self.pre = nobody()
        rc, out = self.test('setup { listen "unix:%SOCK%"; }')
        if rc is None or rc not in (0, 1) or 'rror' in out:
            self.pre = None

    def teardown(self):
        pass

    def test(self, text, lua=False):
        try:
            return test_config(self.scratch, l1(text.replace('%DIR%', self.scratch).replace('%SOCK%', self.scratch + '/t.sock')), lua=lua, preexec=self.pre)
        except (PermissionError, OSError):
            if self.pre is None:
                raise
            return -1, 'Error'

    def judge(self, text, rc, out):
        if rc is None:
            raise Violation('loading the configuration does not end:\n%s' % text, timing=True)
        if rc not in (0, 1) or 'AddressSanitizer' in out or 'LeakSanitizer' in out or 'runtime error' in out:
            raise Violation('loading the configuration crashes (rc=%s): %s\n%s' % (rc, crash_summary(out), text))
        return rc == 0


class Items(Base):
    NAME = 'items'
    N_QUICK = 250
    N_THOROUGH = 12000
    SECS_QUICK = 60

    def strategy(self):
        v = vals()
        names = sorted(ACT)
        snames = sorted(SETUP)

        def call(tab):
            return st.sampled_from(sorted(tab)).flatmap(lambda n: st.tuples(st.just(n), st.one_of(st.sampled_from(tab[n]), st.sampled_from(tab[n]), v)))
        act = call(ACT).map(lambda t: ['act'] + list(t))
        good = st.sampled_from([(n, a) for n in names for a in ACT[n][:2]]).map(lambda t: ['act'] + list(t))
        setup = call(SETUP).map(lambda t: ['setup'] + list(t))
        cond = st.sampled_from(COND)
        inner = st.lists(st.one_of(act, good, good), max_size=2)
        iff = st.tuples(st.just('if'), cond, inner, st.one_of(st.none(), inner)).map(list)
        return st.fixed_dictionaries({'items': st.lists(st.one_of(good, good, good, act, iff, iff, setup), min_size=1, max_size=5), 'rq': st.lists(st.integers(0, len(REQS) - 1), min_size=3, max_size=3)})

    def text(self, items):
        out = ''
        for i in items:
            if i[0] == 'act':
                out += '%s %s;\n' % (i[1], i[2]) if i[2] else i[1] + ';\n'
            elif i[0] == 'setup':
                out += 'setup { %s %s; }\n' % (i[1], i[2])
            else:
                out += 'if %s {\n%s}' % (i[1], self.text(i[2])) + (' else {\n%s}' % self.text(i[3]) if i[3] is not None else '') + '\n'
        return out

    def run(self, case, rec):
        t = LOAD + self.text(case['items'])
        rec.nt(len(case['items']) >= 2)
        rc, out = self.test(t)
        if not self.judge(t, rc, out):
            rec.label('rejected')
            return
        if any(i[0] == 'setup' and i[1] in ('listen', 'workers', 'workers.cpu_affinity', 'openssl', 'lua.plugin', 'io.timeout', 'tasklet_pool.threads') for i in case['items']):
            return
        rec.label('served')
        srv = Server(self.scratch, t, preexec=self.pre)
        if not srv.start():
            srv.settle_dead(0.1)
            log = srv.log_text()
            rc = srv.proc.wait()
            srv.kill()
            if rc == 1 and 'AddressSanitizer' not in log:
                return
            raise Violation('starting with the configuration crashes (rc=%s): %s\n%s' % (rc, crash_summary(log), t))
        try:
            for n in case['rq']:
                raw = REQS[n]
                c = None
                try:
                    c = Conn(path=srv.sock, timeout=1 if 'throttle' in t else 8)
                    c.send(raw)
                    c.response(raw.split(b' ')[0].decode())
                except Malformed as e:
                    if 'header.' not in t and '\\x00' not in t:
                        raise Violation('malformed response: %s\n%s' % (e, t))
                except Closed:
                    srv.settle_dead(0.06)
                except Timeout:
                    if 'throttle' not in t:
                        srv.check_alive()
                        raise Violation('no answer to request %d:\n%s' % (n, t), timing=True)
                except OSError:
                    srv.settle_dead(0.3)
                finally:
                    if c is not None:
                        c.close()
            srv.settle_dead(0.02)
            try:
                srv.check_alive()
            except Violation as e:
                raise Violation('%s\n%s' % (e, t))
            if not srv.stop():
                pass
        finally:
            srv.kill()
            for n in ('l2', 'acc.log', 'log1'):
                try:
                    os.unlink(self.scratch + '/' + n)
                except OSError:
                    pass


GOOD = ['''setup {
  module_load ["mod_rewrite", "mod_vhost", "mod_dirlist", "mod_accesslog", "mod_auth", "mod_expire", "mod_limit", "mod_balance", "mod_proxy"];
  listen "unix:%SOCK%"; # comment
  io.timeout 120;
  workers 2;
  log [ "debug" => "", default => "stderr" ];
  accesslog "file:%DIR%/a.log";
}
a = 5 * (3 + 2) - 4 / 2; b = "x" + 'y\\x41\\n' + e"z"; c = [1, 2, [3, "v"], none, true]; k = [ "k" => [3, "v"] ];
local d = -7kbyte; global g = cast(string) 5; h = cast(int) "12" + 3;
blk = { header.add "X" => "1"; if req.path =~ "^/(.*)\\\\.php$" { rewrite "/%1"; } };
if req.path == "/a" or (req.header["X"] !~ "b|c" and not phys.is_file) { blk; } else if req.remoteip =/ "10.0.0.0/8" { set_status 403; } else { docroot ["%DIR%/www", "%DIR%/$[2-]"]; }
vhost.map [ "a.test" => blk, default => { respond 200 => "x%{req.path}%[1-3]"; } ];
map "%{enc:req.host}" => [ ["a", "b"] => { }, default => blk ];
limit.con 5 => { respond; };
balance.rr [ { proxy "127.0.0.1:1"; }, { proxy "unix:%DIR%/x"; } ];
expire "access plus 2 hours 3 minutes"; dirlist [ "sort" => "name", "exclude-suffix" => ["~"] ];
''', '''setup { listen "unix:%SOCK%"; }
a = 1; include "%DIR%/inc.conf";
__print a, 0x1f + 017 * 2, [ "x" => 1, "y" => [ "z" => { static; } ] ], 3mbyte, 5hours, 9223372036854775807, not true, -(5);
list [ { env.set "A" => "b"; }, { index ["a", "b"]; static; } ];
if resp.status >= 400 and resp.header["X"] =^ "a" { respond 200 => '\\x00'; }
''']
ANGEL = ['''instance { "x"; }\na = 5 * 3 + cast(int) "7"; b = [ "a" => [1, 2], "c" => e"x" ];\n__print a, b, -5, 3kbyte, not true;\nuser "nobody";\ninstance "lighttpd2-worker"; allow_listen [ "127.0.0.0/8", "unix:/x" ]; max_open_files 100; env ["A" => "B"]; copy_env ["PATH"]; wrapper ["a", "b"]; max_core_file_size 0; modules_path "x"; binary "y"; config "z"; luaconfig "q";\n''']
LUA = ['''setup.listen("unix:%SOCK%")
setup.module_load({"mod_rewrite", "mod_vhost"})
setup.log({error = "stderr"})
local a = action.respond(200, "x")
local b = action.when(request.path:eq("/a"), a, action.set_status(404))
local c = action.list({action.header.add({"X", "y"}), b, action.when(request.header["X"]:match("b"), a)})
action.docroot("%DIR%/www")
actions = { c, action.static(), function (vr) vr.resp.status = 200 end, action.rewrite({{"^/(.*)", "/x$1"}}), action.when(request.is_handled:is(), a) }
''']
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_][\w.]*|\d\w*|=>|==|=~|!~|=\^|=/|\s+|.', re.S)
EXTRA = ['{', '}', '[', ']', '(', ')', ';', ',', '=>', '==', '=~', '!', '-', '+', '*', '/', '"', "'", 'if', 'else', 'and', 'or', 'not', 'setup', 'local', 'global', 'include', 'none', 'default', 'cast(int)', 'cast(string)', 'cast', '"a"', '1', '0', '0x', '9999999999999999999999', '"\\x', '"\\', 'e"\\d"', '#', '=', '$', '%', '\0', '\xff', '\r', '\n', ' ',
         'req.path', 'req.header["X"]', 'req.header', 'true', 'static', 'respond', 'docroot', 'map', 'list', 'blk', 'a', 'sys.pid', 'sys.env.HOME', 'sys.env.NOPE_', 'sys.x', '"%{req.header}"', '"("', '"%"', '"\\\\"', '{ }', '[]', '()', 'include_shell', 'include_lua', '-5', '"%DIR%/inc.conf"', 'function', 'end', 'nil', ':', '.', 'action', 'request', '..', '{1,{}}', 'setup.listen(5)', 'vr', 'local x =', 'return']


class Text(Base):
    NAME = 'text'
    N_QUICK = 400
    N_THOROUGH = 20000
    SECS_QUICK = 45

    def strategy(self):
        pos = st.integers(0, 10 ** 6)
        mut = st.one_of(st.tuples(st.just('del'), pos, st.integers(1, 3)), st.tuples(st.just('dup'), pos, st.integers(1, 4)), st.tuples(st.just('swap'), pos, pos), st.tuples(st.just('ins'), pos, st.sampled_from(EXTRA)), st.tuples(st.just('rep'), pos, st.sampled_from(EXTRA)), st.tuples(st.just('rep'), pos, st.sampled_from(EXTRA)),
                        st.tuples(st.just('cut'), pos, st.integers(0, 3)), st.tuples(st.just('byte'), pos, st.integers(0, 255)), st.tuples(st.just('mov'), pos, pos)).map(list)
        return st.fixed_dictionaries({'kind': st.sampled_from(['conf', 'conf', 'conf', 'angel', 'lua']), 'n': st.integers(0, 1), 'muts': st.lists(mut, min_size=0, max_size=5)})

    def run(self, case, rec):
        src = {'conf': GOOD, 'angel': ANGEL, 'lua': LUA}[case['kind']]
        toks = TOK.findall(src[case['n'] % len(src)])
        for op, p, x in case['muts']:
            if not toks:
                break
            i = p % len(toks)
            if op == 'del':
                del toks[i:i + x]
            elif op == 'dup':
                toks[i:i] = toks[i:i + x]
            elif op == 'swap':
                j = x % len(toks)
                toks[i], toks[j] = toks[j], toks[i]
            elif op == 'mov':
                t = toks.pop(i)
                toks.insert(x % (len(toks) + 1), t)
            elif op == 'ins':
                toks.insert(i, x)
            elif op == 'rep':
                toks[i] = x
            elif op == 'byte':
                t = toks[i]
                k = p % len(t) if t else 0
                toks[i] = t[:k] + chr(x) + t[k + 1:]
            else:
                toks = toks[:i] + ([toks[i][:x]] if x else [])
        t = ''.join(toks)
        # nothing is executed or read from outside: shell includes only ever see this fixed command
        t = re.sub(r'include_shell\s*("[^"]*"|\'[^\']*\')', 'include_shell "echo __print 5;"', t)
        if 'include_shell' in t and 'include_shell "echo __print 5;"' not in t:
            t = t.replace('include_shell', 'include')
        if case['kind'] == 'lua' and re.search(r'\b(io|os|require|dofile|loadfile|package)\b', t):
            return
        rec.nt(len(case['muts']) > 0)
        rec.label(case['kind'])
        with open(self.scratch + '/inc.conf', 'w') as f:
            f.write('x = 1; __print x;\nif req.path == "/" { static; }\n')
        if case['kind'] == 'angel':
            rc, out = test_config(self.scratch, l1(t.replace('%DIR%', self.scratch) + '\n;verif_no_such_item;\n'), angel=True, preexec=self.pre)
            if rc == 255:
                rc = 1
        else:
            rc, out = self.test(t, lua=case['kind'] == 'lua')
        ok = self.judge(t, rc, out)
        rec.label('accepted' if ok else 'rejected')
        if not ok and not re.search(r'error|Error|fail', out):
            raise Violation('configuration rejected without an error message:\n%s' % t)
        if not case['muts'] and case['kind'] == 'conf' and not ok:
            raise Violation('valid configuration rejected: %s' % out[-300:])



def luavals():
    atom = st.one_of(st.sampled_from(['1', '0', '-1', '2.5', '1e18', 'true', 'false', 'nil', '""', '"a"', '"/"', '"%1"', '"%{req.path}"', '"^/(a)"', '"unix:%DIR%/nope"', '"127.0.0.1:1"', '"all"', '"%DIR%/www"', '"%DIR%/users"', '"stderr"', '"x"', '"\\0y"',
                                      'action.respond(200)', 'action.list({})', 'request.path', 'request.path:eq("/a")', 'print', 'setup', 'action', '"method"', '"basic"', '"realm"']))

    def table(v):
        key = st.one_of(st.sampled_from(['', '', '', '', '[1] = ', '[2] = ', '[3] = ', '[7] = ', '[0] = ', '[-1] = ', '[1.5] = ', '[true] = ', 'a = ', 'method = ', 'realm = ', 'file = ', 'allow = ', '["default"] = ', '["X"] = ', 'default = ']))
        return st.lists(st.tuples(key, v).map(''.join), max_size=4).map(lambda l: '{' + ', '.join(l) + '}')
    v1 = st.one_of(atom, table(atom))
    v2 = st.one_of(v1, v1, table(v1))
    return st.lists(v2, max_size=3).map(', '.join)


class LuaCalls(Base):
    """actions, options and setups called from a Lua configuration with arbitrary values"""
    NAME = 'luacall'
    N_QUICK = 250
    N_THOROUGH = 8000
    SECS_QUICK = 30

    def strategy(self):
        # nothing that replaces the process' own log targets or waits
        call = st.one_of(st.tuples(st.just('action'), st.sampled_from(sorted(ACT)), luavals()), st.tuples(st.just('setup'), st.sampled_from(sorted(set(SETUP) - {'module_load', 'lua.plugin'})), luavals()),
                         st.tuples(st.just('when'), st.sampled_from(['path', 'host', 'is_handled', 'header["X"]', 'environment["a"]', 'length', 'remoteip', 'nosuch']), st.tuples(st.sampled_from(['eq', 'ne', 'match', 'nomatch', 'prefix', 'notprefix', 'suffix', 'notsuffix', 'ip', 'notip', 'is', 'isnot', 'lt', 'gt', 'le', 'ge', 'nosuch']), luavals()).map(lambda t: '%s(%s)' % t))).map(list)
        return st.fixed_dictionaries({'calls': st.lists(call, min_size=1, max_size=4)})

    def run(self, case, rec):
        t = 'setup.module_load({%s})\nsetup.listen("unix:%%SOCK%%")\nlocal l = {}\n' % ', '.join('"mod_%s"' % m for m in MODS)
        for kind, name, arg in case['calls']:
            if kind == 'when':
                t += 'l[#l + 1] = action.when(request.%s:%s, action.respond(200))\n' % (name, arg)
            elif kind == 'action':
                t += 'l[#l + 1] = action%s(%s)\n' % (''.join('["%s"]' % x for x in [name]), arg)
            else:
                t += 'setup["%s"](%s)\n' % (name, arg)
        t += 'actions = action.list(l)\n'
        rec.nt(any('{' in c[2] for c in case['calls']))
        rc, out = self.test(t, lua=True)
        ok = self.judge(t, rc, out)
        rec.label('accepted' if ok else 'rejected')
        if not ok and not re.search(r'error|Error|fail', out):
            raise Violation('configuration rejected without an error message:\n%s' % t)


SUBS = [Items, Text, LuaCalls]

"""The property list; tools/mkmeta.py writes properties.jsonl and MANIFEST.json from it."""

PROPS = []
NOT_APPLICABLE = []
STD = ('Exploration: the property held on every generated case, and every case that broke it was shrunk and replayed three times before being reported. '
       'Trusts the generators, the oracle in the check, Hypothesis, clang/ASAN and the kernel; says nothing about cases not generated.')


def P(id, title, statement, over, quant, why, files, mech, technique, note=''):
    assert len(title) <= 80, title
    PROPS.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()), 'over': over, 'quant': ' '.join(quant.split()),
        'why': ' '.join(why.split()), 'files': files, 'mech': mech, 'technique': technique, 'note': (note + ' ' if note else '') + STD})


P('C01', 'Parsing a request does not depend on how it is cut into packets',
  '''A request header (and the response header of an application server) is accepted exactly when it conforms to the HTTP message grammar, and yields exactly the method, target,
  version and header fields that grammar assigns to it. Delivered in one piece or in pieces cut at any positions, the same bytes lead to the same outcome, and bytes
  after the header are left untouched.''',
  ['inputs', 'schedules'], 'all byte strings as request or response headers (valid, near-valid, folded, binary), all ways of cutting them into packets',
  'Tests send requests in one piece with usual headers; an incremental parser has one resume point per byte, and the accepted language has infinitely many members.',
  ['src/main/http_request_parser.rl', 'src/main/http_response_parser.rl', 'src/main/chunk_parser.c', 'include/lighttpd/chunk_parser.h', 'src/main/connection.c'],
  [('request grammar', 'src/main/http_request_parser.rl'), ('response grammar', 'src/main/http_response_parser.rl'), ('resumable scanning', 'src/main/chunk_parser.c')],
  'property-based testing: differential against an independent grammar (regular expressions), metamorphic over segmentation, in-process under ASAN and over the wire')

P('C02', 'Persistent connections: each request gets exactly its own response',
  '''On a persistent connection every request is answered exactly once, completely, in order, with the response belonging to it, however the
  requests are pipelined or cut into network packets. Bytes of a request body are never interpreted as a request, a request with ambiguous or malformed body
  length is refused (and nothing after it is answered), and an application server behind the proxy receives exactly the request and body the client sent.
  A connection announced as closing is closed, one announced as persistent stays usable.''',
  ['inputs', 'histories', 'schedules'],
  'all sequences of requests (methods, versions, body framings, bodies up to hundreds of KB, including ambiguous framings), all pipelining and packetization of them',
  'The tests send a handful of fixed pipelines; the failure modes (request smuggling, response mix-up, stalls when buffers fill) depend on body framing, sizes, segmentation and history.',
  ['src/main/connection.c', 'src/main/request.c', 'src/main/http_request_parser.rl', 'src/main/stream.c', 'src/main/stream_simple_socket.c', 'src/main/filter_chunked.c', 'src/main/response.c'],
  [('request body framing', 'src/main/request.c: li_request_validate_header'), ('keep-alive reset', 'src/main/connection.c: li_connection_request_done'),
   ('chunkqueue limits / read resumption', 'src/main/stream.c: iostream_in_cb')],
  'property-based testing of generated request pipelines against the running server with an identity/echo oracle')

P('C03', 'Every response is a well-formed, correctly delimited HTTP message',
  '''Whatever the request method and version, status, headers and body source (generated content, files, backends with any framing), each response has exactly one unambiguous length
  (Content-Length, chunked, or end of connection), its body is complete and is the body intended, responses to HEAD and 204/304 carry no body bytes, HTTP/1.0 clients never
  receive chunked coding, and no two framing headers contradict each other.''',
  ['inputs', 'configurations'], 'all combinations of method, version, connection options, status codes, response sources, body sizes and backend framings',
  'Tests look at single responses of fixed size; framing errors appear for particular combinations of status, version, connection option and body state.',
  ['src/main/response.c', 'src/main/connection.c', 'src/main/filter_chunked.c', 'src/main/stream_http_response.c', 'src/main/virtualrequest.c'],
  [('header generation', 'src/main/response.c: li_response_send_headers'), ('end of response', 'src/main/connection.c: _connection_http_out_cb')],
  'property-based testing of generated requests and response sources against the running server with an independent strict HTTP reader')

P('C04', 'No client or backend behaviour crashes, stalls or leaks in the server',
  '''Whatever clients send (valid, malformed, truncated, oversized or binary data, in any interleaving, with resets, half closes and unread responses) and however application servers
  misbehave, the server process keeps running without memory errors, keeps answering other connections correctly, and releases every descriptor of connections that have ended.''',
  ['inputs', 'schedules', 'fault_sequences'], 'all sets of concurrent connection scripts to all handlers, all interleavings, all abort points, misbehaving backends',
  'Tests are well-behaved single clients; lifetime errors need a close or reset at a particular moment of a particular handler.',
  ['src/main/connection.c', 'src/main/virtualrequest.c', 'src/main/stream.c', 'src/main/stream_simple_socket.c', 'src/main/stream_http_response.c', 'src/main/worker.c', 'src/modules'],
  [('connection life cycle', 'src/main/connection.c: li_connection_reset'), ('header limits', 'src/main/http_request_parser.rl'), ('connection upgrade', 'src/main/connection.c: mainvr_connection_upgrade')],
  'stateful fuzzing: generated concurrent connection scripts with faults against the running server under ASAN, with liveness, isolation and descriptor oracles')

P('C05', 'Files are only served from inside the configured roots',
  '''Whatever path, host or user name a request carries (percent-encoded, doubly encoded, dot segments, backslashes, control bytes, absolute URLs), the file served is exactly the one
  the normalised URL names under the configured document root, alias, virtual host or user directory. Nothing outside these roots and nothing excluded by configuration (excluded extensions, special files)
  is ever disclosed, and a request for a file that exists and is not excluded is answered with it.''',
  ['inputs', 'configurations'], 'all request targets and hosts, for all mappings (docroot, host patterns, alias, userdir, pathinfo, index, rewrite, excluded extensions)',
  'Tests request a few ordinary paths; traversal and mapping errors need particular encodings combined with particular mappings and prefixes.',
  ['src/main/plugin_core.c', 'src/main/url_parser.rl', 'src/common/utils.c', 'src/modules/mod_userdir.c', 'src/main/stat_cache.c', 'src/main/request.c', 'src/main/pattern.c'],
  [('docroot/alias/index/pathinfo/static actions', 'src/main/plugin_core.c'), ('path normalisation', 'src/common/utils.c: li_path_simplify'), ('user directories', 'src/modules/mod_userdir.c')],
  'property-based testing: adversarial path grammar against the running server, independent path-mapping model plus secret-marker oracle')

P('C06', 'Static files: exact current content, ranges and validators',
  '''A GET of a file returns exactly its current bytes, type and modification date. A satisfiable byte range returns exactly the requested bytes (several ranges: one part each), an unsatisfiable one 416, a
  malformed one the whole file. A conditional request is answered 304 only if the client's validator matches the current file, and a validator seen before a change of the file never yields 304 or a
  partial response afterwards. HEAD gives the same header without a body.''',
  ['inputs', 'histories'], 'all histories of file changes (replacement or in place) and requests, all Range / If-Range / If-None-Match / If-Modified-Since values',
  'Tests check a few fixed ranges on unchanging files; off-by-one and stale-validator errors depend on the sizes, header syntax and history.',
  ['src/main/plugin_core.c', 'src/main/http_range_parser.rl', 'src/main/etag.c', 'src/main/mimetype.c', 'src/main/stat_cache.c', 'src/main/chunk.c'],
  [('range parser', 'src/main/http_range_parser.rl'), ('validators', 'src/main/etag.c'), ('file cache', 'src/main/stat_cache.c')],
  'model-based property testing: generated histories of file changes and conditional/range requests against an in-memory file model')

P('C09', 'Address-based access control follows longest-prefix match exactly',
  '''For every rule set of allow/deny networks and every IPv4 or IPv6 client address, access is granted exactly when the longest matching network is an allow
  rule; without any matching rule access is denied. Address and network notation is accepted or rejected exactly according to the textual syntax, and
  accepted notation denotes the address a standard parser assigns to it.''',
  ['inputs', 'configurations'], 'all rule sets (nested, overlapping, duplicate networks, IPv4 and IPv6), all addresses, all strings given as address or network',
  'The access module has one functional test with few networks; prefix trees go wrong only for particular combinations of prefixes and insertion/removal orders, which tests do not sample.',
  ['src/modules/mod_access.c', 'src/common/ip_parsers.rl', 'src/common/radix.c'],
  [('radix tree insert/lookup/remove', 'src/common/radix.c'), ('address parsing', 'src/common/ip_parsers.rl'), ('rule evaluation', 'src/modules/mod_access.c: access_check')],
  'property-based testing: model-based tree histories, differential against Python ipaddress, generated rule sets against the running server')

P('C13', 'Buffered data is neither lost, duplicated, reordered nor misaccounted',
  '''Data handed to the internal stream buffers (memory, shared buffers, files and file ranges) comes out byte for byte in order, whatever sequence of append, move,
  steal, skip, limit, read and map operations is applied. The reported lengths, byte counters and memory accounting used for flow control always equal what was really
  queued, also when reading a backing file fails.''',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of buffer operations on several queues with shared and separate limits, all data sizes, and truncated backing files',
  'The unit test performs a single fixed sequence; accounting and ordering errors appear only after particular combinations of partial moves, file chunks and limits.',
  ['src/main/chunk.c', 'include/lighttpd/chunk.h', 'src/common/buffer.c'],
  [('queue operations', 'src/main/chunk.c'), ('flow-control limit', 'src/main/chunk.c: cqlimit_update'), ('iterators', 'src/main/chunk.c: li_chunkiter_read')],
  'model-based property testing: random operation histories on the real library against a byte-string model, under ASAN')

P('C14', 'Chunked transfer coding: exact, total, independent of segmentation',
  '''Encoding any data with the chunked coding yields a well-formed stream that an independent decoder turns back into the same data, for any sizes including huge file
  ranges. Decoding accepts exactly the well-formed streams (within the documented restrictions), produces exactly the payload, leaves following bytes untouched, and gives
  the same result for every way the input is cut into pieces; malformed streams are rejected.''',
  ['inputs', 'histories'], 'all byte streams (valid, mutated, random), all segmentations, all chunk sizes including sizes above 4 GiB',
  'Unit tests decode a few fixed strings; the decoder is an incremental state machine whose behaviour must not depend on where the input is cut.',
  ['src/main/filter_chunked.c', 'include/lighttpd/filter_chunked.h'],
  [('decoder', 'src/main/filter_chunked.c: li_filter_chunked_decode'), ('encoder', 'src/main/filter_chunked.c: http_chunk_append_len')],
  'property-based testing: round-trip, segmentation-metamorphic and differential against an independent chunked codec, in-process under ASAN')

P('C15', 'Header collections are case-insensitive ordered multimaps, no injection',
  '''For every history of insert, append, overwrite, remove and lookup, the set of headers equals that of a simple case-insensitive ordered multimap, and list-valued lookups
  find exactly the comma-separated elements present. No header value, whatever bytes it is built from, can introduce a line break and thus a further header line.''',
  ['histories', 'inputs'], 'all operation histories, all header names and values (all byte values, commas, quotes, whitespace, mixed case)',
  'Only used indirectly by tests, with benign names and values; prefix/length/case confusions need specific neighbouring keys.',
  ['src/main/http_headers.c', 'include/lighttpd/http_headers.h'],
  [('header list operations', 'src/main/http_headers.c'), ('tokenizing', 'src/main/http_headers.c: li_http_header_tokenizer_next')],
  'model-based property testing of random header operation histories, in-process under ASAN')

P('C16', 'URL decoding, path normalisation and escaping are exact and safe',
  '''A request target is split and decoded exactly as specified (percent escapes, absolute URLs, authority syntax), and the normalised path is a fixpoint that never contains
  "." or ".." segments or NUL bytes and never climbs above its root. Output escaping (HTML, URI, hex, base64) round-trips and never lets through characters with special meaning,
  and a query parameter lookup returns exactly the value of that parameter.''',
  ['inputs'], 'all byte strings as targets, hosts, paths and query strings',
  'Unit tests check a dozen strings; encodings nest and combine (dot segments, escapes, truncated escapes, control bytes), which only generated inputs sample.',
  ['src/main/url_parser.rl', 'src/common/utils.c', 'src/common/encoding.c', 'src/main/request.c'],
  [('percent decoding', 'src/common/utils.c: li_url_decode'), ('dot segment removal', 'src/common/utils.c: li_path_simplify'), ('target parser', 'src/main/url_parser.rl')],
  'property-based testing: differential against independent Python implementations and invariants, in-process under ASAN')

P('C27', 'Supervisor channel: messages, calls, results and ids are exact for every history',
  '''Values serialised for the channel between supervisor and worker come back unchanged, in order, for every sequence of values, and decoding of arbitrary or truncated bytes
  fails cleanly without reading out of bounds. Request ids handed out are never in use at the same time, freed ids are reused, and the configured maximum is respected, for
  every history of allocations and releases. Over a connection every call and message arrives once, in order and unchanged, however slowly the socket takes it; every call ends exactly
  once, with its own result, with a timeout or because the connection ended (never after it was given up); file descriptors sent along arrive or are closed, and ids of answered calls can be used again.''',
  ['histories', 'inputs', 'schedules'], 'all value sequences, all byte strings as input, all allocate/force/release histories with any maximum, all histories of calls, results, messages, timeouts and closes on a connection',
  'The tests do not cover this layer; id reuse errors depend on the history of gaps, and decoder errors on truncated input.',
  ['src/common/angel_data.c', 'src/common/idlist.c', 'src/common/angel_connection.c'],
  [('codec', 'src/common/angel_data.c'), ('calls and results', 'src/common/angel_connection.c: angel_dispatch'), ('id allocation', 'src/common/idlist.c: li_idlist_get')],
  'model-based property testing of codec round-trips, id-allocation histories and call histories over real connections, in-process under ASAN')

P('C10', 'Password-protected areas open exactly for the right credentials',
  '''A resource protected by plain, htpasswd or htdigest authentication is delivered exactly when the request carries Basic credentials that match an entry of the
  configured file (for htdigest: an entry of the configured realm) under the entry's hash scheme; REMOTE_USER is then exactly that user. Everything else gets 401 with the configured challenge, never the
  content. Changes of the password file take effect after the configured ttl, and a broken file never opens the area.''',
  ['inputs', 'configurations', 'histories'], 'all Authorization values (right, wrong, foreign, truncated, extended, malformed, containing any byte), all users and hash schemes in the files, all histories of file changes',
  'The functional tests try a handful of right and wrong credentials; authentication errors hide in near-miss inputs (prefixes, NUL bytes, other realms, hash values used as passwords) and in reload histories.',
  ['src/modules/mod_auth.c', 'src/common/utils.c'],
  [('credential check', 'src/modules/mod_auth.c: auth_basic'), ('file parsing and reload', 'src/modules/mod_auth.c: auth_file_load'), ('hash schemes', 'src/modules/mod_auth.c: auth_backend_htpasswd')],
  'model-based property testing: generated credentials and password-file histories against the running server, oracle from independent hash implementations')

P('C17', 'The HTTP proxy relays requests, responses and upgrades faithfully',
  '''A request passed to an HTTP backend arrives there as exactly one well-formed request with the same method, target, end-to-end headers and body; the client receives the
  backend's status, end-to-end headers and body, correctly framed. A response that the backend breaks off is never presented to the client as complete. After an accepted
  upgrade both directions are relayed byte for byte until either side ends.''',
  ['inputs', 'histories', 'fault_sequences'], 'all requests and backend responses (framings, interim responses, statuses, repeated headers), all segmentations, all truncation points, all send/close orders of upgraded connections',
  'Functional tests relay a few complete responses; relaying errors depend on framing combinations, on packet boundaries and on when the backend fails.',
  ['src/modules/mod_proxy.c', 'src/main/stream_http_response.c', 'src/main/http_response_parser.rl', 'src/main/connection.c'],
  [('request forwarding', 'src/modules/mod_proxy.c: proxy_send_headers'), ('response parsing', 'src/main/stream_http_response.c'), ('upgrade', 'src/main/connection.c')],
  'property-based testing: generated exchanges and tunnel histories through the running server between a scripted backend and an independent client')

P('C18', 'FastCGI/SCGI applications get exactly the request and answer faithfully',
  '''A FastCGI or SCGI application receives exactly one well-formed request whose CGI variables and body correspond to the client's request (length, repeated headers
  combined, nothing the client can forge over server-set variables), and the client receives exactly the status, headers and body the application produced, independent of how it is
  cut into records, paddings and packets. A response broken off, rejected or corrupted is never presented as complete.''',
  ['inputs', 'histories', 'fault_sequences'], 'all requests, all responses, all record splits, paddings, interleaved stderr/unknown records, all ways an application ends or fails',
  'Functional tests use one FastCGI and one SCGI script each; record boundaries, padding, variable length encoding above 127 bytes and failures at arbitrary points are not sampled.',
  ['src/modules/mod_fastcgi.c', 'src/modules/mod_scgi.c', 'src/modules/fastcgi_stream.c', 'src/main/environment.c', 'src/main/stream_http_response.c'],
  [('record decoding', 'src/modules/fastcgi_stream.c'), ('CGI variables', 'src/main/environment.c'), ('netstring encoding', 'src/modules/mod_scgi.c')],
  'property-based testing: generated requests, responses, record splits and faults through the running server with a scripted application')

P('C07', 'Configuration expressions and conditions mean what the docs say',
  '''A configuration is evaluated as documented, in the worker's and in the angel's language: integers (bases, suffixes, range), strings with escapes, lists, casts and operators with their
  precedence give the documented values, assignments follow the scope rules, and on each request conditions (comparisons, prefix/suffix, regular expressions, networks, and/or/not, else chains)
  select exactly the branches they describe, with captures of the innermost matching expression available in patterns. Expressions without a value are rejected.''',
  ['inputs', 'configurations'], 'all programs of the configuration language (values, scopes, includes, action blocks, nested conditions) and all requests evaluated under them',
  'Tests run a handful of fixed snippets; a language has infinitely many programs, and precedence, sign, overflow, scope and capture errors only show for particular combinations.',
  ['src/main/config_parser.rl', 'src/angel/angel_config_parser.rl', 'src/main/condition.c', 'src/main/actions.c', 'src/main/pattern.c', 'src/main/value.c'],
  [('expressions', 'src/main/config_parser.rl: evaluate_and_push / operators'), ('conditions', 'src/main/condition.c: li_condition_check'), ('action stack and captures', 'src/main/actions.c: li_action_execute')],
  'property-based testing: generated programs, differential against an independent reference interpreter (worker, angel and per-request evaluation)')

P('C08', 'No configuration crashes the server: it is refused or it works',
  '''Whatever a configuration file (text or Lua) contains, loading it ends: it is either refused with an error message, or accepted; the server then starts and answers requests under it with
  well-formed responses without crashing, hanging or corrupting memory. Every documented action, option and setup with documented arguments is accepted.''',
  ['inputs', 'configurations'], 'all byte strings as configuration; all uses of all actions, options, setups and conditions of all modules with arguments of any shape, nested and combined',
  'Tests use a few dozen well-formed configurations; argument validation errors only show for particular shapes of arguments, and some only when a request is served.',
  ['src/main/config_parser.rl', 'src/main/config_lua.c', 'src/main/plugin_core.c', 'src/main/value.c', 'src/main/condition.c', 'src/main/actions.c', 'src/modules', 'src/angel/angel_config_parser.rl'],
  [('parser', 'src/main/config_parser.rl'), ('option and action creation', 'src/main/plugin.c'), ('argument validation', 'src/main/plugin_core.c, src/modules/*.c')],
  'structured configuration fuzzing (grammar-based generation and token mutation) of the real binary under ASAN/UBSAN, as an unprivileged user')

P('C11', 'Rewrites, redirects and path mappings give exactly the documented result',
  '''For every request, rewrite, rewrite_raw, redirect, docroot and alias apply the first matching rule and produce exactly the documented path, query, Location or physical path: rule captures ($n),
  condition captures (%n), ranges, host labels and request variables expand to the right text, url-encoded where asked for; a request no rule matches stays unchanged.''',
  ['inputs', 'configurations'], 'all rule sets, patterns and nested conditions, all request paths, queries and hosts',
  'The functional tests check a few fixed rules; mapping errors depend on combinations of captures, ranges, encodings and rule order.',
  ['src/modules/mod_rewrite.c', 'src/modules/mod_redirect.c', 'src/main/pattern.c', 'src/main/plugin_core.c', 'src/main/url_parser.rl'],
  [('rewrite', 'src/modules/mod_rewrite.c: rewrite_internal'), ('redirect', 'src/modules/mod_redirect.c'), ('patterns', 'src/main/pattern.c: li_pattern_eval')],
  'property-based testing: generated rule programs and requests against the running server, oracle is an independent reference interpreter')

P('C12', 'Virtual host and user directory mapping select exactly the right site',
  '''For every request, vhost.map runs exactly the actions of the entry whose name equals the request host (case-insensitively, without port and trailing dots) and vhost.map_regex those of the first matching
  expression, else the default; userdir maps /~user/rest exactly to the directory its pattern describes for that user (root refused, unknown users 404) and leaves other paths alone.''',
  ['inputs', 'configurations'], 'all vhost tables (nested, ordered, with and without default), all Host values and absolute URLs, all userdir patterns and paths',
  'Functional tests use one fixed table; serving the wrong site depends on near-miss hosts, order and nesting.',
  ['src/modules/mod_vhost.c', 'src/modules/mod_userdir.c', 'src/main/url_parser.rl'],
  [('vhost lookup', 'src/modules/mod_vhost.c: vhost_map'), ('userdir pattern', 'src/modules/mod_userdir.c: userdir')],
  'property-based testing: generated tables and requests against the running server, oracle is an independent reference model')

P('C19', 'Compressed responses decode to exactly the uncompressed content',
  '''With deflate enabled the client gets, for every resource and every Accept-Encoding, either the identity content or a Content-Encoding it accepts (q=0 and absent codings never used) that decodes to exactly the
  same bytes; framing, Vary and ETag stay consistent, HEAD agrees with GET, data a backend flushes is delivered without waiting for its end, and a broken-off backend response is never turned
  into a complete one.''',
  ['inputs', 'configurations', 'fault_sequences'], 'all contents and sizes, all Accept-Encoding values, all buffer/block/level settings, all backend framings, cuts and break-off points',
  'The functional tests compress two fixed files; stream compression fails at particular buffer sizes, flush points and chunk boundaries.',
  ['src/modules/mod_deflate.c', 'src/main/filter.c', 'src/main/virtualrequest.c'],
  [('coding selection', 'src/modules/mod_deflate.c: deflate_handle'), ('gzip/deflate filter', 'src/modules/mod_deflate.c: deflate_filter_zlib'), ('filter chain', 'src/main/filter.c')],
  'property-based testing: generated resources, settings and backend histories through the running server, round-trip against an independent zlib/bz2 decoder')

P('C20', 'Request limits are never exceeded and every slot comes back',
  '''At no time are more than N requests in progress in a limit.con (per address: limit.con_ip) section, nor more than N per second admitted by limit.req / limit.req_ip; requests beyond the limit get the configured
  action or 503; requests below it are admitted, because every ended request, whether finished, refused, failed or aborted, gives its slot back, and no address affects another one's counters.''',
  ['histories', 'schedules', 'configurations'], 'all histories of requests starting, finishing, being aborted from several client addresses, over one or several workers, and all sets of limit rules',
  'No test exercises mod_limit; leaked or double-freed slots only show over histories with refusals and aborts.',
  ['src/modules/mod_limit.c', 'src/common/waitqueue.c', 'src/common/radix.c'],
  [('admission', 'src/modules/mod_limit.c: mod_limit_action_handle'), ('release', 'src/modules/mod_limit.c: mod_limit_vrclose'), ('rate window', 'src/modules/mod_limit.c: mod_limit_timer_callback')],
  'stateful model-based testing: generated histories of concurrent requests against the running server, oracle is a reference counter model')

P('C23', 'Directory listings show exactly the visible entries with working links',
  '''A dirlist page lists every entry of the directory that the options do not hide exactly once, with its size and type, and no hidden one; each link leads to its entry whatever bytes its name contains, and no name or path
  reaches the page as markup. HEADER.txt / README.txt are included exactly when configured; a directory requested without its final slash is redirected to itself with it.''',
  ['inputs', 'configurations'], 'all directory contents (names of any bytes, kinds of files), all dirlist options, stat cache on and off',
  'No test covers mod_dirlist beyond loading; escaping and hiding errors depend on particular names and option combinations.',
  ['src/modules/mod_dirlist.c', 'src/main/stat_cache.c', 'src/common/encoding.c', 'src/main/virtualrequest.c'],
  [('listing', 'src/modules/mod_dirlist.c: dirlist'), ('directory lookup', 'src/main/stat_cache.c: li_stat_cache_get_dirlist'), ('redirect', 'src/main/virtualrequest.c: li_vrequest_redirect_directory')],
  'property-based testing: generated directory trees and options against the running server, the page parsed by an independent HTML parser and compared with the real directory')

P('C22', 'Balancers spread requests as documented and survive backend outages',
  '''balance.rr gives successive requests to the backends in turn, balance.sqf to one with the fewest requests in progress. While at least one backend of a (possibly nested) balancer can be reached, every request is
  given to exactly one reachable backend without being answered by an error; with none reachable it waits and is served when one comes back. Abandoned requests free their place, and a backend that comes back is used again.''',
  ['histories', 'fault_sequences', 'configurations'], 'all histories of requests starting, finishing, being abandoned and of backends going down and coming back, all balancer trees, backend sockets and keep-alive settings',
  'No test covers mod_balance; selection, backlog and failover only go wrong for particular interleavings of outages and requests in progress.',
  ['src/modules/mod_balance.c', 'src/main/backends.c', 'src/main/actions.c', 'src/modules/mod_proxy.c'],
  [('selection', 'src/modules/mod_balance.c: balancer_act_select'), ('failover', 'src/modules/mod_balance.c: balancer_act_fallback'), ('backend pool', 'src/main/backends.c: S_backend_pool_distribute')],
  'stateful model-based testing: generated histories with injected backend outages against the running server, oracle is a reference model of loads, order and liveness')

P('C24', 'Access log lines are complete, unforgeable and say what happened',
  '''Every request handled under an accesslog setting gives exactly one line in exactly the configured log with the configured format, also when it is aborted or the server is shut down right afterwards. Each
  field is what the documentation says (addresses, method, path, status, sizes without and with headers, headers, times, connection status), and nothing a client sends can break a line or a quoted field.''',
  ['inputs', 'histories', 'configurations'], 'all formats, all requests (any bytes in path, query and headers), keep-alive sequences, aborts, several workers, graceful shutdown at any time',
  'No test covers the access log; wrong sizes, escaping errors and lost lines only show for particular requests and ends.',
  ['src/modules/mod_accesslog.c', 'src/main/log.c', 'src/main/connection.c', 'src/main/response.c'],
  [('fields', 'src/modules/mod_accesslog.c: al_format_log'), ('escaping', 'src/modules/mod_accesslog.c: al_append_escaped'), ('log queue', 'src/main/log.c: li_log_write_direct')],
  'property-based testing: generated formats and client histories against the running server, the log parsed and compared with what the client sent and received')

P('C28', 'Metadata actions: mime types, expiry, index files and header edits are exact',
  '''For every configuration and request: Content-Type is that of the longest matching mime_types suffix; expire sets Expires and max-age to base plus period; index serves the first existing file of its list, like a
  direct request for it; header.* and env.* change exactly the named response headers and variables; methods static does not support get 405.''',
  ['inputs', 'configurations'], 'all mime tables and file names, expiry rules and file ages, index lists and directory contents, sequences of header edits',
  'Functional tests check single fixed cases; errors depend on overlapping suffixes, long periods, kinds of files and order of edits.',
  ['src/main/mimetype.c', 'src/modules/mod_expire.c', 'src/main/plugin_core.c', 'src/main/http_headers.c'],
  [('mime', 'src/main/mimetype.c: li_mimetype_get'), ('expire', 'src/modules/mod_expire.c: expire'), ('index', 'src/main/plugin_core.c: core_index'), ('header actions', 'src/main/plugin_core.c: core_header_*')],
  'property-based testing: generated configurations, files and requests against the running server, oracle is an independent reference model')

P('C29', 'Connections live exactly as long as the keep-alive and timeout settings say',
  '''A connection serves keepalive.requests requests and announces the last one; idle connections are closed after keepalive.timeout and not before. A connection that makes no network progress while the server waits for
  the client (request head, request body, response being read) is closed after io.timeout; one that makes progress, or only waits for a backend, is never closed by it.''',
  ['histories', 'schedules', 'configurations'], 'all sequences of requests with their settings (one by one, pipelined), all pauses, all points at which a client stalls or trickles, several connections at once',
  'No test waits for a timeout or reaches a request limit; these go wrong only for particular points of stalling and mixed settings.',
  ['src/main/connection.c', 'src/main/worker.c', 'src/common/waitqueue.c'],
  [('io timeout', 'src/main/connection.c: li_connection_update_io_wait'), ('keep alive queue', 'src/main/worker.c: li_worker_check_keepalive'), ('wait queue', 'src/common/waitqueue.c: li_waitqueue_update')],
  'stateful property-based testing: generated plans of pauses, stalls and request sequences against the running server, oracle is a timing model with tolerance')

P('C30', 'Lua handlers, filters and the shipped scripts do what the documentation says',
  '''Lua scripts see and change exactly the request, response, environment, URI and body they are documented to; state does not leak between scripts or requests; wrong calls give a Lua error, never a crash. Filters
  written in Lua transform any body in any chunking without loss; a script changed on disk is used once its ttl is over; the scripts of contrib/ allow, send and cache exactly what they are configured to.''',
  ['inputs', 'histories', 'configurations'], 'all programs of API calls with any values, any wrong arguments, all request sequences, bodies and chunkings, all edits of a script, all users and paths given to the shipped scripts',
  'The Lua tests run a few fixed scripts once; stack, lifetime and aliasing errors only show for particular sequences of calls and requests.',
  ['src/main/core_lua.c', 'src/main/virtualrequest_lua.c', 'src/main/http_headers_lua.c', 'src/main/chunk_lua.c', 'src/main/filters_lua.c', 'src/main/filter.c', 'src/modules/mod_lua.c', 'contrib/core.lua'],
  [('API objects', 'src/main/virtualrequest_lua.c: lua_vrequest_index'), ('environment', 'src/main/core_lua.c: li_lua_environment_use_globals'), ('filters', 'src/main/filters_lua.c: li_vrequest_add_filter_in_lua'), ('reload', 'src/modules/mod_lua.c: lua_handle')],
  'stateful property-based testing: generated Lua programs, filters and edit histories against the running server, oracle is a reference model of the API')

P('C21', 'Bandwidth limits hold, are shared as configured and never starve anyone',
  '''Under io.throttle, io.throttle_pool and io.throttle_ip no connection, pool or address sends more than burst plus rate times time (plus a small constant per connection), in whatever mix of workers, requests, stalls
  and joins; a connection that wants to send gets its share of the rate, whatever idle or stalled connections share the limit and at any clock value; data is delivered intact and unlimited connections are not held.''',
  ['histories', 'schedules', 'configurations'], 'all histories of connections opening, joining, writing, stalling and closing on all workers, all rates and bursts, all clock values',
  'There is no test of throttling; wrong sharing, unlimited collecting and stalls only appear over minutes and for particular histories.',
  ['src/main/throttle.c', 'src/modules/mod_throttle.c', 'src/main/stream_simple_socket.c', 'src/main/network.c'],
  [('token buckets', 'src/main/throttle.c: li_throttle_query'), ('pool refill', 'src/main/throttle.c: S_throttle_pool_rearm_workers'), ('ip pools', 'src/modules/mod_throttle.c: create_ip_pool')],
  'stateful model-based testing: generated histories in simulated time against the throttle code, and generated downloads from the running server, oracle is a token bucket model')


P('C25', 'Caches (memcached, cache.disk.etag) never change what a client is told',
  '''With memcached.lookup, memcached.store or cache.disk.etag a client gets exactly the response the application would give, or a complete response it gave earlier for the same key (path and options resp. ETag):
  never a partial, mixed, foreign or wrongly typed one, whatever was aborted, cut off or raced, and whatever a memcached server answers in whatever pieces. An unavailable or misbehaving
  memcached only costs the caching. The Lua interface delivers the results it documents.''',
  ['histories', 'inputs', 'faults'], 'all histories of requests, aborts and backend failures; all memcached replies, splits, errors and disconnects; all paths, ETags, sizes and framings',
  'There is no test of the memcached client or module and none of the disk cache with aborts; a cut reply or an aborted store shows only later, in another response.',
  ['src/common/memcached.c', 'src/modules/mod_memcached.c', 'src/modules/mod_cache_disk_etag.c', 'src/main/filter_buffer_on_disk.c'],
  [('memcached reply parser', 'src/common/memcached.c: handle_read'), ('lookup and store', 'src/modules/mod_memcached.c: mc_handle_lookup'), ('disk cache', 'src/modules/mod_cache_disk_etag.c: cache_etag_handle')],
  'stateful model-based testing: generated request histories with aborts, a fake memcached server with a scripted fault plan, a failing origin; oracle is the set of complete responses per key')


P('C31', 'Graceful shutdown and reload lose no request, and always come to an end',
  '''On SIGTERM/SIGINT the server finishes every request it has begun (as long as it makes progress within 3 seconds), closes idle connections, writes all log lines and ends with status 0, whatever the number of workers and
  even while it starts. With the angel, SIGHUP replaces the worker without a refused connection or lost request; a broken configuration leaves the running worker alone; a crashed worker is restarted;
  sockets exist exactly while a configuration uses them; stopping the angel, also during a replacement, ends all processes.''',
  ['schedules', 'crash points', 'histories'], 'all stages requests can be in when the signal arrives, all moments of startup and replacement, all histories of reloads, edits and crashes',
  'The test suite starts and stops one worker when nothing is going on and never uses the angel; lost requests, lost signals and hangs need a signal or crash at a particular moment.',
  ['src/main/server.c', 'src/main/worker.c', 'src/main/log.c', 'src/main/connection.c', 'src/angel/angel_server.c', 'src/angel/angel_plugin_core.c', 'src/angel/angel_proc.c'],
  [('state machine', 'src/main/server.c: li_server_start_transition'), ('worker shutdown', 'src/main/worker.c: li_worker_stopping'), ('replacement', 'src/angel/angel_server.c: li_instance_state_reached'), ('sockets', 'src/angel/angel_plugin_core.c: core_listen')],
  'stateful property-based testing with injected signals and crashes: generated request stages and reload histories against the real processes, a thread of requests watches for losses')

P('C26', 'TLS: same service over TLS, client verification, SNI certificates',
  'Over TLS listeners (mod_openssl, mod_gnutls; TLS 1.2 and 1.3, fresh and resumed sessions) requests get exactly the response the plain service gives (status, body bytes, order; req.scheme is "https"), however the client distributes its bytes over TLS records, handshake fragments and TCP segments, for uploads and downloads of any size and for slow readers; the connection ends after a response with "Connection: close" and after the client closed the TLS session. With openssl "verify" a client presenting a certificate that does not chain to client-ca-file (foreign, self-signed, forged, expired, longer than verify-depth) is never served under "verify-require" unless "verify-any" is set; clients without certificate are served unless "verify-require"; valid ones always are. openssl.setenv exports the certificate the client of this connection presented and nothing otherwise. With a gnutls sni-backend the certificate is the one stored for exactly the requested server name, the fallback (or default) certificate when there is none, the default one without a name. No sequence of bytes sent as ClientHello stops the server from serving other clients.',
  ['inputs', 'schedules', 'histories'], 'all record and segment boundaries, bodies, TLS versions, certificates and verification settings, server names, ClientHello byte sequences',
  'The test suite makes a few ordinary requests with curl; stalls and endless loops need particular amounts of data in flight, fragmented messages or unusual extensions, and verification holes need bad certificates.',
  ['src/modules/mod_openssl.c', 'src/modules/openssl_filter.c', 'src/modules/mod_gnutls.c', 'src/modules/gnutls_filter.c', 'src/modules/ssl_client_hello_parser.h', 'src/modules/ssl-session-db.h', 'src/common/fetch.c'],
  [('reading', 'src/modules/openssl_filter.c: do_ssl_read; src/modules/gnutls_filter.c: do_gnutls_read'), ('verification', 'src/modules/mod_openssl.c: openssl_setup'), ('hello', 'src/modules/ssl_client_hello_parser.h: _li_ssl_client_hello_parse'), ('certificates', 'src/modules/mod_gnutls.c: sni_job_cb')],
  'property-based testing with a TLS client that controls records and segments: generated request histories against the known resources, certificates x settings against the verification rule, structured fuzzing of ClientHello with a liveness oracle')

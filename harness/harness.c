/* In-process driver for lighttpd2's library code.  Reads length-prefixed commands on stdin,
 * executes them against the real functions and answers on stdout.  Linked against the
 * freshly built liblighttpd2-{shared,common}; no oracle lives here. */
#include <lighttpd/base.h>
#include <lighttpd/http_request_parser.h>
#include <lighttpd/http_range_parser.h>
#include <lighttpd/url_parser.h>
#include <lighttpd/ip_parsers.h>
#include <lighttpd/radix.h>
#include <lighttpd/encoding.h>
#include <lighttpd/angel_data.h>
#include <lighttpd/angel_connection.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <dirent.h>
#include <lighttpd/idlist.h>
#include <lighttpd/filter_chunked.h>
#include <ssl_client_hello_parser.h>
#include <lighttpd/throttle.h>
#include <lighttpd/waitqueue.h>
#include <time.h>
#include <fcntl.h>
#include <sys/stat.h>

static int out_fd = 1;

static void full_read(void *buf, size_t n) {
	char *p = buf;
	while (n) {
		ssize_t r = read(0, p, n);
		if (r <= 0) exit(0);
		p += r; n -= r;
	}
}
static void full_write(const void *buf, size_t n) {
	const char *p = buf;
	while (n) {
		ssize_t r = write(out_fd, p, n);
		if (r <= 0) exit(0);
		p += r; n -= r;
	}
}

typedef struct { char *p; guint32 len; } field;
static field *F; static guint32 NF, CUR;
static GString *OUT; static guint32 NOUT;

static int more(void) { return CUR < NF; }
static field next(void) { if (CUR >= NF) { fprintf(stderr, "protocol: out of fields\n"); _exit(42); } return F[CUR++]; }
static gint64 nexti(void) { field f = next(); return g_ascii_strtoll(f.p, NULL, 10); }
static char *nexts(void) { return next().p; } /* NUL terminated */
static void put(const void *p, gsize len) { guint32 l = len; g_string_append_len(OUT, (char*)&l, 4); if (len) g_string_append_len(OUT, p, len); NOUT++; }
static void puts_(const char *s) { put(s, strlen(s)); }
static void puti(gint64 i) { char b[32]; g_snprintf(b, sizeof b, "%" G_GINT64_FORMAT, i); puts_(b); }

/* exact-size malloced copy: ASAN sees every overread */
static char *dup_exact(field f) { char *c = malloc(f.len ? f.len : 1); memcpy(c, f.p, f.len); return c; }
static GString *gs(field f) { return g_string_new_len(f.p, f.len); }

/* ---------------------------------------------------------------- chunkqueue */
#define NQ 4
static liChunkQueue *q[NQ];
static liChunkFile *cfs[8];

static void cq_notify(gpointer ctx, gboolean locked) { (void)ctx; (void)locked; }

static void op_cq(void) {
	guint i;
	memset(cfs, 0, sizeof cfs);
	for (i = 0; i < NQ; i++) q[i] = li_chunkqueue_new();
	while (more()) {
		char *op = nexts();
		if (!strcmp(op, "mem")) { int k = nexti(); field d = next(); char *c = dup_exact(d); li_chunkqueue_append_mem(q[k], c, d.len); free(c); }
		else if (!strcmp(op, "str")) { int k = nexti(); field d = next(); li_chunkqueue_append_string(q[k], gs(d)); }
		else if (!strcmp(op, "barr")) { int k = nexti(); field d = next(); GByteArray *a = g_byte_array_new(); g_byte_array_append(a, (guint8*)d.p, d.len); li_chunkqueue_append_bytearr(q[k], a); }
		else if (!strcmp(op, "buf")) { int k = nexti(); gint64 cap = nexti(); field d = next(); liBuffer *b = li_buffer_new(MAX(1, MAX(cap, d.len))); memcpy(b->addr, d.p, d.len); b->used = d.len; li_chunkqueue_append_buffer(q[k], b); }
		else if (!strcmp(op, "buf2")) { int k = nexti(); field d = next(); gint64 off = nexti(), len = nexti(); liBuffer *b = li_buffer_new(MAX(1, d.len)); memcpy(b->addr, d.p, d.len); b->used = d.len; li_chunkqueue_append_buffer2(q[k], b, off, len); }
		else if (!strcmp(op, "lastbuf")) { int k = nexti(); field d = next(); liBuffer *b = li_chunkqueue_get_last_buffer(q[k], d.len);
			if (b) { if (b->alloc_size - b->used < d.len) { puti(-1); } else { memcpy(b->addr + b->used, d.p, d.len); li_chunkqueue_update_last_buffer_size(q[k], d.len); puti(1); } } else puti(0); }
		else if (!strcmp(op, "file")) { int k = nexti(); char *path = nexts(); gint64 st = nexti(), len = nexti(); li_chunkqueue_append_file(q[k], g_string_new(path), st, len); }
		else if (!strcmp(op, "filefd")) { int k = nexti(); char *path = nexts(); gint64 st = nexti(), len = nexti(); li_chunkqueue_append_file_fd(q[k], NULL, st, len, open(path, O_RDONLY)); }
		else if (!strcmp(op, "cfile")) { int k = nexti(); int s = nexti(); char *path = nexts(); gint64 st = nexti(), len = nexti();
			if (!cfs[s]) cfs[s] = li_chunkfile_new(g_string_new(path), -1, FALSE);
			li_chunkqueue_append_chunkfile(q[k], cfs[s], st, len); }
		else if (!strcmp(op, "temp")) { int k = nexti(); char *path = nexts(); gint64 st = nexti(), len = nexti(); li_chunkqueue_append_tempfile(q[k], g_string_new(path), st, len); }
		else if (!strcmp(op, "tempfd")) { int k = nexti(); char *path = nexts(); gint64 st = nexti(), len = nexti(); li_chunkqueue_append_tempfile_fd(q[k], g_string_new(path), st, len, open(path, O_RDONLY)); }
		else if (!strcmp(op, "steal_len")) { int o = nexti(), k = nexti(); gint64 n = nexti(); puti(li_chunkqueue_steal_len(q[o], q[k], n)); }
		else if (!strcmp(op, "steal_all")) { int o = nexti(), k = nexti(); puti(li_chunkqueue_steal_all(q[o], q[k])); }
		else if (!strcmp(op, "steal_chunk")) { int o = nexti(), k = nexti(); puti(li_chunkqueue_steal_chunk(q[o], q[k])); }
		else if (!strcmp(op, "skip")) { int k = nexti(); gint64 n = nexti(); puti(li_chunkqueue_skip(q[k], n)); }
		else if (!strcmp(op, "skip_all")) { int k = nexti(); puti(li_chunkqueue_skip_all(q[k])); }
		else if (!strcmp(op, "reset")) { int k = nexti(); li_chunkqueue_reset(q[k]); }
		else if (!strcmp(op, "ext")) { int k = nexti(); gint64 n = nexti(); int mode = nexti(); GError *e = NULL; gboolean r;
			if (mode == 0) { GString *s = g_string_new("zz"); r = li_chunkqueue_extract_to(q[k], n, s, &e); puti(r); put(s->str, s->len); g_string_free(s, TRUE); }
			else if (mode == 1) { GByteArray *a = g_byte_array_new(); r = li_chunkqueue_extract_to_bytearr(q[k], n, a, &e); puti(r); put(a->data, a->len); g_byte_array_free(a, TRUE); }
			else { gint64 l = MIN(n, q[k]->length); char *m = malloc(l ? l : 1); memset(m, 0x5a, l); r = li_chunkqueue_extract_to_memory(q[k], n, m, &e); puti(r); put(m, r ? l : 0); free(m); }
			if (e) g_error_free(e); }
		else if (!strcmp(op, "read")) { int k = nexti(); int idx = nexti(); gint64 st = nexti(), len = nexti(); int mm = nexti();
			liChunkIter it = li_chunkqueue_iter(q[k]); GError *e = NULL; char *d = NULL; off_t dl = 0;
			while (idx-- > 0 && li_chunkiter_chunk(it)) li_chunkiter_next(&it);
			if (!li_chunkiter_chunk(it) || st >= li_chunkiter_length(it)) { puti(-1); put("", 0); }
			else { liHandlerResult r = mm ? li_chunkiter_read_mmap(it, st, len, &d, &dl, &e) : li_chunkiter_read(it, st, len, &d, &dl, &e); puti(r); put(d, r == LI_HANDLER_GO_ON ? dl : 0); if (e) g_error_free(e); } }
		else if (!strcmp(op, "limit")) { int k = nexti(); li_chunkqueue_use_limit(q[k], nexti()); }
		else if (!strcmp(op, "share")) { int a = nexti(), b = nexti(); li_chunkqueue_set_limit(q[a], q[b]->limit); }
		else if (!strcmp(op, "nolimit")) { int k = nexti(); li_chunkqueue_set_limit(q[k], NULL); }
		else if (!strcmp(op, "lens")) { int k = nexti(); liChunkIter it = li_chunkqueue_iter(q[k]); GString *s = g_string_new(""); while (li_chunkiter_chunk(it)) { g_string_append_printf(s, "%" G_GINT64_FORMAT " ", (gint64)li_chunkiter_length(it)); if (!li_chunkiter_next(&it)) break; } put(s->str, s->len); g_string_free(s, TRUE); }
		else if (!strcmp(op, "stat")) { int k = nexti(); puti(q[k]->length); puti(q[k]->bytes_in); puti(q[k]->bytes_out); puti(q[k]->mem_usage); puti(q[k]->limit ? q[k]->limit->current : -1); puti(q[k]->limit ? q[k]->limit->locked : -1); puti(li_chunkqueue_limit_available(q[k])); puti(q[k]->queue.length); }
		else if (!strcmp(op, "drain")) { int k = nexti(); gint64 step = nexti(); int mm = nexti(); GString *s = g_string_new(""); int err = 0;
			while (q[k]->length > 0 && !err) { liChunkIter it = li_chunkqueue_iter(q[k]); char *d; off_t dl; GError *e = NULL; 
				if (!li_chunkiter_chunk(it)) { err = 2; break; }
				if (LI_HANDLER_GO_ON != (mm ? li_chunkiter_read_mmap(it, 0, step, &d, &dl, &e) : li_chunkiter_read(it, 0, step, &d, &dl, &e))) { err = 1; if (e) g_error_free(e); break; }
				if (dl <= 0) { err = 3; break; }
				g_string_append_len(s, d, dl); if (li_chunkqueue_skip(q[k], dl) != dl) { err = 4; break; } }
			puti(err); put(s->str, s->len); g_string_free(s, TRUE); }
		else { fprintf(stderr, "unknown cq op %s\n", op); _exit(42); }
	}
	for (i = 0; i < 8; i++) if (cfs[i]) li_chunkfile_release(cfs[i]);
	for (i = 0; i < NQ; i++) li_chunkqueue_free(q[i]);
}

/* append a piece as one of several chunk kinds */
static void feed(liChunkQueue *cq, field d, int kind) {
	if (!d.len) return;
	switch (kind % 4) {
	case 0: { char *c = dup_exact(d); li_chunkqueue_append_mem(cq, c, d.len); free(c); break; }
	case 1: li_chunkqueue_append_string(cq, gs(d)); break;
	case 2: { GByteArray *a = g_byte_array_new(); g_byte_array_append(a, (guint8*)d.p, d.len); li_chunkqueue_append_bytearr(cq, a); break; }
	case 3: { liBuffer *b = li_buffer_new(d.len); memcpy(b->addr, d.p, d.len); b->used = d.len; li_chunkqueue_append_buffer(cq, b); break; }
	}
}
static void put_cq(liChunkQueue *cq) {
	GString *s = g_string_new("");
	li_chunkqueue_extract_to(cq, cq->length, s, NULL);
	li_chunkqueue_skip_all(cq);
	put(s->str, s->len);
	g_string_free(s, TRUE);
}

static void op_chenc(void) { /* pieces: kind data */
	liChunkQueue *in = li_chunkqueue_new(), *out = li_chunkqueue_new();
	int closed_with_last = nexti();
	while (more()) {
		int kind = nexti(); field d = next();
		feed(in, d, kind);
		if (!more() && closed_with_last) in->is_closed = TRUE;
		li_filter_chunked_encode(NULL, out, in);
	}
	if (!in->is_closed) { in->is_closed = TRUE; li_filter_chunked_encode(NULL, out, in); }
	puti(out->is_closed); puti(in->length); put_cq(out);
	/* calling again must add nothing */
	li_filter_chunked_encode(NULL, out, in);
	put_cq(out);
	li_chunkqueue_free(in); li_chunkqueue_free(out);
}
static void op_chenc_file(void) { /* path length: only the framing bytes */
	liChunkQueue *in = li_chunkqueue_new(), *out = li_chunkqueue_new();
	char *path = nexts(); gint64 len = nexti();
	liChunkIter it; GString *s = g_string_new("");
	li_chunkqueue_append_file(in, g_string_new(path), 0, len);
	in->is_closed = TRUE;
	li_filter_chunked_encode(NULL, out, in);
	for (it = li_chunkqueue_iter(out); li_chunkiter_chunk(it); ) {
		liChunk *c = li_chunkiter_chunk(it);
		if (c->type == FILE_CHUNK) g_string_append_printf(s, "<%" G_GINT64_FORMAT ">", (gint64)li_chunk_length(c));
		else { char *d; off_t dl; li_chunkiter_read(it, 0, 1000, &d, &dl, NULL); g_string_append_len(s, d, dl); }
		if (!li_chunkiter_next(&it)) break;
	}
	put(s->str, s->len); g_string_free(s, TRUE);
	li_chunkqueue_free(in); li_chunkqueue_free(out);
}
static void op_chdec(void) { /* close_at_end, then pieces: kind data.  result: last rc, out closed, decoded, leftover, state */
	liChunkQueue *in = li_chunkqueue_new(), *out = li_chunkqueue_new();
	liFilterChunkedDecodeState st; gboolean r = TRUE; int close_at_end = nexti();
	memset(&st, 0, sizeof st);
	while (more()) {
		int kind = nexti(); field d = next();
		feed(in, d, kind);
		if (!more() && close_at_end) in->is_closed = TRUE;
		if (r) r = li_filter_chunked_decode(NULL, out, in, &st);
	}
	puti(r); puti(out->is_closed); put_cq(out); put_cq(in);
	li_chunkqueue_free(in); li_chunkqueue_free(out);
}

/* ---------------------------------------------------------------- headers */
static void op_hdr(void) {
	liHttpHeaders *h = li_http_headers_new();
	while (more()) {
		char *op = nexts();
		if (!strcmp(op, "insert")) { field k = next(), v = next(); char *kc = dup_exact(k), *vc = dup_exact(v); li_http_header_insert(h, kc, k.len, vc, v.len); free(kc); free(vc); }
		else if (!strcmp(op, "append")) { field k = next(), v = next(); char *kc = dup_exact(k), *vc = dup_exact(v); li_http_header_append(h, kc, k.len, vc, v.len); free(kc); free(vc); }
		else if (!strcmp(op, "overwrite")) { field k = next(), v = next(); char *kc = dup_exact(k), *vc = dup_exact(v); li_http_header_overwrite(h, kc, k.len, vc, v.len); free(kc); free(vc); }
		else if (!strcmp(op, "remove")) { field k = next(); puti(li_http_header_remove(h, k.p, k.len)); }
		else if (!strcmp(op, "lookup")) { field k = next(); liHttpHeader *e = li_http_header_lookup(h, k.p, k.len); puti(e != NULL); if (e) put(LI_HEADER_VALUE_LEN(e)); else put("", 0); }
		else if (!strcmp(op, "is")) { field k = next(), v = next(); puti(li_http_header_is(h, k.p, k.len, v.p, v.len)); }
		else if (!strcmp(op, "all")) { field k = next(); GString *s = g_string_new(""); li_http_header_get_all(s, h, k.p, k.len); put(s->str, s->len); g_string_free(s, TRUE); }
		else if (!strcmp(op, "reset")) { li_http_headers_reset(h); }
		else if (!strcmp(op, "tok")) { field k = next(); liHttpHeaderTokenizer t; GString *s = g_string_new(""); GString *acc = g_string_new(""); int n = 0;
			li_http_header_tokenizer_start(&t, h, k.p, k.len);
			while (n < 1000 && li_http_header_tokenizer_next(&t, s)) { guint32 l = s->len; g_string_append_len(acc, (char*)&l, 4); g_string_append_len(acc, s->str, s->len); n++; }
			puti(n); put(acc->str, acc->len); g_string_free(s, TRUE); g_string_free(acc, TRUE); }
		else if (!strcmp(op, "dump")) { GList *l; GString *acc = g_string_new("");
			for (l = g_queue_peek_head_link(&h->entries); l; l = l->next) { liHttpHeader *e = l->data; guint32 a = e->keylen, b = e->data->len; g_string_append_len(acc, (char*)&a, 4); g_string_append_len(acc, (char*)&b, 4); g_string_append_len(acc, e->data->str, e->data->len); }
			put(acc->str, acc->len); g_string_free(acc, TRUE); }
		else { fprintf(stderr, "unknown hdr op %s\n", op); _exit(42); }
	}
	li_http_headers_free(h);
}

/* ---------------------------------------------------------------- strings / urls */
static GString *gs_exact(field f) { /* GString with a tight buffer */
	GString *s = g_string_new_len(f.p, f.len); return s;
}
static void op_url(void) {
	while (more()) {
		char *op = nexts();
		if (!strcmp(op, "decode")) { GString *s = gs_exact(next()); li_url_decode(s); puti(s->len == strlen(s->str) || memchr(s->str, 0, s->len)); put(s->str, s->len); g_string_free(s, TRUE); }
		else if (!strcmp(op, "simplify")) { GString *s = gs_exact(next()); li_path_simplify(s); put(s->str, s->len); g_string_free(s, TRUE); }
		else if (!strcmp(op, "html") || !strcmp(op, "uri") || !strcmp(op, "hex")) {
			field f = next(); char *c = malloc(f.len + 1); GString *r; memcpy(c, f.p, f.len); c[f.len] = 0;
			r = g_string_new("old"); li_string_encode(c, r, op[1] == 't' ? LI_ENCODING_HTML : op[1] == 'r' ? LI_ENCODING_URI : LI_ENCODING_HEX);
			put(r->str, r->len); g_string_assign(r, "old"); li_string_encode_append(c, r, op[1] == 't' ? LI_ENCODING_HTML : op[1] == 'r' ? LI_ENCODING_URI : LI_ENCODING_HEX);
			put(r->str, r->len); g_string_free(r, TRUE); free(c); }
		else if (!strcmp(op, "rawpath")) { liRequest req; GString *s = gs(next()); gboolean r; li_request_init(&req); g_string_assign(req.uri.path, "/prev"); g_string_assign(req.uri.query, "prevq"); g_string_assign(req.uri.raw_path, "prevr");
			r = li_parse_raw_path(&req.uri, s); puti(r); put(req.uri.path->str, req.uri.path->len); put(req.uri.query->str, req.uri.query->len); put(req.uri.raw_path->str, req.uri.raw_path->len); li_request_clear(&req); g_string_free(s, TRUE); }
		else if (!strcmp(op, "rawurl")) { liRequest req; field f = next(); gboolean r; li_request_init(&req); g_string_append_len(req.uri.raw, f.p, f.len); r = li_parse_raw_url(&req.uri); puti(r);
			put(req.uri.scheme->str, req.uri.scheme->len); put(req.uri.authority->str, req.uri.authority->len); put(req.uri.host->str, req.uri.host->len); put(req.uri.path->str, req.uri.path->len); put(req.uri.query->str, req.uri.query->len); put(req.uri.raw_path->str, req.uri.raw_path->len); li_request_clear(&req); }
		else if (!strcmp(op, "hostname")) { liRequest req; field f = next(); gboolean r; li_request_init(&req); g_string_append_len(req.uri.authority, f.p, f.len); r = li_parse_hostname(&req.uri); puti(r); put(req.uri.host->str, req.uri.host->len); li_request_clear(&req); }
		else if (!strcmp(op, "qs")) { GString *s = gs(next()); field k = next(); gchar *v = NULL; guint vl = 0; gboolean r = li_querystring_find(s, k.p, k.len, &v, &vl); puti(r); put(r ? v : "", r ? vl : 0); g_string_free(s, TRUE); }
		else if (!strcmp(op, "prefix")) { GString *s = gs(next()); field k = next(); puti(li_string_prefix(s, k.p, k.len)); puti(li_string_suffix(s, k.p, k.len)); g_string_free(s, TRUE); }
		else if (!strcmp(op, "appint")) { GString *s = g_string_new("x"); li_string_append_int(s, nexti()); put(s->str, s->len); g_string_free(s, TRUE); }
		else if (!strcmp(op, "sha1")) { GString *s = gs(next()), *d = g_string_new("junk"); li_apr_sha1_base64(d, s); put(d->str, d->len); g_string_free(s, TRUE); g_string_free(d, TRUE); }
		else if (!strcmp(op, "apr1")) { GString *s = gs(next()), *salt = gs(next()), *d = g_string_new("junk"); li_apr_md5_crypt(d, s, salt); put(d->str, d->len); g_string_free(s, TRUE); g_string_free(salt, TRUE); g_string_free(d, TRUE); }
		else if (!strcmp(op, "crypt")) { GString *s = gs(next()), *salt = gs(next()), *d = g_string_new("junk"); puti(li_safe_crypt(d, s, salt)); put(d->str, d->len); g_string_free(s, TRUE); g_string_free(salt, TRUE); g_string_free(d, TRUE); }
		else if (!strcmp(op, "range")) { GString *s = gs(next()); gint64 limit = nexti(); liParseHttpRangeState st; GString *acc = g_string_new(""); int n = 0; liParseHttpRangeResult r;
			li_parse_http_range_init(&st, s, limit);
			while (n < 2000 && LI_PARSE_HTTP_RANGE_OK == (r = li_parse_http_range_next(&st))) { g_string_append_printf(acc, "%" G_GINT64_FORMAT " %" G_GINT64_FORMAT " %" G_GINT64_FORMAT " %d,", (gint64)st.range_start, (gint64)st.range_end, (gint64)st.range_length, st.last_range); n++; }
			puti(r == LI_PARSE_HTTP_RANGE_OK ? 99 : r == LI_PARSE_HTTP_RANGE_DONE ? 1 : r == LI_PARSE_HTTP_RANGE_INVALID ? 2 : 3); put(acc->str, acc->len);
			li_parse_http_range_clear(&st); g_string_free(acc, TRUE); g_string_free(s, TRUE); }
		else { fprintf(stderr, "unknown url op %s\n", op); _exit(42); }
	}
}

/* ---------------------------------------------------------------- ip */
static void op_ip(void) {
	while (more()) {
		char *op = nexts();
		if (!strcmp(op, "v4")) { int fl = nexti(); char *s = nexts(); guint32 ip = 0xaaaaaaaa, nm = 0; guint16 port = 0; gboolean r = li_parse_ipv4(s, &ip, (fl & 1) ? &nm : NULL, (fl & 2) ? &port : NULL); puti(r); if (!r) { ip = 0; nm = 0; port = 0; } put(&ip, 4); put(&nm, 4); puti(port); }
		else if (!strcmp(op, "v6")) { int fl = nexti(); char *s = nexts(); guint8 ip[16]; guint nm = 0; guint16 port = 0; gboolean r; memset(ip, 0xaa, 16); r = li_parse_ipv6(s, ip, (fl & 1) ? &nm : NULL, (fl & 2) ? &port : NULL); puti(r); if (!r) { memset(ip, 0, 16); nm = 0; port = 0; } put(ip, 16); puti(nm); puti(port); }
		else if (!strcmp(op, "v6str")) { field f = next(); GString *s = g_string_new("old"); guint8 ip[16]; memcpy(ip, f.p, 16); li_ipv6_tostring(s, ip); put(s->str, s->len); g_string_free(s, TRUE); }
		else if (!strcmp(op, "net44")) { field t = next(), m = next(); guint32 a, b, n; memcpy(&a, t.p, 4); memcpy(&b, m.p, 4); memcpy(&n, m.p + 4, 4); puti(li_ipv4_in_ipv4_net(a, b, n)); }
		else if (!strcmp(op, "net66")) { field t = next(), m = next(); int n = nexti(); char *a = dup_exact(t), *b = dup_exact(m); puti(li_ipv6_in_ipv6_net((guint8*)a, (guint8*)b, n)); free(a); free(b); }
		else if (!strcmp(op, "net64")) { field t = next(), m = next(); guint32 b, n; char *a = dup_exact(t); memcpy(&b, m.p, 4); memcpy(&n, m.p + 4, 4); puti(li_ipv6_in_ipv4_net((guint8*)a, b, n)); free(a); }
		else if (!strcmp(op, "net46")) { field t = next(), m = next(); int n = nexti(); guint32 a; char *b = dup_exact(m); memcpy(&a, t.p, 4); puti(li_ipv4_in_ipv6_net(a, (guint8*)b, n)); free(b); }
		else if (!strcmp(op, "sock")) { GString *s = gs(next()); int defport = nexti(); liSocketAddress a = li_sockaddr_from_string(s, defport); puti(a.addr_up.raw != NULL);
			if (a.addr_up.raw) { GString *o = g_string_new(""); li_sockaddr_to_string(a, o, TRUE); put(o->str, o->len); g_string_truncate(o, 0); li_sockaddr_to_string(a, o, FALSE); put(o->str, o->len);
				{ liSocketAddress b = li_sockaddr_dup(a); puti(li_equal_sockaddr(&a, &b)); puti(li_hash_sockaddr(&a) == li_hash_sockaddr(&b)); li_sockaddr_clear(&b); }
				g_string_free(o, TRUE); li_sockaddr_clear(&a); } else { put("", 0); put("", 0); puti(1); puti(1); }
			g_string_free(s, TRUE); }
		else { fprintf(stderr, "unknown ip op %s\n", op); _exit(42); }
	}
}

static int rdx_count; static gint64 rdx_sum;
static void rdx_cb(gpointer d, gpointer u) { (void)u; rdx_count++; rdx_sum += GPOINTER_TO_INT(d); }
static void op_radix(void) {
	liRadixTree *t = li_radixtree_new();
	while (more()) {
		char *op = nexts();
		if (!strcmp(op, "foreach")) { rdx_count = 0; rdx_sum = 0; li_radixtree_foreach(t, rdx_cb, NULL); puti(rdx_count); puti(rdx_sum); continue; }
		field k = next(); gint64 bits = nexti(); char *kc = dup_exact(k);
		if (!strcmp(op, "ins")) { puti(GPOINTER_TO_INT(li_radixtree_insert(t, bits ? kc : NULL, bits, GINT_TO_POINTER((gint)nexti())))); }
		else if (!strcmp(op, "del")) puti(GPOINTER_TO_INT(li_radixtree_remove(t, kc, bits)));
		else if (!strcmp(op, "get")) puti(GPOINTER_TO_INT(li_radixtree_lookup(t, kc, bits)));
		else if (!strcmp(op, "exact")) puti(GPOINTER_TO_INT(li_radixtree_lookup_exact(t, kc, bits)));
		else { fprintf(stderr, "unknown radix op %s\n", op); _exit(42); }
		free(kc);
	}
	rdx_count = 0; rdx_sum = 0; li_radixtree_free(t, rdx_cb, NULL); puti(rdx_count); puti(rdx_sum);
}

static void op_idlist(void) {
	liIDList *l = li_idlist_new(nexti());
	while (more()) {
		char *op = nexts();
		if (!strcmp(op, "get")) { gint64 n = nexti(); GString *s = g_string_new(""); while (n-- > 0) g_string_append_printf(s, "%d ", li_idlist_get(l)); put(s->str, s->len); g_string_free(s, TRUE); }
		else if (!strcmp(op, "put")) li_idlist_put(l, nexti());
		else if (!strcmp(op, "used")) puti(li_idlist_is_used(l, nexti()));
	}
	li_idlist_free(l);
}

static void op_adata(void) { /* angel data: write script, then read script over given bytes */
	GString *buf = g_string_new("");
	while (more()) {
		char *op = nexts(); GError *e = NULL;
		if (!strcmp(op, "w32")) puti(li_angel_data_write_int32(buf, nexti(), &e));
		else if (!strcmp(op, "w64")) puti(li_angel_data_write_int64(buf, nexti(), &e));
		else if (!strcmp(op, "wc")) puti(li_angel_data_write_char(buf, (gchar)nexti(), &e));
		else if (!strcmp(op, "ws")) { field f = next(); GString *s = gs(f); puti(li_angel_data_write_str(buf, s, &e)); g_string_free(s, TRUE); }
		else if (!strcmp(op, "wcs")) { field f = next(); puti(li_angel_data_write_cstr(buf, f.p, f.len, &e)); }
		else if (!strcmp(op, "raw")) { field f = next(); g_string_append_len(buf, f.p, f.len); }
		else if (!strcmp(op, "bytes")) put(buf->str, buf->len);
		else if (!strcmp(op, "read")) { /* rest: read ops */
			char *m = malloc(buf->len ? buf->len : 1); GString view; liAngelBuffer ab;
			memcpy(m, buf->str, buf->len); view.str = m; view.len = buf->len; view.allocated_len = 0; ab.data = &view; ab.pos = 0;
			while (more()) { char *r = nexts(); GError *e2 = NULL; 
				if (!strcmp(r, "r32")) { gint32 v = 77; gboolean ok = li_angel_data_read_int32(&ab, &v, &e2); puti(ok); puti(v); }
				else if (!strcmp(r, "r64")) { gint64 v = 77; gboolean ok = li_angel_data_read_int64(&ab, &v, &e2); puti(ok); puti(v); }
				else if (!strcmp(r, "rc")) { gchar v = 77; gboolean ok = li_angel_data_read_char(&ab, &v, &e2); puti(ok); puti((guchar)v); }
				else if (!strcmp(r, "rs")) { GString *s = NULL; gboolean ok = li_angel_data_read_str(&ab, &s, &e2); puti(ok); put(s ? s->str : "", s ? s->len : 0); if (s) g_string_free(s, TRUE); }
				else if (!strcmp(r, "rm")) { GString *s = g_string_new("reuse"); gint64 n = nexti(); gboolean ok = li_angel_data_read_mem(&ab, &s, n, &e2); puti(ok); put(s->str, s->len); g_string_free(s, TRUE); }
				puti(ab.pos); if (e2) g_error_free(e2); }
			free(m); }
		if (e) g_error_free(e);
	}
	g_string_free(buf, TRUE);
}

/* ---------------------------------------------------------------- request head parser */
static void op_req(void) { /* pieces: kind data ; result: rc, consumed-after, method,version,raw uri, headers dump, leftover */
	liRequest req; liHttpRequestCtx ctx; liChunkQueue *cq = li_chunkqueue_new(); liHandlerResult res = LI_HANDLER_WAIT_FOR_EVENT; GList *l; GString *acc;
	li_request_init(&req); li_http_request_parser_init(&ctx, &req, cq);
	while (more()) {
		int kind = nexti(); field d = next();
		feed(cq, d, kind);
		if (res == LI_HANDLER_WAIT_FOR_EVENT) res = li_http_request_parse(NULL, &ctx);
	}
	puti(res); puti(req.http_method); put(req.http_method_str->str, req.http_method_str->len); puti(req.http_version); put(req.uri.raw->str, req.uri.raw->len);
	acc = g_string_new("");
	for (l = g_queue_peek_head_link(&req.headers->entries); l; l = l->next) { liHttpHeader *e = l->data; guint32 a = e->keylen, b = e->data->len; g_string_append_len(acc, (char*)&a, 4); g_string_append_len(acc, (char*)&b, 4); g_string_append_len(acc, e->data->str, e->data->len); }
	put(acc->str, acc->len); g_string_free(acc, TRUE);
	put_cq(cq);
	li_http_request_parser_clear(&ctx); li_request_clear(&req); li_chunkqueue_free(cq);
}

static void op_hello(void) { /* close_at_end pieces: kind data -> result, name, protocol, queue content unchanged */
	liSSLClientHelloParser p; liChunkQueue *cq = li_chunkqueue_new(); GString *name = g_string_new(""); liSSLClientHelloParserResult r = LI_SSL_CLIENT_HELLO_WAIT; int step = 0, close_at_end = nexti();
	memset(&p, 0, sizeof p); li_chunk_parser_init(&p.ctx, cq);
	while (more()) {
		int kind = nexti(); field d = next();
		feed(cq, d, kind);
		if (!more() && close_at_end) cq->is_closed = TRUE;
		if (r == LI_SSL_CLIENT_HELLO_WAIT) { r = _li_ssl_client_hello_parse(&p, name); step++; }
	}
	puti(r == LI_SSL_CLIENT_HELLO_ERROR ? 0 : r == LI_SSL_CLIENT_HELLO_FOUND ? 1 : 2); put(name->str, name->len); puti(p.client_hello_protocol); put_cq(cq); puti(step);
	g_string_free(name, TRUE); li_chunkqueue_free(cq);
}

/* ---------------------------------------------------------------- throttling in simulated time */
static double sim_time;
ev_tstamp ev_time(void) { struct timespec ts; if (sim_time > 0) return sim_time; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
#define TW 4
#define TC 16
typedef struct { liThrottleState *st; int w, throttled, stalled, due; gint64 want; gint64 sent; int pools[8]; } tconn;
static tconn tc[TC]; static liWorker *tws[TW]; static guint32 t_ms;
static void t_notify(liThrottleState *st, gpointer data) { tconn *c = data; if (c->st != st) { fprintf(stderr, "ERROR: notify for a wrong state\n"); abort(); } if (!c->throttled) { fprintf(stderr, "ERROR: notify for a connection that does not wait\n"); abort(); } c->due = 1; }
static void t_pump(int i) {
	tconn *c = &tc[i]; gint64 budget = 8*1024*1024; int rounds = 0;
	while (c->st && !c->throttled && !c->stalled && c->want > 0 && budget > 0 && rounds++ < 1000) {
		guint interested = 256*1024, n = li_throttle_query(tws[c->w], c->st, interested, t_notify, c);
		gint64 m;
		if (n > interested) { fprintf(stderr, "ERROR: throttle allows more than asked for\n"); abort(); }
		if (0 == n) { c->throttled = 1; break; }
		m = MIN((gint64) n, c->want);
		li_throttle_update(c->st, m);
		c->want -= m; c->sent += m; budget -= m;
	}
}
static void op_throttle(void) { /* base_sec nworkers npools (rate burst)*  then ops */
	double base; int nw, np, i, j; liServer *srv = calloc(1, sizeof(liServer)); liThrottlePool *pools[8]; GString *rec = g_string_new("");
	struct ev_loop *el[TW];
	sim_time = base = g_ascii_strtod(nexts(), NULL);
	nw = nexti(); srv->worker_count = nw; srv->state = LI_SERVER_RUNNING; t_ms = 0;
	for (i = 0; i < nw; i++) {
		tws[i] = calloc(1, sizeof(liWorker)); tws[i]->srv = srv; tws[i]->ndx = i;
		el[i] = ev_loop_new(EVFLAG_NOENV | EVBACKEND_SELECT); li_event_loop_init(&tws[i]->loop, el[i]);
		*(ev_tstamp*)el[i] = sim_time;
		li_waitqueue_init(&tws[i]->throttle_queue, &tws[i]->loop, "throttle queue", li_throttle_waitqueue_cb, LI_THROTTLE_GRANULARITY / 1000.0, tws[i]);
	}
	np = nexti();
	for (i = 0; i < np; i++) { guint r = nexti(), b = nexti(); pools[i] = li_throttle_pool_new(srv, r, b); }
	memset(tc, 0, sizeof tc);
#define TFLUSH() for (j = 0; j < TC; j++) if (tc[j].sent) { gint32 v[3] = { (gint32) t_ms, j, (gint32) tc[j].sent }; g_string_append_len(rec, (char*) v, 12); tc[j].sent = 0; }
	while (more()) {
		char *op = nexts(); int c;
		TFLUSH();
		if (op[0] == 'a') { /* advance: ms step order */
			gint64 ms = nexti(), step = nexti(), order = nexti();
			while (ms > 0) {
				gint64 d = MIN(ms, step); ms -= d; t_ms += d; sim_time = base + t_ms / 1000.0;
				for (i = 0; i < nw; i++) *(ev_tstamp*)el[i] = sim_time;
				for (i = 0; i < nw; i++) { int w = (i + order) % nw; li_throttle_waitqueue_cb(&tws[w]->throttle_queue, tws[w]);
					for (j = 0; j < TC; j++) { int k = (order & 4) ? TC - 1 - j : j; if (tc[k].st && tc[k].w == w) { if (tc[k].due) { tc[k].due = 0; tc[k].throttled = 0; } t_pump(k); } } }
				TFLUSH();
			}
			continue;
		}
		{ gint32 v[3] = { (gint32) t_ms, -1, 0 }; g_string_append_len(rec, (char*) v, 12); }
		c = nexti();
		switch (op[0]) {
		case 'o': tc[c].w = nexti(); tc[c].st = li_throttle_new(); tc[c].throttled = tc[c].stalled = tc[c].due = 0; tc[c].want = 0; memset(tc[c].pools, 0, sizeof tc[c].pools); break;
		case 'c': li_throttle_free(tws[tc[c].w], tc[c].st); tc[c].st = NULL; break;
		case 'r': { guint r = nexti(), b = nexti(); li_throttle_set(tws[tc[c].w], tc[c].st, r, b); break; }
		case 'p': j = nexti(); i = li_throttle_add_pool(tws[tc[c].w], tc[c].st, pools[j]); if (!!i == !!tc[c].pools[j]) { fprintf(stderr, "ERROR: add_pool result %d\n", i); abort(); } tc[c].pools[j] = 1; break;
		case 'q': j = nexti(); li_throttle_remove_pool(tws[tc[c].w], tc[c].st, pools[j]); tc[c].pools[j] = 0; break;
		case 'w': tc[c].want += nexti(); t_pump(c); break;
		case 's': tc[c].stalled = nexti(); t_pump(c); break;
		default: fprintf(stderr, "unknown throttle op %s\n", op); _exit(42);
		}
	}
	TFLUSH();
	for (j = 0; j < TC; j++) if (tc[j].st) li_throttle_free(tws[tc[j].w], tc[j].st);
	for (i = 0; i < np; i++) li_throttle_pool_release(pools[i], srv);
	for (i = 0; i < nw; i++) { liWorker *w = tws[i]; if (w->throttle_queue.length || w->throttle_queue.head) { fprintf(stderr, "ERROR: closed connections are still queued\n"); abort(); } li_waitqueue_stop(&w->throttle_queue); ev_loop_destroy(li_event_loop_clear(&w->loop)); free(w); }
	free(srv); sim_time = 0;
	put(rec->str, rec->len); g_string_free(rec, TRUE);
}

/* two angel connections back to back */
#define AC_MAX 400
static liEventLoop ac_loop;
static liAngelConnection *ac[2];
static liAngelCall *ac_call[AC_MAX]; static int ac_ncall;
static struct { int side; gint32 id; } ac_recv[AC_MAX]; static int ac_nrecv;
static int ac_quiet, ac_ncb, ac_refused;
static void ac_log(const char *fmt, ...) { va_list v; if (ac_quiet) return; char b[600]; va_start(v, fmt); g_vsnprintf(b, sizeof b, fmt, v); va_end(v); puts_(b); }
static char *ac_sum(const char *p, gsize n) { return g_compute_checksum_for_data(G_CHECKSUM_MD5, (const guchar*) p, n); }
static void ac_recv_cb(liAngelConnection *c, const gchar *mod, gsize mod_len, const gchar *action, gsize action_len, gint32 id, GString *data) {
	char *m = ac_sum(data->str, data->len);
	int side = c == ac[1];
	ac_log("recv %d %.*s %.*s %d %d %s", side, (int) mod_len, mod, (int) action_len, action, id, (int) data->len, m);
	g_free(m);
	if (id >= 0 && ac_nrecv < AC_MAX) { ac_recv[ac_nrecv].side = side; ac_recv[ac_nrecv].id = id; ac_nrecv++; }
}
static void ac_close_cb(liAngelConnection *c, GError *err) {
	int side = c == ac[1];
	ac_log("closed %d", side);
	if (err) g_error_free(err);
	ac[side] = NULL;
	li_angel_connection_free(c);
}
static void ac_result_cb(gpointer ctx, gboolean timeout, GString *error, GString *data, GArray *fds) {
	int i = GPOINTER_TO_INT(ctx); guint j; ac_ncb++;
	char *e = error ? ac_sum(error->str, error->len) : NULL, *d = data ? ac_sum(data->str, data->len) : NULL;
	GString *f = g_string_new("");
	for (j = 0; fds && j < fds->len; j++) { char b[32]; int n = pread(g_array_index(fds, int, j), b, sizeof b - 1, 0); b[n > 0 ? n : 0] = 0; g_string_append_printf(f, ",%s", b); }
	ac_log("cb %d %d %d %s %d %s %s", i, timeout, error ? (int) error->len : -1, e ? e : "-", data ? (int) data->len : -1, d ? d : "-", f->str);
	ac_call[i] = NULL;
	g_free(e); g_free(d); g_string_free(f, TRUE);
}
static GString *ac_data(gint64 n, gint64 seed) { GString *s; gint64 i; if (n < 0) return NULL; s = g_string_sized_new(n); for (i = 0; i < n; i++) g_string_append_c(s, (char) (seed + i * 7 + (i >> 8))); return s; }
static int ac_count_fds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static void ac_pump(void) {
	int idle = 0, n;
	for (n = 0; n < 200000 && idle < 3; n++) {
		int i, busy = 0, r;
		ev_run(ac_loop.loop, EVRUN_NOWAIT);
		for (i = 0; i < 2; i++) if (ac[i]) { if (ac[i]->out->length) busy = 1; r = 0; if (0 == ioctl(ac[i]->fd, FIONREAD, &r) && r > 0) busy = 1; }
		idle = busy ? 0 : idle + 1;
	}
	if (idle < 3) ac_log("stuck");
}
static void op_acon(void) {
	int sv[2], i, fds0 = ac_count_fds();
	memset(ac_call, 0, sizeof ac_call); ac_ncall = ac_nrecv = 0;
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) abort();
	li_event_loop_init(&ac_loop, ev_loop_new(0));
	for (i = 0; i < 2; i++) { int b = 4096; setsockopt(sv[i], SOL_SOCKET, SO_SNDBUF, &b, sizeof b); ac[i] = li_angel_connection_new(&ac_loop, sv[i], NULL, ac_recv_cb, ac_close_cb); }
	while (more()) {
		char *op = nexts();
		if (!strcmp(op, "call") || !strcmp(op, "simple")) {
			int call = op[0] == 'c', side = nexti(), ms = nexti(); field m = next(), a = next(); gint64 n = nexti(), seed = nexti();
			GError *err = NULL; gboolean ok;
			if (!ac[side] || ac_ncall >= AC_MAX) { ac_log("gone"); continue; }
			if (call) {
				int k = ac_ncall++; liAngelCall *c = ac_call[k] = li_angel_call_new(&ac_loop, ac_result_cb, ms / 1000.0);
				c->context = GINT_TO_POINTER(k);
				ok = li_angel_send_call(ac[side], m.p, m.len, a.p, a.len, c, ac_data(n, seed), &err);
				if (!ok) { ac_call[k] = NULL; li_angel_call_free(c); }
			} else ok = li_angel_send_simple_call(ac[side], m.p, m.len, a.p, a.len, ac_data(n, seed), &err);
			ac_log("sent %d %d", ok, err ? err->code : -1);
			if (err) g_error_free(err);
		} else if (!strcmp(op, "reply")) {
			int k = nexti(); gint64 en = nexti(), dn = nexti(), nf = nexti(), seed = nexti(), j; GArray *fds = NULL; GError *err = NULL; gboolean ok;
			if (k < 0 || k >= ac_nrecv || !ac[ac_recv[k].side]) { ac_log("gone"); continue; }
			if (nf > 0) { fds = g_array_new(FALSE, FALSE, sizeof(int)); for (j = 0; j < nf; j++) { char b[32]; FILE *f = tmpfile(); int fd = dup(fileno(f)); fclose(f); g_snprintf(b, sizeof b, "%d", (int) (seed + j)); if (write(fd, b, strlen(b)) < 0) abort(); g_array_append_val(fds, fd); } }
			ok = li_angel_send_result(ac[ac_recv[k].side], ac_recv[k].id, ac_data(en, seed + 1), ac_data(dn, seed + 2), fds, &err);
			ac_log("replied %d %d", ok, err ? err->code : -1);
			if (err) g_error_free(err);
		} else if (!strcmp(op, "free")) {
			int k = nexti();
			if (k < 0 || k >= ac_ncall || !ac_call[k]) { ac_log("gone"); continue; }
			{ liAngelCall *c = ac_call[k]; ac_call[k] = NULL; ac_log("freed %d", li_angel_call_free(c)); }
		} else if (!strcmp(op, "pump")) ac_pump();
		else if (!strcmp(op, "sleep")) { usleep(1000 * nexti()); ev_run(ac_loop.loop, EVRUN_NOWAIT); }
		else if (!strcmp(op, "churn")) { /* total batch free-every */
			gint64 total = nexti(), batch = nexti(), every = nexti(), freed = 0, done = 0; int j;
			ac_quiet = 1; ac_ncb = ac_refused = 0;
			while (done < total) {
				ac_ncall = ac_nrecv = 0;
				for (j = 0; j < batch; j++, done++) {
					GError *err = NULL; liAngelCall *c = li_angel_call_new(&ac_loop, ac_result_cb, 1000);
					c->context = GINT_TO_POINTER(j);
					if (!li_angel_send_call(ac[0], "m", 1, "a", 1, c, NULL, &err)) { ac_refused++; li_angel_call_free(c); g_error_free(err); c = NULL; }
					ac_call[j] = c;
				}
				ac_pump();
				for (j = 0; j < batch; j++) if (ac_call[j] && 0 == (done + j) % every) { liAngelCall *c = ac_call[j]; ac_call[j] = NULL; li_angel_call_free(c); freed++; }
				for (j = 0; j < ac_nrecv; j++) li_angel_send_result(ac[1], ac_recv[j].id, NULL, NULL, NULL, NULL);
				ac_pump();
				if (ac_refused) break;
			}
			ac_quiet = 0; ac_ncall = ac_nrecv = 0; memset(ac_call, 0, sizeof ac_call);
			ac_log("churn %d refused, %d of %d ended", ac_refused, ac_ncb + (int) freed + ac_refused, (int) done);
		}
		else if (!strcmp(op, "close")) { int side = nexti(); liAngelConnection *c = ac[side]; if (c) { ac[side] = NULL; li_angel_connection_free(c); } }
		ac_log(".");
	}
	for (i = 0; i < 2; i++) { liAngelConnection *c = ac[i]; ac[i] = NULL; if (c) li_angel_connection_free(c); }
	ac_pump();
	for (i = 0; i < ac_ncall; i++) if (ac_call[i]) { ac_log("left %d", i); li_angel_call_free(ac_call[i]); }
	ev_loop_destroy(li_event_loop_clear(&ac_loop));
	ac_log("fds %d", ac_count_fds() - fds0);
}

int main(void) {
	OUT = g_string_sized_new(65536);
	/* keep stdout clean */
	out_fd = dup(1); dup2(2, 1);
	signal(SIGPIPE, SIG_IGN);
	for (;;) {
		guint32 total, i; char *msg, *p; char *op;
		full_read(&total, 4);
		msg = malloc(total + 1); full_read(msg, total);
		p = msg; memcpy(&NF, p, 4); p += 4;
		F = malloc(sizeof(field) * (NF + 1));
		for (i = 0; i < NF; i++) { guint32 l; memcpy(&l, p, 4); p += 4; F[i].len = l; F[i].p = malloc(l + 1); memcpy(F[i].p, p, l); F[i].p[l] = 0; p += l; }
		CUR = 0; g_string_truncate(OUT, 0); NOUT = 0;
		op = nexts();
		if (!strcmp(op, "cq")) op_cq();
		else if (!strcmp(op, "chenc")) op_chenc();
		else if (!strcmp(op, "chencfile")) op_chenc_file();
		else if (!strcmp(op, "chdec")) op_chdec();
		else if (!strcmp(op, "hdr")) op_hdr();
		else if (!strcmp(op, "url")) op_url();
		else if (!strcmp(op, "ip")) op_ip();
		else if (!strcmp(op, "radix")) op_radix();
		else if (!strcmp(op, "idlist")) op_idlist();
		else if (!strcmp(op, "adata")) op_adata();
		else if (!strcmp(op, "acon")) op_acon();
		else if (!strcmp(op, "req")) op_req();
		else if (!strcmp(op, "hello")) op_hello();
		else if (!strcmp(op, "throttle")) op_throttle();
		else { fprintf(stderr, "unknown op %s\n", op); _exit(42); }
		{ guint32 len = OUT->len + 4; full_write(&len, 4); full_write(&NOUT, 4); full_write(OUT->str, OUT->len); }
		for (i = 0; i < NF; i++) free(F[i].p);
		free(F); free(msg);
	}
}

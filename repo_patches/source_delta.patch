From f3ee6d95b166ad01c2116fbc566d4c00d70fbbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:36 +0000
Subject: [PATCH 001/110] fix: move memory accounting with the chunk in
 li_chunkqueue_steal_chunk

mem_usage was only moved if the queues used different limits; moving a
memory chunk between queues without (or with the same) limit made the
accounting negative later and aborted the server.
---
 src/main/chunk.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3308d9e..96acf5e 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -751,17 +751,16 @@ goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 	in->length -= length;
 	out->bytes_in += length;
 	out->length += length;
-	if (in->limit != out->limit) {
-		if (c->type == STRING_CHUNK) {
-			cqlimit_update(out, c->data.str->len);
-			cqlimit_update(in, - (goffset)c->data.str->len);
-		} else if (c->type == MEM_CHUNK) {
-			cqlimit_update(out, c->mem->len);
-			cqlimit_update(in, - (goffset)c->mem->len);
-		} else if (c->type == BUFFER_CHUNK) {
-			cqlimit_update(out, c->data.buffer.length);
-			cqlimit_update(in, - (goffset)c->data.buffer.length);
-		}
+	/* mem_usage has to move with the chunk even if both queues share the same limit (or have none) */
+	if (c->type == STRING_CHUNK) {
+		cqlimit_update(out, c->data.str->len);
+		cqlimit_update(in, - (goffset)c->data.str->len);
+	} else if (c->type == MEM_CHUNK) {
+		cqlimit_update(out, c->mem->len);
+		cqlimit_update(in, - (goffset)c->mem->len);
+	} else if (c->type == BUFFER_CHUNK) {
+		cqlimit_update(out, c->data.buffer.length);
+		cqlimit_update(in, - (goffset)c->data.buffer.length);
 	}
 	return length;
 }
-- 
2.43.0


From 332dcc1f0fa80309d633f7ba3c0022b17e0c31e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:13 +0000
Subject: [PATCH 002/110] fix: account already queued data in
 li_chunkqueue_use_limit

---
 src/main/chunk.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 96acf5e..8df7934 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -449,7 +449,10 @@ void li_chunkqueue_free(liChunkQueue *cq) {
 }
 
 void li_chunkqueue_use_limit(liChunkQueue *cq, goffset limit) {
-	if (!cq->limit) cq->limit = li_cqlimit_new();
+	if (!cq->limit) {
+		cq->limit = li_cqlimit_new();
+		cq->limit->current = cq->mem_usage; /* account what is already queued */
+	}
 	li_cqlimit_set_limit(cq->limit, limit);
 }
 
-- 
2.43.0


From 23310a5b960d6b00f8cd902430e2aa49fa0dadce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:18 +0000
Subject: [PATCH 003/110] fix: don't treat raw memory as GByteArray in
 li_chunkqueue_extract_to_memory on read errors

---
 src/main/chunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 8df7934..3293bc3 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -870,7 +870,6 @@ gboolean li_chunkqueue_extract_to_memory(liChunkQueue *cq, goffset len, void *de
 	return TRUE;
 
 error:
-	g_byte_array_set_size(dest, 0);
 	return FALSE;
 }
 
-- 
2.43.0


From ff33ad73465be03751ccc5190195a59fdd24d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 004/110] fix: don't return pread() data for a mmap()ed range
 when mixing li_chunkiter_read and li_chunkiter_read_mmap

---
 src/main/chunk.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3293bc3..5b81f96 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -120,6 +120,8 @@ liHandlerResult li_chunkiter_read(liChunkIter iter, off_t start, off_t length, c
 		} else {
 			g_byte_array_set_size(c->mem, length);
 		}
+		/* c->mem doesn't cache the range from li_chunkiter_read_mmap anymore */
+		if (MAP_FAILED == c->data.file.mmap.data) c->data.file.mmap.length = 0;
 
 		our_start = start + c->offset + c->data.file.start;
 
@@ -257,7 +259,7 @@ read_chunk:
 #endif
 			}
 		}
-		*data_start = (c->mem ? (char*) c->mem->data : c->data.file.mmap.data) + start + c->offset + c->data.file.start - c->data.file.mmap.offset;
+		*data_start = (MAP_FAILED == c->data.file.mmap.data ? (char*) c->mem->data : c->data.file.mmap.data) + start + c->offset + c->data.file.start - c->data.file.mmap.offset;
 		*data_len = length;
 		break;
 	case BUFFER_CHUNK:
-- 
2.43.0


From 192fc1f5fedd9b57447af35796ee49b9c82255d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:05 +0000
Subject: [PATCH 005/110] fix: sanitize line breaks in li_http_header_append
 and li_http_header_overwrite too

---
 src/main/http_headers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/http_headers.c b/src/main/http_headers.c
index 9d6b0ae..9fe226d 100644
--- a/src/main/http_headers.c
+++ b/src/main/http_headers.c
@@ -140,6 +140,7 @@ void li_http_header_append(liHttpHeaders *headers, const gchar *key, size_t keyl
 		s = h->data->str + oldlen;
 		memcpy(s, ", ", 2);
 		memcpy(s+2, val, valuelen);
+		_http_header_sanitize(h);
 	}
 }
 
@@ -156,6 +157,7 @@ void li_http_header_overwrite(liHttpHeaders *headers, const gchar *key, size_t k
 		g_string_set_size(h->data, keylen + 2 + valuelen);
 		/* only overwrite value */
 		memcpy(h->data->str + keylen + 2, val, valuelen);
+		_http_header_sanitize(h);
 	}
 }
 
-- 
2.43.0


From acd2aa53c3d362bfd62276d96c5a186325062765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:29 +0000
Subject: [PATCH 006/110] fix: write all digits of chunk sizes >= 4 GiB

---
 src/main/filter_chunked.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index e165788..626a842 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -2,13 +2,14 @@
 #include <lighttpd/base.h>
 
 /* len != 0 */
-static void http_chunk_append_len(liChunkQueue *cq, size_t len) {
-	size_t i, olen = len, j;
+static void http_chunk_append_len(liChunkQueue *cq, goffset len) {
+	goffset olen = len;
+	guint i, j;
 	GByteArray *a;
 
 	a = g_byte_array_sized_new(sizeof(len) * 2 + 2);
 
-	for (i = 0; i < 8 && len; i++) {
+	for (i = 0; len; i++) {
 		len >>= 4;
 	}
 
-- 
2.43.0


From 3179ff12661cde4a1619f6bc96c850de5b94e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 007/110] fix: li_path_simplify() of an empty path must not
 contain a NUL byte

---
 src/common/utils.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 1ab5ce0..62df8d9 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -375,6 +375,11 @@ void li_path_simplify(GString *path) {
 	}
 
 	pre1 = *(walk++);
+	if (pre1 == '\0') {
+		/* empty path */
+		g_string_assign(path, "/");
+		return;
+	}
 	c    = *(walk++);
 	pre  = pre1;
 	if (pre1 != '/') {
@@ -383,11 +388,6 @@ void li_path_simplify(GString *path) {
 	}
 	*(out++) = pre1;
 
-	if (pre1 == '\0') {
-		g_string_set_size(path, out - start);
-		return;
-	}
-
 	while (1) {
 		if (c == '/' || c == '\0') {
 			toklen = out - slash;
-- 
2.43.0


From 41bef74c172fe4d62e52c2e612d27e5b72ab969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 008/110] fix: truncate decoded url if it ends with an
 incomplete escape sequence

---
 src/common/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 62df8d9..0ba5fee 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -341,8 +341,8 @@ void li_url_decode(GString *path) {
 				}
 				src += 2;
 			} else {
-				/* end of string */
-				return;
+				/* end of string: drop incomplete escape */
+				break;
 			}
 		} else {
 			if (c < 32 || c == 127) c = '_';
-- 
2.43.0


From 84b67ecaa0ad80166f1ec5bc7b5d2076d1038fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:05 +0000
Subject: [PATCH 009/110] fix: only accept hexadecimal digits in url escape
 sequences

---
 src/common/utils.c | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 0ba5fee..7ea500c 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -310,20 +310,11 @@ gint li_receive_fd(gint s, gint *fd) { /* read fd from unix socket s */
  * returns -1 on invalid input.
  */
 static int hex2int(unsigned char hex) {
-	int res;
-	if (hex >= 'A') { /* 'A' < 'a': hex >= 'A' --> hex >= 'a' */
-		if (hex >= 'a') {
-			res = hex - 'a' + 10;
-		} else {
-			res = hex - 'A' + 10;
-		}
-	} else {
-		res = hex - '0';
-	}
-	if (res > 15)
-		res = -1;
+	if (hex >= '0' && hex <= '9') return hex - '0';
+	if (hex >= 'a' && hex <= 'f') return hex - 'a' + 10;
+	if (hex >= 'A' && hex <= 'F') return hex - 'A' + 10;
 
-	return res;
+	return -1;
 }
 
 void li_url_decode(GString *path) {
-- 
2.43.0


From e9b9aa1d35a1f0ea9c658aa97d30d83cdb689695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:38 +0000
Subject: [PATCH 010/110] fix: don't match the key against values in
 li_querystring_find

---
 src/common/utils.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7ea500c..934e080 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -445,7 +445,13 @@ gboolean li_querystring_find(const GString *querystring, const gchar *key, const
 				return TRUE;
 			}
 
-			start = c + 1;
+			if (*c == '=') {
+				/* not the key we look for; don't search for it in the value */
+				while (c + 1 != end && !((c[1] == '&' || c[1] == ';') && (delim == '\0' || c[1] == delim)))
+					c++;
+			} else {
+				start = c + 1;
+			}
 		}
 	}
 
-- 
2.43.0


From 75b4dc2d0b1f09050377ed60c527823e5769f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:25 +0000
Subject: [PATCH 011/110] fix: don't wrap around big decimal numbers in IP
 addresses

---
 src/common/ip_parsers.rl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index aef15e6..ce7b47d 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -5,7 +5,8 @@
 	machine ipv4_parser;
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	# saturate at a value bigger than all limits
+	action dc_step { tmpval = 10*tmpval + (fc - '0'); if (tmpval > 65535) tmpval = 65536; }
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
@@ -58,7 +59,8 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 	action mark { mark = fpc; }
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	# saturate at a value bigger than all limits
+	action dc_step { tmpval = 10*tmpval + (fc - '0'); if (tmpval > 65535) tmpval = 65536; }
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
-- 
2.43.0


From e055039028b7ac9b9512ff1bedda398dcfd45569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:25 +0000
Subject: [PATCH 012/110] fix: return the address of uncompressed IPv6
 addresses

---
 src/common/ip_parsers.rl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index ce7b47d..bfbabc7 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -136,7 +136,11 @@ gboolean li_parse_ipv6(const char *str, guint8 *ip, guint *network, guint16 *por
 	%% write exec noend;
 
 	if (!res || cs < ipv6_parser_first_final) return FALSE;
-	if (!compressed) return (prec == 8);
+	if (!compressed) {
+		if (prec != 8) return FALSE;
+		memcpy(ip, predata, 16);
+		return TRUE;
+	}
 	if (prec + postc > 7) return FALSE;
 	for ( ; prec < 8-postc; prec++) predata[prec] = 0;
 	for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
-- 
2.43.0


From 78d269581c27994d6c52317bb613eb47ab6c4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:25 +0000
Subject: [PATCH 013/110] fix: don't accept IPv6 addresses with trailing colon

---
 src/common/ip_parsers.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index bfbabc7..466af02 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -100,7 +100,7 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 		postc += 2;
 	};
 
-	ipv6_data = ((pregroup ":")+ | ":") ((":" @ { compressed = TRUE; } (postgroup ":")* (postgroup | post_ipv4)?) | (pregroup | pre_ipv4));
+	ipv6_data = ((pregroup ":")+ | ":") ((":" @ { compressed = TRUE; } ((postgroup ":")* (postgroup | post_ipv4))?) | (pregroup | pre_ipv4));
 
 	# so we don't need pe/eof vars
 	end = (space | 0) @{ cs = ipv6_parser_first_final; fbreak; };
-- 
2.43.0


From f838b0a2f569ef0c53aa619e340f40dcc78dbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:05 +0000
Subject: [PATCH 014/110] fix: use the next key word to find the branch in
 li_radixtree_remove

---
 src/common/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/radix.c b/src/common/radix.c
index c86b718..107c77a 100644
--- a/src/common/radix.c
+++ b/src/common/radix.c
@@ -211,7 +211,7 @@ static gpointer radixtree_remove(liRadixNode **nodeptr, rdxBase *input, guint32
 
 	if (mask & 0x1) {
 		/* next "layer" */
-		input++;
+		current = *(++input);
 		bits -= RDXBITS;
 		nextnode = (current & RDX_BIT(0)) ? &node->right : &node->left;
 	} else {
-- 
2.43.0


From 717b7e1642f21864561d11305e81ffa9102b2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:54 +0000
Subject: [PATCH 015/110] fix: start search for a free id at the correct bit in
 li_idlist_get

---
 src/common/idlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/idlist.c b/src/common/idlist.c
index 7504c53..ed244ed 100644
--- a/src/common/idlist.c
+++ b/src/common/idlist.c
@@ -77,7 +77,7 @@ gint li_idlist_get(liIDList *l) {
 	}
 
 	/* array entry != -1, search for free bit */
-	if (fndx == ndx) bndx = (l->next_free_id / UL_BITS) - 1;
+	if (fndx == ndx) bndx = (gint) (l->next_free_id % UL_BITS) - 1;
 	else bndx = -1;
 	bndx = g_bit_nth_lsf(~u, bndx);
 
-- 
2.43.0


From aae9b89ca2df016b3a5d58e27bde558f81e07811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:14 +0000
Subject: [PATCH 016/110] fix: reject requests with different or malformed
 Content-Length headers

---
 src/main/request.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 86a0cbb..66ec47f 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -188,14 +188,19 @@ gboolean li_request_validate_header(liConnection *con) {
 	}
 
 	/* content-length */
-	hh = li_http_header_lookup(req->headers, CONST_STR_LEN("content-length"));
-	if (hh) {
-		const gchar *val = LI_HEADER_VALUE(hh);
+	l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length"));
+	for ( ; l ; l = li_http_header_find_next(l, CONST_STR_LEN("content-length")) ) {
+		const gchar *val;
 		gint64 r;
 		char *err;
 
+		hh = (liHttpHeader*) l->data;
+		val = LI_HEADER_VALUE(hh);
+
+		errno = 0;
 		r = g_ascii_strtoll(val, &err, 10);
-		if (*err != '\0') {
+		/* strtoll would also accept empty strings, leading spaces and a leading '+' */
+		if (*err != '\0' || (!g_ascii_isdigit(*val) && '-' != *val)) {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
 			bad_request(con, 400); /* bad request */
 			return FALSE;
@@ -220,6 +225,12 @@ gboolean li_request_validate_header(liConnection *con) {
 			}
 		}
 
+		if (con->mainvr->request.content_length != -1 && con->mainvr->request.content_length != r) {
+			/* different content-length headers */
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
 		con->mainvr->request.content_length = r;
 	}
 
-- 
2.43.0


From a31b9dae25e318f2b03425291b697a450f792a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:33 +0000
Subject: [PATCH 017/110] fix: don't keep connection alive if the request body
 wasn't read completely

---
 src/main/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 12ec924..62f99f9 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -559,6 +559,9 @@ void li_connection_request_done(liConnection *con) {
 		VR_DEBUG(con->mainvr, "response end (keep_alive = %i)", con->info.keep_alive);
 	}
 
+	/* the remaining request body must not be parsed as the next request */
+	if (!con->in.out->is_closed) con->info.keep_alive = FALSE;
+
 	li_plugins_handle_close(con);
 
 	s = g_atomic_int_get(&con->srv->dest_state);
-- 
2.43.0


From 2a38c47b777ea484984b21ef479db0692269b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 018/110] fix: reject GET/HEAD requests with chunked request
 body

---
 src/main/request.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 66ec47f..f1a53cd 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -291,9 +291,9 @@ gboolean li_request_validate_header(liConnection *con) {
 	switch(con->mainvr->request.http_method) {
 	case LI_HTTP_METHOD_GET:
 	case LI_HTTP_METHOD_HEAD:
-		/* content-length is forbidden for those */
-		if (con->mainvr->request.content_length > 0) {
-			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length -> 400");
+		/* content-length and chunked encoding are forbidden for those */
+		if (con->mainvr->request.content_length > 0 || transfer_encoding_chunked) {
+			VR_ERROR(con->mainvr, "%s", "GET/HEAD with request body -> 400");
 
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 19e427d6ffeb378f4c9fa5fa186fc7cd65065508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:34 +0000
Subject: [PATCH 019/110] fix: reset chunked request body decoder when a
 connection object gets reused

---
 src/main/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 62f99f9..8190470 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -764,6 +764,7 @@ static void li_connection_reset2(liConnection *con) {
 	li_vrequest_reset(con->mainvr, FALSE);
 
 	li_http_request_parser_reset(&con->req_parser_ctx);
+	memset(&con->in_chunked_decode_state, 0, sizeof(con->in_chunked_decode_state));
 
 	g_string_truncate(con->info.remote_addr_str, 0);
 	li_sockaddr_clear(&con->info.remote_addr);
-- 
2.43.0


From 2aa305fde39de88f9c94c4aa16d62928be2f3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:31 +0000
Subject: [PATCH 020/110] fix: don't send both Content-Length and chunked
 Transfer-Encoding in responses

---
 src/main/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index 09eb87a..d7ca828 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -62,7 +62,8 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
-		/* TODO: maybe someone set a content length header? */
+		/* a message must not have both Content-Length and Transfer-Encoding headers */
+		li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
 		if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
 			vr->response.transfer_encoding |= LI_HTTP_TRANSFER_ENCODING_CHUNKED;
 			li_http_header_append(vr->response.headers, CONST_STR_LEN("Transfer-Encoding"), CONST_STR_LEN("chunked"));
-- 
2.43.0


From c40279447797dd66245096fa902cf19a899241b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:50 +0000
Subject: [PATCH 021/110] fix: only accept digits in Content-Length

---
 src/main/request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index f1a53cd..df73314 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -199,8 +199,8 @@ gboolean li_request_validate_header(liConnection *con) {
 
 		errno = 0;
 		r = g_ascii_strtoll(val, &err, 10);
-		/* strtoll would also accept empty strings, leading spaces and a leading '+' */
-		if (*err != '\0' || (!g_ascii_isdigit(*val) && '-' != *val)) {
+		/* strtoll would also accept empty strings, leading spaces and a leading sign */
+		if (*err != '\0' || !g_ascii_isdigit(*val)) {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 6d5d4a28a9137b28b81d8a0c394a25939e806cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:26 +0000
Subject: [PATCH 022/110] fix: continue reading from a socket after its
 chunkqueue limit got unlocked

---
 src/main/connection.c | 2 ++
 src/main/stream.c     | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 8190470..dc8b18d 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -542,6 +542,8 @@ void li_connection_start(liConnection *con, liSocketAddress remote_addr, int s,
 
 	li_chunkqueue_use_limit(con->con_sock.raw_in->out, LI_CONNECTION_DEFAULT_CHUNKQUEUE_LIMIT);
 	li_chunkqueue_use_limit(con->con_sock.raw_out->out, LI_CONNECTION_DEFAULT_CHUNKQUEUE_LIMIT);
+	/* need to continue reading after the limit for raw_in gets unlocked */
+	if (NULL != con->con_sock.raw_in->cb) con->con_sock.raw_in->cb(con->con_sock.raw_in, LI_STREAM_NEW_CQLIMIT);
 
 	li_stream_connect(&con->out, con->con_sock.raw_out);
 	li_stream_connect(con->con_sock.raw_in, &con->in);
diff --git a/src/main/stream.c b/src/main/stream.c
index 0b8d461..33b5b36 100644
--- a/src/main/stream.c
+++ b/src/main/stream.c
@@ -344,7 +344,8 @@ static void iostream_in_cb(liStream *stream, liStreamEvent event) {
 	switch (event) {
 	case LI_STREAM_NEW_DATA:
 		if (0 == li_chunkqueue_limit_available(stream->out)) {
-			/* locked */
+			/* locked; unlocking only enables read events again, and they are ignored while can_read is set */
+			iostream->can_read = FALSE;
 			return;
 		}
 		if (!iostream->throttled_in && iostream->can_read) {
-- 
2.43.0


From 378a4f0ba96b058e9d96115a99639d415040ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:34 +0000
Subject: [PATCH 023/110] fix: keep waiting for write events on a socket while
 reading is locked

---
 src/main/stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/stream.c b/src/main/stream.c
index 33b5b36..ee71395 100644
--- a/src/main/stream.c
+++ b/src/main/stream.c
@@ -346,6 +346,10 @@ static void iostream_in_cb(liStream *stream, liStreamEvent event) {
 		if (0 == li_chunkqueue_limit_available(stream->out)) {
 			/* locked; unlocking only enables read events again, and they are ignored while can_read is set */
 			iostream->can_read = FALSE;
+			/* iostream_io_cb() disabled all events - still need to wait for write events */
+			if (!iostream->throttled_out && !iostream->can_write && !iostream->out_closed) {
+				li_event_io_add_events(&iostream->io_watcher, LI_EV_WRITE);
+			}
 			return;
 		}
 		if (!iostream->throttled_in && iostream->can_read) {
-- 
2.43.0


From 373396622f9267e81f5671cbcec419f6fce9afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 024/110] fix: don't finish a request while response data is
 still queued in front of the socket

---
 src/main/connection.c     | 1 +
 src/modules/mod_gnutls.c  | 1 +
 src/modules/mod_openssl.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index dc8b18d..0ab0919 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -77,6 +77,7 @@ static void simple_tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 	li_connection_simple_tcp(&data->con, stream, &data->simple_tcp_context, event);
 
 	if (NULL != data->con && data->con->out_has_all_data
+	    && 0 == data->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)) {
 		li_stream_simple_socket_flush(stream);
 		li_connection_request_done(data->con);
diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index ce030da..5d038b8 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -347,6 +347,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
 	if (NULL != conctx->con && conctx->con->out_has_all_data
+	    && 0 == conctx->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)
 	    && li_streams_empty(conctx->con->con_sock.raw_out, NULL)) {
 		li_stream_simple_socket_flush(stream);
diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index b3cec9f..b2e7737 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -95,6 +95,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
 	if (NULL != conctx->con && conctx->con->out_has_all_data
+	    && 0 == conctx->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)
 	    && li_streams_empty(conctx->con->con_sock.raw_out, NULL)) {
 		li_stream_simple_socket_flush(stream);
-- 
2.43.0


From d92d4a8f713c7b883c3a0a98c7ff79b0daeb0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:34 +0000
Subject: [PATCH 025/110] fix: send Content-Length: 0 for 205 responses,
 clients can't know they have no body

---
 src/main/response.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index d7ca828..ed40eaf 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -52,9 +52,13 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 	     vr->response.http_status == 204 ||
 	     vr->response.http_status == 205 ||
 	     vr->response.http_status == 304) {
-		/* They never have a content-body/length */
+		/* They never have a content-body */
 		if (NULL != response_body) li_chunkqueue_skip_all(response_body);
 		if (!upgraded) raw_out->is_closed = TRUE;
+		if (205 == vr->response.http_status) {
+			/* in contrast to the others a client can't know from the status that there is no body */
+			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), CONST_STR_LEN("0"));
+		}
 	} else if (response_complete) {
 		if (vr->request.http_method != LI_HTTP_METHOD_HEAD || response_body->length > 0) {
 			/* do not send content-length: 0 if backend already skipped content generation for HEAD */
-- 
2.43.0


From 2549dc74ad5569a96a6ff898b55eed77eca693d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:42 +0000
Subject: [PATCH 026/110] fix: refuse request headers larger than 64kb before
 they are complete

---
 src/main/http_request_parser.rl | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/main/http_request_parser.rl b/src/main/http_request_parser.rl
index 23008d1..23a5204 100644
--- a/src/main/http_request_parser.rl
+++ b/src/main/http_request_parser.rl
@@ -160,6 +160,8 @@ liHandlerResult li_http_request_parse(liVRequest *vr, liHttpRequestCtx *ctx) {
 				VR_ERROR(vr, "%s", err->message);
 				g_error_free(err);
 			}
+			/* don't wait for the end of a header which already is too large; reading stops when the buffer is full */
+			if (LI_HANDLER_WAIT_FOR_EVENT == res && ctx->chunk_ctx.bytes_in > 64*1024) goto too_large;
 			return res;
 		}
 
@@ -171,18 +173,19 @@ liHandlerResult li_http_request_parse(liVRequest *vr, liHttpRequestCtx *ctx) {
 	if (li_http_request_parser_has_error(ctx)) return LI_HANDLER_ERROR;
 	if (li_http_request_parser_is_finished(ctx)) {
 		/* sanity check: if the whole http request header is larger than 64kbytes, then something probably went wrong */
-		if (ctx->chunk_ctx.bytes_in > 64*1024) {
-			VR_INFO(vr,
-				"request header too large. limit: 64kb, received: %s",
-				li_counter_format((guint64)ctx->chunk_ctx.bytes_in, COUNTER_BYTES, vr->wrk->tmp_str)->str
-			);
-
-			vr->response.http_status = 413; /* Request Entity Too Large */
-			return LI_HANDLER_ERROR;
-		}
+		if (ctx->chunk_ctx.bytes_in > 64*1024) goto too_large;
 
 		li_chunkqueue_skip(ctx->chunk_ctx.cq, ctx->chunk_ctx.bytes_in);
 		return LI_HANDLER_GO_ON;
 	}
 	return LI_HANDLER_ERROR;
+
+too_large:
+	VR_INFO(vr,
+		"request header too large. limit: 64kb, received: %s",
+		li_counter_format((guint64)ctx->chunk_ctx.bytes_in, COUNTER_BYTES, vr->wrk->tmp_str)->str
+	);
+
+	vr->response.http_status = 413; /* Request Entity Too Large */
+	return LI_HANDLER_ERROR;
 }
-- 
2.43.0


From b159b6ab950859b65fecd22cf82e087c1d49eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:15 +0000
Subject: [PATCH 027/110] fix: don't use connection streams after the
 connection got closed during an upgrade

---
 src/main/connection.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 0ab0919..e0e12db 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -660,11 +660,17 @@ static void mainvr_connection_upgrade(liVRequest *vr, liStream *backend_drain, l
 	vr->response.transfer_encoding = 0;
 	li_connection_update_io_wait(con);
 
+	/* the connection might get closed while we connect the streams */
+	li_stream_acquire(&con->in);
+	li_stream_acquire(&con->out);
+
 	li_stream_disconnect_dest(&con->in);
 	con->in.out->is_closed = FALSE;
 
 	li_stream_connect(&con->in, backend_drain);
+	if (LI_CON_STATE_UPGRADED != con->state) goto out;
 	li_stream_connect(backend_source, &con->out);
+	if (LI_CON_STATE_UPGRADED != con->state) goto out;
 
 	li_vrequest_reset(con->mainvr, TRUE);
 
@@ -675,6 +681,10 @@ static void mainvr_connection_upgrade(liVRequest *vr, liStream *backend_drain, l
 
 	li_stream_notify(&con->out);
 	li_stream_notify(&con->in);
+
+out:
+	li_stream_release(&con->in);
+	li_stream_release(&con->out);
 }
 
 static const liConCallbacks con_callbacks = {
-- 
2.43.0


From d3302c6970a1a29d403b1cd1f959c8f9bf64c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:18 +0000
Subject: [PATCH 028/110] fix: forward data a client sent before the upgrade
 finished to the backend

---
 src/main/connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index e0e12db..0cf1b39 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -674,8 +674,9 @@ static void mainvr_connection_upgrade(liVRequest *vr, liStream *backend_drain, l
 
 	li_vrequest_reset(con->mainvr, TRUE);
 
+	/* forward data the client already sent to the backend */
 	if (NULL != con->in.source) {
-		li_chunkqueue_steal_all(con->out.out, backend_drain->out);
+		li_chunkqueue_steal_all(con->in.out, con->in.source->out);
 	}
 	con->info.out_queue_length = con->out.out->length;
 
-- 
2.43.0


From 35ffc74a3265f28c2617acecf4405232efa661df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:55 +0000
Subject: [PATCH 029/110] fix: abort responses when a backend closes the
 connection before the announced end of the body

---
 src/main/stream_http_response.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 2981f0c..bed2259 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -7,7 +7,7 @@ struct liStreamHttpResponse {
 
 	liStream stream;
 	liVRequest *vr;
-	gboolean keepalive, response_headers_finished, transfer_encoding_chunked, wait_for_close;
+	gboolean keepalive, response_headers_finished, transfer_encoding_chunked, wait_for_close, no_body;
 	goffset content_length;
 	liFilterChunkedDecodeState chunked_decode_state;
 };
@@ -168,6 +168,10 @@ static void check_response_header(liStreamHttpResponse* shr) {
 		}
 	}
 
+	/* these never have a body, don't wait for it */
+	shr->no_body = LI_HTTP_METHOD_HEAD == shr->vr->request.http_method
+		|| 204 == resp->http_status || 304 == resp->http_status;
+
 	shr->response_headers_finished = TRUE;
 	li_vrequest_indirect_headers_ready(shr->vr);
 
@@ -206,7 +210,7 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 			} else {
 				li_stream_reset(&shr->stream);
 			}
-		} else if (shr->stream.source->out->is_closed) {
+		} else if (shr->stream.source->out->is_closed && !shr->no_body) {
 			li_stream_disconnect(&shr->stream);
 		}
 	} else if (shr->wait_for_close) {
@@ -225,6 +229,9 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 		if (shr->content_length == 0) {
 			shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
+		} else if (shr->stream.source->out->is_closed && !shr->no_body) {
+			/* backend closed connection before sending the complete response: abort */
+			li_stream_disconnect(&shr->stream);
 		}
 	}
 	li_stream_notify(&shr->stream);
-- 
2.43.0


From 459f32a721134cba3be6bc1bf817664fb5ab957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:32 +0000
Subject: [PATCH 030/110] fix: don't block a worker when a static file is a
 FIFO

---
 src/main/stat_cache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/stat_cache.c b/src/main/stat_cache.c
index 4089804..8a1bd37 100644
--- a/src/main/stat_cache.c
+++ b/src/main/stat_cache.c
@@ -315,8 +315,8 @@ static liHandlerResult stat_cache_get(liVRequest *vr, GString *path, struct stat
 	}
 
 	if (fd) {
-		/* open + fstat */
-		while (-1 == (*fd = open(path->str, O_RDONLY))) {
+		/* open + fstat; must not block if path is a FIFO */
+		while (-1 == (*fd = open(path->str, O_RDONLY | O_NONBLOCK))) {
 			if (errno == EINTR)
 				continue;
 
-- 
2.43.0


From 45024296c190d7fc314959e264ee6cf43edfe4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:15 +0000
Subject: [PATCH 031/110] fix: check If-Range before serving a range of a
 static file

---
 src/main/plugin_core.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index e916202..131656b 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -541,6 +541,22 @@ static liAction* core_index(liServer *srv, liWorker *wrk, liPlugin* p, liValue *
 }
 
 
+/* a range may only be served if the client has the current version of the file (strong compare) */
+static gboolean core_static_check_if_range(liVRequest *vr) {
+	liHttpHeader *hh_if_range, *hh_current;
+
+	hh_if_range = li_http_header_lookup(vr->request.headers, CONST_STR_LEN("if-range"));
+	if (NULL == hh_if_range) return TRUE;
+
+	if ('"' == LI_HEADER_VALUE(hh_if_range)[0]) {
+		hh_current = li_http_header_lookup(vr->response.headers, CONST_STR_LEN("etag"));
+	} else {
+		hh_current = li_http_header_lookup(vr->response.headers, CONST_STR_LEN("last-modified"));
+	}
+
+	return NULL != hh_current && 0 == strcmp(LI_HEADER_VALUE(hh_if_range), LI_HEADER_VALUE(hh_current));
+}
+
 static liHandlerResult core_handle_static(liVRequest *vr, gpointer param, gpointer *context) {
 	int fd = -1;
 	struct stat st;
@@ -681,8 +697,7 @@ static liHandlerResult core_handle_static(liVRequest *vr, gpointer param, gpoint
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Accept-Ranges"), CONST_STR_LEN("bytes"));
 
 			hh_range = li_http_header_lookup(vr->request.headers, CONST_STR_LEN("range"));
-			if (hh_range) {
-				/* TODO: Check If-Range: header */
+			if (hh_range && core_static_check_if_range(vr)) {
 				const GString range_str = li_const_gstring(LI_HEADER_VALUE_LEN(hh_range));
 				liParseHttpRangeState rs;
 				gboolean is_multipart = FALSE, done = FALSE;
-- 
2.43.0


From cdc2ed359bb0eb194c60467d4b24eea1725d4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:43 +0000
Subject: [PATCH 032/110] fix: handle all interim (1xx) responses of backends,
 also when they arrive together with the final response

---
 src/main/http_response_parser.rl | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main/http_response_parser.rl b/src/main/http_response_parser.rl
index 9c8a9cb..05569bb 100644
--- a/src/main/http_response_parser.rl
+++ b/src/main/http_response_parser.rl
@@ -23,14 +23,11 @@
 	action status {
 		getStringTo(fpc, ctx->h_value);
 		ctx->response->http_status = atoi(ctx->h_value->str);
-		switch (ctx->response->http_status) {
-		case 100: /* Continue */
-		case 102: /* Processing */
+		/* ignore interim responses (100 Continue, 102 Processing, 103 Early Hints, ...);
+		 * don't ignore 101 Switching Protocols
+		 */
+		if (ctx->response->http_status >= 100 && ctx->response->http_status < 200 && ctx->response->http_status != 101) {
 			ctx->drop_header = TRUE;
-			break;
-			/* don't ignore 101 Switching Protocols */
-		default:
-			break;
 		}
 	}
 
@@ -155,6 +152,7 @@ static gboolean li_http_response_handle_finished(liHttpResponseCtx *ctx) {
 	li_chunkqueue_skip(ctx->chunk_ctx.cq, ctx->chunk_ctx.bytes_in);
 	if (ctx->drop_header) {
 		li_http_response_parser_reset(ctx);
+		ctx->response->http_status = 0;
 		return FALSE;
 	} else {
 		if (ctx->response->http_status == 0) ctx->response->http_status = 200;
@@ -186,6 +184,9 @@ liHandlerResult li_http_response_parse(liVRequest *vr, liHttpResponseCtx *ctx) {
 		li_chunk_parser_done(&ctx->chunk_ctx, p - ctx->chunk_ctx.buf);
 
 		if (li_http_response_handle_finished(ctx)) return LI_HANDLER_GO_ON;
+
+		/* parser was reset to skip an interim response: continue with the data following it */
+		if (LI_HANDLER_GO_ON != (res = li_chunk_parser_prepare(&ctx->chunk_ctx))) return res;
 	}
 
 	return LI_HANDLER_ERROR;
-- 
2.43.0


From cd8e550fe9081f3ddac3d1a6434ab8516982f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:43 +0000
Subject: [PATCH 033/110] fix: combine request headers with the same name into
 one CGI variable

---
 src/main/environment.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/main/environment.c b/src/main/environment.c
index 2fcc9d7..3704a07 100644
--- a/src/main/environment.c
+++ b/src/main/environment.c
@@ -178,10 +178,15 @@ void li_environment_dup2cgi(liVRequest *vr, liEnvironmentDup *envdup, liAddEnvir
 
 	{
 		GList *i;
+		guint n;
+		/* a variable must not be sent twice: header fields with the same name are combined (RFC 3875, 4.1.18) */
+		GHashTable *values = g_hash_table_new_full((GHashFunc) g_string_hash, (GEqualFunc) g_string_equal, NULL, _hash_free_gstring);
+		GPtrArray *names = g_ptr_array_new_with_free_func(_hash_free_gstring);
 
 		for (i = vr->request.headers->entries.head; NULL != i; i = i->next) {
 			liHttpHeader *h = (liHttpHeader*) i->data;
 			const GString hkey = li_const_gstring(h->data->str, h->keylen);
+			GString *value;
 			g_string_truncate(tmp, 0);
 			if (!li_strncase_equal(&hkey, CONST_STR_LEN("CONTENT-TYPE"))) {
 				li_g_string_append_len(tmp, CONST_STR_LEN("HTTP_"));
@@ -189,8 +194,27 @@ void li_environment_dup2cgi(liVRequest *vr, liEnvironmentDup *envdup, liAddEnvir
 			li_g_string_append_len(tmp, h->data->str, h->keylen);
 			cgi_fix_header_name(tmp);
 
-			add_env_var(envdup, callback, param, GSTR_LEN(tmp), h->data->str + h->keylen+2, h->data->len - (h->keylen+2));
+			if (NULL == (value = g_hash_table_lookup(values, tmp))) {
+				GString *name = g_string_new_len(GSTR_LEN(tmp));
+				value = g_string_sized_new(63);
+				g_ptr_array_add(names, name);
+				g_hash_table_insert(values, name, value);
+			} else if (li_http_header_key_is(h, CONST_STR_LEN("Cookie"))) {
+				li_g_string_append_len(value, CONST_STR_LEN("; "));
+			} else {
+				li_g_string_append_len(value, CONST_STR_LEN(", "));
+			}
+			li_g_string_append_len(value, h->data->str + h->keylen+2, h->data->len - (h->keylen+2));
+		}
+
+		for (n = 0; n < names->len; n++) {
+			GString *name = g_ptr_array_index(names, n);
+			GString *value = g_hash_table_lookup(values, name);
+			add_env_var(envdup, callback, param, GSTR_LEN(name), GSTR_LEN(value));
 		}
+
+		g_hash_table_destroy(values);
+		g_ptr_array_free(names, TRUE);
 	}
 
 	{
-- 
2.43.0


From 4b062413cc4ce6eb0d8dc018c6fe417a2d6c1df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:46 +0000
Subject: [PATCH 034/110] fix: fastcgi: finish response when backend closes
 connection after end of stdout without FCGI_END_REQUEST

---
 src/modules/fastcgi_stream.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 346d215..ce20dd9 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -628,7 +628,13 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 		} else {
 			ctx->stdin_closed = ctx->stdout_closed = ctx->stderr_closed = ctx->request_done = TRUE;
 			ctx->fcgi_in.out->is_closed = TRUE;
+			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
+
+			if (NULL != ctx->currentcon) {
+				const liFastCGIBackendCallbacks *callbacks = ctx->pool->callbacks;
+				callbacks->end_request_cb(ctx->currentcon->vr, &ctx->pool->public, &ctx->currentcon->public, 0);
+			}
 		}
 	}
 }
-- 
2.43.0


From fc59c43d89537ac40d610ee073422eedc4c46352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:49 +0000
Subject: [PATCH 035/110] fix: abort response when the backend connection is
 lost before the response stream was connected

---
 src/main/stream_http_response.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index bed2259..b042d36 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -179,7 +179,11 @@ static void check_response_header(liStreamHttpResponse* shr) {
 }
 
 static void stream_http_response_data(liStreamHttpResponse* shr) {
-	if (NULL == shr->stream.source) return;
+	if (NULL == shr->stream.source) {
+		/* source was aborted before dest got connected */
+		if (!shr->stream.out->is_closed) li_stream_disconnect_dest(&shr->stream);
+		return;
+	}
 
 	if (!shr->response_headers_finished) {
 		switch (li_http_response_parse(shr->vr, &shr->parse_response_ctx)) {
@@ -245,6 +249,9 @@ static void stream_http_response_cb(liStream *stream, liStreamEvent event) {
 	case LI_STREAM_NEW_DATA:
 		stream_http_response_data(shr);
 		break;
+	case LI_STREAM_CONNECTED_DEST:
+		if (NULL == stream->source && !stream->out->is_closed) li_stream_again_later(stream);
+		break;
 	case LI_STREAM_DISCONNECTED_DEST:
 		shr->vr = NULL;
 		li_stream_disconnect(stream);
-- 
2.43.0


From aa7b6a684b949fc09d5ff3c89d7d10d756d2e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:18 +0000
Subject: [PATCH 036/110] fix: auth.htdigest: keep entries of one user for
 different realms; don't drop a leading colon of a line

---
 src/modules/mod_auth.c | 49 ++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index 89c66e8..ca9a4ee 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -81,28 +81,28 @@ static AuthFileData* auth_file_load(liServer *srv, AuthFile *f) {
 			if ('\n' == *c || '\r' == *c) {
 				*c = '\0';
 				found_newline = TRUE;
-			} else if (':' == *c) {
-				if (NULL == password) {
+			} else if (found_newline) {
+				break;
+			} else if (':' == *c && NULL == password) {
+				if (f->has_realm && !found_realm) {
+					/* htdigest (user:realm:pass): an user can have entries for many realms; "user:realm" is the key */
+					found_realm = TRUE;
+				} else {
 					password = c+1;
 					*c = '\0';
-				} else {
-					found_realm = TRUE;
 				}
-			} else if (found_newline) {
-				break;
 			}
 		}
 
-		if (!password) {
-			/* missing delimiter for user:pass => bogus file */
-			ERROR(srv, "failed to parse auth file \"%s\", missing user:password delimiter", f->path->str);
+		if (f->has_realm && found_realm && !password) {
+			/* missing delimiter for realm:pass => bogus file */
+			ERROR(srv, "failed to parse auth file \"%s\", missing realm:password delimiter", f->path->str);
 			goto cleanup_fail;
 		}
 
-		/* file is of type htdigest (user:realm:pass) */
-		if (f->has_realm && !found_realm) {
-			/* missing delimiter for realm:pass => bogus file */
-			ERROR(srv, "failed to parse auth file \"%s\", missing realm:password delimiter", f->path->str);
+		if (!password) {
+			/* missing delimiter for user:pass => bogus file */
+			ERROR(srv, "failed to parse auth file \"%s\", missing user:password delimiter", f->path->str);
 			goto cleanup_fail;
 		}
 
@@ -286,32 +286,25 @@ out:
 }
 
 static gboolean auth_backend_htdigest(liVRequest *vr, const GString *username, const GString *password, AuthBasicData *bdata, gboolean debug) {
-	const char *pass, *realm;
+	const char *pass;
 	AuthFileData *afd = auth_file_get_data(vr->wrk, bdata->data);
 	GChecksum *md5sum;
+	GString *key = vr->wrk->tmp_str;
 	gboolean res = FALSE;
 
 	if (NULL == afd) return FALSE;
 
-	/* unknown user? */
-	if (!(pass = g_hash_table_lookup(afd->users, username->str))) {
-		if (debug) {
-			VR_DEBUG(vr, "User \"%s\" not found", username->str);
-		}
-		goto out;
-	}
-
-	realm = pass;
-	pass = strchr(pass, ':');
+	li_string_assign_len(key, GSTR_LEN(username));
+	g_string_append_c(key, ':');
+	li_g_string_append_len(key, GSTR_LEN(bdata->realm));
 
-	/* no realm/wrong realm? */
-	if (NULL == pass || 0 != strncmp(realm, bdata->realm->str, bdata->realm->len)) {
+	/* unknown user (in this realm)? */
+	if (!(pass = g_hash_table_lookup(afd->users, key->str))) {
 		if (debug) {
-			VR_DEBUG(vr, "Realm for user \"%s\" doesn't match", username->str);
+			VR_DEBUG(vr, "User \"%s\" not found in realm \"%s\"", username->str, bdata->realm->str);
 		}
 		goto out;
 	}
-	pass++;
 
 	md5sum = g_checksum_new(G_CHECKSUM_MD5);
 	g_checksum_update(md5sum, GUSTR_LEN(username));
-- 
2.43.0


From adcebefb5783d06495f1a3525f84ed8aa2e36418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:02 +0000
Subject: [PATCH 037/110] fix: auth: don't accept credentials containing NUL
 bytes

---
 src/modules/mod_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index ca9a4ee..7bf5ab5 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -358,7 +358,8 @@ static liHandlerResult auth_basic(liVRequest *vr, gpointer param, gpointer *cont
 		/* auth_info contains username:password encoded in base64 */
 		if (NULL != (decoded = (gchar*)g_base64_decode(LI_HEADER_VALUE(hdr) + sizeof("Basic ") - 1, &len))) {
 			/* bogus data? */
-			if (NULL != (password = strchr(decoded, ':'))) {
+			/* the backends handle C strings: don't accept anything containing '\0' */
+			if (strlen(decoded) == len && NULL != (password = strchr(decoded, ':'))) {
 				*password = '\0';
 				password++;
 				username = decoded;
-- 
2.43.0


From f0b8e2df171a45113278ac00506b4884c9d53229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:56 +0000
Subject: [PATCH 038/110] fix: config: e-strings (e"..", e'..') were tokenized
 as a name followed by a string

---
 src/main/config_parser.rl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index a0a6bc1..7ac4bb3 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -350,7 +350,9 @@ GQuark li_config_error_quark(void) {
 		| 'true'          %{ return TK_TRUE; }
 		) %(identifier, 1) (noise_char | operator_char)?;
 
-	name = ( (alpha | '_') (alnum | [._])* - keywords) >mark %name (noise_char | operator_char)?;
+	# "e" directly followed by a quote is an e-string, not a name
+	name = ( ( ((alpha | '_') (alnum | [._])*) - keywords - 'e' ) >mark %name (noise_char | operator_char)?
+		| 'e' >mark %name (noise_char | (operator_char - ['"]))? );
 
 	cast =
 		( 'cast' noise '(' noise 'int' noise ')'      @{ ++fpc; return TK_CAST_INT; }
-- 
2.43.0


From 565c9fd994206537c01ebb2fa99bca576597a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:24 +0000
Subject: [PATCH 039/110] fix: config: * and / on numbers computed the sum

---
 src/main/config_parser.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 7ac4bb3..886bc22 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -792,7 +792,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in product");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number * v2->data.number);
 				break;
 			case TK_DIVIDE:
 				if (0 == v2->data.number) {
@@ -803,7 +803,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in quotient");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number / v2->data.number);
 				break;
 			default:
 				parse_error(ctx, error, "unsupported operation on numbers");
-- 
2.43.0


From eeb6156ce19e00516e22cff399fe764c576f996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:27 +0000
Subject: [PATCH 040/110] fix: config: negative integers lost their sign

---
 src/main/config_parser.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 886bc22..1c6b223 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -210,7 +210,6 @@ GQuark li_config_error_quark(void) {
 	}
 
 	action int_start {
-		ctx->negative = FALSE;
 		ctx->token_number = 0;
 		ctx->suffix_factor = 1;
 	}
@@ -476,6 +475,7 @@ static void tokenizer_clear(liConfigTokenizerContext *ctx) {
 static liConfigToken tokenizer_next(liConfigTokenizerContext *ctx, GError **error) {
 	g_string_truncate(ctx->token_string, 0);
 	ctx->token_number = 0;
+	ctx->negative = FALSE;
 
 	if (NULL == ctx->p) return tokenizer_error(ctx, error, "already reached end of file");
 
-- 
2.43.0


From 4f95be6329ed4675aa9906c71e20168d956603d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:31 +0000
Subject: [PATCH 041/110] fix: config: integer range checks (suffix overflow
 wrapped around, large valid numbers were refused, octal digits 8 and 9 were
 accepted)

---
 src/main/config_parser.rl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 1c6b223..ce84ef2 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -219,12 +219,12 @@ GQuark li_config_error_quark(void) {
 	action dec_digit {
 		gint64 digit = fc - '0';
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 10 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 10) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 10*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 10 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 10) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 10*ctx->token_number + digit;
@@ -233,12 +233,12 @@ GQuark li_config_error_quark(void) {
 	action oct_digit {
 		gint64 digit = fc - '0';
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 8 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 8) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 8*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 8 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 8) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 8*ctx->token_number + digit;
@@ -250,12 +250,12 @@ GQuark li_config_error_quark(void) {
 		else if (fc >= 'a' && fc <= 'f') digit = fc - 'a' + 10;
 		else /*if (fc >= 'A' && fc <= 'F')*/ digit = fc - 'A' + 10;
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 16 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 16) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 16*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 16 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 16) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 16*ctx->token_number + digit;
@@ -266,7 +266,7 @@ GQuark li_config_error_quark(void) {
 			if (ctx->token_number < G_MININT64 / ctx->suffix_factor) {
 				return tokenizer_error(ctx, error, "integer overflow in suffix");
 			}
-		} else if (ctx->token_number < 0) {
+		} else {
 			if (ctx->token_number > G_MAXINT64 / ctx->suffix_factor) {
 				return tokenizer_error(ctx, error, "integer overflow in suffix");
 			}
@@ -318,7 +318,7 @@ GQuark li_config_error_quark(void) {
 	integer_base = ('-'@int_negative)?
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
-		| '0' ([0-9]+)$oct_digit
+		| '0' ([0-7]+)$oct_digit
 		| '0x' (xdigit+)$hex_digit
 		)>int_start;
 	# noise_char only matches after integer_suffix, as noise matches all noise chars greedy
-- 
2.43.0


From 366006811cb8b49d20df3d2a7441ccd336316c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:07 +0000
Subject: [PATCH 042/110] fix: config: 'and' didn't bind stronger than 'or' in
 conditions

---
 src/main/config_parser.rl | 41 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index ce84ef2..149158d 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1742,30 +1742,35 @@ static gboolean p_condition_expr(liConditionTree **tree, liConfigToken preOp, li
 	liConfigToken op = TK_ERROR;
 
 	for (;;) {
-		gboolean negated = FALSE;
-		NEXT(token);
-		if (TK_NOT == token) {
-			negated = TRUE;
+		if (result == NULL) {
+			gboolean negated = FALSE;
 			NEXT(token);
-		}
+			if (TK_NOT == token) {
+				negated = TRUE;
+				NEXT(token);
+			}
 
-		if (TK_PARA_OPEN == token) {
-			if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
-			NEXT(token);
-			if (TK_PARA_CLOSE != token) {
-				parse_error(ctx, error, "expected ')'");
-				goto error;
+			if (TK_PARA_OPEN == token) {
+				if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
+				NEXT(token);
+				if (TK_PARA_CLOSE != token) {
+					parse_error(ctx, error, "expected ')'");
+					goto error;
+				}
+			} else {
+				REMEMBER(token);
+				if (!p_condition_value(&leave, ctx, error)) goto error;
 			}
-		} else {
-			REMEMBER(token);
-			if (!p_condition_value(&leave, ctx, error)) goto error;
-		}
-		if (negated) leave->negated = !leave->negated;
+			if (negated) leave->negated = !leave->negated;
 
-		if (result == NULL) {
 			result = leave;
 		} else {
-			liConditionTree *tmp = g_slice_new0(liConditionTree);
+			liConditionTree *tmp;
+
+			/* right operand includes all following operators with higher precedence */
+			if (!p_condition_expr(&leave, op, ctx, error)) goto error;
+
+			tmp = g_slice_new0(liConditionTree);
 			tmp->negated = FALSE;
 			tmp->op = op;
 			tmp->left = result;
-- 
2.43.0


From 81b3d52a085b2227992b4dd9746384056e09e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:49 +0000
Subject: [PATCH 043/110] fix: config: invalid conditions (bad regex, bad IP,
 unsupported operator) aborted the server with an assertion instead of giving
 an error

---
 src/main/condition.c      | 1 +
 src/main/config_parser.rl | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/main/condition.c b/src/main/condition.c
index 13c1d0a..3c7be09 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -333,6 +333,7 @@ static liCondition* cond_new_ip(liServer *srv, liCompOperator op, liConditionLVa
 	c = condition_new(op, lvalue);
 	if (!condition_parse_ip_net(&c->rvalue, str->str)) {
 		ERROR(srv, "Invalid ip address '%s'", str->str);
+		c->lvalue = NULL; /* not taken over on failure */
 		li_condition_release(srv, c);
 		return NULL;
 	}
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 149158d..bf8e17d 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1719,6 +1719,10 @@ static gboolean p_condition_value(liConditionTree **tree, liConfigTokenizerConte
 		parse_error(ctx, error, "wrong value type, require string or integer");
 		goto error;
 	}
+	if (NULL == cond) {
+		parse_error(ctx, error, "invalid condition");
+		goto error;
+	}
 	li_value_free(rvalue);
 
 boolcond:
-- 
2.43.0


From ed9509b15ce52d83a70cfadc48adae64b0ef616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:53 +0000
Subject: [PATCH 044/110] fix: config: use after free in the error message of a
 failed cast(int)

---
 src/main/config_parser.rl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index bf8e17d..a8d741c 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1378,8 +1378,9 @@ static gboolean p_value(gint *key_value_nesting, liValue **value, liConfigToken
 				errno = 0;
 				i = g_ascii_strtoll(s->str, &endptr, 10);
 				if (errno != 0 || endptr != s->str + s->len || s->len == 0) {
+					parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
 					li_value_free(v);
-					return parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
+					return FALSE;
 				}
 				li_value_free(v);
 				v = li_value_new_number(i);
-- 
2.43.0


From 3342749938c0ad5d7ddb55a12baeab94b9c9da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:26 +0000
Subject: [PATCH 045/110] fix: config: __print without parameters crashed

---
 src/main/config_parser.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index a8d741c..a6ab5c3 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1052,7 +1052,7 @@ static gboolean p_setup(GString *name, liConfigTokenizerContext *ctx, GError **e
 	if (!p_parameter_values(&parameters, ctx, error)) return FALSE;
 
 	if (g_str_equal(name->str, "__print")) {
-		GString *s = li_value_to_string(parameters);
+		GString *s = (NULL != parameters) ? li_value_to_string(parameters) : g_string_new_len(CONST_STR_LEN("()"));
 		DEBUG(ctx->srv, "config __print: %s", s->str);
 		g_string_free(s, TRUE);
 		li_value_free(parameters);
@@ -1125,7 +1125,7 @@ error:
 	if (!p_parameter_values(&parameters, ctx, error)) return FALSE;
 
 	if (g_str_equal(name->str, "__print")) {
-		GString *s = li_value_to_string(parameters);
+		GString *s = (NULL != parameters) ? li_value_to_string(parameters) : g_string_new_len(CONST_STR_LEN("()"));
 		DEBUG(ctx->srv, "config __print: %s", s->str);
 		g_string_free(s, TRUE);
 		li_value_free(parameters);
-- 
2.43.0


From d97af2b9109fc8e0f4ccdb767835731df3c6f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:11 +0000
Subject: [PATCH 046/110] fix: angel config: e-strings were tokenized as a name
 followed by a string

---
 src/angel/angel_config_parser.rl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index de87c8b..50c0423 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -292,7 +292,9 @@ GQuark li_angel_config_parser_error_quark(void) {
 		| 'true'          %{ return TK_TRUE; }
 		) %(identifier, 1) (noise_char | operator_char)?;
 
-	name = ( (alpha | '_') (alnum | [._])* - keywords) >mark %name (noise_char | operator_char)?;
+	# "e" directly followed by a quote is an e-string, not a name
+	name = ( ( ((alpha | '_') (alnum | [._])*) - keywords - 'e' ) >mark %name (noise_char | operator_char)?
+		| 'e' >mark %name (noise_char | (operator_char - ['"]))? );
 
 	cast =
 		( 'cast' noise '(' noise 'int' noise ')'      @{ ++fpc; return TK_CAST_INT; }
-- 
2.43.0


From b63e96e07d0e1cad16ce9b309d950b6f86badd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:15 +0000
Subject: [PATCH 047/110] fix: angel config: * and / on numbers computed the
 sum

---
 src/angel/angel_config_parser.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index 50c0423..2ae1af3 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -586,7 +586,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in product");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number * v2->data.number);
 				break;
 			case TK_DIVIDE:
 				if (0 == v2->data.number) {
@@ -597,7 +597,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in quotient");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number / v2->data.number);
 				break;
 			default:
 				parse_error(ctx, error, "unsupported operation on numbers");
-- 
2.43.0


From bc3be66111852c1948da3388024b5ec958a8e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:18 +0000
Subject: [PATCH 048/110] fix: angel config: negative integers lost their sign

---
 src/angel/angel_config_parser.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index 2ae1af3..158c292 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -162,7 +162,6 @@ GQuark li_angel_config_parser_error_quark(void) {
 	}
 
 	action int_start {
-		ctx->negative = FALSE;
 		ctx->token_number = 0;
 		ctx->suffix_factor = 1;
 	}
@@ -395,6 +394,7 @@ static void tokenizer_clear(liConfigTokenizerContext *ctx) {
 static liConfigToken tokenizer_next(liConfigTokenizerContext *ctx, GError **error) {
 	g_string_truncate(ctx->token_string, 0);
 	ctx->token_number = 0;
+	ctx->negative = FALSE;
 
 	if (NULL == ctx->p) return tokenizer_error(ctx, error, "already reached end of file");
 
-- 
2.43.0


From 02ecd50b0b548790da544bd37c3800e654dd92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:22 +0000
Subject: [PATCH 049/110] fix: angel config: integer range checks (suffix
 overflow wrapped around, large valid numbers were refused, octal digits 8 and
 9 were accepted)

---
 src/angel/angel_config_parser.rl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index 158c292..69f0670 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -171,12 +171,12 @@ GQuark li_angel_config_parser_error_quark(void) {
 	action dec_digit {
 		gint64 digit = fc - '0';
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 10 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 10) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 10*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 10 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 10) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 10*ctx->token_number + digit;
@@ -185,12 +185,12 @@ GQuark li_angel_config_parser_error_quark(void) {
 	action oct_digit {
 		gint64 digit = fc - '0';
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 8 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 8) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 8*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 8 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 8) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 8*ctx->token_number + digit;
@@ -202,12 +202,12 @@ GQuark li_angel_config_parser_error_quark(void) {
 		else if (fc >= 'a' && fc <= 'f') digit = fc - 'a' + 10;
 		else /*if (fc >= 'A' && fc <= 'F')*/ digit = fc - 'A' + 10;
 		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 16 + digit) {
+			if (ctx->token_number < (G_MININT64 + digit) / 16) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 16*ctx->token_number - digit;
 		} else {
-			if (ctx->token_number > G_MAXINT64 / 16 - digit) {
+			if (ctx->token_number > (G_MAXINT64 - digit) / 16) {
 				return tokenizer_error(ctx, error, "integer overflow");
 			}
 			ctx->token_number = 16*ctx->token_number + digit;
@@ -218,7 +218,7 @@ GQuark li_angel_config_parser_error_quark(void) {
 			if (ctx->token_number < G_MININT64 / ctx->suffix_factor) {
 				return tokenizer_error(ctx, error, "integer overflow in suffix");
 			}
-		} else if (ctx->token_number < 0) {
+		} else {
 			if (ctx->token_number > G_MAXINT64 / ctx->suffix_factor) {
 				return tokenizer_error(ctx, error, "integer overflow in suffix");
 			}
@@ -270,7 +270,7 @@ GQuark li_angel_config_parser_error_quark(void) {
 	integer_base = ('-'@int_negative)?
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
-		| '0' ([0-9]+)$oct_digit
+		| '0' ([0-7]+)$oct_digit
 		| '0x' (xdigit+)$hex_digit
 		)>int_start;
 	# noise_char only matches after integer_suffix, as noise matches all noise chars greedy
-- 
2.43.0


From 85d82d0efce57481aa2160a6c808165ff3dd32a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:25 +0000
Subject: [PATCH 050/110] fix: angel config: use after free in the error
 message of a failed cast(int)

---
 src/angel/angel_config_parser.rl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index 69f0670..971d7e4 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -837,8 +837,9 @@ static gboolean p_value(gint *key_value_nesting, liValue **value, liConfigToken
 				errno = 0;
 				i = g_ascii_strtoll(s->str, &endptr, 10);
 				if (errno != 0 || endptr != s->str + s->len || s->len == 0) {
+					parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
 					li_value_free(v);
-					return parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
+					return FALSE;
 				}
 				li_value_free(v);
 				v = li_value_new_number(i);
-- 
2.43.0


From 4b5035e4bdf9f06c236284512333bd75bd5ec5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:29 +0000
Subject: [PATCH 051/110] fix: angel config: __print without parameters crashed

---
 src/angel/angel_config_parser.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index 971d7e4..84959ba 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -655,7 +655,7 @@ static gboolean p_config_call(GString *name, liConfigTokenizerContext *ctx, GErr
 	if (!p_parameter_values(&parameters, ctx, error)) return FALSE;
 
 	if (g_str_equal(name->str, "__print")) {
-		GString *s = li_value_to_string(parameters);
+		GString *s = (NULL != parameters) ? li_value_to_string(parameters) : g_string_new_len(CONST_STR_LEN("()"));
 		DEBUG(ctx->srv, "config __print: %s", s->str);
 		g_string_free(s, TRUE);
 		li_value_free(parameters);
-- 
2.43.0


From e310e17d37bb7ea7bd551b37171e7b6b2e9e423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:35 +0000
Subject: [PATCH 052/110] fix: patterns: reversed capture ranges looped forever
 or read out of bounds, open ranges iterated 2^31 times

---
 src/main/pattern.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index d82ff9f..538d6f9 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -320,7 +320,7 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 		}
 	} else {
 		from = MIN(from, a->len - 1); /* => from+1 is defined */
-		for (i = from + 1; i-- >= to; ) {
+		for (i = from + 1; i-- > to; ) {
 			GString *str = g_array_index(a, GString*, i);
 			if (NULL != str) {
 				li_g_string_append_len(pattern_result, GSTR_LEN(str));
@@ -332,20 +332,22 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 void li_pattern_regex_cb(GString *pattern_result, guint from, guint to, gpointer data) {
 	GMatchInfo *match_info = data;
 	guint i;
+	guint last;
 	gint start_pos, end_pos;
 
-	if (NULL == match_info) return;
+	if (NULL == match_info || g_match_info_get_match_count(match_info) <= 0) return;
+	last = g_match_info_get_match_count(match_info) - 1;
 
 	if (HEDLEY_LIKELY(from <= to)) {
-		to = MIN(to, G_MAXINT);
+		to = MIN(to, last);
 		for (i = from; i <= to; i++) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
 		}
 	} else {
-		from = MIN(from, G_MAXINT); /* => from+1 is defined */
-		for (i = from + 1; --i >= to; ) {
+		from = MIN(from, last); /* => from+1 is defined */
+		for (i = from + 1; i-- > to; ) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
-- 
2.43.0


From d0a94e4dd4e46e802ad0af80d040e5c5bc94c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:43 +0000
Subject: [PATCH 053/110] fix: map: all but the first key of a key list crashed
 when selected

---
 src/main/plugin_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 131656b..78134b2 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -1903,7 +1903,7 @@ static liAction* core_map(liServer *srv, liWorker *wrk, liPlugin* p, liValue *va
 					return NULL;
 				}
 
-				g_hash_table_insert(md->hash, li_value_extract_string(v2), li_value_extract(r));
+				g_hash_table_insert(md->hash, li_value_extract_string(v2), li_value_copy(r));
 			LI_VALUE_END_FOREACH()
 		}
 	LI_VALUE_END_FOREACH()
-- 
2.43.0


From 7a997020510aa40c7e4f18b3be309f0faa165ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:20 +0000
Subject: [PATCH 054/110] fix: a regex condition that doesn't match discarded
 the captures of the enclosing condition

---
 src/main/actions.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main/actions.c b/src/main/actions.c
index cb326ab..dbebbe6 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -177,10 +177,10 @@ static void action_stack_element_release(liServer *srv, liVRequest *vr, action_s
 		}
 		break;
 	case LI_ACTION_TCONDITION:
-		if (a->data.condition.cond->rvalue.type == LI_COND_VALUE_REGEXP) {
+		/* only set if the condition pushed its captures */
+		if (0 != ase->data.pos) {
 			/* pop regex stack */
 			GArray *rs = vr->action_stack.regex_stack;
-			/* cheap check to prevent segfault if condition errored without pushing onto stack; whole stack gets cleaned anyways */
 			if (rs->len) {
 				liActionRegexStackElement *arse = &g_array_index(rs, liActionRegexStackElement, rs->len - 1);
 				if (arse->string)
@@ -383,7 +383,12 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 			break;
 		case LI_ACTION_TCONDITION:
 			condres = FALSE;
-			res = li_condition_check(vr, a->data.condition.cond, &condres);
+			{
+				guint regex_stack_len = as->regex_stack->len;
+				res = li_condition_check(vr, a->data.condition.cond, &condres);
+				/* remember whether captures need to be popped */
+				ase->data.pos = as->regex_stack->len - regex_stack_len;
+			}
 			switch (res) {
 			case LI_HANDLER_GO_ON:
 				ase->finished = TRUE;
-- 
2.43.0


From 082714a0efa4d09d98a910ee6d3a5ecb64e0a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:40 +0000
Subject: [PATCH 055/110] fix: patterns: %{req.header} and %{req.env} without a
 key crashed the server when evaluated

---
 src/main/pattern.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index 538d6f9..bfa2ce2 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -190,6 +190,15 @@ liPattern *li_pattern_new(liServer *srv, const gchar* str) {
 					li_pattern_free((liPattern*)pattern);
 					return NULL;
 				}
+
+				if (NULL == key && (part.data.lvalue->type == LI_COMP_REQUEST_HEADER
+						|| part.data.lvalue->type == LI_COMP_RESPONSE_HEADER
+						|| part.data.lvalue->type == LI_COMP_ENVIRONMENT)) {
+					/* parse error */
+					ERROR(srv, "could not parse pattern (missing key): \"%s\"", str);
+					li_pattern_free((liPattern*)pattern);
+					return NULL;
+				}
 			} else {
 				/* parse error */
 				ERROR(srv, "could not parse pattern (unexpected character after '%%'): \"%s\"", str);
-- 
2.43.0


From 3725b72b491640e919e27089949a169f87133986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 056/110] fix: lua config: an error in the script aborted with
 an assertion because the lua stack wasn't cleaned up

---
 src/main/config_lua.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main/config_lua.c b/src/main/config_lua.c
index bf34252..f5d32c3 100644
--- a/src/main/config_lua.c
+++ b/src/main/config_lua.c
@@ -188,9 +188,7 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 		_ERROR(srv, wrk, NULL, "lua_pcall(): %s", lua_tostring(L, -1));
 
 		/* cleanup stack */
-		if (lua_stack_top > lua_gettop(L)) {
-			lua_pop(L, lua_gettop(L) - lua_stack_top);
-		}
+		lua_settop(L, lua_stack_top);
 
 		li_lua_environment_restore(LL); /* -1 */
 		li_lua_environment_restore_globals(L); /* -1 */
-- 
2.43.0


From bb1f9314a48a56c544e9aec47cd9fc482274951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:51 +0000
Subject: [PATCH 057/110] fix: vhost.map_regex: crashes when the configuration
 is invalid (bad regex, non-action value, two defaults)

---
 src/modules/mod_vhost.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_vhost.c b/src/modules/mod_vhost.c
index 90a073d..4f37bee 100644
--- a/src/modules/mod_vhost.c
+++ b/src/modules/mod_vhost.c
@@ -216,7 +216,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 
 		if (LI_VALUE_ACTION != li_value_type(entryValue)) {
 			ERROR(srv, "vhost.map_regex expects a hashtable/key-value list with action values as parameter, %s value given", li_value_type_string(entryValue));
-			vhost_map_free(srv, mrd);
+			vhost_map_regex_free(srv, mrd);
 			return NULL;
 		}
 
@@ -232,7 +232,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 		if (NULL == entryKeyStr) {
 			if (NULL != mrd->default_action) {
 				ERROR(srv, "%s", "vhost.map_regex: already have a default action");
-				vhost_map_free(srv, mrd);
+				vhost_map_regex_free(srv, mrd);
 				return NULL;
 			}
 			mrd->default_action = li_value_extract(entryValue);
@@ -241,15 +241,15 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 			vhost_map_regex_entry map_entry;
 
 			map_entry.regex = g_regex_new(entryKeyStr->str, G_REGEX_RAW | G_REGEX_OPTIMIZE, 0, &err);
-			g_string_free(entryKeyStr, TRUE);
-
 			if (NULL == map_entry.regex) {
 				LI_FORCE_ASSERT(NULL != err);
 				vhost_map_regex_free(srv, mrd);
 				ERROR(srv, "vhost.map_regex: error compiling regex \"%s\": %s", entryKeyStr->str, err->message);
+				g_string_free(entryKeyStr, TRUE);
 				g_error_free(err);
 				return NULL;
 			}
+			g_string_free(entryKeyStr, TRUE);
 			LI_FORCE_ASSERT(NULL == err);
 
 			map_entry.action = li_value_extract(entryValue);
-- 
2.43.0


From a6b678a1d5dd7a7d71486132e31837d3ef3707a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 058/110] fix: limit.req never created the mutex it locks
 (crash on the first request)

---
 src/modules/mod_limit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 76eaef9..7cb9732 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -73,6 +73,7 @@ static mod_limit_context* mod_limit_context_new(mod_limit_context_type type, gin
 	case ML_TYPE_REQ:
 		ctx->pool.req.num = 0;
 		ctx->pool.req.ts = 0;
+		ctx->mutex = g_mutex_new();
 		break;
 	case ML_TYPE_REQ_IP:
 		ctx->pool.req_ip = li_radixtree_new();
-- 
2.43.0


From 473da07012d958bb7d3a7d18770c8910700dbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 059/110] fix: limit.con N admitted N+1 concurrent requests

---
 src/modules/mod_limit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 7cb9732..522293e 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -236,13 +236,13 @@ static liHandlerResult mod_limit_action_handle(liVRequest *vr, gpointer param, g
 #ifdef GLIB_VERSION_2_30
 		/* since 2.30 g_atomic_int_add does the same as g_atomic_int_exchange_and_add,
 		 * before it didn't return the old value. this fixes the deprecation warning. */
-		if (g_atomic_int_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
 		}
 #else
-		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
-- 
2.43.0


From 44858da96032dc2a2d3549e20faa39f3de4a7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 060/110] fix: an option reset to its empty default
 (accesslog;) after another value crashed on the next request

---
 src/main/actions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/actions.c b/src/main/actions.c
index dbebbe6..963fca8 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -357,7 +357,7 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 			break;
 		case LI_ACTION_TSETTINGPTR:
 			if (vr->optionptrs[a->data.settingptr.ndx] != a->data.settingptr.value) {
-				g_atomic_int_inc(&a->data.settingptr.value->refcount);
+				if (a->data.settingptr.value) g_atomic_int_inc(&a->data.settingptr.value->refcount);
 				li_release_optionptr(srv, vr->optionptrs[a->data.settingptr.ndx]);
 				vr->optionptrs[a->data.settingptr.ndx] = a->data.settingptr.value;
 			}
-- 
2.43.0


From 119f06680429963f1912c265a8caf498f3561ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:11 +0000
Subject: [PATCH 061/110] fix: a NUL in a mime_types suffix aborted the server

---
 src/main/plugin_core.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 78134b2..bac5be8 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -1539,6 +1539,12 @@ static gboolean core_option_mime_types_parse(liServer *srv, liWorker *wrk, liPlu
 			return FALSE;
 		}
 
+		if (NULL != memchr(v1->data.string->str, '\0', v1->data.string->len)) {
+			ERROR(srv, "mime_types option: suffix in entry #%u contains a NUL character", _v_i);
+			li_mimetype_node_free(node);
+			return FALSE;
+		}
+
 		li_mimetype_insert(node, v1->data.string, li_value_extract_string(v2));
 	LI_VALUE_END_FOREACH()
 
-- 
2.43.0


From bcce1f5f6516c70677c2a86a70def40fa7cfb7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:21 +0000
Subject: [PATCH 062/110] fix: userdir placeholders $1-$9 were recognised by
 the wrong character

---
 src/modules/mod_userdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_userdir.c b/src/modules/mod_userdir.c
index b587a04..0b3e9fc 100644
--- a/src/modules/mod_userdir.c
+++ b/src/modules/mod_userdir.c
@@ -197,7 +197,7 @@ static liAction* userdir_create(liServer *srv, liWorker *wrk, liPlugin* p, liVal
 			c_last = c+1;
 			part.type = USERDIR_PART_USERNAME;
 			g_array_append_val(parts, part);
-		} else if (*c == '$' && *(c+1) >= '1' && *(c+2) <= '9') {
+		} else if (*c == '$' && *(c+1) >= '1' && *(c+1) <= '9') {
 			/* letter */
 			if (c - c_last > 0) {
 				/* push last string */
-- 
2.43.0


From 7a60a7ceb41b9cadd146a5b25c3b4d13596d9c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:04 +0000
Subject: [PATCH 063/110] fix: a filter failing while the response is being
 connected crashed the server

---
 src/main/virtualrequest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index 6e932f3..b42fe5c 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -542,6 +542,8 @@ void li_vrequest_state_machine(liVRequest *vr) {
 			if (NULL != vr->direct_out) vr->direct_out->is_closed = TRUE; /* make sure this is closed for direct responses */
 			if (NULL != vr->filters_out_last) {
 				li_stream_connect(vr->backend_source, vr->filters_out_first);
+				/* a filter might have failed already; the request was aborted then */
+				if (LI_VRS_WRITE_CONTENT != vr->state) return;
 				li_stream_connect(vr->filters_out_last, vr->coninfo->resp);
 			} else {
 				/* no filters */
-- 
2.43.0


From b57c7bc1409f1ca496ac4bb680608f96ca0ec53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:07 +0000
Subject: [PATCH 064/110] fix: deflate with an output-buffer of 10 bytes or
 less broke every gzip response

---
 src/modules/mod_deflate.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 4c77772..79707e1 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -177,20 +177,18 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	if (ctx->is_gzip && !ctx->gzip_header) {
 		ctx->gzip_header = TRUE;
 
-		/* as the buffer is unused it really should be big enough */
-		if (z->avail_out < sizeof(gzip_header)) {
-			f->out->is_closed = TRUE;
-			VR_ERROR(vr, "deflate error: %s", z->msg);
-			return LI_HANDLER_ERROR;
-		}
-
-		/* copy gzip header into output buffer */
-		memcpy(z->next_out, gzip_header, sizeof(gzip_header));
-
 		/* initialize crc32 */
 		ctx->crc = crc32(0L, Z_NULL, 0);
-		z->next_out += sizeof(gzip_header);
-		z->avail_out -= sizeof(gzip_header);
+
+		if (z->avail_out > sizeof(gzip_header)) {
+			/* copy gzip header into output buffer */
+			memcpy(z->next_out, gzip_header, sizeof(gzip_header));
+			z->next_out += sizeof(gzip_header);
+			z->avail_out -= sizeof(gzip_header);
+		} else {
+			/* output buffer too small */
+			li_chunkqueue_append_mem(f->out, gzip_header, sizeof(gzip_header));
+		}
 	}
 
 	while (l < max_compress) {
-- 
2.43.0


From 4f2d5314dd481dd70131378c1e8b05213f541379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:47 +0000
Subject: [PATCH 065/110] fix: deflate used encodings the client had refused
 (q=0) or never named (prefixes)

---
 src/modules/mod_deflate.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 79707e1..431bbcd 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -500,14 +500,42 @@ static gboolean cached_handle_etag(liVRequest *vr, gboolean debug, liHttpHeader
 	return FALSE;
 }
 
+/* parameters of an encoding (after the name): TRUE if it has a "q=0" weight, i.e. must not be used */
+static gboolean encoding_params_refuse(const gchar *s, const gchar *end) {
+	while (NULL != (s = memchr(s, ';', end - s))) {
+		do { s++; } while (s < end && (*s == ' ' || *s == '\t'));
+		if (end - s < 2 || (*s != 'q' && *s != 'Q')) continue;
+		do { s++; } while (s < end && (*s == ' ' || *s == '\t'));
+		if (s == end || *s != '=') continue;
+		do { s++; } while (s < end && (*s == ' ' || *s == '\t'));
+		if (s == end || *s != '0') continue;
+		do { s++; } while (s < end && (*s == '.' || *s == '0'));
+		return (s == end || !g_ascii_isdigit(*s));
+	}
+
+	return FALSE;
+}
+
 static guint header_to_encoding_mask(const gchar *s) {
 	guint encoding_mask = 0, i;
 
-	for (i = 1; encoding_names[i]; i++) {
-		const gchar *p = strstr(s, encoding_names[i]);
-		if (NULL != p && (p == s || p[-1] == ' ' || p[-1] == ',')) {
-			encoding_mask |= 1 << i;
+	for (;;) {
+		gsize item_len, name_len;
+
+		s += strspn(s, " \t,");
+		if ('\0' == *s) break;
+
+		item_len = strcspn(s, ",");
+		name_len = strcspn(s, " \t,;");
+
+		for (i = 1; encoding_names[i]; i++) {
+			if (name_len == strlen(encoding_names[i]) && 0 == strncmp(s, encoding_names[i], name_len)
+					&& !encoding_params_refuse(s + name_len, s + item_len)) {
+				encoding_mask |= 1 << i;
+			}
 		}
+
+		s += item_len;
 	}
 
 	return encoding_mask;
-- 
2.43.0


From da2be87e2ee5e6efdbce2346c69269241fd99d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:20 +0000
Subject: [PATCH 066/110] fix: a response broken off by the backend was
 completed by the gzip/deflate filter

---
 src/modules/mod_deflate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 431bbcd..6aed585 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -156,7 +156,8 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	int rc;
 
 	if (NULL == f->in) {
-		f->out->is_closed = TRUE;
+		/* didn't handle f->in->is_closed? abort forwarding */
+		if (!f->out->is_closed) li_stream_reset(&f->stream);
 		return LI_HANDLER_GO_ON;
 	}
 
-- 
2.43.0


From 4e963ab32ab0c54d47382337075686782081d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 067/110] fix: deflate replaced generated error pages by an
 empty compressed body

---
 src/modules/mod_deflate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 6aed585..8856eda 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -568,6 +568,12 @@ static liHandlerResult deflate_handle(liVRequest *vr, gpointer param, gpointer *
 		break;
 	}
 
+	/* the error page for an empty response gets generated later; it must not be marked as compressed */
+	if (vr->response.http_status >= 400 && vr->response.http_status < 600
+			&& NULL != vr->direct_out && 0 == vr->direct_out->length) {
+		return LI_HANDLER_GO_ON;
+	}
+
 	/* response already encoded */
 	if (li_http_header_find_first(vr->response.headers, CONST_STR_LEN("content-encoding"))) {
 		if (debug) {
-- 
2.43.0


From 5068beab3906959eb9ab1bc9b8b3c3908628d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:19 +0000
Subject: [PATCH 068/110] fix: deflate held back data of a slow response when
 its flush did not fit into the output buffer

---
 src/modules/mod_deflate.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 8856eda..372cbee 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -128,7 +128,8 @@ static deflate_context_zlib* deflate_context_zlib_create(liVRequest *vr, deflate
 	}
 
 	ctx->buf = g_byte_array_new();
-	g_byte_array_set_size(ctx->buf, conf->output_buffer);
+	/* zlib needs space for more than a complete flush marker (6 bytes) */
+	g_byte_array_set_size(ctx->buf, MAX(conf->output_buffer, 64));
 
 	ctx->is_gzip = is_gzip;
 
@@ -181,15 +182,10 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 		/* initialize crc32 */
 		ctx->crc = crc32(0L, Z_NULL, 0);
 
-		if (z->avail_out > sizeof(gzip_header)) {
-			/* copy gzip header into output buffer */
-			memcpy(z->next_out, gzip_header, sizeof(gzip_header));
-			z->next_out += sizeof(gzip_header);
-			z->avail_out -= sizeof(gzip_header);
-		} else {
-			/* output buffer too small */
-			li_chunkqueue_append_mem(f->out, gzip_header, sizeof(gzip_header));
-		}
+		/* copy gzip header into output buffer (it is unused, and big enough) */
+		memcpy(z->next_out, gzip_header, sizeof(gzip_header));
+		z->next_out += sizeof(gzip_header);
+		z->avail_out -= sizeof(gzip_header);
 	}
 
 	while (l < max_compress) {
@@ -277,10 +273,18 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	}
 
 	if (l > 0 && 0 == f->in->length && !f->in->is_closed) { /* flush z_stream */
-		rc = deflate(z, Z_SYNC_FLUSH);
-		if (rc != Z_OK && rc != Z_STREAM_END) {
-			if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
-			return LI_HANDLER_ERROR;
+		for (;;) {
+			rc = deflate(z, Z_SYNC_FLUSH);
+			if (rc != Z_OK && rc != Z_STREAM_END && rc != Z_BUF_ERROR) {
+				if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
+				return LI_HANDLER_ERROR;
+			}
+			if (z->avail_out > 0) break;
+
+			/* output buffer full, flush not complete yet */
+			li_chunkqueue_append_mem(f->out, ctx->buf->data, ctx->buf->len);
+			z->next_out = ctx->buf->data;
+			z->avail_out = ctx->buf->len;
 		}
 	}
 
-- 
2.43.0


From c8e3da4f2615478dbe86cb9e47cabd203db451a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 069/110] fix: dirlist: only include HEADER.txt / README.txt if
 include-header / include-readme is set

---
 src/modules/mod_dirlist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 2a99e6b..5b35e06 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -444,7 +444,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 		li_g_string_append_len(listing, CONST_STR_LEN(html_header_end));
 
-		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
+		if (dd->include_header) try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
 		g_string_append_printf(listing, html_table_start, vr->request.uri.path->str);
 
@@ -526,7 +526,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		li_g_string_append_len(listing, CONST_STR_LEN(html_table_end));
 
-		try_append_file(vr, &listing, "README.txt", dd->encode_readme);
+		if (dd->include_readme) try_append_file(vr, &listing, "README.txt", dd->encode_readme);
 
 		if (dd->include_sort) {
 			li_g_string_append_len(listing, CONST_STR_LEN(javascript_sort));
-- 
2.43.0


From 82bfca9a701fd434e73da692465377dcf057d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:30 +0000
Subject: [PATCH 070/110] fix: dirlist: hide-header / hide-readme never matched
 (compared GString* with string)

---
 src/modules/mod_dirlist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 5b35e06..206ad65 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -421,9 +421,9 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 				if (dd->hide_directories) continue;
 				g_array_append_val(directories, i);
 			} else {
-				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path, "HEADER.txt")) {
+				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path->str, "HEADER.txt")) {
 					if (dd->hide_header) continue;
-				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path, "README.txt")) {
+				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path->str, "README.txt")) {
 					if (dd->hide_readme) continue;
 				}
 				g_array_append_val(files, i);
-- 
2.43.0


From 03620ab537164700346cc030ef9cd0b1b111bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:33 +0000
Subject: [PATCH 071/110] fix: dirlist: NULL dereference with disabled stat
 cache (stat_cache.ttl 0)

---
 src/main/stat_cache.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main/stat_cache.c b/src/main/stat_cache.c
index 8a1bd37..33bc263 100644
--- a/src/main/stat_cache.c
+++ b/src/main/stat_cache.c
@@ -228,6 +228,21 @@ liHandlerResult li_stat_cache_get_dirlist(liVRequest *vr, GString *path, liStatC
 	guint i;
 
 	sc = vr->wrk->stat_cache;
+
+	if (NULL == sc) {
+		/* stat cache is disabled: blocking lookup, entry isn't shared */
+		sce = stat_cache_entry_new(NULL, path);
+		sce->type = STAT_CACHE_ENTRY_DIR;
+		sce->cached = FALSE;
+		stat_cache_run(sce);
+
+		li_stat_cache_entry_acquire(vr, sce); /* assign sce to vr */
+		stat_cache_entry_release(sce); /* release initial reference */
+
+		*result = sce;
+		return LI_HANDLER_GO_ON;
+	}
+
 	sce = g_hash_table_lookup(sc->dirlists, path);
 
 	if (sce) {
-- 
2.43.0


From f759a4a390175618b1d42e2045975fec7a9f4d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:09 +0000
Subject: [PATCH 072/110] fix: dirlist: html-encode request path in title and
 heading (html injection)

---
 src/modules/mod_dirlist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 206ad65..522c153 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -431,7 +431,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 
 		listing = g_string_sized_new(4*1024-1);
-		g_string_append_printf(listing, html_header_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_header_start, encoded->str);
 
 		if (dd->css) {
 			/* custom css */
@@ -446,7 +447,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		if (dd->include_header) try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
-		g_string_append_printf(listing, html_table_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_table_start, encoded->str);
 
 		if (0 != strcmp("/", vr->request.uri.path->str)) {
 			g_string_append_printf(listing, html_table_row, '0', "../",
-- 
2.43.0


From 1477faa7ee898b6b0931412893c87326da925865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:19 +0000
Subject: [PATCH 073/110] fix: dirlist: README.txt / HEADER.txt which is not a
 regular file broke the listing or blocked the worker

---
 src/modules/mod_dirlist.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 522c153..4dc7507 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -205,29 +205,30 @@ typedef struct dirlist_plugin_data dirlist_plugin_data;
 /** uses/modifies wrk->tmp_str */
 static void try_append_file(liVRequest *vr, GString **curbuf, const gchar *filename, gboolean encode_html) {
 	GString *f = vr->wrk->tmp_str;
+	int fd;
+	struct stat st;
+
 	g_string_truncate(f, 0);
 	li_g_string_append_len(f, GSTR_LEN(vr->physical.path));
 	li_path_append_slash(f);
 	g_string_append(f, filename);
 
-	if (!encode_html) {
-		int fd;
-		struct stat st;
-
-		while (-1 == (fd = open(f->str, O_RDONLY))) {
-			if (errno == EINTR)
-				continue;
-			return; /* failed to open, ignore */
-		}
-		if (-1 == fstat(fd, &st)) {
-			close(fd);
-			return; /* failed to open, ignore */
-		}
-		if (st.st_size > MAX_INCLUDE_FILE_SIZE) {
-			close(fd);
-			return; /* file too big, ignore */
-		}
+	/* must not block if the path is a FIFO */
+	while (-1 == (fd = open(f->str, O_RDONLY | O_NONBLOCK))) {
+		if (errno == EINTR)
+			continue;
+		return; /* failed to open, ignore */
+	}
+	if (-1 == fstat(fd, &st) || !S_ISREG(st.st_mode)) {
+		close(fd);
+		return; /* not a regular file, ignore */
+	}
+	if (st.st_size > MAX_INCLUDE_FILE_SIZE) {
+		close(fd);
+		return; /* file too big, ignore */
+	}
 
+	if (!encode_html) {
 		/* flush current buffer and append file */
 		li_chunkqueue_append_string(vr->direct_out, *curbuf);
 		*curbuf = g_string_sized_new(4*1024-1);
@@ -237,6 +238,8 @@ static void try_append_file(liVRequest *vr, GString **curbuf, const gchar *filen
 		gchar *contents;
 		gsize length;
 
+		close(fd);
+
 		if (!g_file_get_contents(f->str, &contents, &length, &error)) {
 			g_error_free(error);
 			return; /* ignore errors */
-- 
2.43.0


From 8df9c68da62ffeeb77e0abeca09bbd730b6e9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:13 +0000
Subject: [PATCH 074/110] fix: dirlist: stat cache entry used after release in
 error message

---
 src/modules/mod_dirlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 4dc7507..5da079b 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -338,7 +338,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 			vr->response.http_status = 403;
 			return LI_HANDLER_GO_ON;
 		default:
-			VR_ERROR(vr, "stat('%s') failed: %s", sce->data.path->str, g_strerror(sce->data.err));
+			VR_ERROR(vr, "stat('%s') failed: %s", vr->physical.path->str, g_strerror(e));
 			if (!li_vrequest_handle_direct(vr)) return LI_HANDLER_ERROR;
 			vr->response.http_status = 500;
 			return LI_HANDLER_GO_ON;
-- 
2.43.0


From ca9e2a54ebcec84be831cdc239a0c5373eae2b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:26 +0000
Subject: [PATCH 075/110] fix: value: grow the list when setting an entry
 beyond its end (lua tables with holes or unordered keys crashed)

---
 include/lighttpd/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lighttpd/value.h b/include/lighttpd/value.h
index bf7eea4..82f70f5 100644
--- a/include/lighttpd/value.h
+++ b/include/lighttpd/value.h
@@ -162,7 +162,7 @@ INLINE void li_value_list_set(liValue *val, guint ndx, liValue *entry) {
 		return;
 	}
 	list = val->data.list;
-	if (ndx <= list->len) {
+	if (ndx >= list->len) {
 		g_ptr_array_set_size(list, ndx + 1);
 	}
 	li_value_free(g_ptr_array_index(list, ndx));
-- 
2.43.0


From 46eb0cd10995352b5e40dfceba13ec84796ef469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:14 +0000
Subject: [PATCH 076/110] fix: config_lua: restore the lua stack and lock when
 a script can't be loaded (each failed lua.handler load leaked stack slots
 until the server aborted)

---
 src/main/config_lua.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/config_lua.c b/src/main/config_lua.c
index f5d32c3..a72897b 100644
--- a/src/main/config_lua.c
+++ b/src/main/config_lua.c
@@ -166,6 +166,15 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 
 	if (0 != luaL_loadfile(L, filename)) {
 		_ERROR(srv, wrk, NULL, "Loading script '%s' failed: %s", filename, lua_tostring(L, -1));
+
+		/* cleanup stack */
+		lua_settop(L, lua_stack_top);
+
+		li_lua_environment_restore(LL); /* -1 */
+		li_lua_environment_restore_globals(L); /* -1 */
+
+		li_lua_unlock(LL);
+
 		return FALSE;
 	}
 
-- 
2.43.0


From 6e0d26ce2be7e892d1017ea4525238223348928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:59 +0000
Subject: [PATCH 077/110] fix: mod_expire: don't overflow for long periods
 (negative max-age, wrong dates)

---
 src/modules/mod_expire.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_expire.c b/src/modules/mod_expire.c
index 9734752..68c7534 100644
--- a/src/modules/mod_expire.c
+++ b/src/modules/mod_expire.c
@@ -21,19 +21,22 @@ struct expire_rule {
 		EXPIRE_ACCESS,
 		EXPIRE_MODIFICATION
 	} base;
-	guint num;
+	gint64 num;
 };
 typedef struct expire_rule expire_rule;
 
+/* upper limit for a rule: 1000 years */
+#define EXPIRE_MAX_NUM (G_GINT64_CONSTANT(1000)*3600*24*365)
+
 
 static liHandlerResult expire(liVRequest *vr, gpointer param, gpointer *context) {
 	struct tm tm;
 	time_t expire_date;
 	guint len;
-	gint max_age;
+	gint64 max_age;
 	GString *date_str = vr->wrk->tmp_str;
 	expire_rule *rule = param;
-	guint num = rule->num;
+	gint64 num = rule->num;
 	time_t now = (time_t)li_cur_ts(vr->wrk);
 
 	UNUSED(context);
@@ -133,7 +136,7 @@ static liAction* expire_create(liServer *srv, liWorker *wrk, liPlugin* p, liValu
 
 	/* parse (<num> <type>)+ */
 	while (*str) {
-		guint num;
+		gint64 num;
 		/* parse <num> */
 		num = 0;
 
@@ -143,6 +146,7 @@ static liAction* expire_create(liServer *srv, liWorker *wrk, liPlugin* p, liValu
 
 			num *= 10;
 			num += (*str) - '0';
+			if (num > EXPIRE_MAX_NUM) num = EXPIRE_MAX_NUM + 1; /* rejected below */
 		}
 
 		if (!num) {
@@ -180,6 +184,11 @@ static liAction* expire_create(liServer *srv, liWorker *wrk, liPlugin* p, liValu
 		}
 
 		rule->num += num;
+		if (rule->num > EXPIRE_MAX_NUM) {
+			g_slice_free(expire_rule, rule);
+			ERROR(srv, "expire: error parsing rule \"%s\", period too long", val->data.string->str);
+			return NULL;
+		}
 
 		if (*str == 's')
 			str++;
-- 
2.43.0


From ed769cf508a59310485ab1c3d22cd26a42807625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:02 +0000
Subject: [PATCH 078/110] fix: mod_accesslog: %b and %B are the size without
 headers, and %b (not %B) is the CLF form, as documented

---
 include/lighttpd/virtualrequest.h |  3 +++
 src/main/connection.c             |  4 ++++
 src/main/response.c               |  1 +
 src/modules/mod_accesslog.c       | 17 ++++++++++++-----
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/lighttpd/virtualrequest.h b/include/lighttpd/virtualrequest.h
index d9e21f4..7ebf47c 100644
--- a/include/lighttpd/virtualrequest.h
+++ b/include/lighttpd/virtualrequest.h
@@ -60,6 +60,9 @@ struct liConInfo {
 	/* bytes in our "raw-io-out-queue" that hasn't be sent yet. (whatever "sent" means - in ssl buffer, kernel, ...) */
 	goffset out_queue_length;
 
+	/* position in the response stream (resp->out) after the response headers; 0 if the headers weren't sent yet */
+	goffset resp_headers_end;
+
 	/* use li_vrequest_update_stats_{in,out} to update this */
 	struct {
 		guint64 bytes_in; /* total number of bytes received */
diff --git a/src/main/connection.c b/src/main/connection.c
index 0cf1b39..ae5a468 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -795,6 +795,8 @@ static void li_connection_reset2(liConnection *con) {
 	li_event_stop(&con->keep_alive_data.watcher);
 	con->keep_alive_requests = 0;
 
+	con->info.resp_headers_end = 0;
+
 	/* reset stats */
 	con->info.stats.bytes_in = G_GUINT64_CONSTANT(0);
 	con->info.stats.bytes_in_5s = G_GUINT64_CONSTANT(0);
@@ -873,6 +875,8 @@ static void li_connection_reset_keep_alive(liConnection *con) {
 	li_chunkqueue_use_limit(con->con_sock.raw_in->out, LI_CONNECTION_DEFAULT_CHUNKQUEUE_LIMIT);
 	li_chunkqueue_use_limit(con->con_sock.raw_out->out, LI_CONNECTION_DEFAULT_CHUNKQUEUE_LIMIT);
 
+	con->info.resp_headers_end = 0;
+
 	/* reset stats */
 	con->info.stats.bytes_in = G_GUINT64_CONSTANT(0);
 	con->info.stats.bytes_in_5s = G_GUINT64_CONSTANT(0);
diff --git a/src/main/response.c b/src/main/response.c
index ed40eaf..8a7a6c4 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -149,6 +149,7 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 
 	li_g_string_append_len(head, CONST_STR_LEN("\r\n"));
 	li_chunkqueue_append_string(raw_out, head);
+	vr->coninfo->resp_headers_end = raw_out->bytes_in;
 
 	if (NULL != tmp_cq) {
 		li_chunkqueue_steal_all(raw_out, tmp_cq);
diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 8b34e33..fae9e64 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -76,8 +76,8 @@ static const al_format al_format_mapping[] = {
 	{ '%', FALSE, AL_FORMAT_PERCENT },
 	{ 'a', FALSE, AL_FORMAT_REMOTE_ADDR },
 	{ 'A', FALSE, AL_FORMAT_LOCAL_ADDR },
-	{ 'b', FALSE, AL_FORMAT_BYTES_RESPONSE },
-	{ 'B', FALSE, AL_FORMAT_BYTES_RESPONSE_CLF },
+	{ 'b', FALSE, AL_FORMAT_BYTES_RESPONSE_CLF },
+	{ 'B', FALSE, AL_FORMAT_BYTES_RESPONSE },
 	{ 'C', FALSE, AL_FORMAT_COOKIE },
 	{ 'D', FALSE, AL_FORMAT_DURATION_MICROSECONDS },
 	{ 'e', TRUE, AL_FORMAT_ENV },
@@ -207,6 +207,13 @@ static GArray *al_parse_format(liServer *srv, const gchar *formatstr) {
 	return arr;
 }
 
+/* number of bytes sent, without the response headers */
+static goffset al_response_bytes(liVRequest *vr) {
+	goffset bytes_out = (NULL != vr->coninfo->resp) ? vr->coninfo->resp->out->bytes_out : 0;
+	goffset headers = vr->coninfo->resp_headers_end;
+	return (headers > 0 && bytes_out > headers) ? bytes_out - headers : 0;
+}
+
 static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 	GString *str = g_string_sized_new(255);
 	liResponse *resp = &vr->response;
@@ -231,11 +238,11 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				li_g_string_append_len(str, GSTR_LEN(vr->coninfo->local_addr_str));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE:
-				li_string_append_int(str, (NULL != vr->coninfo->resp) ? vr->coninfo->resp->out->bytes_out : 0);
+				li_string_append_int(str, al_response_bytes(vr));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE_CLF:
-				if (NULL != vr->coninfo->resp && vr->coninfo->resp->out->bytes_out)
-					li_string_append_int(str, vr->coninfo->resp->out->bytes_out);
+				if (al_response_bytes(vr) > 0)
+					li_string_append_int(str, al_response_bytes(vr));
 				else
 					g_string_append_c(str, '-');
 				break;
-- 
2.43.0


From b3cf8b4f99df0d3708cdc8a8045293041035a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:09 +0000
Subject: [PATCH 079/110] fix: mod_accesslog: escape bytes >= 0x80 correctly

---
 src/modules/mod_accesslog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index fae9e64..e9f033f 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -124,9 +124,9 @@ static void al_append_escaped(GString *log, GString *str) {
 			} else {
 				/* non printable char => \xHH */
 				gchar hh[5] = {'\\','x',0,0,0};
-				gchar h = str->str[i] / 16;
+				guchar h = (guchar) str->str[i] / 16;
 				hh[2] = (h > 9) ? (h - 10 + 'A') : (h + '0');
-				h = str->str[i] % 16;
+				h = (guchar) str->str[i] % 16;
 				hh[3] = (h > 9) ? (h - 10 + 'A') : (h + '0');
 				li_g_string_append_len(log, &hh[0], 4);
 			}
-- 
2.43.0


From 567825c2c4cc1789ff9ff64a19f2568bcd0366d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:12 +0000
Subject: [PATCH 080/110] fix: mod_accesslog: escape the path, file name and
 user too (a client could forge log fields)

---
 src/modules/mod_accesslog.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index e9f033f..6a96218 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -258,7 +258,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				break;
 			case AL_FORMAT_FILENAME:
 				if (phys->path->len)
-					li_g_string_append_len(str, GSTR_LEN(phys->path));
+					al_append_escaped(str, phys->path);
 				else
 					g_string_append_c(str, '-');
 				break;
@@ -316,12 +316,12 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 			case AL_FORMAT_AUTHED_USER:
 				tmp_gstr2 = li_environment_get(&vr->env, CONST_STR_LEN("REMOTE_USER"));
 				if (tmp_gstr2)
-					li_g_string_append_len(str, GSTR_LEN(tmp_gstr2));
+					al_append_escaped(str, tmp_gstr2);
 				else
 					g_string_append_c(str, '-');
 				break;
 			case AL_FORMAT_PATH:
-				li_g_string_append_len(str, GSTR_LEN(req->uri.path));
+				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
 				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
-- 
2.43.0


From 2855d3501768ec06e2c851b1f1d5458dfe893420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:51 +0000
Subject: [PATCH 081/110] fix: mod_accesslog: %v is the request hostname if
 server.name isn't set

---
 src/modules/mod_accesslog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 6a96218..73ed2f5 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -324,7 +324,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
-				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
+				if (NULL != CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string && CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string->len > 0)
 					li_g_string_append_len(str, GSTR_LEN(CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string));
 				else
 					li_g_string_append_len(str, GSTR_LEN(req->uri.host));
-- 
2.43.0


From a3c3be8bf66fd4a13023440aaf44f7578813b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:59 +0000
Subject: [PATCH 082/110] fix: backends: don't access freed workers when the
 last worker frees the pool during shutdown

---
 src/main/backends.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 4aa0932..35a3cc6 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -74,6 +74,7 @@ struct liBackendPool_p {
 
 	GMutex *lock;
 	liBackendWorkerPool *worker_pools;
+	guint worker_count; /* number of worker_pools */
 
 	guint active, reserved, idle, pending, total; /* [pool] connection counts. */
 
@@ -804,6 +805,7 @@ static void S_backend_pool_init(liWorker *wrk, liBackendPool_p *pool) {
 	if (pool->worker_pools == NULL) {
 		guint i, l = wrk->srv->worker_count;
 		pool->worker_pools = g_slice_alloc0(sizeof(liBackendWorkerPool) * l);
+		pool->worker_count = l;
 
 		for (i = 0; i < l; ++i) {
 			liBackendWorkerPool *wpool = &pool->worker_pools[i];
@@ -870,8 +872,8 @@ static void backend_pool_worker_shutdown_done(gpointer cbdata, gpointer fdata, G
 	pool->public.config->callbacks->free_cb(&pool->public);
 
 	if (pool->worker_pools != NULL) {
-		liServer *srv = pool->worker_pools[0].wrk->srv;
-		g_slice_free1(sizeof(liBackendPool_p) * srv->worker_count, pool->worker_pools);
+		/* the workers might already be gone */
+		g_slice_free1(sizeof(liBackendWorkerPool) * pool->worker_count, pool->worker_pools);
 	}
 
 	g_mutex_free(pool->lock);
-- 
2.43.0


From 22c23ad24f1a936aabb07b30372bf9a07340c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 083/110] fix: mod_balance: a nested balancer reports
 dead/overloaded to the outer balancer instead of keeping the request in its
 own backlog

---
 src/modules/mod_balance.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_balance.c b/src/modules/mod_balance.c
index fef48d3..e3e3eb1 100644
--- a/src/modules/mod_balance.c
+++ b/src/modules/mod_balance.c
@@ -329,6 +329,10 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 		} else {
 			li_vrequest_backend_overloaded(vr);
 		}
+
+		g_mutex_unlock(b->lock);
+
+		return LI_HANDLER_GO_ON;
 	}
 
 	/* don't backlog scheduled requests */
@@ -406,7 +410,7 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 			_balancer_backlog_update_watcher(vr->wrk, b);
 		}
 
-		if (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit) {
+		if (!backlog_provided && (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit)) {
 			_balancer_context_backlog_push(b, context, vr);
 
 			g_mutex_unlock(b->lock);
-- 
2.43.0


From cd0d2d394e2ebe6504a9f38ae07429893252c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:44 +0000
Subject: [PATCH 084/110] fix: connection: keepalive.requests N allows N
 requests per connection, not N+1

---
 src/main/connection.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index ae5a468..e6733f2 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -243,9 +243,6 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 		li_event_stop(&con->keep_alive_data.watcher);
 
 		con->keep_alive_requests++;
-		/* disable keep alive if limit is reached */
-		if (con->keep_alive_requests == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number)
-			con->info.keep_alive = FALSE;
 
 		/* reopen stream for request body */
 		li_chunkqueue_reset(in);
@@ -428,6 +425,11 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			if (0 == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE).number) {
 				con->info.keep_alive = FALSE;
 			}
+			/* disable keep alive if limit is reached; keep_alive_requests doesn't count the first request */
+			if (CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number > 0
+			    && (gint64) con->keep_alive_requests + 1 >= CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number) {
+				con->info.keep_alive = FALSE;
+			}
 			li_response_send_headers(vr, raw_out, out, FALSE);
 		}
 
-- 
2.43.0


From 3c69f31ea1e2ea0a31f1414153257dbe6f1cce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:01 +0000
Subject: [PATCH 085/110] fix: io.timeout closed connections that only waited
 for a backend: it is for the network, so stop it once the request is
 complete, and use it again while the client has response data to read

---
 src/main/connection.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index e6733f2..784ab28 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -29,6 +29,7 @@ void li_connection_simple_tcp(liConnection **pcon, liIOStream *stream, gpointer
 			if (transfer_out > 0) {
 				li_connection_update_io_timeout(con);
 				li_vrequest_update_stats_out(con->mainvr, transfer_out);
+				li_connection_update_io_wait(con);
 			}
 		}
 	}
@@ -368,6 +369,8 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 				in->is_closed = TRUE;
 			}
 		}
+		/* no need to wait for the client anymore after the end of the request */
+		if (in->is_closed) li_connection_update_io_wait(con);
 		if (newbytes > 0 || in->is_closed) {
 			li_stream_notify(&con->in);
 		}
@@ -455,6 +458,7 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			}
 		}
 		con->info.out_queue_length = raw_out->length;
+		li_connection_update_io_wait(con);
 	}
 
 	li_stream_notify(stream);
@@ -469,6 +473,11 @@ void li_connection_update_io_timeout(liConnection *con) {
 	}
 }
 
+static gboolean connection_out_pending(liConnection *con) {
+	if (con->out.out->length > 0) return TRUE;
+	return NULL != con->con_sock.raw_out && NULL != con->con_sock.raw_out->out && con->con_sock.raw_out->out->length > 0;
+}
+
 void li_connection_update_io_wait(liConnection *con) {
 	liWorker *wrk = con->wrk;
 	gboolean want_timeout = FALSE;
@@ -489,8 +498,8 @@ void li_connection_update_io_wait(liConnection *con) {
 		want_timeout = TRUE;
 		break;
 	case LI_CON_STATE_HANDLE_MAINVR:
-		/* want timeout while we're still reading request body */
-		want_timeout = stopping || !con->in.out->is_closed;
+		/* want timeout while we're still reading request body or the client has data to read */
+		want_timeout = stopping || !con->in.out->is_closed || connection_out_pending(con);
 		break;
 	case LI_CON_STATE_WRITE:
 		want_timeout = TRUE;
-- 
2.43.0


From 2a6e0be977301d98ef8c2adada82e0e1deb59f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:15 +0000
Subject: [PATCH 086/110] fix: chunk_lua: add_file with start/length, empty
 files and errors; add({filename=..}) as documented; wrong calls no longer
 crash

---
 src/main/chunk_lua.c | 54 ++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index e9b6379..747f847 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -112,6 +112,8 @@ static int lua_chunkqueue_newindex(lua_State *L) {
 	return 0;
 }
 
+static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile);
+
 static int lua_chunkqueue_add(lua_State *L) {
 	liChunkQueue *cq;
 	const char *s;
@@ -121,6 +123,13 @@ static int lua_chunkqueue_add(lua_State *L) {
 	cq = li_lua_get_chunkqueue(L, 1);
 	if (cq == NULL) return 0;
 
+	if (lua_istable(L, 2)) { /* add({filename="/..."}) */
+		lua_settop(L, 2);
+		lua_getfield(L, 2, "filename");
+		lua_replace(L, 2);
+		return _lua_chunkqueue_add_file(L, FALSE);
+	}
+
 	if (!lua_isstring(L, 2)) {
 		lua_pushliteral(L, "chunkqueue add expects simple string");
 		lua_error(L);
@@ -164,38 +173,50 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 		return -1;
 	}
 
-	start = 0;
-	length = st.st_size;
+	/* lua_error() doesn't return: close fd before calling it */
+	if (!S_ISREG(st.st_mode)) {
+		close(fd);
+		lua_pushliteral(L, "chunkqueue:add: not a regular file: ");
+		lua_pushvalue(L, 2);
+		lua_concat(L, 2);
+		return lua_error(L);
+	}
 
+	start = 0;
 	if (lua_gettop(L) >= 3) {
+		lua_Number n;
 		if (!lua_isnumber(L, 3)) {
-			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as second parameter");
-			lua_error(L);
-
 			close(fd);
-			return -1;
+			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as second parameter");
+			return lua_error(L);
 		}
 
-		start = lua_tonumber(L, 3);
+		n = lua_tonumber(L, 3);
+		start = (n >= 0 && n <= st.st_size) ? (goffset) n : -1;
 	}
+
+	length = st.st_size - start;
 	if (lua_gettop(L) >= 4) {
+		lua_Number n;
 		if (!lua_isnumber(L, 4)) {
-			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as third parameter");
-			lua_error(L);
-
 			close(fd);
-			return -1;
+			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as third parameter");
+			return lua_error(L);
 		}
 
-		length = lua_tonumber(L, 3);
+		n = lua_tonumber(L, 4);
+		length = (n >= 0 && n <= st.st_size) ? (goffset) n : -1;
 	}
 
-	if (start < 0 || start >= st.st_size || length < 0 || start + length > st.st_size) {
+	if (start < 0 || length < 0 || length > st.st_size - start) {
+		close(fd);
 		lua_pushliteral(L, "chunkqueue:add: Invalid start/length values");
-		lua_error(L);
+		return lua_error(L);
+	}
 
+	if (0 == length) {
 		close(fd);
-		return -1;
+		return 0;
 	}
 
 	if (tempfile) {
@@ -219,6 +240,7 @@ static int lua_chunkqueue_reset(lua_State *L) {
 	liChunkQueue *cq;
 
 	cq = li_lua_get_chunkqueue(L, 1);
+	if (cq == NULL) return 0;
 	li_chunkqueue_reset(cq);
 
 	return 0;
@@ -233,6 +255,7 @@ static int lua_chunkqueue_steal_all(lua_State *L) {
 		lua_pushliteral(L, "Expected source chunkqueue to steal from");
 		return lua_error(L);
 	}
+	if (cq == NULL || cq == cq_from) return 0;
 
 	li_chunkqueue_steal_all(cq, cq_from);
 
@@ -243,6 +266,7 @@ static int lua_chunkqueue_skip_all(lua_State *L) {
 	liChunkQueue *cq;
 
 	cq = li_lua_get_chunkqueue(L, 1);
+	if (cq == NULL) return 0;
 	li_chunkqueue_skip_all(cq);
 
 	return 0;
-- 
2.43.0


From a1f97ac992dd441fd16335fb2f186f7bf8929de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:17 +0000
Subject: [PATCH 087/110] fix: virtualrequest_lua: methods called without a
 vrequest are a Lua error, not a crash

---
 src/main/virtualrequest_lua.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/main/virtualrequest_lua.c b/src/main/virtualrequest_lua.c
index 8b860ea..1ba5f2c 100644
--- a/src/main/virtualrequest_lua.c
+++ b/src/main/virtualrequest_lua.c
@@ -151,6 +151,10 @@ static int lua_vrequest_error(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
 	vr = li_lua_get_vrequest(L, 1);
+	if (NULL == vr) {
+		lua_pushstring(L, "expected virtual request as first argument");
+		return lua_error(L);
+	}
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -165,6 +169,10 @@ static int lua_vrequest_warning(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
 	vr = li_lua_get_vrequest(L, 1);
+	if (NULL == vr) {
+		lua_pushstring(L, "expected virtual request as first argument");
+		return lua_error(L);
+	}
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -179,6 +187,10 @@ static int lua_vrequest_info(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
 	vr = li_lua_get_vrequest(L, 1);
+	if (NULL == vr) {
+		lua_pushstring(L, "expected virtual request as first argument");
+		return lua_error(L);
+	}
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -193,6 +205,10 @@ static int lua_vrequest_debug(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
 	vr = li_lua_get_vrequest(L, 1);
+	if (NULL == vr) {
+		lua_pushstring(L, "expected virtual request as first argument");
+		return lua_error(L);
+	}
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -261,6 +277,10 @@ static int lua_vrequest_stat(lua_State *L) {
 static int lua_vrequest_handle_direct(lua_State *L) {
 	liVRequest *vr;
 	vr = li_lua_get_vrequest(L, 1);
+	if (NULL == vr) {
+		lua_pushstring(L, "expected virtual request as first argument");
+		return lua_error(L);
+	}
 
 	lua_pushboolean(L, li_vrequest_handle_direct(vr));
 
@@ -297,6 +317,10 @@ static int lua_vrequest_add_filter_in(lua_State *L) {
 	}
 
 	vr = li_lua_get_vrequest(L, 1);
+	if (NULL == vr) {
+		lua_pushstring(L, "expected virtual request as first argument");
+		return lua_error(L);
+	}
 
 	return li_lua_push_filter(L, li_lua_vrequest_add_filter_in(L, vr, 2));
 }
@@ -310,6 +334,10 @@ static int lua_vrequest_add_filter_out(lua_State *L) {
 	}
 
 	vr = li_lua_get_vrequest(L, 1);
+	if (NULL == vr) {
+		lua_pushstring(L, "expected virtual request as first argument");
+		return lua_error(L);
+	}
 
 	return li_lua_push_filter(L, li_lua_vrequest_add_filter_out(L, vr, 2));
 }
-- 
2.43.0


From ac9bd3356367fb0ade415742d905dcce88288e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:20 +0000
Subject: [PATCH 088/110] fix: core_lua: method lookup on objects without index
 must not panic; logging without a vrequest

---
 include/lighttpd/log.h | 16 ++++++++--------
 src/main/core_lua.c    | 13 ++++++++++---
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/lighttpd/log.h b/include/lighttpd/log.h
index ef878fa..1b50b03 100644
--- a/include/lighttpd/log.h
+++ b/include/lighttpd/log.h
@@ -54,14 +54,14 @@
 #define VR_GERROR(vr, error, fmt, ...) _GERROR(vr->wrk->srv, vr->wrk, &vr->log_context, error, fmt, __VA_ARGS__)
 
 /* vr may be NULL; if vr is NULL, srv must NOT be NULL */
-#define _VR_SEGFAULT(srv, vr, fmt, ...) _SEGFAULT(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_ERROR(srv, vr, fmt, ...)    _ERROR(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_WARNING(srv, vr, fmt, ...)  _WARNING(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_INFO(srv, vr, fmt, ...)     _INFO(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_DEBUG(srv, vr, fmt, ...)    _DEBUG(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_BACKEND(srv, vr, fmt, ...)  _BACKEND(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_BACKEND_LINES(srv, vr, txt, fmt, ...) _BACKEND_LINES(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, txt, fmt, __VA_ARGS__)
-#define _VR_GERROR(srv, vr, error, fmt, ...) _GERROR(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, error, fmt, __VA_ARGS__)
+#define _VR_SEGFAULT(srv, vr, fmt, ...) _SEGFAULT(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_ERROR(srv, vr, fmt, ...)    _ERROR(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_WARNING(srv, vr, fmt, ...)  _WARNING(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_INFO(srv, vr, fmt, ...)     _INFO(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_DEBUG(srv, vr, fmt, ...)    _DEBUG(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_BACKEND(srv, vr, fmt, ...)  _BACKEND(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_BACKEND_LINES(srv, vr, txt, fmt, ...) _BACKEND_LINES(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, txt, fmt, __VA_ARGS__)
+#define _VR_GERROR(srv, vr, error, fmt, ...) _GERROR(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, error, fmt, __VA_ARGS__)
 
 #define SEGFAULT(srv, fmt, ...)   _SEGFAULT(srv, NULL, NULL, fmt, __VA_ARGS__)
 #define ERROR(srv, fmt, ...)      _ERROR(srv, NULL, NULL, fmt, __VA_ARGS__)
diff --git a/src/main/core_lua.c b/src/main/core_lua.c
index e49f48e..19fdd2b 100644
--- a/src/main/core_lua.c
+++ b/src/main/core_lua.c
@@ -53,13 +53,20 @@ int li_lua_push_traceback(lua_State *L, int nargs) {
 	return base;
 }
 
+/* stack: object, method name; the lookup can fail for objects which can't be indexed */
+static int call_object_lookup(lua_State *L) {
+	lua_gettable(L, 1);
+	return 1;
+}
+
 gboolean li_lua_call_object(liServer *srv, liVRequest *vr, lua_State *L, const char* method, int nargs, int nresults, gboolean optional) {
 	int errfunc;
 	gboolean result;
 
-	lua_getfield(L, -nargs, method); /* +1 "function" */
-
-	if (!lua_isfunction(L, -1)) {
+	lua_pushcfunction(L, call_object_lookup); /* +1 */
+	lua_pushvalue(L, -1 - nargs); /* +1 */
+	lua_pushstring(L, method); /* +1 */
+	if (0 != lua_pcall(L, 2, 1, 0) /* -3, +1 "function" or error */ || !lua_isfunction(L, -1)) {
 		if (!optional) {
 			_VR_ERROR(srv, vr, "li_lua_call_object: method '%s' not found", method);
 		}
-- 
2.43.0


From aab5c6abd1cc334e7ddd8324e7eb3f3bb89e61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:27 +0000
Subject: [PATCH 089/110] fix: filters_lua: vr:add_filter_in/out had no
 environment, filters added too late leaked, errors after the end of the
 request crashed

---
 src/main/filters_lua.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/main/filters_lua.c b/src/main/filters_lua.c
index e6a0272..c580fb9 100644
--- a/src/main/filters_lua.c
+++ b/src/main/filters_lua.c
@@ -161,6 +161,7 @@ struct filter_lua_config {
 
 typedef struct filter_lua_state filter_lua_state;
 struct filter_lua_state {
+	liServer *srv; /* the vrequest might be gone already */
 	liLuaState *LL;
 	int env_ref;
 	int object_ref;
@@ -200,6 +201,7 @@ static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config
 
 	if (LUA_NOREF != object_ref) {
 		filter_lua_state *state = g_slice_new0(filter_lua_state);
+		state->srv = srv;
 		state->LL = config->LL;
 		state->object_ref = object_ref;
 		state->env_ref = env_ref;
@@ -211,7 +213,7 @@ static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config
 }
 
 static void filter_lua_state_free(liVRequest *vr, filter_lua_state *state) {
-	liServer *srv = NULL != vr ? vr->wrk->srv : NULL;
+	liServer *srv = state->srv;
 	lua_State *L = state->LL->L;
 
 	li_lua_lock(state->LL);
@@ -237,8 +239,8 @@ static void filter_lua_free(liVRequest *vr, liFilter *f) {
 }
 
 static liHandlerResult filter_lua_handle(liVRequest *vr, liFilter *f) {
-	liServer *srv = NULL != vr ? vr->wrk->srv : NULL;
 	filter_lua_state *state = (filter_lua_state*) f->param;
+	liServer *srv = state->srv;
 	lua_State *L = state->LL->L;
 	liHandlerResult res;
 
@@ -261,7 +263,7 @@ static liHandlerResult filter_lua_handle(liVRequest *vr, liFilter *f) {
 				res = rc;
 				break;
 			default:
-				VR_ERROR(vr, "lua filter returned an error or an unknown value (%i)", rc);
+				_VR_ERROR(srv, vr, "lua filter returned an error or an unknown value (%i)", rc);
 				res = LI_HANDLER_ERROR;
 			}
 		}
@@ -281,8 +283,8 @@ static liHandlerResult filter_lua_in(liVRequest *vr, gpointer param, gpointer *c
 	filter_lua_state *state = filter_lua_state_new(vr, config);
 	UNUSED(context);
 
-	if (state) {
-		li_vrequest_add_filter_in(vr, filter_lua_handle, filter_lua_free, NULL, state);
+	if (state && NULL == li_vrequest_add_filter_in(vr, filter_lua_handle, filter_lua_free, NULL, state)) {
+		filter_lua_state_free(vr, state); /* too late for filters */
 	}
 
 	return LI_HANDLER_GO_ON;
@@ -293,8 +295,8 @@ static liHandlerResult filter_lua_out(liVRequest *vr, gpointer param, gpointer *
 	filter_lua_state *state = filter_lua_state_new(vr, config);
 	UNUSED(context);
 
-	if (state) {
-		li_vrequest_add_filter_out(vr, filter_lua_handle, filter_lua_free, NULL, state);
+	if (state && NULL == li_vrequest_add_filter_out(vr, filter_lua_handle, filter_lua_free, NULL, state)) {
+		filter_lua_state_free(vr, state); /* too late for filters */
 	}
 
 	return LI_HANDLER_GO_ON;
@@ -353,27 +355,37 @@ void li_lua_init_filters(lua_State *L, liServer* srv) {
 }
 
 liFilter* li_lua_vrequest_add_filter_in(lua_State *L, liVRequest *vr, int state_ndx) {
+	liFilter *f;
 	filter_lua_state *state;
 	liLuaState *LL = li_lua_state_get(L);
 
 	lua_pushvalue(L, state_ndx);
 
 	state = g_slice_new0(filter_lua_state);
+	state->srv = vr->wrk->srv;
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	state->env_ref = li_lua_environment_create(LL, vr);
 
-	return li_vrequest_add_filter_in(vr, filter_lua_handle, filter_lua_free, NULL, state);
+	f = li_vrequest_add_filter_in(vr, filter_lua_handle, filter_lua_free, NULL, state);
+	if (NULL == f) filter_lua_state_free(vr, state); /* too late for filters */
+	return f;
 }
 
 liFilter* li_lua_vrequest_add_filter_out(lua_State *L, liVRequest *vr, int state_ndx) {
+	liFilter *f;
 	filter_lua_state *state;
 	liLuaState *LL = li_lua_state_get(L);
 
 	lua_pushvalue(L, state_ndx);
 
 	state = g_slice_new0(filter_lua_state);
+	state->srv = vr->wrk->srv;
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	state->env_ref = li_lua_environment_create(LL, vr);
 
-	return li_vrequest_add_filter_out(vr, filter_lua_handle, filter_lua_free, NULL, state);
+	f = li_vrequest_add_filter_out(vr, filter_lua_handle, filter_lua_free, NULL, state);
+	if (NULL == f) filter_lua_state_free(vr, state); /* too late for filters */
+	return f;
 }
-- 
2.43.0


From 02e9d9a5fd02ddcba2129b7b1282c080642bae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:29 +0000
Subject: [PATCH 090/110] fix: condition_lua: comparing something that is not a
 request value is a Lua error, not a crash

---
 src/main/condition_lua.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/condition_lua.c b/src/main/condition_lua.c
index 41a2255..586a343 100644
--- a/src/main/condition_lua.c
+++ b/src/main/condition_lua.c
@@ -171,6 +171,10 @@ static int lua_cond_lvalue_bool(lua_State *L) {
 	lvalue = lua_get_condition_lvalue(L, 1);
 	srv = (liServer*) lua_touserdata(L, lua_upvalueindex(1));
 	cmpop = (liCompOperator) lua_tointeger(L, lua_upvalueindex(2));
+	if (NULL == lvalue) {
+		lua_pushstring(L, "expected condition variable as first argument");
+		return lua_error(L);
+	}
 
 	c = li_condition_new_bool(srv, lvalue, cmpop == LI_CONFIG_COND_EQ);
 	if (c) {
@@ -191,6 +195,10 @@ static int lua_cond_lvalue_cmp(lua_State *L) {
 	lvalue = lua_get_condition_lvalue(L, 1);
 	srv = (liServer*) lua_touserdata(L, lua_upvalueindex(1));
 	cmpop = (liCompOperator) lua_tointeger(L, lua_upvalueindex(2));
+	if (NULL == lvalue) {
+		lua_pushstring(L, "expected condition variable as first argument");
+		return lua_error(L);
+	}
 
 	if (NULL == (sval = li_lua_togstring(L, 2))) return 0;
 	c = li_condition_new_string(srv, cmpop, lvalue, sval);
-- 
2.43.0


From 84539d5925dfe15163c750d9c46fe62640d94e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:32 +0000
Subject: [PATCH 091/110] fix: filter: do not run filters in the middle of
 connecting them, a failing filter crashed the server

---
 src/main/filter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/filter.c b/src/main/filter.c
index d1f52c8..2653f4d 100644
--- a/src/main/filter.c
+++ b/src/main/filter.c
@@ -80,7 +80,8 @@ static void filter_stream_cb(liStream *stream, liStreamEvent event) {
 		if (NULL != filter->handle_event) {
 			filter->handle_event(filter->vr, filter, event);
 		} else {
-			li_stream_again(stream);
+			/* not li_stream_again: an error of the filter would end the request in the middle of connecting it */
+			li_stream_again_later(stream);
 		}
 		break;
 	case LI_STREAM_CONNECTED_DEST:
-- 
2.43.0


From 0f49d5449876dbb2076d6c40755407c213bb276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:50 +0000
Subject: [PATCH 092/110] fix: mod_lua: lua.handler with ttl missed changes
 made in the second of a load or hidden by the stat cache

---
 src/modules/mod_lua.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_lua.c b/src/modules/mod_lua.c
index abda286..b8c8f57 100644
--- a/src/modules/mod_lua.c
+++ b/src/modules/mod_lua.c
@@ -36,7 +36,8 @@ struct module_config {
 typedef struct lua_worker_config lua_worker_config;
 struct lua_worker_config {
 	liAction *act;
-	time_t ts_loaded;
+	time_t ts_loaded; /* when the file was loaded or checked */
+	time_t mtime; /* modification time of the file as known when it was loaded */
 };
 
 typedef struct lua_config lua_config;
@@ -105,9 +106,12 @@ static liHandlerResult lua_handle(liVRequest *vr, gpointer param, gpointer *cont
 
 		last_load = wc->ts_loaded;
 		wc->ts_loaded = li_cur_ts(vr->wrk);
-		if (timeout && st.st_mtime <= last_load) {
+		/* the stat cache might have returned an old entry, and the file might have changed (again) in the
+		 * second it was loaded in: only keep it if it has the known mtime and that is old enough */
+		if (timeout && st.st_mtime == wc->mtime && st.st_mtime < last_load) {
 			goto loaded;
 		}
+		wc->mtime = st.st_mtime;
 
 		li_action_release(vr->wrk->srv, wc->act);
 		wc->act = NULL;
-- 
2.43.0


From dee0fdf7a3359e5545d834ec8e0f091cd035da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:26 +0000
Subject: [PATCH 093/110] fix: chunk_lua: add_temp_file removes empty files too

---
 src/main/chunk_lua.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index 747f847..a990fa0 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -216,6 +216,7 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 
 	if (0 == length) {
 		close(fd);
+		if (tempfile) unlink(filename);
 		return 0;
 	}
 
-- 
2.43.0


From de2e599e0557e1b6a8f84e07bef850a957b96608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:21 +0000
Subject: [PATCH 094/110] fix: filter: at the end of a request a failing filter
 crashed the server, and chains of filters not (yet) connected leaked

---
 include/lighttpd/filter.h |  1 -
 src/main/filter.c         | 53 +++++++++++++++++++++------------------
 src/main/virtualrequest.c |  5 ++--
 3 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/include/lighttpd/filter.h b/include/lighttpd/filter.h
index 9b0fc3e..6a654f6 100644
--- a/include/lighttpd/filter.h
+++ b/include/lighttpd/filter.h
@@ -24,7 +24,6 @@ struct liFilter {
 	gpointer param;
 
 	liVRequest *vr;
-	guint filter_ndx;
 };
 
 LI_API liFilter* li_filter_new(liVRequest *vr, liFilterHandlerCB handle_data, liFilterFreeCB handle_free, liFilterEventCB handle_event, gpointer param);
diff --git a/src/main/filter.c b/src/main/filter.c
index 2653f4d..8ba2cd2 100644
--- a/src/main/filter.c
+++ b/src/main/filter.c
@@ -2,8 +2,6 @@
 #include <lighttpd/base.h>
 #include <lighttpd/filter.h>
 
-static void li_filter_stop(liFilter *filter);
-
 void li_vrequest_filters_init(liVRequest *vr) {
 	vr->filters_in_last = vr->filters_out_last = NULL;
 	vr->filters_in_first = vr->filters_out_first = NULL;
@@ -16,12 +14,37 @@ void li_vrequest_filters_clear(liVRequest *vr) {
 	vr->filters = NULL;
 }
 
-void li_vrequest_filters_reset(liVRequest *vr) {
-	while (vr->filters->len > 0) {
-		li_filter_stop(g_ptr_array_index(vr->filters, vr->filters->len - 1));
+/* break the links between the filters of a chain */
+static void filters_unlink(liStream *first, liStream *last) {
+	while (last != first && NULL != last->source) {
+		liStream *prev = last->source;
+		li_stream_disconnect(last);
+		last = prev;
 	}
+}
+
+void li_vrequest_filters_reset(liVRequest *vr) {
+	liStream *in_first = vr->filters_in_first, *in_last = vr->filters_in_last;
+	liStream *out_first = vr->filters_out_first, *out_last = vr->filters_out_last;
+	guint i;
+
 	vr->filters_in_last = vr->filters_out_last = NULL;
 	vr->filters_in_first = vr->filters_out_first = NULL;
+
+	for (i = 0; i < vr->filters->len; i++) {
+		liFilter *filter = g_ptr_array_index(vr->filters, i);
+		filter->vr = NULL;
+	}
+
+	/* filters which aren't connected with the request (not yet or not anymore) would keep each other alive forever */
+	if (NULL != in_first) filters_unlink(in_first, in_last);
+	if (NULL != out_first && NULL == out_last->dest) filters_unlink(out_first, out_last);
+
+	for (i = 0; i < vr->filters->len; i++) {
+		liFilter *filter = g_ptr_array_index(vr->filters, i);
+		li_stream_release(&filter->stream);
+	}
+	g_ptr_array_set_size(vr->filters, 0);
 }
 
 static void filter_handle_data(liFilter *filter) {
@@ -131,31 +154,11 @@ liFilter* li_filter_new(liVRequest* vr, liFilterHandlerCB handle_data, liFilterF
 	f->handle_event = handle_event;
 
 	f->vr = vr;
-	f->filter_ndx = vr->filters->len;
 	g_ptr_array_add(vr->filters, f);
 
 	return f;
 }
 
-static void li_filter_stop(liFilter *filter) {
-	liVRequest *vr = filter->vr;
-
-	/* remove from vr filters list */
-	LI_FORCE_ASSERT(vr->filters->len > 0);
-	LI_FORCE_ASSERT(g_ptr_array_index(vr->filters, filter->filter_ndx) == filter);
-	if (vr->filters->len - 1 != filter->filter_ndx) {
-		/* not the last filter, swap: */
-		liFilter *last = g_ptr_array_index(vr->filters, vr->filters->len - 1);
-		last->filter_ndx = filter->filter_ndx;
-		g_ptr_array_index(vr->filters, filter->filter_ndx) = last;
-	}
-	g_ptr_array_set_size(vr->filters, vr->filters->len - 1);
-
-	filter->vr = NULL;
-	li_stream_release(&filter->stream);
-}
-
-
 liFilter* li_vrequest_add_filter_in(liVRequest *vr, liFilterHandlerCB handle_data, liFilterFreeCB handle_free, liFilterEventCB handle_event, gpointer param) {
 	liFilter *f;
 
diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index b42fe5c..8d034ed 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -125,6 +125,9 @@ void li_vrequest_free(liVRequest* vr) {
 void li_vrequest_reset(liVRequest *vr, gboolean keepalive) {
 	liServer *srv = vr->wrk->srv;
 
+	/* before disconnecting the streams: an error of a filter must not abort the connection now */
+	li_vrequest_filters_reset(vr);
+
 	vr->direct_out = NULL;
 	li_stream_safe_reset_and_release(&vr->backend_source);
 	li_stream_safe_reset_and_release(&vr->backend_drain);
@@ -167,8 +170,6 @@ void li_vrequest_reset(liVRequest *vr, gboolean keepalive) {
 	}
 #endif
 
-	li_vrequest_filters_reset(vr);
-
 	li_job_reset(&vr->job);
 
 	while (vr->stat_cache_entries->len > 0 ) {
-- 
2.43.0


From f08d73bd57d9a87a43fb83da22cc28e0b33afa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:11 +0000
Subject: [PATCH 095/110] fix: core_lua: restoring the environment left the old
 metatable on the lua stack (grew with every request), which then replaced the
 globals

---
 src/main/core_lua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/core_lua.c b/src/main/core_lua.c
index 19fdd2b..a577579 100644
--- a/src/main/core_lua.c
+++ b/src/main/core_lua.c
@@ -197,7 +197,7 @@ void li_lua_environment_restore(liLuaState *LL) /* -1 (expects previous metatabl
 	lua_rawgeti(L, LUA_REGISTRYINDEX, LL->li_env_ref); /* +1 */
 	lua_pushvalue(L, -2); /* +1 */
 	lua_setmetatable(L, -2); /* -1 restore prev mt for LI_ENV */
-	lua_pop(L, 1); /* -2 */
+	lua_pop(L, 2); /* -2 pop LI_ENV and prev mt */
 }
 
 void li_lua_environment_use_globals(liLuaState *LL) /* +1 */ {
-- 
2.43.0


From 436a4bf681fc2e2ccf33314591ae5142658db5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:40 +0000
Subject: [PATCH 096/110] fix: contrib: auth.require_user matched other users
 (unescaped . ? ( ) { }), core.xsendfile with a directory never worked,
 core.cached_html served <docroot>.html

---
 contrib/core.lua              | 2 +-
 contrib/core__cached_html.lua | 5 ++++-
 contrib/core__xsendfile.lua   | 7 +++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/contrib/core.lua b/contrib/core.lua
index 2ff904b..7134a22 100644
--- a/contrib/core.lua
+++ b/contrib/core.lua
@@ -80,7 +80,7 @@ local function auth_require_user(...)
 	else
 		local escapedusers = {}
 		for i, u in ipairs(users) do
-			escapedusers[i] = u:gsub("[]|+*[\\^$-]", "\\%0")
+			escapedusers[i] = u:gsub("[].?(){}|+*[\\^$-]", "\\%0")
 		end
 		local regex = "^(" .. table.concat(escapedusers, "|") .. ")$"
 -- 		lighty.debug("auth_require_user REMOTE_USER regex: " .. regex)
diff --git a/contrib/core__cached_html.lua b/contrib/core__cached_html.lua
index e88525a..34d3a1b 100644
--- a/contrib/core__cached_html.lua
+++ b/contrib/core__cached_html.lua
@@ -1,11 +1,14 @@
 local function try_cached_html(vr)
 	local p = vr.phys.path
+	local root = vr.phys.doc_root:gsub('/+$', '')
+	-- the document root itself has no name in it: docroot .. '.html' is outside
+	if p:gsub('/+$', '') == root then return end
 	if p:sub(-1) == '/' then
 		p = p:sub(0, -2) .. '.html'
 	else
 		p = p .. '.html'
 	end
-	st, res = vr:stat(p)
+	local st, res = vr:stat(p)
 	if st and st.is_file then
 		-- found the file
 		vr.phys.path = p
diff --git a/contrib/core__xsendfile.lua b/contrib/core__xsendfile.lua
index fc4c62b..46a9d13 100644
--- a/contrib/core__xsendfile.lua
+++ b/contrib/core__xsendfile.lua
@@ -3,6 +3,9 @@ local filename, args = ...
 
 local docroot = args
 
+-- directory the files have to be in, with a trailing slash
+if docroot then docroot = lighty.path_simplify(docroot .. "/") end
+
 -- create new class XFilterDrop
 local XFilterDrop = { }
 XFilterDrop.__index = XFilterDrop
@@ -55,8 +58,8 @@ local function handle_x_sendfile(vr)
 	local xs = vr.resp.headers["X-Sendfile"]
 	if xs and xs ~= "" then
 		xs = lighty.path_simplify(xs)
-		if docroot and xs:sub(docroot.len()) ~= docroot then
-			vr:error("x-sendfile: File '".. xs .. "'not in required docroot '" .. docroot .. "'")
+		if docroot and xs:sub(1, docroot:len()) ~= docroot then
+			vr:print("x-sendfile: File '".. xs .. "'not in required docroot '" .. docroot .. "'")
 			return lighty.HANDLER_GO_ON
 		end
 
-- 
2.43.0


From c5821120f74a23402bb3cc3ed40cddcef6dcb215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 097/110] fix: throttle: pools stalled when the 32-bit
 millisecond clock wrapped; idle connections kept their share from (and
 collected it without limit for) other workers

---
 src/main/throttle.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index e5147a9..1184db4 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -77,6 +77,9 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 
 	for (i = 0; i < worker_count; ++i) {
 		wrk_connections[i] = g_atomic_int_get((gint*) &pool->workers[i].connections);
+		/* a worker whose waiting connections don't use their share (e.g. idle keep-alive
+		 * connections) must not collect an unlimited amount, or keep it from the other workers */
+		if (g_atomic_int_get(&pool->workers[i].magazine) >= (gint) pool->burst) wrk_connections[i] = 0;
 		connections += wrk_connections[i];
 	}
 
@@ -93,6 +96,7 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 		gint wrk_fill;
 		if (0 == wrk_connections[i]) continue;
 		wrk_fill = (fill * wrk_connections[i]) / connections;
+		wrk_fill = MIN(wrk_fill, (gint) pool->burst - g_atomic_int_get(&pool->workers[i].magazine));
 		throttle_debug("rearm worker %u: refill %u\n", i, wrk_fill);
 		g_atomic_int_add(&pool->workers[i].magazine, wrk_fill);
 	}
@@ -115,14 +119,15 @@ static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now)
 		g_mutex_unlock(pool->rearm_mutex);
 	}
 
-	if (HEDLEY_UNLIKELY(wpool->last_rearm < last)) {
+	/* the timestamps wrap around: only compare for (in)equality */
+	if (HEDLEY_UNLIKELY(wpool->last_rearm != last)) {
 		/* distribute wpool->magazine */
 		GList *lnk;
 		guint connections = wpool->connections;
 		gint magazine = g_atomic_int_get(&wpool->magazine);
 		gint supply = magazine / connections;
 		g_atomic_int_add(&wpool->magazine, -supply * connections);
-		wpool->last_rearm = now;
+		wpool->last_rearm = last;
 
 		throttle_debug("throttle_pool_rearm: distribute supply %i on each of %i connections\n",
 			supply, connections);
-- 
2.43.0


From 4a5a68166df29be3f24e9ec59c4bdf599547a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:09 +0000
Subject: [PATCH 098/110] fix: mod_throttle: io.throttle_ip replaced the pool
 of an address while a kept-alive connection still used it (also a possible
 assertion failure)

---
 src/modules/mod_throttle.c | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/modules/mod_throttle.c b/src/modules/mod_throttle.c
index 9f90a81..51e5fca 100644
--- a/src/modules/mod_throttle.c
+++ b/src/modules/mod_throttle.c
@@ -224,23 +224,20 @@ static liHandlerResult core_handle_throttle_ip(liVRequest *vr, gpointer param, g
 	if (NULL != state) {
 		refcounted_pool_entry *entry = create_ip_pool(vr->wrk->srv, pools, &vr->coninfo->remote_addr);
 		if (NULL != entry) {
-			if (!li_throttle_add_pool(vr->wrk, state, entry->pool)) {
-				/* we already had a reference */
-				g_atomic_int_add(&pools->refcount, -1);
-				LI_FORCE_ASSERT(g_atomic_int_get(&pools->refcount) > 0);
-				g_atomic_int_add(&entry->refcount, -1);
-				LI_FORCE_ASSERT(g_atomic_int_get(&entry->refcount) > 0);
-			} else {
-				GArray *vr_ip_pools = (GArray*) g_ptr_array_index(vr->plugin_ctx, pools->plugin_id);
-				vr_ip_pools_entry ventry;
-				if (NULL == vr_ip_pools) {
-					vr_ip_pools = g_array_new(FALSE, TRUE, sizeof(vr_ip_pools_entry));
-					g_ptr_array_index(vr->plugin_ctx, pools->plugin_id) = vr_ip_pools;
-				}
-				ventry.pools = pools;
-				ventry.remote_addr_copy = li_sockaddr_dup(vr->coninfo->remote_addr);
-				g_array_append_val(vr_ip_pools, ventry);
+			GArray *vr_ip_pools = (GArray*) g_ptr_array_index(vr->plugin_ctx, pools->plugin_id);
+			vr_ip_pools_entry ventry;
+
+			/* the connection might still be in the pool from an earlier request; keep the reference
+			 * for this request in any case, the pool must not be replaced while it is used */
+			li_throttle_add_pool(vr->wrk, state, entry->pool);
+
+			if (NULL == vr_ip_pools) {
+				vr_ip_pools = g_array_new(FALSE, TRUE, sizeof(vr_ip_pools_entry));
+				g_ptr_array_index(vr->plugin_ctx, pools->plugin_id) = vr_ip_pools;
 			}
+			ventry.pools = pools;
+			ventry.remote_addr_copy = li_sockaddr_dup(vr->coninfo->remote_addr);
+			g_array_append_val(vr_ip_pools, ventry);
 		}
 	}
 
-- 
2.43.0


From ae2cc35138092dcde8258f23147ec09a8554f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 099/110] fix: lua: coroutines using actions, filters or
 subrequests (or a garbage collection of an action in one) aborted the server

---
 src/main/core_lua.c       | 3 ++-
 src/main/subrequest_lua.c | 7 +++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/core_lua.c b/src/main/core_lua.c
index a577579..239df70 100644
--- a/src/main/core_lua.c
+++ b/src/main/core_lua.c
@@ -12,7 +12,8 @@ liLuaState *li_lua_state_get(lua_State *L) {
 	LL = lua_touserdata(L, -1);
 	lua_pop(L, 1);
 
-	LI_FORCE_ASSERT(LL != NULL && LL->L == L);
+	/* LL->L != L in coroutines */
+	LI_FORCE_ASSERT(LL != NULL);
 
 	return LL;
 }
diff --git a/src/main/subrequest_lua.c b/src/main/subrequest_lua.c
index 5bcdb63..ec26b41 100644
--- a/src/main/subrequest_lua.c
+++ b/src/main/subrequest_lua.c
@@ -236,9 +236,8 @@ static void subvr_release_lua(liSubrequest *sr) {
 	li_lua_unlock(LL);
 }
 
-static void subvr_bind_lua(liSubrequest *sr, liLuaState *LL, int notify_ndx, int error_ndx) {
-	lua_State *L = LL->L;
-	sr->LL = LL;
+static void subvr_bind_lua(liSubrequest *sr, lua_State *L, int notify_ndx, int error_ndx) {
+	sr->LL = li_lua_state_get(L);
 
 	lua_pushvalue(L, notify_ndx); /* +1 */
 	sr->func_notify_ref = luaL_ref(L, LUA_REGISTRYINDEX); /* -1 */
@@ -372,7 +371,7 @@ int li_lua_vrequest_subrequest(lua_State *L) {
 	sr = subrequest_new(vr);
 	if (NULL == sr) return 0;
 
-	subvr_bind_lua(sr, li_lua_state_get(L), 3, 4);
+	subvr_bind_lua(sr, L, 3, 4);
 
 	li_action_enter(sr->vr, a);
 	li_vrequest_handle_request_headers(sr->vr);
-- 
2.43.0


From f3a1f97361777e9d8dc036e8a083275607107b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 100/110] fix: memcached client: replies arriving in pieces
 were misread, bogus sizes crashed the server, an error for one request
 cancelled all others

---
 src/common/memcached.c | 45 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 80894cc..19c5cde 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -25,7 +25,8 @@ GQuark li_memcached_error_quark(void) {
 	return g_quark_from_static_string("memcached-error-quark");
 }
 
-#define BUFFER_CHUNK_SIZE 4*1024
+#define BUFFER_CHUNK_SIZE (4*1024)
+#define MAX_DATA_SIZE (1024*1024*1024) /* upper limit for the item size in memcached */
 
 typedef struct int_request int_request;
 typedef enum {
@@ -57,7 +58,7 @@ struct liMemcachedCon {
 
 	/* GET */
 	gsize get_data_size;
-	gboolean get_have_header;
+	gboolean get_have_header, get_have_data;
 };
 
 struct int_request {
@@ -576,6 +577,21 @@ static gboolean try_read_data(liMemcachedCon *con, gsize datalen) {
 }
 
 
+/* the server couldn't handle the current request, but the connection is still fine */
+static void handle_server_error(liMemcachedCon *con) {
+	int_request *cur = con->cur_req;
+	GError *err = NULL;
+
+	if (cur->req.callback) {
+		g_set_error(&err, LI_MEMCACHED_ERROR, LI_MEMCACHED_UNKNOWN, "%s", con->line->addr);
+		cur->req.callback(&cur->req, LI_MEMCACHED_RESULT_ERROR, NULL, &err);
+		g_clear_error(&err);
+	}
+
+	con->cur_req = NULL;
+	free_request(con, cur);
+}
+
 static void handle_read(liMemcachedCon *con) {
 	int_request *cur;
 
@@ -599,6 +615,7 @@ static void handle_read(liMemcachedCon *con) {
 		case REQ_GET:
 			con->get_data_size = 0;
 			con->get_have_header = FALSE;
+			con->get_have_data = FALSE;
 			break;
 		case REQ_SET:
 			break;
@@ -609,6 +626,7 @@ static void handle_read(liMemcachedCon *con) {
 	case REQ_GET:
 		if (!con->get_have_header) {
 			char *pos, *next;
+			gint64 data_size;
 
 			/* wait for header line */
 			if (!try_read_line(con)) return;
@@ -627,6 +645,11 @@ static void handle_read(liMemcachedCon *con) {
 
 			/* con->line is 0 terminated */
 
+			if (0 == strncmp("SERVER_ERROR ", con->line->addr, 13)) {
+				handle_server_error(con);
+				return;
+			}
+
 			if (0 != strncmp("VALUE ", con->line->addr, 6)) {
 				g_clear_error(&con->err);
 				g_set_error(&con->err, LI_MEMCACHED_ERROR, LI_MEMCACHED_CONNECTION, "Protocol error: Unexpected response for GET: '%s'", con->line->addr);
@@ -650,8 +673,9 @@ static void handle_read(liMemcachedCon *con) {
 
 			/* <bytes> */
 			pos = next + 1;
-			con->get_data_size = g_ascii_strtoll(pos, &next, 10);
-			if (pos == next) goto req_get_header_error;
+			data_size = g_ascii_strtoll(pos, &next, 10);
+			if (pos == next || data_size < 0 || data_size > MAX_DATA_SIZE) goto req_get_header_error;
+			con->get_data_size = data_size;
 
 			/* [<cas unique>] */
 			if (' ' == *next) {
@@ -676,9 +700,10 @@ req_get_header_error:
 
 req_get_header_done: ;
 		}
-		if (NULL == con->data || con->data->used < con->get_data_size) {
-			/* wait for data */
+		if (!con->get_have_data) {
+			/* wait for data (and the \r\n after it) */
 			if (!try_read_data(con, con->get_data_size)) return;
+			con->get_have_data = TRUE;
 		}
 		/* wait for END\r\n */
 		if (!try_read_line(con)) return;
@@ -709,6 +734,14 @@ req_get_header_done: ;
 			if (cur->req.callback) {
 				cur->req.callback(&cur->req, LI_MEMCACHED_OK, NULL, NULL);
 			}
+		} else if (10 == con->line->used && 0 == memcmp("NOT_STORED", con->line->addr, 10)) {
+			if (cur->req.callback) {
+				cur->req.callback(&cur->req, LI_MEMCACHED_NOT_STORED, NULL, NULL);
+			}
+		} else if (0 == strncmp("SERVER_ERROR ", con->line->addr, 13)) {
+			/* e.g. "object too large for cache" */
+			handle_server_error(con);
+			return;
 		} else {
 			g_clear_error(&con->err);
 			g_set_error(&con->err, LI_MEMCACHED_ERROR, LI_MEMCACHED_CONNECTION, "Protocol error: unexpected SET response: '%s'", con->line->addr);
-- 
2.43.0


From 0b172f3958fb8f21dd5e9875c8716628a854cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 101/110] fix: mod_memcached lua API: crash with callbacks and
 with empty values, callback of set and ttl of setq ignored, result codes
 didn't match the documentation

---
 include/lighttpd/memcached.h |  2 +-
 src/modules/mod_memcached.c  | 51 +++++++++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/include/lighttpd/memcached.h b/include/lighttpd/memcached.h
index eee9ae3..93f97f3 100644
--- a/include/lighttpd/memcached.h
+++ b/include/lighttpd/memcached.h
@@ -9,7 +9,7 @@ typedef struct liMemcachedCon liMemcachedCon;
 typedef struct liMemcachedItem liMemcachedItem;
 typedef struct liMemcachedRequest liMemcachedRequest;
 typedef enum {
-	LI_MEMCACHED_OK, /* STORED, VALUE, DELETED */
+	LI_MEMCACHED_OK = 1, /* STORED, VALUE, DELETED */
 	LI_MEMCACHED_NOT_STORED,
 	LI_MEMCACHED_EXISTS,
 	LI_MEMCACHED_NOT_FOUND,
diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index 969b74e..cafba12 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -627,7 +627,8 @@ static const liPluginSetup setups[] = {
 
 typedef struct {
 	liMemcachedRequest *req;
-	int result_ref; /* table if vr_ref == NULL, callback function otherwise */
+	int result_ref; /* callback function if vr_ref == NULL, table otherwise */
+	int self_ref; /* keep the request alive until the callback was called */
 	liJobRef *vr_ref;
 	lua_State *L;
 } mc_lua_request;
@@ -705,9 +706,24 @@ static void lua_memcache_callback(liMemcachedRequest *request, liMemcachedResult
 		}
 		lua_remove(L, errfunc);
 		/* function and args were popped */
+
+		luaL_unref(L, LUA_REGISTRYINDEX, mreq->self_ref);
+		mreq->self_ref = LUA_NOREF;
 	}
 }
 
+/* NULL for an empty value */
+static liBuffer* lua_memcached_value(GString *value) {
+	liBuffer *buf;
+
+	if (0 == value->len) return NULL;
+
+	buf = li_buffer_new(value->len);
+	buf->used = value->len;
+	memcpy(buf->addr, value->str, value->len);
+	return buf;
+}
+
 static int lua_mc_get(lua_State *L) {
 	liMemcachedCon *con;
 	GString key;
@@ -752,7 +768,7 @@ static int lua_mc_get(lua_State *L) {
 	}
 
 	mreq->req = req;
-	mreq->L = L;
+	mreq->L = li_lua_state_get(L)->L; /* L might be a coroutine */
 
 	if (NULL == vr) {
 		/* lua callback function */
@@ -788,7 +804,7 @@ static int lua_mc_set(lua_State *L) {
 
 	con = li_lua_get_memcached_con(L, 1);
 	vr = li_lua_get_vrequest(L, 4);
-	if (NULL == con || !lua_isstring(L, 2) || (NULL == vr && !lua_isfunction(L, 4))) {
+	if (NULL == con || !lua_isstring(L, 2) || !lua_isstring(L, 3) || (NULL == vr && !lua_isfunction(L, 4))) {
 		lua_pushliteral(L, "lua_mc_set(con, key, value, cb | vr): wrong argument types");
 		lua_error(L);
 	}
@@ -806,9 +822,7 @@ static int lua_mc_set(lua_State *L) {
 	}
 
 	mreq = g_slice_new0(mc_lua_request);
-	valuebuf = li_buffer_new(value.len);
-	valuebuf->used = value.len;
-	memcpy(valuebuf->addr, value.str, value.len);
+	valuebuf = lua_memcached_value(&value);
 
 	req = li_memcached_set(con, &key, 0, ttl, valuebuf, lua_memcache_callback, mreq, &err);
 
@@ -828,11 +842,11 @@ static int lua_mc_set(lua_State *L) {
 	}
 
 	mreq->req = req;
-	mreq->L = L;
+	mreq->L = li_lua_state_get(L)->L; /* L might be a coroutine */
 
 	if (NULL == vr) {
 		/* lua callback function */
-		lua_pushvalue(L, 3); /* +1 */
+		lua_pushvalue(L, 4); /* +1 */
 		mreq->result_ref = luaL_ref(L, LUA_REGISTRYINDEX); /* -1 */
 	} else {
 		/* push result into table, wake vr if done */
@@ -861,7 +875,7 @@ static int lua_mc_setq(lua_State *L) {
 	}
 
 	con = li_lua_get_memcached_con(L, 1);
-	if (NULL == con || !lua_isstring(L, 2)) {
+	if (NULL == con || !lua_isstring(L, 2) || !lua_isstring(L, 3)) {
 		lua_pushliteral(L, "lua_mc_setq(con, key, value): wrong argument types");
 		lua_error(L);
 	}
@@ -872,15 +886,13 @@ static int lua_mc_setq(lua_State *L) {
 	str = lua_tolstring(L, 3, &len);
 	value = li_const_gstring(str, len);
 
-	if (lua_gettop(L) == 5) {
-		ttl = lua_tonumber(L, 5);
+	if (lua_gettop(L) >= 4) {
+		ttl = lua_tonumber(L, 4);
 	} else {
 		ttl = 300;
 	}
 
-	valuebuf = li_buffer_new(value.len);
-	valuebuf->used = value.len;
-	memcpy(valuebuf->addr, value.str, value.len);
+	valuebuf = lua_memcached_value(&value);
 
 	req = li_memcached_set(con, &key, 0, ttl, valuebuf, NULL, NULL, &err);
 
@@ -1054,7 +1066,7 @@ static int lua_memcached_req_gc(lua_State *L) {
 	if (!preq || !*preq) return 0;
 
 	req = *preq;
-	li_job_ref_release(req->vr_ref);
+	if (NULL != req->vr_ref) li_job_ref_release(req->vr_ref);
 
 	if (req->req) {
 		req->req->callback = NULL;
@@ -1081,6 +1093,14 @@ static int li_lua_push_memcached_req(lua_State *L, mc_lua_request *req) {
 
 	lua_push_mc_req_metatable(L);
 	lua_setmetatable(L, -2);
+
+	if (NULL == req->vr_ref) {
+		lua_pushvalue(L, -1); /* +1 */
+		req->self_ref = luaL_ref(L, LUA_REGISTRYINDEX); /* -1 */
+	} else {
+		req->self_ref = LUA_NOREF;
+	}
+
 	return 1;
 }
 
@@ -1115,6 +1135,7 @@ static int mc_lua_new(lua_State *L) {
 	}
 
 	con = li_memcached_con_new(&wrk->loop, addr);
+	li_sockaddr_clear(&addr);
 	return li_lua_push_memcached_con(L, con);
 }
 
-- 
2.43.0


From 46da26805af27566e8e6831fcf097dd2597c7051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:18 +0000
Subject: [PATCH 102/110] fix: cache.disk.etag: different ETags could share a
 cache file (a / in the base64 of the ETag was used as directory separator)

---
 src/modules/mod_cache_disk_etag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/mod_cache_disk_etag.c b/src/modules/mod_cache_disk_etag.c
index 7d29815..06beef9 100644
--- a/src/modules/mod_cache_disk_etag.c
+++ b/src/modules/mod_cache_disk_etag.c
@@ -210,6 +210,8 @@ static GString* createFileName(liVRequest *vr, GString *path, liHttpHeader *etag
 	li_g_string_append_len(file, GSTR_LEN(path));
 	li_g_string_append_len(file, GSTR_LEN(vr->request.uri.path));
 	li_g_string_append_len(file, CONST_STR_LEN("-"));
+	/* a '/' would separate directories: "a/b" and "a//b" would be the same file */
+	g_strdelimit(etag_base64, "/", '_');
 	g_string_append(file, etag_base64);
 	g_free(etag_base64);
 	return file;
-- 
2.43.0


From db416f5ae7ac05024f822bd98edf9289f4954c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 103/110] fix: write log entries of the last loop iteration
 before shutdown

---
 src/main/log.c    |  6 +++++-
 src/main/worker.c | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/main/log.c b/src/main/log.c
index 0eb6b72..b48785c 100644
--- a/src/main/log.c
+++ b/src/main/log.c
@@ -317,6 +317,7 @@ static GString *log_timestamp_format(liServer *srv) {
 static void log_watcher_cb(liEventBase *watcher, int events) {
 	liServer *srv = LI_CONTAINER_OF(li_event_async_from(watcher), liServer, logs.watcher);
 	GList *queue_link, *queue_link_next;
+	gboolean thread_finish;
 
 	UNUSED(events);
 
@@ -332,6 +333,9 @@ static void log_watcher_cb(liEventBase *watcher, int events) {
 		return;
 	}
 
+	/* read this before the queue: entries pushed before the flag was set must still be written */
+	thread_finish = g_atomic_int_get(&srv->logs.thread_finish);
+
 	/* pop everything from global write queue */
 	g_static_mutex_lock(&srv->logs.write_queue_mutex);
 	queue_link = g_queue_peek_head_link(&srv->logs.write_queue);
@@ -399,7 +403,7 @@ next:
 		queue_link = queue_link_next;
 	}
 
-	if (g_atomic_int_get(&srv->logs.thread_finish) == TRUE) {
+	if (thread_finish) {
 		liWaitQueueElem *wqe;
 
 		while ((wqe = li_waitqueue_pop_force(&srv->logs.close_queue)) != NULL) {
diff --git a/src/main/worker.c b/src/main/worker.c
index e9811cd..000fcb8 100644
--- a/src/main/worker.c
+++ b/src/main/worker.c
@@ -144,10 +144,9 @@ GString *li_worker_current_timestamp(liWorker *wrk, liTimeFunc timefunc, guint f
 	return wts->str;
 }
 
-static void li_worker_prepare_cb(liEventBase *watcher, int events) {
-	liWorker *wrk = LI_CONTAINER_OF(li_event_prepare_from(watcher), liWorker, loop_prepare);
+/* move pending log entries from the local queue to the global one and notify log thread */
+static void worker_flush_logs(liWorker *wrk) {
 	liServer *srv = wrk->srv;
-	UNUSED(events);
 
 	/* are there pending log entries? */
 	if (g_queue_get_length(&wrk->logs.log_queue)) {
@@ -161,6 +160,13 @@ static void li_worker_prepare_cb(liEventBase *watcher, int events) {
 	}
 }
 
+static void li_worker_prepare_cb(liEventBase *watcher, int events) {
+	liWorker *wrk = LI_CONTAINER_OF(li_event_prepare_from(watcher), liWorker, loop_prepare);
+	UNUSED(events);
+
+	worker_flush_logs(wrk);
+}
+
 /* stop worker watcher */
 static void li_worker_stop_cb(liEventBase *watcher, int events) {
 	liWorker *wrk = LI_CONTAINER_OF(li_event_async_from(watcher), liWorker, worker_stop_watcher);
@@ -391,6 +397,9 @@ struct ev_loop* li_worker_free(liWorker *wrk) {
 
 	li_event_clear(&wrk->loop_prepare);
 
+	/* entries logged after the last loop iteration */
+	worker_flush_logs(wrk);
+
 	g_string_free(wrk->tmp_str, TRUE);
 
 	li_stat_cache_free(wrk->stat_cache);
-- 
2.43.0


From dda56ec6e6d61cdd9b88c38df43f83ca41fc88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:26 +0000
Subject: [PATCH 104/110] fix: shutdown signal during startup: stop listening,
 don't wait for workers not started

---
 src/main/server.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/main/server.c b/src/main/server.c
index c3e91eb..daec897 100644
--- a/src/main/server.c
+++ b/src/main/server.c
@@ -161,6 +161,7 @@ void li_server_free(liServer* srv) {
 		for (i = 1; i < srv->workers->len; i++) {
 			liWorker *wrk;
 			wrk = g_array_index(srv->workers, liWorker*, i);
+			if (NULL == wrk->thread) continue; /* never started */
 			li_worker_exit(srv->main_worker, wrk);
 			g_thread_join(wrk->thread);
 		}
@@ -489,7 +490,7 @@ static void li_server_start_listen(liServer *srv) {
 	}
 }
 
-static void li_server_stop_listen(liServer *srv) {
+static void server_stop_sockets(liServer *srv) {
 	guint i;
 
 	for (i = 0; i < srv->sockets->len; i++) {
@@ -497,6 +498,12 @@ static void li_server_stop_listen(liServer *srv) {
 		li_event_stop(&sock->watcher);
 	}
 	srv->connection_limit_hit = FALSE; /* reset flag */
+}
+
+static void li_server_stop_listen(liServer *srv) {
+	guint i;
+
+	server_stop_sockets(srv);
 
 	/* suspend all workers (close keep-alive connections) */
 	for (i = 0; i < srv->worker_count; i++) {
@@ -712,10 +719,15 @@ static void li_server_start_transition(liServer *srv, liServerState state) {
 		/* wait for closed connections and plugins */
 		break;
 	case LI_SERVER_STOPPING:
+		/* WARMUP might have been in progress: make sure we are not listening anymore */
+		server_stop_sockets(srv);
+
 		/* stop all workers */
 		for (i = 0; i < srv->worker_count; i++) {
 			liWorker *wrk;
 			wrk = g_array_index(srv->workers, liWorker*, i);
+			/* nothing to wait for if a worker wasn't started yet */
+			if (wrk != srv->main_worker && NULL == wrk->thread) continue;
 			li_worker_stopping(srv->main_worker, wrk);
 		}
 		break;
-- 
2.43.0


From 631e5e076acb18de47ecc1644412728428180492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:05 +0000
Subject: [PATCH 105/110] fix: angel: don't lose signals for a worker between
 fork and exec

---
 src/angel/angel_proc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/angel/angel_proc.c b/src/angel/angel_proc.c
index b1c3e2e..d3be7fa 100644
--- a/src/angel/angel_proc.c
+++ b/src/angel/angel_proc.c
@@ -2,6 +2,7 @@
 #include <lighttpd/angel_base.h>
 
 #include <grp.h>
+#include <signal.h>
 
 #ifdef HAVE_SYS_RESOURCE_H
 # include <sys/resource.h>
@@ -138,6 +139,7 @@ static void proc_epipe_cb(liServer *srv, liErrorPipe *epipe, GString *msg) {
 liProc* li_proc_new(liServer *srv, gchar **args, gchar **env, uid_t uid, gid_t gid, gchar *username, gint64 rlim_core, gint64 rlim_nofile, liProcSetupCB cb, gpointer ctx) {
 	liProc *proc;
 	pid_t pid;
+	sigset_t sigs_all, sigs_old;
 
 	proc = g_slice_new0(liProc);
 	proc->srv = srv;
@@ -145,8 +147,19 @@ liProc* li_proc_new(liServer *srv, gchar **args, gchar **env, uid_t uid, gid_t g
 	proc->epipe = li_error_pipe_new(srv, proc_epipe_cb, proc);
 	proc->appname = g_strdup(li_remove_path(args[0]));
 
+	/* a signal for the child must not end up in our signal handlers between fork and exec: it would get lost */
+	sigfillset(&sigs_all);
+	sigprocmask(SIG_BLOCK, &sigs_all, &sigs_old);
+
 	switch (pid = fork()) {
 	case 0:
+		signal(SIGHUP, SIG_DFL);
+		signal(SIGINT, SIG_DFL);
+		signal(SIGTERM, SIG_DFL);
+		signal(SIGPIPE, SIG_DFL);
+		signal(SIGCHLD, SIG_DFL);
+		sigprocmask(SIG_SETMASK, &sigs_old, NULL);
+
 		li_error_pipe_use(proc->epipe, STDERR_FILENO);
 
 		setsid();
@@ -204,9 +217,11 @@ liProc* li_proc_new(liServer *srv, gchar **args, gchar **env, uid_t uid, gid_t g
 		break;
 	case -1:
 		ERROR(srv, "fork failed: %s", g_strerror(errno));
+		sigprocmask(SIG_SETMASK, &sigs_old, NULL);
 		li_proc_free(proc);
 		return NULL;
 	default:
+		sigprocmask(SIG_SETMASK, &sigs_old, NULL);
 		proc->child_pid = pid;
 		li_error_pipe_activate(proc->epipe);
 		break;
-- 
2.43.0


From 5c8b37c590f55f80dc0ca239061f302822ab58b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:08 +0000
Subject: [PATCH 106/110] fix: angel: stopping while a worker is replaced must
 stop both workers, not revive the old one

---
 include/lighttpd/angel_server.h | 1 +
 src/angel/angel_plugin_core.c   | 2 ++
 src/angel/angel_server.c        | 9 +++++++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/lighttpd/angel_server.h b/include/lighttpd/angel_server.h
index cf2f9ad..f672f9b 100644
--- a/include/lighttpd/angel_server.h
+++ b/include/lighttpd/angel_server.h
@@ -56,6 +56,7 @@ struct liServer {
 	liLog log;
 
 	gboolean one_shot; /* don't restart instance if it goes down */
+	gboolean stopping; /* going down, don't revive instances */
 };
 
 struct liInstanceResource {
diff --git a/src/angel/angel_plugin_core.c b/src/angel/angel_plugin_core.c
index 5ca7254..4d7976c 100644
--- a/src/angel/angel_plugin_core.c
+++ b/src/angel/angel_plugin_core.c
@@ -968,6 +968,8 @@ static void core_stop(liServer *srv, liPlugin *p) {
 	UNUSED(srv);
 
 	if (config->inst) {
+		/* a replacement might be in progress */
+		if (config->inst->replace_by) li_instance_set_state(config->inst->replace_by, LI_INSTANCE_FINISHED);
 		li_instance_set_state(config->inst, LI_INSTANCE_FINISHED);
 		li_instance_release(config->inst);
 		config->inst = NULL;
diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index cd903cd..91a8ead 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -46,6 +46,7 @@ void li_server_stop(liServer *srv) {
 	li_event_stop(&srv->sig_w_INT);
 	li_event_stop(&srv->sig_w_TERM);
 
+	srv->stopping = TRUE;
 	li_plugins_stop(srv);
 
 	li_event_loop_end(&srv->loop);
@@ -244,6 +245,8 @@ void li_instance_set_state(liInstance *i, liInstanceState s) {
 	i->s_dest = s;
 	if (!i->proc && LI_INSTANCE_FINISHED != s) {
 		instance_spawn(i);
+	} else if (NULL == i->acon && LI_INSTANCE_FINISHED != s) {
+		/* worker is gone, instance_child_cb() will restart it */
 	} else {
 		GError *error = NULL;
 
@@ -330,8 +333,10 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 		break;
 	case LI_INSTANCE_FINISHED:
 		if (i->replace) {
-			ERROR(i->srv, "%s", "Replacing instance failed, continue old instance");
-			li_instance_set_state(i->replace, LI_INSTANCE_RUNNING);
+			if (!i->srv->stopping) {
+				ERROR(i->srv, "%s", "Replacing instance failed, continue old instance");
+				li_instance_set_state(i->replace, LI_INSTANCE_RUNNING);
+			}
 
 			li_instance_unset_replace(i->replace, i);
 		} else if (i->s_dest == LI_INSTANCE_FINISHED) {
-- 
2.43.0


From b6c5b7daec1c9819f8603ab5da063f35dc7aa3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 107/110] fix: gnutls: finish handshakes whose messages are
 split over several records

---
 src/modules/gnutls_filter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index ca3445c..dc39b50 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -272,10 +272,16 @@ static void do_handle_error(liGnuTLSFilter *f, const char *gnutlsfunc, int r, gb
 
 static gboolean do_gnutls_handshake(liGnuTLSFilter *f, gboolean writing) {
 	int r;
+	off_t avail;
 
 	LI_FORCE_ASSERT(!f->initial_handshaked_finished);
 
-	r = gnutls_handshake(f->session);
+	/* gnutls_handshake() also returns GNUTLS_E_AGAIN after a record that contains only a part of
+	 * a handshake message; no event follows for data we already have, so continue in this case */
+	do {
+		avail = f->crypt_drain.out->length;
+		r = gnutls_handshake(f->session);
+	} while (GNUTLS_E_AGAIN == r && f->crypt_drain.out->length > 0 && f->crypt_drain.out->length < avail);
 	if (GNUTLS_E_SUCCESS <= r) {
 		f->initial_handshaked_finished = 1;
 		li_stream_acquire(&f->plain_source);
-- 
2.43.0


From a95524d5a747f364501297a29a68d423cf0e2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 108/110] fix: tls client hello parser: don't loop forever on
 data after the first server name

---
 src/modules/ssl_client_hello_parser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/ssl_client_hello_parser.h b/src/modules/ssl_client_hello_parser.h
index 910b03d..6a7f486 100644
--- a/src/modules/ssl_client_hello_parser.h
+++ b/src/modules/ssl_client_hello_parser.h
@@ -315,6 +315,7 @@ INLINE liSSLClientHelloParserResult _li_ssl_client_hello_parse(liSSLClientHelloP
 					case 3:
 						context->extension_remaining += (*p++);
 						++context->extension_state;
+						context->sni_state = 0;
 						continue;
 					case 4:
 						if (0 == context->extension_remaining) {
@@ -362,6 +363,7 @@ INLINE liSSLClientHelloParserResult _li_ssl_client_hello_parse(liSSLClientHelloP
 						case 4:
 							context->sni_hostname_remaining += (*p++);
 							++context->sni_state;
+							if (!context->sni_complete) g_string_truncate(server_name, 0);
 							continue;
 						case 5:
 							if (0 == context->sni_type && !context->sni_complete) {
@@ -388,6 +390,9 @@ INLINE liSSLClientHelloParserResult _li_ssl_client_hello_parse(liSSLClientHelloP
 								context->sni_hostname_remaining -= take;
 								p += take;
 							}
+							/* more entries might follow in the list */
+							if (0 == context->sni_hostname_remaining) context->sni_state = 2;
+							continue;
 						}
 					} /* while (p < extension_pe) -- sni extension subloop */
 				} /* while (p < client_hello_pe) -- extensions subloop */
-- 
2.43.0


From d368c0113aaa09e9e8d3bd646cc341f69be75e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:02 +0000
Subject: [PATCH 109/110] fix: tls filters: continue reading when more than 64k
 are available at once

---
 src/modules/gnutls_filter.c  | 3 +++
 src/modules/openssl_filter.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index dc39b50..80e3636 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -374,6 +374,9 @@ static void do_gnutls_read(liGnuTLSFilter *f) {
 		len += r;
 	} while (len < max_read);
 
+	/* there might be more data available already, for which we won't get another event */
+	li_stream_again_later(&f->plain_source);
+
 out:
 	f_release(f);
 }
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index 24ec12d..f2afb40 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -388,6 +388,9 @@ static void do_ssl_read(liOpenSSLFilter *f) {
 		len += r;
 	} while (len < max_read);
 
+	/* there might be more data available already, for which we won't get another event */
+	li_stream_again_later(&f->plain_source);
+
 out:
 	f_release(f);
 }
-- 
2.43.0


From 93cd26c6fb65115d3e5d6ecfe0472f8b7f32fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 110/110] fix: a refused supervisor call is forgotten by its
 connection

---
 src/common/angel_connection.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/angel_connection.c b/src/common/angel_connection.c
index 691a7b4..7a39109 100644
--- a/src/common/angel_connection.c
+++ b/src/common/angel_connection.c
@@ -677,9 +677,12 @@ gboolean li_angel_send_call(
 
 error:
 	if (-1 != call->id) {
-		li_idlist_put(acon->call_id_list, call->id);
-		call->id = -1;
-		call->acon = NULL;
+		g_mutex_lock(acon->mutex);
+			g_ptr_array_index(acon->call_table, call->id) = NULL;
+			li_idlist_put(acon->call_id_list, call->id);
+			call->id = -1;
+			call->acon = NULL;
+		g_mutex_unlock(acon->mutex);
 	}
 error_before_new_id:
 	if (data) g_string_free(data, TRUE);
-- 
2.43.0


From aab91bc1e5abd2cdd58dde7b1d75914b98f1ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 01/74] fix: terminate the codec variable table

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 37a3ecb..8621f5f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -102,7 +102,9 @@ static ngx_rtmp_variable_t  ngx_rtmp_codec_variabes[] = {
     { ngx_string("metadata"), NULL, ngx_rtmp_codec_variable_metadata,
       0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
     { ngx_string("metadata_"), NULL, ngx_rtmp_codec_variable_metadata_arg,
-      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 }
+      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
+
+    { ngx_null_string, NULL, NULL, 0, 0, 0 }
 };
 
 static const char *
-- 
2.43.0


From f1099320846f77245feb3a333a231a5fef9b259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 02/74] fix: a session publishes or plays once, and is always
 closed

---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index b29d002..613c1dd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -224,8 +224,9 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
 ngx_int_t
 ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
-    if (s->published) {
-        ngx_log_error(NGX_LOG_INFO, s->log, 0, "session has been published");
+    if (s->published || s->played || s->closed) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "session has been published, played or closed");
         return NGX_OK;
     }
 
@@ -243,8 +244,9 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 ngx_int_t
 ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 {
-    if (s->played) {
-        ngx_log_error(NGX_LOG_INFO, s->log, 0, "session has been played");
+    if (s->published || s->played || s->closed) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "session has been published, played or closed");
         return NGX_OK;
     }
 
@@ -267,12 +269,17 @@ ngx_rtmp_close_stream_filter(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         return NGX_OK;
     }
 
+    /* nothing to close yet, session still can publish or play */
+    if (s->live_stream == NULL) {
+        return ngx_rtmp_close_stream(s, v);
+    }
+
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp close stream filter");
 
     s->closed = 1;
 
     ngx_live_delete_ctx(s);
-    if (s->live_stream && s->live_stream->play_ctx == NULL
+    if (s->live_stream->play_ctx == NULL
             && s->live_stream->publish_ctx == NULL)
     {
         if (s->live_stream->pslot == ngx_process_slot) {
-- 
2.43.0


From b115dc442cd3199189d80c274fa93b89126729fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 03/74] fix: refuse a stream whose full name is too long
 instead of crashing

---
 modules/nginx-rtmp-module/ngx_live.c            |  3 +++
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 15 ++++++++++++---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index 1e89270..66f9ba8 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -303,6 +303,9 @@ ngx_live_create_stream(ngx_str_t *serverid, ngx_str_t *stream)
     }
 
     *pst = ngx_live_get_stream(stream);
+    if (*pst == NULL) {
+        return NULL;
+    }
     ++(*psrv)->n_stream;
 
     return *pst;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index 613c1dd..d69b69a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -182,7 +182,7 @@ ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s)
     }
 }
 
-void
+ngx_int_t
 ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing)
 {
@@ -214,11 +214,16 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
     }
 
     s->live_stream = ngx_live_create_stream(&s->serverid, &s->stream);
+    if (s->live_stream == NULL) {
+        return NGX_ERROR;
+    }
 
     ngx_live_create_ctx(s, publishing);
     s->publishing = publishing;
 
     ngx_rtmp_notify_stream_start(s);
+
+    return NGX_OK;
 }
 
 ngx_int_t
@@ -235,7 +240,9 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
     s->published = 1;
 
     if (!s->relay) { /* relay pull */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1);
+        if (ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1) != NGX_OK) {
+            return NGX_ERROR;
+        }
     }
 
     return ngx_rtmp_publish(s, v);
@@ -255,7 +262,9 @@ ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
     s->played = 1;
 
     if (!s->relay) { /* relay push */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0);
+        if (ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0) != NGX_OK) {
+            return NGX_ERROR;
+        }
     }
 
     return ngx_rtmp_play(s, v);
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
index 5bc3c03..1c1114f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
@@ -103,7 +103,7 @@ typedef struct {
 void ngx_rtmp_cmd_fill_args(u_char name[NGX_RTMP_MAX_NAME],
         u_char args[NGX_RTMP_MAX_ARGS]);
 void ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s);
-void ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
+ngx_int_t ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing);
 
 ngx_int_t ngx_rtmp_publish_filter(ngx_rtmp_session_t *s,
-- 
2.43.0


From 9e5370dc50914b6fcff18f34219ae8a08c683d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 04/74] fix: HTTP live response headers with nginx 1.23 and
 later

---
 .../http/ngx_http_set_header.c                | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_set_header.c b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
index ffef7aa..21e4fe3 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_set_header.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
@@ -168,6 +168,44 @@ static ngx_int_t
 ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ngx_http_header_val_t *hv, ngx_str_t *value)
 {
+#if (nginx_version >= 1023000)
+    /* quick link is a list of ngx_table_elt_t since nginx 1.23.0 */
+    ngx_table_elt_t  *ho, *h, **ph;
+
+    ph = (ngx_table_elt_t **) ((char *) &r->headers_out + hv->offset);
+
+    if (*ph) {
+        for (h = (*ph)->next; h; h = h->next) { /* clear old value */
+            h->hash = 0;
+            h->value.len = 0;
+        }
+
+        (*ph)->value = *value;
+
+        if (value->len == 0) {
+            (*ph)->hash = 0;
+        } else {
+            (*ph)->hash = hv->hash;
+        }
+
+        return NGX_OK;
+    }
+
+    /* header does not set */
+    ho = ngx_list_push(&r->headers_out.headers);
+    if (ho == NULL) {
+        return NGX_ERROR;
+    }
+
+    ho->value = *value;
+    ho->hash = hv->hash;
+    ho->key = hv->key;
+    ho->next = NULL;
+    *ph = ho;
+
+    return NGX_OK;
+
+#else
     ngx_array_t      *pa;
     ngx_table_elt_t  *ho, **ph;
     ngx_uint_t        i;
@@ -217,6 +255,7 @@ ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     *ph = ho;
 
     return NGX_OK;
+#endif
 }
 
 static ngx_int_t
-- 
2.43.0


From ba6efdb342e90466a11540c7f63cd7d52696cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 05/74] fix: play video without a codec header beyond its key
 frames

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 688180f..a0fbb81 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -936,12 +936,11 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                 } else if (dummy_audio) {
                     ngx_rtmp_send_message(ss, dummy, 0);
                 }
-
-                cs->timestamp = lh.timestamp;
-                cs->active = 1;
-                ss->current_time = cs->timestamp;
-
             }
+
+            cs->timestamp = lh.timestamp;
+            cs->active = 1;
+            ss->current_time = cs->timestamp;
         }
 
         /* send av packet */
-- 
2.43.0


From 905302cc5c521f8775f241045f239d741fab5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 06/74] fix: no MPEG-TS muxing of media sent after the stream
 was closed

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 1bac711..afeeceb 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -1630,6 +1630,11 @@ ngx_mpegts_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* the live stream is gone or belongs to others once session closed */
+    if (s->closed) {
+        return NGX_OK;
+    }
+
     /* Only H264 and H265 is supported */
     if (codec_ctx->video_codec_id != NGX_RTMP_VIDEO_H264 &&
         codec_ctx->video_codec_id != cacf->hevc_codec)
-- 
2.43.0


From 7bc3c30b638d3ffafa43c24d68f257f7654a0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 07/74] fix: release the codec headers kept for MPEG-TS when
 the publisher leaves

---
 .../nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index afeeceb..63b8e52 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -1832,6 +1832,16 @@ ngx_mpegts_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         goto next;
     }
 
+    if (ctx->avc_codec && ctx->avc_codec->avc_header) {
+        ngx_rtmp_shared_free_frame(ctx->avc_codec->avc_header);
+        ctx->avc_codec->avc_header = NULL;
+    }
+
+    if (ctx->aac_codec && ctx->aac_codec->aac_header) {
+        ngx_rtmp_shared_free_frame(ctx->aac_codec->aac_header);
+        ctx->aac_codec->aac_header = NULL;
+    }
+
     if (ctx->stream == NULL) {
         ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                 "mpegts-live: close_stream| not joined");
-- 
2.43.0


From 71184b4516ed928bfa8d166fc91c992393ce933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 08/74] fix: AMF messages longer than the chunk size

---
 modules/nginx-rtmp-module/ngx_rtmp_send.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index cc54afc..30166e4 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -401,14 +401,15 @@ ngx_rtmp_append_amf(ngx_rtmp_session_t *s,
 
     rc = ngx_rtmp_amf_write(&act, elts, nelts);
 
-    if (first) {
-        *first = act.first;
-    }
-
+    /* first may be the same pointer as last, it has to keep the whole chain */
     if (last) {
         *last = act.link;
     }
 
+    if (first) {
+        *first = act.first;
+    }
+
     return rc;
 }
 
-- 
2.43.0


From bae4ba807ba7e5b21dd8006e55327fc1a4819245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 09/74] fix: cut outgoing messages in chunks of the size
 announced to that peer

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 43 +++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 0b1c02e..9b5b71d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -526,6 +526,7 @@ ngx_rtmp_prepare_out_chain(ngx_rtmp_session_t *s)
     ngx_flag_t                  relative;
     ngx_rtmp_header_t           lh;
     u_char                      th[7], *p, *pp;
+    size_t                      left, size;
 
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
@@ -649,31 +650,33 @@ ngx_rtmp_prepare_out_chain(ngx_rtmp_session_t *s)
     }
     head->buf->last = p;
 
-    /* append headers to successive fragments */
-    ll = &head->next;
-    l = frame->chain;
-    while (l && l->buf->pos == l->buf->last) {
-        l = l->next;
-    }
-    if (l == NULL) {
+    if (mlen == 0) {
         return head;
     }
 
-    *ll = ngx_get_chainbuf(0, 0);
-    (*ll)->buf->pos = l->buf->pos;
-    (*ll)->buf->last = l->buf->last;
+    /* append payload with headers to successive fragments, frame may come
+     * from a session with another chunk size */
+    ll = &head->next;
+    left = cscf->chunk_size;
 
-    for (l = l->next; l; l = l->next) {
-        /* chunk header */
-        ll = &(*ll)->next;
-        *ll = ngx_get_chainbuf(NGX_RTMP_MAX_CHUNK_HEADER, 1);
-        (*ll)->buf->last = ngx_cpymem((*ll)->buf->last, th, thsize);
+    for (l = frame->chain; l; l = l->next) {
+        for (p = l->buf->pos; p != l->buf->last; p += size) {
+            if (left == 0) {
+                /* chunk header */
+                *ll = ngx_get_chainbuf(NGX_RTMP_MAX_CHUNK_HEADER, 1);
+                (*ll)->buf->last = ngx_cpymem((*ll)->buf->last, th, thsize);
+                ll = &(*ll)->next;
+                left = cscf->chunk_size;
+            }
 
-        /* payload */
-        ll = &(*ll)->next;
-        *ll = ngx_get_chainbuf(0, 0);
-        (*ll)->buf->pos = l->buf->pos;
-        (*ll)->buf->last = l->buf->last;
+            /* payload */
+            size = ngx_min(left, (size_t) (l->buf->last - p));
+            *ll = ngx_get_chainbuf(0, 0);
+            (*ll)->buf->pos = p;
+            (*ll)->buf->last = p + size;
+            ll = &(*ll)->next;
+            left -= size;
+        }
     }
 
     ngx_rtmp_monitor_frame(s, &frame->hdr, NULL, frame->av_header, 0);
-- 
2.43.0


From 6d01b3e516a77bed017092c33e9ab4d4bd47468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 10/74] fix: media sent before publish crashed the worker

---
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index f7456ca..f3f4a50 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -2131,6 +2131,11 @@ ngx_rtmp_notify_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
     ngx_rtmp_notify_event_t      *event;
     ngx_uint_t                    i;
 
+    /* media outside of publish */
+    if (s->live_stream == NULL || s->closed) {
+        return NGX_OK;
+    }
+
     if (ngx_rtmp_is_codec_header(in) && !s->interprocess && !s->relay) {
         oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
 
-- 
2.43.0


From 6ba77bfdbf7f3d20acb875fe80774dadc6b84c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 11/74] fix: part of a message lost when the chunk size changed
 in its middle

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 9b5b71d..c0f4c0a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -896,6 +896,7 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
     ngx_chain_t                        *li, *fli, *lo, *flo;
     ngx_buf_t                          *bi, *bo;
     ngx_int_t                           n;
+    size_t                              len;
 
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
@@ -942,8 +943,9 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
                     continue;
                 }
 
-                bi->pos += (ngx_cpymem(bo->last, bi->pos,
-                            bo->end - bo->last) - bo->last);
+                len = bo->end - bo->last;
+                bo->last = ngx_cpymem(bo->last, bi->pos, len);
+                bi->pos += len;
                 lo->next = ngx_rtmp_alloc_in_buf(s);
                 lo = lo->next;
                 if (lo == NULL) {
-- 
2.43.0


From b861c174f897d96596c829c69eaef7ac0725a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 12/74] fix: heap overflow and endless loop after a smaller or
 zero chunk size

---
 modules/nginx-rtmp-module/ngx_rtmp.h         |  1 +
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 17 +++++++++++++++--
 modules/nginx-rtmp-module/ngx_rtmp_receive.c |  3 +--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 3ee5b1f..908bf4d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -384,6 +384,7 @@ struct ngx_rtmp_session_s {
     ngx_rtmp_stream_t      *in_streams;
     uint32_t                in_csid;
     ngx_uint_t              in_chunk_size;
+    size_t                  in_buf_size;
     ngx_pool_t             *in_pool;
     uint32_t                in_bytes;
     uint32_t                in_last_ack;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index c0f4c0a..c7855c6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -116,7 +116,7 @@ ngx_rtmp_alloc_in_buf(ngx_rtmp_session_t *s)
 
     cl->next = NULL;
     b = cl->buf;
-    size = s->in_chunk_size + NGX_RTMP_MAX_CHUNK_HEADER;
+    size = s->in_buf_size + NGX_RTMP_MAX_CHUNK_HEADER;
 
     b->start = b->last = b->pos = ngx_palloc(s->in_pool, size);
     if (b->start == NULL) {
@@ -900,8 +900,21 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
+    if (size == 0) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0, "zero chunk size");
+        return NGX_ERROR;
+    }
+
+    /* no chunk is longer than the longest message */
+    s->in_chunk_size = ngx_min(size, cscf->max_message);
+
+    /* formerly read data may not fit in smaller buffers: keep the old ones */
+    if (s->in_pool && s->in_chunk_size <= s->in_buf_size) {
+        return NGX_OK;
+    }
+
+    s->in_buf_size = ngx_max(s->in_chunk_size, NGX_RTMP_DEFAULT_CHUNK_SIZE);
     s->in_old_pool = s->in_pool;
-    s->in_chunk_size = size;
     s->in_pool = NGX_CREATE_POOL(4096, ngx_cycle->log);
 
     /* copy existing chunk data */
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index dbf662a..119c83c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -39,8 +39,7 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
     switch(h->type) {
         case NGX_RTMP_MSG_CHUNK_SIZE:
             /* set chunk size =val */
-            ngx_rtmp_set_chunk_size(s, val);
-            break;
+            return ngx_rtmp_set_chunk_size(s, val);
 
         case NGX_RTMP_MSG_ABORT:
             /* abort chunk stream =val */
-- 
2.43.0


From 234fee3d111185146fdaf8e92e6ef6488b0cc852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 13/74] fix: protocol, user and media messages split into very
 small chunks

---
 modules/nginx-rtmp-module/ngx_rtmp.h         |  1 +
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 37 +++++++++++++++-----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 908bf4d..6586c27 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -178,6 +178,7 @@ typedef struct {
     uint8_t                 ext;
     uint32_t                last_extimestamp;
     ngx_chain_t            *in;
+    ngx_chain_t            *prev;       /* chunk before the current one */
 } ngx_rtmp_stream_t;
 
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index c7855c6..10a5033 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -203,7 +203,7 @@ ngx_rtmp_recv(ngx_event_t *rev)
     ngx_buf_t                  *b;
     u_char                     *p, *pp, *old_pos;
     size_t                      size, fsize, old_size;
-    uint8_t                     fmt, ext;
+    uint8_t                     fmt, ext, last;
     uint32_t                    csid, timestamp, extimestamp = 0;
 
     c = rev->data;
@@ -350,6 +350,7 @@ ngx_rtmp_recv(ngx_event_t *rev)
                 /* link to new stream */
                 s->in_csid = csid;
                 st = &s->in_streams[csid];
+                st->prev = st->in;
                 if (st->in == NULL) {
                     in->next = in;
                 } else {
@@ -466,20 +467,38 @@ ngx_rtmp_recv(ngx_event_t *rev)
 
         /* buffer is ready */
 
-        if (fsize > s->in_chunk_size) {
+        last = (fsize <= s->in_chunk_size);
+        if (!last) {
+            fsize = s->in_chunk_size;
+        }
+
+        b->last = b->pos + fsize;
+        old_pos = b->last;
+        old_size = size - fsize;
+
+        /* a small chunk joins the previous one; handlers rely on the first
+         * bytes of a message being in one buffer */
+        if (st->prev && (size_t) (st->prev->buf->end - st->prev->buf->last)
+                        >= fsize)
+        {
+            st->prev->buf->last = ngx_cpymem(st->prev->buf->last, b->pos,
+                                             fsize);
+            st->prev->next = in->next;
+            st->in = st->prev;
+
+            st0 = &s->in_streams[0];
+            in->next = st0->in;
+            st0->in = in;
+        }
+
+        if (!last) {
             /* collect fragmented chunks */
-            st->len += s->in_chunk_size;
-            b->last = b->pos + s->in_chunk_size;
-            old_pos = b->last;
-            old_size = size - s->in_chunk_size;
+            st->len += fsize;
 
         } else {
             /* handle! */
             head = st->in->next;
             st->in->next = NULL;
-            b->last = b->pos + fsize;
-            old_pos = b->last;
-            old_size = size - fsize;
             st->len = 0;
             h->timestamp += st->dtime;
 
-- 
2.43.0


From 82e02cba965b6bac17f8375d75eb3ffd79ae6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 14/74] fix: message length underflow when a header in mid
 message shortens it

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 10a5033..253ce55 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -451,6 +451,14 @@ ngx_rtmp_recv(ngx_event_t *rev)
             /* header done */
             b->pos = p;
 
+            if (h->mlen < st->len) {
+                ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                        "message length %uD less than received %uD",
+                        h->mlen, st->len);
+                ngx_rtmp_finalize_session(s);
+                return;
+            }
+
             if (h->mlen > cscf->max_message) {
                 ngx_log_error(NGX_LOG_INFO, s->log, 0,
                         "too big message: %uz", cscf->max_message);
-- 
2.43.0


From a4b161a8afefec3fe78e51c78edb085ad1eef36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 15/74] fix: abort message was ignored

---
 modules/nginx-rtmp-module/ngx_rtmp.h         |  1 +
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 30 ++++++++++++++++++++
 modules/nginx-rtmp-module/ngx_rtmp_receive.c |  1 +
 3 files changed, 32 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 6586c27..4e6c60e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -804,6 +804,7 @@ ngx_int_t ngx_rtmp_fire_event(ngx_rtmp_session_t *s, ngx_uint_t evt,
         ngx_rtmp_header_t *h, ngx_chain_t *in);
 
 ngx_int_t ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size);
+void ngx_rtmp_abort_message(ngx_rtmp_session_t *s, uint32_t csid);
 
 
 /* Bit reverse: we need big-endians in many places  */
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 253ce55..e7dc6aa 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -999,6 +999,36 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 }
 
 
+void
+ngx_rtmp_abort_message(ngx_rtmp_session_t *s, uint32_t csid)
+{
+    ngx_rtmp_core_srv_conf_t   *cscf;
+    ngx_rtmp_stream_t          *st, *st0;
+    ngx_chain_t                *head;
+
+    cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
+
+    if (csid >= (uint32_t) cscf->max_streams) {
+        return;
+    }
+
+    st = &s->in_streams[csid];
+
+    /* nothing is collected */
+    if (st->len == 0 || st->in == NULL) {
+        return;
+    }
+
+    /* add collected bufs to stream #0 */
+    st0 = &s->in_streams[0];
+    head = st->in->next;
+    st->in->next = st0->in;
+    st0->in = head;
+    st->in = NULL;
+    st->len = 0;
+}
+
+
 static ngx_int_t
 ngx_rtmp_finalize_set_chunk_size(ngx_rtmp_session_t *s)
 {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index 119c83c..ec1daff 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -43,6 +43,7 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
 
         case NGX_RTMP_MSG_ABORT:
             /* abort chunk stream =val */
+            ngx_rtmp_abort_message(s, val);
             break;
 
         case NGX_RTMP_MSG_ACK:
-- 
2.43.0


From 3b45ae7a291b5d43cf911fafb6f766bf72d30e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 16/74] fix: aggregated messages which begin at the end of a
 buffer

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 45 +++++++++++++++++---
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index ec1daff..99fdeae 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -261,12 +261,12 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                                    ngx_chain_t *in)
 {
     uint32_t            base_time, timestamp, prev_size;
-    size_t              len;
+    size_t              len, mlen;
     ngx_int_t           first;
-    u_char             *last;
+    u_char             *last, hdata[16];
     ngx_int_t           rc;
-    ngx_buf_t          *b;
-    ngx_chain_t        *cl, *next;
+    ngx_buf_t          *b, hb;
+    ngx_chain_t        *cl, *next, hl;
     ngx_rtmp_header_t   ch;
 
     ch = *h;
@@ -308,6 +308,37 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                        (ngx_int_t) ch.type, ch.mlen, ch.timestamp,
                        timestamp - base_time, ch.msid);
 
+        /* only media and data come in aggregates */
+        if (ch.type < NGX_RTMP_MSG_AUDIO || ch.type == NGX_RTMP_MSG_AGGREGATE) {
+            ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                          "RTMP type %d in aggregate", (ngx_int_t) ch.type);
+            return NGX_ERROR;
+        }
+
+        /* handlers rely on the first bytes of a message being in one buffer */
+        mlen = ch.mlen;
+        hl.next = NULL;
+
+        if (in && (size_t) (in->buf->last - in->buf->pos)
+                  < ngx_min(mlen, sizeof(hdata)))
+        {
+            ngx_memzero(&hb, sizeof(hb));
+            hb.pos = hb.last = hb.start = hdata;
+            hb.end = hdata + sizeof(hdata);
+            hb.memory = 1;
+
+            while (mlen && hb.last != hb.end) {
+                if (ngx_rtmp_fetch(&in, hb.last) != NGX_OK) {
+                    return NGX_ERROR;
+                }
+                ++hb.last;
+                --mlen;
+            }
+
+            hl.buf = &hb;
+            hl.next = in;
+        }
+
         /* limit chain */
 
         len = 0;
@@ -315,7 +346,7 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         while (cl) {
             b = cl->buf;
             len += (b->last - b->pos);
-            if (len > ch.mlen) {
+            if (len > mlen) {
                 break;
             }
             cl = cl->next;
@@ -331,13 +362,13 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         cl->next = NULL;
         b = cl->buf;
         last = b->last;
-        b->last -= (len - ch.mlen);
+        b->last -= (len - mlen);
 
         /* handle aggregated message */
 
         ch.timestamp = h->timestamp + timestamp - base_time;
 
-        rc = ngx_rtmp_receive_message(s, &ch, in);
+        rc = ngx_rtmp_receive_message(s, &ch, hl.next ? &hl : in);
 
         /* restore chain before checking the result */
 
-- 
2.43.0


From 576aef80e4bd9cd7017a34c6ad2d252f84bd0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 17/74] fix: chunk_size below 16 hung the worker or wrote
 beyond the buffer

---
 modules/nginx-rtmp-module/ngx_rtmp_core_module.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_core_module.c b/modules/nginx-rtmp-module/ngx_rtmp_core_module.c
index 9d681f9..bcb5e0f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_core_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_core_module.c
@@ -41,6 +41,11 @@ static char *ngx_rtmp_merge_frame(ngx_conf_t *cf, void *post, void *data);
 static ngx_conf_post_handler_pt  ngx_rtmp_merge_frame_p =
     ngx_rtmp_merge_frame;
 
+/* a control message fits in one chunk, no chunk is longer than a message */
+static ngx_conf_num_bounds_t  ngx_rtmp_core_chunk_size_bounds = {
+    ngx_conf_check_num_bounds, 16, 0xffffff
+};
+
 ngx_rtmp_core_main_conf_t      *ngx_rtmp_core_main_conf;
 
 
@@ -148,7 +153,7 @@ static ngx_command_t  ngx_rtmp_core_commands[] = {
       ngx_conf_set_num_slot,
       NGX_RTMP_SRV_CONF_OFFSET,
       offsetof(ngx_rtmp_core_srv_conf_t, chunk_size),
-      NULL },
+      &ngx_rtmp_core_chunk_size_bounds },
 
     { ngx_string("max_message"),
       NGX_RTMP_MAIN_CONF|NGX_RTMP_SRV_CONF|NGX_CONF_TAKE1,
-- 
2.43.0


From 711d05b6bc4f314c03d5539294e577f7c1195e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 18/74] fix: timestamp correction of a GOP cache player changed
 the frames of all others

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 8cbee81..d80a125 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -167,15 +167,21 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
     ngx_uint_t                      csidx;
     ngx_rtmp_live_ctx_t            *lctx;
     ngx_rtmp_gop_ctx_t             *ctx;
-    uint32_t                        delta;
+    ngx_rtmp_core_srv_conf_t       *cscf;
+    ngx_rtmp_frame_t               *copy;
+    uint32_t                        delta, timestamp;
     ngx_rtmp_gop_app_conf_t        *gacf;
 
     if (frame == NULL) {
         return NGX_OK;
     }
 
+    timestamp = frame->hdr.timestamp;
+
     gacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_gop_module);
-    if (gacf->fix_timestamp) {
+    if (gacf->fix_timestamp && frame->hdr.type == NGX_RTMP_MSG_AMF_META) {
+        timestamp = 0;
+    } else if (gacf->fix_timestamp) {
         lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
         csidx = !(frame->hdr.type == NGX_RTMP_MSG_VIDEO);
 
@@ -204,10 +210,7 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
             " timestamp %uD, fixed timestamp %uD",
             frame->hdr.type, delta, frame->hdr.timestamp, cs->timestamp);
 
-        frame->hdr.timestamp = cs->timestamp;
-        if (frame->hdr.type == NGX_RTMP_MSG_AMF_META) {
-            frame->hdr.timestamp = 0;
-        }
+        timestamp = cs->timestamp;
     }
 
     nmsg = (s->out_queue + s->out_last - s->out_pos) % s->out_queue + 1;
@@ -228,11 +231,23 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         ctx->latest_avc_header = frame;
     }
 
+    if (timestamp != frame->hdr.timestamp) {
+        /* the frame itself is shared with the cache and other players */
+        cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
+        copy = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, frame->chain, 0);
+        if (copy == NULL) {
+            return NGX_ERROR;
+        }
+        copy->hdr = frame->hdr;
+        copy->hdr.timestamp = timestamp;
+        frame = copy;
+    } else {
+        ngx_rtmp_shared_acquire_frame(frame);
+    }
+
     s->out[s->out_last] = frame;
     s->out_last = ngx_rtmp_gop_next(s, s->out_last);
 
-    ngx_rtmp_shared_acquire_frame(frame);
-
     return NGX_OK;
 }
 
-- 
2.43.0


From ef290ad06e92781bd598da47237ce618a34da771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 19/74] fix: GOP cache repeated, skipped or crashed on frames
 after a publisher change, a pause or frames which are not cached

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 215 ++++++++++--------
 1 file changed, 118 insertions(+), 97 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index d80a125..c94c5ab 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -12,6 +12,8 @@
 
 static ngx_rtmp_close_stream_pt         next_close_stream;
 
+static ngx_uint_t                       ngx_rtmp_gop_id;
+
 
 static void *ngx_rtmp_gop_create_app_conf(ngx_conf_t *cf);
 static char *ngx_rtmp_gop_merge_app_conf(ngx_conf_t *cf, void *parent,
@@ -20,9 +22,15 @@ static char *ngx_rtmp_gop_merge_app_conf(ngx_conf_t *cf, void *parent,
 static ngx_int_t ngx_rtmp_gop_postconfiguration(ngx_conf_t *cf);
 
 #define ngx_rtmp_gop_next(s, pos) ((pos + 1) % s->out_queue)
-#define ngx_rtmp_gop_prev(s, pos) (pos == 0 ? s->out_queue - 1 : pos - 1)
+
+/* cache positions only grow, so that an outdated one is recognized */
+#define ngx_rtmp_gop_slot(s, ctx, pos) (ctx)->cache[(pos) % (s)->out_queue]
 
 typedef struct {
+    /* publisher: number of its cache
+     * player: number of the cache gop_pos belongs to
+     */
+    ngx_uint_t                  id;
     /* publisher: head of cache
      * player: cache send position of publisher's out
      */
@@ -297,24 +305,20 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
 {
     ngx_rtmp_gop_app_conf_t    *gacf;
     ngx_rtmp_frame_t           *f, *next_keyframe;
-    size_t                      pos;
     ngx_uint_t                  nmsg;
 
     /* reset av_header at the front of cache */
-    for (pos = ctx->gop_pos; pos != ctx->gop_last;
-            pos = ngx_rtmp_gop_next(s, pos))
-    {
-        if (ctx->cache[pos]->av_header) {
-            ngx_rtmp_gop_reset_avheader(ctx, ctx->cache[pos]);
-            ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
-            continue;
+    while (ctx->gop_pos != ctx->gop_last) {
+        f = ngx_rtmp_gop_slot(s, ctx, ctx->gop_pos);
+        if (!f->av_header) {
+            break;
         }
 
-        break;
+        ngx_rtmp_gop_reset_avheader(ctx, f);
+        ++ctx->gop_pos;
     }
 
-    f = ctx->cache[pos];
-    if (f == NULL) {
+    if (ctx->gop_pos == ctx->gop_last) {
         return;
     }
 
@@ -322,12 +326,9 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
 
     /* only audio in cache */
     if (ctx->keyframe == NULL) {
-        if (frame->hdr.timestamp - ctx->cache[ctx->gop_pos]->hdr.timestamp
-                > gacf->cache_time)
-        {
+        if (frame->hdr.timestamp - f->hdr.timestamp > gacf->cache_time) {
             ngx_rtmp_shared_free_frame(f);
-            ctx->cache[ctx->gop_pos] = NULL;
-            ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
+            ++ctx->gop_pos;
         }
 
         return;
@@ -341,7 +342,7 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
         return;
     }
 
-    nmsg = (s->out_queue + ctx->gop_last - ctx->gop_pos) % s->out_queue + 2;
+    nmsg = ctx->gop_last - ctx->gop_pos + 2;
     if (nmsg >= s->out_queue) {
         goto reset;
     }
@@ -357,10 +358,11 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
     }
 
 reset:
-    for (pos = ctx->gop_pos; ctx->cache[pos] != next_keyframe;
-            pos = ngx_rtmp_gop_next(s, pos))
-    {
-        f = ctx->cache[pos];
+    for ( ;; ) {
+        f = ngx_rtmp_gop_slot(s, ctx, ctx->gop_pos);
+        if (f == next_keyframe) {
+            break;
+        }
 
         if (f->av_header) {
             ngx_rtmp_gop_reset_avheader(ctx, f);
@@ -368,11 +370,10 @@ reset:
             ngx_rtmp_shared_free_frame(f);
         }
 
-        ctx->cache[pos] = NULL;
+        ++ctx->gop_pos;
     }
 
     ctx->keyframe = next_keyframe;
-    ctx->gop_pos = pos;
 }
 
 static void
@@ -386,10 +387,8 @@ ngx_rtmp_gop_print_cache(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx)
     ngx_memzero(content, sizeof(content));
 
     p = content;
-    for (pos = ctx->gop_pos; pos != ctx->gop_last;
-            pos = ngx_rtmp_gop_next(s, pos))
-    {
-        frame = ctx->cache[pos];
+    for (pos = ctx->gop_pos; pos != ctx->gop_last; ++pos) {
+        frame = ngx_rtmp_gop_slot(s, ctx, pos);
         switch (frame->hdr.type) {
         case NGX_RTMP_MSG_AUDIO:
             *p++ = 'A';
@@ -440,9 +439,10 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
             return NGX_ERROR;
         }
         ngx_rtmp_set_ctx(s, ctx, ngx_rtmp_gop_module);
+        ctx->id = ++ngx_rtmp_gop_id;
     }
 
-    nmsg = (s->out_queue + ctx->gop_last - ctx->gop_pos) % s->out_queue + 1;
+    nmsg = ctx->gop_last - ctx->gop_pos + 1;
     if (nmsg >= s->out_queue) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                 "cache frame nmsg(%ui) >= out_queue(%z)", nmsg, s->out_queue);
@@ -478,8 +478,8 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         *keyframe = frame;
     }
 
-    ctx->cache[ctx->gop_last] = frame;
-    ctx->gop_last = ngx_rtmp_gop_next(s, ctx->gop_last);
+    ngx_rtmp_gop_slot(s, ctx, ctx->gop_last) = frame;
+    ++ctx->gop_last;
 
     ngx_rtmp_shared_acquire_frame(frame);
 
@@ -510,6 +510,37 @@ ngx_rtmp_gop_send_meta(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_OK;
 }
 
+/* the frame at gop_pos of the player was dropped from the cache */
+static ngx_int_t
+ngx_rtmp_gop_skip(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
+{
+    ngx_rtmp_gop_ctx_t         *sctx, *ssctx;
+
+    sctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
+    ssctx = ngx_rtmp_get_module_ctx(ss, ngx_rtmp_gop_module);
+
+    ngx_log_error(NGX_LOG_ERR, ss->log, 0,
+            "gop, current gop pos was dropped, "
+            "skip to new postion [pos %z last %z] %z",
+            sctx->gop_pos, sctx->gop_last, ssctx->gop_pos);
+
+    if (sctx->aac_header && sctx->aac_header != ssctx->latest_aac_header) {
+        if (ngx_rtmp_gop_link_frame(ss, sctx->aac_header) == NGX_AGAIN) {
+            return NGX_AGAIN;
+        }
+    }
+
+    if (sctx->avc_header && sctx->avc_header != ssctx->latest_avc_header) {
+        if (ngx_rtmp_gop_link_frame(ss, sctx->avc_header) == NGX_AGAIN) {
+            return NGX_AGAIN;
+        }
+    }
+
+    ssctx->gop_pos = sctx->gop_pos;
+
+    return NGX_OK;
+}
+
 static ngx_int_t
 ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -543,7 +574,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     /* link frame in s to ss */
     if (ssctx->send_gop == 1) {
         ssctx->gop_pos = sctx->gop_pos;
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
+        if (sctx->gop_pos == sctx->gop_last) {
             return NGX_AGAIN;
         }
 
@@ -560,16 +591,17 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
 
         ssctx->send_gop = 2;
-        ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->hdr.timestamp;
-    } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ssctx->gop_pos = sctx->gop_pos;
+        ssctx->first_timestamp =
+                ngx_rtmp_gop_slot(s, sctx, ssctx->gop_pos)->hdr.timestamp;
+    } else if (ssctx->gop_pos < sctx->gop_pos) {
+        if (ngx_rtmp_gop_skip(s, ss) == NGX_AGAIN) {
+            return NGX_AGAIN;
         }
     }
 
-    pos = ssctx->gop_pos;
-    frame = sctx->cache[pos];
-    while (frame && pos != ssctx->gop_last) {
+    for (pos = ssctx->gop_pos; pos != sctx->gop_last; ++pos) {
+        frame = ngx_rtmp_gop_slot(s, sctx, pos);
+
         if (!gacf->send_all &&
             frame->hdr.timestamp - ssctx->first_timestamp >= gacf->cache_time)
         {
@@ -580,12 +612,9 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         if (ngx_rtmp_gop_link_frame(ss, frame) == NGX_AGAIN) {
             break;
         }
-
-        pos = ngx_rtmp_gop_next(s, pos);
-        frame = sctx->cache[pos];
     }
 
-    if (frame == NULL || pos == ssctx->gop_last) { /* send all frame in cache */
+    if (pos == sctx->gop_last) { /* send all frame in cache */
         ssctx->send_gop = 3;
     }
 
@@ -622,6 +651,15 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ngx_rtmp_set_ctx(ss, ssctx, ngx_rtmp_gop_module);
     }
 
+    /* gop_pos is a position in the cache of another publisher */
+    if (ssctx->id != sctx->id) {
+        ssctx->id = sctx->id;
+        ssctx->send_gop = 0;
+        ssctx->gop_pos = 0;
+        ssctx->latest_aac_header = NULL;
+        ssctx->latest_avc_header = NULL;
+    }
+
     if (ngx_rtmp_gop_send_gop(s, ss) == NGX_AGAIN) {
         return NGX_OK;
     }
@@ -631,72 +669,55 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         return NGX_AGAIN;
     }
 
-    pos = ngx_rtmp_gop_prev(s, sctx->gop_last);
+    /* nothing new in cache */
+    if (ssctx->gop_pos == sctx->gop_last) {
+        ngx_rtmp_send_message(ss, NULL, 0);
+        return NGX_OK;
+    }
+
+    pos = sctx->gop_last - 1;
+    frame = ngx_rtmp_gop_slot(s, sctx, pos);
     /* new frame is video key frame */
-    if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header) {
-        if (gacf->low_latency && pos != ssctx->gop_pos) {
-            ssctx->gop_pos = pos;
-            ss->out_pos = ss->out_last;
-            ngx_log_error(NGX_LOG_INFO, ss->log, 0,
-                    "gop, low latency, chase to new keyframe");
-
-            if (sctx->latest_aac_header
-                    && sctx->latest_aac_header != ssctx->latest_aac_header)
-            {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->latest_aac_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
-            }
+    if (frame->keyframe && !frame->av_header && gacf->low_latency
+            && ssctx->gop_pos < pos)
+    {
+        ssctx->gop_pos = pos;
+        ss->out_pos = ss->out_last;
+        ngx_log_error(NGX_LOG_INFO, ss->log, 0,
+                "gop, low latency, chase to new keyframe");
 
-            if (sctx->latest_avc_header
-                    && sctx->latest_avc_header != ssctx->latest_avc_header)
+        if (sctx->latest_aac_header
+                && sctx->latest_aac_header != ssctx->latest_aac_header)
+        {
+            if (ngx_rtmp_gop_link_frame(ss, sctx->latest_aac_header)
+                    == NGX_AGAIN)
             {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->latest_avc_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
+                return NGX_AGAIN;
             }
         }
-    } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ngx_log_error(NGX_LOG_ERR, ss->log, 0,
-                    "gop, current gop pos is NULL, "
-                    "skip to new postion [pos %d last %d] %d",
-                    sctx->gop_pos, sctx->gop_last, ssctx->gop_pos);
-
-            if (sctx->aac_header
-                    && sctx->aac_header != ssctx->latest_aac_header)
-            {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->aac_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
-            }
 
-            if (sctx->avc_header
-                    && sctx->avc_header != ssctx->latest_avc_header)
+        if (sctx->latest_avc_header
+                && sctx->latest_avc_header != ssctx->latest_avc_header)
+        {
+            if (ngx_rtmp_gop_link_frame(ss, sctx->latest_avc_header)
+                    == NGX_AGAIN)
             {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->avc_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
+                return NGX_AGAIN;
             }
-
-            ssctx->gop_pos = sctx->gop_pos;
+        }
+    } else if (ssctx->gop_pos < sctx->gop_pos) {
+        if (ngx_rtmp_gop_skip(s, ss) == NGX_AGAIN) {
+            return NGX_AGAIN;
         }
     }
 
-    frame = sctx->cache[ssctx->gop_pos];
-    if (ngx_rtmp_gop_link_frame(ss, frame) == NGX_AGAIN) {
+    if (ngx_rtmp_gop_link_frame(ss, ngx_rtmp_gop_slot(s, sctx, ssctx->gop_pos))
+            == NGX_AGAIN)
+    {
         return NGX_AGAIN;
     }
 
-    ssctx->gop_pos = ngx_rtmp_gop_next(s, ssctx->gop_pos);
+    ++ssctx->gop_pos;
     ngx_rtmp_send_message(ss, NULL, 0);
 
     return NGX_OK;
@@ -729,8 +750,8 @@ ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
 
     /* free cache in publisher */
     while (ctx->gop_pos != ctx->gop_last) {
-        ngx_rtmp_shared_free_frame(ctx->cache[ctx->gop_pos]);
-        ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
+        ngx_rtmp_shared_free_frame(ngx_rtmp_gop_slot(s, ctx, ctx->gop_pos));
+        ++ctx->gop_pos;
     }
 
 next:
-- 
2.43.0


From e63a4424be0a4330605501e2a4c8c6763bddc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 20/74] fix: a new player got metadata of a publisher which is
 not forwarded

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index a0fbb81..1810a52 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -1021,8 +1021,8 @@ static ngx_int_t
 ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 {
     ngx_rtmp_live_app_conf_t   *lacf;
-    ngx_rtmp_live_ctx_t        *ctx;
-    ngx_rtmp_session_t         *ps;
+    ngx_rtmp_live_ctx_t        *ctx, *pctx;
+    ngx_map_node_t             *node;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
 
@@ -1054,9 +1054,12 @@ ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
         ngx_rtmp_send_sample_access(s);
     }
 
-    if (s->live_stream->publish_ctx && s->live_stream->publish_ctx->session) {
-        ps = s->live_stream->publish_ctx->session;
-        ngx_rtmp_gop_send(ps, s);
+    /* only the publisher with highest priority is sent to players */
+    node = ctx->stream ? ngx_map_rbegin(&ctx->stream->pubctx) : NULL;
+    if (node) {
+        pctx = (ngx_rtmp_live_ctx_t *)
+                ((u_char *) node - offsetof(ngx_rtmp_live_ctx_t, node));
+        ngx_rtmp_gop_send(pctx->session, s);
     }
 
 next:
-- 
2.43.0


From b7d301cc57c2b998f6d52b8db77c7b10f836b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 21/74] fix: players were stuck on old frames once a GOP was
 longer than out_queue

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 45 ++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index c94c5ab..c962ac4 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -41,6 +41,8 @@ typedef struct {
     ngx_flag_t                  send_gop;
 
     ngx_rtmp_frame_t           *keyframe;
+    /* gop is longer than cache, its keyframe was dropped */
+    ngx_flag_t                  headless;
 
     ngx_rtmp_frame_t           *aac_header;
     ngx_rtmp_frame_t           *avc_header;
@@ -299,6 +301,28 @@ ngx_rtmp_gop_reset_avheader(ngx_rtmp_gop_ctx_t *ctx,
     }
 }
 
+/* drop the first frame of cache */
+static void
+ngx_rtmp_gop_drop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx)
+{
+    ngx_rtmp_frame_t           *f;
+
+    f = ngx_rtmp_gop_slot(s, ctx, ctx->gop_pos);
+    ++ctx->gop_pos;
+
+    if (f->av_header) {
+        ngx_rtmp_gop_reset_avheader(ctx, f);
+        return;
+    }
+
+    if (f == ctx->keyframe) {
+        ctx->keyframe = f->next;
+        ctx->headless = 1;
+    }
+
+    ngx_rtmp_shared_free_frame(f);
+}
+
 static void
 ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
         ngx_rtmp_frame_t *frame)
@@ -444,9 +468,7 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 
     nmsg = ctx->gop_last - ctx->gop_pos + 1;
     if (nmsg >= s->out_queue) {
-        ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                "cache frame nmsg(%ui) >= out_queue(%z)", nmsg, s->out_queue);
-        return NGX_AGAIN;
+        ngx_rtmp_gop_drop(s, ctx);
     }
 
     ngx_rtmp_gop_set_avframe_tag(frame);
@@ -465,7 +487,8 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
     }
 
     /* first video frame is not intra_frame or video header */
-    if (ctx->keyframe == NULL && frame->hdr.type == NGX_RTMP_MSG_VIDEO
+    if (ctx->keyframe == NULL && !ctx->headless
+            && frame->hdr.type == NGX_RTMP_MSG_VIDEO
             && !frame->keyframe && !frame->av_header)
     {
         return NGX_OK;
@@ -473,6 +496,13 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 
     /* video intra_frame */
     if (frame->keyframe && !frame->av_header) {
+        if (ctx->headless) {
+            while (ctx->gop_pos != ctx->gop_last) {
+                ngx_rtmp_gop_drop(s, ctx);
+            }
+            ctx->headless = 0;
+        }
+
         for (keyframe = &ctx->keyframe; *keyframe;
                 keyframe = &((*keyframe)->next));
         *keyframe = frame;
@@ -519,6 +549,10 @@ ngx_rtmp_gop_skip(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     sctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
     ssctx = ngx_rtmp_get_module_ctx(ss, ngx_rtmp_gop_module);
 
+    if (sctx->headless) { /* wait for next keyframe */
+        return NGX_AGAIN;
+    }
+
     ngx_log_error(NGX_LOG_ERR, ss->log, 0,
             "gop, current gop pos was dropped, "
             "skip to new postion [pos %z last %z] %z",
@@ -574,7 +608,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     /* link frame in s to ss */
     if (ssctx->send_gop == 1) {
         ssctx->gop_pos = sctx->gop_pos;
-        if (sctx->gop_pos == sctx->gop_last) {
+        if (sctx->gop_pos == sctx->gop_last || sctx->headless) {
             return NGX_AGAIN;
         }
 
@@ -707,6 +741,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
     } else if (ssctx->gop_pos < sctx->gop_pos) {
         if (ngx_rtmp_gop_skip(s, ss) == NGX_AGAIN) {
+            ngx_rtmp_send_message(ss, NULL, 0);
             return NGX_AGAIN;
         }
     }
-- 
2.43.0


From 4edda453daf4259d2b4b8a7afca0af292a78f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 22/74] fix: low latency jump to a new key frame leaked queued
 frames and lost codec headers

Also nothing is linked from an empty cache after a skip.
---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 76 +++++++++++++++----
 1 file changed, 63 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index c962ac4..8873eb3 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -250,6 +250,7 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         }
         copy->hdr = frame->hdr;
         copy->hdr.timestamp = timestamp;
+        copy->av_header = frame->av_header;
         frame = copy;
     } else {
         ngx_rtmp_shared_acquire_frame(frame);
@@ -658,6 +659,46 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_AGAIN;
 }
 
+/* drop audio and video queued for the player */
+static void
+ngx_rtmp_gop_clear_out(ngx_rtmp_session_t *ss)
+{
+    ngx_rtmp_gop_ctx_t         *ssctx;
+    ngx_rtmp_frame_t           *frame;
+    size_t                      pos, last;
+
+    ssctx = ngx_rtmp_get_module_ctx(ss, ngx_rtmp_gop_module);
+
+    last = ss->out_pos;
+
+    for (pos = ss->out_pos; pos != ss->out_last;
+            pos = ngx_rtmp_gop_next(ss, pos))
+    {
+        frame = ss->out[pos];
+
+        if (frame->hdr.type != NGX_RTMP_MSG_AUDIO
+            && frame->hdr.type != NGX_RTMP_MSG_VIDEO)
+        {
+            ss->out[last] = frame;
+            last = ngx_rtmp_gop_next(ss, last);
+            continue;
+        }
+
+        /* codec headers the player lost are sent again */
+        if (frame->av_header) {
+            if (frame->hdr.type == NGX_RTMP_MSG_AUDIO) {
+                ssctx->latest_aac_header = NULL;
+            } else {
+                ssctx->latest_avc_header = NULL;
+            }
+        }
+
+        ngx_rtmp_shared_free_frame(frame);
+    }
+
+    ss->out_last = last;
+}
+
 ngx_int_t
 ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -665,6 +706,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     ngx_rtmp_gop_ctx_t         *sctx, *ssctx;
     ngx_rtmp_frame_t           *frame;
     size_t                      pos;
+    unsigned                    chase;
 
     gacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_gop_module);
     if (gacf->cache_time == 0) {
@@ -699,27 +741,29 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     }
 
     /* send frame by frame */
-    if (ngx_rtmp_gop_send_meta(s, ss) == NGX_AGAIN) {
-        return NGX_AGAIN;
-    }
-
-    /* nothing new in cache */
-    if (ssctx->gop_pos == sctx->gop_last) {
-        ngx_rtmp_send_message(ss, NULL, 0);
-        return NGX_OK;
-    }
-
+    chase = 0;
     pos = sctx->gop_last - 1;
-    frame = ngx_rtmp_gop_slot(s, sctx, pos);
+
     /* new frame is video key frame */
-    if (frame->keyframe && !frame->av_header && gacf->low_latency
+    if (gacf->low_latency && sctx->gop_pos != sctx->gop_last
             && ssctx->gop_pos < pos)
     {
+        frame = ngx_rtmp_gop_slot(s, sctx, pos);
+        chase = frame->keyframe && !frame->av_header;
+    }
+
+    if (chase) {
         ssctx->gop_pos = pos;
-        ss->out_pos = ss->out_last;
+        ngx_rtmp_gop_clear_out(ss);
         ngx_log_error(NGX_LOG_INFO, ss->log, 0,
                 "gop, low latency, chase to new keyframe");
+    }
+
+    if (ngx_rtmp_gop_send_meta(s, ss) == NGX_AGAIN) {
+        return NGX_AGAIN;
+    }
 
+    if (chase) {
         if (sctx->latest_aac_header
                 && sctx->latest_aac_header != ssctx->latest_aac_header)
         {
@@ -746,6 +790,12 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
     }
 
+    /* nothing new in cache */
+    if (ssctx->gop_pos == sctx->gop_last) {
+        ngx_rtmp_send_message(ss, NULL, 0);
+        return NGX_OK;
+    }
+
     if (ngx_rtmp_gop_link_frame(ss, ngx_rtmp_gop_slot(s, sctx, ssctx->gop_pos))
             == NGX_AGAIN)
     {
-- 
2.43.0


From e3d01357633fa5f8bfcb0432458b41ae8915d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 23/74] fix: a chain buffer given back twice was handed out
 twice

---
 modules/nginx-toolkit-module/ngx_rbuf.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 6b80bd5..0a30eb3 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -214,6 +214,14 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
         return;
     }
 
+    // delete chainbuf from using map
+    if (ngx_map_find(&ngx_rbuf_using, (intptr_t) cl) == NULL) {
+        ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
+                "destroy chainbuf twice: %s:%d", file, line);
+        return;
+    }
+    ngx_map_delete(&ngx_rbuf_using, (intptr_t) cl);
+
     cb = (ngx_chainbuf_t *) cl;
 
     if (cb->alloc) {
@@ -222,14 +230,6 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
     cl->next = ngx_rbuf_free_chain;
     ngx_rbuf_free_chain = cl;
     ++ngx_rbuf_nfree_chain;
-
-    // delete chainbuf from using map
-    if (ngx_map_find(&ngx_rbuf_using, (intptr_t) cl) == NULL) {
-        ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
-                "destroy chainbuf twice: %s:%d", file, line);
-        return;
-    }
-    ngx_map_delete(&ngx_rbuf_using, (intptr_t) cl);
 }
 
 ngx_chain_t *
-- 
2.43.0


From 96c5b1af7bb5bc134020d12b80fb085fc62b5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 24/74] fix: recycled chain buffers kept the flags of their
 former use

A last_buf flag left by a memory HLS fragment ended HTTP responses which
got the buffer later.
---
 modules/nginx-toolkit-module/ngx_rbuf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 0a30eb3..d1d9e86 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -168,6 +168,7 @@ ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc_rbuf, char *file, int line)
         ngx_rbuf_free_chain = cl->next;
         cl->next = NULL;
         cb = (ngx_chainbuf_t *) cl;
+        ngx_memzero(cl->buf, sizeof(ngx_buf_t));
 
         --ngx_rbuf_nfree_chain;
     } else {
-- 
2.43.0


From 9b06dc9d5eec6d8b5086b388da58fd7ca56857e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 25/74] fix: maps of integers ordered negative keys after all
 others

---
 modules/nginx-toolkit-module/ngx_map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-toolkit-module/ngx_map.c b/modules/nginx-toolkit-module/ngx_map.c
index c41bc16..c3e7006 100644
--- a/modules/nginx-toolkit-module/ngx_map.c
+++ b/modules/nginx-toolkit-module/ngx_map.c
@@ -311,7 +311,8 @@ ngx_cmp_uint(intptr_t key1, intptr_t key2)
 ngx_rbtree_key_t
 ngx_map_hash_int(intptr_t key)
 {
-    return (ngx_rbtree_key_t) key;
+    /* order of hashes is order of keys */
+    return (ngx_rbtree_key_t) key - (ngx_rbtree_key_t) NGX_MAX_INT_T_VALUE - 1;
 }
 
 int
-- 
2.43.0


From 0b86b6dd4005d9ba8394c4f9b16b91c4a1da99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 26/74] fix: a map node which covers itself lost its place in
 the key order

---
 modules/nginx-toolkit-module/ngx_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-toolkit-module/ngx_map.c b/modules/nginx-toolkit-module/ngx_map.c
index c3e7006..6acc8db 100644
--- a/modules/nginx-toolkit-module/ngx_map.c
+++ b/modules/nginx-toolkit-module/ngx_map.c
@@ -198,7 +198,7 @@ ngx_map_insert(ngx_map_t *map, ngx_map_node_t *node, ngx_flag_t covered)
     n = ngx_map_find(map, node->raw_key);
     if (n == NULL) {
         ngx_rbtree_insert(&map->rbtree, &node->rn);
-    } else if (covered) {
+    } else if (covered && n != node) {
         ngx_map_delete(map, node->raw_key);
         ngx_rbtree_insert(&map->rbtree, &node->rn);
     }
-- 
2.43.0


From aeb995e2457b1d51fe9f6326f8f995206a76422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 27/74] fix: addresses of IPv6 clients were cut off, access
 rules read beyond them

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 2455f9e..40527b0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -196,8 +196,8 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
     s->remote_addr_text.data = ngx_pcalloc(s->pool, c->addr_text.len);
     s->remote_addr_text.len = c->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data, c->addr_text.data, c->addr_text.len);
-    s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-    ngx_memcpy(s->sockaddr, c->sockaddr, sizeof(struct sockaddr));
+    s->sockaddr = ngx_pcalloc(s->pool, c->socklen);
+    ngx_memcpy(s->sockaddr, c->sockaddr, c->socklen);
 
     ngx_rtmp_init_session(s, c);
 
-- 
2.43.0


From cadab4f8af4a2b09fca3e2e21691b268236e101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 28/74] fix: access rules and statistics used the address of
 the proxy with proxy_protocol

---
 modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
index 1b24055..0b596a5 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
@@ -179,6 +179,9 @@ skip:
         c->addr_text.data = text;
         c->addr_text.len = len;
 
+        s->sockaddr = addr.sockaddr;
+        s->remote_addr_text = c->addr_text;
+
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, c->log, 0,
                        "proxy_protocol: remote_addr:'%V'", &c->addr_text);
     }
-- 
2.43.0


From e0287386f617e090b126e2e57f2c5cdc06487ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 29/74] fix: HTTP players were not subject to access rules

---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 2 ++
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c    | 6 ++++--
 modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c    | 2 --
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 2 ++
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 91862f6..c639635 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -627,6 +627,8 @@ ngx_http_flv_live_handler(ngx_http_request_t *r)
     s->remote_addr_text.len = r->connection->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data,
         r->connection->addr_text.data, r->connection->addr_text.len);
+    s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+    ngx_memcpy(s->sockaddr, r->connection->sockaddr, r->connection->socklen);
 //    ngx_rtmp_set_combined_log(s, r->connection->log->data,
 //            r->connection->log->handler);
     s->log->connection = r->connection->number;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 53732ae..12bc736 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -695,6 +695,8 @@ ngx_hls_http_create_session(ngx_http_request_t *r)
     s->remote_addr_text.len = r->connection->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data,
         r->connection->addr_text.data, r->connection->addr_text.len);
+    s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+    ngx_memcpy(s->sockaddr, r->connection->sockaddr, r->connection->socklen);
 
     v.silent = 1;
 
@@ -735,6 +737,8 @@ ngx_hls_http_create_session(ngx_http_request_t *r)
     }
 
     if (ngx_rtmp_play_filter(s, &v) != NGX_OK) {
+        ngx_rtmp_finalize_fake_session(s);
+
         return NULL;
     }
 
@@ -773,8 +777,6 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
 
             return NGX_HTTP_INTERNAL_SERVER_ERROR;
         }
-        s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-        ngx_memcpy(s->sockaddr, r->connection->sockaddr, sizeof(struct sockaddr));
     }
 
     s->request = r;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
index efab067..4eeef1d 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_live_module.c
@@ -704,8 +704,6 @@ ngx_hls_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
 
         s->status = 404;
 
-        ngx_rtmp_finalize_session(s);
-
         return NGX_ERROR;
     }
 
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 64061d2..a4d11ae 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -484,6 +484,8 @@ ngx_mpegts_http_handler(ngx_http_request_t *r)
     s->remote_addr_text.len = r->connection->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data,
         r->connection->addr_text.data, r->connection->addr_text.len);
+    s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+    ngx_memcpy(s->sockaddr, r->connection->sockaddr, r->connection->socklen);
 
     /* get host, app, stream name */
     ngx_memzero(&v, sizeof(ngx_rtmp_play_t));
-- 
2.43.0


From aafee502cddf2f940386b815acaca887d3c50328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 30/74] fix: a port with several listen addresses was bound
 once per address

---
 modules/nginx-rtmp-module/ngx_rtmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.c b/modules/nginx-rtmp-module/ngx_rtmp.c
index 33170ff..c30dbb4 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp.c
@@ -1031,10 +1031,10 @@ ngx_rtmp_optimize_servers(ngx_conf_t *cf, ngx_rtmp_core_main_conf_t *cmcf,
                     return NGX_ERROR;
                 }
             }
+        }
 
-            if (ngx_rtmp_init_listening(cf, &port[p]) != NGX_OK) {
-                return NGX_ERROR;
-            }
+        if (ngx_rtmp_init_listening(cf, &port[p]) != NGX_OK) {
+            return NGX_ERROR;
         }
     }
 
-- 
2.43.0


From ae1bff5845d91b695f2fea6db6c31068cbf2b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 31/74] fix: proxy_protocol of one listen address was applied
 to the others of its port

---
 modules/nginx-rtmp-module/ngx_rtmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.c b/modules/nginx-rtmp-module/ngx_rtmp.c
index c30dbb4..a23b15c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp.c
@@ -1083,7 +1083,7 @@ ngx_rtmp_add_addrs(ngx_conf_t *cf, ngx_rtmp_port_t *mport,
 
         addrs[i].conf.addr_text.len = len;
         addrs[i].conf.addr_text.data = p;
-        addrs[i].conf.proxy_protocol = addr->opt.proxy_protocol;
+        addrs[i].conf.proxy_protocol = addr[i].opt.proxy_protocol;
 
         if (addr[i].hash.buckets == NULL
             && (addr[i].wc_head == NULL
@@ -1161,7 +1161,7 @@ ngx_rtmp_add_addrs6(ngx_conf_t *cf, ngx_rtmp_port_t *mport,
 
         addrs6[i].conf.addr_text.len = len;
         addrs6[i].conf.addr_text.data = p;
-        addrs6[i].conf.proxy_protocol = addr->opt.proxy_protocol;
+        addrs6[i].conf.proxy_protocol = addr[i].opt.proxy_protocol;
 
         if (addr[i].hash.buckets == NULL
             && (addr[i].wc_head == NULL
-- 
2.43.0


From 0ed0341420e4dfb33124737184721c5a6ae7d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 32/74] fix: streams of a virtual server got the serverid of
 the default server

---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index d69b69a..ae43c3c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -159,6 +159,11 @@ ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s)
     s->scheme = rurl.scheme;
     s->domain = rurl.host;
 
+    /* serverid is the one of the server the domain leads to */
+    if (ngx_rtmp_set_virtual_server(s, &s->domain) != NGX_OK) {
+        return;
+    }
+
     rcsf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
     rcsdf = ngx_rtmp_get_module_srv_dconf(s, &ngx_rtmp_core_module);
     if (rcsdf && rcsdf->serverid.len) {
-- 
2.43.0


From 1116a0d7070befaed0f4fbad72a12b96ffe05a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:59 +0000
Subject: [PATCH 33/74] fix: a wildcard listen address with options was bound
 before the others of its port

---
 modules/nginx-rtmp-module/ngx_rtmp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.c b/modules/nginx-rtmp-module/ngx_rtmp.c
index a23b15c..a909a12 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp.c
@@ -1211,6 +1211,11 @@ ngx_rtmp_cmp_conf_addrs(const void *one, const void *two)
         return 1;
     }
 
+    if (second->opt.wildcard) {
+        /* a wildcard must be the last resort, shift it to the end */
+        return -1;
+    }
+
     if (first->opt.bind && !second->opt.bind) {
         /* shift explicit bind()ed addresses to the start */
         return -1;
-- 
2.43.0


From e16dd5becf939e3fb4499cf959062e6faf9316df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 34/74] fix: a virtual server with more max_streams let clients
 write behind the chunk streams

---
 modules/nginx-rtmp-module/ngx_rtmp.h         |  1 +
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 15 ++++++---------
 modules/nginx-rtmp-module/ngx_rtmp_init.c    |  1 +
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 4e6c60e..4a5a6c9 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -383,6 +383,7 @@ struct ngx_rtmp_session_s {
      * is used as free chain link */
 
     ngx_rtmp_stream_t      *in_streams;
+    ngx_int_t               max_streams;    /* size of in_streams */
     uint32_t                in_csid;
     ngx_uint_t              in_chunk_size;
     size_t                  in_buf_size;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index e7dc6aa..e0572ad 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -333,10 +333,10 @@ ngx_rtmp_recv(ngx_event_t *rev)
                     "RTMP bheader fmt=%d csid=%D",
                     (int)fmt, csid);
 
-            if (csid >= (uint32_t)cscf->max_streams) {
+            if (csid >= (uint32_t)s->max_streams) {
                 ngx_log_error(NGX_LOG_INFO, s->log, 0,
                     "RTMP in chunk stream too big: %D >= %D",
-                    csid, cscf->max_streams);
+                    csid, s->max_streams);
                 ngx_rtmp_finalize_session(s);
                 return;
             }
@@ -560,10 +560,10 @@ ngx_rtmp_prepare_out_chain(ngx_rtmp_session_t *s)
     frame = s->out[s->out_pos];
     head = NULL;
 
-    if (frame->hdr.csid >= (uint32_t)cscf->max_streams) {
+    if (frame->hdr.csid >= (uint32_t)s->max_streams) {
         ngx_log_error(NGX_LOG_INFO, s->log, 0,
                 "RTMP out chunk stream too big: %D >= %D",
-                frame->hdr.csid, cscf->max_streams);
+                frame->hdr.csid, s->max_streams);
         goto failed;
     }
 
@@ -949,7 +949,7 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
         s->in_chunk_size_changing = 1;
         s->in_streams[0].in = NULL;
 
-        for(n = 1; n < cscf->max_streams; ++n) {
+        for(n = 1; n < s->max_streams; ++n) {
             /* stream buffer is circular
              * for all streams except for the current one
              * (which caused this chunk size change);
@@ -1002,13 +1002,10 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 void
 ngx_rtmp_abort_message(ngx_rtmp_session_t *s, uint32_t csid)
 {
-    ngx_rtmp_core_srv_conf_t   *cscf;
     ngx_rtmp_stream_t          *st, *st0;
     ngx_chain_t                *head;
 
-    cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
-
-    if (csid >= (uint32_t) cscf->max_streams) {
+    if (csid >= (uint32_t) s->max_streams) {
         return;
     }
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 40527b0..8c74cb0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -738,6 +738,7 @@ ngx_rtmp_create_session(ngx_rtmp_addr_conf_t *addr_conf)
 
     s->out_queue = cscf->out_queue;
     s->out_cork = cscf->out_cork;
+    s->max_streams = cscf->max_streams;
     s->in_streams = ngx_pcalloc(pool, sizeof(ngx_rtmp_stream_t)
             * cscf->max_streams);
     if (s->in_streams == NULL) {
-- 
2.43.0


From f3981c83d87cf6215dd7965f5c62bbf24c70a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 35/74] fix: control requests with an address acted on the
 listening address

addr_text is the address a client connected to (and empty for relay
sessions), so a request with addr= met all clients of a listen address or
crashed the worker.  Compare the client's address.
---
 modules/nginx-rtmp-module/ngx_rtmp_control_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
index 4966ec5..1cf271d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
@@ -273,7 +273,7 @@ ngx_rtmp_control_walk_session(ngx_http_request_t *r, ngx_rtmp_core_ctx_t *cctx)
     if (ngx_http_arg(r, (u_char *) "addr", sizeof("addr") - 1, &addr)
             == NGX_OK)
     {
-        paddr = s->addr_text;
+        paddr = &s->remote_addr_text;
         if (paddr->len != addr.len ||
                 ngx_strncmp(paddr->data, addr.data, addr.len))
         {
-- 
2.43.0


From 509a696669d2807995766b56d995c23f239cd3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 36/74] fix: control requests with a name but without app acted
 on all streams

---
 .../ngx_rtmp_control_module.c                 | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
index 1cf271d..c7e090b 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
@@ -363,9 +363,27 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
         app.len = 0;
     }
 
+    if (ngx_http_arg(r, (u_char *) "name", sizeof("name") - 1, &name)
+            != NGX_OK)
+    {
+        name.len = 0;
+    }
+
     if (app.len == 0) {
         for (n = 0; n < lcf->stream_buckets; ++n) {
             for (st = srv->streams[n]; st; st = st->next) {
+                stream.data = st->name;
+                stream.len = ngx_strlen(st->name);
+
+                if (name.len
+                    && (stream.len <= name.len
+                        || st->name[stream.len - name.len - 1] != '/'
+                        || ngx_memcmp(st->name + stream.len - name.len,
+                                      name.data, name.len)))
+                {
+                    continue;
+                }
+
                 s = ngx_rtmp_control_walk_stream(r, st);
                 if (s != NGX_CONF_OK) {
                     return s;
@@ -376,12 +394,6 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
         return NGX_CONF_OK;
     }
 
-    if (ngx_http_arg(r, (u_char *) "name", sizeof("name") - 1, &name)
-            != NGX_OK)
-    {
-        name.len = 0;
-    }
-
     serverid.data = srv->serverid;
     serverid.len = ngx_strlen(srv->serverid);
 
-- 
2.43.0


From b10227ae60fdc88ea5afe144ca80a97ea95d0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 37/74] fix: a chunked response crashed the worker if its body
 came after its header

---
 modules/nginx-client-module/ngx_http_client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 3a94803..a47cdab 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1227,6 +1227,10 @@ ngx_http_client_body_chunked(ngx_http_request_t *r, ngx_chain_t *cl)
 
     for (ll = &ctx->in; *ll; ll = &(*ll)->next);
 
+    if (cl == NULL) { // nothing received after the header yet
+        return NGX_AGAIN;
+    }
+
     while (1) {
 
         b = cl->buf;
@@ -1317,6 +1321,8 @@ ngx_http_client_body_chunked(ngx_http_request_t *r, ngx_chain_t *cl)
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "http client, invalid chunked response");
 
+        ngx_put_chainbufs(cl);
+
         return NGX_ERROR;
     }
 }
-- 
2.43.0


From 6531ea9a216bbbd24df78272cfcb7bfdcf61db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 38/74] fix: HTTP client lost the body which arrived together
 with the end of the connection

---
 modules/nginx-client-module/ngx_http_client.c | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index a47cdab..697e3ce 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -97,6 +97,9 @@ typedef struct {
     ngx_http_chunked_t              chunked;
     ngx_int_t                       length;
 
+    /* result of the read which ended the connection, NGX_AGAIN if none */
+    ngx_int_t                       end;
+
     /* bufs */
     ngx_chain_t                    *in;
     ngx_buf_t                      *buffer;     /* status line buf */
@@ -1588,6 +1591,7 @@ ngx_http_client_send(ngx_http_request_t *r)
         return NGX_ERROR;
     }
     ctx->headers_in.content_length_n = -1;
+    ctx->end = NGX_AGAIN;
 
     ngx_client_connect(s);
 
@@ -1739,14 +1743,19 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
     // recycle bufs
     while (ctx->in) {
         cl = ctx->in;
-        ctx->in = cl->next;
         if (cl->buf->pos != cl->buf->last) {
             break;
         }
 
+        ctx->in = cl->next;
         ngx_put_chainbuf(cl);
     }
 
+    // connection has been ended while last read
+    if (ctx->end != NGX_AGAIN) {
+        return ctx->end;
+    }
+
     cl = NULL;
     ll = &cl;
 
@@ -1781,20 +1790,22 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
 
         if (n == 0) {
             ngx_put_chainbuf(ln);
-            ngx_put_chainbufs(cl);
 
             ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
                     "http client, server close");
-            return 0;
+            ctx->end = 0;
+
+            break;
         }
 
         if (n == NGX_ERROR) {
             ngx_put_chainbuf(ln);
-            ngx_put_chainbufs(cl);
 
             ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                     "http client, server error close");
-            return NGX_ERROR;
+            ctx->end = NGX_ERROR;
+
+            break;
         }
 
         if (n == NGX_AGAIN) { // all data in socket has been read
@@ -1814,6 +1825,10 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
         ctx->rbytes += n;
     }
 
+    if (cl == NULL && ctx->end != NGX_AGAIN) {
+        return ctx->end;
+    }
+
     if (ctx->headers_in.chunked) {
         rc = ngx_http_client_body_chunked(r, cl);
     } else {
@@ -1829,6 +1844,10 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
         return NGX_DONE;
     }
 
+    if (ctx->end != NGX_AGAIN) { // report the end after the data
+        ngx_post_event(rev, &ngx_posted_events);
+    }
+
     return NGX_AGAIN;
 }
 
-- 
2.43.0


From ea5c52569d211b5235315d23ceee3df0a2b075ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 39/74] fix: HTTP client returned bytes beyond Content-Length
 as body

---
 modules/nginx-client-module/ngx_http_client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 697e3ce..9851603 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1201,6 +1201,7 @@ ngx_http_client_body_length(ngx_http_request_t *r, ngx_chain_t *cl)
                 if (cl || buf->last - buf->pos > len) {
                     ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
                             "http client, read unexpected data");
+                    buf->last = buf->pos + len;
                     ngx_put_chainbufs(cl);
                 }
                 return NGX_DONE;
-- 
2.43.0


From f3e81700aba9ed0b4f8df71b36425eae86d21efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 40/74] fix: HTTP client never completed responses without body

---
 modules/nginx-client-module/ngx_http_client.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 9851603..03082cf 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -729,6 +729,16 @@ ngx_http_client_process_header(ngx_client_session_t *s)
                 ctx->headers_in.content_length_n = -1;
             }
 
+            /* response without body */
+
+            if (r->method == NGX_HTTP_CLIENT_HEAD
+                || ctx->headers_in.status_n == NGX_HTTP_NO_CONTENT
+                || ctx->headers_in.status_n == NGX_HTTP_NOT_MODIFIED)
+            {
+                ctx->headers_in.chunked = 0;
+                ctx->headers_in.content_length_n = 0;
+            }
+
             ctx->length = ctx->headers_in.content_length_n;
 
             break;
@@ -1752,6 +1762,12 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
         ngx_put_chainbuf(cl);
     }
 
+    // all body has been read
+    if (!ctx->headers_in.chunked && ctx->length == 0) {
+        *in = ctx->in;
+        return NGX_DONE;
+    }
+
     // connection has been ended while last read
     if (ctx->end != NGX_AGAIN) {
         return ctx->end;
@@ -1842,6 +1858,8 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
 
     *in = ctx->in;
     if (rc == NGX_DONE) { // all body has been read
+        ctx->headers_in.chunked = 0;
+        ctx->length = 0;
         return NGX_DONE;
     }
 
-- 
2.43.0


From 6c538e7f36da0918e543445edc0a5a1e4347b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 41/74] fix: a pull over HTTP did not notice the end of a
 delimited response

---
 modules/nginx-rtmp-module/ngx_live_relay_httpflv.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c b/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
index 8053bb7..d2cb29e 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_httpflv.c
@@ -354,7 +354,7 @@ done:
 static void
 ngx_live_relay_httpflv_recv_body(void *request, ngx_http_request_t *hcr)
 {
-    ngx_int_t                   n;
+    ngx_int_t                   n, rc;
     ngx_rtmp_session_t         *s;
     ngx_chain_t                *cl, *l, *in;
     ngx_rtmp_header_t          *h;
@@ -363,6 +363,7 @@ ngx_live_relay_httpflv_recv_body(void *request, ngx_http_request_t *hcr)
     s = request;
 
     n = ngx_http_client_read_body(hcr, &cl);
+    rc = n;
 
     if (n == 0 || n == NGX_ERROR) {
         s->finalize_reason = n == 0? NGX_LIVE_NORMAL_CLOSE:
@@ -380,6 +381,13 @@ ngx_live_relay_httpflv_recv_body(void *request, ngx_http_request_t *hcr)
         }
 
         if (l == NULL) {
+            if (rc == NGX_DONE) {
+                s->finalize_reason = NGX_LIVE_NORMAL_CLOSE;
+                ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                        "http relay, end of body");
+                ngx_rtmp_finalize_session(s);
+            }
+
             return;
         }
 
-- 
2.43.0


From bac43f41e9ae6e2c3a149a6f438734f08f1d7c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 42/74] fix: header_timeout of the HTTP client was never
 enforced

---
 modules/nginx-client-module/ngx_http_client.c | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index 03082cf..b4890c9 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -632,6 +632,13 @@ ngx_http_client_process_header(ngx_client_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process header");
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, wait for response header timed out");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     for (;;) {
 
         rc = ngx_http_parse_header_line(r, b, 1);
@@ -812,6 +819,13 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process status line");
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, wait for response header timed out");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     for (;;) {
         rc = ngx_http_parse_status_line(r, b, &ctx->status);
 
@@ -897,6 +911,13 @@ ngx_http_client_wait_response_handler(ngx_client_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_HTTP, r->connection->log, 0,
             "http client, process response handler");
 
+    if (rev->timedout) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, NGX_ETIMEDOUT,
+                "http client, wait for response header timed out");
+        ngx_http_client_finalize_request(r, 1);
+        return;
+    }
+
     if (b == NULL) {
         b = ngx_create_temp_buf(c->pool, size);
         if (b == NULL) {
-- 
2.43.0


From b0074aec06a0e2fe85ed513c456a1026e8e6c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 43/74] fix: a response header larger than header_buffer_size
 hung the worker

---
 modules/nginx-client-module/ngx_http_client.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index b4890c9..b69b7c6 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -754,6 +754,13 @@ ngx_http_client_process_header(ngx_client_session_t *s)
         if (rc == NGX_AGAIN) {
             n = ngx_client_read(s, b);
 
+            if (n == NGX_DECLINED) {
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                        "http client, response header is too big");
+                ngx_http_client_finalize_request(r, 1);
+                return;
+            }
+
             if (n == NGX_ERROR || n == 0) {
                 ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "http client, process header read error");
@@ -832,6 +839,13 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
         if (rc == NGX_AGAIN) {
             n = ngx_client_read(s, b);
 
+            if (n == NGX_DECLINED) {
+                ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                        "http client, response header is too big");
+                ngx_http_client_finalize_request(r, 1);
+                return;
+            }
+
             if (n == NGX_ERROR || n == 0) {
                 ngx_log_error(NGX_LOG_ERR, r->connection->log, ngx_errno,
                         "http client, process status line read error");
-- 
2.43.0


From 1cfc8281f04c3ff1e5ccd168100d9e2a6f701d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 44/74] fix: HTTP client took a malformed status line or
 Content-Length for a response

---
 modules/nginx-client-module/ngx_http_client.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index b69b7c6..adde330 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -404,6 +404,12 @@ ngx_http_client_process_content_length(ngx_http_request_t *r,
     ctx->headers_in.content_length = h;
     ctx->headers_in.content_length_n = ngx_atoof(h->value.data, h->value.len);
 
+    if (ctx->headers_in.content_length_n == NGX_ERROR) {
+        ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
+                "invalid Content-Length header, %V: %V", &h->key, &h->value);
+        return NGX_ERROR;
+    }
+
     return NGX_OK;
 }
 
@@ -878,7 +884,8 @@ ngx_http_client_process_status_line(ngx_client_session_t *s)
             ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                     "http client, recv no valid HTTP/1.0 header");
 
-            r->http_version = NGX_HTTP_VERSION_9;
+            ngx_http_client_finalize_request(r, 1);
+            return;
         }
 
         /* NGX_OK */
-- 
2.43.0


From 697bfbb9b18c370455dbf0ff7dcdc4ebf73b2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 45/74] fix: client sessions wrote behind the name of their
 server and bound to the peer's address

---
 modules/nginx-client-module/ngx_client.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-client-module/ngx_client.c b/modules/nginx-client-module/ngx_client.c
index e14e8b9..7aff84d 100644
--- a/modules/nginx-client-module/ngx_client.c
+++ b/modules/nginx-client-module/ngx_client.c
@@ -927,7 +927,7 @@ ngx_client_create(ngx_str_t *peer, ngx_str_t *local, ngx_flag_t udp,
     if (s->server.data == NULL) {
         goto clear;
     }
-    ngx_memcpy(s->server.data, peer->data, peer->len);
+    ngx_memcpy(s->server.data, peer->data, s->server.len);
 
     if (p != last) { /* has port */
         if (*p != ':') {
@@ -955,14 +955,15 @@ ngx_client_create(ngx_str_t *peer, ngx_str_t *local, ngx_flag_t udp,
             goto clear;
         }
 
-        rc = ngx_parse_addr_port(s->pool, s->peer.local, peer->data, peer->len);
+        rc = ngx_parse_addr_port(s->pool, s->peer.local, local->data,
+                                 local->len);
         if (rc != NGX_OK) {
             ngx_log_error(NGX_LOG_ERR, log, 0, "invalid local address \"%V\"",
                     local);
             goto clear;
         }
 
-        s->peer.local->name.data = ngx_pcalloc(s->pool, sizeof(local->len));
+        s->peer.local->name.data = ngx_pcalloc(s->pool, local->len);
         if (s->peer.local->name.data == NULL) {
             goto clear;
         }
-- 
2.43.0


From 8f9ccdfb482c7df5e4dbd046df6b77237117f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 46/74] fix: connections which the server closes or which ended
 were kept for reuse, others were leaked

---
 modules/nginx-client-module/ngx_client.c      | 52 ++++++++++++-------
 modules/nginx-client-module/ngx_http_client.c | 20 +++++++
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/modules/nginx-client-module/ngx_client.c b/modules/nginx-client-module/ngx_client.c
index 7aff84d..6295353 100644
--- a/modules/nginx-client-module/ngx_client.c
+++ b/modules/nginx-client-module/ngx_client.c
@@ -320,6 +320,14 @@ ngx_client_keepalive_handler(ngx_event_t *rev)
             goto close;
         }
 
+        if (n == NGX_AGAIN) {
+            if (ngx_handle_read_event(rev, 0) != NGX_OK) {
+                goto close;
+            }
+
+            return;
+        }
+
         ngx_log_error(NGX_LOG_INFO, c->log, 0,
                 "server recv data while client keepalive %d", n);
 
@@ -355,7 +363,7 @@ close:
 }
 
 
-static void
+static ngx_int_t
 ngx_client_reusable_connection(ngx_client_session_t *s)
 {
     ngx_client_conf_t          *ccf;
@@ -372,19 +380,27 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
 
 #if (NGX_HAVE_UNIX_DOMAIN)
     if (s->peer.sockaddr->sa_family == AF_UNIX) { // Unix will not reuse
-        return;
+        return NGX_DECLINED;
     }
 #endif
 
-    if (ccf->idle_connction > ccf->keepalive) {
+    if (c->error || c->read->error || c->read->eof || c->read->pending_eof) {
+        return NGX_DECLINED;
+    }
+
+    if (ccf->idle_connction >= ccf->max_idle_client) {
         ngx_log_error(NGX_LOG_INFO, c->log, 0,
                 "too many connections in pool");
-        return;
+        return NGX_DECLINED;
     }
 
-    ngx_log_error(NGX_LOG_INFO, &s->log, 0, "client, put connection in pool");
+    if (c->write->active && (ngx_event_flags & NGX_USE_LEVEL_EVENT)) {
+        if (ngx_del_event(c->write, NGX_WRITE_EVENT, 0) != NGX_OK) {
+            return NGX_DECLINED;
+        }
+    }
 
-    c->pool = NULL;
+    ngx_log_error(NGX_LOG_INFO, &s->log, 0, "client, put connection in pool");
 
     // get client connection pool for c->sockaddr
     paddr.data = addr;
@@ -398,7 +414,7 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
     if (pool == NULL) { // connection pool for addr is empty
         pool = ngx_client_get_client_pool();
         if (pool == NULL) {
-            return;
+            return NGX_ERROR;
         }
 
         ngx_memcpy(pool->addr, addr, NGX_SOCKADDR_STRLEN);
@@ -409,6 +425,8 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
         ngx_map_insert(&ccf->client_pools, &pool->node, 0);
     }
 
+    c->pool = NULL;
+
     // put connection in connection pool
     ngx_queue_insert_head(&pool->cs_queue, &c->queue);
     c->data = pool;
@@ -422,6 +440,10 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
     c->read->handler = ngx_client_keepalive_handler;
     NGX_ADD_TIMER(c->read, ccf->keepalive, offsetof(ngx_connection_t, number));
 
+    if (c->read->ready) { // more than the response may have been received
+        ngx_post_event(c->read, &ngx_posted_events);
+    }
+
     if (c->write->timer_set) {
         NGX_DEL_TIMER(c->write, c->number);
     }
@@ -430,16 +452,7 @@ ngx_client_reusable_connection(ngx_client_session_t *s)
         ngx_delete_posted_event(c->write);
     }
 
-    if (c->write->active && (ngx_event_flags & NGX_USE_LEVEL_EVENT)) {
-        if (ngx_del_event(c->write, NGX_WRITE_EVENT, 0) != NGX_OK) {
-            if (c->read->timer_set) {
-                NGX_DEL_TIMER(c->read, c->number);
-            }
-
-            ngx_close_connection(c);
-            return;
-        }
-    }
+    return NGX_OK;
 }
 
 
@@ -1271,7 +1284,10 @@ ngx_client_set_keepalive(ngx_client_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_CORE, &s->log, 0,
             "nginx client set keepalive");
 
-    ngx_client_reusable_connection(s);
+    if (ngx_client_reusable_connection(s) != NGX_OK) {
+        ngx_client_close(s);
+        return;
+    }
 
     pool = s->pool;
     NGX_DESTROY_POOL(pool);
diff --git a/modules/nginx-client-module/ngx_http_client.c b/modules/nginx-client-module/ngx_http_client.c
index adde330..904dfbb 100644
--- a/modules/nginx-client-module/ngx_http_client.c
+++ b/modules/nginx-client-module/ngx_http_client.c
@@ -1255,6 +1255,8 @@ ngx_http_client_body_length(ngx_http_request_t *r, ngx_chain_t *cl)
                             "http client, read unexpected data");
                     buf->last = buf->pos + len;
                     ngx_put_chainbufs(cl);
+                    ctx->headers_in.connection_type =
+                                              NGX_HTTP_CLIENT_CONNECTION_CLOSE;
                 }
                 return NGX_DONE;
             }
@@ -1368,6 +1370,8 @@ ngx_http_client_body_chunked(ngx_http_request_t *r, ngx_chain_t *cl)
             if (b->pos != b->last || cl->next) {
                 ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
                         "http client, read unexpected chunked data");
+                ctx->headers_in.connection_type =
+                                              NGX_HTTP_CLIENT_CONNECTION_CLOSE;
             }
             ngx_put_chainbufs(cl);
 
@@ -1806,6 +1810,12 @@ ngx_http_client_read_body(ngx_http_request_t *r, ngx_chain_t **in)
 
     // all body has been read
     if (!ctx->headers_in.chunked && ctx->length == 0) {
+        if (ctx->buffer->pos != ctx->buffer->last) {
+            ngx_log_error(NGX_LOG_INFO, r->connection->log, 0,
+                    "http client, read unexpected data");
+            ctx->headers_in.connection_type = NGX_HTTP_CLIENT_CONNECTION_CLOSE;
+        }
+
         *in = ctx->in;
         return NGX_DONE;
     }
@@ -1965,6 +1975,16 @@ ngx_http_client_finalize_request(ngx_http_request_t *r, ngx_flag_t closed)
     ctx = r->ctx[0];
     s = ctx->session;
 
+    /* only a connection which the server keeps open after a whole response */
+    if (ctx->headers_in.chunked || ctx->length != 0 || ctx->end != NGX_AGAIN
+        || ctx->headers_in.connection_type == NGX_HTTP_CLIENT_CONNECTION_CLOSE
+        || (ctx->headers_in.http_version < NGX_HTTP_VERSION_11
+            && ctx->headers_in.connection_type
+               != NGX_HTTP_CLIENT_CONNECTION_KEEP_ALIVE))
+    {
+        closed = 1;
+    }
+
     ngx_http_client_free_request(r);
 
     if (closed) {
-- 
2.43.0


From 1280e0fb4277bb5280f7b3e1d1d637f91c66bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 47/74] fix: a new codec header ended no earlier meta callback:
 no done, leaked callback with a dangling session

---
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index f3f4a50..fab735f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1362,6 +1362,8 @@ ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
     nctx->handler = ngx_rtmp_notify_meta_start_handle;
     nctx->data = s;
 
+    /* a new header ends the previous callback */
+    ngx_rtmp_notify_common_done(s, ctx->mctx);
     ctx->mctx = nctx;
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "meta %s start create %V",
-- 
2.43.0


From e0e26fcff094897a1fd1d8a7e4da745f12f4e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 48/74] fix: record only publishers which were accepted

---
 .../ngx_rtmp_record_module.c                  | 42 +++++++++++++++++--
 .../ngx_rtmp_record_module.h                  |  1 +
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 4cff47e..52ab48f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -9,6 +9,7 @@
 #include "ngx_rtmp.h"
 #include "ngx_rtmp_cmd_module.h"
 #include "ngx_rtmp_codec_module.h"
+#include "ngx_rtmp_live_module.h"
 #include "ngx_rtmp_record_module.h"
 
 
@@ -285,6 +286,24 @@ ngx_rtmp_record_get_node_ctx(ngx_rtmp_session_t *s, ngx_uint_t n)
 }
 
 
+/* only a publisher which was accepted is recorded */
+static ngx_int_t
+ngx_rtmp_record_accepted(ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_live_app_conf_t       *lacf;
+    ngx_rtmp_live_ctx_t            *lctx;
+
+    lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
+    if (lacf == NULL || !lacf->live) {
+        return 1;
+    }
+
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
+
+    return lctx && lctx->stream && lctx->publishing;
+}
+
+
 ngx_int_t
 ngx_rtmp_record_open(ngx_rtmp_session_t *s, ngx_uint_t n, ngx_str_t *path)
 {
@@ -296,7 +315,7 @@ ngx_rtmp_record_open(ngx_rtmp_session_t *s, ngx_uint_t n, ngx_str_t *path)
 
     rctx = ngx_rtmp_record_get_node_ctx(s, n);
 
-    if (rctx == NULL) {
+    if (rctx == NULL || !ngx_rtmp_record_accepted(s)) {
         return NGX_ERROR;
     }
 
@@ -647,6 +666,10 @@ ngx_rtmp_record_start(ngx_rtmp_session_t *s)
     ngx_rtmp_record_ctx_t          *ctx;
     ngx_uint_t                      n;
 
+    if (!ngx_rtmp_record_accepted(s)) {
+        return;
+    }
+
     racf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_record_module);
     if (racf == NULL || racf->rec.nelts == 0) {
         return;
@@ -660,6 +683,8 @@ ngx_rtmp_record_start(ngx_rtmp_session_t *s)
     ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "record: start");
 
+    ctx->started = 1;
+
     rctx = ctx->rec.elts;
     for (n = 0; n < ctx->rec.nelts; ++n, ++rctx) {
         if (rctx->conf->flags & (NGX_RTMP_RECORD_OFF|NGX_RTMP_RECORD_MANUAL)) {
@@ -703,6 +728,7 @@ ngx_rtmp_record_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
     ngx_rtmp_record_app_conf_t     *racf;
     ngx_rtmp_record_ctx_t          *ctx;
+    ngx_int_t                       rc;
     u_char                         *p;
 
     if (s->interprocess) {
@@ -739,7 +765,13 @@ ngx_rtmp_record_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
         }
     }
 
-    ngx_rtmp_record_start(s);
+    /* the publisher can be refused, now or later */
+    rc = next_publish(s, v);
+    if (rc == NGX_OK) {
+        ngx_rtmp_record_start(s);
+    }
+
+    return rc;
 
 next:
     return next_publish(s, v);
@@ -1001,10 +1033,14 @@ ngx_rtmp_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_record_module);
 
-    if (ctx == NULL || s->pause) {
+    if (ctx == NULL || s->pause || !ngx_rtmp_record_accepted(s)) {
         return NGX_OK;
     }
 
+    if (!ctx->started) {
+        ngx_rtmp_record_start(s);
+    }
+
     rctx = ctx->rec.elts;
 
     for (n = 0; n < ctx->rec.nelts; ++n, ++rctx) {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.h b/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
index 6450dcb..58fb2cd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
@@ -60,6 +60,7 @@ typedef struct {
     ngx_array_t                         rec; /* ngx_rtmp_record_rec_ctx_t */
     u_char                              name[NGX_RTMP_MAX_NAME];
     u_char                              args[NGX_RTMP_MAX_ARGS];
+    unsigned                            started:1;
 } ngx_rtmp_record_ctx_t;
 
 
-- 
2.43.0


From 523b1d1e7e4507e8b686d31db9e2feaf4036741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 49/74] fix: write a codec header into a recording once, and a
 new one before its first key frame

---
 .../ngx_rtmp_record_module.c                  | 48 ++++++++++++++++---
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 52ab48f..124b23b 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -1051,6 +1051,29 @@ ngx_rtmp_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 }
 
 
+/* message is the codec header which the codec module keeps */
+static ngx_int_t
+ngx_rtmp_record_is_header(ngx_rtmp_session_t *s,
+                          ngx_rtmp_codec_ctx_t *codec_ctx,
+                          ngx_rtmp_header_t *h, ngx_chain_t *in)
+{
+    ngx_rtmp_core_app_conf_t       *cacf;
+
+    if (in->buf->last - in->buf->pos < 3 || !ngx_rtmp_is_codec_header(in)) {
+        return 0;
+    }
+
+    if (h->type == NGX_RTMP_MSG_AUDIO) {
+        return codec_ctx->audio_codec_id == NGX_RTMP_AUDIO_AAC;
+    }
+
+    cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
+
+    return codec_ctx->video_codec_id == NGX_RTMP_VIDEO_H264
+           || codec_ctx->video_codec_id == cacf->hevc_codec;
+}
+
+
 static ngx_int_t
 ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
                         ngx_rtmp_header_t *h, ngx_chain_t *in)
@@ -1058,7 +1081,7 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
     ngx_time_t                      next;
     ngx_rtmp_header_t               ch;
     ngx_rtmp_codec_ctx_t           *codec_ctx;
-    ngx_int_t                       keyframe, brkframe;
+    ngx_int_t                       keyframe, brkframe, header;
     ngx_rtmp_record_app_conf_t     *rracf;
 
     rracf = rctx->conf;
@@ -1134,9 +1157,12 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
         }
     }
 
+    header = 0;
+
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
     if (codec_ctx) {
         ch = *h;
+        header = ngx_rtmp_record_is_header(s, codec_ctx, h, in);
 
         /* AAC header */
         if (!rctx->aac_header_sent && codec_ctx->aac_header &&
@@ -1157,6 +1183,11 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
             }
 
             rctx->aac_header_sent = 1;
+
+            /* this very message is written already */
+            if (header && h->type == NGX_RTMP_MSG_AUDIO) {
+                header = 2;
+            }
         }
 
         /* AVC header */
@@ -1179,9 +1210,17 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
             }
 
             rctx->avc_header_sent = 1;
+
+            if (header && h->type == NGX_RTMP_MSG_VIDEO) {
+                header = 2;
+            }
         }
     }
 
+    if (header == 2) {
+        return NGX_OK;
+    }
+
     if (h->type == NGX_RTMP_MSG_VIDEO) {
         if (codec_ctx && codec_ctx->video_codec_id == NGX_RTMP_VIDEO_H264 &&
             !rctx->avc_header_sent)
@@ -1191,14 +1230,11 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
             return NGX_OK;
         }
 
-        if (ngx_rtmp_get_video_frame_type(in) == NGX_RTMP_VIDEO_KEY_FRAME &&
-            ((codec_ctx && codec_ctx->video_codec_id != NGX_RTMP_VIDEO_H264) ||
-             !ngx_rtmp_is_codec_header(in)))
-        {
+        if (keyframe && !header) {
             rctx->video_key_sent = 1;
         }
 
-        if (!rctx->video_key_sent) {
+        if (!rctx->video_key_sent && !header) {
             ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                            "record: %V skipping until keyframe", &rracf->id);
             return NGX_OK;
-- 
2.43.0


From 1863463c8ef4f128ab278342343214d527655fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 50/74] fix: check the limits of a recording after media only,
 a codec header must not end it

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 124b23b..029e065 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -999,7 +999,11 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
 
     rctx->nframes += inc_nframes;
 
-    /* watch max size */
+    /* watch max size, the frame which follows a codec header is still due */
+    if (inc_nframes == 0) {
+        return NGX_OK;
+    }
+
     if ((rracf->max_size && rctx->file.offset >= (ngx_int_t) rracf->max_size) ||
         (rracf->max_frames && rctx->nframes >= rracf->max_frames))
     {
-- 
2.43.0


From a9606831156e86ba0f181abf760a1f81c980961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 51/74] fix: leave no half of a tag and no closed descriptor
 behind a failed write of a recording

---
 .../ngx_rtmp_record_module.c                  | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 029e065..84d9a91 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -906,10 +906,12 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                             ngx_int_t inc_nframes)
 {
     u_char                      hdr[11], *p, *ph;
+    off_t                       start;
     uint32_t                    timestamp, tag_size;
     ngx_rtmp_record_app_conf_t *rracf;
 
     rracf = rctx->conf;
+    start = rctx->file.offset;
 
     ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "record: %V frame: mlen=%uD",
@@ -955,11 +957,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     if (ngx_write_file(&rctx->file, hdr, ph - hdr, rctx->file.offset)
         == NGX_ERROR)
     {
-        ngx_rtmp_record_notify_error(s, rctx);
-
-        ngx_close_file(rctx->file.fd);
-
-        return NGX_ERROR;
+        goto failed;
     }
 
     /* write tag body
@@ -977,7 +975,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                            - in->buf->pos, rctx->file.offset)
             == NGX_ERROR)
         {
-            return NGX_ERROR;
+            goto failed;
         }
     }
 
@@ -994,7 +992,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                        rctx->file.offset)
         == NGX_ERROR)
     {
-        return NGX_ERROR;
+        goto failed;
     }
 
     rctx->nframes += inc_nframes;
@@ -1011,6 +1009,22 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     }
 
     return NGX_OK;
+
+failed:
+
+    ngx_rtmp_record_notify_error(s, rctx);
+
+#if !(NGX_WIN32)
+    /* leave no half of a tag */
+    if (ftruncate(rctx->file.fd, start) == -1) {
+        ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                      "record: %V truncate failed", &rracf->id);
+    }
+#endif
+
+    ngx_rtmp_record_node_close(s, rctx);
+
+    return NGX_ERROR;
 }
 
 
-- 
2.43.0


From 140cdf41a1c22cece8ff9a320ec00db0dc3326d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 52/74] fix: keep the audio/video mask of a recording which is
 appended to

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 84d9a91..2c56a99 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -591,6 +591,12 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
         p[1] = buf[5];
         p[2] = buf[4];
 
+        /* what is recorded already is still there */
+        if (ngx_read_file(&rctx->file, buf, 1, 4) == 1) {
+            rctx->video = (buf[0] & 0x01) != 0;
+            rctx->audio = (buf[0] & 0x04) != 0;
+        }
+
 done:
         rctx->file.offset = file_size;
         rctx->time_shift = timestamp;
-- 
2.43.0


From d63b15242f231a451d18e5a861f9c591cac7bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 53/74] fix: leave nothing of an unusable file behind when a
 recording starts over in it

---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 2c56a99..b6baa20 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -545,6 +545,7 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
         }
 
         if (file_size < 4) {
+            file_size = 0;
             goto done;
         }
 
@@ -1173,6 +1174,14 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
         rctx->initialized = 1;
         rctx->epoch = h->timestamp - rctx->time_shift;
 
+#if !(NGX_WIN32)
+        /* no recording to go on with, nothing must be left of it */
+        if (rctx->file.offset == 0 && ftruncate(rctx->file.fd, 0) == -1) {
+            ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                          "record: %V truncate failed", &rracf->id);
+        }
+#endif
+
         if (rctx->file.offset == 0 &&
             ngx_rtmp_record_write_header(&rctx->file) != NGX_OK)
         {
-- 
2.43.0


From 288a72f1b435eaf07338dbb19f4c81cda55b4666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 54/74] fix: do not loop forever over video frames without a
 usable codec header

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c    |  5 +++++
 .../nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c  | 10 ++++++++++
 modules/nginx-rtmp-module/ngx_live_record.c            |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 35f1c6e..a7e0f9e 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2102,6 +2102,11 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     out.last = out.pos;
 
     nal_bytes = codec_ctx->avc_nal_bytes;
+    if (nal_bytes == 0) {
+        /* no usable codec header, no way to find the NAL units */
+        return NGX_OK;
+    }
+
     aud_sent = 0;
     sps_pps_sent = 0;
 
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 63b8e52..2c38c67 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -918,6 +918,11 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     out.last = out.pos;
 
     nal_bytes = ctx->avc_codec->avc_nal_bytes;
+    if (nal_bytes == 0) {
+        /* no usable codec header, no way to find the NAL units */
+        return NGX_OK;
+    }
+
     aud_sent = 0;
     sps_pps_sent = 0;
     ngx_int_t vps_copy = 0;
@@ -1247,6 +1252,11 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     out.last = out.pos;
 
     nal_bytes = ctx->avc_codec->avc_nal_bytes;
+    if (nal_bytes == 0) {
+        /* no usable codec header, no way to find the NAL units */
+        return NGX_OK;
+    }
+
     aud_sent = 0;
     sps_pps_sent = 0;
 
diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 3ff27e2..69038e8 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -959,6 +959,11 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     out.last = out.pos;
 
     nal_bytes = codec_ctx->avc_nal_bytes;
+    if (nal_bytes == 0) {
+        /* no usable codec header, no way to find the NAL units */
+        return NGX_OK;
+    }
+
     aud_sent = 0;
     sps_pps_sent = 0;
 
-- 
2.43.0


From 39b93e1f20336b53069094c736368d2b324768dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 55/74] fix: control record requests hit publishers which wait
 for their publish callback

---
 modules/nginx-rtmp-module/ngx_live_record.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 69038e8..ea987aa 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1182,7 +1182,8 @@ ngx_live_record_open(ngx_rtmp_session_t *s)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
 
-    if (ctx->open) {
+    /* the publisher can still be waiting for its publish callback */
+    if (ctx == NULL || ctx->open) {
         return NGX_CONF_OK;
     }
 
@@ -1205,7 +1206,7 @@ ngx_live_record_close(ngx_rtmp_session_t *s)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
 
-    if (ctx->open == 0) {
+    if (ctx == NULL || ctx->open == 0) {
         return NGX_CONF_OK;
     }
 
-- 
2.43.0


From 5ea9911715e7eb27e529198bd7d061f15eca35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 56/74] fix: stack overflow dumping long codec headers in debug
 builds

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 8621f5f..9d5e9cd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -978,7 +978,7 @@ ngx_rtmp_codec_dump_header(ngx_rtmp_session_t *s, const char *type,
     u_char hex[] = "0123456789abcdef";
 
     for (pp = buf, p = in->buf->pos;
-         p < in->buf->last && pp < buf + sizeof(buf) - 1;
+         p < in->buf->last && pp < buf + sizeof(buf) - 2;
          ++p)
     {
         *pp++ = hex[*p >> 4];
-- 
2.43.0


From ecf39f3c2b127c4b78b7087050a23fa474d8a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 57/74] fix: push a stream to its owner worker although a
 puller still holds it

---
 modules/nginx-rtmp-module/ngx_live_relay.c    | 21 +++++++++++++++++--
 modules/nginx-rtmp-module/ngx_live_relay.h    |  4 ++++
 .../nginx-rtmp-module/ngx_live_relay_inner.c  |  2 +-
 .../nginx-rtmp-module/ngx_live_relay_simple.c |  2 +-
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay.c b/modules/nginx-rtmp-module/ngx_live_relay.c
index 148c9ff..2a0ccbc 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay.c
@@ -201,13 +201,30 @@ ngx_live_relay_publish_local(ngx_rtmp_session_t *rs)
 }
 
 
+ngx_flag_t
+ngx_live_relay_has_publisher(ngx_live_stream_t *st, ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_core_ctx_t        *ctx;
+
+    for (ctx = st->publish_ctx; ctx; ctx = ctx->next) {
+        if (ctx->session != s
+            && (!ctx->session->relay || ctx->session->static_pull))
+        {
+            return 1;
+        }
+    }
+
+    return 0;
+}
+
+
 static ngx_int_t
 ngx_live_relay_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
     ngx_live_relay_ctx_t       *ctx;
 
     // second publish will not trigger push
-    if (s->live_stream->publish_ctx->next != NULL) {
+    if (ngx_live_relay_has_publisher(s->live_stream, s)) {
         goto next;
     }
 
@@ -289,7 +306,7 @@ ngx_live_relay_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         ngx_live_pull_close(s);
 
         // all publishers close, close push (play + relay)
-        if (s->live_stream->publish_ctx == NULL) {
+        if (!ngx_live_relay_has_publisher(s->live_stream, s)) {
             for (ctx = s->live_stream->play_ctx; ctx; ctx = ctx->next) {
                 if (ctx->session->relay) {
                     ctx->session->finalize_reason = NGX_LIVE_RELAY_CLOSE;
diff --git a/modules/nginx-rtmp-module/ngx_live_relay.h b/modules/nginx-rtmp-module/ngx_live_relay.h
index b52405b..316eaf2 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.h
+++ b/modules/nginx-rtmp-module/ngx_live_relay.h
@@ -83,6 +83,10 @@ ngx_int_t ngx_live_relay_play_local(ngx_rtmp_session_t *rs);
 
 ngx_int_t ngx_live_relay_publish_local(ngx_rtmp_session_t *rs);
 
+/* is there a publisher besides s whose stream is pushed? (not a puller) */
+ngx_flag_t ngx_live_relay_has_publisher(ngx_live_stream_t *st,
+        ngx_rtmp_session_t *s);
+
 
 typedef ngx_int_t (*ngx_live_pull_pt)(ngx_rtmp_session_t *s);
 typedef ngx_int_t (*ngx_live_push_pt)(ngx_rtmp_session_t *s);
diff --git a/modules/nginx-rtmp-module/ngx_live_relay_inner.c b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
index 235b3f1..2eb48ad 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_inner.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
@@ -347,7 +347,7 @@ ngx_live_relay_inner_push_close(ngx_rtmp_session_t *s)
     }
 
     // relay push and has publisher in stream
-    if (!ctx->giveup && s->live_stream->publish_ctx) {
+    if (!ctx->giveup && ngx_live_relay_has_publisher(s->live_stream, s)) {
         ngx_live_relay_inner_relay(s, 0);
     }
 
diff --git a/modules/nginx-rtmp-module/ngx_live_relay_simple.c b/modules/nginx-rtmp-module/ngx_live_relay_simple.c
index 43c0e0f..1e5fd75 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_simple.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_simple.c
@@ -306,7 +306,7 @@ ngx_live_relay_simple_push_close(ngx_rtmp_session_t *s)
     }
 
     // relay push and has publisher in stream
-    if (!ctx->giveup && s->live_stream->publish_ctx) {
+    if (!ctx->giveup && ngx_live_relay_has_publisher(s->live_stream, s)) {
         sctx = ngx_rtmp_get_module_ctx(s, ngx_live_relay_simple_module);
         relay = sctx->relay;
 
-- 
2.43.0


From ca249d5577161e318809cda43aa3a5231aa236eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 58/74] fix: pull again from the owner worker after the local
 publisher has left

---
 modules/nginx-rtmp-module/ngx_live_relay_inner.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_inner.c b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
index 2eb48ad..9c79ad6 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_inner.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
@@ -324,7 +324,10 @@ ngx_live_relay_inner_pull(ngx_rtmp_session_t *s)
             goto next;
         }
 
-        return NGX_OK;
+        // it is published here or pulled already
+        if (s->live_stream->publish_ctx) {
+            return NGX_OK;
+        }
     }
 
     if (ngx_live_relay_inner_relay(s, 1) == NGX_OK) {
-- 
2.43.0


From 6858fa9e8afea7bb305355ac628b73d2126b45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 59/74] fix: stop pulling from the owner worker when the stream
 is published here

---
 .../nginx-rtmp-module/ngx_live_relay_inner.c  | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay_inner.c b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
index 9c79ad6..64608ab 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_inner.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
@@ -280,6 +280,8 @@ static ngx_int_t
 ngx_live_relay_inner_push(ngx_rtmp_session_t *s)
 {
     ngx_live_relay_inner_app_conf_t      *riacf;
+    ngx_live_relay_ctx_t                 *ctx;
+    ngx_rtmp_core_ctx_t                  *cctx;
 
     riacf = ngx_rtmp_get_module_app_conf(s, ngx_live_relay_inner_module);
 
@@ -291,6 +293,20 @@ ngx_live_relay_inner_push(ngx_rtmp_session_t *s)
         goto next;
     }
 
+    // stream is published here now, don't pull it from its owner any more
+    for (cctx = s->live_stream->publish_ctx; cctx; cctx = cctx->next) {
+        if (!cctx->session->relay) {
+            continue;
+        }
+
+        ctx = ngx_rtmp_get_module_ctx(cctx->session, ngx_live_relay_module);
+        if (ctx && ctx->tag == &ngx_live_relay_inner_module) {
+            ctx->giveup = 1;
+            cctx->session->finalize_reason = NGX_LIVE_RELAY_CLOSE;
+            ngx_rtmp_finalize_session(cctx->session);
+        }
+    }
+
     if (ngx_live_relay_inner_relay(s, 0) == NGX_OK) {
         return NGX_OK;
     }
@@ -374,7 +390,9 @@ ngx_live_relay_inner_pull_close(ngx_rtmp_session_t *s)
     }
 
     // inner relay close
-    s->live_stream->pslot = -1;
+    if (!ctx->giveup) {
+        s->live_stream->pslot = -1;
+    }
 
 next:
     return next_pull_close(s);
-- 
2.43.0


From 96e42928a5eab60153080dc94182968d9f884eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 60/74] fix: relay pull accepted while another publisher is
 present must not time out

The timer which limits the attempt was left armed when a pull succeeded
while the stream already had a publisher: the pull was then finalized as
timed out although it was up, and reconnected as if it had failed.
---
 modules/nginx-rtmp-module/ngx_live_relay.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay.c b/modules/nginx-rtmp-module/ngx_live_relay.c
index 2a0ccbc..86a2d6d 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay.c
@@ -224,11 +224,9 @@ ngx_live_relay_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
     ngx_live_relay_ctx_t       *ctx;
 
     // second publish will not trigger push
-    if (ngx_live_relay_has_publisher(s->live_stream, s)) {
-        goto next;
-    }
-
-    if (ngx_live_push(s) != NGX_OK) {
+    if (!ngx_live_relay_has_publisher(s->live_stream, s)
+            && ngx_live_push(s) != NGX_OK)
+    {
         return NGX_ERROR;
     }
 
-- 
2.43.0


From 0dfeea2e74c00d2f32cddfd0b07a1f6d812bb57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 61/74] fix: a pull must not be kept for relay pushes alone

When the last player of a stream left while its local publisher was
being pushed, the pull stayed connected: the push was counted as a
player.
---
 modules/nginx-rtmp-module/ngx_live_relay.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay.c b/modules/nginx-rtmp-module/ngx_live_relay.c
index 86a2d6d..4b02e52 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay.c
@@ -320,9 +320,18 @@ ngx_live_relay_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         }
 
         // all players close, close pull (publish + relay)
-        if (s->live_stream->play_ctx == NULL) {
+        for (ctx = s->live_stream->play_ctx; ctx; ctx = ctx->next) {
+            if (!ctx->session->relay) { // has pure player, not relay push
+                break;
+            }
+        }
+
+        if (ctx == NULL) {
             for (ctx = s->live_stream->publish_ctx; ctx; ctx = ctx->next) {
-                if (ctx->session->relay) {
+                // static pull may be what is pushed
+                if (ctx->session->relay && (!ctx->session->static_pull
+                    || s->live_stream->play_ctx == NULL))
+                {
                     ctx->session->finalize_reason = NGX_LIVE_RELAY_CLOSE;
                     ngx_rtmp_finalize_session(ctx->session);
                 }
-- 
2.43.0


From 1c8d177dc2dde935bebb286ac6a235ac33b2741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 62/74] fix: keep the timestamp of a codec header which is
 still queued for a player

---
 .../nginx-rtmp-module/ngx_rtmp_live_module.c  | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 1810a52..6374551 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -649,6 +649,7 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_rtmp_live_ctx_t            *ctx, *pctx;
     ngx_rtmp_codec_ctx_t           *codec_ctx;
     ngx_rtmp_frame_t               *header, *coheader, *meta, *avframe, *dummy;
+    ngx_rtmp_frame_t               *abs_header, *abs_coheader;
     ngx_rtmp_core_srv_conf_t       *cscf;
     ngx_rtmp_live_app_conf_t       *lacf;
     ngx_rtmp_session_t             *ss;
@@ -723,6 +724,8 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     peers = 0;
     header = NULL;
     coheader = NULL;
+    abs_header = NULL;
+    abs_coheader = NULL;
     meta = NULL;
     dummy = NULL;
     meta_version = 0;
@@ -918,17 +921,31 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                                "live: abs %s header timestamp=%uD",
                                MSG_TYPE, lh.timestamp);
 
+                /* codec headers sent earlier may still be queued, send copies */
+
                 if (header) {
-                    header->hdr = lh;
-                    rc = ngx_rtmp_send_message(ss, header, 0);
+                    if (abs_header == NULL) {
+                        abs_header = ngx_rtmp_shared_alloc_frame(
+                                cscf->chunk_size, header->chain, 0);
+                        abs_header->hdr = lh;
+                        abs_header->av_header = header->av_header;
+                    }
+
+                    rc = ngx_rtmp_send_message(ss, abs_header, 0);
                     if (rc != NGX_OK) {
                         continue;
                     }
                 }
 
                 if (coheader) {
-                    coheader->hdr = clh;
-                    rc = ngx_rtmp_send_message(ss, coheader, 0);
+                    if (abs_coheader == NULL) {
+                        abs_coheader = ngx_rtmp_shared_alloc_frame(
+                                cscf->chunk_size, coheader->chain, 0);
+                        abs_coheader->hdr = clh;
+                        abs_coheader->av_header = coheader->av_header;
+                    }
+
+                    rc = ngx_rtmp_send_message(ss, abs_coheader, 0);
                     if (rc != NGX_OK) {
                         continue;
                     }
@@ -972,6 +989,14 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         ngx_rtmp_shared_free_frame(avframe);
     }
 
+    if (abs_header) {
+        ngx_rtmp_shared_free_frame(abs_header);
+    }
+
+    if (abs_coheader) {
+        ngx_rtmp_shared_free_frame(abs_coheader);
+    }
+
     if (dummy) {
         ngx_rtmp_shared_free_frame(dummy);
     }
-- 
2.43.0


From 8f4d97e359c6218b2753c1240824cf763fc3c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:28 +0000
Subject: [PATCH 63/74] fix: do not leave the close event of a freed http
 session posted

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 8c74cb0..190cc00 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -455,6 +455,15 @@ ngx_rtmp_finalize_fake_session(ngx_rtmp_session_t *s)
 
     s->destroyed = 1;
 
+    /*
+     * the session goes away now, do not leave it posted, neither from before
+     * nor by handlers of the disconnect event
+     */
+    s->finalized = 1;
+    if (s->close.posted) {
+        ngx_delete_posted_event(&s->close);
+    }
+
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "finalize fake session");
 
     ngx_rtmp_fire_event(s, NGX_RTMP_DISCONNECT, NULL, NULL);
-- 
2.43.0


From a4414060449cedbcb8c09abb1a24e415a3d374cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:25 +0000
Subject: [PATCH 64/74] fix: tell codec headers apart by id, a freed frame is
 reused

---
 modules/nginx-rtmp-module/ngx_rtmp.h          |  1 +
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 24 +++++++++++--------
 .../ngx_rtmp_shared_module.c                  |  4 ++++
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp.h b/modules/nginx-rtmp-module/ngx_rtmp.h
index 4a5a6c9..2f856aa 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp.h
@@ -190,6 +190,7 @@ struct ngx_rtmp_frame_s {
     ngx_flag_t              keyframe;
     ngx_flag_t              mandatory;
     ngx_uint_t              ref;
+    ngx_uint_t              id;     /* frames are reused, ids are not */
 
     ngx_rtmp_frame_t       *next;
     ngx_chain_t            *chain;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 8873eb3..48f3ce8 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -50,6 +50,10 @@ typedef struct {
     ngx_rtmp_frame_t           *latest_aac_header;
     ngx_rtmp_frame_t           *latest_avc_header;
 
+    /* only for player, codec headers sent last, which may be freed by now */
+    ngx_uint_t                  sent_aac_id;
+    ngx_uint_t                  sent_avc_id;
+
     ngx_uint_t                  meta_version;
 
     uint32_t                    first_timestamp;
@@ -234,11 +238,11 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
 
     if (frame->hdr.type == NGX_RTMP_MSG_AUDIO && frame->av_header) {
-        ctx->latest_aac_header = frame;
+        ctx->sent_aac_id = frame->id;
     }
 
     if (frame->hdr.type == NGX_RTMP_MSG_VIDEO && frame->av_header) {
-        ctx->latest_avc_header = frame;
+        ctx->sent_avc_id = frame->id;
     }
 
     if (timestamp != frame->hdr.timestamp) {
@@ -559,13 +563,13 @@ ngx_rtmp_gop_skip(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
             "skip to new postion [pos %z last %z] %z",
             sctx->gop_pos, sctx->gop_last, ssctx->gop_pos);
 
-    if (sctx->aac_header && sctx->aac_header != ssctx->latest_aac_header) {
+    if (sctx->aac_header && sctx->aac_header->id != ssctx->sent_aac_id) {
         if (ngx_rtmp_gop_link_frame(ss, sctx->aac_header) == NGX_AGAIN) {
             return NGX_AGAIN;
         }
     }
 
-    if (sctx->avc_header && sctx->avc_header != ssctx->latest_avc_header) {
+    if (sctx->avc_header && sctx->avc_header->id != ssctx->sent_avc_id) {
         if (ngx_rtmp_gop_link_frame(ss, sctx->avc_header) == NGX_AGAIN) {
             return NGX_AGAIN;
         }
@@ -687,9 +691,9 @@ ngx_rtmp_gop_clear_out(ngx_rtmp_session_t *ss)
         /* codec headers the player lost are sent again */
         if (frame->av_header) {
             if (frame->hdr.type == NGX_RTMP_MSG_AUDIO) {
-                ssctx->latest_aac_header = NULL;
+                ssctx->sent_aac_id = 0;
             } else {
-                ssctx->latest_avc_header = NULL;
+                ssctx->sent_avc_id = 0;
             }
         }
 
@@ -732,8 +736,8 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ssctx->id = sctx->id;
         ssctx->send_gop = 0;
         ssctx->gop_pos = 0;
-        ssctx->latest_aac_header = NULL;
-        ssctx->latest_avc_header = NULL;
+        ssctx->sent_aac_id = 0;
+        ssctx->sent_avc_id = 0;
     }
 
     if (ngx_rtmp_gop_send_gop(s, ss) == NGX_AGAIN) {
@@ -765,7 +769,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     if (chase) {
         if (sctx->latest_aac_header
-                && sctx->latest_aac_header != ssctx->latest_aac_header)
+                && sctx->latest_aac_header->id != ssctx->sent_aac_id)
         {
             if (ngx_rtmp_gop_link_frame(ss, sctx->latest_aac_header)
                     == NGX_AGAIN)
@@ -775,7 +779,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
 
         if (sctx->latest_avc_header
-                && sctx->latest_avc_header != ssctx->latest_avc_header)
+                && sctx->latest_avc_header->id != ssctx->sent_avc_id)
         {
             if (ngx_rtmp_gop_link_frame(ss, sctx->latest_avc_header)
                     == NGX_AGAIN)
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index cdbf5d0..f885db0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -26,6 +26,9 @@ typedef struct {
 } ngx_rtmp_shared_conf_t;
 
 
+static ngx_uint_t     ngx_rtmp_shared_frame_id;
+
+
 static ngx_command_t  ngx_rtmp_shared_commands[] = {
 
       ngx_null_command
@@ -230,6 +233,7 @@ ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *cl, ngx_flag_t mandatory)
     }
 
     frame->ref = 1;
+    frame->id = ++ngx_rtmp_shared_frame_id;
     frame->next = NULL;
 
     ngx_rtmp_shared_append_chain(frame, size, cl, mandatory);
-- 
2.43.0


From 091e49f9d5b8a10f7067ba845c5f995e918c12ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 65/74] fix: dynamic conf blocks may be absent or without
 servers

---
 modules/nginx-rtmp-module/ngx_rtmp_dynamic.c    | 5 ++++-
 modules/nginx-toolkit-module/ngx_http_dynamic.c | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
index fd92cad..12d7684 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
@@ -350,7 +350,7 @@ ngx_rtmp_dynamic_core_init_virtual_servers(ngx_conf_t *cf,
     }
 
     rdcscfp = rdcmcf->servers.elts;
-    rdcmcf->default_server = rdcscfp[0];
+    rdcmcf->default_server = rdcmcf->servers.nelts ? rdcscfp[0] : NULL;
 
     for (s = 0; s < rdcmcf->servers.nelts; ++s) {
 
@@ -936,6 +936,9 @@ ngx_rtmp_get_module_srv_dconf(ngx_rtmp_session_t *s, ngx_module_t *m)
     case NGX_ERROR:
         return NULL;
     case NGX_DECLINED:  /* virtual server not found */
+        if (rdcmcf->default_server == NULL) {
+            return NULL;
+        }
         return rdcmcf->default_server->srv_conf[m->ctx_index];
     default:
         return rdcscf->srv_conf[m->ctx_index];
diff --git a/modules/nginx-toolkit-module/ngx_http_dynamic.c b/modules/nginx-toolkit-module/ngx_http_dynamic.c
index 440e744..b3cc769 100644
--- a/modules/nginx-toolkit-module/ngx_http_dynamic.c
+++ b/modules/nginx-toolkit-module/ngx_http_dynamic.c
@@ -1051,7 +1051,7 @@ ngx_http_dynamic_core_init_virtual_servers(ngx_conf_t *cf,
     }
 
     hdcscfp = hdcmcf->servers.elts;
-    hdcmcf->default_server = hdcscfp[0];
+    hdcmcf->default_server = hdcmcf->servers.nelts ? hdcscfp[0] : NULL;
 
     for (s = 0; s < hdcmcf->servers.nelts; ++s) {
 
@@ -1621,7 +1621,7 @@ ngx_http_get_module_main_dconf(ngx_http_request_t *r, ngx_module_t *m)
     ngx_http_dynamic_conf_t                *hdcf;
 
     hdcf = ngx_get_dconf(&ngx_http_dynamic_module);
-    if (hdcf == NULL) {
+    if (hdcf == NULL || hdcf->main_conf == NULL) {
         return NULL;
     }
 
@@ -1645,6 +1645,9 @@ ngx_http_get_module_srv_dconf(ngx_http_request_t *r, ngx_module_t *m)
     case NGX_ERROR:
         return NULL;
     case NGX_DECLINED:  /* virtual server not found */
+        if (hdcmcf->default_server == NULL) {
+            return NULL;
+        }
         return hdcmcf->default_server->srv_conf[m->ctx_index];
     default:
         return hdcscf->srv_conf[m->ctx_index];
-- 
2.43.0


From 49cb89c8897bd758194ee001d205f9aff87c0bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:40 +0000
Subject: [PATCH 66/74] fix: remember the dynamic conf which was parsed, not
 another reading of it

---
 .../nginx-toolkit-module/ngx_dynamic_conf.c   | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_conf.c b/modules/nginx-toolkit-module/ngx_dynamic_conf.c
index fd8f15b..03ac1c9 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_conf.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_conf.c
@@ -7,6 +7,8 @@
 #include "ngx_toolkit_misc.h"
 #include "ngx_event_timer_module.h"
 
+#include <ngx_md5.h>
+
 
 static ngx_int_t ngx_dynamic_conf_process_init(ngx_cycle_t *cycle);
 
@@ -21,6 +23,9 @@ static char *ngx_dynamic_log(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);
 
 ngx_uint_t  ngx_core_max_module;
 
+/* of what has been read from the file which is being parsed */
+static ngx_md5_t  ngx_dynamic_conf_md5;
+
 static ngx_uint_t arg_number[] = {
     NGX_CONF_NOARGS,
     NGX_CONF_TAKE1,
@@ -409,6 +414,8 @@ ngx_dynamic_conf_read_token(ngx_conf_t *cf)
             b->pos = b->start + len;
             b->last = b->pos + n;
             start = b->start;
+
+            ngx_md5_update(&ngx_dynamic_conf_md5, b->pos, n);
         }
 
         ch = *b->pos++;
@@ -671,6 +678,7 @@ ngx_dynamic_conf_parse(ngx_conf_t *cf, unsigned init)
 static ngx_int_t
 ngx_dynamic_conf_load_conf(ngx_fd_t fd, ngx_dynamic_conf_conf_t *dccf)
 {
+    u_char                      md5[16], *p;
     ngx_dynamic_conf_ctx_t     *conf;
     ngx_dynamic_core_module_t  *module;
     ngx_pool_t                 *pool;
@@ -760,6 +768,8 @@ ngx_dynamic_conf_load_conf(ngx_fd_t fd, ngx_dynamic_conf_conf_t *dccf)
         }
     }
 
+    ngx_md5_init(&ngx_dynamic_conf_md5);
+
     if (ngx_dynamic_conf_parse(&cf, 1) != NGX_OK) {
         goto failed;
     }
@@ -794,6 +804,14 @@ ngx_dynamic_conf_load_conf(ngx_fd_t fd, ngx_dynamic_conf_conf_t *dccf)
     dccf->used = dccf->used ? 0 : 1;
     dccf->conf[dccf->used] = conf;
 
+    /* the file may have been edited in between, remember what was parsed */
+    ngx_md5_final(md5, &ngx_dynamic_conf_md5);
+
+    p = dccf->md5key;
+    for (i = 0; i < 16; ++i) {
+        p = ngx_sprintf(p, "%02xi", md5[i]);
+    }
+
     return NGX_OK;
 
 failed:
@@ -847,8 +865,6 @@ ngx_dynamic_conf_check_conf(void *data)
         goto done;
     }
 
-    ngx_memcpy(dccf->md5key, md5key, NGX_MD5KEY_LEN);
-
     ngx_log_error(NGX_LOG_INFO, dccf->log, 0,
             "dynamic conf load successd, md5key: \"%s\"", dccf->md5key);
 
@@ -864,7 +880,6 @@ static ngx_int_t ngx_dynamic_conf_process_init(ngx_cycle_t *cycle)
 {
     ngx_dynamic_conf_conf_t    *dccf;
     ngx_fd_t                    fd;
-    u_char                      md5key[NGX_MD5KEY_LEN];
 
     NGX_START_TIMING
 
@@ -889,17 +904,8 @@ static ngx_int_t ngx_dynamic_conf_process_init(ngx_cycle_t *cycle)
         return NGX_ERROR;
     }
 
-    /* calc md5key for dynamic conf file */
-    if (ngx_md5_file(fd, md5key) == NGX_ERROR) {
-        ngx_log_error(NGX_LOG_ERR, dccf->log, 0, "md5 file \"%V\" failed",
-                &dccf->file);
-        return NGX_ERROR;
-    }
-
     ngx_close_file(fd);
 
-    ngx_memcpy(dccf->md5key, md5key, NGX_MD5KEY_LEN);
-
     ngx_log_error(NGX_LOG_INFO, dccf->log, 0,
             "dynamic conf load successd, md5key: \"%s\"", dccf->md5key);
 
-- 
2.43.0


From 6ab83ea383153d232ba47723c2fd643b87b151a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:37 +0000
Subject: [PATCH 67/74] fix: a regular expression which matches may return more
 than 0

---
 modules/nginx-toolkit-module/ngx_http_dynamic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-toolkit-module/ngx_http_dynamic.c b/modules/nginx-toolkit-module/ngx_http_dynamic.c
index b3cc769..b85cb08 100644
--- a/modules/nginx-toolkit-module/ngx_http_dynamic.c
+++ b/modules/nginx-toolkit-module/ngx_http_dynamic.c
@@ -999,7 +999,7 @@ ngx_http_dynamic_core_find_location(ngx_http_request_t *r,
 
             n = ngx_regex_exec((*hdclcfp)->regex->regex, &r->uri, NULL, 0);
 
-            if (n == NGX_OK) {
+            if (n >= 0) {
                 *hdclcf = (*hdclcfp)->
                             loc_conf[ngx_http_dynamic_core_module.ctx_index];
 
-- 
2.43.0


From 2e9fe043e7f43417bdac7eefe7f5848b0c32aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:37 +0000
Subject: [PATCH 68/74] fix: look up the server id only in a dynamic rtmp block
 which is there

---
 modules/nginx-rtmp-module/ngx_rtmp_dynamic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
index 12d7684..dbf0c25 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_dynamic.c
@@ -979,7 +979,7 @@ ngx_rmtp_get_serverid_by_domain(ngx_str_t *serverid, ngx_str_t *domain)
     ngx_rtmp_core_srv_dconf_t              *rcsdcf;
 
     rdcf = ngx_get_dconf(&ngx_rtmp_dynamic_module);
-    if (rdcf == NULL || rdcf->main_conf) {
+    if (rdcf == NULL || rdcf->main_conf == NULL) {
         goto notfound;
     }
 
@@ -988,6 +988,7 @@ ngx_rmtp_get_serverid_by_domain(ngx_str_t *serverid, ngx_str_t *domain)
         goto notfound;
     }
 
+    rdcscf = NULL;
     ngx_rtmp_dynamic_core_find_virtual_server(domain, rdcmcf, &rdcscf);
     if (rdcscf && rdcscf->srv_conf) {
         rcsdcf = rdcscf->srv_conf[ngx_rtmp_core_module.ctx_index];
-- 
2.43.0


From a4c426b07383f2422f73cabb5408637cba85a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:37 +0000
Subject: [PATCH 69/74] fix: free the temporary pool of a dynamic conf which
 was loaded

---
 modules/nginx-toolkit-module/ngx_dynamic_conf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-toolkit-module/ngx_dynamic_conf.c b/modules/nginx-toolkit-module/ngx_dynamic_conf.c
index 03ac1c9..bbda8e6 100644
--- a/modules/nginx-toolkit-module/ngx_dynamic_conf.c
+++ b/modules/nginx-toolkit-module/ngx_dynamic_conf.c
@@ -794,6 +794,8 @@ ngx_dynamic_conf_load_conf(ngx_fd_t fd, ngx_dynamic_conf_conf_t *dccf)
         }
     }
 
+    ngx_destroy_pool(cf.temp_pool);
+
     /* load conf ok, switch conf to new conf */
     if (dccf->conf[dccf->used]) {
         pool = dccf->conf[dccf->used]->pool;
-- 
2.43.0


From c88d6b79d044dac69c4be45a9c3f08f182a2cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:07 +0000
Subject: [PATCH 70/74] fix: disconnect a client which does not answer a ping

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index e0572ad..1daca59 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -789,7 +789,10 @@ ngx_rtmp_send(ngx_event_t *wev)
         }
 
         s->out_bytes += n;
-        s->ping_reset = 1;
+        /* the ping request itself is no sign of life */
+        if (!s->ping_active) {
+            s->ping_reset = 1;
+        }
         ngx_rtmp_update_bandwidth(&ngx_rtmp_bw_out, n);
         if (s->live_stream) {
             ngx_rtmp_update_bandwidth(&s->live_stream->bw_out, n);
-- 
2.43.0


From 959efa6d4846f6610d03296d8d4400f119477dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:07 +0000
Subject: [PATCH 71/74] fix: leave exited workers out of a broadcast

---
 .../ngx_http_broadcast_module.c                       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index ffac1a5..d24c819 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -222,7 +222,7 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
     ngx_http_broadcast_conf_t  *hbcf;
     ngx_http_broadcast_ctx_t   *ctx;
     ngx_core_conf_t            *ccf;
-    ngx_int_t                   rc;
+    ngx_int_t                   pslot;
     ngx_buf_t                  *b;
     ngx_chain_t                 cl;
 
@@ -287,11 +287,14 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
 
     while (ctx->workerid < ccf->worker_processes) {
 
-        rc = ngx_http_broadcast_send_subrequest(r,
-                ngx_multiport_get_slot(ctx->workerid));
+        pslot = ngx_multiport_get_slot(ctx->workerid);
         ++ctx->workerid;
 
-        return rc;
+        if (pslot == -1) { /* exited, not respawned yet */
+            continue;
+        }
+
+        return ngx_http_broadcast_send_subrequest(r, pslot);
     }
 
     if (hbcf->suffix.len) {
-- 
2.43.0


From abc6f8a8553f97e973be93c612b1a468f1f48eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 72/74] fix: take the response to a broadcast which is dropped
 out of its buffers

---
 modules/nginx-multiport-module/ngx_http_broadcast_module.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index d24c819..cba354c 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -240,6 +240,13 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
             ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                     "broadcast subrequest send non 200 response: %i",
                     r->headers_out.status);
+
+            /* dropped, its buffers are used for the rest of the response */
+            for (; in; in = in->next) {
+                in->buf->pos = in->buf->last;
+                in->buf->file_pos = in->buf->file_last;
+            }
+
             return NGX_OK;
         }
 
-- 
2.43.0


From 3d1995da87d873892c5b068ca7e90b6641d7b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:55 +0000
Subject: [PATCH 73/74] fix: send the end of an inner proxied response once

---
 .../nginx-multiport-module/ngx_http_inner_proxy_module.c    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c b/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
index 2991b0e..78e269b 100644
--- a/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
+++ b/modules/nginx-multiport-module/ngx_http_inner_proxy_module.c
@@ -17,6 +17,7 @@ typedef struct {
 typedef struct {
     ngx_str_t                           port;
     ngx_flag_t                          last;
+    ngx_flag_t                          end;
 } ngx_http_inner_proxy_ctx_t;
 
 
@@ -162,6 +163,10 @@ ngx_http_inner_proxy_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
             return NGX_OK;
         }
 
+        if (ctx->end) { /* the end of the response was sent before */
+            return ngx_http_next_body_filter(r, NULL);
+        }
+
         b = ngx_pcalloc(r->pool, sizeof(ngx_buf_t));
 
         if (b == NULL) {
@@ -169,6 +174,7 @@ ngx_http_inner_proxy_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
         }
 
         b->last_buf = 1;
+        ctx->end = 1;
 
         l.buf = b;
         l.next = NULL;
-- 
2.43.0


From 40d472abf4c86d97f8cd90715f1394c173d434f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:54 +0000
Subject: [PATCH 74/74] fix: send the end of a broadcast response once

---
 modules/nginx-multiport-module/ngx_http_broadcast_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-multiport-module/ngx_http_broadcast_module.c b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
index cba354c..59457d8 100644
--- a/modules/nginx-multiport-module/ngx_http_broadcast_module.c
+++ b/modules/nginx-multiport-module/ngx_http_broadcast_module.c
@@ -21,6 +21,7 @@ typedef struct {
     ngx_int_t                           workerid;
     ngx_http_request_t                 *sr;
     ngx_flag_t                          has_rewrite;
+    ngx_flag_t                          end;
 } ngx_http_broadcast_ctx_t;
 
 
@@ -304,6 +305,11 @@ ngx_http_broadcast_body_filter(ngx_http_request_t *r, ngx_chain_t *in)
         return ngx_http_broadcast_send_subrequest(r, pslot);
     }
 
+    if (ctx->end) { /* the end of the response was sent before */
+        return ngx_http_next_body_filter(r, NULL);
+    }
+    ctx->end = 1;
+
     if (hbcf->suffix.len) {
         b = ngx_create_temp_buf(r->pool, hbcf->suffix.len);
 
-- 
2.43.0


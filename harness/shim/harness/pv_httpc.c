/* In-process driver of the HTTP client. Location directive pv_hc; arguments:
 * op=start|get|detach|abort|free|pool, id, u (url), m (method), v (version),
 * t (header timeout), h (name:value,name:value to send), w (names to fetch). */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_client.h"
#include "ngx_http_client.h"

#define PV_HC      16
#define PV_HC_MAX  (1 << 20)

typedef struct {
    ngx_http_request_t  *hcr;
    int                  used, hdr, ends, cleanups, after;
    int                  rc, over;
    ngx_uint_t           status, version;
    char                 names[512];
    char                 heads[8192];
    u_char               url[1024];
    u_char              *body;
    size_t               len;
} pv_hc_t;

static pv_hc_t  pv_hc_tab[PV_HC];

static void
pv_hc_cleanup(void *data)
{
    pv_hc_t  *h = data;

    h->cleanups++;
    h->hcr = NULL;
}

static void
pv_hc_recv(void *data, ngx_http_request_t *hcr)
{
    pv_hc_t      *h = data;
    ngx_chain_t  *cl = NULL;
    ngx_int_t     rc;
    ngx_str_t     k, *v;
    char         *p, *q;
    size_t        n;

    if (h->over) {
        h->after++;
        return;
    }
    if (!h->hdr) {
        h->hdr = 1;
        h->status = ngx_http_client_status_code(hcr);
        h->version = ngx_http_client_http_version(hcr);
        for (p = h->names; *p; p = *q ? q + 1 : q) {
            for (q = p; *q && *q != ','; q++) { /* void */ }
            k.data = (u_char *) p;
            k.len = q - p;
            v = ngx_http_client_header_in(hcr, &k);
            n = ngx_strlen(h->heads);
            if (v) {
                snprintf(h->heads + n, sizeof(h->heads) - n, "%.*s=%.*s\n", (int) k.len, k.data, (int) v->len, v->data);
            } else {
                snprintf(h->heads + n, sizeof(h->heads) - n, "%.*s\n", (int) k.len, k.data);
            }
        }
    }

    rc = ngx_http_client_read_body(hcr, &cl);
    if (rc == NGX_AGAIN || rc == NGX_DONE) {
        for ( ; cl; cl = cl->next) {
            n = cl->buf->last - cl->buf->pos;
            if (h->len + n <= PV_HC_MAX) {
                ngx_memcpy(h->body + h->len, cl->buf->pos, n);
            }
            h->len += n;
            cl->buf->pos = cl->buf->last;
        }
    }
    if (rc == NGX_AGAIN) {
        return;
    }
    h->rc = rc;
    h->ends++;
    h->over = 1;
    ngx_http_client_finalize_request(hcr, rc == NGX_DONE ? 0 : 1);
}

static int
pv_hc_arg(ngx_http_request_t *r, const char *name, char *out, size_t size)
{
    ngx_str_t   v;
    u_char     *d, *s;

    out[0] = 0;
    if (ngx_http_arg(r, (u_char *) name, ngx_strlen(name), &v) != NGX_OK || v.len >= size) {
        return 0;
    }
    d = (u_char *) out;
    s = v.data;
    ngx_unescape_uri(&d, &s, v.len, 0);
    *d = 0;
    return 1;
}

static ngx_int_t
pv_hc_handler(ngx_http_request_t *r)
{
    char                 op[16], x[32], hs[1024], *p, *q, *c;
    pv_hc_t             *h;
    ngx_str_t            url;
    ngx_keyval_t         kv[32];
    ngx_uint_t           n, i;
    ngx_http_cleanup_t  *cln;
    ngx_http_request_t  *hcr;
    ngx_buf_t           *b;
    ngx_chain_t          out, *st;
    ngx_int_t            rc;

    rc = ngx_http_discard_request_body(r);
    if (rc != NGX_OK) {
        return rc;
    }
    pv_hc_arg(r, "op", op, sizeof(op));
    pv_hc_arg(r, "id", x, sizeof(x));
    h = &pv_hc_tab[atoi(x) % PV_HC];

    b = ngx_create_temp_buf(r->pool, 16384 + (h->body ? PV_HC_MAX : 0));
    if (b == NULL) {
        return NGX_ERROR;
    }

    switch (op[0]) {
    case 's':
        if (h->body == NULL) {
            h->body = malloc(PV_HC_MAX);
        }
        p = (char *) h->body;
        ngx_memzero(h, sizeof(*h));
        h->body = (u_char *) p;
        h->used = 1;
        pv_hc_arg(r, "u", (char *) h->url, sizeof(h->url));
        pv_hc_arg(r, "w", h->names, sizeof(h->names));
        pv_hc_arg(r, "h", hs, sizeof(hs));
        url.data = h->url;
        url.len = ngx_strlen(h->url);
        n = 0;
        for (p = hs; *p && n < 31; p = *q ? q + 1 : q) {
            for (q = p; *q && *q != ','; q++) { /* void */ }
            for (c = p; c < q && *c != ':'; c++) { /* void */ }
            kv[n].key.data = (u_char *) p;
            kv[n].key.len = c - p;
            kv[n].value.data = (u_char *) c + 1;
            kv[n].value.len = c < q ? q - c - 1 : 0;
            n++;
        }
        ngx_memzero(&kv[n], sizeof(kv[n]));
        pv_hc_arg(r, "m", x, sizeof(x));
        hcr = ngx_http_client_create(ngx_cycle->log, atoi(x), &url, kv, NULL, h);
        if (hcr == NULL) {
            b->last = ngx_sprintf(b->last, "failed\n");
            break;
        }
        ngx_http_client_set_read_handler(hcr, pv_hc_recv);
        cln = ngx_http_client_cleanup_add(hcr, 0);
        cln->handler = pv_hc_cleanup;
        cln->data = h;
        h->hcr = hcr;
        if (pv_hc_arg(r, "t", x, sizeof(x))) {
            ngx_http_client_setopt(hcr, NGX_HTTP_CLIENT_OPT_HEADER_TIMEOUT, atoi(x));
        }
        if (pv_hc_arg(r, "c", x, sizeof(x))) {
            ngx_http_client_setopt(hcr, NGX_HTTP_CLIENT_OPT_CONNECT_TIMEOUT, atoi(x));
        }
        if (pv_hc_arg(r, "v", x, sizeof(x))) {
            ngx_http_client_set_version(hcr, atoi(x));
        }
        ngx_http_client_send(hcr);
        b->last = ngx_sprintf(b->last, "ok\n");
        break;
    case 'd':
        if (h->hcr && !h->over) {
            h->over = 1;
            ngx_http_client_detach(h->hcr);
            h->hcr = NULL;
        }
        break;
    case 'a':
        if (h->hcr && !h->over) {
            h->over = 1;
            ngx_http_client_finalize_request(h->hcr, 1);
        }
        break;
    case 'p':
        st = ngx_client_state(r, 0);
        b->last = ngx_cpymem(b->last, st->buf->pos, st->buf->last - st->buf->pos);
        break;
    default:
        b->last = ngx_sprintf(b->last, "hdr=%d ends=%d cleanups=%d after=%d rc=%d status=%ui version=%ui len=%uz\n%s\n",
                              h->hdr, h->ends, h->cleanups, h->after, h->rc, h->status, h->version, h->len, h->heads);
        i = h->len < PV_HC_MAX ? h->len : PV_HC_MAX;
        b->last = ngx_cpymem(b->last, h->body ? h->body : (u_char *) "", h->body ? i : 0);
    }
    if (b->last == b->pos) {
        *b->last++ = '\n';
    }
    b->last_buf = 1;
    out.buf = b;
    out.next = NULL;
    r->headers_out.status = NGX_HTTP_OK;
    r->headers_out.content_length_n = b->last - b->pos;
    rc = ngx_http_send_header(r);
    if (rc == NGX_ERROR || rc > NGX_OK) {
        return rc;
    }
    return ngx_http_output_filter(r, &out);
}

char *
pv_hc(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    ngx_http_core_loc_conf_t  *clcf;

    clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);
    clcf->handler = pv_hc_handler;
    return NGX_CONF_OK;
}

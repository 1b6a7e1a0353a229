/* A location which tells which worker serves a request, how often it was
 * served there and what arrived, and one which sends a request to a worker. */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_multiport.h"

ngx_int_t ngx_http_inner_proxy_request(ngx_http_request_t *r, ngx_int_t pslot);

static ngx_uint_t served;

static u_char *quote(u_char *p, u_char *e, ngx_str_t *s)
{
    size_t i;

    *p++ = '"';
    for (i = 0; i < s->len && p + 8 < e; i++) {
        p = ngx_slprintf(p, e, "%02xd", s->data[i]);
    }
    *p++ = '"';
    return p;
}

static void who(ngx_http_request_t *r)
{
    ngx_buf_t *b, *in;
    ngx_chain_t cl, *l;
    ngx_list_part_t *part;
    ngx_table_elt_t *h;
    ngx_uint_t i;
    ngx_str_t body, v;
    size_t n = 0, size, pad = 0;
    u_char *p, *e;
    ngx_int_t rc;

    for (l = r->request_body ? r->request_body->bufs : NULL; l; l = l->next) {
        n += ngx_buf_size(l->buf);
    }
    body.data = ngx_pnalloc(r->pool, n + 1);
    body.len = 0;
    for (l = r->request_body ? r->request_body->bufs : NULL; l; l = l->next) {
        in = l->buf;
        if (ngx_buf_in_memory(in)) {
            ngx_memcpy(body.data + body.len, in->pos, in->last - in->pos);
            body.len += in->last - in->pos;
        } else if (in->in_file) {
            body.len += ngx_read_file(in->file, body.data + body.len, in->file_last - in->file_pos, in->file_pos);
        }
    }
    r->headers_out.status = NGX_HTTP_OK;
    if (ngx_http_arg(r, (u_char *) "status", 6, &v) == NGX_OK) {
        r->headers_out.status = ngx_atoi(v.data, v.len);
    }
    if (ngx_http_arg(r, (u_char *) "pad", 3, &v) == NGX_OK) {
        pad = ngx_atoi(v.data, v.len);
    }
    size = 8192 + 2 * body.len + 2 * (size_t) (r->header_in->last - r->header_in->start) + pad + 2 * r->uri.len + 2 * r->args.len;
    if (ngx_http_arg(r, (u_char *) "peek", 4, &v) != NGX_OK) {
        served++;
    }
    b = ngx_create_temp_buf(r->pool, size);
    p = b->last;
    e = b->end;
    if (ngx_http_arg(r, (u_char *) "lead", 4, &v) == NGX_OK) {
        *p++ = ',';
    }
    p = ngx_slprintf(p, e, "{\"pid\":%P,\"slot\":%i,\"worker\":%ui,\"served\":%ui,\"method\":\"%V\",\"uri\":", ngx_pid,
                     ngx_process_slot, ngx_worker, served, &r->method_name);
    p = quote(p, e, &r->uri);
    p = ngx_slprintf(p, e, ",\"args\":");
    p = quote(p, e, &r->args);
    p = ngx_slprintf(p, e, ",\"headers\":[[\"\",\"\"]");
    part = &r->headers_in.headers.part;
    h = part->elts;
    for (i = 0; ; i++) {
        if (i >= part->nelts) {
            if (part->next == NULL) break;
            part = part->next;
            h = part->elts;
            i = 0;
        }
        *p++ = ',';
        *p++ = '[';
        p = quote(p, e, &h[i].key);
        *p++ = ',';
        p = quote(p, e, &h[i].value);
        *p++ = ']';
    }
    p = ngx_slprintf(p, e, "],\"body\":");
    p = quote(p, e, &body);
    p = ngx_slprintf(p, e, ",\"pad\":\"");
    ngx_memset(p, 'p', pad);
    p += pad;
    b->last = ngx_slprintf(p, e, "\"},\n");
    if (r->headers_out.status == NGX_HTTP_NO_CONTENT || r->headers_out.status == NGX_HTTP_NOT_MODIFIED) {
        r->header_only = 1;
    } else if (ngx_http_arg(r, (u_char *) "chunked", 7, &v) != NGX_OK) {
        r->headers_out.content_length_n = b->last - b->pos;
    }
    h = ngx_list_push(&r->headers_out.headers);
    h->hash = 1;
#if (nginx_version >= 1023000)
    h->next = NULL;
#endif
    ngx_str_set(&h->key, "X-Worker");
    h->value.data = ngx_pnalloc(r->pool, 64);
    h->value.len = ngx_sprintf(h->value.data, "%P %ui", ngx_pid, served) - h->value.data;
    rc = ngx_http_send_header(r);
    if (rc == NGX_ERROR || rc > NGX_OK || r->header_only) {
        ngx_http_finalize_request(r, rc);
        return;
    }
    b->last_buf = r == r->main;
    b->last_in_chain = 1;
    cl.buf = b;
    cl.next = NULL;
    ngx_http_finalize_request(r, ngx_http_output_filter(r, &cl));
}

static ngx_int_t who_handler(ngx_http_request_t *r)
{
    ngx_int_t rc = ngx_http_read_client_request_body(r, who);

    return rc >= NGX_HTTP_SPECIAL_RESPONSE ? rc : NGX_DONE;
}

static ngx_uint_t relayed(ngx_http_request_t *r)
{
    ngx_list_part_t *part = &r->headers_in.headers.part;
    ngx_table_elt_t *h = part->elts;
    ngx_uint_t i;

    for (i = 0; ; i++) {
        if (i >= part->nelts) {
            if (part->next == NULL) return 0;
            part = part->next;
            h = part->elts;
            i = 0;
        }
        if (h[i].key.len == 10 && ngx_strncasecmp(h[i].key.data, (u_char *) "Pv-Relayed", 10) == 0) return 1;
    }
}

static void to(ngx_http_request_t *r)
{
    ngx_str_t v;
    ngx_int_t rc = NGX_ERROR;

    if (relayed(r)) {
        rc = NGX_DECLINED;
    } else if (ngx_http_arg(r, (u_char *) "to", 2, &v) == NGX_OK) {
        rc = ngx_http_inner_proxy_request(r, ngx_multiport_get_slot(ngx_atoi(v.data, v.len)));
    }
    if (rc == NGX_DECLINED) {
        who(r);
        return;
    }
    ngx_http_finalize_request(r, rc);
}

static ngx_int_t to_handler(ngx_http_request_t *r)
{
    ngx_int_t rc = ngx_http_read_client_request_body(r, to);

    return rc >= NGX_HTTP_SPECIAL_RESPONSE ? rc : NGX_DONE;
}

static char *pv_who(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    ngx_http_core_loc_conf_t *clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);
    clcf->handler = cmd->name.len == 6 ? who_handler : to_handler;
    return NGX_CONF_OK;
}

static ngx_command_t commands[] = {
    { ngx_string("pv_who"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, pv_who, 0, 0, NULL },
    { ngx_string("pv_to"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, pv_who, 0, 0, NULL },
    ngx_null_command
};
static ngx_http_module_t ctx = { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL };

ngx_module_t pv_who_module = {
    NGX_MODULE_V1, &ctx, commands, NGX_HTTP_MODULE, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NGX_MODULE_V1_PADDING
};

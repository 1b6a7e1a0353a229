/* In-process harness: exposes the counters of the pooled objects of the
 * code under test. Location directive:  pv_state; */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_rbuf.h"
#include "ngx_poold.h"
#include "ngx_timerd.h"
#include "ngx_rtmp.h"
#include "ngx_live.h"
#include "ngx_client.h"
#include "ngx_stream_zone_module.h"

extern ngx_module_t pv_harness_module;

static ngx_int_t
pv_state_handler(ngx_http_request_t *r)
{
    ngx_chain_t   *parts[8], *cl, *out, **ll;
    ngx_uint_t     i, n;
    off_t          len;
    ngx_int_t      rc;

    rc = ngx_http_discard_request_body(r);
    if (rc != NGX_OK) {
        return rc;
    }
    n = 0;
    parts[n++] = ngx_live_sys_state(r);
    parts[n++] = ngx_rtmp_shared_state(r);
    parts[n++] = ngx_rbuf_state(r, 0);
    parts[n++] = ngx_poold_state(r, 0);
    parts[n++] = ngx_timerd_state(r, 0);
    parts[n++] = ngx_stream_zone_state(r, 0);

    out = NULL;
    ll = &out;
    len = 0;
    for (i = 0; i < n; i++) {
        *ll = parts[i];
        while (*ll) {
            len += ngx_buf_size((*ll)->buf);
            ll = &(*ll)->next;
        }
    }
    for (cl = out; cl && cl->next; cl = cl->next) { /* last */ }
    if (cl == NULL) {
        return NGX_HTTP_INTERNAL_SERVER_ERROR;
    }
    cl->buf->last_buf = 1;
    r->headers_out.status = NGX_HTTP_OK;
    r->headers_out.content_length_n = len;
    r->keepalive = 0;
    rc = ngx_http_send_header(r);
    if (rc == NGX_ERROR || rc > NGX_OK) {
        return rc;
    }
    return ngx_http_output_filter(r, out);
}

static char *
pv_state(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    ngx_http_core_loc_conf_t *clcf;

    clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);
    clcf->handler = pv_state_handler;
    return NGX_CONF_OK;
}

char *pv_unit(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);
char *pv_hc(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);

static ngx_command_t pv_commands[] = {
    { ngx_string("pv_state"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, pv_state, 0, 0, NULL },
    { ngx_string("pv_unit"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, pv_unit, 0, 0, NULL },
    { ngx_string("pv_hc"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, pv_hc, 0, 0, NULL },
    ngx_null_command
};

static ngx_http_module_t pv_ctx = { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL };

ngx_module_t pv_harness_module = {
    NGX_MODULE_V1, &pv_ctx, pv_commands, NGX_HTTP_MODULE,
    NULL, NULL, NULL, NULL, NULL, NULL, NULL, NGX_MODULE_V1_PADDING
};

/* Directives of the dynamic configuration and a location which shows the
 * values a request sees. */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_dynamic_conf.h"
#include "ngx_http_dynamic.h"

typedef struct {
    ngx_uint_t  i;
    ngx_str_t   s;
} pv_dyn_t;

extern ngx_module_t pv_dyn_core_module;
extern ngx_module_t pv_dyn_http_module;

static void *create(ngx_conf_t *cf)
{
    pv_dyn_t *c = ngx_pcalloc(cf->pool, sizeof(pv_dyn_t));
    if (c) c->i = NGX_CONF_UNSET_UINT;
    return c;
}

static char *init(ngx_conf_t *cf, void *conf)
{
    pv_dyn_t *c = conf;
    ngx_conf_init_uint_value(c->i, 1000);
    return c->i == 666 ? NGX_CONF_ERROR : NGX_CONF_OK;
}

static char *set_s(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    return ngx_conf_set_str_slot(cf, cmd, conf);
}

#define S offsetof(pv_dyn_t, s)

static ngx_command_t core_dcommands[] = {
    { ngx_string("pv_i"), NGX_MAIN_CONF|NGX_CONF_TAKE1, ngx_conf_set_num_slot, 0, offsetof(pv_dyn_t, i), NULL },
    { ngx_string("pv_s"), NGX_MAIN_CONF|NGX_CONF_TAKE1, set_s, 0, S, NULL },
    ngx_null_command
};
static ngx_command_t http_dcommands[] = {
    { ngx_string("pv_m"), NGX_HTTP_MAIN_CONF|NGX_CONF_TAKE1, set_s, 0, S, NULL },
    { ngx_string("pv_v"), NGX_HTTP_SRV_CONF|NGX_CONF_TAKE1, set_s, 0, S, NULL },
    { ngx_string("pv_l"), NGX_HTTP_LOC_CONF|NGX_CONF_TAKE1, set_s, 0, S, NULL },
    ngx_null_command
};

static ngx_core_module_t core_ctx = { ngx_string("pv_dyn_core"), NULL, NULL };
static ngx_dynamic_core_module_t core_dctx = { ngx_string("pv_dyn_core"), create, init };
static ngx_http_dynamic_module_t http_dctx = { create, init, create, init, create, init };

static u_char *show(u_char *p, u_char *e, char *n, pv_dyn_t *c)
{
    if (c == NULL) return ngx_slprintf(p, e, ",\"%s\":null", n);
    return ngx_slprintf(p, e, ",\"%s\":\"%V\"", n, &c->s);
}

static ngx_int_t handler(ngx_http_request_t *r)
{
    ngx_buf_t *b = ngx_create_temp_buf(r->pool, 4096);
    ngx_chain_t cl;
    u_char *p = b->last, *e = b->end;
    pv_dyn_t *c = ngx_get_dconf(&pv_dyn_core_module);

    p = ngx_slprintf(p, e, "{\"pid\":%P,\"i\":%ui", ngx_pid, c ? c->i : 0);
    p = show(p, e, "s", c);
    p = show(p, e, "m", ngx_http_get_module_main_dconf(r, &pv_dyn_http_module));
    p = show(p, e, "v", ngx_http_get_module_srv_dconf(r, &pv_dyn_http_module));
    p = show(p, e, "l", ngx_http_get_module_loc_dconf(r, &pv_dyn_http_module));
    b->last = ngx_slprintf(p, e, "}\n");
    r->headers_out.status = NGX_HTTP_OK;
    r->headers_out.content_length_n = b->last - b->pos;
    ngx_http_send_header(r);
    b->last_buf = 1;
    cl.buf = b;
    cl.next = NULL;
    return ngx_http_output_filter(r, &cl);
}

static char *pv_dyn(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    ngx_http_core_loc_conf_t *clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);
    clcf->handler = handler;
    return NGX_CONF_OK;
}

static ngx_command_t http_commands[] = {
    { ngx_string("pv_dyn"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, pv_dyn, 0, 0, NULL },
    ngx_null_command
};
static ngx_http_module_t http_ctx = { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL };

ngx_module_t pv_dyn_core_module = {
    NGX_MODULE_V1, &core_ctx, NULL, NGX_CORE_MODULE, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
    (uintptr_t) &core_dctx, (uintptr_t) core_dcommands, NGX_MODULE_V1_DYNAMIC_PADDING
};
ngx_module_t pv_dyn_http_module = {
    NGX_MODULE_V1, &http_ctx, http_commands, NGX_HTTP_MODULE, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
    (uintptr_t) &http_dctx, (uintptr_t) http_dcommands, NGX_MODULE_V1_DYNAMIC_PADDING
};

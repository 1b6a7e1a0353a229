/* A dynamic module which runs pv_demo() in the worker and writes its verdict to the file named by env var-like define. */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_event.h>
#include <ngx_http.h>

static const char *pv_demo(ngx_cycle_t *cycle);

static void
pv_demo_event(ngx_event_t *ev)
{
    const char  *s = pv_demo((ngx_cycle_t *) ngx_cycle);
    FILE        *f = fopen(RESULT, "w");

    fprintf(f, "%s\n", s ? s : "ok");
    fclose(f);
}

static ngx_event_t       pv_ev;
static ngx_connection_t  pv_conn;

static ngx_int_t
pv_demo_process(ngx_cycle_t *cycle)
{
    pv_conn.fd = -1;
    pv_ev.data = &pv_conn;
    pv_ev.log = cycle->log;
    pv_ev.handler = pv_demo_event;
    ngx_add_timer(&pv_ev, 10);
    return NGX_OK;
}

static ngx_http_module_t  pv_demo_ctx;
ngx_module_t  pv_demo_module = {
    NGX_MODULE_V1, &pv_demo_ctx, NULL, NGX_HTTP_MODULE, NULL, NULL, pv_demo_process, NULL, NULL, NULL, NULL, NGX_MODULE_V1_PADDING
};
ngx_module_t  *ngx_modules[] = { &pv_demo_module, NULL };
char  *ngx_module_names[] = { "pv_demo_module", NULL };
char  *ngx_module_order[] = { NULL };

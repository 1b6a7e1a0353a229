/* In-process interpreter of operation scripts on the toolkit containers and
 * pools. Location directive pv_unit; the request body is a script, one
 * operation per line; the answer has one line per operation. */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_event.h>
#include <ngx_http.h>
#include "ngx_map.h"
#include "ngx_rbuf.h"
#include "ngx_poold.h"
#include "ngx_timerd.h"
#include "ngx_event_timer_module.h"
#include "ngx_stream_zone_module.h"

extern ngx_module_t  ngx_stream_zone_module;

#define PV_MAX 64

static u_char  *pv_out, *pv_end;

static void
pv_say(const char *fmt, ...)
{
    va_list  args;

    va_start(args, fmt);
    pv_out = ngx_vslprintf(pv_out, pv_end, fmt, args);
    va_end(args);
}

/* ---------------------------------------------------------------- ngx_map */

static ngx_map_t       pv_map;
static ngx_map_node_t  pv_node[PV_MAX];
static intptr_t        pv_key[PV_MAX];
static ngx_str_t       pv_skey[PV_MAX];
static int             pv_nkey;

static ngx_rbtree_key_t
pv_weak_hash(intptr_t key)
{
    return (ngx_rbtree_key_t) ((uintptr_t) key % 3);
}

static void
pv_map_dump(void)
{
    ngx_map_node_t  *n;
    ngx_map_t       *m = &pv_map;
    int              i, c;

    pv_say("E%d F", ngx_map_empty(m) ? 1 : 0);
    for (c = 0, n = ngx_map_begin(m); n && c < 200; n = ngx_map_next(n), c++) {
        pv_say(" %d", (int) (n - pv_node));
    }
    pv_say(" B");
    for (c = 0, n = ngx_map_rbegin(m); n && c < 200; n = ngx_map_prev(n), c++) {
        pv_say(" %d", (int) (n - pv_node));
    }
    pv_say(" f");
    for (i = 0; i < pv_nkey; i++) {
        n = ngx_map_find(m, pv_key[i]);
        pv_say(" %d", n ? (int) (n - pv_node) : -1);
    }
}

static void
pv_map_op(char **a, int n)
{
    int              i;
    ngx_map_node_t  *nd;

    switch (a[1][0]) {
    case 'i':   /* m i type key... */
        ngx_memzero(pv_node, sizeof(pv_node));
        pv_nkey = n - 3;
        for (i = 0; i < pv_nkey; i++) {
            pv_skey[i].data = (u_char *) a[3 + i];
            pv_skey[i].len = ngx_strlen(a[3 + i]);
            if (a[2][0] == 's') {
                if (pv_skey[i].len == 1 && pv_skey[i].data[0] == '_') {
                    pv_skey[i].len = 0;
                }
                pv_key[i] = (intptr_t) &pv_skey[i];
            } else {
                pv_key[i] = (intptr_t) strtoull(a[3 + i], NULL, 10);
                if (a[3 + i][0] == '-') {
                    pv_key[i] = (intptr_t) strtoll(a[3 + i], NULL, 10);
                }
            }
        }
        switch (a[2][0]) {
        case 's': ngx_map_init(&pv_map, ngx_map_hash_str, ngx_cmp_str); break;
        case 'u': ngx_map_init(&pv_map, ngx_map_hash_uint, ngx_cmp_uint); break;
        case 'i': ngx_map_init(&pv_map, ngx_map_hash_int, ngx_cmp_int); break;
        default: ngx_map_init(&pv_map, pv_weak_hash, ngx_cmp_uint); break;
        }
        break;
    case 'p':   /* m p node key covered */
        nd = &pv_node[atoi(a[2])];
        nd->raw_key = pv_key[atoi(a[3])];
        ngx_map_insert(&pv_map, nd, atoi(a[4]));
        break;
    case 'd':
        ngx_map_delete(&pv_map, pv_key[atoi(a[2])]);
        break;
    }
    pv_map_dump();
}

/* --------------------------------------------------------------- ngx_rbuf */

typedef struct {
    ngx_chain_t  *cl;
    size_t        size;
    int           alloc;
    u_char        pat;
} pv_slot_t;

static pv_slot_t  pv_slot[PV_MAX];
static u_char     pv_pat;

static void
pv_rbuf_op(char **a)
{
    pv_slot_t    *s, *o;
    ngx_buf_t    *b;
    int           i;
    size_t        k;
    const char   *err = "ok";

    s = &pv_slot[atoi(a[2])];

    switch (a[1][0]) {
    case 'g':   /* r g slot size alloc */
        s->size = (size_t) atol(a[3]);
        s->alloc = atoi(a[4]);
        s->cl = ngx_get_chainbuf(s->size, s->alloc);
        if (s->cl == NULL) {
            err = "null";
            break;
        }
        b = s->cl->buf;
        if (s->cl->next) {
            err = "next";
        }
        if (b->last_buf || b->flush || b->last_in_chain || b->in_file || b->sync || b->file || b->shadow) {
            err = "flags";
        }
        for (i = 0; i < PV_MAX; i++) {
            o = &pv_slot[i];
            if (o == s || o->cl == NULL) {
                continue;
            }
            if (o->cl == s->cl || o->cl->buf == b) {
                err = "chain in use";
            }
            if (o->alloc && s->alloc && b->start < o->cl->buf->start + o->size && o->cl->buf->start < b->start + s->size) {
                err = "buffer in use";
            }
        }
        if (s->alloc) {
            if (b->start == NULL || b->pos != b->start || b->last != b->start || b->end != b->start + s->size) {
                err = "capacity";
            } else {
                s->pat = ++pv_pat;
                ngx_memset(b->start, s->pat, s->size);
                b->last = b->pos + s->size / 2;
                b->pos += s->size / 4;
            }
        } else if (b->start || b->pos || b->last || b->end) {
            err = "pointers";
        }
        b->flush = b->last_buf = b->last_in_chain = 1;
        for (i = 0; i < PV_MAX; i++) {  /* chained to another one, as users do */
            if (pv_slot[i].cl && &pv_slot[i] != s) {
                s->cl->next = pv_slot[i].cl;
            }
        }
        break;
    case 'p':   /* r p slot */
        if (s->cl && s->alloc) {
            for (k = 0; k < s->size; k++) {
                if (s->cl->buf->start[k] != s->pat) {
                    err = "overwritten";
                }
            }
        }
        ngx_put_chainbuf(s->cl);
        for (i = 0; i < PV_MAX; i++) {
            if (pv_slot[i].cl && pv_slot[i].cl->next == s->cl) {
                pv_slot[i].cl->next = NULL;
            }
        }
        s->cl = NULL;
        break;
    case 't': { /* r t slot: given back twice */
        ngx_chain_t  *cl = s->cl;

        ngx_put_chainbuf(cl);
        ngx_put_chainbuf(cl);
        for (i = 0; i < PV_MAX; i++) {
            if (pv_slot[i].cl && pv_slot[i].cl->next == s->cl) {
                pv_slot[i].cl->next = NULL;
            }
        }
        s->cl = NULL;
        break;
    }
    }
    pv_say("%s", err);
}

/* -------------------------------------------------------------- ngx_poold */

static ngx_pool_t  *pv_pool[PV_MAX];
static u_char      *pv_mem[PV_MAX];

static void
pv_poold_op(char **a)
{
    int           i, j, k;
    ngx_pool_t   *p;
    const char   *err = "ok";

    i = atoi(a[2]);
    switch (a[1][0]) {
    case 'c':   /* p c slot */
        p = NGX_CREATE_POOL(1024, ngx_cycle->log);
        if (p == NULL) {
            err = "null";
            break;
        }
        for (j = 0; j < PV_MAX; j++) {
            if (pv_pool[j] == p) {
                err = "pool in use";
            }
        }
        pv_pool[i] = p;
        pv_mem[i] = ngx_palloc(p, 256);
        ngx_memset(pv_mem[i], i + 1, 256);
        break;
    case 'd':   /* p d slot [twice] */
        for (k = 0; k < 256; k++) {
            if (pv_mem[i][k] != i + 1) {
                err = "overwritten";
            }
        }
        p = pv_pool[i];
        pv_pool[i] = NULL;
        NGX_DESTROY_POOL(p);
        if (a[3]) {
            NGX_DESTROY_POOL(p);
        }
        break;
    }
    pv_say("%s", err);
}

/* ------------------------------------------------- ngx_timerd, event timer */

typedef struct {
    ngx_uint_t   fp;
    int          id;
    char         act;       /* what the handler does */
    int          arg, arg2;
    ngx_event_t  ev;
} pv_timer_t;

static pv_timer_t  pv_timer[PV_MAX];
static u_char     *pv_fired;
static u_char      pv_fired_buf[4096];

static void
pv_timer_arm(int i, int t)
{
    NGX_ADD_TIMER(&pv_timer[i].ev, (ngx_msec_t) t, offsetof(pv_timer_t, fp));
}

static void
pv_timer_handler(ngx_event_t *ev)
{
    pv_timer_t  *t = ev->data;
    char         act = t->act;

    if (pv_fired + 32 < pv_fired_buf + sizeof(pv_fired_buf)) {
        pv_fired = ngx_sprintf(pv_fired, " %d%s", t->id, ev->timedout && !ev->timer_set ? "" : "!");
    }
    ev->timedout = 0;
    t->act = 'n';
    switch (act) {
    case 'r':
        pv_timer_arm(t->id, t->arg);
        break;
    case 'a':
        pv_timer_arm(t->arg2, t->arg);
        break;
    case 'q':   /* armed again and deleted at once */
        pv_timer_arm(t->arg2, t->arg);
        /* fall through */
    case 'd':
        NGX_DEL_TIMER(&pv_timer[t->arg2].ev, pv_timer[t->arg2].fp);
        break;
    }
}

typedef struct {
    int   val, id, del, armed;
} pv_et_t;

static pv_et_t  pv_et[PV_MAX];

static void
pv_et_handler(void *data)
{
    pv_et_t  *e = data;
    int       d = e->del;

    if (pv_fired + 32 < pv_fired_buf + sizeof(pv_fired_buf)) {
        pv_fired = ngx_sprintf(pv_fired, " e%d", e->val);
    }
    e->del = -1;
    e->armed = 0;
    if (d == e->val) {      /* its own, which has fired */
        ngx_event_timer_del_timer(e->id);
    } else if (d >= 0 && pv_et[d].armed) {  /* an id is its owner's while it is armed */
        ngx_event_timer_del_timer(pv_et[d].id);
        pv_et[d].armed = 0;
    }
}

static void
pv_timer_op(char **a)
{
    int          i, k;
    pv_timer_t  *t;

    i = a[2] ? atoi(a[2]) : 0;
    t = &pv_timer[i];

    switch (a[1][0]) {
    case 'i':
        ngx_memzero(pv_timer, sizeof(pv_timer));
        for (k = 0; k < PV_MAX; k++) {
            pv_timer[k].id = k;
            pv_timer[k].act = 'n';
            pv_timer[k].fp = ngx_timerd_footprint();
            pv_timer[k].ev.data = &pv_timer[k];
            pv_timer[k].ev.log = ngx_cycle->log;
            pv_timer[k].ev.handler = pv_timer_handler;
        }
        break;
    case 'a':   /* t a id msec act arg arg2 */
        t->act = a[4][0];
        t->arg = atoi(a[5]);
        t->arg2 = atoi(a[6]);
        pv_timer_arm(i, atoi(a[3]));
        break;
    case 'w': { /* t w id msec: armed by another owner */
        ngx_uint_t  fp = t->fp;

        t->fp = fp + 1000000;
        pv_timer_arm(i, atoi(a[3]));
        t->fp = fp;
        break;
    }
    case 'd':
        NGX_DEL_TIMER(&t->ev, t->fp);
        break;
    case 'x':   /* deleted by another owner */
        NGX_DEL_TIMER(&t->ev, t->fp + 1000000);
        break;
    case 'E':   /* t E val msec del: event timer */
        pv_et[i].val = i;
        pv_et[i].del = atoi(a[4]);
        k = ngx_event_timer_add_timer(atoi(a[3]), pv_et_handler, &pv_et[i]);
        pv_et[i].id = k;
        pv_et[i].armed = k != NGX_ERROR;
        pv_say("%s ", k == NGX_ERROR ? "full" : "ok");
        break;
    case 'D':
        ngx_event_timer_del_timer(pv_et[i].id);
        if (a[3]) {
            ngx_event_timer_del_timer(pv_et[i].id);
        }
        pv_et[i].armed = 0;
        break;
    case 'k':   /* t k msec: time passes */
        pv_fired = pv_fired_buf;
        ngx_current_msec += i;
        ngx_event_expire_timers();
        pv_say("fired%*s", (size_t) (pv_fired - pv_fired_buf), pv_fired_buf);
        break;
    }
    pv_say(" set");
    for (k = 0; k < 8; k++) {
        pv_say("%d", pv_timer[k].ev.timer_set ? 1 : 0);
    }
}

/* ------------------------------------------------------------ stream zone */

static unsigned long long
pv_now(void)
{
    struct timespec  ts;

    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (unsigned long long) ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

/* z op slot [name]: on behalf of the process in that slot (-1: this one) */
static void
pv_zone_op(char **a)
{
    ngx_int_t           mine = ngx_process_slot, rc = 0;
    ngx_str_t           name;
    unsigned long long  t0, t1;

    if (a[1][0] == 'w') {           /* all begin at the same time */
        t0 = strtoull(a[2], NULL, 10);
        while (pv_now() < t0) { /* void */ }
        pv_say("slot %i", ngx_process_slot);
        return;
    }
    if (a[1][0] == 'n') {           /* nothing, for a while */
        t0 = pv_now() + atoi(a[2]);
        while (pv_now() < t0) { /* void */ }
        return;
    }
    if (atoi(a[2]) >= 0) {
        ngx_process_slot = atoi(a[2]);
    }
    name.data = (u_char *) a[3];
    name.len = a[3] ? ngx_strlen(a[3]) : 0;
    if (name.len == 1 && name.data[0] == '_') {
        name.len = 0;
    }
    t0 = pv_now();
    switch (a[1][0]) {
    case 'I':
    case 'i': rc = ngx_stream_zone_insert_stream(&name); break;
    case 'D':
    case 'd': ngx_stream_zone_delete_stream(&name); break;
    case 'x': ngx_stream_zone_module.exit_process((ngx_cycle_t *) ngx_cycle); break;
    case 's': ngx_stream_zone_module.init_process((ngx_cycle_t *) ngx_cycle); break;
    case 'q': break;
    }
    t1 = pv_now();
    ngx_process_slot = mine;
    pv_say("%i %uL %uL", rc, (uint64_t) t0, (uint64_t) t1);
}

/* ------------------------------------------------------------------------ */

static void
pv_state_line(ngx_http_request_t *r, ngx_chain_t *cl)
{
    u_char  *p;

    for (; cl; cl = cl->next) {     /* the numbers only */
        for (p = cl->buf->pos; p < cl->buf->last; p++) {
            if (*p == ':') {
                pv_say(" ");
                while (++p < cl->buf->last && *p != '\n') {
                    if (*p != ' ') {
                        pv_say("%c", *p);
                    }
                }
            }
        }
    }
}

static void
pv_line(ngx_http_request_t *r, char *line)
{
    char  *a[PV_MAX + 4];
    int    n = 0;
    char  *p;

    ngx_memzero(a, sizeof(a));
    for (p = strtok(line, " "); p && n < PV_MAX + 3; p = strtok(NULL, " ")) {
        a[n++] = p;
    }
    if (n == 0) {
        return;
    }
    switch (a[0][0]) {
    case 'm': pv_map_op(a, n); break;
    case 'r': pv_rbuf_op(a); pv_state_line(r, ngx_rbuf_state(r, 0)); break;
    case 'p': pv_poold_op(a); pv_state_line(r, ngx_poold_state(r, 0)); break;
    case 'z':
        pv_zone_op(a);
        if (strchr("idxsq", a[1][0])) {
            pv_state_line(r, ngx_stream_zone_state(r, 0));
        }
        break;
    case 't': pv_timer_op(a); pv_state_line(r, ngx_timerd_state(r, 0)); pv_state_line(r, ngx_event_timer_state(r)); break;
    }
    pv_say("\n");
}

static void
pv_unit_body(ngx_http_request_t *r)
{
    ngx_chain_t  *cl, out;
    ngx_buf_t    *b;
    size_t        len = 0;
    u_char       *body, *p;
    char         *l, *e;
    ngx_msec_t    now;

    for (cl = r->request_body ? r->request_body->bufs : NULL; cl; cl = cl->next) {
        len += ngx_buf_size(cl->buf);
    }
    body = ngx_pcalloc(r->pool, len + 1);
    p = body;
    for (cl = r->request_body ? r->request_body->bufs : NULL; cl; cl = cl->next) {
        p = ngx_cpymem(p, cl->buf->pos, cl->buf->last - cl->buf->pos);
    }
    b = ngx_create_temp_buf(r->pool, 4 * 1024 * 1024);
    pv_out = b->pos;
    pv_end = b->end;
    now = ngx_current_msec;
    for (l = (char *) body; l && *l; l = e) {
        e = strchr(l, '\n');
        if (e) {
            *e++ = '\0';
        }
        pv_line(r, l);
    }
    ngx_current_msec = now;
    b->last = pv_out;
    b->last_buf = 1;
    out.buf = b;
    out.next = NULL;
    r->headers_out.status = NGX_HTTP_OK;
    r->headers_out.content_length_n = b->last - b->pos;
    r->keepalive = 0;
    ngx_http_send_header(r);
    ngx_http_finalize_request(r, ngx_http_output_filter(r, &out));
}

static ngx_int_t
pv_unit_handler(ngx_http_request_t *r)
{
    ngx_int_t  rc;

    r->request_body_in_single_buf = 1;
    rc = ngx_http_read_client_request_body(r, pv_unit_body);
    if (rc >= NGX_HTTP_SPECIAL_RESPONSE) {
        return rc;
    }
    return NGX_DONE;
}

char *
pv_unit(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)
{
    ngx_http_core_loc_conf_t  *clcf;

    clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);
    clcf->handler = pv_unit_handler;
    return NGX_CONF_OK;
}

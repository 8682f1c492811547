/* Drives libdax.  One command per line on stdin, one line of answer on stdout:
 *   <connection> <command> <arguments...>   ->   <return code> <results...>
 * Byte strings are hexadecimal, "-" is the empty one, handles are
 * index:byte:bit:count:size:type.  Every buffer handed to the library has
 * exactly the size the interface asks for, so that the address sanitizer sees
 * it when the library uses more.
 *   T <thread> <connection> <command> ...   queues a command for a thread
 *   go                                      runs what was queued, all threads at once
 * Nothing in here knows what the right answer is.
 */
#define _GNU_SOURCE
#include <opendax.h>
#include <dlfcn.h>
#include <sys/socket.h>
#include <ctype.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXCONN 16
#define MAXGRP 64
#define MAXTHR 16

struct out { char *s; size_t n, cap; };
static void pr(struct out *o, const char *f, ...)
{
    va_list ap;
    int k;
    for(;;) {
        va_start(ap, f);
        k = vsnprintf(o->s + o->n, o->cap - o->n, f, ap);
        va_end(ap);
        if(o->n + k + 1 < o->cap) break;
        o->cap = o->cap * 2 + k + 64;
        o->s = realloc(o->s, o->cap);
    }
    o->n += k;
}
static void prhex(struct out *o, const void *p, int n)
{
    if(n <= 0) { pr(o, " -"); return; }
    pr(o, " ");
    for(int i = 0; i < n; i++) pr(o, "%02x", ((const unsigned char *)p)[i]);
}

struct conn {
    char name[64];
    dax_state *ds;
    tag_group_id *grp[MAXGRP];
    int ended;
};
static struct conn conns[MAXCONN];
static struct conn *getconn(const char *n)
{
    for(int i = 0; i < MAXCONN; i++) if(!strcmp(conns[i].name, n)) return &conns[i];
    return NULL;
}

/* events: what the callbacks of this thread have seen */
struct ud { int idx, id, et, size, freed, nodata; };
struct seen { struct seen *next; struct ud u; int rc; unsigned char *d; int match; };
static __thread struct seen *seen_first, **seen_last = NULL;
static int nest;   /* callbacks take the next event themselves before they look at their data */
static void callback(dax_state *ds, void *p)
{
    struct ud *u = p;
    struct seen *s = calloc(1, sizeof(*s));
    s->u = *u;
    s->d = malloc(5000);
    if(nest && u->id % 3 != 2) {
        if(seen_last == NULL) seen_last = &seen_first;
        *seen_last = s;
        struct seen **mine = seen_last = &s->next;
        dax_id id = {-1, -1};
        int rc = dax_event_poll(ds, &id);
        if(*mine ? rc || id.index != (*mine)->u.idx || id.id != (*mine)->u.id : rc != ERR_NOTFOUND) s->u.id = -999;
    }
    s->rc = dax_event_get_data(ds, s->d, 5000);
    if(s->rc > 0) { /* a small buffer must not be overrun */
        unsigned char *b = malloc(s->rc > 1 ? s->rc / 2 : 1);
        int k = dax_event_get_data(ds, b, s->rc > 1 ? s->rc / 2 : 1);
        if(k != (s->rc > 1 ? s->rc / 2 : 1) || memcmp(b, s->d, k)) s->rc = -1000;
        free(b);
    }
    if(nest && u->id % 3 != 2) return;
    if(seen_last == NULL) seen_last = &seen_first;
    *seen_last = s;
    seen_last = &s->next;
}
static int udlive;
static void freecb(void *p) { udlive--; free(p); }

static long now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000L + t.tv_nsec;
}

/* The calls with which the threads of the library meet each other and the
 * server, made at times that vary: "jitter <seed> <permille> <microseconds>" */
static atomic_uint jseed;
static unsigned jrate, jmax;
static void jitter(void)
{
    if(!jrate) return;
    unsigned x = atomic_fetch_add(&jseed, 0x9e3779b9u);
    x ^= x >> 16; x *= 0x85ebca6bu; x ^= x >> 13; x *= 0xc2b2ae35u; x ^= x >> 16;
    if(x % 1000 >= jrate) return;
    x /= 1000;
    struct timespec t = {0, (x % (jmax + 1)) * 1000L};
    nanosleep(&t, NULL);
}
#define REAL(name) static __typeof__(name) *real; if(!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t *m) { REAL(pthread_mutex_lock); jitter(); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { REAL(pthread_mutex_unlock); int r = real(m); jitter(); return r; }
ssize_t read(int f, void *b, size_t n) { REAL(read); jitter(); return real(f, b, n); }
ssize_t send(int f, const void *b, size_t n, int g) { REAL(send); jitter(); ssize_t r = real(f, b, n, g); jitter(); return r; }

static char **gargv;
static int gargc;
static int discs;
static void ondisc(int r) { discs++; }

/* arguments */
static char *tok(char **p)
{
    char *s = *p;
    while(*s == ' ') s++;
    char *b = s;
    while(*s && *s != ' ') s++;
    if(*s) *s++ = 0;
    *p = s;
    return b;
}
static long num(char **p) { return strtol(tok(p), NULL, 0); }
static unsigned char *hex(char **p, int *n)
{
    char *t = tok(p);
    int k = (!strcmp(t, "-")) ? 0 : strlen(t) / 2;
    unsigned char *b = malloc(k ? k : 1);
    for(int i = 0; i < k; i++) { unsigned x; sscanf(t + 2 * i, "%2x", &x); b[i] = x; }
    *n = k;
    return b;
}
static char *str(char **p)
{
    int n;
    unsigned char *b = hex(p, &n);
    char *s = malloc(n + 1);
    memcpy(s, b, n);
    s[n] = 0;
    free(b);
    return s;
}
static tag_handle handle(char **p)
{
    tag_handle h;
    long a[6] = {0};
    char *t = tok(p);
    memset(&h, 0, sizeof h);
    for(int i = 0; i < 6; i++) { a[i] = strtol(t, &t, 10); if(*t == ':') t++; }
    h.index = a[0]; h.byte = a[1]; h.bit = a[2]; h.count = a[3]; h.size = a[4]; h.type = a[5];
    return h;
}
static void prhandle(struct out *o, tag_handle h)
{
    pr(o, " %d:%u:%u:%u:%u:%u", h.index, h.byte, h.bit, h.count, h.size, h.type);
}
static void prtag(struct out *o, dax_tag *t)
{
    pr(o, " %d %u %u %u", t->idx, t->type, t->count, t->attr);
    prhex(o, t->name, strlen(t->name));
}
static void itercb(cdt_iter m, void *u)
{
    struct out *o = u;
    pr(o, " ");
    for(const char *s = m.name; *s; s++) pr(o, "%02x", (unsigned char)*s);
    pr(o, ",%u,%d,%d,%d", m.type, m.count, m.byte, m.bit);
}

static int drain(struct conn *c, struct out *o)
{
    int rc, bad = 0;
    for(;;) {
        dax_id id = {-1, -1};
        seen_first = NULL; seen_last = &seen_first;
        rc = dax_event_poll(c->ds, &id);
        if(rc == ERR_NOTFOUND && seen_first == NULL) break;
        if(seen_first == NULL) { bad++; pr(o, " !%d", rc); continue; }
        for(struct seen *s = seen_first, *first = s; s; ) {
            struct seen *nx = s->next;
            if(s == first && (rc || id.index != s->u.idx || id.id != s->u.id)) s->u.id = -999;
            pr(o, " %d,%d,%d,%d,", s->u.idx, s->u.id, s->u.et, s->rc);
            for(int i = 0; i < s->rc; i++) pr(o, "%02x", s->d[i]);
            free(s->d);
            free(s);
            s = nx;
        }
    }
    return bad;
}

static void exec(char *line, struct out *o)
{
    char *p = line;
    char *cn = tok(&p), *cmd = tok(&p);
    struct conn *c = getconn(cn);
    int rc, n, m;
    unsigned char *b, *k;
    char *s;
    tag_handle h, g;
    dax_tag tag;
    dax_id id;

    if(!strcmp(cmd, "connect")) {
        for(int i = 0; i < MAXCONN && c == NULL; i++) if(!conns[i].name[0]) c = &conns[i];
        if(c->ds == NULL) {
            s = str(&p);
            strcpy(c->name, cn);
            c->ds = dax_init(s);
            dax_init_config(c->ds, s);
            optind = 0;
            rc = dax_configure(c->ds, gargc, gargv, CFG_CMDLINE);
            if(rc) { pr(o, "%d", rc); return; }
            dax_set_disconnect_callback(c->ds, ondisc);
            /* the logger keeps the name */
        }
        rc = dax_connect(c->ds);
        pr(o, "%d", rc);
        return;
    }
    if(c == NULL || c->ds == NULL) { pr(o, "-9999"); return; }
    dax_state *ds = c->ds;
    if(!strcmp(cmd, "disc")) {
        pr(o, "%d", dax_disconnect(ds));
    } else if(!strcmp(cmd, "free")) {
        pr(o, "%d", dax_free(ds));
        memset(c, 0, sizeof *c);
    } else if(!strcmp(cmd, "discs")) {
        pr(o, "%d", discs);
    } else if(!strcmp(cmd, "add")) {
        s = str(&p);
        tag_type t = strtoul(tok(&p), NULL, 0);
        n = num(&p); m = num(&p);
        memset(&h, 0, sizeof h);
        rc = dax_tag_add(ds, &h, s, t, n, m);
        pr(o, "%d", rc); prhandle(o, h);
        free(s);
    } else if(!strcmp(cmd, "del")) {
        pr(o, "%d", dax_tag_del(ds, num(&p)));
    } else if(!strcmp(cmd, "byname")) {
        s = str(&p);
        memset(&tag, 0, sizeof tag);
        rc = dax_tag_byname(ds, &tag, s);
        pr(o, "%d", rc); prtag(o, &tag);
        free(s);
    } else if(!strcmp(cmd, "byindex")) {
        memset(&tag, 0, sizeof tag);
        rc = dax_tag_byindex(ds, &tag, num(&p));
        pr(o, "%d", rc); prtag(o, &tag);
    } else if(!strcmp(cmd, "handle")) {
        s = str(&p);
        n = num(&p);
        memset(&h, 0xEE, sizeof h);
        rc = dax_tag_handle(ds, &h, s, n);
        pr(o, "%d", rc); prhandle(o, h);
        free(s);
    } else if(!strcmp(cmd, "read")) {
        n = num(&p); uint32_t off = num(&p); m = num(&p);
        b = calloc(1, m > 0 ? m : 1);
        rc = dax_read(ds, n, off, b, m);
        pr(o, "%d", rc); if(rc == 0) prhex(o, b, m);
        free(b);
    } else if(!strcmp(cmd, "write")) {
        n = num(&p); uint32_t off = num(&p); b = hex(&p, &m);
        pr(o, "%d", dax_write(ds, n, off, b, m));
        free(b);
    } else if(!strcmp(cmd, "mask")) {
        n = num(&p); uint32_t off = num(&p); b = hex(&p, &m); k = hex(&p, &m);
        pr(o, "%d", dax_mask(ds, n, off, b, k, m));
        free(b); free(k);
    } else if(!strcmp(cmd, "tread")) {
        h = handle(&p);
        b = malloc(h.size ? h.size : 1);
        memset(b, 0xA5, h.size);
        rc = dax_tag_read(ds, h, b);
        pr(o, "%d", rc); if(rc == 0) prhex(o, b, h.size);
        free(b);
    } else if(!strcmp(cmd, "twrite")) {
        h = handle(&p); b = hex(&p, &n);
        pr(o, "%d", dax_tag_write(ds, h, b));
        free(b);
    } else if(!strcmp(cmd, "tmask")) {
        h = handle(&p); b = hex(&p, &n); k = hex(&p, &n);
        pr(o, "%d", dax_tag_mask(ds, h, b, k));
        free(b); free(k);
    } else if(!strcmp(cmd, "ovradd")) {
        h = handle(&p); b = hex(&p, &n);
        pr(o, "%d", dax_tag_add_override(ds, h, b));
        free(b);
    } else if(!strcmp(cmd, "ovrdel")) {
        h = handle(&p);
        pr(o, "%d", dax_tag_del_override(ds, h));
    } else if(!strcmp(cmd, "ovrget")) {
        h = handle(&p);
        b = calloc(1, h.size ? h.size : 1); k = calloc(1, h.size ? h.size : 1);
        rc = dax_tag_get_override(ds, h, b, k);
        pr(o, "%d", rc); if(rc == 0) { prhex(o, b, h.size); prhex(o, k, h.size); }
        free(b); free(k);
    } else if(!strcmp(cmd, "ovrset")) {
        h = handle(&p);
        pr(o, "%d", dax_tag_set_override(ds, h));
    } else if(!strcmp(cmd, "ovrclr")) {
        h = handle(&p);
        pr(o, "%d", dax_tag_clr_override(ds, h));
    } else if(!strcmp(cmd, "atomic")) {
        h = handle(&p); n = num(&p); b = hex(&p, &m);
        pr(o, "%d", dax_atomic_op(ds, h, m ? b : NULL, n));
        free(b);
    } else if(!strcmp(cmd, "evadd")) {
        h = handle(&p); n = num(&p); b = hex(&p, &m);
        struct ud *u = calloc(1, sizeof *u);
        memset(&id, 0, sizeof id);
        rc = dax_event_add(ds, &h, n, m ? b : NULL, &id, callback, u, freecb);
        if(rc) { free(u); pr(o, "%d", rc); }
        else { u->idx = id.index; u->id = id.id; u->et = n; u->size = h.size; udlive++; pr(o, "%d %d %d", rc, id.index, id.id); }
        free(b);
    } else if(!strcmp(cmd, "evdel")) {
        id.index = num(&p); id.id = num(&p);
        n = udlive;
        rc = dax_event_del(ds, id);
        pr(o, "%d %d", rc, n - udlive);
    } else if(!strcmp(cmd, "evopt")) {
        id.index = num(&p); id.id = num(&p); n = num(&p);
        pr(o, "%d", dax_event_options(ds, id, n));
    } else if(!strcmp(cmd, "poll")) {         /* what has arrived so far */
        struct out t = {0};
        uint32_t x;
        if(num(&p)) dax_read(ds, 0, 0, &x, 4);   /* fence */
        t.cap = 64; t.s = malloc(64); t.s[0] = 0;
        rc = drain(c, &t);
        pr(o, "%d%s", rc, t.n ? t.s : "");
        free(t.s);
    } else if(!strcmp(cmd, "nest")) {
        nest = num(&p);
        pr(o, "0");
    } else if(!strcmp(cmd, "wait")) {
        n = num(&p);
        dax_id i2 = {-1, -1};
        seen_first = NULL; seen_last = &seen_first;
        long t0 = now();
        rc = dax_event_wait(ds, n, &i2);
        if(rc == ERR_TIMEOUT && now() - t0 < n * 900000L) rc = -998;   /* too early */
        pr(o, "%d", rc);
        for(struct seen *q = seen_first; q; ) {
            struct seen *nx = q->next;
            if(i2.index != q->u.idx || i2.id != q->u.id) q->u.id = -999;
            pr(o, " %d,%d,%d,%d,", q->u.idx, q->u.id, q->u.et, q->rc);
            for(int i = 0; i < q->rc; i++) pr(o, "%02x", q->d[i]);
            free(q->d); free(q);
            q = nx;
        }
    } else if(!strcmp(cmd, "getdata")) {       /* outside of a callback */
        b = malloc(16);
        pr(o, "%d", dax_event_get_data(ds, b, 16));
        free(b);
    } else if(!strcmp(cmd, "mapadd")) {
        h = handle(&p); g = handle(&p);
        memset(&id, 0, sizeof id);
        rc = dax_map_add(ds, &h, &g, &id);
        pr(o, "%d %d %d", rc, id.index, id.id);
    } else if(!strcmp(cmd, "mapdel")) {
        id.index = num(&p); id.id = num(&p);
        pr(o, "%d", dax_map_del(ds, id));
    } else if(!strcmp(cmd, "mapget")) {
        id.index = num(&p); id.id = num(&p);
        memset(&h, 0, sizeof h); memset(&g, 0, sizeof g);
        rc = dax_map_get(ds, &h, &g, id);
        pr(o, "%d", rc); prhandle(o, h); prhandle(o, g);
    } else if(!strcmp(cmd, "grpadd")) {
        n = num(&p);
        tag_handle *hs = malloc(n > 0 ? sizeof(tag_handle) * n : 1);
        for(m = 0; m < n; m++) hs[m] = handle(&p);
        rc = 0;
        tag_group_id *gr = dax_group_add(ds, &rc, hs, n, 0);
        for(m = 0; m < MAXGRP && c->grp[m]; m++);
        if(gr != NULL) c->grp[m] = gr;
        pr(o, "%d %d %d", (gr == NULL && rc == 0) ? -9998 : rc, gr ? m : -1, gr ? dax_group_get_size(gr) : 0);
        free(hs);
    } else if(!strcmp(cmd, "grpread")) {
        n = num(&p);
        if(n < 0 || n >= MAXGRP || c->grp[n] == NULL) { pr(o, "-9997"); return; }
        m = dax_group_get_size(c->grp[n]);
        b = malloc(m ? m : 1);
        rc = dax_group_read(ds, c->grp[n], b, m);
        pr(o, "%d", rc); if(rc == 0) prhex(o, b, m);
        free(b);
    } else if(!strcmp(cmd, "grpwrite")) {
        n = num(&p); b = hex(&p, &m);
        if(n < 0 || n >= MAXGRP || c->grp[n] == NULL) { pr(o, "-9997"); return; }
        pr(o, "%d", dax_group_write(ds, c->grp[n], b));
        free(b);
    } else if(!strcmp(cmd, "grpdel")) {
        n = num(&p);
        if(n < 0 || n >= MAXGRP || c->grp[n] == NULL) { pr(o, "-9997"); return; }
        rc = dax_group_del(ds, c->grp[n]);
        if(rc == 0) c->grp[n] = NULL;
        pr(o, "%d", rc);
    } else if(!strcmp(cmd, "cdtnew")) {        /* name member type count ... */
        s = str(&p);
        rc = 0;
        dax_cdt *d = dax_cdt_new(s, &rc);
        free(s);
        tag_type t = 0;
        if(d == NULL) { pr(o, "%d 0", rc ? rc : -9998); return; }
        while(*p) {
            s = str(&p);
            t = strtoul(tok(&p), NULL, 0);
            unsigned int cnt = strtoul(tok(&p), NULL, 0);
            rc = dax_cdt_member(ds, d, s, t, cnt);
            free(s);
            if(rc) break;
        }
        t = 0;
        if(rc) { dax_cdt_free(d); }
        else {
            rc = dax_cdt_create(ds, d, &t);
            if(rc) dax_cdt_free(d);
        }
        pr(o, "%d %u", rc, t);
    } else if(!strcmp(cmd, "cdtiter")) {
        struct out t = {0};
        t.cap = 64; t.s = malloc(64); t.s[0] = 0;
        rc = dax_cdt_iter(ds, strtoul(tok(&p), NULL, 0), &t, itercb);
        pr(o, "%d%s", rc, t.n ? t.s : "");
        free(t.s);
    } else if(!strcmp(cmd, "cdtcount")) {
        pr(o, "%d", dax_cdt_member_count(ds, strtoul(tok(&p), NULL, 0)));
    } else if(!strcmp(cmd, "typesize")) {
        pr(o, "%d", dax_get_typesize(ds, strtoul(tok(&p), NULL, 0)));
    } else if(!strcmp(cmd, "t2s")) {
        const char *r = dax_type_to_string(ds, strtoul(tok(&p), NULL, 0));
        if(r) { pr(o, "0"); prhex(o, r, strlen(r)); } else pr(o, "-1");
    } else if(!strcmp(cmd, "s2t")) {
        s = str(&p);
        pr(o, "0 %u", dax_string_to_type(ds, s));
        free(s);
    } else if(!strcmp(cmd, "fqn")) {
        h = handle(&p);
        s = dax_fqn(ds, h);
        if(s) { pr(o, "0"); prhex(o, s, strlen(s)); free(s); } else pr(o, "-1");
    } else if(!strcmp(cmd, "v2s")) {           /* type index size(of text buffer) value */
        tag_type t = strtoul(tok(&p), NULL, 0);
        n = num(&p); m = num(&p);
        int z;
        b = hex(&p, &z);
        s = malloc(m);
        memset(s, 0x7f, m);
        rc = dax_val_to_string(s, m, t, b, n);
        pr(o, "%d", rc); prhex(o, s, strnlen(s, m));
        free(s); free(b);
    } else if(!strcmp(cmd, "s2v")) {           /* type index text value mask(- for none) */
        tag_type t = strtoul(tok(&p), NULL, 0);
        n = num(&p); s = str(&p);
        int z, y;
        b = hex(&p, &z); k = hex(&p, &y);
        rc = dax_string_to_val(s, t, b, y ? k : NULL, n);
        pr(o, "%d", rc); prhex(o, b, z); prhex(o, k, y);
        free(s); free(b); free(k);
    } else if(!strcmp(cmd, "ev2s")) {
        const char *r = dax_event_type_to_string(num(&p));
        if(r) { pr(o, "0"); prhex(o, r, strlen(r)); } else pr(o, "-1");
    } else if(!strcmp(cmd, "s2ev")) {
        s = str(&p);
        pr(o, "%d", dax_event_string_to_type(s));
        free(s);
    } else if(!strcmp(cmd, "setrunning")) {
        pr(o, "%d", dax_set_running(ds, num(&p)));
    } else if(!strcmp(cmd, "setfaulted")) {
        pr(o, "%d", dax_set_faulted(ds, num(&p)));
    } else if(!strcmp(cmd, "setstatus")) {
        s = str(&p);
        pr(o, "%d", dax_set_status(ds, s));
        free(s);
    } else if(!strcmp(cmd, "defcb")) {
        pr(o, "%d", dax_set_default_callbacks(ds));
    } else if(!strcmp(cmd, "runcb")) {         /* let the default callbacks run */
        uint32_t x;
        dax_read(ds, 0, 0, &x, 4);
        for(n = 0; dax_event_poll(ds, NULL) == 0; n++);
        pr(o, "%d", n);
    } else if(!strcmp(cmd, "sleep")) {
        usleep(num(&p));
        pr(o, "0");
    } else {
        pr(o, "-9999");
    }
}

/* batches */
struct job { struct job *next; char *line; struct out o; long inv, rsp; int seq; };
static struct job *jobs[MAXTHR], **jlast[MAXTHR];
static long start_at;
static pthread_barrier_t bar;
static void *worker(void *p)
{
    struct job *j = *(struct job **)p;
    pthread_barrier_wait(&bar);
    while(now() < start_at);
    for(; j; j = j->next) {
        j->inv = now();
        exec(j->line, &j->o);
        j->rsp = now();
    }
    return NULL;
}

int main(int argc, char **argv)
{
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    int seq = 0;

    /* the library may say things on stdout */
    FILE *ans = fdopen(dup(1), "w");
    dup2(2, 1);
    gargc = argc; gargv = argv;
    dax_init_logger("libdrv", 0);
    for(int i = 0; i < MAXTHR; i++) jlast[i] = &jobs[i];
    while((n = getline(&line, &cap, stdin)) > 0) {
        if(line[n - 1] == '\n') line[n - 1] = 0;
        struct out o = {0};
        o.cap = 256; o.s = malloc(o.cap); o.s[0] = 0;
        if(!strncmp(line, "T ", 2)) {
            char *p = line + 2;
            int t = num(&p);
            struct job *j = calloc(1, sizeof *j);
            j->line = strdup(p);
            j->seq = seq++;
            j->o.cap = 256; j->o.s = malloc(256); j->o.s[0] = 0;
            *jlast[t] = j; jlast[t] = &j->next;
        } else if(!strncmp(line, "jitter ", 7)) {
            unsigned a, b, c;
            sscanf(line + 7, "%u %u %u", &a, &b, &c);
            jseed = a; jmax = c; jrate = b;
        } else if(!strncmp(line, "go", 2)) {
            start_at = atol(line + 2);
            pthread_t th[MAXTHR];
            int k = 0, ids[MAXTHR];
            for(int i = 0; i < MAXTHR; i++) if(jobs[i]) ids[k++] = i;
            pthread_barrier_init(&bar, NULL, k ? k : 1);
            for(int i = 0; i < k; i++) pthread_create(&th[i], NULL, worker, &jobs[ids[i]]);
            for(int i = 0; i < k; i++) pthread_join(th[i], NULL);
            for(int i = 0; i < k; i++) {
                for(struct job *j = jobs[ids[i]]; j; ) {
                    struct job *nx = j->next;
                    fprintf(ans, "%d %ld %ld %s\n", j->seq, j->inv, j->rsp, j->o.s);
                    free(j->line); free(j->o.s); free(j);
                    j = nx;
                }
                jobs[ids[i]] = NULL; jlast[ids[i]] = &jobs[ids[i]];
            }
            seq = 0;
            fprintf(ans, "done\n");
            fflush(ans);
        } else if(!strcmp(line, "quit")) {
            break;
        } else {
            exec(line, &o);
            fprintf(ans, "%s\n", o.s);
            fflush(ans);
        }
        free(o.s);
    }
    return 0;
}

/*
 * Deterministic simulator for SigScheme.
 *
 * One scenario (text on a pipe) is one execution: the whole interpreter runs
 * in this process, everything nondeterministic goes through this file:
 *   - GC timing        scm_sim_gc_decider (guarded hook in storage-gc.c)
 *   - memory           malloc family, wrapped at link time (failures, padding,
 *                      accounting of live native blocks)
 *   - files and stdio  fopen/fclose wrapped, streams are glibc cookie FILEs
 *                      over an in-memory filesystem: read chunking, EINTR,
 *                      EIO, ENOSPC, partial writes, failing open and close
 *   - process end      exit wrapped
 * The real file system, clock and network are never touched by the code under
 * test. Every event is appended to a shared log, which survives a crash.
 *
 * Server mode: reads "<len>\n<scenario>" from fd 0, forks one child per
 * scenario, replies "<status> <loglen> <errlen>\n<log><asan report>".
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <dirent.h>

#include "sigscheme.h"
#include "sigschemeinternal.h"

extern int (*scm_sim_gc_decider)(void);
extern void scm_sim_gc(void);
extern void scm_sim_heap_stats(size_t *, size_t *, size_t *);

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
char *__real_strdup(const char *);
void __real_free(void *);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);

#define LOGSZ (8u << 20)
static char *g_log;               /* MAP_SHARED */
static volatile size_t *g_loglen; /* MAP_SHARED */

static void
logf_(const char *fmt, ...)
{
    va_list ap;
    int n;
    size_t room = LOGSZ - *g_loglen;

    if (room < 2)
        return;
    va_start(ap, fmt);
    n = vsnprintf(g_log + *g_loglen, room, fmt, ap);
    va_end(ap);
    if (n < 0)
        return;
    if ((size_t)n >= room)
        n = room - 1;
    *g_loglen += n;
}

static void
logb(const void *p, size_t n)
{
    if (n > LOGSZ - *g_loglen - 1)
        n = LOGSZ - *g_loglen - 1;
    memcpy(g_log + *g_loglen, p, n);
    *g_loglen += n;
}

static void
loghex(const unsigned char *p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    size_t i;
    char b[2];

    for (i = 0; i < n; i++) {
        b[0] = d[p[i] >> 4];
        b[1] = d[p[i] & 15];
        logb(b, 2);
    }
}

/* ---------------------------------------------------------------- state */
static int g_armed;               /* interpreter code is running */
static int g_inited;
static int g_inmain;
static uint64_t g_allocs;         /* cell allocations seen by the decider */
static uint64_t g_forced;         /* forced GCs */
static uint64_t g_maxallocs = 8000000;
static uint64_t g_steps;          /* sim-step calls */
static size_t g_live_hw;          /* heap number high water */

enum gcmode { GC_NONE, GC_EVERY, GC_AT, GC_RATE, GC_BURST };
static enum gcmode g_gcmode;
static uint64_t g_gcn, g_gcoff, g_gcseed, g_gcnum;
static uint64_t *g_gcat;
static size_t g_gcat_n, g_gcat_i;
static int g_gc_during_init;
static int g_gchold;              /* no forced GC until the op gcgo */
static uint64_t g_gcbase;         /* allocations before gcgo */
static uint64_t g_gclimit = ~0ull;
static int g_log_gc;

static uint64_t *g_stepfail;
static size_t g_stepfail_n;
static uint64_t g_stepmod, g_stepoff;
static uint64_t *g_mfail;         /* sorted malloc indices that fail */
static size_t g_mfail_n;
static uint64_t g_mfail_from = 0; /* all from this one fail (0: off) */
static uint64_t g_mcalls;         /* malloc-family calls while armed */
static uint64_t g_mfired;
static int g_marm;                /* malloc faults enabled */
static uint64_t g_fired[64];

static uint64_t
mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

static void sim_end(const char *why, int code) __attribute__((noreturn));

/* ------------------------------------------------------- native memory */
struct blk { void *p; size_t n; uint64_t seq; };
#define NBLK (1u << 20)
static struct blk *g_blk;
static size_t g_blk_n, g_blk_bytes, g_blk_hw;
static uint64_t g_foreign;
static int g_nolibpath;
static const char *g_libpath = "/lib";

static size_t
blk_slot(void *p)
{
    size_t h = (size_t)mix((uintptr_t)p) & (NBLK - 1);

    while (g_blk[h].p && g_blk[h].p != p)
        h = (h + 1) & (NBLK - 1);
    return h;
}

static void
blk_add(void *p, size_t n)
{
    size_t h;

    if (!p || g_blk_n > NBLK / 2)
        return;
    h = blk_slot(p);
    g_blk[h].p = p;
    g_blk[h].n = n;
    g_blk[h].seq = g_mcalls;
    g_blk_n++;
    g_blk_bytes += n;
    if (g_blk_bytes > g_blk_hw)
        g_blk_hw = g_blk_bytes;
}

static int
blk_del(void *p)
{
    size_t h, j, k;

    h = blk_slot(p);
    if (!g_blk[h].p)
        return 0;
    g_blk_n--;
    g_blk_bytes -= g_blk[h].n;
    g_blk[h].p = NULL;
    /* backward shift */
    for (j = (h + 1) & (NBLK - 1); g_blk[j].p; j = (j + 1) & (NBLK - 1)) {
        k = (size_t)mix((uintptr_t)g_blk[j].p) & (NBLK - 1);
        if (((j - k) & (NBLK - 1)) >= ((j - h) & (NBLK - 1))) {
            g_blk[h] = g_blk[j];
            g_blk[j].p = NULL;
            h = j;
        }
    }
    return 1;
}

static int
malloc_fails(void)
{
    size_t i;

    if (!g_armed)
        return 0;
    g_mcalls++;
    if (!g_marm)
        return 0;
    if (g_mfail_from && g_mcalls >= g_mfail_from)
        goto fire;
    for (i = 0; i < g_mfail_n; i++)
        if (g_mfail[i] == g_mcalls)
            goto fire;
    return 0;
fire:
    g_mfired++;
    logf_("! malloc %llu\n", (unsigned long long)g_mcalls);
    errno = ENOMEM;
    return 1;
}

void *
__wrap_malloc(size_t n)
{
    void *p;

    if (malloc_fails())
        return NULL;
    p = __real_malloc(n);
    if (g_armed)
        blk_add(p, n);
    return p;
}

void *
__wrap_calloc(size_t a, size_t b)
{
    void *p;

    if (malloc_fails())
        return NULL;
    p = __real_calloc(a, b);
    if (g_armed)
        blk_add(p, a * b);
    return p;
}

void *
__wrap_realloc(void *q, size_t n)
{
    void *p;

    if (malloc_fails())
        return NULL;
    if (q)
        blk_del(q);
    p = __real_realloc(q, n);
    if (g_armed)
        blk_add(p, n);
    return p;
}

int
__wrap_posix_memalign(void **q, size_t al, size_t n)
{
    int e;

    if (malloc_fails())
        return ENOMEM;
    e = __real_posix_memalign(q, al, n);
    if (!e && g_armed)
        blk_add(*q, n);
    return e;
}

char *
__wrap_strdup(const char *s)
{
    char *p;

    if (malloc_fails())
        return NULL;
    p = __real_strdup(s);
    if (g_armed)
        blk_add(p, strlen(s) + 1);
    return p;
}

void
__wrap_free(void *p)
{
    if (p && !blk_del(p))
        g_foreign++;
    __real_free(p);
}

/* ---------------------------------------------------------- file system */
enum { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, N_OPS };
static const char *const op_names[N_OPS] = { "open", "read", "write", "close" };

struct fault { int op; uint64_t nth; int err; int persist; };
struct vfile {
    char *path;
    unsigned char *data;
    size_t len, cap;
    int exists;
    int is_lib;
    size_t *chunks; size_t n_chunks;    /* read sizes, cyclic */
    size_t *wchunks; size_t n_wchunks;  /* accepted write sizes, cyclic */
    long capacity;                      /* -1: unlimited */
    int bufsize;                        /* -1: default */
    struct fault *faults; size_t n_faults;
    uint64_t cnt[N_OPS];
    struct vfile *next;
};
struct vhandle {
    struct vfile *f;
    FILE *fp;
    size_t pos;
    int id, rd, wr, live;
};
static struct vfile *g_files;
#define MAXH 65536
static struct vhandle *g_handles[MAXH];
static int g_nh, g_nlive, g_live_hwm;
static int g_max_open = 4080;
static int g_log_io = 1;

static struct vfile *
vf_find(const char *path)
{
    struct vfile *f;

    for (f = g_files; f; f = f->next)
        if (!strcmp(f->path, path))
            return f;
    return NULL;
}

static struct vfile *
vf_get(const char *path)
{
    struct vfile *f = vf_find(path);

    if (!f) {
        f = __real_calloc(1, sizeof(*f));
        f->path = __real_strdup(path);
        f->capacity = -1;
        f->bufsize = -1;
        f->next = g_files;
        g_files = f;
    }
    return f;
}

static int
vf_fault(struct vfile *f, int op)
{
    size_t i;
    uint64_t n = ++f->cnt[op];

    for (i = 0; i < f->n_faults; i++) {
        struct fault *t = &f->faults[i];
        if (t->op == op && (t->nth == n || (t->persist && n >= t->nth))) {
            logf_("! %s %s %llu %d\n", f->path, op_names[op],
                  (unsigned long long)n, t->err);
            return t->err;
        }
    }
    return 0;
}

static ssize_t
ck_read(void *c, char *buf, size_t n)
{
    struct vhandle *h = c;
    struct vfile *f = h->f;
    size_t left, k;
    int e;

    if (!h->rd) {
        errno = EBADF;
        return -1;
    }
    if ((e = vf_fault(f, OP_READ))) {
        errno = e;
        return -1;
    }
    left = (h->pos < f->len) ? f->len - h->pos : 0;
    k = (n < left) ? n : left;
    if (f->n_chunks) {
        size_t m = f->chunks[(f->cnt[OP_READ] - 1) % f->n_chunks];
        if (m && k > m)
            k = m;
    }
    memcpy(buf, f->data + h->pos, k);
    h->pos += k;
    return k;
}

/* the kernel side of one write(2) */
static ssize_t
sys_write(struct vhandle *h, const char *buf, size_t n)
{
    struct vfile *f = h->f;
    int e;

    if (!h->wr) {
        errno = EBADF;
        return -1;
    }
    if ((e = vf_fault(f, OP_WRITE))) {
        errno = e;
        return -1;
    }
    if (f->n_wchunks) {
        size_t m = f->wchunks[(f->cnt[OP_WRITE] - 1) % f->n_wchunks];
        if (m && n > m)
            n = m;
    }
    if (f->capacity >= 0) {
        size_t room = (h->pos < (size_t)f->capacity)
            ? (size_t)f->capacity - h->pos : 0;
        if (!room) {
            logf_("! %s write %llu %d\n", f->path,
                  (unsigned long long)f->cnt[OP_WRITE], ENOSPC);
            errno = ENOSPC;
            return -1;
        }
        if (n > room)
            n = room;
    }
    if (h->pos + n > f->cap) {
        f->cap = (h->pos + n) * 2 + 64;
        f->data = __real_realloc(f->data, f->cap);
    }
    if (h->pos > f->len)        /* truncated meanwhile: a hole */
        memset(f->data + f->len, 0, h->pos - f->len);
    memcpy(f->data + h->pos, buf, n);
    h->pos += n;
    if (h->pos > f->len)
        f->len = h->pos;
    return n;
}

/* glibc's file jumps loop over write(2), its cookie jumps do not: loop here */
static ssize_t
ck_write(void *c, const char *buf, size_t n)
{
    size_t done = 0;
    ssize_t k;

    while (done < n) {
        k = sys_write(c, buf + done, n - done);
        if (k < 0)
            break;
        done += k;
    }
    return done;
}

static int
ck_close(void *c)
{
    struct vhandle *h = c;
    int e;

    e = vf_fault(h->f, OP_CLOSE);
    h->live = 0;
    g_nlive--;
    if (g_log_io && !h->f->is_lib)
        logf_("C %d %d\n", h->id, e);
    if (e) {
        errno = e;
        return -1;
    }
    return 0;
}

static FILE *
vopen(struct vfile *f, const char *mode, int rd, int wr)
{
    cookie_io_functions_t io = { ck_read, ck_write, NULL, ck_close };
    struct vhandle *h;
    FILE *fp;

    if (g_nh >= MAXH) {
        errno = EMFILE;
        return NULL;
    }
    h = __real_calloc(1, sizeof(*h));
    h->f = f;
    h->rd = rd;
    h->wr = wr;
    h->id = g_nh;
    fp = fopencookie(h, mode, io);
    if (!fp)
        return NULL;
    if (f->bufsize >= 0)
        setvbuf(fp, NULL, f->bufsize ? _IOFBF : _IONBF, f->bufsize);
    h->fp = fp;
    h->live = 1;
    g_handles[g_nh++] = h;
    if (++g_nlive > g_live_hwm)
        g_live_hwm = g_nlive;
    return fp;
}

FILE *
__wrap_fopen(const char *path, const char *mode)
{
    struct vfile *f;
    FILE *fp;
    int rd, wr, e;

    rd = mode[0] == 'r' || strchr(mode, '+');
    wr = mode[0] != 'r' || strchr(mode, '+');
    f = vf_find(path);
    if (!f && wr) {
        f = vf_get(path);
    }
    if (!f) {
        if (g_log_io)
            logf_("O - %s %s %d\n", path, mode, ENOENT);
        errno = ENOENT;
        return NULL;
    }
    if ((e = vf_fault(f, OP_OPEN)) || (g_nlive >= g_max_open && (e = EMFILE))) {
        if (g_log_io)
            logf_("O - %s %s %d\n", path, mode, e);
        errno = e;
        return NULL;
    }
    if (!f->exists && !wr) {
        if (g_log_io)
            logf_("O - %s %s %d\n", path, mode, ENOENT);
        errno = ENOENT;
        return NULL;
    }
    if (mode[0] == 'w') {
        f->len = 0;
        f->exists = 1;
    }
    fp = vopen(f, mode, rd, wr);
    if (fp && g_log_io && !f->is_lib)
        logf_("O %d %s %s 0\n", g_nh - 1, path, mode);
    return fp;
}

int
__wrap_fclose(FILE *fp)
{
    int i;

    for (i = g_nh - 1; i >= 0; i--)
        if (g_handles[i]->fp == fp && g_handles[i]->live)
            break;
    if (i < 0) {
        logf_("BAD fclose of a stream that is not open\n");
        errno = EBADF;
        return EOF;
    }
    {
        struct vhandle *h = g_handles[i];
        int r = __real_fclose(fp);
        int e = errno;
        h->fp = NULL;
        errno = e;
        return r;
    }
}

static void
check_stream(FILE *fp, const char *what)
{
    int i;

    if (fp == stdin || fp == stdout || fp == stderr)
        return;
    for (i = g_nh - 1; i >= 0; i--)
        if (g_handles[i]->fp == fp && g_handles[i]->live)
            return;
    logf_("BAD %s on a stream that is not open\n", what);
    sim_end("BAD", 0);
}

int __real_fgetc(FILE *); int __real_ungetc(int, FILE *);
int __real_fputs(const char *, FILE *); int __real_fflush(FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __wrap_fgetc(FILE *f) { check_stream(f, "fgetc"); return __real_fgetc(f); }
int __wrap_ungetc(int c, FILE *f) { check_stream(f, "ungetc"); return __real_ungetc(c, f); }
int __wrap_fputs(const char *s, FILE *f) { check_stream(f, "fputs"); return __real_fputs(s, f); }
int __wrap_fflush(FILE *f) { if (f) check_stream(f, "fflush"); return __real_fflush(f); }
size_t
__wrap_fwrite(const void *p, size_t a, size_t b, FILE *f)
{
    check_stream(f, "fwrite");
    return __real_fwrite(p, a, b, f);
}

/* ------------------------------------------------------------ GC schedule */
static int
gc_decide(void)
{
    int r = 0;
    uint64_t at;

    g_allocs++;
    at = g_allocs - g_gcbase;
    if (g_allocs > g_maxallocs) {
        logf_("LIMIT cell allocations\n");
        sim_end("LIMIT", 0);
    }
    /* the constants of the storage layer are made before the first stack is
       registered, GC is impossible there (heaps hold more cells than that) */
    if (!g_inited && (!g_gc_during_init || !scm_gc_protected_contextp()))
        return 0;
    if (g_inmain && !scm_gc_protected_contextp())
        return 0;
    if (g_gchold || g_forced >= g_gclimit)
        return 0;
    switch (g_gcmode) {
    case GC_NONE:
        break;
    case GC_EVERY:
        r = (at % g_gcn) == g_gcoff % g_gcn;
        break;
    case GC_RATE:
        r = (mix(g_gcseed ^ at) & 0xfffff) < g_gcnum;
        break;
    case GC_BURST:      /* bursts: gcnum of every gcn windows of gcoff allocs */
        r = (mix(g_gcseed ^ (at / g_gcoff)) % g_gcn) < g_gcnum;
        break;
    case GC_AT:
        while (g_gcat_i < g_gcat_n && g_gcat[g_gcat_i] < at)
            g_gcat_i++;
        r = g_gcat_i < g_gcat_n && g_gcat[g_gcat_i] == at;
        break;
    }
    if (r) {
        g_forced++;
        if (g_log_gc)
            logf_("G %llu\n", (unsigned long long)at);
    }
    return r;
}

/* ---------------------------------------------------------------- printer */
static int g_print_budget;

static void
pr_bytes(const char *s, size_t n)
{
    size_t i, m = n;

    /* bounded, also for circular data: a string costs a quarter of its size */
    g_print_budget -= n / 4;
    if (m > 65536)
        m = 65536;
    for (i = 0; i < m; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\')
            logf_("\\%c", c);
        else if (c < 0x20 || c >= 0x7f)
            logf_("\\x%02x;", c);
        else
            logb(&s[i], 1);
    }
    if (m < n)
        logf_("...%zu", n);
}

static char g_cbuf[64];     /* what C pointer objects of the scenario point to */

/* what an embedding program hands to scm_array2list() and scm_list2array() */
static ScmObj
capi_conv(void *p)
{
    return CONS(MAKE_STRING_COPYING((const char *)p, SCM_STRLEN_UNKNOWN),
                SCM_NULL);
}

static void *
capi_back(ScmObj o)
{
    if (!CONSP(o) || !STRINGP(CAR(o)))
        scm_error_obj("sim-ops", "not a box", o);
    return SCM_STRING_STR(CAR(o));
}

static void
pr(ScmObj o, int depth)
{
    scm_int_t i;

    if (--g_print_budget < 0 || depth > 60) {
        logf_("...");
        return;
    }
    if (NULLP(o)) { logf_("()"); return; }
    if (EQ(o, SCM_TRUE)) { logf_("#t"); return; }
    if (EQ(o, SCM_FALSE)) { logf_("#f"); return; }
    if (EQ(o, SCM_EOF)) { logf_("#<eof>"); return; }
    if (EQ(o, SCM_UNDEF)) { logf_("#<undef>"); return; }
    if (EQ(o, SCM_UNBOUND)) { logf_("#<unbound>"); return; }
    if (EQ(o, SCM_INVALID)) { logf_("#<invalid>"); return; }
    if (INTP(o)) { logf_("%lld", (long long)SCM_INT_VALUE(o)); return; }
    if (CHARP(o)) { logf_("#\\x%llx", (unsigned long long)SCM_CHAR_VALUE(o)); return; }
    if (CONSP(o)) {
        if (!FALSEP(scm_p_error_objectp(o)) && CONSP(CDR(o))
            && CONSP(CDR(CDR(o)))) {
            logf_("#<error ");
            pr(CAR(CDR(o)), depth + 1);
            logf_(" ");
            pr(CAR(CDR(CDR(o))), depth + 1);
            logf_(">");
            return;
        }
        logf_("(");
        for (;;) {
            pr(CAR(o), depth + 1);
            o = CDR(o);
            if (!CONSP(o) || g_print_budget < 0)
                break;
            logf_(" ");
        }
        if (!NULLP(o)) {
            logf_(" . ");
            pr(o, depth + 1);
        }
        logf_(")");
        return;
    }
#if SCM_USE_HYGIENIC_MACRO
    while (FARSYMBOLP(o))
        o = SCM_FARSYMBOL_SYM(o);
#endif
    if (SYMBOLP(o)) {
        const char *s = SCM_SYMBOL_NAME(o);
        logf_("|");
        pr_bytes(s, strlen(s));
        logf_("|");
        return;
    }
    if (STRINGP(o)) {
        const char *s = SCM_STRING_STR(o);
        logf_("\"");
        pr_bytes(s, strlen(s));
        logf_("\"/%lld", (long long)SCM_STRING_LEN(o));
        return;
    }
    if (VECTORP(o)) {
        logf_("#(");
        for (i = 0; i < SCM_VECTOR_LEN(o) && g_print_budget >= 0; i++) {
            if (i)
                logf_(" ");
            pr(SCM_VECTOR_VEC(o)[i], depth + 1);
        }
        logf_(")");
        return;
    }
    if (CLOSUREP(o)) { logf_("#<closure>"); return; }
    if (FUNCP(o)) { logf_("#<func>"); return; }
    if (PORTP(o)) { logf_("#<port %d>", SCM_PORT_IMPL(o) ? 1 : 0); return; }
    if (CONTINUATIONP(o)) { logf_("#<cont>"); return; }
    if (VALUEPACKETP(o)) { logf_("#<values>"); return; }
    if (C_POINTERP(o)) {
        logf_("#<cptr %ld>", (long)((char *)SCM_C_POINTER_VALUE(o) - g_cbuf));
        return;
    }
    if (C_FUNCPOINTERP(o)) {
        logf_("#<fptr %d>", SCM_C_FUNCPOINTER_VALUE(o) == (ScmCFunc)capi_conv);
        return;
    }
    logf_("#<other>");
}

static void
pr_top(ScmObj o)
{
    g_print_budget = 20000;
    pr(o, 0);
}

/* --------------------------------------------------- procedures for scripts */
static ScmObj
p_log(ScmObj o)
{
    logf_("L ");
    pr_top(o);
    logf_("\n");
    return o;
}

static ScmObj
p_gc(void)
{
    scm_sim_gc();
    return SCM_UNDEF;
}

/* (sim-step obj): returns obj, or signals an error if the plan says so */
static ScmObj
p_step(ScmObj o)
{
    size_t i;

    g_steps++;
    if (g_stepmod && g_steps % g_stepmod == g_stepoff) {
        logf_("! step %llu\n", (unsigned long long)g_steps);
        scm_error_obj("sim-step", "injected", o);
    }
    for (i = 0; i < g_stepfail_n; i++)
        if (g_stepfail[i] == g_steps) {
            logf_("! step %llu\n", (unsigned long long)g_steps);
            scm_error_obj("sim-step", "injected", o);
        }
    return o;
}

/* (sim-heap): number of occupied cells after a full GC */
static ScmObj
p_heap(void)
{
    size_t h, c, f;

    scm_sim_gc();
    scm_sim_heap_stats(&h, &c, &f);
    return MAKE_INT(c - f);
}

static ScmObj
p_nheaps(void)
{
    size_t h, c, f;

    scm_sim_heap_stats(&h, &c, &f);
    return MAKE_INT(h);
}

static ScmObj
p_native(void)
{
    return MAKE_INT(g_blk_bytes);
}

static ScmObj
p_nblocks(void)
{
    return MAKE_INT(g_blk_n);
}

static ScmObj
p_openfiles(void)
{
    return MAKE_INT(g_nlive);
}

/* (sim-fsize path): what the simulated disk holds of a file, -1 if nothing */
static ScmObj
p_fsize(ScmObj o)
{
    struct vfile *f = vf_find(SCM_STRING_STR(o));

    return MAKE_INT(f && f->exists ? (scm_int_t)f->len : -1);
}

/* (sim-cformat fmt args): what an embedding program does with scm_format().
 * args are fixnums and characters (passed as they are), strings (passed as C
 * strings) and one-element vectors (passed as objects). Values of any size up
 * to 64 bits are passed in the same way by the calling convention. */
static ScmObj
p_cformat(ScmObj fmt, ScmObj args)
{
    uintptr_t a[8];
    int n = 0;
    ScmObj x, l, ret;
    volatile ScmObj keep[2];

    memset(a, 0, sizeof(a));
    for (l = args; SCM_CONSP(l) && n < 8; l = SCM_CDR(l)) {
        x = SCM_CAR(l);
        if (SCM_INTP(x))
            a[n++] = (uintptr_t)(intptr_t)SCM_INT_VALUE(x);
        else if (SCM_CHARP(x))
            a[n++] = SCM_CHAR_VALUE(x);
        else if (SCM_STRINGP(x))
            a[n++] = (uintptr_t)SCM_STRING_STR(x);
        else if (SCM_VECTORP(x))
            a[n++] = (uintptr_t)SCM_VECTOR_VEC(x)[0];
    }
    /* (the C string belongs to the embedding program) */
    fmt = scm_p_string_copy(fmt);
    ret = scm_format(SCM_FALSE, SCM_FMT_INTERNAL, SCM_STRING_STR(fmt),
                     a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    keep[0] = fmt;
    keep[1] = args;
    (void)keep[0], (void)keep[1];
    return ret;
}

static ScmObj
p_mark(ScmObj o)
{
    size_t h, c, f;

    scm_sim_gc();
    scm_sim_heap_stats(&h, &c, &f);
    logf_("M %lld cells=%zu heaps=%zu native=%zu blocks=%zu open=%d\n",
          (long long)SCM_INT_VALUE(o), c - f, h, g_blk_bytes, g_blk_n, g_nlive);
    return SCM_UNDEF;
}

static ScmObj
p_marm(ScmObj o)
{
    g_marm = !FALSEP(o);
    return o;
}

static void run_ops(void);
static char *g_frame_lo, *g_frame_hi;
/* (sim-sp): depth of the C stack in bytes below the run loop */
static ScmObj
p_sp(void)
{
    char here;

    return MAKE_INT((scm_int_t)(g_frame_hi - &here));
}

/* an embedder C procedure that calls back: (sim-call proc arg ...) */
static ScmObj
p_call(ScmObj proc, ScmObj args)
{
    return scm_call(proc, args);
}

/* (sim-ops): the embedder's C code inside a Scheme evaluation */
static ScmObj
p_ops(void)
{
    run_ops();
    return SCM_TRUE;
}

static void *
reg_procs(void *dummy)
{
    scm_register_func("sim-ops", p_ops, SCM_PROCEDURE_FIXED_0);
    scm_register_func("sim-log", p_log, SCM_PROCEDURE_FIXED_1);
    scm_register_func("sim-step", p_step, SCM_PROCEDURE_FIXED_1);
    scm_register_func("sim-gc", p_gc, SCM_PROCEDURE_FIXED_0);
    scm_register_func("sim-heap", p_heap, SCM_PROCEDURE_FIXED_0);
    scm_register_func("sim-nheaps", p_nheaps, SCM_PROCEDURE_FIXED_0);
    scm_register_func("sim-native", p_native, SCM_PROCEDURE_FIXED_0);
    scm_register_func("sim-nblocks", p_nblocks, SCM_PROCEDURE_FIXED_0);
    scm_register_func("sim-openfiles", p_openfiles, SCM_PROCEDURE_FIXED_0);
    scm_register_func("sim-fsize", p_fsize, SCM_PROCEDURE_FIXED_1);
    scm_register_func("sim-cformat", p_cformat, SCM_PROCEDURE_FIXED_2);
    scm_register_func("sim-mark", p_mark, SCM_PROCEDURE_FIXED_1);
    scm_register_func("sim-malloc-faults", p_marm, SCM_PROCEDURE_FIXED_1);
    scm_register_func("sim-sp", p_sp, SCM_PROCEDURE_FIXED_0);
    scm_register_func("sim-call", p_call, SCM_PROCEDURE_VARIADIC_1);
    return NULL;
}

/* -------------------------------------------------------------- scenario */
struct op { char *name; char *arg[8]; int nargs; };
static struct op *g_ops;
static size_t g_nops, g_pc;
static long g_rep;
static ScmStorageConf g_conf;
static int g_have_conf;
static char *g_argv[32];
static int g_argc;
static size_t g_native_base;

static unsigned char *
unhex(const char *s, size_t *n)
{
    size_t l = strlen(s) / 2, i;
    unsigned char *b = __real_malloc(l + 1);
    unsigned v;

    for (i = 0; i < l; i++) {
        char t[3] = { s[2 * i], s[2 * i + 1], 0 };
        v = strtoul(t, NULL, 16);
        b[i] = v;
    }
    b[l] = 0;
    if (n)
        *n = l;
    return b;
}

static void
fatal_cb(void)
{
    logf_("FATALCB\n");
}

static void
dump_files(void)
{
    struct vfile *f;

    for (f = g_files; f; f = f->next) {
        if (f->is_lib || !f->exists)
            continue;
        if (!f->cnt[OP_OPEN] && !f->cnt[OP_WRITE] && f->path[0] != '<')
            continue;
        if (!f->cnt[OP_WRITE])
            continue;
        logf_("F %s ", f->path);
        loghex(f->data, f->len);
        logf_("\n");
    }
}

static void
log_stats(void)
{
    logf_("STAT allocs=%llu forced=%llu steps=%llu mcalls=%llu mfired=%llu "
          "blocks=%zu bytes=%zu native_hw=%zu open=%d opened=%d foreign=%llu\n",
          (unsigned long long)g_allocs, (unsigned long long)g_forced,
          (unsigned long long)g_steps, (unsigned long long)g_mcalls,
          (unsigned long long)g_mfired,
          g_blk_n, g_blk_bytes, g_blk_hw, g_nlive - 3, g_nh - 3,
          (unsigned long long)g_foreign);
}

static void
sim_end(const char *why, int code)
{
    g_armed = 0;
    /* what exit(3) does with streams that are still open */
    if (!strcmp(why, "EXIT") || !strcmp(why, "DONE")) {
        int i;
        for (i = 0; i < g_nh; i++)
            if (g_handles[i]->live && g_handles[i]->fp)
                __real_fflush(g_handles[i]->fp);
    }
    dump_files();
    log_stats();
    logf_("END %s %d\n", why, code);
    _exit(0);
}

void
__wrap_exit(int code)
{
    sim_end("EXIT", code);
}

#define NSLOT 64
static ScmObj g_slot[NSLOT];
static ScmObj *g_heapslot[NSLOT];

static void run_ops(void);
static void snapshot(void);
static void set_cpu(void);
int sscm_main(int argc, char **argv);

static void *
run_ops_gate(void *dummy)
{
    run_ops();
    return NULL;
}

static void *
gc_gate(void *dummy)
{
    /* a string port releases its string when it is swept itself */
    scm_sim_gc();
    scm_sim_gc();
    scm_sim_gc();
    return NULL;
}

struct evalreq { const char *exp; ScmObj env; };

/* read + eval every form of a string inside one gc-ready stack */
static void *
eval_all(void *p)
{
    struct evalreq *r = p;
    ScmObj port, form, val;

    port = scm_p_srfi6_open_input_string(scm_make_immutable_string_copying(r->exp, SCM_STRLEN_UNKNOWN));
    val = SCM_UNDEF;
    for (;;) {
        form = scm_read(port);
        if (EOFP(form))
            break;
        val = EVAL(form, SCM_INTERACTION_ENV);
    }
    return (void *)val;
}

static ScmObj
do_eval(const char *exp)
{
    struct evalreq r;

    r.exp = exp;
    return (ScmObj)scm_call_with_gc_ready_stack(eval_all, &r);
}

/* objects held by plain C variables over calls into the interpreter */
static ScmObj
reg_work(ScmObj proc, long n)
{
    ScmObj a, b, c;
    char buf[32];
    long k;

    a = MAKE_STRING_COPYING("a", SCM_STRLEN_UNKNOWN);
    b = CONS(a, SCM_NULL);
    for (k = 0; k < n; k++) {
        c = scm_call(proc, LIST_2(a, MAKE_INT(k)));
        b = CONS(c, b);
        snprintf(buf, sizeof(buf), "b%ld", k);
        a = MAKE_STRING_COPYING(buf, SCM_STRLEN_UNKNOWN);
    }
    return CONS(a, b);
}

static void
run_ops(void)
{
    volatile ScmObj loc[16];
    int i;
    char frame;

    if (!g_frame_hi)
        g_frame_hi = &frame;
    for (i = 0; i < 16; i++)
        loc[i] = SCM_FALSE;

    while (g_pc < g_nops) {
        struct op *o;
        const char *n;
        if (g_rep && strcmp(g_ops[g_pc].name, "rep")) {
            o = &g_ops[g_pc];
            if (!--g_rep)
                g_pc++;
        } else {
            o = &g_ops[g_pc++];
        }
        n = o->name;
        long a0 = o->nargs > 0 ? strtol(o->arg[0], NULL, 0) : 0;

        if (!strcmp(n, "init")) {
            static char *none[1];
            char **rest;
            g_armed = 1;
            g_native_base = 0;
            scm_sim_gc_decider = gc_decide;
            rest = scm_initialize(g_have_conf ? &g_conf : NULL,
                                  (const char *const *)(g_argc ? g_argv : none));
            (void)rest;
            scm_set_fatal_error_callback(fatal_cb);
            if (!g_nolibpath && g_libpath)
                scm_set_lib_path(g_libpath);
            scm_require_module("srfi-34");
            scm_call_with_gc_ready_stack(reg_procs, NULL);
            g_inited = 1;
            g_marm = 1;
        } else if (!strcmp(n, "argv")) {    /* for the next init */
            for (g_argc = 0; g_argc < o->nargs; g_argc++)
                g_argv[g_argc] = (char *)unhex(o->arg[g_argc], NULL);
            g_argv[g_argc] = NULL;
        } else if (!strcmp(n, "libpath")) { /* for the next inits */
            g_libpath = o->nargs ? (char *)unhex(o->arg[0], NULL) : NULL;
        } else if (!strcmp(n, "setlibpath")) {
            scm_set_lib_path((char *)unhex(o->arg[0], NULL));
        } else if (!strcmp(n, "conf")) {    /* for the next init */
            g_have_conf = o->nargs >= 5;
            if (g_have_conf) {
                g_conf.heap_size = strtoul(o->arg[0], NULL, 0);
                g_conf.heap_alloc_threshold = strtoul(o->arg[1], NULL, 0);
                g_conf.n_heaps_max = strtoul(o->arg[2], NULL, 0);
                g_conf.n_heaps_init = strtoul(o->arg[3], NULL, 0);
                g_conf.symbol_hash_size = strtoul(o->arg[4], NULL, 0);
            }
        } else if (!strcmp(n, "fini")) {
            g_marm = 0;
            scm_finalize();
            g_inited = 0;
            logf_("FINI blocks=%zu bytes=%zu open=%d\n", g_blk_n, g_blk_bytes,
                  g_nlive - 3);
        } else if (!strcmp(n, "repl") || !strcmp(n, "main")) {
            char *argv[32];
            int k, rc;
            static char *self = (char *)"sscm";
            argv[0] = self;
            for (k = 0; k < o->nargs; k++)
                argv[k + 1] = (char *)unhex(o->arg[k], NULL);
            argv[k + 1] = NULL;
            g_armed = 1;
            scm_sim_gc_decider = gc_decide;
            g_inited = 1;
            g_marm = 1;
            g_inmain = 1;
            rc = sscm_main(o->nargs + 1, argv);
            g_inmain = 0;
            g_marm = 0;
            logf_("MAIN %d\n", rc);
            g_inited = 0;
        } else if (!strcmp(n, "evalc")) {   /* the public one-form C API */
            char *s = (char *)unhex(o->arg[0], NULL);
            ScmObj r = scm_eval_c_string(s);
            logf_("R ");
            pr_top(r);
            logf_("\n");
        } else if (!strcmp(n, "eval")) {
            char *s = (char *)unhex(o->arg[0], NULL);
            ScmObj r = do_eval(s);
            if (o->nargs < 2) {
                logf_("R ");
                pr_top(r);
                logf_("\n");
            }
        } else if (!strcmp(n, "load")) {
            scm_load((char *)unhex(o->arg[0], NULL));
            logf_("LOADED\n");
        } else if (!strcmp(n, "require")) {
            scm_require_module((char *)unhex(o->arg[0], NULL));
        } else if (!strcmp(n, "enter")) {
            scm_call_with_gc_ready_stack(run_ops_gate, NULL);
        } else if (!strcmp(n, "leave")) {
            return;
        } else if (!strcmp(n, "protect")) {
            scm_gc_protect(&g_slot[a0]);
        } else if (!strcmp(n, "protecti")) { /* protect_with_init */
            ScmObj v = do_eval((char *)unhex(o->arg[1], NULL));
            scm_gc_protect_with_init(&g_slot[a0], v);
        } else if (!strcmp(n, "unprotect")) {
            scm_gc_unprotect(&g_slot[a0]);
        } else if (!strcmp(n, "hprotect")) { /* variable in malloc'ed memory */
            g_heapslot[a0] = __real_malloc(sizeof(ScmObj));
            *g_heapslot[a0] = SCM_FALSE;
            scm_gc_protect(g_heapslot[a0]);
        } else if (!strcmp(n, "hunprotect")) {
            scm_gc_unprotect(g_heapslot[a0]);
            __real_free(g_heapslot[a0]);
            g_heapslot[a0] = NULL;
        } else if (!strcmp(n, "rounds")) {  /* protect at most a0 at a time */
            static ScmObj pool[64];
            static char in[64];
            long k, j, rounds = atol(o->arg[1]);
            unsigned long x = atol(o->arg[2]) * 2654435761UL + 1;
            size_t before;
            for (j = 0; j < a0; j++) {
                pool[j] = SCM_FALSE;
                in[j] = 1;
                scm_gc_protect(&pool[j]);
            }
            before = g_blk_bytes;
            for (k = 0; k < rounds * a0; k++) {
                x = x * 6364136223846793005UL + 1442695040888963407UL;
                j = (x >> 33) % a0;
                if (in[j])
                    scm_gc_unprotect(&pool[j]);
                else
                    scm_gc_protect_with_init(&pool[j], SCM_FALSE);
                in[j] = !in[j];
            }
            for (j = 0; j < a0; j++)
                if (in[j])
                    scm_gc_unprotect(&pool[j]);
            logf_("ROUNDS %ld before=%zu after=%zu\n", rounds * a0, before,
                  g_blk_bytes);
        } else if (!strcmp(n, "hset")) {
            *g_heapslot[a0] = do_eval((char *)unhex(o->arg[1], NULL));
        } else if (!strcmp(n, "hcheck")) {
            logf_("H%ld ", a0);
            pr_top(*g_heapslot[a0]);
            logf_("\n");
        } else if (!strcmp(n, "set")) {
            g_slot[a0] = do_eval((char *)unhex(o->arg[1], NULL));
        } else if (!strcmp(n, "clear")) {
            g_slot[a0] = SCM_FALSE;
        } else if (!strcmp(n, "check")) {
            logf_("S%ld ", a0);
            pr_top(g_slot[a0]);
            logf_("\n");
        } else if (!strcmp(n, "gcp")) {
            logf_("P%ld %d\n", a0, (int)scm_gc_protectedp(g_slot[a0]));
        } else if (!strcmp(n, "ctxp")) {
            logf_("CTX %d\n", (int)scm_gc_protected_contextp());
        } else if (!strcmp(n, "lset")) {
            loc[a0] = do_eval((char *)unhex(o->arg[1], NULL));
        } else if (!strcmp(n, "lclear")) {
            loc[a0] = SCM_FALSE;
        } else if (!strcmp(n, "lcheck")) {
            logf_("V%ld ", a0);
            pr_top(loc[a0]);
            logf_("\n");
        } else if (!strcmp(n, "lmk")) {
            /* build an object with the C API itself, held only by C locals */
            ScmObj l = SCM_NULL, s;
            long k, m = strtol(o->arg[1], NULL, 0);
            for (k = 0; k < m; k++) {
                char b[32];
                snprintf(b, sizeof(b), "s%ld-%ld", a0, k);
                s = MAKE_STRING_COPYING(b, SCM_STRLEN_UNKNOWN);
                l = CONS(CONS(s, MAKE_INT(k)), l);
            }
            loc[a0] = l;
        } else if (!strcmp(n, "larr")) {
            /* C strings to a list and back */
            static char cs[64][16];
            void *ary[64];
            void **back;
            long k, m = strtol(o->arg[1], NULL, 0);
            int same = 1;
            size_t len = 999;

            for (k = 0; k < m; k++) {
                snprintf(cs[k], sizeof(cs[k]), "r%ld-%ld", a0, k);
                ary[k] = cs[k];
            }
            loc[a0] = scm_array2list(ary, m, capi_conv);
            back = scm_list2array(loc[a0], &len, capi_back);
            for (k = 0; k < m && k < (long)len; k++)
                same = same && !strcmp(back[k], cs[k]);
            logf_("A%ld %zu %d\n", a0, len, same);
            free(back);
        } else if (!strcmp(n, "larr2")) {   /* locals to a list */
            void *ary[16];
            long k, m = strtol(o->arg[1], NULL, 0);
            for (k = 0; k < m; k++)
                ary[k] = (void *)loc[k];
            loc[a0] = scm_array2list(ary, m, NULL);
        } else if (!strcmp(n, "lobj")) {    /* one object of each kind */
            ScmObj *v = scm_malloc(sizeof(ScmObj) * 3), x, y = SCM_NULL;
            long m = strtol(o->arg[1], NULL, 0);

            v[0] = v[1] = v[2] = SCM_FALSE;
            x = MAKE_IMMUTABLE_VECTOR(v, 3);
            v[0] = MAKE_IMMUTABLE_STRING_COPYING("im", 2);
            v[1] = SCM_MAKE_C_POINTER(g_cbuf + m);
            v[2] = SCM_MAKE_C_FUNCPOINTER((ScmCFunc)capi_conv);
            y = SCM_MAKE_IMMUTABLE_CONS(MAKE_CHAR(0x3042), y);
            y = SCM_MAKE_IMMUTABLE_CONS(scm_intern("new-sym"), y);
            y = SCM_MAKE_CONS(MAKE_STRING(scm_strdup("own"), 3), y);
            loc[a0] = SCM_MAKE_CONS(x, y);
        } else if (!strcmp(n, "lptr")) {    /* change the pointer of lobj */
            SCM_C_POINTER_SET_VALUE(SCM_VECTOR_VEC(CAR(loc[a0]))[1],
                                    g_cbuf + strtol(o->arg[1], NULL, 0));
        } else if (!strcmp(n, "lstr")) {    /* evaluate a C string */
            loc[a0] = scm_eval_c_string((char *)unhex(o->arg[1], NULL));
        } else if (!strcmp(n, "bound")) {
            char *s = (char *)unhex(o->arg[0], NULL);
            ScmObj v = scm_symbol_value(scm_intern(s), SCM_INTERACTION_ENV);
            ScmObj y = scm_symbol_bound_to(v);
            logf_("B ");
            pr_top(y);
            logf_(" %d\n", SYMBOLP(y) && EQ(SCM_SYMBOL_VCELL(y), v));
        } else if (!strcmp(n, "lcons")) {
            loc[a0] = CONS(loc[strtol(o->arg[1], NULL, 0)],
                           loc[strtol(o->arg[2], NULL, 0)]);
        } else if (!strcmp(n, "lput")) {    /* local to slot */
            g_slot[a0] = loc[strtol(o->arg[1], NULL, 0)];
        } else if (!strcmp(n, "lget")) {    /* slot to local */
            loc[a0] = g_slot[strtol(o->arg[1], NULL, 0)];
        } else if (!strcmp(n, "lvec")) {    /* vector of all locals */
            ScmObj *v = scm_malloc(sizeof(ScmObj) * 16);
            int k;
            for (k = 0; k < 16; k++)
                v[k] = SCM_FALSE;
            for (k = 1; k < o->nargs; k++)
                v[k - 1] = loc[strtol(o->arg[k], NULL, 0)];
            loc[a0] = MAKE_VECTOR(v, 16);
        } else if (!strcmp(n, "lcall")) {   /* call the procedure in a local */
            ScmObj q = SCM_NULL;
            int k;
            for (k = o->nargs - 1; k >= 2; k--)
                q = CONS(loc[strtol(o->arg[k], NULL, 0)], q);
            loc[a0] = scm_call(loc[strtol(o->arg[1], NULL, 0)], q);
        } else if (!strcmp(n, "lreg")) {
            loc[a0] = reg_work(loc[strtol(o->arg[1], NULL, 0)],
                               strtol(o->arg[2], NULL, 0));
        } else if (!strcmp(n, "raise")) {
            scm_error_obj("sim-ops", "raised", loc[a0]);
        } else if (!strcmp(n, "snapshot")) {
            snapshot();
        } else if (!strcmp(n, "gcgo")) {
            g_gchold = 0;
            g_gcbase = g_allocs;
        } else if (!strcmp(n, "gc1")) {     /* collect inside a GC-ready stack */
            scm_call_with_gc_ready_stack(gc_gate, NULL);
        } else if (!strcmp(n, "gc")) {
            scm_sim_gc();
        } else if (!strcmp(n, "mark")) {
            size_t h, c, f;
            scm_sim_gc();
            scm_sim_heap_stats(&h, &c, &f);
            logf_("M %ld cells=%zu heaps=%zu native=%zu blocks=%zu open=%d\n",
                  a0, c - f, h, g_blk_bytes, g_blk_n, g_nlive - 3);
        } else if (!strcmp(n, "mark1")) {   /* mark, inside a GC-ready stack */
            size_t h, c, f;
            scm_call_with_gc_ready_stack(gc_gate, NULL);
            scm_sim_heap_stats(&h, &c, &f);
            logf_("M %ld cells=%zu heaps=%zu native=%zu blocks=%zu open=%d\n",
                  a0, c - f, h, g_blk_bytes, g_blk_n, g_nlive - 3);
        } else if (!strcmp(n, "rep")) {     /* rep N: the next op N times */
            if (!g_rep)
                g_rep = a0;
        } else if (!strcmp(n, "say")) {
            logf_("SAY %ld\n", a0);
        } else if (!strcmp(n, "marm")) {
            g_marm = a0;
        } else if (!strcmp(n, "mreset")) {
            g_mcalls = 0;
        } else if (!strcmp(n, "append")) {  /* another process appends */
            struct vfile *f = vf_get(o->arg[0]);
            size_t l;
            unsigned char *b = unhex(o->arg[1], &l);
            f->exists = 1;
            f->data = __real_realloc(f->data, f->len + l + 1);
            memcpy(f->data + f->len, b, l);
            f->len += l;
            f->cap = f->len + 1;
        } else if (!strcmp(n, "stdflush")) {
            __real_fflush(stdout);
            __real_fflush(stderr);
        } else {
            logf_("HARNESS unknown op %s\n", n);
            sim_end("HARNESS", 2);
        }
    }
}

static int g_cpu = 20;

static void
set_cpu(void)
{
    struct rlimit rl = { g_cpu, g_cpu + 5 };

    setrlimit(RLIMIT_CPU, &rl);
}

static size_t *
parse_sizes(char *save, size_t *n)
{
    size_t *v = __real_malloc(sizeof(*v) * 4096);
    char *t;

    *n = 0;
    while ((t = strtok_r(NULL, " ", &save)) && *n < 4096)
        v[(*n)++] = strtoul(t, NULL, 10);
    return v;
}

static uint64_t *
parse_u64(char *save, size_t *n)
{
    size_t cap = 64;
    uint64_t *v = __real_malloc(sizeof(*v) * cap);
    char *t;

    *n = 0;
    while ((t = strtok_r(NULL, " ", &save))) {
        if (*n == cap)
            v = __real_realloc(v, sizeof(*v) * (cap *= 2));
        v[(*n)++] = strtoull(t, NULL, 10);
    }
    return v;
}

static void
parse(char *s)
{
    char *line, *ls = NULL;
    static size_t cap = 256;

    if (!g_ops)
        g_ops = __real_malloc(sizeof(*g_ops) * cap);
    for (line = strtok_r(s, "\n", &ls); line; line = strtok_r(NULL, "\n", &ls)) {
        char *save = NULL, *k = strtok_r(line, " ", &save), *t;

        if (!k || k[0] == '#')
            continue;
        if (!strcmp(k, "heap")) {
            size_t n, *v = parse_sizes(save, &n);
            g_have_conf = 1;
            memset(&g_conf, 0, sizeof(g_conf));
            g_conf.heap_size = v[0];
            g_conf.heap_alloc_threshold = v[1];
            g_conf.n_heaps_max = v[2];
            g_conf.n_heaps_init = v[3];
            g_conf.symbol_hash_size = v[4];
        } else if (!strcmp(k, "gc")) {
            t = strtok_r(NULL, " ", &save);
            if (!strcmp(t, "none")) {
                g_gcmode = GC_NONE;
            } else if (!strcmp(t, "at")) {
                g_gcmode = GC_AT;
                g_gcat = parse_u64(save, &g_gcat_n);
            } else {
                size_t n;
                uint64_t *v = parse_u64(save, &n);
                if (!strcmp(t, "every")) {
                    g_gcmode = GC_EVERY;
                    g_gcn = v[0] ? v[0] : 1;
                    g_gcoff = n > 1 ? v[1] : 0;
                } else if (!strcmp(t, "rate")) {
                    g_gcmode = GC_RATE;
                    g_gcseed = mix(v[0]);
                    g_gcnum = v[1];
                } else if (!strcmp(t, "burst")) {
                    g_gcmode = GC_BURST;
                    g_gcseed = mix(v[0]);
                    g_gcn = v[1];
                    g_gcnum = v[2];
                    g_gcoff = v[3];
                }
            }
        } else if (!strcmp(k, "gclimit")) {
            g_gclimit = strtoull(strtok_r(NULL, " ", &save), NULL, 10);
        } else if (!strcmp(k, "cpu")) {
            g_cpu = atoi(strtok_r(NULL, " ", &save));
            set_cpu();
        } else if (!strcmp(k, "gchold")) {
            g_gchold = 1;
        } else if (!strcmp(k, "gcinit")) {
            g_gc_during_init = 1;
        } else if (!strcmp(k, "nolibpath")) {
            g_nolibpath = 1;
        } else if (!strcmp(k, "loggc")) {
            g_log_gc = 1;
        } else if (!strcmp(k, "quietio")) {
            g_log_io = 0;
        } else if (!strcmp(k, "maxallocs")) {
            g_maxallocs = strtoull(strtok_r(NULL, " ", &save), NULL, 10);
        } else if (!strcmp(k, "maxopen")) {
            g_max_open = 3 + atoi(strtok_r(NULL, " ", &save));
        } else if (!strcmp(k, "pad")) {
            size_t n, i, *v = parse_sizes(save, &n);
            for (i = 0; i < n; i++)
                *(volatile char *)__real_malloc(v[i] ? v[i] : 1) = 1;
        } else if (!strcmp(k, "file")) {
            struct vfile *f = vf_get(strtok_r(NULL, " ", &save));
            t = strtok_r(NULL, " ", &save);
            f->data = unhex(t ? t : "", &f->len);
            f->cap = f->len + 1;
            f->exists = 1;
            f->is_lib = 0;
        } else if (!strcmp(k, "chunks")) {
            struct vfile *f = vf_get(strtok_r(NULL, " ", &save));
            f->chunks = parse_sizes(save, &f->n_chunks);
        } else if (!strcmp(k, "wchunks")) {
            struct vfile *f = vf_get(strtok_r(NULL, " ", &save));
            f->wchunks = parse_sizes(save, &f->n_wchunks);
        } else if (!strcmp(k, "capacity")) {
            struct vfile *f = vf_get(strtok_r(NULL, " ", &save));
            f->capacity = atol(strtok_r(NULL, " ", &save));
        } else if (!strcmp(k, "bufsize")) {
            struct vfile *f = vf_get(strtok_r(NULL, " ", &save));
            f->bufsize = atoi(strtok_r(NULL, " ", &save));
        } else if (!strcmp(k, "fault")) {
            /* fault PATH op nth errno [persist] */
            struct vfile *f = vf_get(strtok_r(NULL, " ", &save));
            struct fault ft;
            int i;
            t = strtok_r(NULL, " ", &save);
            ft.op = -1;
            for (i = 0; i < N_OPS; i++)
                if (!strcmp(t, op_names[i]))
                    ft.op = i;
            ft.nth = strtoull(strtok_r(NULL, " ", &save), NULL, 10);
            ft.err = atoi(strtok_r(NULL, " ", &save));
            t = strtok_r(NULL, " ", &save);
            ft.persist = t && atoi(t);
            f->faults = __real_realloc(f->faults, sizeof(ft) * (f->n_faults + 1));
            f->faults[f->n_faults++] = ft;
        } else if (!strcmp(k, "mfail")) {
            g_mfail = parse_u64(save, &g_mfail_n);
        } else if (!strcmp(k, "mfailfrom")) {
            g_mfail_from = strtoull(strtok_r(NULL, " ", &save), NULL, 10);
        } else if (!strcmp(k, "stepmod")) {
            g_stepmod = strtoull(strtok_r(NULL, " ", &save), NULL, 10);
            g_stepoff = strtoull(strtok_r(NULL, " ", &save), NULL, 10);
        } else if (!strcmp(k, "stepfail")) {
            g_stepfail = parse_u64(save, &g_stepfail_n);
        } else if (!strcmp(k, "argv")) {
            g_argc = 0;
            while ((t = strtok_r(NULL, " ", &save)) && g_argc < 31)
                g_argv[g_argc++] = (char *)unhex(t, NULL);
            g_argv[g_argc] = NULL;
        } else if (!strcmp(k, "op")) {
            struct op *o;
            if (g_nops == cap)
                g_ops = __real_realloc(g_ops, sizeof(*g_ops) * (cap *= 2));
            o = &g_ops[g_nops++];
            memset(o, 0, sizeof(*o));
            o->name = strtok_r(NULL, " ", &save);
            while ((t = strtok_r(NULL, " ", &save)) && o->nargs < 8)
                o->arg[o->nargs++] = t;
        } else {
            logf_("HARNESS unknown directive %s\n", k);
            sim_end("HARNESS", 2);
        }
    }
}

static void
std_streams(void)
{
    struct vfile *f;
    FILE *fp;

    f = vf_get("<stdin>");
    f->exists = 1;
    fp = vopen(f, "r", 1, 0);
    stdin = fp;
    f = vf_get("<stdout>");
    f->exists = 1;
    fp = vopen(f, "w", 0, 1);
    stdout = fp;
    f = vf_get("<stderr>");
    f->exists = 1;
    f->bufsize = 0;
    fp = vopen(f, "w", 0, 1);
    stderr = fp;
}

static void
child(char *scen)
{
    g_foreign = 0;
    set_cpu();
    g_argv[0] = (char *)"sscm";
    g_argv[1] = (char *)"--system-load-path";
    g_argv[2] = (char *)"/sys";
    g_argc = 3;
    parse(scen);
    std_streams();
    run_ops();
    sim_end("DONE", 0);
}

static void
load_lib(const char *dir)
{
    DIR *d = opendir(dir);
    struct dirent *e;
    char p[4096], v[512];

    if (!d)
        return;
    while ((e = readdir(d))) {
        size_t l = strlen(e->d_name);
        struct vfile *f;
        FILE *fp;
        long n;
        if (l < 4 || strcmp(e->d_name + l - 4, ".scm"))
            continue;
        snprintf(p, sizeof(p), "%s/%s", dir, e->d_name);
        snprintf(v, sizeof(v), "/sys/%s", e->d_name);
        fp = __real_fopen(p, "rb");
        if (!fp)
            continue;
        fseek(fp, 0, SEEK_END);
        n = ftell(fp);
        rewind(fp);
        f = vf_get(v);
        f->data = __real_malloc(n + 1);
        f->len = fread(f->data, 1, n, fp);
        f->cap = n + 1;
        f->exists = 1;
        f->is_lib = 1;
        __real_fclose(fp);
    }
    closedir(d);
}

#define SCENSZ (64u << 20)

static int
readn(int fd, char *b, size_t n)
{
    while (n) {
        ssize_t k = read(fd, b, n);
        if (k <= 0)
            return -1;
        b += k;
        n -= k;
    }
    return 0;
}

static void
writen(int fd, const char *b, size_t n)
{
    while (n) {
        ssize_t k = write(fd, b, n);
        if (k <= 0)
            _exit(3);
        b += k;
        n -= k;
    }
}


/*
 * Snapshots: the part of a scenario up to "op snapshot" is executed once, in a
 * process that then forks one child per scenario with the same beginning. The
 * child's state is what executing the beginning itself would have given.
 */
static char *g_scen;
static int g_zfd = -1;          /* this process holds a snapshot */

static void
snapshot(void)
{
    char *savelog;
    size_t savelen, n;
    int st;
    pid_t pid;

    if (g_zfd < 0)
        return;
    savelen = *g_loglen;
    savelog = mmap(NULL, savelen + 1, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memcpy(savelog, g_log, savelen);
    writen(g_zfd, "R", 1);
    for (;;) {
        if (readn(g_zfd, (char *)&n, sizeof(n)) || n >= SCENSZ
            || readn(g_zfd, g_scen, n))
            _exit(0);
        g_scen[n] = 0;
        memcpy(g_log, savelog, savelen);
        *g_loglen = savelen;
        pid = fork();
        if (!pid) {
            set_cpu();
            close(g_zfd);
            parse(g_scen);
            return;
        }
        if (pid < 0 || waitpid(pid, &st, 0) != pid)
            _exit(0);
        writen(g_zfd, (char *)&st, sizeof(st));
    }
}

#define NZYG 24
#define ZPREFIX (1u << 20)
static struct zyg { pid_t pid; int fd; size_t n; unsigned long used; } g_zyg[NZYG];
static char *g_zprefix;         /* NZYG * ZPREFIX */

static void
enter_child(int errfd)
{
    int nul = open("/dev/null", O_RDWR);

    dup2(nul, 0);
    dup2(nul, 1);
    dup2(errfd, 2);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
}

/* executes scen, returns the wait status; -1: harness failure */
static int
execute(char *scen, size_t n, int errfd)
{
    static const char mark[] = "\nop snapshot\n";
    static unsigned long tick;
    char *m = strstr(scen, mark), c;
    size_t np, rest;
    int st, i, v = 0, sv[2];
    pid_t pid;
    struct zyg *z = NULL;

    if (!m || (np = m + sizeof(mark) - 1 - scen) > ZPREFIX) {
        pid = fork();
        if (!pid) {
            enter_child(errfd);
            child(scen);
        }
        return (pid < 0 || waitpid(pid, &st, 0) != pid) ? -1 : st;
    }
    for (i = 0; i < NZYG; i++) {
        if (g_zyg[i].pid && g_zyg[i].n == np
            && !memcmp(g_zprefix + i * ZPREFIX, scen, np))
            z = &g_zyg[i];
        if (g_zyg[i].used < g_zyg[v].used)
            v = i;
    }
    if (!z) {
        z = &g_zyg[v];
        if (z->pid) {
            kill(z->pid, SIGKILL);
            waitpid(z->pid, &st, 0);
            close(z->fd);
            z->pid = 0;
        }
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv))
            return -1;
        pid = fork();
        if (!pid) {
            enter_child(errfd);
            g_zfd = sv[1];
            close(sv[0]);
            scen[np] = 0;
            child(scen);
        }
        close(sv[1]);
        if (pid < 0)
            return -1;
        if (readn(sv[0], &c, 1)) {      /* ended before the snapshot */
            close(sv[0]);
            return waitpid(pid, &st, 0) == pid ? st : -1;
        }
        z->pid = pid;
        z->fd = sv[0];
        z->n = np;
        memcpy(g_zprefix + v * ZPREFIX, scen, np);
    }
    z->used = ++tick;
    rest = n - np;
    writen(z->fd, (char *)&rest, sizeof(rest));
    writen(z->fd, scen + np, rest);
    return readn(z->fd, (char *)&st, sizeof(st)) ? -1 : st;
}

int
main(int argc, char **argv)
{
    int p, errfd;
    char *shm, *scen;
    static char eb[20001];

    (void)argc;
    p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        struct rlimit rl = { 64u << 20, 64u << 20 };
        setrlimit(RLIMIT_STACK, &rl);
        setenv("SIM_REEXEC", "1", 1);
        if (personality(p | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    shm = mmap(NULL, LOGSZ + 4096, PROT_READ | PROT_WRITE,
               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_loglen = (volatile size_t *)shm;
    g_log = shm + 4096;
    g_blk = mmap(NULL, sizeof(struct blk) * NBLK, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    scen = mmap(NULL, SCENSZ, PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_scen = scen;
    g_zprefix = mmap(NULL, NZYG * ZPREFIX, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    errfd = memfd_create("err", 0);
    load_lib(argv[1] ? argv[1] : "/repo/lib");

    for (;;) {
        char hdr[64];
        size_t i = 0, n;
        int st;
        off_t el;

        for (;;) {
            if (read(0, &hdr[i], 1) != 1)
                return 0;
            if (hdr[i] == '\n')
                break;
            if (++i >= sizeof(hdr) - 1)
                return 2;
        }
        hdr[i] = 0;
        n = strtoul(hdr, NULL, 10);
        /* no allocation here: a run must not depend on the runs before it */
        if (n >= SCENSZ || readn(0, scen, n))
            return 2;
        scen[n] = 0;
        *g_loglen = 0;
        if (ftruncate(errfd, 0))
            return 2;
        lseek(errfd, 0, SEEK_SET);
        if ((st = execute(scen, n, errfd)) == -1)
            return 2;
        el = lseek(errfd, 0, SEEK_END);
        if (el > 20000)
            el = 20000;
        if (pread(errfd, eb, el, 0) != el)
            el = 0;
        n = *g_loglen;
        snprintf(hdr, sizeof(hdr), "%d %zu %zu\n", st, n, (size_t)el);
        writen(1, hdr, strlen(hdr));
        writen(1, g_log, n);
        writen(1, eb, el);
    }
}

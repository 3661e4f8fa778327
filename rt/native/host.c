/* Test host: executes scripted calls through generated stubs and skeletons and logs everything both sides observe. */
#define _GNU_SOURCE
#include "host.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

int32_t drv_call(int be, int k, Object o, Slot *s);
Object mk_call(int be, int k);
extern const int n_entries, n_skels;

#define NCACHE 32
static int logfd = 1;
static char lb[1 << 16];
static size_t ln;
static void flush_log(void) { size_t o = 0; while (o < ln) { ssize_t w = write(logfd, lb + o, ln - o); if (w <= 0) _exit(98); o += (size_t)w; } ln = 0; }
static void L(const char *f, ...) { va_list a; va_start(a, f); if (ln > sizeof lb - 512) flush_log(); ln += (size_t)vsnprintf(lb + ln, 400, f, a); va_end(a); }
static void Lhex(const void *p, size_t n) {
    static const char h[] = "0123456789abcdef";
    const unsigned char *b = p;
    if (!n) { L("-"); return; }
    for (size_t i = 0; i < n; i++) { if (ln > sizeof lb - 512) flush_log(); lb[ln++] = h[b[i] >> 4]; lb[ln++] = h[b[i] & 15]; }
}

/* ---- counting objects */
#define NOBJ 64
typedef struct { int id; long net, minnet, ret, rel, other; } CObj;
static CObj cobj[NOBJ];
static int32_t cobj_invoke(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) {
    CObj *c = h; (void)a; (void)k;
    if (ObjectOp_methodID(op) == Object_OP_retain) { c->net++; c->ret++; return 0; }
    if (ObjectOp_methodID(op) == Object_OP_release) { c->net--; c->rel++; if (c->net < c->minnet) c->minnet = c->net; return 0; }
    c->other++;
    return Object_ERROR_INVALID;
}
static Object obj_of(int id) { return id < 0 || id >= NOBJ ? Object_NULL : (Object){cobj_invoke, &cobj[id]}; }
static int id_of(Object o) {
    if (!o.invoke) return -1;
    if (o.invoke == cobj_invoke && (CObj *)o.context >= cobj && (CObj *)o.context < cobj + NOBJ) return ((CObj *)o.context)->id;
    return -2;
}

/* ---- implementation instances */
typedef struct { int skel, refs, serial; } Inst;
static int serials;
void *host_new(int skel) { Inst *i = malloc(sizeof *i); i->skel = skel; i->refs = 1; i->serial = serials++; return i; }
int32_t host_retain(void *me) { ((Inst *)me)->refs++; return 0; }
int32_t host_release(void *me) { Inst *i = me; if (--i->refs == 0) { L("D %d\n", i->serial); } else if (i->refs < 0) L("DD %d\n", i->serial); return 0; }

/* ---- scripted call */
typedef struct { int out; size_t bytes, elem, len; unsigned char *in; int nobj; int objs[16];
                 unsigned char *ob; size_t obn, lenout; int onobj; int oobjs[16]; } PS;
static struct { int n, mode, status, entered; PS p[64]; Object target; } C;

void host_modified(int idx) { L("X %d\n", idx); }

int32_t host_impl(void *me, int mid, Slot *s, int n) {
    Inst *in = me;
    L("I %d %d %d %d\n", mid, n, in->serial, in->refs);
    C.entered++;
    for (int k = 0; k < n; k++) {
        L("i %d %d %zu %zu ", k, s[k].out, s[k].bytes, s[k].len);
        if (!s[k].out) Lhex(s[k].p, s[k].bytes); else L("-");
        L(" %zu", s[k].nobj);
        if (!s[k].out) for (size_t j = 0; j < s[k].nobj; j++) L(" %d", id_of(s[k].objs[j]));
        L("\n");
    }
    flush_log();
    if (n != C.n) { L("N %d %d\n", n, C.n); return 1; }
    for (int k = 0; k < n; k++) {
        PS *p = &C.p[k];
        if (!s[k].out) continue;
        if (p->obn) memcpy(s[k].p, p->ob, p->obn < s[k].bytes ? p->obn : s[k].bytes);
        s[k].lenout = p->lenout;
        for (int j = 0; j < p->onobj && (size_t)j < s[k].nobj; j++) s[k].objs[j] = obj_of(p->oobjs[j]);
    }
    return C.status;
}

/* ---- memory */
static size_t PG = 4096;
typedef struct { unsigned char *p; size_t n, slack; } Mem;
static Mem mems[64];
static int nmem;
/* n bytes ending (up to alignment slack) at an inaccessible page */
static void *guarded(size_t n, size_t align) {
    size_t pages = (n + PG) / PG + 1;
    unsigned char *b = mmap(NULL, pages * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) _exit(97);
    mprotect(b + (pages - 1) * PG, PG, PROT_NONE);
    unsigned char *e = b + (pages - 1) * PG;
    size_t slack = (align - n % align) % align;
    unsigned char *p = e - slack - n;
    memset(b, 0xEE, (size_t)(e - b));
    if (nmem < 64) mems[nmem++] = (Mem){p, n, slack};
    return p;
}
static void check_canaries(void) {
    for (int i = 0; i < nmem; i++) {
        unsigned char *e = mems[i].p + mems[i].n;
        for (size_t j = 0; j < mems[i].slack; j++) if (e[j] != 0xEE) { L("K after %d\n", i); break; }
        unsigned char *b = (unsigned char *)((uintptr_t)mems[i].p & ~(uintptr_t)(PG - 1));
        for (unsigned char *q = mems[i].p; q-- > b;) if (*q != 0xEE) { L("K before %d\n", i); break; }
    }
}
#define M_DIRECT 1
#define M_NULLEMPTY 2
#define M_GUARD 4
#define M_FAILOO 8
#define M_ALIGN1 16
static void *balloc(size_t n, int mode, int args) {
    if (!n && (mode & M_NULLEMPTY) && !args) return NULL;
    if (mode & M_GUARD) return guarded(n, args ? 16 : (mode & M_ALIGN1) ? 1 : 8);
    return malloc(n ? n : 1);
}

static void log_request(ObjectOp op, ObjectArg *a, ObjectCounts k) {
    size_t i, bi = ObjectCounts_numBI(k), bo = ObjectCounts_numBO(k), oi = ObjectCounts_numOI(k), oo = ObjectCounts_numOO(k);
    L("W %u %u\n", op, k);
    for (i = 0; i < bi; i++) { L("BI %zu ", a[i].bi.size); Lhex(a[i].bi.ptr, a[i].bi.size); L("\n"); }
    for (; i < bi + bo; i++) L("BO %zu\n", a[i].b.size);
    for (; i < bi + bo + oi; i++) L("OI %d\n", id_of(a[i].o));
    L("OO %zu\n", oo);
    flush_log();
}
static void log_reply(int32_t r, ObjectArg *a, ObjectCounts k, const size_t *cap) {
    size_t i, bi = ObjectCounts_numBI(k), bo = ObjectCounts_numBO(k), oi = ObjectCounts_numOI(k), oo = ObjectCounts_numOO(k);
    L("R %d\n", r);
    for (i = bi; i < bi + bo; i++) { L("bo %zu ", a[i].b.size); if (a[i].b.size <= cap[i]) Lhex(a[i].b.ptr, a[i].b.size); else L("OVER"); L("\n"); }
    for (i = bi + bo + oi; i < bi + bo + oi + oo; i++) L("oo %d\n", id_of(a[i].o));
    flush_log();
}

static int32_t tr_invoke(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) {
    (void)h;
    ObjectOp id = ObjectOp_methodID(op);
    if (id == Object_OP_retain || id == Object_OP_release) { L("T %u\n", id); return 0; }
    log_request(op, a, k);
    size_t i, bi = ObjectCounts_numBI(k), bo = ObjectCounts_numBO(k), oi = ObjectCounts_numOI(k), oo = ObjectCounts_numOO(k);
    size_t n = bi + bo + oi + oo, cap[64];
    for (i = 0; i < bi + bo; i++) cap[i] = a[i].b.size;
    int32_t r;
    if (C.mode & M_DIRECT) {
        r = Object_invoke(C.target, op, a, k);
        log_reply(r, a, k, cap);
        if (r && (C.mode & M_FAILOO)) for (i = bi + bo + oi; i < n; i++) a[i].o = obj_of(40 + (int)i % 16);
        return r;
    }
    ObjectArg *c = balloc(n * sizeof *c, C.mode, 1);
    for (i = 0; i < bi; i++) {
        void *p = balloc(cap[i], C.mode, 0);
        if (cap[i]) memcpy(p, a[i].bi.ptr, cap[i]);
        c[i].bi = (ObjectBufIn){p, cap[i]};
    }
    for (; i < bi + bo; i++) {
        void *p = balloc(cap[i], C.mode, 0);
        if (cap[i]) memset(p, 0xCD, cap[i]);
        c[i].b = (ObjectBuf){p, cap[i]};
    }
    for (; i < bi + bo + oi; i++) c[i].o = a[i].o;
    for (; i < n; i++) c[i].o = Object_NULL;
    r = Object_invoke(C.target, op, n ? c : NULL, k);
    log_reply(r, c, k, cap);
    check_canaries();
    if (r == 0) {
        for (i = bi; i < bi + bo; i++) {
            size_t m = c[i].b.size <= cap[i] ? c[i].b.size : cap[i];
            if (m) memcpy(a[i].b.ptr, c[i].b.ptr, m);
            a[i].b.size = c[i].b.size;
        }
        for (i = bi + bo + oi; i < n; i++) a[i].o = c[i].o;
    } else if (C.mode & M_FAILOO)
        for (i = bi + bo + oi; i < n; i++) a[i].o = obj_of(40 + (int)i % 16);
    return r;
}

/* ---- script */
static char *S;
static char *tok(void) {
    while (*S == ' ' || *S == '\n') S++;
    char *t = S;
    while (*S && *S != ' ' && *S != '\n') S++;
    if (*S) *S++ = 0;
    return t;
}
static long num(void) { return strtol(tok(), NULL, 0); }
static int hv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static unsigned char *hex(size_t *n) {
    char *t = tok();
    if (*t == '-') { *n = 0; return NULL; }
    size_t l = strlen(t) / 2;
    unsigned char *b = malloc(l);
    for (size_t i = 0; i < l; i++) b[i] = (unsigned char)(hv(t[2 * i]) * 16 + hv(t[2 * i + 1]));
    *n = l;
    return b;
}

static Object cache[NCACHE][256];
static Object target(int be, int sk) { if (!cache[be][sk].invoke) cache[be][sk] = mk_call(be, sk); return cache[be][sk]; }

static void read_params(void) {
    C.n = (int)num();
    for (int k = 0; k < C.n; k++) {
        PS *p = &C.p[k];
        memset(p, 0, sizeof *p);
        size_t dummy;
        p->out = (int)num(); p->bytes = (size_t)num(); p->elem = (size_t)num(); p->len = (size_t)num();
        p->in = hex(&dummy);
        p->nobj = (int)num();
        for (int j = 0; j < p->nobj; j++) p->objs[j] = (int)num();
        p->ob = hex(&p->obn);
        p->lenout = (size_t)num();
        p->onobj = (int)num();
        for (int j = 0; j < p->onobj; j++) p->oobjs[j] = (int)num();
    }
}

static void do_call(void) {
    int sbe = (int)num(), e = (int)num(), kbe = (int)num(), sk = (int)num();
    C.mode = (int)num();
    C.status = (int)num();
    read_params();
    C.entered = 0;
    C.target = target(kbe, sk);
    Slot s[64];
    memset(s, 0, sizeof s);
    for (int k = 0; k < C.n; k++) {
        PS *p = &C.p[k];
        s[k].out = p->out; s[k].bytes = p->bytes; s[k].elem = p->elem; s[k].len = p->len; s[k].lenout = (size_t)-7; s[k].nobj = (size_t)p->nobj;
        s[k].p = p->bytes || !(C.mode & M_NULLEMPTY) ? malloc(p->bytes ? p->bytes : 1) : NULL;
        if (p->in && p->bytes) memcpy(s[k].p, p->in, p->bytes);
        else if (s[k].p) memset(s[k].p, 0xA5, p->bytes ? p->bytes : 1);
        s[k].objs = p->nobj ? calloc((size_t)p->nobj, sizeof(Object)) : NULL;
        for (int j = 0; j < p->nobj; j++)
            if (p->out) memset(&s[k].objs[j], 0x5A, sizeof(Object)); else s[k].objs[j] = obj_of(p->objs[j]);
    }
    L("C\n");
    flush_log();
    Object t = {tr_invoke, &C};
    int32_t r = drv_call(sbe, e, t, s);
    L("S %d %d\n", r, C.entered);
    for (int k = 0; k < C.n; k++) {
        PS *p = &C.p[k];
        if (!p->out) {
            if (p->bytes && p->in && memcmp(s[k].p, p->in, p->bytes)) L("X %d\n", k);
            continue;
        }
        if (r) continue;
        L("o %d %zu ", k, s[k].lenout);
        size_t n = p->elem ? s[k].lenout * p->elem : p->bytes;
        if (n <= p->bytes) Lhex(s[k].p, n); else L("OVER");
        L(" %d", p->nobj);
        for (int j = 0; j < p->nobj; j++) L(" %d", id_of(s[k].objs[j]));
        L("\n");
    }
    flush_log();
}

static void do_raw(void) {
    int kbe = (int)num(), sk = (int)num();
    ObjectOp op = (ObjectOp)num();
    ObjectCounts k = (ObjectCounts)num();
    C.mode = (int)num();
    C.status = (int)num();
    size_t i, cap[64], n, bi = (size_t)num(), bo = (size_t)num(), oi = (size_t)num(), oo = (size_t)num();
    n = bi + bo + oi + oo;
    ObjectArg *c = balloc(n * sizeof *c, C.mode, 1);
    for (i = 0; i < bi; i++) {
        unsigned char *h = hex(&cap[i]);
        void *p = balloc(cap[i], C.mode, 0);
        if (cap[i]) memcpy(p, h, cap[i]);
        c[i].bi = (ObjectBufIn){p, cap[i]};
    }
    for (; i < bi + bo; i++) {
        cap[i] = (size_t)num();
        void *p = balloc(cap[i], C.mode, 0);
        if (cap[i]) memset(p, 0xCD, cap[i]);
        c[i].b = (ObjectBuf){p, cap[i]};
    }
    for (; i < bi + bo + oi; i++) c[i].o = obj_of((int)num());
    for (; i < n; i++) c[i].o = Object_NULL;
    read_params();
    C.entered = 0;
    C.target = target(kbe, sk);
    L("c\n");
    flush_log();
    int32_t r = Object_invoke(C.target, op, n ? c : NULL, k);
    L("Q %d\n", C.entered);
    log_reply(r, c, (ObjectCounts)ObjectCounts_pack(bi, bo, oi, oo), cap);
    check_canaries();
}

static void do_case(void) {
    for (int i = 0; i < NOBJ; i++) cobj[i] = (CObj){.id = i};
    for (;;) {
        char *t = tok();
        if (!strcmp(t, "call")) do_call();
        else if (!strcmp(t, "raw")) do_raw();
        else break;
        for (int i = 0; i < NOBJ; i++) {
            if (cobj[i].ret || cobj[i].rel || cobj[i].other) L("L %d %ld %ld %ld\n", i, cobj[i].net, cobj[i].minnet, cobj[i].other);
            cobj[i] = (CObj){.id = i};
        }
        L("E\n");
        flush_log();
    }
    int live = serials;
    for (int b = 0; b < NCACHE; b++) for (int k = 0; k < 256; k++) if (cache[b][k].invoke) Object_release(cache[b][k]);
    L("Z %d\n", live);
    flush_log();
}

int main(int argc, char **argv) {
    int fd = open(argv[1], O_RDONLY);
    off_t n = lseek(fd, 0, SEEK_END);
    char *buf = malloc((size_t)n + 1);
    if (pread(fd, buf, (size_t)n, 0) != n) return 9;
    buf[n] = 0;
    int nofork = argc > 2;
    /* cases are separated by lines "case <id>" */
    char *p = buf;
    while ((p = strstr(p, "case ")) != NULL) {
        char *q = strstr(p + 5, "\ncase ");
        char save = 0;
        if (q) { save = q[1]; q[1] = 0; }
        S = p + 5;
        char *save_s = strdup(S);
        long id = num();
        L("case %ld\n", id);
        flush_log();
        if (nofork) do_case();
        else {
            pid_t c = fork();
            if (c == 0) { alarm(20); do_case(); _exit(0); }
            int st = 0;
            waitpid(c, &st, 0);
            if (WIFSIGNALED(st)) { L("\nSIG %d\n", WTERMSIG(st)); flush_log(); }
            else if (WEXITSTATUS(st)) { L("\nEXIT %d\n", WEXITSTATUS(st)); flush_log(); }
        }
        free(save_s);
        if (!q) break;
        q[1] = save;
        p = q + 1;
    }
    L("done\n");
    flush_log();
    return 0;
}

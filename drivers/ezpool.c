/* Drives zt_ez_mempool: a forest of pools, chunks with and without a free callback.  The allocator is wrapped to see
   what is freed. */
#include <zt.h>
#include "vp.h"
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); char *__real_strdup(const char *);
#define NB 4096
#define NPOOL 640
static void *blk[NB]; static int watching;
static struct { unsigned char *p; size_t n; int cb; } C[NB]; static int nc;
static zt_ez_mempool *P[NPOOL];
static long freed[NB]; static int nfreed;
static void *note(void *p) { int i; if (watching && p) { for (i = 0; i < NB && blk[i]; i++) ; if (i == NB) vp_die("blocks"); blk[i] = p; } return p; }
void *__wrap_malloc(size_t n) { return note(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return note(__real_calloc(n, m)); }
char *__wrap_strdup(const char *s) { return note(__real_strdup(s)); }
static void seen(void *p, int cb) { int i; for (i = 1; i <= nc; i++) if (C[i].p == p) {
    if (nfreed < NB) freed[nfreed++] = cb == C[i].cb ? i : -i; C[i].p = NULL; return; } }
void __wrap_free(void *p) { int i; if (p && watching) { for (i = 0; i < NB; i++) if (blk[i] == p) { blk[i] = NULL; break; } seen(p, 0); }
    __real_free(p); }
static void mycb(void *p) { int i; seen(p, 1); for (i = 0; i < NB; i++) if (blk[i] == p) blk[i] = NULL; __real_free(p); }
static void libfree(void *p) { __wrap_free(p); }
static int zero(unsigned char *p, size_t n) { size_t i; for (i = 0; i < n; i++) if (p[i]) return 0; return 1; }
static void fill(int x) { size_t i; for (i = 0; i < C[x].n; i++) C[x].p[i] = (unsigned char)(x * 7 + i); }
int main(void) {
    int n, i; vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            memset(P, 0, sizeof P); memset(blk, 0, sizeof blk); memset(C, 0, sizeof C); nc = 0;
            vp_ev(op); vp_end(); continue;
        }
        int a = (int)vp_i(1); long r = 0; long b[2] = {a, n > 2 ? vp_i(2) : 0}; int cb = n > 3 ? (int)vp_i(3) : 0;
        nfreed = 0; watching = 1;
        if (!strcmp(op, "init")) { for (i = 1; P[i]; i++) ; if (i >= NPOOL) vp_die("pools");
            P[i] = zt_ez_mempool_init(a ? P[a] : NULL); r = i; }
        else if (!strcmp(op, "alloc")) { C[++nc].p = zt_ez_mempool_alloc(P[a], (size_t)b[1], cb ? mycb : NULL);
            r = C[nc].p ? nc : 0; C[nc].n = (size_t)b[1]; C[nc].cb = cb; if (!zero(C[nc].p, C[nc].n)) r = -1; fill(nc); }
        else if (!strcmp(op, "add")) { unsigned char *q = b[1] < 0 ? NULL : note(__real_malloc(b[1] ? (size_t)b[1] : 1));
            long sz = b[1] < 0 ? 5 : b[1];
            int rc = zt_ez_mempool_add_buffer(P[a], q, (size_t)sz, cb ? mycb : NULL);
            if (rc == 0) { C[++nc].p = q; C[nc].n = (size_t)sz; C[nc].cb = cb; r = nc; fill(nc); }
            else { r = rc; if (q) { for (i = 0; i < NB; i++) if (blk[i] == q) blk[i] = NULL; __real_free(q); } } }
        else if (!strcmp(op, "strdup")) { static char s[70000]; memset(s, 'q', sizeof s); s[b[1]] = 0;
            char *q = zt_ez_mempool_strdup(P[a], s); C[++nc].p = (unsigned char *)q; C[nc].n = (size_t)b[1]; C[nc].cb = 0;
            r = q && q != s && !strcmp(q, s) ? nc : -1; fill(nc); }
        else if (!strcmp(op, "destroy")) { zt_ez_mempool_destroy(P[a]); P[a] = NULL;
            /* the driver forgets the pools of the destroyed subtree: listed on the line */
            for (i = 2; i < n; i++) P[vp_i(i)] = NULL; b[1] = 0; }
        else vp_die(op);
        watching = 0;
        int ok = 1, lk = 0; size_t k;
        for (i = 1; i <= nc; i++) if (C[i].p) for (k = 0; k < C[i].n; k++) ok &= C[i].p[k] == (unsigned char)(i * 7 + k);
        for (i = 0; i < NB; i++) lk += blk[i] != NULL;
        vp_ev(op); vp_ints("a", b, 2); vp_int("r", r); vp_ints("fr", freed, nfreed); vp_bool("ok", ok); vp_int("lk", lk); vp_end();
    }
    return 0;
}

/* Drives zt_mem pools and pool groups.  malloc/free are wrapped: the wrapper says which block an element lies in,
   which blocks a call gives back, and can make allocations fail. */
#include <zt.h>
#include "vp.h"
#define NP 6
#define NE 4096
void *__real_malloc(size_t); void __real_free(void *);
static struct { char *p; size_t n; int id; } blk[1 << 14]; static int nblk, nextid = 1, watching, failnext, refused;
static long freed[1 << 12]; static int nfreed;
void *__wrap_malloc(size_t n) {
    if (watching && failnext > 0 && --failnext == 0) { refused = 1; return NULL; }
    void *p = __real_malloc(n);
    if (watching && p) {
        int i; for (i = 0; i < nblk && blk[i].p; i++) ;
        if (i == (1 << 14)) vp_die("too many blocks");
        if (i == nblk) nblk++;
        blk[i].p = p; blk[i].n = n; blk[i].id = 0; }
    return p;
}
void __wrap_free(void *p) {
    int i; for (i = 0; p && i < nblk; i++) if (blk[i].p == p) {
        if (blk[i].id && nfreed < (1 << 12)) freed[nfreed++] = blk[i].id;
        blk[i].p = NULL; break; }
    __real_free(p);
}
static int block_of(char *p, size_t n) {
    int i; for (i = 0; i < nblk; i++) if (blk[i].p && p >= blk[i].p && p + n <= blk[i].p + blk[i].n) {
        if (!blk[i].id) blk[i].id = nextid++;
        return blk[i].id; }
    return -1;
}
static zt_mem_pool *P[NP + 1]; static zt_mem_pool_group *G; static int gl;
static struct { unsigned char *p; size_t n; int pool; } E[NE]; static int cbval, ncb;
static long bigs[2 * NE]; static int nbig;
static int cb(size_t a, size_t b, size_t c, int f, void *d) { ncb++; if (d != &cbval) abort(); return cbval; }
/* what a display writes: one record per pool */
static long shown[64 * 16]; static int nshown;
static const char *nm(int p);
static void read_display(FILE *f) {
    static const char *K[] = { "total elts: ", "free elts: ", "free pages: ", "pages in use: ", "total pages: ", "elements per page: ",
                               "page allocs: ", "page frees: ", "element size: " };
    static char ln[4096]; long *s = NULL; int i; nshown = 0;
    while (fgets(ln, sizeof ln, f)) {
        char *t = ln + strspn(ln, " \t"), *q;
        if (!strncmp(t, "pool: \"", 7) && (q = strrchr(t + 7, '"'))) {
            if (nshown == 60) vp_bad("too many pools shown");
            *q = 0; s = shown + 13 * nshown++; memset(s, 0, 13 * sizeof *s);
            for (i = 1; i <= NP; i++) if (P[i] && !strcmp(t + 7, nm(i))) s[0] = i;
            continue; }
        if (!s) continue;
        for (i = 0; i < 9; i++) if (!strncmp(t, K[i], strlen(K[i]))) s[1 + i] = strtol(t + strlen(K[i]), NULL, 10);
        if (!strncmp(t, "elt: ", 5)) s[10]++;
        if (!strncmp(t, "page: ", 6)) s[11]++;
        if (!strncmp(t, "num_free_elts: ", 15)) s[12] += strtol(t + 15, NULL, 10);
    }
}
static struct { zt_mem_heap *h; size_t n; } H[3];
static int heaps_ok(void) {
    int k; size_t i; for (k = 1; k < 3; k++) if (H[k].h) {
        unsigned char *d = zt_mem_heap_get_data(H[k].h); const char *w = zt_mem_heap_get_name(H[k].h);
        if (!w || strcmp(w, k == 1 ? "pool one" : "a heap")) return 0;
        for (i = 0; i < H[k].n; i++) if (d[i] != (unsigned char)(k * 77 + i)) return 0; }
    return 1;
}
static void fill(int x) { size_t i; for (i = 0; i < E[x].n; i++) E[x].p[i] = (unsigned char)(x * 31 + i); }
static int intact(void) {
    int x; size_t i; for (x = 1; x < NE; x++) if (E[x].p) for (i = 0; i < E[x].n; i++)
        if (E[x].p[i] != (unsigned char)(x * 31 + i)) return 0;
    return 1;
}
/* names that take each other's beginnings and ends; those from 7 on are nobody's */
static const char *nm(int p) {
    static const char *N[] = { "", "pool one", "pool", "a pool", "pool one of more", "poll", "pool onE", "poo", "pool one ", "", "ool", "POOL", "pool two" };
    static char b[3][800]; static int k; k = (k + 1) % 3; strcpy(b[k], N[p]);
    if (p == 5 || p == 8) { memset(b[k], 'n', 700); strcpy(b[k] + 700, N[p]); }      /* two long ones */
    return b[k];
}
static void stats(void) {
    int p; vp_key("st"); fputc('[', vp_f);
    for (p = 1; p <= NP; p++) {
        zt_mem_pool_stats s; if (p > 1) fputc(',', vp_f);
        if (!P[p]) { fputs("[]", vp_f); continue; }
        if (zt_mem_pool_get_stats(P[p], &s) != ZT_PASS) abort();
        fprintf(vp_f, "[%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld]", (long)s.pages, (long)s.free_pages, (long)s.page_allocs,
                (long)s.page_frees, (long)s.elts_per_page, (long)s.elt_size, (long)s.requested_elts, (long)s.page_size);
    }
    fputc(']', vp_f);
}
static int take(void *q, int p, size_t n) {
    int x; for (x = 1; E[x].p; x++) ;
    if (x >= NE) vp_die("too many elements");
    if (!q) return 0;
    E[x].p = q; E[x].n = n; E[x].pool = p; return x;
}
int main(void) {
    int n, i;
    static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    vp_open();
    { zt_mem_pool *w = zt_mem_pool_init("warm up", 1, 8, NULL, NULL, 0); zt_mem_pool_destroy(&w); }
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i < NE; i++) if (E[i].p) { void *d = E[i].p; zt_mem_pool_release(&d); E[i].p = NULL; }
            if (G) { zt_mem_pool_group_destroy(G); G = NULL; for (i = 4; i <= NP; i++) P[i] = NULL; }
            for (i = 1; i <= NP; i++) if (P[i]) zt_mem_pool_destroy(&P[i]);
            for (i = 1; i < 3; i++) if (H[i].h) zt_mem_heap_destroy(&H[i].h);
            nblk = 0; nextid = 1; failnext = 0; cbval = 1;
            vp_ev(op); vp_end(); continue;
        }
        long a = n > 1 ? vp_i(1) : 0; long r = 0, pg = 0, b[4] = {a, n > 2 ? vp_i(2) : 0, n > 3 ? vp_i(3) : 0, n > 4 ? vp_i(4) : 0};
        /* a replayed behaviour may have parted from the model's (which page an element comes from is the code's choice):
           skip calls that are no longer legal */
        if ((!strcmp(op, "init") && P[a]) || (!strcmp(op, "release") && !E[a].p) || (!strcmp(op, "ginit") && (G || P[4] || P[5] || P[6]))
            || (!strcmp(op, "heap") && H[a].h) || (!strcmp(op, "unheap") && !H[a].h)
            || (!strcmp(op, "show") && (a == 0 ? !P[b[1]] : a == 1 ? !G : 0))
            || ((!strcmp(op, "galloc") || !strcmp(op, "gdestroy")) && !G)
            || ((!strcmp(op, "alloc") || !strcmp(op, "takes") || !strcmp(op, "trim") || !strcmp(op, "destroy")) && !P[a])) continue;
        if (!strcmp(op, "fail")) { failnext = (int)a; continue; }      /* shows in the trace if an allocation is refused */
        nfreed = 0; ncb = 0; refused = 0; watching = 1;
        if (!strcmp(op, "init")) {     /* init p elts size policy */
            P[a] = zt_mem_pool_init((char *)nm((int)a), b[1], (size_t)b[2], b[3] == 2 ? cb : NULL, b[3] == 2 ? &cbval : NULL,
                                    b[3] == 0 ? POOL_NEVER_FREE : 0);
            r = P[a] != NULL;
        } else if (!strcmp(op, "alloc")) {
            zt_mem_pool_stats s; zt_mem_pool_get_stats(P[a], &s);
            void *q = zt_mem_pool_alloc(P[a]); watching = 0;
            r = take(q, (int)a, s.elt_size); if (r) { pg = block_of((char *)E[r].p, E[r].n); fill((int)r); }
        } else if (!strcmp(op, "takes")) {     /* takes p n: many allocations */
            zt_mem_pool_stats s; zt_mem_pool_get_stats(P[a], &s);
            for (i = nbig = 0; i < b[1] && i < NE / 2; i++) {
                watching = 1; void *q = zt_mem_pool_alloc(P[a]); watching = 0;
                if (!q) continue;
                bigs[2 * nbig] = take(q, (int)a, s.elt_size); fill((int)bigs[2 * nbig]);
                bigs[2 * nbig + 1] = block_of((char *)q, s.elt_size); nbig++;
            }
            r = nbig;
        } else if (!strcmp(op, "drops")) {     /* drops lo hi: every element with a number in between given back */
            int x; size_t k;
            for (x = (int)b[0]; x <= b[1] && x < NE; x++) if (E[x].p) {
                void *d = E[x].p; for (k = 0; k < E[x].n; k++) if (E[x].p[k] != (unsigned char)(x * 31 + k)) abort();
                E[x].p = NULL; zt_mem_pool_release(&d); r++;
            }
        } else if (!strcmp(op, "release")) {
            void *d = E[a].p;
            r = 1; { size_t k; for (k = 0; k < E[a].n; k++) if (E[a].p[k] != (unsigned char)(a * 31 + k)) r = 0; }
            E[a].p = NULL; zt_mem_pool_release(&d);
        } else if (!strcmp(op, "trim")) r = zt_mem_pool_release_free_pages(P[a]);
        else if (!strcmp(op, "destroy")) { r = zt_mem_pool_destroy(&P[a]); if (!r && P[a]) r = -2; }
        else if (!strcmp(op, "find")) { zt_mem_pool *q = zt_mem_pool_get((char *)nm((int)a));
            for (i = 1; i <= NP; i++) if (q && P[i] == q) r = i; if (q && !r) r = -1; }
        else if (!strcmp(op, "cb")) cbval = (int)a;
        else if (!strcmp(op, "ginit")) {   /* ginit size4 size5 size6 named */
            zt_mem_pool_desc d[3]; gl = (int)b[3];
            for (i = 0; i < 3; i++) { memset(&d[i], 0, sizeof d[i]); d[i].name = i < gl ? (char *)nm(4 + i) : NULL;
                d[i].elts = 2; d[i].size = (size_t)b[i]; d[i].flags = 0; }
            G = zt_mem_pool_group_init(d, 3); r = G != NULL; watching = 0;
            for (i = 4; i <= NP; i++) P[i] = G ? zt_mem_pool_get((char *)nm(i)) : NULL;
        } else if (!strcmp(op, "galloc")) {
            void *q = zt_mem_pool_group_alloc(G, (size_t)a); watching = 0;
            r = take(q, 0, (size_t)a); if (r) { pg = block_of((char *)E[r].p, E[r].n); fill((int)r); }
        } else if (!strcmp(op, "gdestroy")) {
            r = zt_mem_pool_group_destroy(G); G = NULL; watching = 0;
            for (i = 4; i <= NP; i++) P[i] = zt_mem_pool_get((char *)nm(i));
        } else if (!strcmp(op, "show")) {      /* show kind pool flags indent */
            FILE *t = tmpfile(); int keep = dup(1); fflush(stdout); dup2(fileno(t), 1); watching = 1;
            if (a == 0) zt_mem_pool_display((int)b[3], P[b[1]], (int)b[2]);
            else if (a == 1) zt_mem_pool_group_display((int)b[3], G, (int)b[2]);
            else zt_mem_pools_display((int)b[3], (int)b[2]);
            watching = 0; fflush(stdout); dup2(keep, 1); close(keep); rewind(t); read_display(t); fclose(t); r = nshown;
        } else if (!strcmp(op, "heap")) {      /* heap h size */
            H[a].h = zt_mem_heap_init(a == 1 ? "pool one" : "a heap", (size_t)b[1]); r = H[a].h != NULL; watching = 0;
            if (r) { unsigned char *d = zt_mem_heap_get_data(H[a].h); size_t k; H[a].n = (size_t)b[1]; for (k = 0; k < H[a].n; k++) d[k] = (unsigned char)(a * 77 + k); }
        } else if (!strcmp(op, "unheap")) { r = heaps_ok(); zt_mem_heap_destroy(&H[a].h); if (H[a].h) r = -1;
        } else vp_die(op);
        watching = 0; failnext = 0;
        if (refused) { long none[4] = {0}; vp_ev("fail"); vp_ints("a", none, 4); vp_int("r", 0); vp_int("pg", 0); vp_int("ncb", 0);
            vp_bool("ok", 1); vp_int("lk", -1); vp_ints("fr", freed, 0); stats(); vp_end(); }
        vp_ev(op); vp_ints("a", b, 4); vp_int("r", r); vp_int("pg", pg); vp_int("ncb", ncb);
        if (!strcmp(op, "takes")) vp_ints("el", bigs, 2 * nbig);
        if (!strcmp(op, "show")) { vp_key("sh"); fputc('[', vp_f); for (i = 0; i < nshown; i++) { int j; fputs(i ? ",[" : "[", vp_f);
            for (j = 0; j < 13; j++) fprintf(vp_f, j ? ",%ld" : "%ld", shown[13 * i + j]); fputc(']', vp_f); } fputc(']', vp_f); }
        vp_bool("ok", intact() && heaps_ok());
        { int lk = 0, any = G != NULL || H[1].h || H[2].h; for (i = 1; i <= NP; i++) any |= P[i] != NULL;
          for (i = 0; i < nblk; i++) lk += blk[i].p != NULL; vp_int("lk", any ? -1 : lk); } vp_ints("fr", freed, nfreed); stats(); vp_end();
    }
    return 0;
}

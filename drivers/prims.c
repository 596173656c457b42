/* Drives the indirection of zt_threads: three tables of callbacks that record what they are called with, and pools whose
   threads run to the end of their work where they are started. */
#include <zt.h>
#include <libzt/zt_threads.h>
#include <setjmp.h>
#include "vp.h"
extern struct zt_threadpool_callbacks _zt_threadpool_cbs;
static long val, seen[6]; static int tab; static const char *fn; static int ns;
static void rec(int x, const char *f, int n, ...) { va_list ap; va_start(ap, n); tab = x; fn = f; for (ns = 0; ns < n; ns++) seen[ns] = va_arg(ap, long); va_end(ap); }
#define P(x) ((long)(x))
#define TAB(X) \
static void *alloc##X(int t) { rec(X, "alloc", 1, P(t)); return (void *)val; } \
static void free##X(void *l, int t) { rec(X, "free", 2, P(l), P(t)); } \
static int lock##X(int m, void *l) { rec(X, "lock", 2, P(m), P(l)); return (int)val; } \
static int unlock##X(int m, void *l) { rec(X, "unlock", 2, P(m), P(l)); return (int)val; } \
static void *calloc##X(int t) { rec(X, "calloc", 1, P(t)); return (void *)val; } \
static void cfree##X(void *c) { rec(X, "cfree", 1, P(c)); } \
static int signal##X(void *c, int b) { rec(X, "signal", 2, P(c), P(b)); return (int)val; } \
static int wait##X(void *c, void *l, struct timeval *t) { rec(X, "wait", 3, P(c), P(l), P(t)); return (int)val; } \
static int start##X(void *t, void *a, void *(*f)(void *), void *g) { rec(X, "start", 4, P(t), P(a), P(f), P(g)); return (int)val; } \
static void end##X(void *a) { rec(X, "end", 1, P(a)); } \
static int kill##X(void *t) { rec(X, "kill", 1, P(t)); return (int)val; } \
static unsigned long id##X(void) { rec(X, "id", 0); return (unsigned long)val; } \
static int join##X(void *t, void **d) { rec(X, "join", 2, P(t), P(d)); return (int)val; } \
static int detach##X(void *t) { rec(X, "detach", 1, P(t)); return (int)val; }
TAB(1) TAB(2) TAB(3)
#define L(X) { alloc##X, free##X, lock##X, unlock##X }
#define C(X) { calloc##X, cfree##X, signal##X, wait##X }
#define T(X) { start##X, end##X, kill##X, id##X, join##X, detach##X }
static const struct zt_threads_lock_callbacks LT[] = { { 0 }, L(1), L(2), L(3) };
static const struct zt_threads_cond_callbacks CT[] = { { 0 }, C(1), C(2), C(3) };
static const struct zt_threads_cntrl_callbacks TT[] = { { 0 }, T(1), T(2), T(3) };
/* pools */
static char text[65536]; static int nc; static jmp_buf jb; static int inside, locks;
static void say(const char *f, int x, void *a, void *b) { sprintf(text + strlen(text), "%s[\"%s\",%d,%ld,%ld]", nc++ ? "," : "", f, x, (long)a, (long)b); }
static void *pool_;
#define PT(X) \
static void *il##X(void *p) { say("iloop", X, p == pool_ ? 0 : p, 0); return NULL; } \
static void *ol##X(void *p) { say("oloop", X, p == pool_ ? 0 : p, 0); return NULL; } \
static void *in##X(void *p) { say("init", X, p == pool_ ? 0 : p, 0); return (void *)(10L + X); } \
static void *iw##X(void *d, void *x) { say("iw", X, d, x); return (long)x % 3 ? (void *)((long)x + 100L * X) : NULL; } \
static void *ow##X(void *d, void *x) { say("ow", X, d, x); return (long)x % 2 ? (void *)((long)x + 1000L * X) : NULL; } \
static void fi##X(void *d, void *x) { say("fin", X, d, x); }
PT(1) PT(2) PT(3)
#define PP(X) { il##X, ol##X, in##X, iw##X, ow##X, fi##X }
static const struct zt_threadpool_callbacks PTAB[] = { { 0 }, PP(1), PP(2), PP(3) };
static int pl(int m, void *l) { if (locks++) vp_bad("locked twice"); return 0; }
static int pu(int m, void *l) { if (--locks) vp_bad("not locked"); return 0; }
static int psig(void *c, int b) { return 0; }
static int pwait(void *c, void *l, struct timeval *t) { if (!inside) vp_bad("main waits"); locks = 0; longjmp(jb, 1); }
static int pstart(void *t, void *a, void *(*f)(void *), void *g) { inside = 1; if (!setjmp(jb)) f(g); inside = 0; return 0; }
static void pend(void *a) { longjmp(jb, 1); }
static int pjoin(void *t, void **d) { return 0; }
static void *pal(int t) { return &locks; }
static void pfree(void *l, int t) {}
static void pcfree(void *l) {}
static void *pthr(void) { return &locks; }
static long nums[8]; static int nn;
static void list(const char *w) { char *p; nn = 0; if (*w == '-' && !w[1]) return; for (p = (char *)w; p; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL) nums[nn++] = strtol(p, NULL, 10); }
static int has(const char *w, const char *f) { size_t n = strlen(f); const char *p = w; for (; (p = strstr(p, f)); p++) if ((p == w || p[-1] == ',') && (!p[n] || p[n] == ',')) return 1; return 0; }
static void names(const char *w) { char b[200], *p; int k = 0; fputc('[', vp_f); strcpy(b, w); if (strcmp(w, "-")) for (p = strtok(b, ","); p; p = strtok(NULL, ",")) fprintf(vp_f, "%s\"%s\"", k++ ? "," : "", p); fputc(']', vp_f); }
int main(void) {
    int n, k;
    vp_open();
    while ((n = vp_line()) >= 0) {
        const char *op; if (!n) continue;
        op = vp_w[0];
        if (!strcmp(op, "reset")) { zt_threads_set_lock_callbacks(NULL); zt_threads_set_cond_callbacks(NULL); zt_threads_set_cntrl_callbacks(NULL); zt_threadpool_set_callbacks(NULL); vp_ev("reset"); vp_end(); continue; }
        vp_ev(op); fputs(",\"a\":[", vp_f);
        if (!strncmp(op, "set", 3) && strcmp(op, "setpool")) {
            int x = (int)vp_i(1), r; const char *w = vp_w[2];
            struct zt_threads_lock_callbacks l = LT[x]; struct zt_threads_cond_callbacks c = CT[x]; struct zt_threads_cntrl_callbacks t = TT[x];
#define LESS(s, f, m) if (has(w, #f)) s.m = NULL;
            LESS(l, alloc, alloc) LESS(l, free, free) LESS(l, lock, lock) LESS(l, unlock, unlock)
            LESS(c, calloc, alloc) LESS(c, cfree, free) LESS(c, signal, signal) LESS(c, wait, wait)
            LESS(t, start, start) LESS(t, end, end) LESS(t, kill, kill) LESS(t, id, id) LESS(t, join, join) LESS(t, detach, detach)
            if (!strcmp(op, "setlock")) { r = zt_threads_set_lock_callbacks(x ? &l : NULL); memset(&l, 0x5a, sizeof l); }
            else if (!strcmp(op, "setcond")) { r = zt_threads_set_cond_callbacks(x ? &c : NULL); memset(&c, 0x5a, sizeof c); }
            else { r = zt_threads_set_cntrl_callbacks(x ? &t : NULL); memset(&t, 0x5a, sizeof t); }
            fprintf(vp_f, "%d,", x); names(w); fprintf(vp_f, "],\"r\":%d,\"w\":[]", r);
        } else if (!strcmp(op, "call")) {
            const char *f = vp_w[1]; long *a = nums, r = 0; list(vp_w[2]); val = vp_i(3); tab = 0; ns = 0;
#define V(i) ((void *)a[i])
            if (!strcmp(f, "alloc")) r = P(zt_threads_alloc_lock((int)a[0])); else if (!strcmp(f, "free")) zt_threads_free_lock(V(0), (int)a[1]);
            else if (!strcmp(f, "lock")) r = zt_threads_lock((int)a[0], V(1)); else if (!strcmp(f, "unlock")) r = zt_threads_unlock((int)a[0], V(1));
            else if (!strcmp(f, "calloc")) r = P(zt_threads_cond_alloc((int)a[0])); else if (!strcmp(f, "cfree")) zt_threads_cond_free(V(0));
            else if (!strcmp(f, "signal")) r = zt_threads_cond_signal(V(0), (int)a[1]); else if (!strcmp(f, "wait")) r = zt_threads_cond_wait(V(0), V(1), V(2));
            else if (!strcmp(f, "start")) r = zt_threads_start(V(0), V(1), (void *(*)(void *))a[2], V(3)); else if (!strcmp(f, "end")) zt_threads_end(V(0));
            else if (!strcmp(f, "kill")) r = zt_threads_kill(V(0)); else if (!strcmp(f, "id")) r = (long)zt_threads_id();
            else if (!strcmp(f, "join")) r = zt_threads_join(V(0), (void **)a[1]); else if (!strcmp(f, "detach")) r = zt_threads_detach(V(0)); else vp_die(f);
            fprintf(vp_f, "\"%s\",[", f); for (k = 0; k < nn; k++) fprintf(vp_f, "%s%ld", k ? "," : "", nums[k]); fprintf(vp_f, "],%ld],\"r\":%ld,\"w\":[", val, r);
            if (tab) { fprintf(vp_f, "%d,\"%s\",[", tab, fn); for (k = 0; k < ns; k++) fprintf(vp_f, "%s%ld", k ? "," : "", seen[k]); fputc(']', vp_f); }
            fputc(']', vp_f);
        } else if (!strcmp(op, "setpool")) {
            struct zt_threadpool_callbacks p; int none = !strcmp(vp_w[1], "-"), r; char *q; memset(&p, 0, sizeof p);
            if (!none) fputc('{', vp_f); else fputs("[]", vp_f);
            if (!none) for (k = 0, q = strtok(vp_w[1], ","); q; q = strtok(NULL, ",")) {
                char *c = strchr(q, ':'); const struct zt_threadpool_callbacks *s = &PTAB[atoi(c + 1)]; *c = 0; fprintf(vp_f, "%s\"%s\":%s", k++ ? "," : "", q, c + 1);
                if (!strcmp(q, "iloop")) p.iput_loop = s->iput_loop; else if (!strcmp(q, "oloop")) p.oput_loop = s->oput_loop; else if (!strcmp(q, "init")) p.init = s->init;
                else if (!strcmp(q, "iw")) p.iput_worker = s->iput_worker; else if (!strcmp(q, "ow")) p.oput_worker = s->oput_worker; else p.finalize = s->finalize; }
            if (!none) fputc('}', vp_f);
            r = zt_threadpool_set_callbacks(none ? NULL : &p); fprintf(vp_f, "],\"r\":%d,\"w\":[]", r);
        } else if (!strcmp(op, "disable")) { if (vp_w[1][0] == 'i') zt_threadpool_disable_iput_loop(); else zt_threadpool_disable_oput_loop(); fprintf(vp_f, "\"%s\"],\"r\":0,\"w\":[]", vp_w[1]);
        } else if (!strcmp(op, "pool")) {
            struct zt_threads_lock_callbacks l0 = _zt_threads_lock_cbs, l = { pal, pfree, pl, pu }; struct zt_threads_cond_callbacks c0 = _zt_threads_cond_cbs, c = { pal, pcfree, psig, pwait };
            struct zt_threads_cntrl_callbacks t0 = _zt_threads_cntrl_cbs, t = { pstart, pend, NULL, NULL, pjoin, NULL }; zt_threadpool *p; void *x; int r;
            _zt_threads_lock_cbs = l; _zt_threads_cond_cbs = c; _zt_threads_cntrl_cbs = t; zt_threads_alloc_thread = pthr; *text = 0; nc = 0; locks = 0;
            list(vp_w[1]); pool_ = p = zt_threadpool_init(1, 1, 0, 0); r = p ? 0 : -1;
            for (k = 0; k < nn; k++) { fprintf(vp_f, "%s%ld", k ? "," : "[", nums[k]); r |= zt_threadpool_insert_iput(p, (void *)nums[k]); }
            fputs(nn ? "]" : "[]", vp_f);
            r |= zt_threadpool_start(p); r |= zt_threadpool_kill(p);
            fprintf(vp_f, "],\"r\":%d,\"w\":[[%s],[", r, text);
            for (k = 0; (x = zt_threadpool_get_oput(p)); ) fprintf(vp_f, "%s%ld", k++ ? "," : "", P(x));
            fputs("]]", vp_f);
            _zt_threads_lock_cbs = l0; _zt_threads_cond_cbs = c0; _zt_threads_cntrl_cbs = t0;
        } else vp_die(op);
        vp_end();
    }
    return 0;
}

/* Drives zt_gc: a heap of objects with references; the mutator follows the collector's contract (script's business). */
#define ZT_WITH_GC
#include <zt.h>
#include "vp.h"
#define NO 1024
#define NR 400
typedef struct obj { zt_gc_collectable_t mark; int id, n; struct obj *ref[NR]; } obj;
static obj *O[NO]; static zt_gc_t *gc; static long fr[4 * NO]; static int nfr, nmk, bad; static long ls[4 * NO]; static int nls;
static int priv;
static void mark_fn(zt_gc_t *g, void *p, void *v) {
    obj *o = v; int i; nmk++; if (g != gc || p != &priv || O[o->id] != o) bad = 1;
    for (i = 0; i < o->n; i++) zt_gc_mark(g, o->ref[i]);
    if (nmk > 100000) { fprintf(stderr, "endless marking\n"); abort(); }
}
static void release_fn(zt_gc_t *g, void *p, void **v) {
    obj *o = *v; if (g != gc || p != &priv || O[o->id] != o) bad = 1;
    if (nfr < 4 * NO) fr[nfr++] = o->id;
    O[o->id] = NULL; memset(o, 0xee, sizeof *o); free(o); *v = NULL;
}
static void each(void *v, void *d, int ty) { obj *o = v; if (nls < 4 * NO) ls[nls++] = o->id; if (d != &priv) bad = 1; if (ty < 0 || ty > 2) bad = 1; }
static obj *make(int id) { obj *o = malloc(sizeof *o); memset(o, 0xff, sizeof *o); zt_gc_prepare(gc, o);
    o->id = id; o->n = 0; return O[id] = o; }
static int lc(const void *a, const void *b) { long x = *(long *)a, y = *(long *)b; return x < y ? -1 : x > y; }
int main(void) {
    int n, i, skip = 0; vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        long a[2] = {n > 1 ? vp_i(1) : 0, n > 2 ? vp_i(2) : 0};
        if (!strcmp(op, "reset")) {
            skip = 0; if (gc) { zt_gc_destroy(gc); }
            for (i = 0; i < NO; i++) if (O[i]) vp_bad("object left after destroy");
            gc = zt_gc_init(&priv, mark_fn, release_fn, (int)a[0], (int)a[1]); vp_ev(op); vp_ints("a", a, 2); vp_end(); continue;
        }
        if (!gc || (skip && strcmp(op, "destroy"))) continue;
        obj *x = O[a[0] & (NO - 1)], *y = O[a[1] & (NO - 1)];
        /* a behaviour may part from the model's where the collector has a choice (when exactly garbage goes): leave it there */
        int anew = !strcmp(op, "register") || !strcmp(op, "protectnew");
        if (anew ? x != NULL : strcmp(op, "collect") && n > 1 && !x) skip = 1;
        if (!strcmp(op, "link") && !y) skip = 1;
        if (skip) continue;
        nfr = nmk = bad = 0;
        if (!strcmp(op, "protect")) zt_gc_protect(gc, x);
        else if (!strcmp(op, "protectnew")) zt_gc_protect(gc, make((int)a[0]));
        else if (!strcmp(op, "unprotect")) zt_gc_unprotect(gc, x);
        else if (!strcmp(op, "register")) zt_gc_register(gc, make((int)a[0]));
        else if (!strcmp(op, "unregister")) { zt_gc_unregister(gc, x); O[a[0]] = NULL; memset(x, 0xee, sizeof *x); free(x); }
        else if (!strcmp(op, "link")) { x->ref[x->n++] = y; zt_gc_mark(gc, y); }
        else if (!strcmp(op, "unlink")) { for (i = 0; i < x->n && x->ref[i] != y; i++) ; if (i < x->n) x->ref[i] = x->ref[--x->n]; }
        else if (!strcmp(op, "mark")) zt_gc_mark(gc, x);
        else if (!strcmp(op, "collect")) zt_gc_collect(gc, (int)a[0]);
        else if (!strcmp(op, "disable")) zt_gc_disable(gc);
        else if (!strcmp(op, "enable")) zt_gc_enable(gc);
        else if (!strcmp(op, "destroy")) zt_gc_destroy(gc);
        else vp_die(op);
        vp_ev(op); vp_ints("a", a, 2); vp_int("r", nfr); vp_ints("fr", fr, nfr); vp_int("mk", nmk); vp_bool("bad", bad);
        nls = 0; if (strcmp(op, "destroy")) zt_gc_for_each(gc, each, &priv); else gc = NULL;
        qsort(ls, nls, sizeof *ls, lc); vp_ints("ls", ls, nls); vp_end();
    }
    return 0;
}

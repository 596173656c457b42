/* Drives zt_set.  reset <kind>: i8 i4 i1 (integers by value) p (string pointers, stored by identity) */
#include <zt.h>
#include "vp.h"
#define N 3
#define NK 90000
static zt_set *S[N + 1];
static int kind, klen;
static char names[NK][40];
static const void *el(int x, size_t *len) {
    if (kind == 'p') { sprintf(names[x], "a string element %d", x); *len = strlen(names[x]); return names[x]; }
    *len = klen; return (void *)(intptr_t)x;
}
static int no(const void *d) { return kind == 'p' ? (int)(((char *)d - names[0]) / 40) : (int)(intptr_t)d; }
#define NG (1 << 17)
static long got[NG]; static int ngot, nstop;
static int own_param;
static int collect(void *d, void *p) {
    if (p != &own_param) { fprintf(stderr, "an iterator is given something else\n"); abort(); }
    if (ngot >= NG - 1) { fprintf(stderr, "endless iteration\n"); abort(); }
    got[ngot++] = no(d); return 0;
}
static int stop(void *d, void *p) { ngot++; return ngot == nstop ? 5 : 0; }
static void destroyed(void *d) { if (ngot < NG - 1) got[ngot++] = no(d); }
static int lc(const void *a, const void *b) { long x = *(long *)a, y = *(long *)b; return x < y ? -1 : x > y; }
static void sorted(void) {
    int i; qsort(got, ngot, sizeof *got, lc);
    fputc('[', vp_f);
    for (i = 0; i < ngot; i++) fprintf(vp_f, "%s%ld", i ? "," : "", got[i]);
    fputc(']', vp_f);
}
static zt_set *mk(void) {
    return zt_set_init(kind == 'p' ? zt_table_compare_string : zt_table_compare_int, destroyed, NULL);
}
int main(void) {
    int n, i; size_t len; const void *p; void *q;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i <= N; i++) if (S[i]) { ngot = 0; zt_set_destroy(S[i]); }
            kind = vp_w[1][0]; klen = atoi(vp_w[1] + 1);
            for (i = 1; i <= N; i++) S[i] = mk();
            vp_ev("reset"); vp_end(); continue;
        }
        int a = (int)vp_i(1), b = n > 2 ? (int)vp_i(2) : 0, d = n > 3 ? (int)vp_i(3) : 0, r = 0;
        vp_ev(op);
        fprintf(vp_f, ",\"a\":[%d,%d,%d]", a, b, d);
        if (!strcmp(op, "insert")) { p = el(b, &len); r = zt_set_insert(S[a], p, len) != 0; }
        else if (!strcmp(op, "remove")) { q = (void *)el(b, &len); r = zt_set_remove(S[a], &q) != 0;
            if (!r && no(q) != b) r = 2; }
        else if (!strcmp(op, "fill") || !strcmp(op, "drop")) {
            /* every number from b to d once, in an order of its own */
            int k, w = d - b + 1, st = w > 7 ? w * 5 / 13 | 1 : 1;
            while (w % st == 0 && st > 1) st -= 2;
            for (;;) { int x = w, y = st; while (y) { int z = x % y; x = y; y = z; } if (x == 1) break; st += 2; }
            for (i = k = 0; i < w; i++, k = (k + st) % w) {
                p = el(b + k, &len);
                if (op[0] == 'f') r += zt_set_insert(S[a], p, len) != 0;
                else { q = (void *)p; r += zt_set_remove(S[a], &q) != 0; }
            }
        }
        else if (!strcmp(op, "member")) { p = el(b, &len); r = zt_set_is_member(S[a], p, len) != 0; }
        else if (!strcmp(op, "union")) { zt_set_union(S[a], S[b], S[d]); }
        else if (!strcmp(op, "inter")) { zt_set_intersection(S[a], S[b], S[d]); }
        else if (!strcmp(op, "diff")) { zt_set_difference(S[a], S[b], S[d]); }
        else if (!strcmp(op, "subset")) r = zt_set_is_subset(S[a], S[b]) != 0;
        else if (!strcmp(op, "equal")) r = zt_set_is_equal(S[a], S[b]) != 0;
        else if (!strcmp(op, "size")) r = (int)zt_set_size(S[a]);
        else if (!strcmp(op, "eachstop")) { ngot = 0; nstop = b; r = zt_set_for_each(S[a], stop, NULL); }
        else if (!strcmp(op, "destroy")) { ngot = 0; zt_set_destroy(S[a]); S[a] = NULL; }
        else vp_die(op);
        vp_key("r");
        if (!strcmp(op, "eachstop")) fprintf(vp_f, "[%d,%d]", r, ngot);
        else if (!strcmp(op, "destroy")) { sorted(); S[a] = mk(); }
        else fprintf(vp_f, "%d", r);
        vp_key("m"); fputc('[', vp_f);
        for (i = 1; i <= N; i++) {
            if (i > 1) fputc(',', vp_f);
            ngot = 0; zt_set_for_each(S[i], collect, &own_param); sorted();
        }
        fputc(']', vp_f);
        vp_end();
    }
    return 0;
}

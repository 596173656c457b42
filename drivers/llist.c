/* Drives zt_llist with two lists of integers; comparison is "key(a) > key(b)" or ">=" by the reset line */
#include <zt.h>
#include "vp.h"
#define N 2
static zt_llist L[N + 1];
static int ge;
static int cmp(void *a, void *b) {
    long x = (long)(intptr_t)a / 10, y = (long)(intptr_t)b / 10; return ge ? x >= y : x > y; }
static void show(zt_llist p) {
    int i = 0; fputc('[', vp_f);
    for (; p; p = zt_llist_tail(p)) {
        fprintf(vp_f, "%s%ld", i ? "," : "", (long)(intptr_t)zt_llist_head(p));
        if (++i > 100000) { fprintf(stderr, "cyclic\n"); abort(); }
    }
    fputc(']', vp_f);
}
int main(void) {
    int n, i;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i <= N; i++) { zt_llist_free(L[i]); L[i] = NULL; }
            ge = (int)vp_i(1); vp_ev("reset"); vp_end(); continue;
        }
        int h = (int)vp_i(1), wl = 0; long x = n > 2 ? vp_i(2) : 0, r = 0; zt_llist p;
        vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, x);
        if (!strcmp(op, "push")) { p = zt_llist_push((void *)(intptr_t)x, &L[h]); if (p != L[h]) r = -1; }
        else if (!strcmp(op, "pop")) r = (long)(intptr_t)zt_llist_pop(&L[h]);
        else if (!strcmp(op, "move")) {
            p = zt_llist_ppop(&L[h]);
            if (p) { r = (long)(intptr_t)zt_llist_head(p); if (zt_llist_ppush(p, &L[x]) != L[x]) r = -1; } }
        else if (!strcmp(op, "nth")) r = (long)(intptr_t)zt_llist_nth(L[h], (int)x);
        else if (!strcmp(op, "nthtail")) { vp_key("r"); show(zt_llist_nthtail(L[h], (int)x)); wl = 1; }
        else if (!strcmp(op, "reverse")) { zt_llist_free(L[x]); L[x] = zt_llist_reverse(L[h]); }
        else if (!strcmp(op, "nreverse")) L[h] = zt_llist_nreverse(L[h]);
        else if (!strcmp(op, "sort")) L[h] = zt_llist_sort(L[h], cmp);
        else if (!strcmp(op, "merge")) { L[h] = zt_llist_nmerge(L[h], L[x], cmp); L[x] = NULL; }
        else if (!strcmp(op, "split")) L[x] = zt_llist_split(L[h]);
        else if (!strcmp(op, "free")) { zt_llist_free(L[h]); L[h] = NULL; }
        else vp_die(op);
        if (!wl) vp_int("r", r);
        vp_key("s"); fputc('[', vp_f); show(L[1]); fputc(',', vp_f); show(L[2]); fputc(']', vp_f);
        vp_end();
    }
    return 0;
}

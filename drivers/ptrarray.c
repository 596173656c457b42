/* Drives zt_ptr_array over tokens; a token that is released, by the callback or with free, is only noted. */
#include <zt.h>
#include "vp.h"
#include "vp_mem.h"
#define NP 2
#define NT 256
static zt_ptr_array *P[NP + 1]; static long *T[NT]; static long rel[1 << 18]; static int nrel;
static void note(long v) { if (nrel >= (1 << 18)) abort(); rel[nrel++] = v; }
static void cb(void *p) { note(*(long *)p); }
static long val(void *p) { return p ? *(long *)p : 0; }
int main(void) {
    int n, i;
    for (i = 1; i < NT; i++) { T[i] = __real_malloc(sizeof(long)); *T[i] = i; }
    vp_tok = (void **)T + 1; vp_ntok = NT - 1; vp_tokfree = cb;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i <= NP; i++) if (P[i]) { zt_ptr_array_free(P[i], 0); P[i] = NULL; }
            vp_mem_reset(); vp_ev("reset"); vp_end(); continue; }
        int h = (int)vp_i(1); long x = n > 2 ? vp_i(2) : 0, y = n > 3 ? vp_i(3) : 0, r = 0; int wrote = 0;
        zt_ptr_array *p = P[h];
        nrel = 0; vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld,%ld]", h, x, y);
        if (!strcmp(op, "new")) { VP_LIB(P[h] = zt_ptr_array_init(&h, x ? cb : NULL)); if (!P[h]) r = -1; }
        else if (!strcmp(op, "add")) VP_LIB(r = zt_ptr_array_add(p, x ? T[x] : NULL));
        else if (!strcmp(op, "del")) VP_LIB(r = zt_ptr_array_del(p, x ? T[x] : NULL));
        else if (!strcmp(op, "cat")) VP_LIB(r = zt_ptr_array_cat(p, P[x]));
        else if (!strcmp(op, "resize")) VP_LIB(r = zt_ptr_array_resize(p, x));
        else if (!strcmp(op, "move")) VP_LIB(r = zt_ptr_array_move_idx_to_idx(p, x, y));
        else if (!strcmp(op, "get")) r = val(zt_ptr_array_get_idx(p, x));
        else if (!strcmp(op, "copyout")) {
            int c = zt_ptr_array_length(p); char **b = __real_malloc(sizeof(char *) * c + 1); static long v[1 << 18]; if (c > (1 << 18)) abort();
            if (zt_ptr_array_copy_data(p, b)) abort();
            for (i = 0; i < c; i++) v[i] = val(b[i]); vp_ints("r", v, c); wrote = 1; __real_free(b); }
        else if (!strcmp(op, "free")) { VP_LIB(r = zt_ptr_array_free(p, x)); P[h] = NULL; }
        else vp_die(op);
        if (!wrote) vp_int("r", r);
        vp_key("s"); fputc('[', vp_f);
        for (i = 1; i <= NP; i++) {
            int k; fputs(i > 1 ? ",[" : "[", vp_f);
            if (P[i]) for (k = 0; k < zt_ptr_array_length(P[i]); k++)
                fprintf(vp_f, "%s%ld", k ? "," : "", val(zt_ptr_array_get_idx(P[i], k)));
            fputc(']', vp_f); }
        fputc(']', vp_f); vp_ints("q", rel, nrel); vp_int("m", vp_live); vp_end();
    }
    return 0;
}

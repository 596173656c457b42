/* Drives zt_array; bytes are generated here and recorded with the call. */
#include <zt.h>
#include "vp.h"
#include "vp_mem.h"
#define NA 2
static zt_array_t A[NA + 1]; static unsigned seed;
static void elems(const unsigned char *p, size_t n, size_t z) {
    size_t i, j; fputc('[', vp_f);
    for (i = 0; i < n; i++) { fputs(i ? ",[" : "[", vp_f);
        for (j = 0; j < z; j++) fprintf(vp_f, "%s%u", j ? "," : "", p[i * z + j]); fputc(']', vp_f); }
    fputc(']', vp_f);
}
static unsigned char *gen(size_t n, int watch) {
    unsigned char *d; size_t i; vp_watch = watch; d = malloc(n + 1); vp_watch = 0;
    for (i = 0; i < n; i++) d[i] = (unsigned char)((seed++ * 37 >> 2) | 1);
    d[n] = 0; return d; }
int main(void) {
    int n, i;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i <= NA; i++) if (A[i]) zt_array_free(&A[i]);
            vp_mem_reset(); seed = 1; vp_ev("reset"); vp_end(); continue; }
        int h = (int)vp_i(1); long x = n > 2 ? vp_i(2) : 0, y = n > 3 ? vp_i(3) : 0; int wrote = 0; long r = 0;
        vp_ev(op);
        if (!strcmp(op, "with") || !strcmp(op, "setdata")) {   /* with h n z copy */
            long copy = vp_i(4); unsigned char *d = gen(x * y, !copy);
            fprintf(vp_f, ",\"a\":[%d,%ld,%ld],\"d\":", h, y, copy); elems(d, x, y);
            if (op[0] == 's') VP_LIB(zt_array_set_data(A[h], (char *)d, x, y, copy));
            else if (copy && y == 1 && seed % 2) VP_LIB(A[h] = zt_array_with_cstr((char *)d));
            else VP_LIB(A[h] = zt_array_with((char *)d, x, y, copy));
            if (copy) { memset(d, 0xEE, x * y); free(d); } }
        else {
            fprintf(vp_f, ",\"a\":[%d,%ld,%ld]", h, x, y);
            if (!strcmp(op, "new")) VP_LIB(A[h] = zt_array_new(x, y));
            else if (!strcmp(op, "resize")) VP_LIB(zt_array_resize(A[h], x));
            else if (!strcmp(op, "copy")) VP_LIB(A[x] = zt_array_copy(A[h], y));
            else if (!strcmp(op, "setlen")) r = (long)zt_array_set_length(A[h], x);
            else if (!strcmp(op, "put")) {
                size_t z = zt_array_size(A[h]); unsigned char *d = gen(z, 0); vp_key("d"); elems(d, 1, z);
                if (zt_array_put(A[h], x, d) != d) r = -1; free(d); }
            else if (!strcmp(op, "get")) { vp_bytes("r", zt_array_get(A[h], x), zt_array_size(A[h])); wrote = 1; }
            else if (!strcmp(op, "elemcopy")) {
                unsigned char *b = malloc(zt_array_size(A[h])); if (zt_array_elem_copy(A[h], x, b) != b) abort();
                vp_bytes("r", b, zt_array_size(A[h])); wrote = 1; free(b); }
            else if (!strcmp(op, "free")) { VP_LIB(zt_array_free(&A[h])); A[h] = NULL; }
            else vp_die(op); }
        if (!wrote) vp_int("r", r);
        vp_key("s"); fputc('[', vp_f);
        for (i = 1; i <= NA; i++) {
            if (i > 1) fputc(',', vp_f);
            if (!A[i]) fputs("[0,[]]", vp_f);
            else { fprintf(vp_f, "[%ld,", (long)zt_array_size(A[i]));
                   elems((unsigned char *)zt_array_data(A[i]), zt_array_length(A[i]), zt_array_size(A[i])); fputc(']', vp_f); } }
        fputc(']', vp_f); vp_int("m", vp_live); vp_end();
    }
    return 0;
}

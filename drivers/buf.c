/* Drives zt_buf.  The free space is scribbled over after every call, so that a wrong account of it shows. */
#include <zt.h>
#include "vp.h"
#include "vp_mem.h"
#define NB 2
static zt_buf_t *B[NB + 1];
static int len_of(int i) { return (int)zt_buf_length(B[i]); }
int main(void) {
    int n, i; unsigned seed = 1;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i <= NB; i++) if (B[i]) { zt_buf_free(B[i]); B[i] = NULL; }
            vp_mem_reset(); seed = 1; vp_ev("reset"); vp_end(); continue; }
        int h = n > 1 ? (int)vp_i(1) : 0; long x = n > 2 ? vp_i(2) : 0, r = 0; int wrote = 0;
        if (!strcmp(op, "nomem")) { if (vp_fail) continue; vp_fail = 1; vp_ev(op); fputs(",\"a\":[1]", vp_f); }
        else if (!strcmp(op, "new")) {
            int f = vp_fail; vp_fail = 0; if (B[h]) continue;
            VP_LIB(B[h] = zt_buf_new()); vp_fail = f; vp_ev(op); fprintf(vp_f, ",\"a\":[%d]", h); }
        else {
            if (!B[h]) continue;
            if (!strcmp(op, "addbuf") && (!B[x] || x == h)) continue;
            if (!strcmp(op, "drain") && !x) continue;
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, x);
            if (!strcmp(op, "add")) {
                unsigned char *d = __real_malloc(x + 1); for (i = 0; i < x; i++) d[i] = (unsigned char)(seed++ * 37 >> 2);
                VP_LIB(r = zt_buf_add(B[h], d, x)); vp_bytes("d", d, x); __real_free(d); }
            else if (!strcmp(op, "iov")) {   /* iov h n1 n2 .. */
                int nv = n - 2; zt_iov_t v[64]; size_t j;
                vp_key("d"); fputc('[', vp_f);
                for (i = 0; i < nv; i++) {
                    v[i].iov_len = vp_i(i + 2); v[i].iov_data = __real_malloc(v[i].iov_len + 1);
                    fputs(i ? ",[" : "[", vp_f);
                    for (j = 0; j < v[i].iov_len; j++) {
                        unsigned char c = (unsigned char)(seed++ * 37 >> 2); ((unsigned char *)v[i].iov_data)[j] = c;
                        fprintf(vp_f, "%s%u", j ? "," : "", c); }
                    fputc(']', vp_f); }
                fputc(']', vp_f);
                size_t tl = zt_buf_iov_len(v, nv);
                VP_LIB(r = zt_buf_iov_add(B[h], v, nv)); if (r == 0) r = (long)tl;
                for (i = 0; i < nv; i++) __real_free(v[i].iov_data); }
            else if (!strcmp(op, "addbuf")) VP_LIB(r = zt_buf_add_buf(B[h], B[x]));
            else if (!strcmp(op, "drain")) VP_LIB(r = (long)zt_buf_drain(B[h], (size_t)x));
            else if (!strcmp(op, "remove")) {
                unsigned char *d = __real_malloc(x + 1); size_t g; VP_LIB(g = zt_buf_remove(B[h], d, x));
                if (g > (size_t)x) abort(); vp_bytes("r", d, g); wrote = 1; __real_free(d); }
            else if (!strcmp(op, "reserve")) VP_LIB(r = zt_buf_reserve(B[h], x));
            else if (!strcmp(op, "expand")) VP_LIB(r = zt_buf_expand(B[h], x));
            else if (!strcmp(op, "free")) { VP_LIB(zt_buf_free(B[h])); B[h] = NULL; }
            else vp_die(op);
        }
        if (!wrote) vp_int("r", r);
        vp_key("s"); fputc('[', vp_f);
        for (i = 1; i <= NB; i++) {
            if (i > 1) fputc(',', vp_f);
            if (!B[i]) fputs("[-1]", vp_f);
            else {
                size_t j, l = zt_buf_length(B[i]); unsigned char *p = zt_buf_get(B[i]);
                if (!p != !l) abort();
                fputc('[', vp_f); for (j = 0; j < l; j++) fprintf(vp_f, "%s%u", j ? "," : "", p[j]); fputc(']', vp_f);
                if (p) memset(p + l, 0xEE, zt_buf_unused_sz(B[i])); } }
        fputs("],\"u\":[", vp_f);
        for (i = 1; i <= NB; i++) fprintf(vp_f, "%s%ld", i > 1 ? "," : "", B[i] ? (long)zt_buf_unused_sz(B[i]) : 0L);
        fputc(']', vp_f); vp_int("m", vp_live); vp_end();
    }
    return 0;
}

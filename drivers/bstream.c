/* Drives zt_bstream.  ext[i] is how many bytes of the stream's array have been written or given so far. */
#include <zt.h>
#include "vp.h"
#include "vp_mem.h"
#define NS 2
static zt_bstream_t S[NS + 1]; static size_t ext[NS + 1]; static unsigned seed;
static unsigned char *gen(size_t n, int watch) {
    unsigned char *d; size_t i; vp_watch = watch; d = malloc(n + 1); vp_watch = 0;
    for (i = 0; i < n; i++) d[i] = (unsigned char)((seed++ * 37 >> 2) | 1);
    return d; }
#define W(type, fn) do { type v; memcpy(&v, d, sizeof v); VP_LIB(fn(S[h], v)); } while (0)
#define R(type, fn) do { type v; VP_LIB(fn(S[h], &v)); memcpy(d, &v, sizeof v); } while (0)
int main(void) {
    int n, i;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) {
            for (i = 1; i <= NS; i++) { if (S[i]) zt_bstream_free(&S[i]); S[i] = NULL; ext[i] = 0; }
            vp_mem_reset(); seed = 1; vp_ev("reset"); vp_end(); continue; }
        int h = (int)vp_i(1); long x = n > 2 ? vp_i(2) : 0, y = n > 3 ? vp_i(3) : 0, r = 0; int wrote = 0;
        if (!strcmp(op, "write")) {     /* write h len size | write h bytes-of-type t */
            const char *t = n > 4 ? vp_w[4] : "";
            unsigned char *d = gen(x * y, 0);
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d]", h); vp_bytes("d", d, x * y);
            if (*t == 'b') zt_bstream_write_byte(S[h], (char)d[0]);
            else if (*t == 'u' && y == 1) W(uint8_t, zt_bstream_write_uint8);
            else if (*t == 'u' && y == 2) W(uint16_t, zt_bstream_write_uint16);
            else if (*t == 'u' && y == 4) W(uint32_t, zt_bstream_write_uint32);
            else if (*t == 'u' && y == 8) W(uint64_t, zt_bstream_write_uint64);
            else if (*t == 'f') W(float, zt_bstream_write_float);
            else if (*t == 'd') W(double, zt_bstream_write_double);
            else VP_LIB(zt_bstream_write(S[h], (char *)d, x, (char)y, 0));
            if (S[h]->offt > ext[h]) ext[h] = S[h]->offt;
            free(d); }
        else if (!strcmp(op, "read")) {
            const char *t = n > 4 ? vp_w[4] : "";
            unsigned char *d;
            if (S[h]->offt + x * y > ext[h]) continue;
            d = malloc(x * y + 1);
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, x * y);
            if (*t == 'b') zt_bstream_read_byte(S[h], (char *)d);
            else if (*t == 'u' && y == 1) R(uint8_t, zt_bstream_read_uint8);
            else if (*t == 'u' && y == 2) R(uint16_t, zt_bstream_read_uint16);
            else if (*t == 'u' && y == 4) R(uint32_t, zt_bstream_read_uint32);
            else if (*t == 'u' && y == 8) R(uint64_t, zt_bstream_read_uint64);
            else if (*t == 'f') R(float, zt_bstream_read_float);
            else if (*t == 'd') R(double, zt_bstream_read_double);
            else VP_LIB(zt_bstream_read(S[h], (char *)d, x, (char)y, 0));
            vp_bytes("r", d, x * y); wrote = 1; free(d); }
        else if (!strcmp(op, "setdata")) {   /* setdata h n copy */
            unsigned char *d = gen(x, !y);
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, y); vp_bytes("d", d, x);
            VP_LIB(zt_bstream_set_data(S[h], (char *)d, x, y)); zt_bstream_rewind(S[h]); ext[h] = x;
            if (y) { memset(d, 0xEE, x); free(d); } }
        else if (!strcmp(op, "setarray")) {  /* setarray h n pos */
            unsigned char *d = gen(x, 0); zt_array_t a;
            VP_LIB(a = zt_array_with((char *)d, x, 1, 1));
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, y); vp_bytes("d", d, x);
            VP_LIB(zt_bstream_set_array(S[h], a, y)); ext[h] = x; free(d); }
        else {
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, x);
            if (!strcmp(op, "new")) { VP_LIB(S[h] = zt_bstream_new()); ext[h] = 0; }
            else if (!strcmp(op, "rewind")) r = (long)zt_bstream_rewind(S[h]);
            else if (!strcmp(op, "truncate")) { zt_bstream_truncate(S[h]); ext[h] = 0; }
            else if (!strcmp(op, "isempty")) r = !!zt_bstream_is_empty(S[h]);
            else if (!strcmp(op, "flip")) S[h]->flipendian = !S[h]->flipendian;
            else if (!strcmp(op, "clone")) { VP_LIB(S[x] = zt_bstream_clone(S[h])); ext[x] = ext[h]; }
            else if (!strcmp(op, "free")) { VP_LIB(zt_bstream_free(&S[h])); S[h] = NULL; ext[h] = 0; }
            else vp_die(op); }
        if (!wrote) vp_int("r", r);
        vp_key("s"); fputc('[', vp_f);
        for (i = 1; i <= NS; i++) {
            size_t k; fputs(i > 1 ? ",[[" : "[[", vp_f);
            if (S[i] && ext[i] > zt_array_length(S[i]->data)) fputs("-1", vp_f);
            else for (k = 0; k < ext[i]; k++) fprintf(vp_f, "%s%u", k ? "," : "", (unsigned char)S[i]->data->data[k]);
            fprintf(vp_f, "],%ld]", S[i] ? (long)S[i]->offt : 0L); }
        fputc(']', vp_f); vp_int("m", vp_live); vp_end();
    }
    return 0;
}

/* Drives zt_sha1: three contexts, whole data, text forms. */
#include <zt.h>
#include <libzt/zt_sha1.h>
#include <sys/mman.h>
#include "vp.h"
static zt_sha1_ctx *ctx[3];
static void arr(const unsigned char *b, size_t n) {
    size_t i; fputc('[', vp_f);
    for (i = 0; i < n; i++) fprintf(vp_f, "%s%u", i ? "," : "", b[i]);
    fputc(']', vp_f);
}
int main(void) {
    int n;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0]; size_t len = 0; unsigned char *h, *in; int c;
        if (!strcmp(op, "reset")) { int i; for (i = 0; i < 3; i++) { free(ctx[i]); ctx[i] = NULL; } vp_ev("reset"); vp_end(); continue; }
        if (!strcmp(op, "init")) {
            c = vp_i(1) - 1; free(ctx[c]); ctx[c] = malloc(sizeof *ctx[c]); memset(ctx[c], 0xA5, sizeof *ctx[c]);
            zt_sha1_init(ctx[c]); vp_ev(op); vp_int("c", c + 1); vp_int("r", 0); vp_end(); continue;
        }
        if (!strcmp(op, "final")) {
            unsigned char *d = malloc(20); memset(d, 0x5A, 20);
            c = vp_i(1) - 1; zt_sha1_finalize(ctx[c], d);
            vp_ev(op); vp_int("c", c + 1); vp_bytes("r", d, 20); vp_end(); free(d); free(ctx[c]); ctx[c] = NULL; continue;
        }
        if (!strcmp(op, "many")) {              /* 2^29 zero bytes, in pieces */
            size_t left = (size_t)1 << 29, k = vp_i(2); unsigned char *z = calloc(k, 1);
            c = vp_i(1) - 1;
            while (left) { size_t m = left < k ? left : k; zt_sha1_update(ctx[c], z, m); left -= m; }
            free(z); vp_ev(op); vp_int("c", c + 1); vp_int("r", 0); vp_end(); continue;
        }
        if (!strcmp(op, "huge")) {              /* 2^32 zero bytes, the first k on their own (two or more) */
            size_t k = vp_i(2), rest = ((size_t)1 << 32) - k;
            unsigned char *z = mmap(NULL, rest, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (z == MAP_FAILED || k < 2) vp_die("no room");
            c = vp_i(1) - 1; zt_sha1_update(ctx[c], z, k); zt_sha1_update(ctx[c], z, rest);
            munmap(z, rest); vp_ev(op); vp_int("c", c + 1); vp_int("r", 0); vp_end(); continue;
        }
        c = !strcmp(op, "update");
        h = vp_hex(vp_w[1 + c], &len); in = malloc(len); memcpy(in, h, len);
        vp_ev(op); vp_bytes("a", h, len);
        if (c) { zt_sha1_update(ctx[vp_i(1) - 1], in, len); vp_int("c", vp_i(1)); vp_bytes("r", in, len); }
        else if (!strcmp(op, "data")) {
            unsigned char *d = malloc(20); memset(d, 0x5A, 20); zt_sha1_data(in, len, d);
            fputs(",\"r\":[", vp_f); arr(d, 20); fputc(',', vp_f); arr(in, len); fputc(']', vp_f); free(d);
        } else if (!strcmp(op, "tostr")) {
            char *t = malloc(41), *q; memset(t, 'Z', 41); q = zt_sha1_tostr(in, t); 
            if (q == t) vp_bytes("r", t, 41); else vp_int("r", -2);
            free(t);
        } else {
            char *t = malloc(41); unsigned char *d = malloc(20), *q; memset(t, 0, 41); memcpy(t, in, len); memset(d, 0x5A, 20);
            q = zt_str_tosha1(t, d);
            if (q == d) vp_bytes("r", d, 20); else vp_int("r", -2);
            free(t); free(d);
        }
        vp_end(); free(h); free(in);
    }
    return 0;
}

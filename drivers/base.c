/* Drives zt_base encoding and decoding. */
#include <zt.h>
#include <libzt/zt_base.h>
#include "vp.h"
static zt_base_definition_t *def(int d) {
    switch (d) { case 1: return zt_base64_rfc; case 2: return zt_base64_rfc_nopad; case 3: return zt_base64_uri;
                 case 4: return zt_base32_rfc; case 5: return zt_base32_hex; default: return zt_base16_rfc; } }
static int enc(int d, const void *in, size_t n, void **out, size_t *len) {
    switch (d) { case 1: return zt_base64_encode(in, n, out, len); case 2: return zt_base64_encode_nopad(in, n, out, len);
                 case 3: return zt_base64_encode_uri(in, n, out, len); case 4: return zt_base32_encode(in, n, out, len);
                 case 5: return zt_base32_encode_hex(in, n, out, len); default: return zt_base16_encode(in, n, out, len); } }
static int dec(int d, const void *in, size_t n, void **out, size_t *len) {
    switch (d) { case 1: return zt_base64_decode(in, n, out, len); case 2: return zt_base_decode(zt_base64_rfc_nopad, in, n, out, len);
                 case 3: return zt_base64_decode_uri(in, n, out, len); case 4: return zt_base32_decode(in, n, out, len);
                 case 5: return zt_base32_decode_hex(in, n, out, len); default: return zt_base16_decode(in, n, out, len); } }
int main(void) {
    int n;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "bad")) {
            void *o = NULL; int r = vp_i(1) ? zt_base_decode(zt_base64_rfc, "Zg==", 4, &o, NULL) : zt_base_encode(zt_base64_rfc, "Zg==", 4, &o, NULL);
            vp_ev("bad"); vp_int("r", r); vp_end(); continue;
        }
        int e = !strcmp(op, "enc"), d = (int)vp_i(1), p = (int)vp_i(2), r, null = 0; const char *how = vp_w[3]; size_t k = vp_i(4), len, il;
        unsigned char *b = vp_hex(vp_w[5], &il), *in = malloc(il); char *buf = NULL, *o; void **out = (void **)&o; zt_base_flags fl = def(d)->flags;
        memcpy(in, b, il); free(b);
        o = NULL; len = k;
        if (!strcmp(how, "alloc")) len = 0; else if (!strcmp(how, "buf")) o = buf = malloc(k); else if (!strcmp(how, "none")) out = NULL; else null = 1;
        if (p) ZT_BIT_SET(def(d)->flags, zt_base_encode_with_padding); else ZT_BIT_UNSET(def(d)->flags, zt_base_encode_with_padding);
        r = e ? enc(d, in, il, out, &len) : dec(d, in, il, out, &len);
        def(d)->flags = fl;
        vp_ev(op); vp_int("d", d); vp_bool("p", p); fprintf(vp_f, ",\"how\":[\"%s\",%zu,%d]", null ? "none" : how, k, null);
        vp_bytes("a", in, il); fprintf(vp_f, ",\"r\":[%d,%ld,", r, (long)len);
        fputc('[', vp_f);
        if (!r && out && o) { size_t i; for (i = 0; i < len; i++) fprintf(vp_f, "%s%u", i ? "," : "", (unsigned char)o[i]); }
        fputs("]]", vp_f); vp_end();
        if (o && o != buf) free(o);
        free(buf); free(in);
    }
    return 0;
}

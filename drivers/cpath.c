/* Drives the cutting and path functions of zt_cstr. */
#include <zt.h>
#include <libzt/zt_cstr.h>
#include "vp_args.h"
static void pieces(zt_ptr_array *p, int cut) {
    int k;
    vp_key("r");
    if (!p) { fputs("[[0]]", vp_f); return; }
    fputc('[', vp_f);
    for (k = 0; zt_ptr_array_get_idx(p, k); k++) { const char *s = zt_ptr_array_get_idx(p, k); if (k) fputc(',', vp_f); text(s, strlen(s)); }
    fputc(']', vp_f);
    if ((cut ? zt_cstr_cut_free(p) : zt_cstr_split_free(p)) != 0) vp_bad("free");
}
int main(void) {
    int n;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        args(n);
        if (0) ;
        IS("split") pieces(zt_cstr_split(S[1], S[2]), 0);
        IS("cut") pieces(zt_cstr_cut(S[1], (char)I[2], I[3]), 1);
        IS("tok") pieces(zt_cstr_tok(S[1], (char)I[2], 0), 1);
        IS("base") { char *b = malloc(I[3]), *q; memset(b, 0xEE, I[3]); q = zt_cstr_basename(b, I[3], S[1], S[2]);
                     vp_key("r"); text(q, strnlen(q, I[3])); free(b); }
        IS("dir") { char *b = malloc(I[2]), *q; memset(b, 0xEE, I[2]); q = zt_cstr_dirname(b, I[2], S[1]);
                     vp_key("r"); text(q, strnlen(q, I[2])); free(b); }
        IS("append") { char *q = zt_cstr_path_append(S[1], S[2]); vp_key("r"); text(q, strlen(q)); zt_free(q); }
        IS("abs") vp_bool("r", zt_cstr_abspath(S[1]));
        else vp_die("what?");
        args_end(n);
    }
    return 0;
}

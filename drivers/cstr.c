/* Drives the slicing and searching functions of zt_cstr.  A line is the operation and its arguments; strings are xHEX. */
#include <zt.h>
#include <libzt/zt_cstr.h>
#include "vp_args.h"
static void own(char *p) { vp_key("r"); if (p) text(p, strlen(p)); else fputs("-1", vp_f); zt_free(p); }
int main(void) {
    int n;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        args(n);
        if (0) ;
        IS("sub") own(zt_cstr_sub(S[1], I[2], I[3]));
        IS("dup") own(zt_cstr_dup(S[1], I[2], I[3], I[4]));
        IS("cat") own(zt_cstr_cat(S[1], I[2], I[3], S[4], I[5], I[6]));
        IS("catv") own(n == 4 ? zt_cstr_catv(S[1], (int)I[2], (int)I[3], NULL) :
                       n == 7 ? zt_cstr_catv(S[1], (int)I[2], (int)I[3], S[4], (int)I[5], (int)I[6], NULL) :
                                zt_cstr_catv(S[1], (int)I[2], (int)I[3], S[4], (int)I[5], (int)I[6], S[7], (int)I[8], (int)I[9], NULL));
        IS("rev") own(zt_cstr_reverse(S[1], I[2], I[3]));
        IS("map") own(zt_cstr_map(S[1], I[2], I[3], S[4], S[5]));
        IS("pos") vp_int("r", (long)zt_cstr_pos(S[1], I[2]));
        IS("len") vp_int("r", (long)zt_cstr_len(S[1], I[2], I[3]));
        IS("cmp") { int r = zt_cstr_cmp(S[1], I[2], I[3], S[4], I[5], I[6]); vp_int("r", (r > 0) - (r < 0)); }
        IS("chr") vp_int("r", (long)zt_cstr_chr(S[1], I[2], I[3], (char)I[4]));
        IS("rchr") vp_int("r", (long)zt_cstr_rchr(S[1], I[2], I[3], (char)I[4]));
        IS("upto") vp_int("r", zt_cstr_upto(S[1], I[2], I[3], S[4]));
        IS("rupto") vp_int("r", zt_cstr_rupto(S[1], I[2], I[3], S[4]));
        IS("any") vp_int("r", zt_cstr_any(S[1], I[2], I[3], S[4]));
        IS("rany") vp_int("r", zt_cstr_rany(S[1], I[2], I[3], S[4]));
        IS("find") vp_int("r", zt_cstr_find(S[1], I[2], I[3], S[4]));
        IS("rfind") vp_int("r", zt_cstr_rfind(S[1], I[2], I[3], S[4]));
        IS("copy") { char *b = malloc(I[4]); size_t k; memset(b, 0xEE, I[4]); k = zt_cstr_copy(S[1], I[2], I[3], b, I[4]);
                     fprintf(vp_f, ",\"r\":[%ld,", (long)k); text(b, k); fputc(']', vp_f); free(b); }
        IS("chomp") { char *q = zt_cstr_chomp(S[1]); vp_key("r"); if (q == S[1]) text(q, strlen(q)); else fputs("-1", vp_f); }
        IS("strip") { char *q = zt_cstr_strip(S[1]); vp_key("r"); if (q == S[1]) text(q, strlen(q)); else fputs("-1", vp_f); }
        IS("rspn") vp_int("r", (long)zt_cstr_rspn(S[1], S[2]));
        IS("rcspn") vp_int("r", (long)zt_cstr_rcspn(S[1], S[2]));
        else vp_die("what?");
        args_end(n);
    }
    return 0;
}

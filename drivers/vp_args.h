/* Lines of an operation and its arguments: xHEX is a string, - is none, anything else a number. */
#ifndef VP_ARGS_H
#define VP_ARGS_H
#include "vp.h"
#define MAXA 24
static char *S[MAXA]; static size_t L[MAXA]; static long I[MAXA]; static int isS[MAXA];
static void text(const char *p, size_t n) { size_t i; fputc('[', vp_f); for (i = 0; i < n; i++) fprintf(vp_f, "%s%u", i ? "," : "", (unsigned char)p[i]); fputc(']', vp_f); }
static void args(int n) {
    int i;
    for (i = 1; i < n; i++) {
        isS[i] = vp_w[i][0] == 'x' ? 1 : !strcmp(vp_w[i], "-") ? 2 : 0; S[i] = NULL;
        if (isS[i] == 1) { unsigned char *h = vp_hex(vp_w[i], &L[i]); S[i] = malloc(L[i] + 1); memcpy(S[i], h, L[i]); S[i][L[i]] = 0; free(h); }
        else if (!isS[i]) I[i] = vp_i(i);
    }
    vp_ev(vp_w[0]); vp_key("a"); fputc('[', vp_f);
    for (i = 1; i < n; i++) {
        if (i > 1) fputc(',', vp_f);
        if (isS[i] == 1) text(S[i], L[i]); else if (isS[i]) fputs("[0]", vp_f); else fprintf(vp_f, "%ld", I[i]);
    }
    fputc(']', vp_f);
}
static void args_end(int n) { int i; vp_end(); for (i = 1; i < n; i++) free(S[i]), S[i] = NULL; }
#define IS(x) else if (!strcmp(op, x))
#endif

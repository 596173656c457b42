/* Drives zt_format.  Arguments of any type are handed over through registers and stack as the x86-64 calling convention has
   them: the integers and pointers in their order, the (at most eight) floating values in theirs. */
#include <zt.h>
#include <libzt/zt_format.h>
#include <math.h>
#include "vp_args.h"
static char *col; static size_t ncol;
static int put(int c, void *cl) { if (cl != &col) vp_bad("cl"); col = realloc(col, ncol + 1); col[ncol++] = (char)c; return c; }
static size_t emit(zt_fmt_put_f p, void *cl, const char *s) { size_t n = 0; while (*s) { p((unsigned char)*s++, cl); n++; } return n; }
static size_t own(int v, zt_fmt_put_f p, void *cl, unsigned char f[256], ssize_t w, ssize_t pr) {
    static const char o[] = "+- 0#"; char b[128]; size_t n; int k, x, at = 0;
    b[at++] = '<';
    for (k = 0; o[k]; k++) for (x = 0; x < f[(unsigned char)o[k]] && at < 60; x++) b[at++] = o[k];
    b[at] = 0; n = emit(p, cl, b);
    if (w == INT_MIN) strcpy(b, ":*"); else sprintf(b, ":%ld", (long)w);
    n += emit(p, cl, b);
    if (pr == INT_MIN) strcpy(b, ":*"); else sprintf(b, ":%ld", (long)pr);
    n += emit(p, cl, b);
    sprintf(b, ":%d>", v);
    return n + emit(p, cl, b);
}
#define CONV(name) static size_t name(int code, void *v, zt_fmt_put_f p, void *cl, unsigned char f[256], ssize_t w, ssize_t pr)
CONV(cQ) { if (code != 'Q') vp_bad("code"); return own(*(int *)v, p, cl, f, w, pr); }
CONV(cR) { (void)code; return own(*(int *)v, p, cl, f, w, pr); }
CONV(cU) { (void)code; return own((int)*(unsigned *)v, p, cl, f, w, pr); }
CONV(cP) { (void)code; return own((int)(uintptr_t)*(void **)v, p, cl, f, w, pr); }
CONV(cD) { (void)code; return own((int)*(double *)v, p, cl, f, w, pr); }
CONV(cS) { (void)code; char *s = *(char **)v; return zt_fmt_puts(s, strlen(s), p, cl, f, w, pr); }
CONV(cN) { (void)code; char *s = *(char **)v; return zt_fmt_putd(s, strlen(s), p, cl, f, w, pr); }
int main(void) {
    int n, k;
    vp_open();
    zt_fmt_register('Q', cQ, 'i'); zt_fmt_register('U', cU, 'u'); zt_fmt_register('P', cP, 'p'); zt_fmt_register('D', cD, 'd');
    zt_fmt_register('S', cS, 's'); zt_fmt_register('N', cN, 's');
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0]; long g[12] = { 0 }; double d[8] = { 0 }; int ng = 0, nd = 0; size_t r;
        args(n);
        for (k = 3; k < n; k++) {
            unsigned char *b = (unsigned char *)S[k];
            if (isS[k] != 1 || ng == 12 || nd == 8) vp_die("argument");
            switch (b[0]) {
            case 0: g[ng++] = (long)(0xABCD000000000000ul | ((unsigned long)b[1] << 24) | (b[2] << 16) | (b[3] << 8) | b[4]); break;
            case 1: g[ng++] = (long)(b + 1); break;
            case 2: d[nd++] = ldexp((b[2] << 16) | (b[3] << 8) | b[4], -b[5]) * (b[1] ? -1.0 : 1.0); break;
            case 3: { unsigned long v = 0; int x; for (x = 1; x <= 8; x++) v = v << 8 | b[x]; g[ng++] = (long)v; break; }
            default: vp_die("tag");
            }
        }
#define ALL S[1], g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10], g[11], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]
        if (0) ;
        IS("format") { ncol = 0; r = zt_fmt_format(put, &col, ALL); fprintf(vp_f, ",\"r\":[%ld,", (long)r); text(col, ncol); fputc(']', vp_f); }
        IS("fprintf") { char *m = NULL; size_t z; FILE *f = open_memstream(&m, &z); r = zt_fmt_fprintf(f, ALL); fclose(f);
                        fprintf(vp_f, ",\"r\":[%ld,", (long)r); text(m, z); fputc(']', vp_f); free(m); }
        IS("printf") { static char buf[65536]; int keep = dup(1); FILE *t = tmpfile();
                       fflush(stdout); dup2(fileno(t), 1); r = zt_fmt_printf(ALL); fflush(stdout); dup2(keep, 1); close(keep); rewind(t);
                       fprintf(vp_f, ",\"r\":[%ld,", (long)r); r = fread(buf, 1, sizeof buf, t); fclose(t); text(buf, r); fputc(']', vp_f); }
        IS("string") { char *s = zt_fmt_strprintf(ALL); fputs(",\"r\":[0,", vp_f); text(s, strlen(s)); fputc(']', vp_f); zt_free(s); }
        IS("sprintf") { char *b = malloc(I[2]); memset(b, 238, I[2]); r = zt_fmt_sprintf(b, I[2], ALL);
                        fprintf(vp_f, ",\"r\":[%ld,", (long)r); text(b, I[2]); fputc(']', vp_f); free(b); }
        IS("register") {
            int c = (int)I[1], t = strchr("ouxX", c) && c ? 'u' : strchr("efg", c) && c ? 'd' : c == 's' ? 's' : c == 'p' ? 'p' : 'i'; char f[4] = { '%', '3', (char)c, 0 };
            zt_fmt_ty a = zt_fmt_register(c, cQ, 's'), b = zt_fmt_register(c, cR, 'i'), e;
            ncol = 0; zt_fmt_format(put, &col, f, 7); e = zt_fmt_register(c, a, t);
            vp_key("r"); fprintf(vp_f, "[%s,%s,%s,", a ? "false" : "true", b == cQ ? "true" : "false", e == cR ? "true" : "false"); text(col, ncol); fputc(']', vp_f);
        }
        else vp_die("what?");
        args_end(n);
    }
    return 0;
}

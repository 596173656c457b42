/* Drives zt_int.h.  A failed assertion comes back here instead of ending the program.  Built with -DNDEBUG as well. */
#include <stdlib.h>
#include <setjmp.h>
static jmp_buf back; static int told;
#define abort() longjmp(back, 1)
#include <zt.h>
#include <libzt/zt_int.h>
#include "vp_args.h"
void __wrap__zt_log_assertion(const char *c, const char *f, unsigned int l, const char *fn) { (void)c; (void)f; (void)l; (void)fn; told++; }
static long val(const char *s) { unsigned long v = 0; int k; for (k = 1; k < 9; k++) v = v << 8 | (unsigned char)s[k]; return (long)(s[0] ? -v : v); }
static void show(int neg, unsigned long v) { int k; fprintf(vp_f, ",\"r\":[%d", neg); for (k = 7; k >= 0; k--) fprintf(vp_f, ",%lu", (v >> (8 * k)) & 255); fputc(']', vp_f); }
#define OPS(ty, nm, S_) if (!strcmp(op, "add")) r = zt_##nm##_add((ty)x, (ty)y); else if (!strcmp(op, "sub")) r = zt_##nm##_sub((ty)x, (ty)y); S_(ty, nm)
#define MORE(ty, nm) else if (!strcmp(op, "mul")) r = zt_##nm##_mul((ty)x, (ty)y); else if (!strcmp(op, "div")) r = zt_##nm##_div((ty)x, (ty)y); else vp_die("op");
#define LESS(ty, nm) else vp_die("op");
static long calc(const char *op, int sg, int bits, long x, long y) {
    long r = 0;
    if (sg) switch (bits) {
        case 8: OPS(signed char, char, MORE) break;
        case 16: OPS(short, short, MORE) break;
        case 32: OPS(int, int, MORE) break;
        case 64: OPS(long, long, LESS) break;
    } else switch (bits) {
        case 8: OPS(unsigned char, uchar, MORE) break;
        case 16: OPS(unsigned short, ushort, MORE) break;
        case 32: OPS(unsigned int, uint, MORE) break;
        case 64: OPS(unsigned long, ulong, LESS) break;
    }
    return r;
}
int main(void) {
    int n;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        static const char *op; static volatile int k; static int sg;
        if (!strcmp(vp_w[0], "row")) { vp_ev("row"); vp_key("a"); fputc('[', vp_f); } else args(n);
        op = vp_w[0];
        if (!strcmp(op, "row")) {
            static const char *o; static long x;
            o = vp_w[1]; sg = (int)vp_i(2); x = vp_i(3);
            fprintf(vp_f, "\"%s\",%d,%ld],\"r\":[", o, sg, x);
            for (k = 0; k < 256; k++) {
                long v = 9999; told = 0;
                if (!setjmp(back)) { v = calc(o, sg, 8, x, k - (sg ? 128 : 0)); if (told) v = 7777; }
                else { v = told == 1 ? 9999 : 8888; }
                fprintf(vp_f, "%s%ld", k ? "," : "", v);
            }
            fputc(']', vp_f); vp_end(); continue;
        }
        told = 0; sg = (int)I[1];
        if (!setjmp(back)) {
            long r = calc(op, sg, (int)I[2], val(S[3]), val(S[4]));
            if (told) fputs(",\"r\":[\"told\"]", vp_f); else show(sg && r < 0, sg && r < 0 ? -(unsigned long)r : (unsigned long)r);
        } else fputs(told == 1 ? ",\"r\":[\"stop\"]" : ",\"r\":[\"silent\"]", vp_f);
        args_end(n);
    }
    return 0;
}

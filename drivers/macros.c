/* Uses the helper macros, with arguments that are expressions. */
#include <zt.h>
#include "vp.h"
static uint64_t bits(const char *w) { uint64_t v = 0; char *q; if (*w == '-') return 0; for (;;) { v |= (uint64_t)1 << strtol(w, &q, 10); if (*q != ',') return v; w = q + 1; } }
static void show(uint64_t v) { int k, f = 1; fputc('[', vp_f); for (k = 0; k < 64; k++) if (v >> k & 1) { fprintf(vp_f, "%s%d", f ? "" : ",", k); f = 0; } fputc(']', vp_f); }
#define WORD(T, B) { T s = (T)v, u = (T)v; B x = (B)m, z = 0; ZT_BIT_SET(s, x | z); ZT_BIT_UNSET(u, z | x); \
    show(s); fputc(',', vp_f); show(u); fprintf(vp_f, ",%d,%d", ZT_BIT_ISSET(v ? (T)v : 0, x | z), ZT_BIT_ISUNSET((T)v | 0, z | x)); }
#define TARGET(T) { if (!strcmp(b, "int")) WORD(T, int) else if (!strcmp(b, "u32")) WORD(T, uint32_t) else WORD(T, uint64_t) }
struct t12 { int a[3]; };
struct M { char a; double b; struct { int x, y; } c; char d[3]; struct t12 e[2]; };
#define ARR(T, n) { static T arr[n], (*p)[n] = &arr; r = (long)sizeof_array(arr) == (long)sizeof_array((*p)) ? (long)sizeof_array(arr) : -1; q = (long)((char *)endof_array(arr) - (char *)arr); }
#define ARRS(T) { if (n == 1) ARR(T, 1) else if (n == 2) ARR(T, 2) else if (n == 7) ARR(T, 7) else ARR(T, 100) }
#define MEM(m) ((void *)zt_containerof(&o[1].m, struct M, m) == (void *)&o[1] && zt_offsetof(struct M, m) == (size_t)((char *)&o[1].m - (char *)&o[1]) && (void *)zt_containerof(p + 0 == NULL ? NULL : &o[0].m, struct M, m) == (void *)o)
/* every type gives the same; the functions scale with their arguments */
#define NUM(T, S) static T num_##T(const char *op, int x_, int y_, int z_, int w_) { T x = (T)x_ * S, y = (T)y_ * S, z = (T)z_ * S, w = (T)w_ * S; int t = z_ != 77; \
    if (!strcmp(op, "abs")) return 2 * ABS(x - y) / 2; \
    if (!strcmp(op, "clamp")) return 2 * CLAMP(x - y, t ? z : 77 * S, z + w) / 2; \
    if (!strcmp(op, "ceiling")) return 2 * CEILING(x - y, t ? z : 77 * S) / 2; \
    if (!strcmp(op, "floor")) return 2 * FLOOR(x - y, t ? z : 77 * S) / 2; \
    if (!strcmp(op, "max")) return 2 * MAX(x - y, t ? z : 77 * S) / 2; \
    if (!strcmp(op, "min")) return 2 * MIN(x - y, t ? z : 77 * S) / 2; \
    vp_die("op"); return 0; }
NUM(int, 1) NUM(int64_t, 2147483648LL) NUM(double, 0.25) NUM(int16_t, 1)
static int number(const char *op, int x, int y, int z, int w) {
    int r = num_int(op, x, y, z, w), small = abs(x) < 4000 && abs(y) < 4000 && abs(z) < 4000 && abs(w) < 4000;
    if (num_int64_t(op, x, y, z, w) != r * 2147483648LL || num_double(op, x, y, z, w) != r * 0.25 || (small && num_int16_t(op, x, y, z, w) != r)) return -2147483647;
    return r; }
int main(void) {
    int nw, k;
    vp_open();
    while ((nw = vp_line()) > 0) {
        const char *op = vp_w[0]; vp_ev(op); fputs(",\"a\":[", vp_f);
        if (!strcmp(op, "bits")) {
            const char *t = vp_w[1], *b = vp_w[2]; uint64_t v = bits(vp_w[3]), m = bits(vp_w[4]);
            fprintf(vp_f, "\"%s\",\"%s\",", t, b); show(v); fputc(',', vp_f); show(m); fputs("],\"r\":[", vp_f);
            if (!strcmp(t, "u8")) TARGET(uint8_t) else if (!strcmp(t, "u16")) TARGET(uint16_t) else if (!strcmp(t, "u32")) TARGET(uint32_t) else TARGET(uint64_t)
            fputc(']', vp_f);
        } else {
            int x = nw > 1 ? (int)vp_i(1) : 0, y = nw > 2 ? (int)vp_i(2) : 0, z = nw > 3 ? (int)vp_i(3) : 0, w = nw > 4 ? (int)vp_i(4) : 0, r = 0, q = 0, n = y, t = 1, o_ = 0;
            for (k = 1; k < nw; k++) fprintf(vp_f, "%s%ld", k > 1 ? "," : "", vp_i(k));
            fputs("],\"r\":", vp_f);
            if (!strcmp(op, "array")) { if (x == 1) ARRS(char) else if (x == 4) ARRS(int) else ARRS(struct t12) fprintf(vp_f, "[%d,%d]", r, q); }
            else if (!strcmp(op, "member")) { static struct M o[3]; struct M *p = o; fputs((x == 0 ? MEM(a) : x == 1 ? MEM(b) : x == 2 ? MEM(c.y) : x == 3 ? MEM(d[1]) : MEM(e[1].a[2])) ? "true" : "false", vp_f); }
            else {
                char b[256];
                if (strchr("acfm", *op)) r = number(op, x, y, z, w);
                else if (!strcmp(op, "indent")) r = snprintf(b, sizeof b, BLANK, INDENT(x + o_));
                else if (!strcmp(op, "pad")) r = snprintf(b, sizeof b, BLANK, INDENT_PAD(x | 0, y + z, w | 0));
                else if (!strcmp(op, "to")) r = snprintf(b, sizeof b, BLANK, INDENT_TO(x | 0, y | 0, z | 0));
                else vp_die("op");
                if (strchr("ipt", *op) && strcmp(op, "min")) for (k = 0; k < r; k++) if (b[k] != ' ') r = -1;
                fprintf(vp_f, "%d", r);
            }
        }
        vp_end();
    }
    return 0;
}

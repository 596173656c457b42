/* Drives zt_random: three states; time() always answers 0x55551234. */
#include <zt.h>
#include <libzt/zt_random.h>
#include <math.h>
#include <time.h>
#include "vp.h"
time_t __wrap_time(time_t *t) { if (t) *t = 0x55551234; return 0x55551234; }
static zt_random_state *st[3];
static void word(uint32_t w) { fprintf(vp_f, "[%u,%u]", w >> 16, w & 65535); }
static void real(double v, int kind) {
    double x = kind == 0 ? v * 4294967295.0 : v * 4294967296.0, w;
    int half = 0, ok;
    if (kind == 0) { x = floor(x + 0.5); ok = v >= 0 && v <= 1 && fabs(v - x / 4294967295.0) < 1e-15; }
    else if (kind == 1) ok = v >= 0 && v < 1;
    else ok = v > 0 && v < 1;
    w = floor(x); half = x - w == 0.5;
    if (!(w >= 0 && w <= 4294967295.0) || (x != w && !half)) ok = 0, w = 0;
    fputc('[', vp_f); word((uint32_t)w); fprintf(vp_f, ",%s,%s]", half ? "true" : "false", ok ? "true" : "false");
}
int main(void) {
    int n, k;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0]; int c;
        if (!strcmp(op, "reset")) { for (k = 0; k < 3; k++) { free(st[k]); st[k] = calloc(1, sizeof *st[k]); } vp_ev("reset"); vp_end(); continue; }
        c = vp_i(1) - 1; vp_ev(op); vp_int("c", c + 1);
        if (!strcmp(op, "seed")) { uint32_t s = (uint32_t)vp_i(2); zt_random_srandom(st[c], s); vp_key("a"); word(s); vp_int("r", 0); }
        else if (!strcmp(op, "array")) {
            uint32_t *key = malloc((n - 2) * sizeof *key), *was = malloc((n - 2) * sizeof *key);
            vp_key("a"); fputc('[', vp_f);
            for (k = 2; k < n; k++) { key[k - 2] = (uint32_t)vp_i(k); if (k > 2) fputc(',', vp_f); word(key[k - 2]); }
            fputc(']', vp_f); memcpy(was, key, (n - 2) * sizeof *key);
            zt_random_initstate(st[c], key, n - 2); vp_int("r", memcmp(was, key, (n - 2) * sizeof *key) ? 1 : 0); free(key); free(was);
        }
        else if (!strcmp(op, "draw")) {
            vp_int("n", vp_i(2)); vp_key("r"); fputc('[', vp_f);
            for (k = 0; k < vp_i(2); k++) { if (k) fputc(',', vp_f); word(zt_random_uint32(st[c])); }
            fputc(']', vp_f);
        }
        else if (!strcmp(op, "real")) {
            int kind = vp_i(3); vp_int("n", vp_i(2)); vp_int("k", kind); vp_key("r"); fputc('[', vp_f);
            for (k = 0; k < vp_i(2); k++) { if (k) fputc(',', vp_f); real(kind == 0 ? zt_random_float(st[c]) : kind == 1 ? zt_random_float10(st[c]) : zt_random_float00(st[c]), kind); }
            fputc(']', vp_f);
        }
        else if (!strcmp(op, "load")) {              /* the next word is made of the one given */
            uint32_t w = (uint32_t)vp_i(2); memset(st[c]->mt, 0, sizeof st[c]->mt); st[c]->mt[397] = w; st[c]->mti = 624; st[c]->initialized = 0xD15EA5E;
            vp_key("a"); word(w); vp_int("r", 0);
        }
        else vp_die("what?");
        vp_end();
    }
    return 0;
}

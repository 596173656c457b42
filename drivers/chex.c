/* Drives the dumping and number functions of zt_cstr. */
#include <zt.h>
#include <libzt/zt_cstr.h>
#include "vp_args.h"
static long calls, stop; 
static int row(void *ctx, size_t addr, char *hex, char *txt) {
    if (ctx != &calls) vp_bad("context");
    if (calls++) fputc(',', vp_f);
    fprintf(vp_f, "[%lu,", (unsigned long)addr);
    text(hex ? hex : "", hex ? strlen(hex) : 0); fputc(',', vp_f); text(txt ? txt : "", txt ? strlen(txt) : 0); fputc(']', vp_f);
    return calls == stop ? -1 : 0;
}
struct src { const unsigned char *p; size_t n; };
static int next(void *v) { struct src *s = v; if (!s->n) return EOF; s->n--; return *s->p++; }
/* a dump of 2^32 + n bytes, byte p being p % 256; what is said from two rows before on is recorded */
static size_t far_at, far_n, far_rows;
static int far_next(void *v) { if (far_at == far_n) return EOF; return (int)(far_at++ & 255); }
static int far_row(void *ctx, size_t addr, char *hex, char *txt) {
    int k;
    if (!hex) return 0;
    if (far_rows++ < ((size_t)1 << 28) - 2) return 0;
    fprintf(vp_f, "%s[[", calls++ ? "," : "");
    for (k = 15; k >= 0; k--) fprintf(vp_f, "%d%s", (int)(addr >> (4 * k) & 15), k ? "," : "],");
    text(hex, strlen(hex)); fputc(',', vp_f); text(txt, strlen(txt)); fputc(']', vp_f);
    return 0;
}
int main(void) {
    int n; static int flip;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        args(n);
        if (0) ;
        IS("dump") {
            size_t r; char *d = malloc(L[1]); struct src s; memcpy(d, S[1], L[1]); s.p = (unsigned char *)d; s.n = L[1];
            char *save; size_t sl; FILE *f = vp_f, *m = open_memstream(&save, &sl);
            calls = 0; stop = I[2]; vp_f = m;
            r = (flip ^= 1) ? zt_hexdump_str(d, L[1], row, &calls) : zt_hexdump(next, &s, row, &calls);
            fclose(m); vp_f = f; fprintf(vp_f, ",\"r\":[%ld,[%s]]", (long)r, save); free(save); free(d);
        }
        IS("print") {
            char *d = malloc(L[1]), buf[65536]; size_t r, k; int keep = dup(1); FILE *t = tmpfile();
            memcpy(d, S[1], L[1]); fflush(stdout); dup2(fileno(t), 1);
            r = zt_hexdump_str(d, L[1], NULL, NULL);
            fflush(stdout); dup2(keep, 1); close(keep); rewind(t); k = fread(buf, 1, sizeof buf, t); fclose(t);
            fprintf(vp_f, ",\"r\":[%ld,", (long)r); text(buf, k); fputc(']', vp_f); free(d);
        }
        IS("far") {
            size_t r; far_at = far_rows = 0; far_n = ((size_t)1 << 32) + I[1]; calls = 0;
            fputs(",\"r\":[[", vp_f); r = zt_hexdump(far_next, NULL, far_row, NULL);
            fprintf(vp_f, "],%ld]", (long)(r - ((size_t)1 << 32)));
        }
        IS("line") {
            char buf[512], hex[51] = "", txt[17] = ""; size_t a = 0, k; int keep = dup(1); FILE *t = tmpfile();
            for (k = 0; k < L[1]; k++) a = a * 16 + (unsigned char)S[1][k];
            for (k = 0; k < L[2]; k++) { unsigned char c = S[2][k]; sprintf(hex + 3 * k, "%02x ", c); txt[k] = c >= 32 && c < 127 ? c : '.'; }
            fflush(stdout); dup2(fileno(t), 1);
            if (zt_hexdump_default_printer(NULL, a, hex, txt) == -1) vp_bad("the printer stops");
            fflush(stdout); dup2(keep, 1); close(keep); rewind(t); k = fread(buf, 1, sizeof buf, t); fclose(t);
            vp_key("r"); text(buf, k);
        }
        IS("b2h") { char *d = malloc(L[1]), *h = malloc(I[2]); size_t r; memcpy(d, S[1], L[1]); r = zt_binary_to_hex(d, L[1], h, I[2]);
                    fprintf(vp_f, ",\"r\":[%ld,", (long)r); text(h, r); fputc(']', vp_f); free(d); free(h); }
        IS("b2hlen") vp_int("r", (long)zt_binary_to_hex(S[1], L[1], NULL, I[2]));
        IS("h2b") { size_t k = L[1] + (I[2] > (long)L[1]), r; char *t = malloc(k), *d = malloc(I[3]); memcpy(t, S[1], k); errno = 0;
                    r = zt_hex_to_binary(t, I[2], d, I[3]);
                    fprintf(vp_f, ",\"r\":[%ld,%s,", (long)r, errno == EINVAL ? "true" : "false"); text(d, r); fputc(']', vp_f); free(t); free(d); }
        IS("h2blen") { size_t k = L[1] + (I[2] > (long)L[1]); char *t = malloc(k); memcpy(t, S[1], k);
                    vp_int("r", (long)zt_hex_to_binary(t, I[2], NULL, 0)); free(t); }
        IS("itoa") { char *b = malloc(I[3]); ssize_t r; memset(b, 238, I[3]); r = zt_cstr_itoa(b, (int)I[1], I[2], I[3]);
                    fprintf(vp_f, ",\"r\":[%ld,", (long)r); text(b, I[3]); fputc(']', vp_f); free(b); }
        IS("itoanull") vp_int("r", zt_cstr_itoa(NULL, (int)I[1], I[2], I[3]));
        IS("ilen") vp_int("r", (long)zt_cstr_int_display_len((int)I[1]));
        else vp_die("what?");
        args_end(n);
    }
    return 0;
}

/* Drives zt_cfg.  Text arrives as hex words; open takes one word per line of the file, the last line ending in a
   newline unless the word "-" follows. */
#include <zt.h>
#include "vp.h"
static zt_cfg_ty *C;
int main(void) {
    int n, i;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) { if (C) zt_cfg_close(C); C = NULL; vp_ev("reset"); vp_end(); continue; }
        if (!strcmp(op, "open")) {
            FILE *f = fopen("test.ini", "w"); int nl = 1, last = n; 
            if (C) continue;
            if (n > 1 && !strcmp(vp_w[n - 1], "-")) { nl = 0; last = n - 1; }
            vp_ev("open"); vp_key("lines"); fputc('[', vp_f);
            for (i = 1; i < last; i++) {
                size_t l, k; unsigned char *b = vp_hex(vp_w[i], &l); fwrite(b, 1, l, f);
                if (nl || i < last - 1) fputc('\n', f);
                fputs(i > 1 ? ",[" : "[", vp_f);
                for (k = 0; k < l; k++) fprintf(vp_f, "%s%u", k ? "," : "", b[k]);
                fputc(']', vp_f); free(b); }
            fputc(']', vp_f); fclose(f);
            C = zt_cfg_ini("test.ini", 0); vp_int("r", C != NULL); vp_end(); continue; }
        if (!strcmp(op, "openmissing")) {
            if (C) continue;
            C = zt_cfg_ini("no/such/file", 0); vp_ev(op); vp_int("r", C != NULL); vp_end(); continue; }
        if (!strcmp(op, "nothing")) {   /* calls without a configuration */
            long x = 77; char *b = "b", *nm = "n"; int r = zt_cfg_set_int(NULL, b, nm, &x); r |= zt_cfg_get_int(NULL, b, nm, &x); zt_cfg_close(NULL);
            vp_ev(op); vp_int("r", r ? r : x - 77); vp_end(); continue; }
        if (!C) continue;
        if (!strcmp(op, "close")) { zt_cfg_close(C); C = NULL; vp_ev(op); vp_int("r", 0); vp_end(); continue; }
        {   char *b = (char *)vp_hex(vp_w[1], NULL), *nm = (char *)vp_hex(vp_w[2], NULL); const char *ty = vp_w[3]; int r;
            vp_ev(op); vp_bytes("b", b, strlen(b)); vp_bytes("n", nm, strlen(nm)); fprintf(vp_f, ",\"ty\":\"%s\"", ty);
            if (!strcmp(op, "set")) {
                char *t = (char *)vp_hex(vp_w[4], NULL), txt[80000];
                if (!strcmp(ty, "int")) { long v = strtol(t, NULL, 10); r = zt_cfg_set_int(C, b, nm, &v); snprintf(txt, sizeof txt, "%ld", v); }
                else if (!strcmp(ty, "float")) { double v = strtod(t, NULL); r = zt_cfg_set_float(C, b, nm, &v); snprintf(txt, sizeof txt, "%f", v); }
                else { r = *ty == 'b' ? zt_cfg_set_bool(C, b, nm, &t) : zt_cfg_set_string(C, b, nm, &t); snprintf(txt, sizeof txt, "%s", t); }
                vp_bytes("t", txt, strlen(txt)); vp_int("r", r); free(t); }
            else if (!strcmp(op, "get")) {
                char v[400]; v[0] = 0;
                if (!strcmp(ty, "int")) { long x = 77; r = zt_cfg_get_int(C, b, nm, &x); if (r < 0 && x != 77) abort(); sprintf(v, "%ld", x); }
                else if (!strcmp(ty, "float")) { double x = 77; r = zt_cfg_get_float(C, b, nm, &x); if (r < 0 && x != 77) abort(); snprintf(v, sizeof v, "%.6f", x); }
                else if (!strcmp(ty, "bool")) { int x = 77; r = zt_cfg_get_bool(C, b, nm, &x); if (r < 0 && x != 77) abort(); sprintf(v, "%d", x); }
                else { char *x = v; r = zt_cfg_get_string(C, b, nm, &x); if (r < 0 && x != v) abort();
                       if (r >= 0) { vp_bytes("r", x, strlen(x)); vp_end(); free(b); free(nm); continue; } }
                if (r < 0) fputs(",\"r\":[-1]", vp_f); else vp_bytes("r", v, strlen(v)); }
            else vp_die(op);
            vp_end(); free(b); free(nm); }
    }
    return 0;
}

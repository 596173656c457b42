/* Drives zt_opts.  define takes words s:l:kind:help (hex names), process takes hex arguments; "soft" first makes the
   error function return instead of ending the processing (then only the error count is recorded). */
#include <zt.h>
#include <libzt/zt_opts.h>
#include <setjmp.h>
#include <unistd.h>
#include "vp.h"
#define MO 340
static zt_opt_def_t D[MO + 1]; static int nd; static char *kind[MO];
static union { long l; intmax_t m; int b; char *s; char **a; } V[MO]; static int nerr, errcode, soft; static jmp_buf jb;
#define MARK 0x5a5a5a
static int err(int code, char *fmt, ...) { nerr++; errcode = code; if (!soft) longjmp(jb, 1); return 0; }
static int next(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error e) {
    if (strchr(argv[argn], '=')) return 0;
    return argn + 1 < *argc ? 1 : 0; }
/* a string option of the program's own */
static int own(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error e) {
    int used = 5; char *v = zt_opt_get_value(argn, defn, argv, def, &used, e);
    if (v) *(char **)def[defn].cb_data = v;
    return used; }
static void str(const char *s) {
    int k; fputc('[', vp_f); for (k = 0; s[k]; k++) fprintf(vp_f, "%s%u", k ? "," : "", (unsigned char)s[k]); fputc(']', vp_f); }
static void init(int i) {
    const char *k = kind[i]; memset(&V[i], 0, sizeof V[i]);
    if (!strcmp(k, "long")) V[i].l = MARK; else if (!strcmp(k, "intmax")) V[i].m = MARK; else if (!strcmp(k, "bool")) V[i].b = MARK; }
static void show(void) {
    int i; char t[40]; vp_key("v"); fputc('[', vp_f);
    for (i = 0; i < nd; i++) {
        const char *k = kind[i]; if (i) fputc(',', vp_f);
        if (!strcmp(k, "flag")) fprintf(vp_f, "%d", V[i].b);
        else if (!strcmp(k, "null") || !strcmp(k, "next")) fputs("[]", vp_f);
        else if (!strcmp(k, "array")) { char **a = V[i].a; int j; fputc('[', vp_f);
            for (j = 0; a && a[j]; j++) { if (j) fputc(',', vp_f); str(a[j]); } fputc(']', vp_f); }
        else if (!strcmp(k, "string")) { if (V[i].s) str(V[i].s); else fputs("[0]", vp_f); }
        else if ((*k == 'b' && V[i].b == MARK) || (*k == 'l' && V[i].l == MARK) || (*k == 'i' && V[i].m == MARK)) fputs("[0]", vp_f);
        else { snprintf(t, sizeof t, "%jd", *k == 'b' ? (intmax_t)V[i].b : *k == 'l' ? (intmax_t)V[i].l : V[i].m); str(t); } }
    fputc(']', vp_f);
}
int main(void) {
    int n, i;
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0];
        if (!strcmp(op, "reset")) { nd = 0; vp_ev("reset"); vp_end(); continue; }
        if (!strcmp(op, "define")) {
            memset(D, 0, sizeof D); nd = n - 1; vp_ev("define"); vp_key("d"); fputc('[', vp_f);
            for (i = 0; i < nd; i++) {
                char *w = strdup(vp_w[i + 1]), *a = strtok(w, ":"), *b = strtok(NULL, ":"), *k = strtok(NULL, ":"), *h = strtok(NULL, ":");
                unsigned char *s = vp_hex(a, NULL); char *l = (char *)vp_hex(b, NULL);
                kind[i] = k; D[i].sopt = s[0] ? (char)s[0] : ZT_OPT_NSO; D[i].lopt = *l ? l : ZT_OPT_NLO;
                D[i].help = *h == '1' ? "some help" : NULL; D[i].cb_data = &V[i]; init(i);
                D[i].cb = !strcmp(k, "flag") ? zt_opt_flag_int : !strcmp(k, "long") ? zt_opt_long : !strcmp(k, "intmax") ? zt_opt_intmax :
                    !strcmp(k, "bool") ? zt_opt_bool_int : !strcmp(k, "string") ? (i % 2 ? own : zt_opt_string) : !strcmp(k, "array") ? zt_opt_string_array :
                    !strcmp(k, "null") ? zt_opt_null : next;
                fprintf(vp_f, "%s[%u,", i ? "," : "", s[0]); str(l); fprintf(vp_f, ",\"%s\",%s]", k, *h == '1' ? "true" : "false"); }
            fputc(']', vp_f); fputs(",\"r\":[0,0]", vp_f); show(); vp_end(); continue; }
        if (!strcmp(op, "usage")) {
            FILE *t = tmpfile(); int c, so = dup(1), w = 0, fits = 1, first = 1; vp_ev("usage");
            char *nm = (char *)vp_hex(vp_w[1], NULL), *hp = (char *)vp_hex(vp_w[2], NULL); vp_key("name"); str(nm); vp_key("help"); str(hp); vp_key("texts"); fputc('[', vp_f);
            for (i = 0; i < nd; i++) { char *h = (char *)vp_hex(vp_w[3 + i], NULL); D[i].help = h; if (i) fputc(',', vp_f); str(h); }
            fputs("],\"r\":[[", vp_f);
            fflush(stdout); dup2(fileno(t), 1); zt_opt_usage(nm, hp, D); fflush(stdout); dup2(so, 1); close(so);
            rewind(t);
            while ((c = fgetc(t)) != EOF) { if (c == '\n') w = 0; else if (c != ' ') { if (++w > 80) fits = 0; } else w++;
                if (c != ' ' && c != '\n') { fprintf(vp_f, "%s%d", first ? "" : ",", c); first = 0; } }
            fprintf(vp_f, "],%s]", fits ? "true" : "false"); fclose(t);
            show(); vp_end(); continue; }
        soft = n > 1 && !strcmp(vp_w[1], "soft");
        char **av = calloc(n + 1, sizeof *av); int ac = 1, ret, used; av[0] = "p";
        for (i = 1 + soft; i < n; i++) av[ac++] = (char *)vp_hex(vp_w[i], NULL);
        used = ac; nerr = errcode = 0;
        if (soft) {        /* nothing but survival, and that an error was seen or not, is of interest here */
            zt_opt_process_args(&used, av, D, NULL, err);
            if (used > ac) { fprintf(stderr, "more arguments used than there are\n"); abort(); }
            for (i = 0; i < nd; i++) init(i);
            continue; }
        vp_ev("process"); vp_key("argv"); fputc('[', vp_f);
        for (i = 0; i < ac; i++) { if (i) fputc(',', vp_f); str(av[i]); }
        fputc(']', vp_f);
        if (setjmp(jb)) fprintf(vp_f, ",\"r\":[%d,0]", errcode);
        else { ret = zt_opt_process_args(&used, av, D, NULL, err); fprintf(vp_f, ",\"r\":[%d,%d]", ret, used); }
        show(); vp_end();
    }
    return 0;
}

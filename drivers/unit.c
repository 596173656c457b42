/* Drives the unit test framework, in C and (unit_cpp.cpp) in C++.  What it prints is taken apart into keys and values. */
#define ZT_WITH_UNIT
#include <zt.h>
#include <libzt/zt_unit.h>
#include <fcntl.h>
#include "vp.h"
void run_cpp(struct zt_unit_test *, void *);
#define NS 400
static struct zt_unit *u;
static struct { struct zt_unit_suite *s; int id; struct { struct zt_unit_test *t; char *prog; int id; } t[340]; int nt; } S[340]; static int ns, made_s, made_t;
static struct { char k; int id; } calls[4000]; static int nc;
static int ids[4000];
static void setup(void *d) { if (nc < 4000) { calls[nc].k = 's'; calls[nc++].id = *(int *)d; } }
static void teardown(void *d) { if (nc < 4000) { calls[nc].k = 'd'; calls[nc++].id = *(int *)d; } }
const char *unit_prog(struct zt_unit_test *t, void *d) {       /* who is it? */
    int i, j;
    for (i = 0; i < ns; i++) for (j = 0; j < S[i].nt; j++) if (S[i].t[j].t == t) {
        if (nc < 4000) { calls[nc].k = 't'; calls[nc++].id = *(int *)d == S[i].id ? S[i].t[j].id : -1; }
        return S[i].t[j].prog; }
    vp_bad("test"); return NULL; }
static void deep(struct zt_unit_test *test, int n) { volatile char pad[200]; pad[0] = (char)n; if (n) deep(test, n - 1); else ZT_UNIT_ASSERT(test, 1 == 2); pad[1] = pad[0]; }
static void run_c(struct zt_unit_test *test, void *data) {
    const char *p;
    for (p = unit_prog(test, data); *p; p++) switch (*p) {
        case 'a': ZT_UNIT_ASSERT(test, 1 == 1); break;
        case 'e': ZT_UNIT_ASSERT_EQUAL(test, 2, 2); break;
        case 'f': if (p[1] == 'f') deep(test, 3); else ZT_UNIT_ASSERT(test, 1 == 2); break;
        case 'd': ZT_UNIT_ASSERT(test, 1 == 2, "one is two"); break;
        case 'n': ZT_UNIT_ASSERT_NOT_EQUAL(test, 1, 1); break;
        case 'm': ZT_UNIT_FAIL(test, "message %d", 42); break;
        case 'q': ZT_UNIT_EXIT(test); break;
        default: vp_die("step"); }
}
static int real1 = -1;
static void grab(void) { int fd; fflush(stdout); real1 = dup(1); fd = open("out.txt", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); close(fd); }
static void str(const char *p, size_t n) { fputc('"', vp_f); while (n--) { if (*p == '"' || *p == '\\') fputc('\\', vp_f); if (*p >= ' ') fputc(*p, vp_f); p++; } fputc('"', vp_f); }
static void pair(const char *k, size_t kn, const char *v, size_t vn, int *first) { fprintf(vp_f, "%s[", *first ? "" : ","); *first = 0; str(k, kn); fputc(',', vp_f); str(v, vn); fputc(']', vp_f); }
static void report(const char *prog) {
    FILE *f; static char *b; static size_t cap; ssize_t n; int first = 1;
    fflush(stdout); dup2(real1, 1); close(real1);
    f = fopen("out.txt", "r"); fputc('[', vp_f);
    while ((n = getline(&b, &cap, f)) > 0) {
        char *s = b, *c, *e;
        while (n && (b[n - 1] == '\n' || b[n - 1] == ' ')) b[--n] = 0;
        while (*s == ' ') s++;
        if (!*s) continue;
        if (!strncmp(s, prog, strlen(prog))) { pair("help", 4, "", 0, &first); break; }
        if (!strncmp(s, "- ", 2)) { pair("-", 1, s + 2, strlen(s + 2), &first); continue; }
        if (!strncmp(s, "Suite or Test \"", 15)) { e = strrchr(s, '"'); pair("not found", 9, s + 15, (size_t)(e - s - 15), &first); continue; }
        c = strchr(s, ':');
        if (!c) { pair(s, strlen(s), "", 0, &first); continue; }
        e = c; while (e > s && e[-1] == ' ') e--;
        c++; while (*c == ' ') c++;
        { char *l = strstr(c, ".c"), *q; if (l && strstr(c, " : ")) {              /* file and line */
            for (q = strstr(c, " : "); strstr(q + 3, " : "); q = strstr(q + 3, " : ")) ;
            if ((strstr(q, "unit.c:") || strstr(q, "unit_cpp.cpp:")) && strrchr(q, ':')[1] >= '1' && strrchr(q, ':')[1] <= '9') strcpy(q, "@'"); } }
        pair(s, (size_t)(e - s), c, strlen(c), &first);
    }
    fputc(']', vp_f); fclose(f);
}
static char *safe(const char *w) { return (char *)vp_hex(w, NULL); }
int main(void) {
    int n, i, j;
    vp_open();
    for (i = 0; i < 4000; i++) ids[i] = i;
    while ((n = vp_line()) >= 0) {
        const char *op;
        if (!n) continue;
        op = vp_w[0];
        vp_ev(op);
        if (!strcmp(op, "reset")) {
            if (u) { zt_unit_release(&u); if (u) vp_bad("not released"); for (i = 0; i < ns; i++) for (j = 0; j < S[i].nt; j++) free(S[i].t[j].prog); }
            ns = made_s = made_t = 0; u = zt_unit_init();
        } else if (!strcmp(op, "suite")) {          /* name setup teardown cpp */
            int cpp = (int)vp_i(4); char *nm = strdup(vp_w[1]);
            S[ns].id = ++made_s; S[ns].nt = 0;
            S[ns].s = zt_unit_register_suite_(u, nm, vp_i(2) ? setup : NULL, vp_i(3) ? teardown : NULL, &ids[S[ns].id], cpp ? zt_unit_try_cpp : zt_unit_try_c);
            ns++; memset(nm, '#', strlen(nm)); free(nm);
            fprintf(vp_f, ",\"a\":[\"%s\",%ld,%ld,%d]", vp_w[1], vp_i(2), vp_i(3), cpp);
        } else if (!strcmp(op, "test")) {           /* suite name program */
            int cpp; char *nm = strdup(vp_w[2]); const char *p; i = (int)vp_i(1) - 1; cpp = S[i].s->try_fn == zt_unit_try_cpp;
            j = S[i].nt++; S[i].t[j].id = ++made_t; S[i].t[j].prog = strdup(strcmp(vp_w[3], "-") ? vp_w[3] : "");
            S[i].t[j].t = zt_unit_register_test(S[i].s, nm, cpp ? run_cpp : run_c); memset(nm, '#', strlen(nm)); free(nm);
            fprintf(vp_f, ",\"a\":[%d,\"%s\",[", i + 1, vp_w[2]);
            for (p = S[i].t[j].prog; *p; p++) fprintf(vp_f, "%s\"%c\"", p == S[i].t[j].prog ? "" : ",", *p);
            fputs("]]", vp_f);
        } else if (!strcmp(op, "drop")) {           /* suite test (0: the suite) */
            i = (int)vp_i(1) - 1; j = (int)vp_i(2) - 1;
            fprintf(vp_f, ",\"a\":[%d,%d]", i + 1, j + 1);
            if (j < 0) { for (j = 0; j < S[i].nt; j++) free(S[i].t[j].prog); zt_unit_release_suite(&S[i].s); memmove(&S[i], &S[i + 1], sizeof S[0] * (size_t)(ns - i - 1)); ns--; }
            else { free(S[i].t[j].prog); zt_unit_release_test(&S[i].t[j].t); memmove(&S[i].t[j], &S[i].t[j + 1], sizeof S[i].t[0] * (size_t)(S[i].nt - j - 1)); S[i].nt--; }
        } else if (!strcmp(op, "main")) {
            char *av[400]; int r; const char *prog = "theprogram";
            av[0] = (char *)prog; fputs(",\"a\":[[", vp_f);
            for (i = 1; i < n; i++) {
                char *s = av[i] = safe(vp_w[i]), *d;
                fputs(i > 1 ? ",[" : "[", vp_f); str(s, strlen(s)); fputs(",[", vp_f);
                for (;;) { d = strchr(s, '.'); str(s, d ? (size_t)(d - s) : strlen(s)); if (!d) break; fputc(',', vp_f); s = d + 1; }
                fputs("]]", vp_f); }
            av[n] = NULL; fputs("]],\"r\":[", vp_f); fflush(vp_f);
            nc = 0; grab(); r = zt_unit_main(u, n, av);
            fprintf(vp_f, "%d,[", r);
            for (i = 0; i < nc; i++) fprintf(vp_f, "%s[\"%s\",%d]", i ? "," : "", calls[i].k == 's' ? "setup" : calls[i].k == 'd' ? "teardown" : "test", calls[i].id);
            fputs("],", vp_f); report(prog); fputc(']', vp_f);
            for (i = 1; i < n; i++) free(av[i]);
        } else if (!strcmp(op, "counts")) {
            fprintf(vp_f, ",\"r\":[%u,%u,%u,%u,%u,%u]", u->suite_count, u->tests, u->successes, u->failures, u->assertions, u->exceptions);
        } else vp_die("op");
        vp_end();
    }
    return 0;
}

/* Drives the assertions and the memory that must be there.  What may end the program is done in a child. */
#include <zt.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "vp_args.h"
static struct { int evals, how, kept, line; size_t room; char fn[64], dup[1 << 17]; } *R;
enum { ABORT, OK_, LEFT };
static int refuse;                     /* the next request of the library's */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { if (refuse) { refuse = 0; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (refuse) { refuse = 0; return NULL; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (refuse) { refuse = 0; return NULL; } return __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { if (refuse) { refuse = 0; return NULL; } return __real_strdup(s); }
static int holds;
static int cond(void) { R->evals++; return holds; }
#define HERE (R->line = __LINE__, strcpy(R->fn, ZT_LOG_FUNCTION))
#define COND "cond()"
static void on_assert(void) { HERE; zt_assert(cond()); R->how = OK_; }
static void on_nf(void) { HERE; zt_assert_nf(cond()); R->how = OK_; }
static void on_always(void) { HERE; zt_assert_always(cond()); R->how = OK_; }
static void on_return_(void) { HERE; zt_assert_return(cond()); R->how = OK_; }
static void on_return(void) { R->how = LEFT; on_return_(); }
static int on_returnV_(void) { HERE; zt_assert_returnV(cond(), 17); return 4; }
static void on_returnV(void) { int v = on_returnV_(); R->how = v == 17 ? LEFT : v == 4 ? OK_ : ABORT; }
static void on_enable(void) { zt_assert_enable(R->evals++); }
static void die_(void) { HERE; zt_abort("abcd"); }
#define NDEBUG
#undef _ZT_ASSERT_H_
#undef zt_assert
#undef zt_assert_nf
#undef zt_assert_enable
#include <libzt/zt_assert.h>
static void nd_assert(void) { HERE; zt_assert(cond()); R->how = OK_; }
static void nd_nf(void) { HERE; zt_assert_nf(cond()); R->how = OK_; }
static void nd_always(void) { HERE; zt_assert_always(cond()); R->how = OK_; }
static void nd_return_(void) { HERE; zt_assert_return(cond()); R->how = OK_; }
static void nd_return(void) { R->how = LEFT; nd_return_(); }
static int nd_returnV_(void) { HERE; zt_assert_returnV(cond(), 17); return 4; }
static void nd_returnV(void) { int v = nd_returnV_(); R->how = v == 17 ? LEFT : v == 4 ? OK_ : ABORT; }
static void nd_enable(void) { zt_assert_enable(R->evals++); }
#undef NDEBUG
#define NO_ASSERT
#undef _ZT_ASSERT_H_
#undef zt_assert
#undef zt_assert_nf
#undef zt_assert_enable
#include <libzt/zt_assert.h>
static void na_assert(void) { HERE; zt_assert(cond()); R->how = OK_; }
static void na_nf(void) { HERE; zt_assert_nf(cond()); R->how = OK_; }
static void na_always(void) { HERE; zt_assert_always(cond()); R->how = OK_; }
static void na_return_(void) { HERE; zt_assert_return(cond()); R->how = OK_; }
static void na_return(void) { R->how = LEFT; na_return_(); }
static int na_returnV_(void) { HERE; zt_assert_returnV(cond(), 17); return 4; }
static void na_returnV(void) { int v = na_returnV_(); R->how = v == 17 ? LEFT : v == 4 ? OK_ : ABORT; }
static void na_enable(void) { zt_assert_enable(R->evals++); }
#define CASES(m) { on_##m, nd_##m, na_##m }
static const struct { const char *kind; void (*f[3])(void); } F[] = { { "assert", CASES(assert) }, { "nf", CASES(nf) }, { "always", CASES(always) },
    { "return", CASES(return) }, { "returnV", CASES(returnV) }, { "enable", CASES(enable) } };
static int mode(const char *m) { return !strcmp(m, "on") ? 0 : !strcmp(m, "ndebug") ? 1 : 2; }
/* things of four sizes, and of any by the s-variants */
struct t24 { char c[24]; };
#define BY_TYPE(call, T) { T *q = call; p = q; }
static void alloc(const char *kind, size_t size, size_t num, int over, int rf, size_t old) {
    void *p = NULL; size_t k, n = over ? (size_t)-1 / size + 1 + num : num;
    unsigned char *o = NULL;
    if (!strcmp(kind, "realloc") && old) { o = __real_malloc(size * old); for (k = 0; k < size * old; k++) o[k] = (unsigned char)(k * 31 + 7); }
    refuse = rf;
#define EACH(T) { if (!strcmp(kind, "malloc")) BY_TYPE(zt_malloc(T, n), T) else if (!strcmp(kind, "calloc")) BY_TYPE(zt_calloc(T, n), T) else if (!strcmp(kind, "realloc")) BY_TYPE(zt_realloc(T, o, n), T) }
    if (!strcmp(kind, "mallocs")) p = zt_mallocs(size, n);
    else if (!strcmp(kind, "callocs")) p = zt_callocs(size, n);
    else if (size == 1) EACH(char)
    else if (size == 4) EACH(int)
    else if (size == 8) EACH(double)
    else EACH(struct t24)
    refuse = 0;
    if (!p) vp_die("none");
    R->kept = 1;
    for (k = 0; k < size * num; k++) {
        unsigned char *c = (unsigned char *)p + k;
        if (strstr(kind, "calloc") && *c) R->kept = 0;
        if (o && k < size * old && *c != (unsigned char)(k * 31 + 7)) R->kept = 0;
        *c = 1; }
    R->room = malloc_usable_size(p) >= size * num ? size * num : malloc_usable_size(p); R->how = OK_;
    zt_free(p); if (p) R->kept = 0;
}
static const char *how(void) { return R->how == OK_ ? "ok" : R->how == LEFT ? "left" : "abort"; }
static void logged(void) { static char b[65536]; FILE *f = fopen("log", "r"); size_t n = f ? fread(b, 1, sizeof b, f) : 0; if (f) fclose(f); text(b, n); }
/* the text of a file's name as it was compiled in, up to the directories */
int main(void) {
    int n, st, k; zt_log_ty *lg; pid_t c;
    vp_open();
    R = mmap(NULL, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    while ((n = vp_line()) > 0) {
        char op[32]; int isS_ = 0;
        snprintf(op, sizeof op, "%s", vp_w[0]); memset(R, 0, sizeof *R);
        unlink("log"); lg = zt_log_file("log", 0, ZT_LOG_WITH_LEVEL); zt_log_logger(lg);
        if (!strcmp(op, "said") || !strcmp(op, "cried")) {
            args(n); if (*op == 's') _zt_log_assertion(S[1], S[2], (unsigned)I[3], S[4]); else _zt_log_abort(S[1], S[2], (unsigned)I[3], S[4]);
            fputs(",\"r\":", vp_f); logged(); args_end(n); zt_log_logger(NULL); zt_log_close(lg); continue; }
        vp_ev(op);
        if ((c = fork()) == 0) {
            signal(SIGABRT, SIG_DFL);
            if (!strcmp(op, "assert")) { holds = (int)vp_i(3); for (k = 0; k < 5; k++) if (!strcmp(vp_w[1], F[k].kind)) F[k].f[mode(vp_w[2])](); }
            else if (!strcmp(op, "enable")) F[5].f[mode(vp_w[1])]();
            else if (!strcmp(op, "die")) die_();
            else if (!strcmp(op, "alloc")) alloc(vp_w[1], (size_t)vp_i(2), (size_t)vp_i(3), (int)vp_i(4), (int)vp_i(5), (size_t)vp_i(6));
            else if (!strcmp(op, "dup")) {
                char *s = strcmp(vp_w[1], "-") ? (char *)vp_hex(vp_w[1], NULL) : NULL, *d; refuse = (int)vp_i(2); d = zt_strdup(s); refuse = 0;
                if (d == s) vp_die("same"); strcpy(R->dup, d); R->how = OK_; }
            else if (!strcmp(op, "free")) { char *p = vp_i(1) ? __real_malloc(3) : NULL; zt_free(p); R->evals = p != NULL; }
            _exit(0);
        }
        waitpid(c, &st, 0);
        /* an abort, and nothing else, ends it early */
        if (!(WIFEXITED(st) && !WEXITSTATUS(st)) && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)) { fprintf(stderr, "child: %x\n", st); exit(99); }
        if (WIFSIGNALED(st)) R->how = ABORT;
        fputs(",\"a\":[", vp_f);
        if (!strcmp(op, "assert")) {
            fprintf(vp_f, "\"%s\",\"%s\",%ld,", vp_w[1], vp_w[2], vp_i(3)); text(COND, strlen(COND)); fputc(',', vp_f); text(__FILE__, strlen(__FILE__)); fprintf(vp_f, ",%d,", R->line);
            text(R->fn, strlen(R->fn)); fprintf(vp_f, "],\"r\":[\"%s\",%d,", how(), R->evals); logged(); fputc(']', vp_f); }
        else if (!strcmp(op, "enable")) fprintf(vp_f, "\"%s\"],\"r\":%d", vp_w[1], R->evals);
        else if (!strcmp(op, "die")) { text("abcd", 4); fputc(',', vp_f); text(__FILE__, strlen(__FILE__)); fprintf(vp_f, ",%d,", R->line); text(R->fn, strlen(R->fn));
            fprintf(vp_f, "],\"r\":[\"%s\",%d,", how(), R->evals); logged(); fputc(']', vp_f); }
        else if (!strcmp(op, "alloc")) { fprintf(vp_f, "\"%s\",%ld,%ld,%ld,%ld,%ld],\"r\":[\"%s\",%zu,%s]", vp_w[1], vp_i(2), vp_i(3), vp_i(4), vp_i(5), vp_i(6), how(), R->room, R->kept ? "true" : "false"); }
        else if (!strcmp(op, "dup")) { if (!strcmp(vp_w[1], "-")) fputs("[0]", vp_f); else { size_t l; char *s = (char *)vp_hex(vp_w[1], &l); text(s, l); } fprintf(vp_f, ",%ld],\"r\":[\"%s\",", vp_i(2), how()); text(R->dup, strlen(R->dup)); fputc(']', vp_f); }
        else if (!strcmp(op, "free")) fprintf(vp_f, "%ld],\"r\":%d", vp_i(1), R->evals);
        else vp_die("op");
        { static char b[4096]; FILE *f = fopen("log", "r"); size_t m = f ? fread(b, 1, sizeof b - 1, f) : 0; b[m] = 0; if (f) fclose(f); vp_bool("said", strstr(b, "Assertion Failed: ") != NULL); }
        vp_end(); zt_log_logger(NULL); zt_log_close(lg);
    }
    return 0;
}

/* Drives zt_atexit: every run is a process that registers handlers and ends.  A handler is f:d(handlers...). */
#include <zt.h>
#include <sys/wait.h>
#include "vp.h"
struct H { int f, d; struct H *kid[8]; int nk; };
static const char *s_;
static struct H *parse(void) {
    struct H *h = calloc(1, sizeof *h); char *q;
    h->f = (int)strtol(s_, &q, 10); h->d = (int)strtol(q + 1, &q, 10); s_ = q;
    if (*s_ == '(') { for (s_++; *s_ != ')';) h->kid[h->nk++] = parse(); s_++; }
    return h;
}
static void show(struct H *h) { int k; fprintf(vp_f, "[%d,%d,[", h->f, h->d); for (k = 0; k < h->nk; k++) { if (k) fputc(',', vp_f); show(h->kid[k]); } fputs("]]", vp_f); }
static void enter(struct H *h);
static void ran(int f, int d) { fprintf(vp_f, "{\"op\":\"run\",\"r\":[%d,%d]", f, d); vp_end(); }
static void did(int f, struct H *h) { int k; ran(f, h->d); for (k = 0; k < h->nk; k++) enter(h->kid[k]); free(h); }
static void f0(void *d) { did(0, d); }
static void f1(void *d) { did(1, d); }
static void f2(void *d) { did(2, d); }
static void f3(void *d) { if (d) vp_bad("datum"); ran(3, -1); }           /* registered with no datum */
static void enter(struct H *h) { static void (*F[])(void *) = { f0, f1, f2, f3 }; zt_atexit(F[h->f], h->f == 3 ? NULL : h); }
static struct H *later[64]; static int nlater;
static void late(void) { struct H *h = later[--nlater]; fputs("{\"op\":\"wake\"", vp_f); vp_end(); enter(h); }     /* the C library's to call */
static char **line; static size_t nl, cap;
int main(void) {
    static char *b; static size_t bc; ssize_t n; size_t k, j; int early;
    vp_open();
    while ((n = getline(&b, &bc, stdin)) > 0) { if (b[n - 1] == '\n') b[n - 1] = 0; if (nl == cap) line = realloc(line, (cap = cap * 2 + 64) * sizeof *line); line[nl++] = strdup(b); }
    for (k = 0; k < nl; k = j) {
        int want = 0, st; pid_t c;
        if (strcmp(line[k], "reset")) vp_die("reset");
        for (j = k + 1; j < nl && strcmp(line[j], "reset"); j++) if (!strncmp(line[j], "exit", 4)) want = atoi(strrchr(line[j], ' '));
        vp_ev("reset"); vp_end();
        if (j == k + 1) { continue; }
        if ((c = fork()) == 0) {
            for (k++; k < j; k++) {
                if (!strncmp(line[k], "reg ", 4)) { struct H *h; s_ = line[k] + 4; h = parse(); vp_ev("reg"); fputs(",\"a\":[", vp_f); show(h); fputc(']', vp_f); vp_end(); enter(h); }
                else if (!strncmp(line[k], "late ", 5)) {
                    struct H *h; s_ = line[k] + 5; h = parse(); vp_ev("late"); fputs(",\"a\":[", vp_f); show(h); fputc(']', vp_f); vp_end();
                    if (nlater == 64) vp_die("late");
                    later[nlater++] = h; atexit(late);
                }
                else { early = atoi(line[k] + 5); vp_ev("exit"); fprintf(vp_f, ",\"a\":[%d]", early != 0); vp_end(); if (early == 1) exit(want); if (early == 2) return want; _exit(want); }
            }
            vp_bad("no exit");
        }
        if (waitpid(c, &st, 0) != c) vp_die("wait");
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) exit(99);        /* the sanitizer's */
        vp_ev("gone"); vp_int("r", !(WIFEXITED(st) && WEXITSTATUS(st) == want)); vp_end();
    }
    return 0;
}

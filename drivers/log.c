/* Drives zt_log; each run (reset .. next reset) is a child process, so that leaving it can be watched too.  Time, host,
   process id and syslog are stand-ins.  w lists what appeared at the destinations: 0 stderr, 1, 2 files, 3 syslog.   */
#include <zt.h>
#include <libzt/zt_log/log_interface.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include "vp_mem.h"
#include "vp.h"
#define NH 4
static zt_log_ty *L[NH + 2]; static int def, in_lib; static off_t off[3]; static char host[300]; static int hostfail; static long pid_, now_;
static char sl[1 << 18]; static size_t sln;
int __wrap_gethostname(char *b, size_t n) { if (hostfail) return -1; snprintf(b, n, "%s", host); return 0; }
int __real_getpid(void); int __wrap_getpid(void) { return in_lib ? (int)pid_ : __real_getpid(); }
time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { if (t) *t = now_; return now_; }
static void dosys(int p, const char *f, va_list ap) { sl[sln++] = (char)(1 + (p & 7)); sln += vsnprintf(sl + sln, sizeof sl - sln, f, ap); }
void __wrap_vsyslog(int p, const char *f, va_list ap) { dosys(p, f, ap); }
void __wrap___vsyslog_chk(int p, int x, const char *f, va_list ap) { dosys(p, f, ap); }
void __wrap_openlog(const char *i, int o, int f) {}
void __wrap_closelog(void) {}
static void text(const char *s, size_t n) { size_t k; fputc('[', vp_f); for (k = 0; k < n; k++) fprintf(vp_f, "%s%u", k ? "," : "", (unsigned char)s[k]); fputc(']', vp_f); }
static void ctext(const char *s) { if (s) text(s, strlen(s)); else fputs("[0]", vp_f); }
static const char *fname(int d) { return d == 1 ? "file1.log" : d == 2 ? "file2.log" : "stderr.txt"; }
static size_t fresh(int d, char **p) {
    struct stat st; int fd = open(fname(d), O_RDONLY); size_t n; *p = NULL;
    if (fd < 0) return 0;
    fstat(fd, &st); if (st.st_size < off[d]) off[d] = 0;
    n = (size_t)(st.st_size - off[d]); *p = malloc(n + 1); if (pread(fd, *p, n, off[d]) != (ssize_t)n) vp_die("read"); (*p)[n] = 0; off[d] = st.st_size; close(fd); return n; }
static void wrote(void) {       /* [[dest, text], ...] */
    int d, first = 1; char *p; size_t n;
    fputc('[', vp_f);
    for (d = 0; d < 3; d++) { n = fresh(d, &p); if (n) { fprintf(vp_f, "%s[%d,", first ? "" : ",", d); text(p, n); fputc(']', vp_f); first = 0; } free(p); }
    if (sln) { size_t k; fprintf(vp_f, "%s[3,[", first ? "" : ","); for (k = 0; k < sln; k++) fprintf(vp_f, "%s%d", k ? "," : "", k ? (unsigned char)sl[k] : sl[k] - 1); fputs("]]", vp_f); sln = 0; }
    fputc(']', vp_f); }
static int files(void) { int k, n = 0; char a[40], b[4200]; ssize_t z;       /* how many log files are open */
    for (k = 3; k < 200; k++) { snprintf(a, sizeof a, "/proc/self/fd/%d", k); z = readlink(a, b, sizeof b - 1); if (z < 9) continue; b[z] = 0; n += !strcmp(b + z - 9, fname(1)) || !strcmp(b + z - 9, fname(2)); }
    return n; }
static int handle(zt_log_ty *p) { int i; if (!p) return 0; for (i = 1; i <= NH + 1; i++) if (L[i] == p) return i; L[NH + 1] = p; return NH + 1; }
/* calls may be made by a second thread */
static struct job { int kind, h, v, k, err; char *s; const char *f, *n; int line; } J; static sem_t go, done; static pthread_t other; static int haveother;
static void valog(zt_log_ty *l, int v, const char *f, ...) { va_list ap; va_start(ap, f); zt_log_lvprintf(l, v, f, ap); va_end(ap); }
static void work(void) {
    zt_log_ty *l = J.h ? L[J.h] : NULL;
    switch (J.kind) {
    case 1: if (J.k == 0) zt_log_lprintf(l, J.v, "%s", J.s); else if (J.k == 1) zt_log_lprintf(l, J.v, "%d%% %s!", 42, J.s); else if (J.k == 2) zt_log_lprintf(l, J.v, J.s);
            else valog(l, J.v, "%s%c", J.s, '.'); break;
    case 2: if (J.k == 0) zt_log_lstrerror(l, J.v, J.err, "%s", J.s); else zt_log_lstrerror(l, J.v, J.err, J.s); break;
    case 3: zt_log_set_debug_info(J.f, J.line, J.n); break;
    case 4: zt_log_get_debug_info(&J.f, &J.line, &J.n); break; } }
static void *loop(void *a) { for (;;) { while (sem_wait(&go)) ; work(); sem_post(&done); } return NULL; }
static void doit(int t) {
    in_lib = 1;
    if (!t) work(); else {
        if (!haveother) { sem_init(&go, 0, 0); sem_init(&done, 0, 0); pthread_create(&other, NULL, loop, NULL); haveother = 1; }
        sem_post(&go); while (sem_wait(&done)) ; }
    in_lib = 0; }
static int mn, mv, mh; static pthread_barrier_t bar;
static void *many(void *k) { int i; pthread_barrier_wait(&bar); for (i = 1; i <= mn; i++) zt_log_lprintf(L[mh], mv, "%d-%d", (int)(long)k, i); return NULL; }
static void child(char **ln, int nl) {
    int n, i, q; char date[100], *p;
    for (q = 0; q < nl; q++) {
        char *copy = strdup(ln[q]); n = 0; for (p = strtok(copy, " "); p; p = strtok(NULL, " ")) vp_w[n++] = p;
        const char *op = vp_w[0]; int h = n > 1 ? (int)vp_i(1) : 0; long r = 0;
        if (!strcmp(op, "reset")) {     /* reset host prog pid time */
            char *hs = (char *)vp_hex(vp_w[1], NULL), *pn = (char *)vp_hex(vp_w[2], NULL), b[32]; int fd;
            hostfail = !*hs; snprintf(host, sizeof host, "%s", hs); zt_progname(pn, 0); pid_ = vp_i(3); now_ = vp_i(4);
            unlink(fname(1)); unlink(fname(2)); fd = open(fname(0), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); fflush(stderr); dup2(fd, 2); close(fd);
            time_t t = now_; strftime(date, sizeof date, "%b %d %H:%M:%S ", localtime(&t));
            vp_ev("reset"); vp_key("host"); i = (int)strcspn(host, "."); text(hostfail ? "*hostname*" : host, hostfail ? 10 : i);
            vp_key("prog"); ctext(pn); vp_key("date"); ctext(date); snprintf(b, sizeof b, "%ld", pid_); vp_key("pid"); ctext(b); vp_end(); continue; }
        /* calls for which the specification makes a second logger by default are left out */
        int needs = !h && !def && strcmp(op, "setdbg") && strcmp(op, "getdbg");
        if (needs && L[NH + 1]) continue;
        if (!strcmp(op, "open") || !strcmp(op, "stderr") || !strcmp(op, "syslog")) { if (L[h]) continue; }
        else if (strcmp(op, "setdbg") && strcmp(op, "getdbg") && strcmp(op, "refused") && strcmp(op, "many") && h && !L[h]) continue;
        if (!strcmp(op, "open")) {      /* open h d append opts */
            struct stat st; in_lib = 1; L[h] = zt_log_file((char *)fname((int)vp_i(2)), vp_i(3) ? ZT_LOG_FILE_APPEND : ZT_LOG_FILE_OVERWRITE, (int)vp_i(4)); in_lib = 0;
            if (!L[h]) vp_bad("open"); stat(fname((int)vp_i(2)), &st); r = st.st_size;
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld,%s,%ld]", h, vp_i(2), vp_i(3) ? "true" : "false", vp_i(4)); }
        else if (!strcmp(op, "stderr")) { L[h] = zt_log_stderr((unsigned)vp_i(2)); vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, vp_i(2)); }
        else if (!strcmp(op, "syslog")) { L[h] = zt_log_syslog(); vp_ev(op); fprintf(vp_f, ",\"a\":[%d]", h); }
        else if (!strcmp(op, "refused")) { long b = vp_live; zt_log_ty *x; int e = dup(2), z = open("/dev/null", O_WRONLY); dup2(z, 2);
            VP_LIB(x = zt_log_file("no/such/directory/f", 0, 0)); fflush(stderr); dup2(e, 2); close(e); close(z); r = x ? -1 : vp_live - b; vp_ev(op); fputs(",\"a\":[]", vp_f); }
        else if (!strcmp(op, "setopts")) { r = zt_log_set_opts(L[h], (unsigned)vp_i(2)); vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, vp_i(2)); if (needs) def = NH + 1; }
        else if (!strcmp(op, "setlevel")) { r = zt_log_set_level(L[h], vp_i(2)); vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%ld]", h, vp_i(2)); if (needs) def = NH + 1; }
        else if (!strcmp(op, "get")) { r = zt_log_get_level(L[h]) * 100 + zt_log_get_opts(L[h]); vp_ev(op); fprintf(vp_f, ",\"a\":[%d]", h); if (needs) def = NH + 1; }
        else if (!strcmp(op, "logger")) { zt_log_ty *x = zt_log_logger(L[h]); r = handle(x); def = needs ? (int)r : h; vp_ev(op); fprintf(vp_f, ",\"a\":[%d]", h); }
        else if (!strcmp(op, "close")) { in_lib = 1; zt_log_close(L[h]); in_lib = 0; r = files(); L[h] = NULL; if (def == h) def = 0; vp_ev(op); fprintf(vp_f, ",\"a\":[%d]", h); }
        else if (!strcmp(op, "print") || !strcmp(op, "strerror")) {     /* print h thread level kind text | strerror h thread level errno kind text */
            int se = op[0] == 's', k = (int)vp_i(4 + se); char *s = (char *)vp_hex(vp_w[5 + se], NULL), *m = malloc(80000), *f = malloc(160000); const size_t M = 80000; int t = (int)vp_i(2), w;
            for (w = 0, i = 0; s[i]; i++) { f[w++] = s[i]; if (s[i] == '%') f[w++] = '%'; } f[w] = 0;
            J.kind = se ? 2 : 1; J.h = h; J.v = (int)vp_i(3); J.k = k; J.s = (se ? k == 1 : k == 2) ? f : s; J.err = se ? (int)vp_i(4) : 0; errno = 5; doit(t);
            if (needs) def = NH + 1;
            if (se || k == 0 || k == 2) snprintf(m, M, "%s", s); else if (k == 1) snprintf(m, M, "42%% %s!", s); else snprintf(m, M, "%s.", s);
            vp_ev(op); if (se) fprintf(vp_f, ",\"a\":[%d,%d,%d,%d,", h, t, J.v, J.err); else fprintf(vp_f, ",\"a\":[%d,%d,%d,", h, t, J.v); ctext(m); fputc(']', vp_f); }
        else if (!strcmp(op, "setdbg")) {  /* setdbg thread file line func, "-": NULL */
            J.kind = 3; J.f = vp_w[2][0] == 'x' ? (char *)vp_hex(vp_w[2], NULL) : NULL; J.line = (int)vp_i(3); J.n = vp_w[4][0] == 'x' ? (char *)vp_hex(vp_w[4], NULL) : NULL;
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d,", h); ctext(J.f); fprintf(vp_f, ",%d,", J.line); ctext(J.n); fputc(']', vp_f); doit(h); }
        else if (!strcmp(op, "getdbg")) { J.kind = 4; J.f = J.n = "junk"; J.line = -7; doit(h); vp_ev(op); fprintf(vp_f, ",\"a\":[%d]", h);
            fprintf(vp_f, ",\"r\":%d,\"w\":[", J.line); ctext(J.f); fputc(',', vp_f); ctext(J.n); fputc(']', vp_f); vp_end(); continue; }
        else if (!strcmp(op, "many")) {    /* many h threads n level */
            pthread_t t[9]; int nt = (int)vp_i(2), d; char *s, *e; size_t z; if (!L[h]) continue; mn = (int)vp_i(3); mv = (int)vp_i(4); mh = h; in_lib = 1;
            pthread_barrier_init(&bar, NULL, nt); for (i = 0; i < nt; i++) pthread_create(&t[i], NULL, many, (void *)(long)(i + 1)); for (i = 0; i < nt; i++) pthread_join(t[i], NULL); in_lib = 0;
            vp_ev(op); fprintf(vp_f, ",\"a\":[%d,%d,%d,%d]", h, nt, mn, mv); vp_key("lines"); fputc('[', vp_f);
            for (i = 0, d = 1; d < 3; d++) { z = fresh(d, &s); for (p = s; p && *p; p = e) { e = strchr(p, '\n'); e = e ? e + 1 : p + strlen(p); if (i++) fputc(',', vp_f); text(p, e - p); } free(s); }
            fputc(']', vp_f); }
        else vp_die(op);
        vp_int("r", r); vp_key("w"); wrote(); vp_end(); free(copy);
    }
    vp_ev("leave"); vp_end();
    in_lib = 1; exit(0);
}
int main(void) {
    static char *ln[100000]; int nl = 0, st, eof = 0; char *b = NULL; size_t c = 0; ssize_t n;
    vp_open();
    while (!eof) {
        eof = (n = getline(&b, &c, stdin)) < 0;
        if (!eof) { while (n && b[n - 1] == '\n') b[--n] = 0; if (!n) continue; }
        if (nl && (eof || !strncmp(b, "reset", 5))) {
            fflush(NULL); pid_t p = fork(); if (!p) child(ln, nl);
            waitpid(p, &st, 0); if (st) { fprintf(stderr, "a run ended with status %x\n", st); return WIFEXITED(st) ? WEXITSTATUS(st) : 97; }
            while (nl) free(ln[--nl]); }
        if (!eof) ln[nl++] = strdup(b); }
    return 0;
}

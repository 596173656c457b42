/* Drives zt_daemonize: every line is a process that becomes a daemon, or fails to.  All processes it leaves are awaited here. */
#include <zt.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "vp.h"
struct D { int r, sid, pid, mask, nf; char cwd[1024]; struct { int fd; char on[64]; } f[256]; };
static struct { int forks, daemons, hung, back; struct D d[4]; } *S;
static char faults[16][16]; static int nfaults, inf, in_lib; static long closes;
static int has(const char *f) { int k; for (k = 0; k < nfaults; k++) if (!strcmp(faults[k], f)) return 1; return 0; }
pid_t __real_fork(void); pid_t __real_setsid(void); int __real_getrlimit(int, struct rlimit *); int __real_close(int); int __real_chdir(const char *);
pid_t __wrap_fork(void) {
    pid_t p; if (!in_lib) return __real_fork();
    if (has(S->forks ? "fork2" : "fork1")) { errno = EAGAIN; return -1; }
    S->forks++; p = __real_fork(); return p; }
pid_t __wrap_setsid(void) { if (in_lib && has("slow")) usleep(30000); if (in_lib && has("setsid")) { errno = EPERM; return -1; } return __real_setsid(); }
int __wrap_getrlimit(int w, struct rlimit *r) {
    int k; if (in_lib && has("limit")) { errno = EINVAL; return -1; }
    k = __real_getrlimit(w, r); if (in_lib && inf) r->rlim_cur = inf == 1 ? RLIM_INFINITY : (rlim_t)INT_MAX + 3; return k; }
int __wrap_close(int fd) {
    if (in_lib && fd > 4096) { if (++closes > 2147483647L) { S->hung = 1; _exit(77); } return -1; }
    return __real_close(fd); }
unsigned __wrap_sleep(unsigned s) { if (in_lib) { usleep(1000); return 0; } usleep(s * 1000000u); return 0; }
int __wrap_chdir(const char *p) { if (in_lib && has("chdir")) { errno = ENOENT; return -1; } return __real_chdir(p); }
static void report(int r) {
    struct D *d = &S->d[S->daemons < 3 ? S->daemons : 3]; int fd; mode_t m = umask(0);
    S->daemons++; d->r = r; d->sid = getsid(0); d->pid = getpid(); d->mask = (int)m; d->nf = 0; if (!getcwd(d->cwd, sizeof d->cwd)) *d->cwd = 0;
    for (fd = 0; fd < 256; fd++) if (fcntl(fd, F_GETFD) != -1) {
        char l[64], t[256]; int a = fcntl(fd, F_GETFL) & O_ACCMODE; ssize_t n; sprintf(l, "/proc/self/fd/%d", fd); n = readlink(l, t, sizeof t - 1); t[n < 0 ? 0 : n] = 0;
        d->f[d->nf].fd = fd; strcpy(d->f[d->nf++].on, !strcmp(t, "/dev/null") && (a == O_RDWR || a == (fd ? O_WRONLY : O_RDONLY)) ? "null" : "other"); }
}
static char **line; static size_t nl, cap;
int main(void) {
    static char *b; static size_t bc; ssize_t n; size_t k; char top[512], root[600];
    vp_open();
    if (!getcwd(top, sizeof top)) vp_die("cwd");
    sprintf(root, "%s/root", top); mkdir(root, 0755);
    prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    while ((n = getline(&b, &bc, stdin)) > 0) { if (b[n - 1] == '\n') b[n - 1] = 0; if (nl == cap) line = realloc(line, (cap = cap * 2 + 64) * sizeof *line); line[nl++] = strdup(b); }
    for (k = 0; k < nl; k++) {
        char *w = strtok(line[k], " "), *r_, *m_, *fds, *lim, *t; pid_t c, q; int st, caller = -1, started = 0, i, sid = getsid(0), cmask; size_t j;
        if (!strcmp(w, "reset")) { vp_ev("reset"); vp_end(); continue; }
        r_ = strtok(NULL, " "); m_ = strtok(NULL, " "); lim = strtok(NULL, " "); fds = strtok(NULL, " ");
        nfaults = 0; while ((t = strtok(NULL, " "))) strcpy(faults[nfaults++], t);
        memset(S, 0, sizeof *S); cmask = (int)strtol(m_, NULL, 8); inf = !strcmp(lim, "inf") ? 1 : !strcmp(lim, "big") ? 2 : 0;
        if ((c = __real_fork()) == 0) {
            struct rlimit l = { 0, 0 }; int r; getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = inf ? 200 : (rlim_t)atoi(lim); setrlimit(RLIMIT_NOFILE, &l);
            /* what is open: a letter a descriptor from 0, o open, - closed */
            for (i = 0; fds[i]; i++) { if (fds[i] == '-') { if (i != fileno(vp_f)) close(i); } else if (fcntl(i, F_GETFD) == -1) { int f = open("/proc/self/status", O_RDONLY); if (f != i) { dup2(f, i); close(f); } } }
            umask(022);
            in_lib = 1; r = zt_daemonize(!strcmp(r_, "none") ? NULL : !strcmp(r_, "root") ? root : "nowhere", (mode_t)cmask, 0); in_lib = 0;
            if (getpid() == getppid() || getpid() == S->back) _exit(78);
            report(r); _exit(0);
        }
        S->back = c;
        while ((q = wait(&st)) > 0) if (q == c) { started = S->forks > 1; caller = WIFEXITED(st) ? WEXITSTATUS(st) : 200; } else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) exit(99); else if (WIFSIGNALED(st)) caller = 201;
        if (caller == 99) exit(99);
        for (i = 0; i < S->daemons && i < 4; i++) if (S->d[i].pid == c) caller = 78;          /* the caller itself went on */
        vp_ev("daemon"); fputs(",\"faults\":[", vp_f);
        { int f = 1; for (i = 0; i < nfaults; i++) if (strcmp(faults[i], "slow")) { fprintf(vp_f, "%s\"%s\"", f ? "" : ",", faults[i]); f = 0; } if (!strcmp(r_, "nowhere")) fprintf(vp_f, "%s\"chdir\"", f ? "" : ","); }
        fputs("]", vp_f); vp_bool("started", started);
        if (caller == 78) fputs(",\"caller\":\"on\"", vp_f); else fprintf(vp_f, ",\"caller\":\"gone%d\"", caller);
        vp_bool("hung", S->hung); vp_int("r", S->daemons); fputs(",\"daemons\":[", vp_f);
        for (i = 0; i < S->daemons && i < 4; i++) { struct D *d = &S->d[i];
            fprintf(vp_f, "%s{\"r\":%d,\"newsession\":%s,\"leader\":%s,\"indir\":%s,\"mask\":%s,\"fds\":[", i ? "," : "", d->r, d->sid != sid ? "true" : "false", d->sid == d->pid ? "true" : "false",
                    !strcmp(d->cwd, !strcmp(r_, "root") ? root : top) ? "true" : "false", d->mask == cmask ? "true" : "false");
            for (j = 0; j < (size_t)d->nf; j++) fprintf(vp_f, "%s[%d,\"%s\"]", j ? "," : "", d->f[j].fd, d->f[j].on);
            fputs("]}", vp_f); }
        fputc(']', vp_f); vp_end();
    }
    return 0;
}

/* Drives zt_mkdir, zt_path_exists, zt_find_basedir and zt_writepid in a directory of its own.  While a directory is being made
   other processes may make things too and the system may refuse; both happen at a given system call.                       */
#include <zt.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "vp.h"
static char home[2048]; static int in_lib, ncall, nact; static long pid_; static int wfault;
static struct { int at, kind, err, all; char *path; int done; } A[8];     /* kind 0 directory, 1 file, 2 refuse */
static int refused; static void hung(void);
int __real_mkdir(const char *, mode_t); int __real_stat(const char *, struct stat *); ssize_t __real_write(int, const void *, size_t); pid_t __real_getpid(void);
static void others(void) {
    int k; ncall++;
    if (ncall > 100000) hung();
    for (k = 0; k < nact; k++) if (A[k].kind < 2 && A[k].at == ncall) {
        mode_t m = umask(0); in_lib = 0;
        if (A[k].kind == 0) { char b[600], *p; snprintf(b, sizeof b, "%s", A[k].path); for (p = b; *p; p++) if (*p == '/') { *p = 0; __real_mkdir(b, 0755); *p = '/'; } __real_mkdir(b, 0755); A[k].done = 1; }
        else { int fd = open(A[k].path, O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd >= 0) { A[k].done = 1; close(fd); } }
        umask(m); in_lib = 1;
    }
}
int __wrap_mkdir(const char *p, mode_t m) {
    struct stat st; int k;
    if (!in_lib) return __real_mkdir(p, m);
    others();
    if (p[0] == '/' && strncmp(p, home, strlen(home)) && strspn(p, "/") != strlen(p)) vp_die("outside");
    for (k = 0; k < nact; k++) if (A[k].kind == 2 && (A[k].at == ncall || (A[k].all && A[k].at < ncall)) && __real_stat(p, &st)) { refused = 1; errno = A[k].err; return -1; }
    return __real_mkdir(p, m);
}
int __wrap_stat(const char *p, struct stat *st) { if (in_lib) others(); return __real_stat(p, st); }
pid_t __wrap_getpid(void) { return in_lib && pid_ ? (pid_t)pid_ : __real_getpid(); }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (in_lib && (wfault == 1 || wfault > 3)) { wfault = wfault == 1 ? 0 : wfault == 4 ? 1 : wfault - 1; errno = EINTR; return -1; }     /* 1: interrupted once, 4: twice, ... */
    if (in_lib && wfault == 2 && n > 1) return __real_write(fd, b, n - 1);
    if (in_lib && wfault == 3) { errno = ENOSPC; return -1; }
    return __real_write(fd, b, n);
}
static void chars(const char *s, size_t n) { size_t k; fputc('[', vp_f); for (k = 0; k < n; k++) fprintf(vp_f, "%s%u", k ? "," : "", (unsigned char)s[k]); fputc(']', vp_f); }
static int first;
static char *stk[64];
static void list(int dfd, int d) {
    DIR *D = fdopendir(dfd); struct dirent *x; int k;
    while ((x = readdir(D))) {
        struct stat st; if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
        if (d > 60) vp_die("deep");
        stk[d] = x->d_name; fstatat(dfd, x->d_name, &st, AT_SYMLINK_NOFOLLOW);
        fprintf(vp_f, "%s[[", first ? "" : ","); first = 0;
        for (k = 0; k <= d; k++) { if (k) fputc(',', vp_f); chars(stk[k], strlen(stk[k])); }
        fprintf(vp_f, "],\"%s\",%d,", S_ISDIR(st.st_mode) ? "dir" : S_ISREG(st.st_mode) ? "file" : "other", (int)(st.st_mode & 07777));
        if (S_ISDIR(st.st_mode)) fputs("[]", vp_f); else { char b[4096]; int fd = openat(dfd, x->d_name, O_RDONLY); ssize_t n = read(fd, b, sizeof b); chars(b, n < 0 ? 0 : (size_t)n); close(fd); }
        fputc(']', vp_f);
        if (S_ISDIR(st.st_mode)) list(openat(dfd, x->d_name, O_RDONLY | O_DIRECTORY), d + 1);
    }
    closedir(D);
}
static void finish(void) { fputs(",\"tree\":[", vp_f); first = 1; list(open(".", O_RDONLY | O_DIRECTORY), 0); fputc(']', vp_f); vp_end(); }
static void did(void) {
    int k, f = 1; fputs(",\"did\":[", vp_f);
    for (k = 0; k < nact; k++) if (A[k].done) { fprintf(vp_f, "%s[", f ? "" : ","); f = 0; chars(A[k].path, strlen(A[k].path)); fprintf(vp_f, ",\"%s\"]", A[k].kind ? "file" : "dir"); }
    fprintf(vp_f, "],\"refused\":%s", refused ? "true" : "false"); }
static void hung(void) { in_lib = 0; fputs(",\"r\":999", vp_f); did(); finish(); exit(0); }
/* @ in front is where we are */
static char *path(const char *w, char **shown, size_t *len) {
    char *p = (char *)vp_hex(w, len), *q; *shown = p;
    if (*p != '@') { q = malloc(*len + 1); memcpy(q, p, *len + 1); return q; }
    q = malloc(*len + strlen(home) + 1); sprintf(q, "%s%s", home, p + 1); return q; }
int main(void) {
    int n, runs = 0, k; char top[1024];
    vp_open(); umask(0);
    if (!getcwd(top, sizeof top)) vp_die("cwd");
    zt_log_set_level(zt_log_logger(NULL), zt_log_emerg);
    while ((n = vp_line()) >= 0) {
        const char *op; char *p = NULL, *sp = NULL, *q = NULL; size_t l;
        if (!n) continue;
        op = vp_w[0];
        if (!strcmp(op, "reset") || !strcmp(op, "clear")) {
            sprintf(home, "%s/r%d", top, runs++); if (__real_mkdir(home, 0755) || chdir(home)) vp_die("home");
            if (*op == 'r') umask(0);
            vp_ev(op); fputs(",\"a\":[],\"r\":0", vp_f); finish(); continue;
        }
        if (!strcmp(op, "put")) { struct stat st; if (!__real_stat((char *)vp_hex(vp_w[1], &l), &st) && S_ISDIR(st.st_mode)) continue; }    /* taken */
        vp_ev(op); fputs(",\"a\":[", vp_f);
        for (k = 0; k < nact; k++) { free(A[k].path); memset(&A[k], 0, sizeof A[k]); }
        nact = 0; ncall = 0; refused = 0; wfault = 0; pid_ = 0;
        if (!strcmp(op, "umask")) { umask((mode_t)vp_i(1)); fprintf(vp_f, "%ld],\"r\":0", vp_i(1)); }
        else if (!strcmp(op, "put")) {
            mode_t m; int fd; p = path(vp_w[1], &sp, &l); q = (char *)vp_hex(vp_w[2], &l); m = umask(0); umask(m);
            fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || __real_write(fd, q, l) < 0) vp_die("put"); close(fd);
            chars(sp, strlen(sp)); fputc(',', vp_f); chars(q, l); fputs("],\"r\":0", vp_f);
        } else if (!strcmp(op, "mkdir")) {
            int r; p = path(vp_w[1], &sp, &l); chars(sp, l); fprintf(vp_f, ",%ld,%ld]", vp_i(2), vp_i(3));
            for (k = 4; k < n; k++) {               /* what:call:detail */
                char *c = strchr(vp_w[k], ':'), *d = strchr(c + 1, ':');
                A[nact].kind = *vp_w[k] == 'd' ? 0 : *vp_w[k] == 'f' ? 1 : 2; A[nact].all = *vp_w[k] == 'R'; A[nact].at = atoi(c + 1);
                if (A[nact].kind == 2) A[nact].err = atoi(d + 1); else A[nact].path = (char *)vp_hex(d + 1, NULL);
                nact++; }
            in_lib = 1; r = zt_mkdir(p, (mode_t)vp_i(2), vp_i(3) ? zt_mkdir_create_parent : 0); in_lib = 0;
            fprintf(vp_f, ",\"r\":%d", r); did();
        } else if (!strcmp(op, "exists")) {
            p = path(vp_w[1], &sp, &l); chars(sp, l); in_lib = 1; k = zt_path_exists(p); in_lib = 0; fprintf(vp_f, "],\"r\":%d", k);
        } else if (!strcmp(op, "basedir")) {
            char *r; p = path(vp_w[1], &sp, &l); chars(sp, l); q = (char *)vp_hex(vp_w[2], &l); fputc(',', vp_f); chars(q, l); fputs("],\"r\":", vp_f);
            in_lib = 1; r = zt_find_basedir(p, q); in_lib = 0;
            if (!r) fputs("[0]", vp_f);
            else if (!strncmp(r, home, strlen(home))) { size_t h = strlen(home); r[h - 1] = '@'; chars(r + h - 1, strlen(r + h - 1)); }
            else chars(r, strlen(r));
            free(r);
        } else if (!strcmp(op, "writepid")) {
            int bad;
            if (strcmp(vp_w[1], "-")) { p = path(vp_w[1], &sp, &l); chars(sp, l); } else fputs("[0]", vp_f);
            pid_ = vp_i(2); wfault = n > 3 ? (int)vp_i(3) : 0; bad = wfault == 2 ? 2 : wfault == 3; fprintf(vp_f, ",%ld]", pid_);
            in_lib = 1; k = zt_writepid(p); in_lib = 0; fprintf(vp_f, ",\"fault\":\"%s\",\"r\":%d", bad == 2 ? "short" : bad ? "fails" : "", k);
        } else vp_die("op");
        finish(); if (sp != p) free(p); free(sp); free(q); 
    }
    return 0;
}

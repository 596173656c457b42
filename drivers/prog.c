/* Drives zt_progname and zt_progpath in a tree of its own; "@" in front of a path stands for the tree's root. */
#include <zt.h>
#include <limits.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "vp.h"
static char home[2048], exe_[PATH_MAX + 1]; static char *F[256]; static int nf;
static void chars(const char *s) { size_t k; fputc('[', vp_f); for (k = 0; s[k]; k++) fprintf(vp_f, "%s%u", k ? "," : "", (unsigned char)s[k]); fputc(']', vp_f); }
static void under(const char *s) {           /* a text that may begin with the root */
    size_t h = strlen(home); char *b;
    if (strncmp(s, home, h) || (s[h] && s[h] != '/')) { chars(s); return; }
    b = malloc(strlen(s) + 2); sprintf(b, "@%s", s + h); chars(b); free(b); }
/* every @ is the root */
static char *real(const char *s) {
    char *b = malloc(strlen(s) + 1 + 8 * sizeof home), *q = b; for (; *s; s++) if (*s == '@') q += sprintf(q, "%s", home); else *q++ = *s; *q = 0; return b; }
int main(void) {
    static const char *dirs[] = { "/a", "/b", "/u", "/u/a", "/u/v", "/u/v/a", "/u/v/bin", "/a/c" };
    int n; size_t k; char b[3000];
    vp_open();
    if (!getcwd(b, sizeof b)) vp_die("cwd");
    sprintf(home, "%s/root", b); mkdir(home, 0755);
    for (k = 0; k < sizeof dirs / sizeof *dirs; k++) { sprintf(b, "%s%s", home, dirs[k]); if (mkdir(b, 0755)) vp_die("mkdir"); }
    { ssize_t m = readlink("/proc/self/exe", exe_, PATH_MAX); if (m < 0) vp_die("exe"); exe_[m] = 0; }
    zt_log_set_level(zt_log_logger(NULL), zt_log_emerg);
    while ((n = vp_line()) >= 0) {
        const char *op; char *t = NULL, *p = NULL;
        if (!n) continue;
        op = vp_w[0]; vp_ev(op);
        if (!strcmp(op, "reset")) {
            while (nf) { unlink(F[--nf]); free(F[nf]); }
            sprintf(b, "%s/u/v", home); if (chdir(b)) vp_die("cd"); setenv("PATH", "", 1);
            t = strdup(exe_); *strrchr(t, '/') = 0;
            fputs(",\"a\":[],\"exe\":", vp_f); under(t); fputs(",\"r\":[", vp_f); under(zt_progname(NULL, 0)); fputc(',', vp_f); under(zt_progpath(NULL)); fputc(']', vp_f);
            free(t); vp_end(); continue;
        }
        if (n > 1 && strcmp(vp_w[1], "-")) { t = (char *)vp_hex(vp_w[1], NULL); p = real(t); }
        fputs(",\"a\":[", vp_f); if (n > 1) { if (t) chars(t); else fputs("[0]", vp_f); }
        if (!strcmp(op, "name")) { fprintf(vp_f, ",%ld],\"r\":", vp_i(2)); chars(zt_progname(t, vp_i(2) ? STRIP_DIR : 0)); }
        else if (!strcmp(op, "path")) { fputs("],\"r\":", vp_f); under(zt_progpath(p)); }
        else if (!strcmp(op, "os")) { char *r = zt_os_progpath(); fputs("],\"file\":", vp_f); chars(strrchr(exe_, '/') + 1); fputs(",\"r\":", vp_f); under(r); free(r); }
        else {
            fputs("],\"r\":0", vp_f);
            if (!strcmp(op, "env")) { if (p) setenv("PATH", p, 1); else unsetenv("PATH"); }
            else if (!strcmp(op, "cd")) { if (chdir(p)) vp_die("cd"); }
            else if (!strcmp(op, "put")) { int fd = open(p, O_CREAT | O_WRONLY, 0755); if (fd < 0) vp_die("put"); close(fd); F[nf++] = strdup(p); }
            else if (!strcmp(op, "rm")) unlink(p);
            else vp_die("op");
        }
        vp_end(); free(t); free(p);
    }
    while (nf) { unlink(F[--nf]); free(F[nf]); }
    return 0;
}

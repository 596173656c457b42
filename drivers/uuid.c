/* Drives zt_uuid. */
#include <zt.h>
#include <libzt/zt_uuid.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include "vp.h"
static void ev_gen(const unsigned char *b) { vp_ev("gen"); vp_int("nb", 1); vp_bytes("r", b, 16); vp_end(); }
static void one(zt_uuid_t *u) { memset(u, 0xEE, sizeof *u); if (zt_uuid4(u) != 0) memset(u, 0, sizeof *u); }
static void put(const zt_uuid_t *u) { size_t n = fwrite(u->data.bytes, 1, 16, stdout); (void)n; }
static int tn; static pthread_barrier_t bar;
static void *thr(void *p) { zt_uuid_t *u = p; int i; pthread_barrier_wait(&bar); for (i = 0; i < tn; i++) one(u + i); return NULL; }
static void drain(int fd) { unsigned char b[16]; size_t k = 0; ssize_t r;
    while ((r = read(fd, b + k, 16 - k)) > 0) { k += r; if (k == 16) { ev_gen(b); k = 0; } }
    if (k) vp_bad("cut identifier"); close(fd); }
/* forks depth deep: every process makes n before and n after the fork */
static void tree(int fd, int n, int depth) {
    zt_uuid_t u; int i, st; pid_t p[2];
    for (i = 0; i < n; i++) { one(&u); if (write(fd, u.data.bytes, 16) != 16) _exit(9); }
    if (!depth) return;
    for (i = 0; i < 2; i++) if (!(p[i] = fork())) { tree(fd, n, depth - 1); _exit(0); }
    for (i = 0; i < n; i++) { one(&u); if (write(fd, u.data.bytes, 16) != 16) _exit(9); }
    for (i = 0; i < 2; i++) waitpid(p[i], &st, 0);
}
static void pair(const char *k, long r, const void *p, size_t n) {
    size_t i; const unsigned char *b = p; fprintf(vp_f, ",\"%s\":[%ld,[", k, r);
    for (i = 0; i < n; i++) fprintf(vp_f, "%s%u", i ? "," : "", b[i]);
    fputs("]]", vp_f);
}
int main(int ac, char **av) {
    int n;
    if (ac > 2) { zt_uuid_t u; int i; for (i = 0; i < atoi(av[2]); i++) { one(&u); put(&u); } return 0; }
    vp_open();
    while ((n = vp_line()) >= 0) {
        if (!n) continue;
        const char *op = vp_w[0]; size_t len = 0, l2; int i;
        if (!strcmp(op, "gen")) { for (i = 0; i < vp_i(1); i++) { zt_uuid_t u; one(&u); ev_gen(u.data.bytes); } continue; }
        if (!strcmp(op, "threads")) {
            int t = vp_i(1), j; pthread_t th[64]; zt_uuid_t *u; tn = vp_i(2); u = malloc(sizeof(*u) * t * tn);
            pthread_barrier_init(&bar, NULL, t);
            for (j = 0; j < t; j++) pthread_create(&th[j], NULL, thr, u + j * tn);
            for (j = 0; j < t; j++) pthread_join(th[j], NULL);
            pthread_barrier_destroy(&bar);
            for (j = 0; j < t * tn; j++) ev_gen(u[j].data.bytes);
            free(u); continue;
        }
        if (!strcmp(op, "fork")) {
            int fd[2], st; pid_t p; if (pipe(fd)) vp_die("pipe"); fflush(vp_f);
            if (!(p = fork())) { close(fd[0]); tree(fd[1], vp_i(2), vp_i(1)); _exit(0); }
            close(fd[1]); drain(fd[0]); waitpid(p, &st, 0); if (st) vp_bad("a forked process failed");
            continue;
        }
        if (!strcmp(op, "proc")) {                /* unrelated processes at the same moment, alike in every address */
            int t = vp_i(1), j, fd[64][2]; pid_t p[64];
            for (j = 0; j < t; j++) {
                if (pipe(fd[j])) vp_die("pipe");
                if (!(p[j] = fork())) { dup2(fd[j][1], 1); personality(ADDR_NO_RANDOMIZE); execl("/proc/self/exe", "uuid", "gen", vp_w[2], NULL); _exit(9); }
                close(fd[j][1]);
            }
            for (j = 0; j < t; j++) { int st; drain(fd[j][0]); waitpid(p[j], &st, 0); if (st) vp_bad("a process failed"); }
            continue;
        }
        if (!strcmp(op, "named")) {
            unsigned char *a = vp_hex(vp_w[2], &len), *in = malloc(len); zt_uuid_t u; int r;
            memcpy(in, a, len); r = zt_uuid5((char *)in, len, (zt_uuid_ns)vp_i(1), &u);
            vp_ev(op); vp_int("ns", vp_i(1)); vp_bytes("a", in, len); pair("r", r, u.data.bytes, r ? 0 : 16); vp_end(); free(a); free(in); continue;
        }
        if (!strcmp(op, "cmp")) {
            unsigned char *a = vp_hex(vp_w[1], &len), *b = vp_hex(vp_w[2], &l2); zt_uuid_t x, y; int r;
            memcpy(&x, a, 16); memcpy(&y, b, 16); r = zt_uuid_cmp(&x, &y);
            vp_ev(op); vp_bytes("a", a, 16); vp_bytes("b", b, 16); vp_int("r", (r > 0) - (r < 0)); vp_end(); free(a); free(b); continue;
        }
        zt_uuid_flags_t f = (zt_uuid_flags_t)vp_i(1); unsigned char *a = vp_hex(vp_w[2], &len); zt_uuid_t *u = NULL; char *t = NULL;
        if (!strcmp(op, "tostr") || !strcmp(op, "fill")) { if (len) { u = malloc(sizeof *u); memcpy(u, a, 16); } }
        else { t = malloc(len + 1); memcpy(t, a, len); t[len] = 0; }
        vp_ev(op); vp_int("f", vp_i(1)); vp_bytes("a", a, len);
        if (!strcmp(op, "tostr")) {
            char *s = (char *)1; ssize_t r = zt_uuid_tostr(u, &s, f);
            if (r >= 0) { pair("r", r, s, strlen(s)); zt_free(s); } else pair("r", r, "", 0);
        } else if (!strcmp(op, "fill")) {         /* fill f u has k */
            int has = vp_i(3); long k = vp_i(4); size_t z = k; char *s = NULL; ssize_t r;
            if (has) { s = malloc(k > 0 ? k : 0); memset(s, 'Z', k > 0 ? k : 0); }
            r = zt_uuid_fillstr(u, s, k < 0 ? NULL : &z, f);
            vp_bool("b", has); vp_int("k", k);
            fprintf(vp_f, ",\"r\":[%ld,%ld,[", (long)r, (long)z);
            if (r > 0) for (i = 0; s[i]; i++) fprintf(vp_f, "%s%d", i ? "," : "", s[i]);
            fputs("]]", vp_f); free(s);
        } else if (!strcmp(op, "of")) {
            zt_uuid_t *v = malloc(sizeof *v); int r = zt_uuid_fromstr(t, v, f); pair("r", r, v, r ? 0 : 16); free(v);
        } else vp_int("r", zt_uuid_isvalid(t, f));
        vp_end(); free(a); free(u); free(t);
    }
    return 0;
}

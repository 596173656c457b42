/* Drives the time functions.  The processor's clocks are stand-ins: reading them costs a set time, the timed function too. */
#include <zt.h>
#include <libzt/zt_log/log_interface.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "vp.h"
typedef struct timeval tv;
static tv clk[2], cost[2], each[2]; static long calls;
static void adv(tv *c, const tv *d) { c->tv_sec += d->tv_sec; c->tv_usec += d->tv_usec; if (c->tv_usec >= 1000000) { c->tv_usec -= 1000000; c->tv_sec++; } }
int __wrap_getrusage(int who, struct rusage *r) { memset(r, 0x55, sizeof *r); r->ru_utime = clk[0]; r->ru_stime = clk[1]; adv(&clk[0], &cost[0]); adv(&clk[1], &cost[1]); return 0; }
static int marker;
static void *fn(void *d) { if (d != &marker) vp_bad("data"); calls++; adv(&clk[0], &each[0]); adv(&clk[1], &each[1]); return (void *)calls; }
static tv get(int k) { tv t; t.tv_sec = vp_i(k); t.tv_usec = vp_i(k + 1); return t; }
static void put(const tv *t) {
    unsigned long v = t->tv_sec < 0 ? -(unsigned long)t->tv_sec : (unsigned long)t->tv_sec; int k;
    fprintf(vp_f, "[[%d", t->tv_sec < 0); for (k = 7; k >= 0; k--) fprintf(vp_f, ",%lu", (v >> (8 * k)) & 255); fprintf(vp_f, "],%ld]", (long)t->tv_usec); }
static void put_(tv t) { put(&t); }
static void chars(const char *s, size_t n) { size_t k; fputc('[', vp_f); for (k = 0; k < n; k++) fprintf(vp_f, "%s%u", k ? "," : "", (unsigned char)s[k]); fputc(']', vp_f); }
int main(void) {
    int n; zt_log_ty *log = NULL;
    vp_open();
    while ((n = vp_line()) >= 0) {
        const char *op;
        if (!n) continue;
        op = vp_w[0]; vp_ev(op);
        if (!strcmp(op, "reset")) { vp_end(); continue; }
        fputs(",\"a\":[", vp_f);
        if (!strcmp(op, "add") || !strcmp(op, "sub") || !strcmp(op, "diff")) {
            tv x = get(1), y = get(3), z = { 77, 77 }, x0 = x, y0 = y, *a = &z, *p = &x, *q = &y, *r; int al = (int)vp_i(5);
            if (al == 1) a = p; if (al == 2) a = q; if (al == 3) a = q = p;
            put(&x); fputc(',', vp_f); put(&y); fprintf(vp_f, ",%d],\"r\":", al);
            r = *op == 'a' ? zt_add_time(a, p, q) : *op == 's' ? zt_sub_time(a, p, q) : zt_diff_time(a, p, q);
            if (r != a || (al != 1 && al != 3 && memcmp(&x, &x0, sizeof x)) || (al != 2 && memcmp(&y, &y0, sizeof y))) fputs("\"changed\"", vp_f); else put(r);
        } else if (!strcmp(op, "cmp")) {
            tv x = get(1), y = get(3); long c;
            put(&x); fputc(',', vp_f); put(&y); c = zt_cmp_time(&x, &y); fprintf(vp_f, "],\"r\":%d", c < 0 ? -1 : c > 0);
        } else if (!strcmp(op, "copy")) {
            tv x = get(1), y = { 5, 5 };
            put(&x); zt_copy_timeval(&y, &x); fputs("],\"r\":", vp_f); put(&y);
        } else if (!strcmp(op, "elapsed")) {
            struct time_result t; float u = 9, s = 9, g = 9; long a[4]; int k;
            for (k = 0; k < 4; k++) a[k] = vp_i(k + 1);
            t.usr_time.tv_sec = a[0]; t.usr_time.tv_usec = a[1] * 15625; t.sys_time.tv_sec = a[2]; t.sys_time.tv_usec = a[3] * 15625;
            zt_time_result_to_elapsed(&t, &u, &s, &g);
            fprintf(vp_f, "%ld,%ld,%ld,%ld],\"r\":[", a[0], a[1], a[2], a[3]);
            fprintf(vp_f, "%ld,%ld,%ld]", (long)(u * 64 + (u < 0 ? -0.25 : 0.25)), (long)(s * 64 + (s < 0 ? -0.25 : 0.25)), (long)(g * 64 + (g < 0 ? -0.25 : 0.25)));
        } else if (!strcmp(op, "print")) {
            struct time_result t; long c = vp_i(1), u = vp_i(3), s = vp_i(4); size_t l; char *name = (char *)vp_hex(vp_w[2], &l); static char buf[4096]; ssize_t m; static off_t at; int fd;
            if (!log) { log = zt_log_file("out.log", 0, ZT_LOG_RAW); zt_log_set_level(log, zt_log_debug); zt_log_logger(log); }
            t.usr_time.tv_sec = u / 100; t.usr_time.tv_usec = u % 100 * 10000; t.sys_time.tv_sec = s / 100; t.sys_time.tv_usec = s % 100 * 10000;
            fprintf(vp_f, "%ld,", c); chars(name, l); fprintf(vp_f, ",%ld,%ld],\"r\":", u, s);
            zt_time_print_result(&t, name, (int)c); fflush(NULL);
            if ((fd = open("out.log", O_RDONLY)) < 0 || (m = pread(fd, buf, sizeof buf, at)) < 0) vp_die("log");
            close(fd); at += m; while (m && buf[m - 1] == '\n') m--;
            chars(buf, (size_t)m); free(name);
        } else if (!strcmp(op, "calibrate")) {
            cost[0] = get(1); cost[1] = get(3); put(&cost[0]); fputc(',', vp_f); put(&cost[1]);
            zt_time_calibrate(); fputs("],\"r\":0", vp_f);
        } else if (!strcmp(op, "time")) {
            struct time_result t; long c = vp_i(1); void *r; memset(&t, 0x33, sizeof t);
            each[0] = get(2); each[1] = get(4); cost[0] = get(6); cost[1] = get(8); calls = 0;
            fprintf(vp_f, "%ld,", c); put(&each[0]); fputc(',', vp_f); put(&each[1]); fputc(',', vp_f); put(&cost[0]); fputc(',', vp_f); put(&cost[1]);
            r = zt_time((int)c, &t, c || n > 10 ? fn : NULL, &marker);
            fprintf(vp_f, "],\"r\":[%ld,%ld,", calls, (long)r); put(&t.usr_time); fputc(',', vp_f); put(&t.sys_time); fputc(']', vp_f);
        } else vp_die("op");
        vp_end();
    }
    return 0;
}

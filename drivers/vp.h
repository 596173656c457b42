/* Shared by the drivers: read a line-based script on stdin, append ndjson events to $VP_TRACE. */
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>

static FILE *vp_f;
static int vp_first;

static void vp_open(void) {
    const char *p = getenv("VP_TRACE");
    vp_f = fopen(p ? p : "/dev/stdout", "a");
    if (!vp_f) { perror("VP_TRACE"); exit(98); }
    setvbuf(vp_f, NULL, _IOLBF, 1 << 16);
}
static void vp_die(const char *why) { fprintf(stderr, "driver: %s\n", why); exit(98); }
/* the code under test did what it must not */
__attribute__((unused)) static void vp_bad(const char *why) { fprintf(stderr, "the library: %s\n", why); abort(); }

/* next script line, split in blank separated words; returns the word count, -1 at the end */
#define VP_MAXW 4096
static char *vp_w[VP_MAXW];
static int vp_line(void) {
    static char *buf; static size_t cap;
    ssize_t n = getline(&buf, &cap, stdin);
    int c = 0; char *s;
    if (n < 0) return -1;
    while (n && (buf[n-1] == '\n' || buf[n-1] == '\r')) buf[--n] = 0;
    for (s = strtok(buf, " "); s && c < VP_MAXW; s = strtok(NULL, " ")) vp_w[c++] = s;
    return c;
}
static long vp_i(int k) { return strtol(vp_w[k], NULL, 0); }
/* "x4142" -> bytes, "x" -> empty */
static unsigned char *vp_hex(const char *w, size_t *len) {
    size_t n = strlen(w), i; unsigned char *b;
    if (w[0] != 'x') vp_die("bad hex word");
    w++; n--;
    b = malloc(n / 2 + 1);
    for (i = 0; i + 1 < n; i += 2) { unsigned v; sscanf(w + i, "%2x", &v); b[i/2] = (unsigned char)v; }
    b[n/2] = 0;
    if (len) *len = n / 2;
    return b;
}
static void vp_ev(const char *op) { fprintf(vp_f, "{\"op\":\"%s\"", op); }
static void vp_key(const char *k) { fprintf(vp_f, ",\"%s\":", k); }
static void vp_int(const char *k, long v) { fprintf(vp_f, ",\"%s\":%ld", k, v); }
static void vp_bool(const char *k, int v) { fprintf(vp_f, ",\"%s\":%s", k, v ? "true" : "false"); }
static void vp_ints(const char *k, const long *v, int n) {
    int i; fprintf(vp_f, ",\"%s\":[", k);
    for (i = 0; i < n; i++) fprintf(vp_f, "%s%ld", i ? "," : "", v[i]);
    fputc(']', vp_f);
}
static void vp_bytes(const char *k, const void *p, size_t n) {
    size_t i; const unsigned char *b = p; fprintf(vp_f, ",\"%s\":[", k);
    for (i = 0; i < n; i++) fprintf(vp_f, "%s%u", i ? "," : "", b[i]);
    fputc(']', vp_f);
}
static void vp_end(void) { fputs("}\n", vp_f); fflush(vp_f); }
#endif
